#!/usr/bin/env python3
"""Writes the query catalogue twice from one list: harness/src/catalog.rs (real queries) and spec/Catalog.tla (terms).

Deterministic; both outputs are committed. Run it again after editing the list.
"""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def c(t): return ('c', t, 0)
def m(t): return ('c', t, 1)
def g(k, a, b, ma=0, mb=0): return ('g', k, a, b, ma, mb)
def tup(*s): return ('t', list(s))
def wl(x, q): return ('w', 'L', q, x)     # (Without<x>, q)
def wr(q, x): return ('w', 'R', q, x)     # (q, Without<x>)

A, B, C, D, E = 'ABCDE'
Q = []
def add(q):
    if q not in Q:
        Q.append(q)

# single components
for t in 'ABCDE':
    add(c(t)); add(m(t))
# pairs of shared/mutable components
for (x, y) in [(A, B), (B, A), (A, C), (C, A), (B, C), (C, B), (D, A), (B, D), (E, A), (A, E), (C, D), (D, E)]:
    add(tup(c(x), c(y)))
    add(tup(c(x), m(y)))
    add(tup(m(x), c(y)))
    add(tup(m(x), m(y)))
# threes, fours, fives
for (x, y, z) in [(A, B, C), (C, B, A), (B, A, D), (D, C, E)]:
    add(tup(c(x), c(y), c(z)))
    add(tup(m(x), c(y), m(z)))
    add(tup(c(x), m(y), c(z)))
    add(tup(m(x), m(y), m(z)))
for s in [(A, B, C, D), (D, C, B, A), (B, E, A, C)]:
    add(tup(*[c(x) for x in s])); add(tup(*[m(x) for x in s]))
    add(tup(c(s[0]), m(s[1]), c(s[2]), m(s[3])))
for s in [(A, B, C, D, E), (E, D, C, B, A), (C, A, E, B, D)]:
    add(tup(*[c(x) for x in s])); add(tup(*[m(x) for x in s]))
    add(tup(m(s[0]), c(s[1]), m(s[2]), c(s[3]), m(s[4])))
# same type twice, shared
add(tup(c(A), c(A))); add(tup(c(B), c(A), c(B)))
# nesting
add(tup(c(A), tup(c(B), c(C)))); add(tup(tup(c(A), c(B)), c(C))); add(tup(tup(m(A), c(B)), m(C)))
add(tup(m(A), tup(m(B), m(C)))); add(tup(tup(c(A), m(B)), tup(c(C), m(D))))
add(tup(c(A), tup(c(B), tup(c(C), tup(c(D), c(E)))))); add(tup(tup(c(C), c(B), c(A)), m(D)))
add(tup(m(E), tup(c(A), c(B), c(C)), c(D))); add(tup(tup(tup(tup(c(E), m(D)), m(C)), m(B)), m(A)))
# groups: every kind, every mutability, several pairs
PAIRS = [(A, B), (B, A), (A, C), (C, A), (B, C), (C, B), (C, D), (D, A), (E, B), (B, E)]
for k in 'FPN':
    for (x, y) in PAIRS:
        for ma in (0, 1):
            for mb in (0, 1):
                add(g(k, x, y, ma, mb))
# groups inside tuples
for k in 'FPN':
    add(tup(g(k, A, B), c(C))); add(tup(c(C), g(k, A, B))); add(tup(g(k, A, B, 1, 1), m(C)))
    add(tup(c(D), g(k, B, A, 0, 1))); add(tup(g(k, A, C, 1, 0), c(B), c(E)))
    add(tup(g(k, A, B), c(A))); add(tup(g(k, C, B), tup(c(A), m(D))))
add(tup(g('F', A, B), g('N', A, C))); add(tup(g('N', A, B), g('P', C, A))); add(tup(g('P', A, B), g('P', B, A)))
add(tup(g('F', A, B), g('N', A, B))); add(tup(g('F', A, B), g('F', C, D)))
add(tup(g('N', B, C), g('N', C, A), c(D))); add(tup(g('P', C, B), g('N', A, B)))
# exclusion filters
for (q, x) in [(c(A), c(B)), (m(A), c(B)), (c(A), m(B)), (c(B), c(A)), (c(C), c(A)), (c(A), c(C)), (c(A), c(A)),
               (m(D), c(E)), (c(E), m(C)), (m(C), m(B))]:
    add(wr(q, x)); add(wl(x, q))
for (q, x) in [(tup(c(A), c(B)), c(C)), (tup(m(A), m(B)), c(C)), (c(A), tup(c(B), c(C))), (m(A), tup(c(B), c(C))),
               (tup(c(A), c(C)), tup(c(B), c(D))), (tup(c(A), c(B), c(C)), c(D)), (c(D), tup(c(A), c(B), c(C)))]:
    add(wr(q, x)); add(wl(x, q))
for k in 'FPN':
    for (q, x) in [(g(k, A, B), c(C)), (g(k, A, B, 1, 1), c(C)), (c(C), g(k, A, B)), (c(A), g(k, A, B)), (m(C), g(k, B, A)),
                   (g(k, B, C, 0, 1), tup(c(A), c(D))), (tup(c(A), c(D)), g(k, A, C)), (c(B), g(k, B, A)),
                   (g(k, C, B, 1, 0), c(A)), (c(A), g(k, C, B))]:
        add(wr(q, x)); add(wl(x, q))
# nested filters and filters in tuples
add(wr(wr(c(A), c(B)), c(C))); add(wl(c(C), wl(c(B), c(A)))); add(wl(c(C), wr(c(A), c(B)))); add(wr(wl(c(B), m(A)), c(C)))
add(wr(c(A), wr(c(B), c(C)))); add(wl(wr(c(B), c(C)), c(A))); add(wr(m(A), wl(c(C), c(B)))); add(wl(wl(c(C), c(B)), m(A)))
add(tup(c(D), wr(c(A), c(B)))); add(tup(wr(c(A), c(B)), c(D))); add(tup(wl(c(B), m(A)), m(D))); add(tup(m(C), wl(c(B), c(A)), c(D)))
add(wr(tup(c(A), wr(c(B), c(C))), c(D))); add(tup(wr(c(A), c(B)), wl(c(C), c(D)))); add(wr(tup(c(A), wl(c(E), c(D))), tup(c(B), c(C))))
add(wr(c(A), wr(c(A), c(B)))); add(wl(wr(c(A), wr(c(A), c(B))), c(A)))
add(wr(g('N', A, B), g('N', B, C))); add(wl(g('F', A, B), g('N', A, C))); add(wr(g('P', A, B), wr(c(A), c(C))))

def rust(q):
    if q[0] == 'c':
        return ("&'a mut " if q[2] else "&'a ") + q[1]
    if q[0] == 'g':
        n = {'F': 'FullOwning', 'P': 'PartialOwning', 'N': 'NonOwning'}[q[1]]
        return "%s<%s,%s>" % (n, rust(('c', q[2], q[4])), rust(('c', q[3], q[5])))
    if q[0] == 't':
        return "(" + ",".join(rust(x) for x in q[1]) + ")"
    if q[1] == 'L':
        return "(Without<%s>,%s)" % (rust(q[3]), rust(q[2]))
    return "(%s,Without<%s>)" % (rust(q[2]), rust(q[3]))

def tla(q):
    if q[0] == 'c':
        return '[k |-> "c", t |-> "%s", m |-> %d]' % (q[1], q[2])
    if q[0] == 'g':
        return '[k |-> "g", g |-> <<"%s","%s","%s">>, m |-> <<%d,%d>>]' % (q[1], q[2], q[3], q[4], q[5])
    if q[0] == 't':
        return '[k |-> "t", s |-> <<%s>>]' % ", ".join(tla(x) for x in q[1])
    return '[k |-> "w", side |-> "%s", q |-> %s, x |-> %s]' % (q[1], tla(q[2]), tla(q[3]))

def types(q):
    if q[0] == 'c': return {q[1]}
    if q[0] == 'g': return {q[2], q[3]}
    if q[0] == 't': return set().union(*[types(x) for x in q[1]])
    return types(q[2]) | types(q[3])
def groups(q):
    if q[0] == 'g': return [(q[1], q[2], q[3])]
    if q[0] == 't': return sum([groups(x) for x in q[1]], [])
    if q[0] == 'w': return groups(q[2]) + groups(q[3])
    return []
def has(q, k):
    if q[0] == k: return True
    if q[0] == 't': return any(has(x, k) for x in q[1])
    if q[0] == 'w': return has(q[2], k) or has(q[3], k)
    return False
def muts(q):   # mutable components that appear in rows
    if q[0] == 'c': return q[2]
    if q[0] == 'g': return q[4] + q[5]
    if q[0] == 't': return sum(muts(x) for x in q[1])
    return muts(q[2])
def text(q):
    return rust(q).replace("&'a mut ", "&mut ").replace("&'a ", "&")
def klass(q):
    if has(q, 'w'): return 'W'      # exclusion filter somewhere
    if has(q, 'g'): return 'G' if q[0] == 'g' else 'H'   # a group / a group inside a tuple
    return 'S' if q[0] == 'c' else 'T'

def write():
    out = ["// Generated by tools/gen_catalog.py. Do not edit.",
           "use crate::comps::*; use crate::rows::*; use xecs::World; use xecs::query::Without; use xecs::group::{FullOwning,PartialOwning,NonOwning};",
           "#[rustfmt::skip]",
           "pub fn open<'a>(w: &'a World, i: usize) -> Box<dyn DynIter<'a> + 'a> { match i {"]
    for i, q in enumerate(Q):
        out.append("    %d => mk::<%s>(w)," % (i + 1, rust(q)))
    out.append('    _ => panic!("no such query") } }')
    out.append("pub struct Meta { pub text: &'static str, pub types: &'static str, pub groups: &'static [(char,char,char)], pub class: char, pub muts: usize }")
    out.append("#[rustfmt::skip]")
    out.append("pub const META: &[Meta] = &[")
    for q in Q:
        out.append('    Meta { text: "%s", types: "%s", groups: &[%s], class: \'%s\', muts: %d },' % (
            text(q), "".join(sorted(types(q))), ", ".join("('%s','%s','%s')" % x for x in groups(q)), klass(q), muts(q)))
    out.append("];")
    open(ROOT + "/harness/src/catalog.rs", "w").write("\n".join(out) + "\n")

    t = ["---- MODULE Catalog ----",
         "\\* Generated by tools/gen_catalog.py: the catalogue of query terms, in the order of harness/src/catalog.rs. Do not edit.",
         "\\* k = c: one component t (m: mutable); k = g: a group <<kind, a, b>>; k = t: a tuple of queries;",
         "\\* k = w: the query q filtered by the exclusion of x.",
         "EXTENDS Integers, Sequences", "Q == <<"]
    t += ["    %s%s" % (tla(q), "," if i + 1 < len(Q) else "") + " \\* %d: %s" % (i + 1, text(q)) for i, q in enumerate(Q)]
    t += [">>", "===="]
    open(ROOT + "/spec/Catalog.tla", "w").write("\n".join(t) + "\n")
    print(len(Q), "queries")

if __name__ == '__main__':
    write()
