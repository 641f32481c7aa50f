"""Walks through the state graph of XecsImpl, as printed by TLC, turned into operations for the harness."""
import collections, random, re
import gen_catalog as cat
import lib

EDGE = re.compile(r'<<\s*"E",\s*(-?\d+),\s*<<(.*?)>>,\s*(-?\d+)\s*>>', re.S)
INIT = re.compile(r'<<\s*"I",\s*(-?\d+)\s*>>')
TOK = re.compile(r'"([^"]*)"|(-?\d+)')

class Graph:
    pass

def build(name, consts, groups="GNone", workers=8, timeout=800):
    """Model checks XecsImpl under the constants (invariants, refinement of Xecs) and reads its state graph."""
    c = dict(consts)
    for k, d in (("Types", []), ("Late", []), ("Values", [1]), ("MaxId", 3), ("MaxGroups", 0), ("Batches", []), ("Misuse", False)):
        c.setdefault(k, d)
    gen, dist, out = lib.model("MCImpl", c, defs=[("Groups", groups)], invariants=["ImplInv", "XInv", "YieldOK", "EmitInit"],
                               properties=["Refines"], view="View", action_constraint="EmitEdge", workers=workers, timeout=timeout)
    g = Graph()
    g.name, g.types, g.states, g.transitions = name, list(c["Types"]) + list(c["Late"]), dist, gen
    g.reg = list(c["Types"])
    g.maxid = c["MaxId"]
    g.init = int(INIT.search(out).group(1))
    seen = set()
    g.out = collections.defaultdict(list)
    for s, op, t in EDGE.findall(out):
        op = tuple(a if a else int(b) for a, b in TOK.findall(op))
        e = (int(s), op, int(t))
        if e not in seen:
            seen.add(e)
            g.out[e[0]].append((op, e[2]))
    for v in g.out.values():
        v.sort(key=str)
    g.edges = len(seen)
    if g.edges == 0 or g.edges < dist - 1:
        raise lib.ToolError("state graph of %s was not read (%d edges, %d states)" % (name, g.edges, dist))
    # shortest paths from the start
    g.parent = {g.init: None}
    q = collections.deque([g.init])
    while q:
        s = q.popleft()
        for op, t in g.out.get(s, ()):
            if t not in g.parent:
                g.parent[t] = (s, op)
                q.append(t)
    return g

def path_to(g, s):
    p = []
    while g.parent[s] is not None:
        s, op = g.parent[s]
        p.append(op)
    return p[::-1]

def walks(g, rng, max_ops, length=120):
    """Sequences of operations that take every edge of the graph, or as many as fit."""
    todo = {s: list(range(len(v))) for s, v in g.out.items()}
    for v in todo.values():
        rng.shuffle(v)
    open_states = sorted(s for s in todo if todo[s])
    rng.shuffle(open_states)
    out, total, covered = [], 0, 0
    while open_states and total < max_ops:
        s = open_states[-1]
        if not todo[s]:
            open_states.pop()
            continue
        w = path_to(g, s)
        dry = 0
        while len(w) < length or todo.get(s):
            if todo.get(s):
                op, t = g.out[s][todo[s].pop()]
                covered += 1
                dry = 0
            else:
                # step towards something new: a neighbour with untaken edges, or just on
                nxt = g.out.get(s)
                if not nxt or dry > 6:
                    break
                fresh = [x for x in nxt if todo.get(x[1])]
                op, t = rng.choice(fresh if fresh else nxt)
                dry += 1
            w.append(op)
            s = t
            if len(w) >= length * 2:
                break
        out.append(w)
        total += len(w)
    return out, covered

# ---------------------------------------------------------------- operations
def _index():
    ix = collections.defaultdict(list)
    for i, q in enumerate(cat.Q):
        k = cat.klass(q)
        gs = cat.groups(q)
        if k == 'G':
            ix['G', gs[0]].append(i + 1)
        ix[k].append(i + 1)
    return ix
IX = _index()
QT = [frozenset(cat.types(q)) for q in cat.Q]
QG = [frozenset(cat.groups(q)) for q in cat.Q]

def renamings(g):
    """How the model's types may be called so that every group it makes can be queried."""
    import itertools
    pairs = set()
    for v in g.out.values():
        for op, _ in v:
            if op[0] == 'mg' and op[2] != op[3]:
                pairs.add((op[1], op[2], op[3]))
    ok = []
    for p in itertools.permutations("ABCDE", len(g.types)):
        m = dict(zip(g.types, p))
        if all(('G', (k, m[a], m[b])) in IX for k, a, b in pairs):
            ok.append(m)
    return ok

def concretise(g, walk, rng, names, obs):
    """Operation lines for one walk. obs: letters of what to look at after each step."""
    m = rng.choice(names)
    lines = ["reg " + m[t] for t in g.reg]
    reg = [m[t] for t in g.reg]
    made, val = [], 0
    def v(t):
        nonlocal val
        if t == 'C':
            return 0
        val += 1
        return val
    top = 0
    def look():
        ids = ",".join(str(i) for i in range(1, g.maxid + 3))
        if 'e' in obs:
            lines.append("ex " + ids)
        if 'r' in obs:
            for t in reg:
                lines.append("rd %s %s" % (t, ids))
        for gr in made:
            if 'G' in obs:
                qs = IX.get(('G', gr))
                if qs:
                    lines.append("q %d %s" % (rng.choice(qs), rng.choice("iinwm")))
            if 'l' in obs and gr[0] != 'N':
                lines.append("lay %s %s %s" % gr)
            if 'w' in obs and rng.random() < 0.3:
                qs = IX.get(('G', gr))
                if qs:
                    lines.append("qw %d %d %s" % (rng.choice(qs), val + 1, rng.choice("inm")))
                    bump()
        for k in "STHW":
            if k in obs:
                qs = [i for i in IX[k] if QT[i - 1] <= set(reg) and QG[i - 1] <= set(made)]
                if qs:
                    lines.append("q %d %s" % (rng.choice(qs), rng.choice("iinwm")))
        if 'i' in obs:
            qs = [i for i in range(1, len(cat.Q) + 1) if QT[i - 1] <= set(reg) and QG[i - 1] <= set(made)]
            pref = [i for i in qs if QG[i - 1]]
            q = rng.choice(pref if pref and rng.random() < 0.5 else qs)
            s = [rng.choice(["n", "n", "i", "i", "h", "f%d" % rng.randint(1, g.maxid + 1), "k%d" % rng.randint(0, 2)]) for _ in range(rng.randint(3, 9))]
            if rng.random() < 0.2:
                s.append(rng.choice("cl"))
            lines.append("it %d - %s" % (q, " ".join(s)))
        if 'k' in obs:
            lines.append("lk")
    def bump():
        nonlocal val
        val += 2 * (g.maxid + 2)
    for op in walk:
        k = op[0]
        if k == 'new':
            lines.append("new")
        elif k == 'att':
            t = m[op[2]]
            lines.append("att %d %s %d %s" % (op[1], t, v(t), rng.choice("wwh")))
        elif k == 'det':
            lines.append("det %d %s %s" % (op[1], m[op[2]], rng.choice("wwh")))
        elif k == 'rem':
            lines.append("rem %d %s" % (op[1], rng.choice("wwm")))
        elif k == 'bat':
            lines.append("bo %d" % op[1])
            if op[2] != '-':
                t = m[op[2]]
                lines.append("ba %s %s" % (t, ",".join(str(v(t)) for _ in range(op[1])) or "-"))
            lines.append("bc")
        elif k == 'mg':
            gr = (op[1], m[op[2]], m[op[3]])
            lines.append("mg %s %s %s" % gr)
            if gr not in made and op[0] == 'mg' and legal(gr, made, reg):
                made.append(gr)
        elif k == 'reg':
            lines.append("reg " + m[op[1]])
            if m[op[1]] not in reg:
                reg.append(m[op[1]])
        look()
    lines.append("dw")
    return lines

def owned(g):
    return {'F': {g[1], g[2]}, 'P': {g[1]}, 'N': set()}[g[0]]
def legal(g, made, reg):
    return g not in made and g[1] in reg and g[2] in reg and (g[0] == 'N' or g[1] != g[2]) and all(not (owned(g) & owned(h)) for h in made)

def write_walks(g, rng, path, max_ops, obs, length=120, prefix="w"):
    """Writes the walks as harness operations; gives the edges covered and the number of walks."""
    ws, covered = walks(g, rng, max_ops, length)
    names = renamings(g)
    with open(path, "w") as f:
        for i, w in enumerate(ws):
            f.write("T %s.%s.%d\n" % (prefix, g.name, i))
            f.write("\n".join(concretise(g, w, rng, names, obs)) + "\n")
    return covered, len(ws)
