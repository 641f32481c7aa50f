"""Shrinks failing histories; many candidates per run of the harness and TLC."""
import os, time
import lib

def valid(ops):
    """Operations that make sense in sequence (handles are opened before they are used, nothing waits for them)."""
    worlds = {}
    at = 1
    for l in ops:
        if l.startswith("sw "):
            at = int(l[3:])
        elif not worlds.setdefault(at, _World()).accepts(l.lstrip("@")):
            return False
    return True

class _World:
    h, up = None, True
    def __init__(self):
        self.slots = set()
    def accepts(self, l):
        slots = self.slots
        a = l.split(" ")
        o = a[0]
        if not self.up:
            return False
        if o == "dw":
            self.up = False
        if o == "gh":
            if a[1] in slots:
                return False
            slots.add(a[1])
        if o in ("gu", "gr") and a[1] not in slots:
            return False
        if o == "gr":
            slots.discard(a[1])
        if slots and o in ("reg", "mg", "fg", "rr", "dw", "lk", "mv"):
            return False
        if self.h is None:
            if o in ("ha", "hd", "hw", "hc", "hx", "ba", "bc"):
                return False
            if o == "ho":
                self.h = "e"
            if o == "bo":
                self.h = "b"
        else:
            if o in ("ho", "bo", "new", "rem", "reg", "mg", "fg", "rr", "dw", "lk", "mv"):
                return False
            if o in ("ha", "hd", "hw", "hc", "hx") and self.h != "e":
                return False
            if o in ("ba", "bc") and self.h != "b":
                return False
            if o in ("hc", "hx", "bc"):
                self.h = None
        return True

_n = 0
def _go(cands):
    global _n
    _n += 1
    src = "%s/min%d.ops" % (lib.scratch(), _n)
    with open(src, "w") as f:
        for i, c in enumerate(cands):
            f.write("T m%d\n%s\n" % (i, "\n".join(x.lstrip("!") for x in c)))
    return lib.replay(src, limit=len(cands) + 1)
def _fresh(cands):
    """Each in a process of its own."""
    global _n
    _n += 1
    return one_by_one("%s/min%d" % (lib.scratch(), _n), [("m%d" % i, [x.lstrip("!") for x in c]) for i, c in enumerate(cands)])

def one_by_one(base, histories):
    """Runs histories, each in a process of its own."""
    from concurrent.futures import ThreadPoolExecutor
    def go(h):
        src = "%s.%s.ops" % (base, h[0])
        with open(src, "w") as f:
            f.write("T %s\n%s\n" % (h[0], "\n".join(h[1])))
        res = lib.replay(src)
        os.remove(src)
        return res
    with ThreadPoolExecutor(6) as ex:
        return [tf for r in ex.map(go, histories) for tf in r]

def run(cands, module="XecsTrace"):
    """Which of the candidate histories fail, and how: [[(event, tags)]] (empty: does not fail)."""
    res = [[] for _ in cands]
    _, _, bad = lib.validate((_fresh if module == "XecsWorlds" else _go)(cands), module=module, procs=1, workers=4, strict=False)
    for f, i, b in bad:
        res[int(f.ids[i][1:])] = b
    return res

def record(cands, fresh=False):
    """The events of histories."""
    res = [[] for _ in cands]
    for tf in (_fresh if fresh else _go)(cands):
        for i in range(len(tf.lines)):
            res[int(tf.ids[i][1:])] = tf.events(i)
    return res

def shrink(ops, tags, budget=60, module="XecsTrace"):
    """ops ends with the operation that fails with the tags; a shorter history whose last operation fails alike."""
    start = time.time()
    if lib.hangs:
        return list(ops)     # every attempt would take long
    cur = list(ops)
    want = set(tags)
    ok = lambda c, b: any(l == len(c) - 1 and set(t) & want for l, t in b)
    size = max(1, len(cur) // 3)
    while time.time() - start < budget:
        body = len(cur) - 1
        chunks = [(i, min(i + size, body)) for i in range(0, body, size)]
        cands = [(c, cur[:c[0]] + cur[c[1]:]) for c in chunks]
        if size == 1:
            # handles go as a whole
            i = 0
            while i < body:
                if cur[i].startswith(("ho ", "bo ")):
                    j = i
                    while j < body and not cur[j].startswith(("hc", "hx", "bc")):
                        j += 1
                    if j < body:
                        cands.append(((i, j + 1), cur[:i] + cur[j + 1:]))
                    only = cur[:i] + [x for x in cur[i:j + 1] if not x.startswith(("ho ", "bo ", "hc", "hx", "bc", "ha", "hd", "hw", "ba"))] + cur[j + 1:]
                    cands.append(((i, i), only))
                    i = j
                i += 1
        cands = [(c, x) for c, x in cands if valid(x) and len(x) < len(cur)]
        if not cands:
            if size == 1:
                break
            size = max(1, size // 3)
            continue
        res = run([x for _, x in cands], module)
        good = [(c, x) for (c, x), b in zip(cands, res) if ok(x, b)]
        if good:
            # all removable parts at once, if that works; else the largest
            drop = set()
            for c, x in good:
                drop |= set(range(*c))
            both = [l for i, l in enumerate(cur) if i not in drop]
            half = [l for i, l in enumerate(cur) if i not in set(sorted(drop)[:len(drop) // 2])]
            trial = [x for x in (both, half) if valid(x) and len(x) < len(cur) and x and x[-1] == cur[-1]]
            best = min((x for _, x in good), key=len)
            if trial:
                for x, b in zip(trial, run(trial, module)):
                    if ok(x, b) and len(x) < len(best):
                        best = x
            cur = best
            size = min(size, max(1, (len(cur) - 1) // 2))
        elif size == 1:
            break
        else:
            size = max(1, size // 3)
    return cur
