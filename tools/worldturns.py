"""Several worlds in one process (C20): every order in which worlds can be worked on (spec/WorldTurns), filled with histories of single worlds,
run in the real code in one process and judged by spec/XecsWorlds; some are moved in memory, or used from several threads
one after the other. A disagreement counts when each of the worlds alone, in one place and one thread of a process of its own, gives none."""
import os, re, time
import conc, guards, lib, minimise

WORK = "new:8,fill:5,att:26,det:14,rem:8,bat:5,wr:5,wa:2,qw:4,mg:3,mis:4,ent:8,rr:5,rw:4,reg:1"
PROFILE = dict(
    quick=dict(turns=[(2, 3), (2, 5), (3, 2), (3, 3)], per=[12, 3, 6, 0.4], random=260, large=4, singles=110),
    thorough=dict(turns=[(2, 3), (2, 5), (3, 3), (4, 2)], per=[40, 8, 1, 0.5], random=2400, large=16, singles=900),
)

def turns(run, w, k):
    g, d, out = lib.model("WorldTurns", {"W": w, "K": k}, invariants=["Bounds", "Emit"], workers=4)
    res = [tuple(int(x) for x in m.split(",")) for m in re.findall(r'<<\s*"T",\s*<<([\d,\s]*)>>\s*>>', out)]
    if len(res) != len(set(res)) or not res:
        raise lib.ToolError("orders were not read")
    run.count_model("WorldTurns/%d*%d" % (w, k), d, g, orders=len(res))
    return sorted(res)

def stock(run, p):
    """Histories of one world: random ones, some with a thousand entities, and ones that hold guards."""
    base = run.path("stock")
    rng = run.rng("stock")
    res = []
    big = "new:8,att:20,det:12,rem:8,bat:6,wa:2,mg:4,wipe:1"
    for i, (n, a) in enumerate([(p["random"], ["len=26", "cap=8", "mask=erGS1ikc", "w=" + WORK]),
                                (p["random"] // 2, ["len=40", "cap=8", "mask=erGH1", "every=3", "w=" + WORK]),
                                (p["large"], ["len=14", "cap=1000000", "start=700", "batch=200", "every=4", "full=10", "mask=erG", "groups=100", "types=ABCD", "w=" + big])]):
        c = lib.harness(["random", "seed=%d" % (run.seed * 977 + i), "traces=%d" % n, "out=/dev/null", "ops=" + base] + a)
        h = lib.read_ops(base) if os.path.exists(base) else {}
        if c:
            h.pop(c.trace, None)
        res += list(h.values())
        if i == 2:
            large = list(h.values())
    one, g, d = guards.enumerate_states(1, 2)
    run.count_model("GuardScenarios/1", d, g, every=2)
    things = {w: sorted({x for w2, hs in one for x in hs if w2 == w}) for w in range(1, len(conc.WORLDS) + 1)}
    held = []
    for w, hs in rng.sample([s for s in one if s[1]], min(p["singles"], len(one) - 4)):
        look, change = guards.asks(things[w])
        held.append(guards.scenario(rng, w, list(hs), rng.sample(look, 4), rng.choice(change) if rng.random() < 0.3 else None))
    if not res:
        raise lib.ToolError("the harness made no history")
    return [h for h in res if h not in large], large, held

def pieces(rng, ops, k):
    """Cuts of a history into k pieces, by preference where something is held."""
    at = list(range(1, len(ops)))
    open_ = []
    n = 0
    for i, l in enumerate(ops):
        if l.startswith(("ho ", "bo ", "gh ")):
            n += 1
        elif l.startswith(("hc", "hx", "bc", "gr")):
            n -= 1
        if n > 0 and i + 1 < len(ops):
            open_.append(i + 1)
    cuts = set()
    for _ in range(k - 1):
        cuts.add(rng.choice(open_ if open_ and rng.random() < 0.6 else at))
    cuts = [0] + sorted(cuts) + [len(ops)]
    res = [ops[a:b] for a, b in zip(cuts, cuts[1:])]
    return res + [[] for _ in range(k - len(res))]

ANYWHERE = {"reg", "new", "att", "det", "rem", "wr", "wa", "mg", "rr", "rw", "rg", "hr", "ex", "xe", "rd", "cr", "sl", "q", "qw", "qf", "it", "lay", "lk"}
def moved(rng, ops):
    """Some of the calls come from other threads, and the world moves in memory, as long as nothing is held."""
    res, held = [], set()
    p, m = rng.choice([(0, 0.15), (0.3, 0), (0.3, 0.1), (1, 0)])
    for l in ops:
        o, *a = l.split(" ")
        if o in ("ho", "bo", "gh"):
            held.add(a[0] if o == "gh" else "handle")
        if not held and rng.random() < m:
            res.append("mv")
        res.append("@" + l if not held and o in ANYWHERE and rng.random() < p else l)
        if o in ("hc", "hx", "bc", "gr"):
            held.discard(a[0] if o == "gr" else "handle")
        if o == "dw":
            m = 0
    return res

def fill(rng, order, k, hist):
    hist = [moved(rng, h) if rng.random() < 0.35 else h for h in hist]
    parts = [pieces(rng, h, k) for h in hist]
    ops, done, at = [], [0] * len(hist), 1
    for n in order:
        if n != at:
            ops.append("sw %d" % n)
            at = n
        ops += parts[n - 1][done[n - 1]]
        done[n - 1] += 1
    return ops

def histories(run, p):
    rng = run.rng("turns")
    plain, large, held = stock(run, p)
    for (w, k), per in zip(p["turns"], p["per"]):
        orders = turns(run, w, k)
        if per < 1:
            orders = rng.sample(orders, int(len(orders) * per))
        for o in orders:
            for i in range(max(1, int(per))):
                r = rng.random()
                if r < 0.4:
                    hs = [rng.choice(plain) for _ in range(w)]
                elif r < 0.9:
                    hs = [rng.choice(held) for _ in range(w)]
                else:
                    hs = [rng.choice(plain if rng.random() < 0.5 else held) for _ in range(w)]
                # now and then the same history in each of them
                if rng.random() < 0.2:
                    hs = [hs[0]] * w
                yield fill(rng, o, k, hs)
    for h in large:
        o = [1, 2, 1, 2, 2, 1] if rng.random() < 0.5 else [1, 2, 2, 1, 2, 1]
        yield fill(rng, o, 3, [h, rng.choice(large if rng.random() < 0.4 else plain)])

def alone(ops):
    """Each world's own part of a history."""
    res, at = {}, 1
    for l in ops:
        if l.startswith("sw "):
            at = int(l[3:])
        else:
            res.setdefault(at, []).append(l.lstrip("@"))
    # in one place and one thread
    return {w: [l for l in ops if l != "mv"] for w, ops in res.items()}

def fine_alone(ops):
    # every part in a process of its own
    return not any(minimise.run(list(alone(ops).values()), "XecsWorlds"))

def explore(run, tier):
    t0 = time.time()
    p = PROFILE[tier]
    limit = 650
    chunk, size, done, skipped = [], 0, 0, 0
    def flush():
        nonlocal chunk, size, done
        files = minimise.one_by_one(run.path("turns%d" % done), [("w%d" % i, ops) for i, ops in chunk])
        done += len(chunk)
        chunk, size = [], 0
        ev, n, bad = lib.validate(files, module="XecsWorlds")
        run.events += ev
        run.traces += n
        for f in files:
            os.remove(f.path)
            if not run.samples and f.ids:
                run.samples = [dict(trace=f.ids[i], ops=f.ops[f.ids[i]][:60]) for i in (0, len(f.ids) // 2)]
        tried = 0
        for f, i, b in sorted(bad, key=lambda x: len(x[0].ops[x[0].ids[x[1]]])):
            l, tags = b[0]
            ops = f.ops[f.ids[i]][:l + 1]
            if tried < 12 and not run.found:
                tried += 1
                if fine_alone(ops):
                    small = minimise.shrink(ops, tags, 80, module="XecsWorlds")
                    if not fine_alone(small):
                        small = ops
                    run.found = ("disagreement " + ",".join(tags), f.ids[i], small, tags, minimise.record([small], True)[0][-1])
                    continue
            evs = f.events(i)
            key = evs[l]["o"] + ":" + ",".join(tags) if l < len(evs) else "?"
            run.elsewhere[key] = run.elsewhere.get(key, 0) + 1
    for i, ops in enumerate(histories(run, p)):
        if time.time() - t0 > limit:
            skipped += 1
            continue
        chunk.append((i, ops))
        size += len(ops)
        if size > 120000:
            flush()
            if run.found:
                return
    if chunk:
        flush()
    run.extra["histories_not_run_for_time"] = skipped

def mine(path):
    return any(l.startswith("sw ") for l in open(path))
