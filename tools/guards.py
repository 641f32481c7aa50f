"""Guards (C15): what can be held at once is enumerated from spec/GuardScenarios; each scenario is gone through in the real code, with calls
made while things are held, and what was granted and what was held up is judged by spec/XecsGuards."""
import json, os, re, time
import conc, lib

TAGS = {"granted", "heldup", "gvalue", "locked"}
PROFILE = dict(
    quick=dict(singles=1, asks=36, changes=1, pairs=500, pair_asks=14, triples=120, every2=4, every3=24),
    thorough=dict(singles=1, asks=10 ** 6, changes=10 ** 6, pairs=9000, pair_asks=40, triples=4000, every2=1, every3=9),
)

def enumerate_states(n, every):
    """[(world, ((kind, type, argument), ...))] reachable with n slots."""
    empty = lib.scratch() + "/empty.ndjson"
    open(empty, "w").close()
    g, d, out = lib.model("GuardScenarios", {"N": n, "Every": every}, invariants=["Exclusive", "Consistent", "Uninvolved", "Emit"], spec="SSpec",
                          workers=8, env={"TRACE": empty})
    res = set()
    for m in re.finditer(r'<<\s*"S",\s*(\d+),\s*<<(.*?)>>\s*>>(?=\s*(?:<<\s*"S"|[A-Z]|$))', out.replace("\n", " ")):
        res.add((int(m.group(1)), tuple((a, b, int(c)) for a, b, c in re.findall(r'<<\s*"(\w+)",\s*"([\w-]+)",\s*(\d+)\s*>>', m.group(2)))))
    if len(res) != d:
        raise lib.ToolError("scenarios were not read: %d of %d" % (len(res), d))
    return sorted(res), g, d

HAVE = {1: "AB", 2: "AD", 3: "BC", 4: "ABC"}
READS = ["sl A", "sl B", "sl C", "sl D", "rg P", "rg R", "rg A", "rg U", "lk"]

class Values(conc.Values):
    pass

def setup(w):
    vals = Values()
    l = ["reg A", "reg B", "reg C", "reg D", "rr P %d" % vals.one("P"), "rr R %d" % vals.one("R"), "rr A %d" % vals.one("A"), "rr U %d" % vals.one("U")]
    l += ["mg " + g for g in conc.WORLDS[w - 1]] + ["new"] * 5
    for e in (3, 1, 4, 2):
        for t in HAVE[e]:
            l.append("att %d %s %d w" % (e, t, vals.one(t)))
    return l + ["rem 5 -"], vals

def take(s, h):
    return "gh %d %s %s %d" % (s, h[0], h[1], h[2])
def use(s, h, vals):
    return "gu %d %d" % (s, vals.one(h[1]) if h[0] in ("cw", "hw", "rw") else 0)
def lasting(h):
    return h[0] in ("ne", "ba")

def asks(things):
    """Calls that look or only change values, as [operations]; and calls that change the world."""
    look = [[("ask", h)] for h in things if not lasting(h)]
    look += [["cr %d %s" % (e, t)] for e in (1, 2, 4, 5) for t in "ABD"] + [["sl " + t] for t in "ABCD"] + [["rg P"], ["rg R"], ["rg A"], ["rg U"], ["xe 1"], ["xe 5"], ["ex 1,2,3,4,5"]]
    look += [["wr %d %s V ec" % (e, t)] for e in (1, 2, 4) for t in "ABD"] + [["wr %d %s V eh" % (e, t)] for e in (1, 4) for t in "AB"] + [["rw P V"], ["rw R V"], ["rw A V"], ["rw U V"]]
    look += [["q %d i" % h[2]] for h in things if h[0] == "q"]
    change = [["new"], [("ask", ("ne", "-", 0))], [("ask", ("ba", "-", 2))]]
    change += [["rem %d -" % e] for e in range(1, 6)]
    change += [["att %d %s V w" % (e, t)] for e in (1, 2, 3, 5) for t in "ABCD"] + [["det %d %s w" % (e, t)] for e in (1, 2, 4) for t in "ABCD"]
    return look, change

def spell(ask, vals):
    l = []
    for o in ask:
        if isinstance(o, tuple):
            l += [take(9, o[1]), use(9, o[1], vals), "gr 9"]
        elif " V" in o:
            t = o.split(" ")[1] if o.startswith("rw ") else o.split(" ")[2]
            l.append(o.replace(" V", " %d" % vals.one(t)))
        else:
            l.append(o)
    return l

def scenario(rng, w, held, look, change):
    """One history: things are taken one after the other, calls are made, things are used and given back one by one with calls in between."""
    ops, vals = setup(w)
    for i, h in enumerate(held):
        ops.append(take(i + 1, h))
    for a in look:
        ops += spell(a, vals)
    order = list(range(len(held)))
    rng.shuffle(order)
    if change:
        ops += spell(change, vals)
    while order:
        i = order.pop()
        if rng.random() < 0.8:
            ops.append(use(i + 1, held[i], vals))
        ops.append("gr %d" % (i + 1))
        if order and look:
            for a in rng.sample(look, min(4, len(look))):
                ops += spell(a, vals)
    ops += READS + ["ex 1,2,3,4,5,6,7"]
    # nothing is held any more: everything is granted
    for a in rng.sample(look, min(3, len(look))):
        ops += spell(a, vals)
    return ops + ["att 1 A %d w" % vals.one("A"), "rem 2 -", "new", "lk", "dw"]

def histories(run, p):
    singles, g, d = enumerate_states(1, 1)
    run.count_model("GuardScenarios/1", d, g)
    things = {w: sorted({h for w2, hs in singles for h in hs if w2 == w}) for w in range(1, len(conc.WORLDS) + 1)}
    rng = run.rng("guards")
    n = 0
    for w, hs in singles:
        if not hs:
            continue
        look, change = asks(things[w])
        h = hs[0]
        pick = lambda l, k: list(l) if k >= len(l) else rng.sample(l, k)
        some = pick(look, p["asks"])
        ch = pick(change, p["changes"])
        yield w, scenario(rng, w, hs, some, ch[0])
        for c in ch[1:]:
            yield w, scenario(rng, w, hs, some[:2], c)
        # guards and handles are few: every call while each is held
        if h[0] != "q" and len(ch) < len(change):
            for i in range(0, len(look), 60):
                yield w, scenario(rng, w, hs, look[i:i + 60], None)
            for c in change:
                yield w, scenario(rng, w, hs, [], c)
    for k, key, every in ((2, "pairs", p["every2"]), (3, "triples", p["every3"])):
        if not p[key]:
            continue
        states, g, d = enumerate_states(k, every)
        run.count_model("GuardScenarios/%d" % k, d, g, every=every)
        states = [s for s in states if len(s[1]) == k]
        for w, hs in rng.sample(states, min(p[key], len(states))):
            look, change = asks(things[w])
            order = list(hs)
            yield w, scenario(rng, w, order, rng.sample(look, min(p["pair_asks"], len(look))), rng.choice(change) if rng.random() < 0.5 else None)

def owned(evs, bads):
    for l, tags in bads:
        if l < len(evs) and (TAGS & set(tags) or (evs[l]["o"] in ("gh", "gu", "gr") and "kind" in tags)):
            return l, tags
    return None

def explore(run, tier):
    import minimise
    t0 = time.time()
    p = PROFILE[tier]
    limit = 700 if tier == "thorough" else 10 ** 9
    chunk, size, done, skipped = [], 0, 0, 0
    def flush():
        nonlocal chunk, size, done
        path = run.path("guards%d.ops" % done)
        with open(path, "w") as f:
            for i, ops in chunk:
                f.write("T g%d\n%s\n" % (i, "\n".join(ops)))
        done += len(chunk)
        chunk, size = [], 0
        files = lib.replay(path)
        os.remove(path)
        ev, n, bad = lib.validate(files, module="XecsGuards")
        run.events += ev
        run.traces += n
        hits = []
        for f in files:
            os.remove(f.path)
            if not run.samples and f.ids:
                run.samples = [dict(trace=f.ids[i], ops=f.ops[f.ids[i]][:60]) for i in (0, len(f.ids) // 2)]
        for f, i, b in bad:
            evs = f.events(i)
            d = owned(evs, b)
            if d:
                hits.append((d[0], f, i, d[1], evs))
            else:
                l, tags = b[0]
                key = evs[l]["o"] + ":" + ",".join(tags) if l < len(evs) else "?"
                run.elsewhere[key] = run.elsewhere.get(key, 0) + 1
        if hits:
            l, f, i, tags, evs = min(hits, key=lambda h: h[0])
            small = minimise.shrink(f.ops[f.ids[i]][:l + 1], tags, 45, module="XecsGuards")
            run.found = ("disagreement " + ",".join(tags), f.ids[i], small, tags, minimise.record([small])[0][-1])
    i = 0
    for w, ops in histories(run, p):
        i += 1
        if time.time() - t0 > limit:
            skipped += 1
            continue
        chunk.append((i, ops))
        size += len(ops)
        if size > 120000:
            flush()
            if run.found:
                return
    if chunk:
        flush()
    run.extra["histories_not_run_for_time"] = skipped

def mine(path):
    return any(l.startswith("gh ") for l in open(path))
