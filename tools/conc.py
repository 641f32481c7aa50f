"""Concurrency (C16, C17): programs of several threads, their schedules explored in the real code, their histories judged by XecsLin."""
import json, os, re, subprocess, threading, time
import gen_catalog as cat
import lib

# ---------------------------------------------------------------- programs
WORLDS = [[], ["F A B"], ["P A B"], ["N A B"], ["F A B", "N B C"], ["P A B", "P B C", "N A C"], ["N A B", "F A C", "N B C"]]   # as in ConcPrograms
HAVE = {1: "AB", 2: "A", 3: "BC", 4: "ABC"}

def enumerate_programs(k, d=1, n=0, seed=1, pure=False, pairs=False):
    """[(world, [[unit, ...] per thread])] from spec/ConcPrograms: all with k threads of d units, or about n random ones per world; and the number of states."""
    gen, dist, out = lib.model("ConcPrograms", {"K": k, "D": d, "N": n, "Pure": pure, "Pairs": pairs}, invariants=["Emit"], spec="PSpec", workers=1 if n else 4, timeout=600,
                               extra=["-seed", str(seed)])
    res = set()
    for part in re.split(r'<<\s*"P",\s*', out.replace("\n", " "))[1:]:
        m = re.match(r"(\d+),\s*(<<.*?>>)\s*>>\s*(?:$|[^>,<\s])", part + "$")
        body = re.sub(r"\s+", " ", m.group(2)).replace("<<", "[").replace(">>", "]")
        res.add((int(m.group(1)), tuple(tuple(tuple(u) for u in t) for t in json.loads(body))))
    if len(res) != dist:
        raise lib.ToolError("programs were not read: %d of %d" % (len(res), dist))
    return sorted(res), dist

class Values:
    def __init__(self):
        self.n = 0
    def one(self, t):
        self.n += 1
        return 0 if t == "C" else self.n

def render_op(op, vals):
    a = op.split(" ")
    if a[0] == "att":
        return "att %s %s %d w" % (a[1], a[2], vals.one(a[2]))
    if a[0] == "det":
        return "det %s %s w" % (a[1], a[2])
    if a[0] == "wr":
        return "wr %s %s %d ec" % (a[1], a[2], vals.one(a[2]))
    if a[0] == "ba":
        return "ba %s %s" % (a[1], ",".join(str(vals.one(a[1])) for _ in range(2)))
    if a[0] in ("ha", "hw"):
        return "%s %s %d" % (a[0], a[1], vals.one(a[1]))
    if a[0] == "rw":
        return "rw P %d" % vals.one("P")
    if a[0] == "rg":
        return "rg P"
    if a[0] == "q":
        return "q %s i" % a[1]
    return op

def setup(groups, late=False, have=HAVE):
    vals = Values()
    l = ["reg A", "reg B", "reg C", "rr P %d" % vals.one("P")]
    if not late:
        l += ["mg " + g for g in groups]
    l += ["new"] * 5
    # positions in the storages differ from the order of the ids
    for e in (3, 1, 4, 2):
        for t in have[e]:
            l.append("att %d %s %d w" % (e, t, vals.one(t)))
    l.append("rem 5 -")
    if late:
        l += ["mg " + g for g in groups]
    return l, vals
GROUPQ = {}
for _i, _q in enumerate(cat.Q):
    if _q[0] == "g" and (_q[4], _q[5]) == (0, 0):
        GROUPQ["%s %s %s" % _q[1:4]] = _i + 1
def final(groups):
    ids = ",".join(map(str, range(1, 10)))
    l = ["ex " + ids] + ["rd %s %s" % (t, ids) for t in "ABC"]
    for g in groups:
        if g in GROUPQ:
            l.append("q %d i" % GROUPQ[g])
        if g[0] != "N":
            l.append("lay " + g)
    # what is recycled, and that it comes back empty
    l += ["new"] * 3 + ["rd %s %s" % (t, ids) for t in "ABC"] + ["rg P", "lk", "dw"]
    return l

class Program:
    def __init__(self, name, setup, threads, fin, schedule=None):
        self.name, self.setup, self.threads, self.fin, self.schedule = name, setup, threads, fin, schedule
    def text(self):
        l = ["P " + self.name] + ["S " + x for x in self.setup]
        for i, t in enumerate(self.threads):
            l += ["%d %s" % (i + 1, x) for x in t]
        l += ["F " + x for x in self.fin]
        if self.schedule is not None:
            l.append("X " + self.schedule)
        return "\n".join(l) + "\n"

def make(name, groups, units, late=False):
    s, vals = setup(groups, late)
    return Program(name, s, [[render_op(o, vals) for u in t for o in u] for t in units], final(groups))

# ---------------------------------------------------------------- running

def parse(path):
    """Programs from a file."""
    res = []
    for l in open(path):
        l = l.rstrip("\n")
        if not l or l.startswith("#"):
            continue
        k, rest = (l.split(" ", 1) + [""])[:2]
        if k == "P":
            res.append(Program(rest, [], [], []))
        elif k == "S":
            res[-1].setup.append(rest)
        elif k == "F":
            res[-1].fin.append(rest)
        elif k == "X":
            res[-1].schedule = rest
        else:
            while len(res[-1].threads) < int(k):
                res[-1].threads.append([])
            res[-1].threads[int(k) - 1].append(rest)
    return res

class Result:
    def __init__(self):
        self.lines = []          # (program, schedule, JSON line) of histories
        self.dead = []           # (program, schedule, record)
        self.crash = []          # (program, schedule, what)
        self.programs = self.schedules = self.points = self.complete = 0

def run(programs, bound, most, rand=0, serial=False, seed=1, procs=8, free=0):
    """Explores the schedules of the programs in parallel."""
    res, lock, errs = Result(), threading.Lock(), []
    byname = {p.name: p for p in programs}
    shares = [programs[i::procs] for i in range(procs)]
    def go(todo):
        base = None
        try:
            while todo:
                n = len(os.listdir(lib.scratch()))
                base = "%s/c%d-%d" % (lib.scratch(), threading.get_ident(), n)
                with open(base + ".p", "w") as f:
                    f.write("".join(p.text() for p in todo))
                c = lib.harness(["conc", "in=" + base + ".p", "out=" + base + ".nd", "sched=" + base + ".s", "bound=%d" % bound, "max=%d" % most,
                                 "random=%d" % rand, "free=%d" % free, "serial=%d" % serial, "seed=%d" % seed])
                if c:
                    # the process died: run the programs before it again, set it aside, go on after it
                    k = [p.name for p in todo].index(c.trace)
                    with lock:
                        res.crash.append((todo[k], c.ops[0][2:] if c.ops else "", c.what))
                        if len(res.crash) > 8:
                            return
                    before, todo = todo[:k], todo[k + 1:]
                    if before:
                        go(before)
                    continue
                take(base)
                return
        except Exception as e:
            errs.append(e)
    def take(base):
        sched = {}
        with lock:
            for l in open(base + ".s"):
                a = l.rstrip("\n").split(" ")
                if a[0] == "=":
                    res.programs += 1
                    res.schedules += int(a[2])
                    res.points += int(a[3])
                    res.complete += int(a[5])
                elif a[0] != "#":
                    sched[a[0]] = a[1] if len(a) > 1 else ""
            for line in open(base + ".nd"):
                line = line.rstrip("\n")
                i = line[7:line.index('"', 7)]
                p = byname[i.rsplit("/", 1)[0]]
                if '"dead":1' in line:
                    res.dead.append((p, sched[i], json.loads(line)))
                else:
                    res.lines.append((p, sched[i], line))
        for x in (".p", ".nd", ".s"):
            os.remove(base + x)
    ts = [threading.Thread(target=go, args=(s,)) for s in shares if s]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res

def nthreads(h):
    return max(abs(int(x)) for x in re.search(r"\[([-0-9,]*)", h).group(1).split(","))
def before(h):
    """Which calls had returned before which began, as a bit set."""
    n, done, m = {}, [], 0
    for x in h.split(","):
        t = int(x)
        if t < 0:
            done.append((-t, n[-t]))
        else:
            n[t] = n.get(t, 0) + 1
            for u, i in done:
                if u != t:
                    m |= 1 << (((u * 4 + t) * 12 + i) * 12 + n[t])
    return m

def judge(lines, procs=4, workers=2):
    """Validates histories (JSON lines). Gives (states, how many were judged, indices of those that no sequential order explains)."""
    # Histories with the same calls and results differ in which calls had returned before which began. One in which more
    # had is explained by fewer orders, all of which explain those in which less had: only the strictest are judged.
    alike = {}
    for k, line in enumerate(lines):
        i = line.index(',"h":[')
        j = line.index('],', i)
        alike.setdefault((line[line.index(',"pre":') + 1:i], line[j + 2:-1]), {}).setdefault(before(line[i + 6:j]), []).append((line[i + 1:j + 1], k))
    groups, covers = {}, {}
    for (pre, rest), kinds in alike.items():
        for m, hs in kinds.items():
            if any(o != m and o & m == m for o in kinds):
                continue
            h, k = hs[0]
            covers[k] = [x for _, x in hs]
            groups.setdefault((pre, nthreads(h)), []).append((h + "," + rest, k))
    # shares of about equal size
    parts, each = [], max(200, (len(covers) + procs - 1) // procs)
    for key, hs in groups.items():
        for i in range(0, len(hs), each):
            parts.append((key, hs[i:i + each]))
    shares, load = [[] for _ in range(procs)], [0] * procs
    for p in sorted(parts, key=lambda p: -len(p[1])):
        k = load.index(min(load))
        shares[k].append(p)
        load[k] += len(p[1])
    bad, errs, tot = [], [], [0]
    lock = threading.Lock()
    def go(todo):
        try:
            wrong = []
            while todo:
                path = "%s/lin%d-%d" % (lib.scratch(), threading.get_ident(), len(os.listdir(lib.scratch())))
                with open(path, "w") as f:
                    for (pre, n), hs in todo:
                        f.write("{%s,\"threads\":%d,\"hs\":[%s]}\n" % (pre, n, ",".join("{" + h + "}" for h, _ in hs)))
                rc, out = lib.tlc("XecsLin", "SPECIFICATION LinSpec\nCHECK_DEADLOCK FALSE\nCONSTANT Judge <- Strict\n", workers=workers,
                                  env={"TRACE": path}, timeout=850, heap="5g")
                os.remove(path)
                if rc == 0 and "No error has been found" in out:
                    ok = {(int(a) - 1, int(b) - 1) for a, b in re.findall(r'<<\s*"OK",\s*(\d+),\s*(\d+)\s*>>', out)}
                    with lock:
                        tot[0] += lib.stats(out)[1]
                        bad.extend(wrong + [k for i, (_, hs) in enumerate(todo) for j, (_, k) in enumerate(hs) if (i, j) not in ok])
                    return
                # what was recorded could not even be evaluated: not explained either
                m, h = re.findall(r"/\\ tr = (\d+)", out), re.findall(r"/\\ hx = (\d+)", out)
                if not m or not h:
                    raise lib.ToolError("TLC failed on histories:\n" + out[-3000:])
                i, j = int(m[-1]) - 1, int(h[-1]) - 1
                if j < 0:
                    raise lib.ToolError("TLC failed before the threads started:\n" + out[-3000:])
                wrong.append(todo[i][1][j][1])
                todo[i] = (todo[i][0], todo[i][1][:j] + todo[i][1][j + 1:])
                todo = [p for p in todo if p[1]]
                if len(wrong) > 12:
                    break
            with lock:
                bad.extend(wrong)
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=go, args=(s,)) for s in shares if s]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return tot[0], len(covers), sorted(x for k in bad for x in covers[k])

# ---------------------------------------------------------------- lock programs
def lock_programs():
    """Records what every unit takes and gives back in every world, and cuts it into lock programs.
    Gives the worlds for spec/LockPrograms, and per world {lock program: units}."""
    ps, _ = enumerate_programs(1, 1, pure=True)
    progs = []
    for i, (w, t) in enumerate(ps):
        g = WORLDS[w - 1]
        s, vals = setup(g)
        progs.append(Program("l%d" % i, s, [[render_op(o, vals) for o in t[0][0]]], ["q %d i" % GROUPQ[x] for x in g if x in GROUPQ]))
    base = lib.scratch() + "/locks"
    with open(base + ".p", "w") as f:
        f.write("".join(p.text() for p in progs))
    c = lib.harness(["locks", "in=" + base + ".p", "out=" + base + ".nd"])
    if c:
        return None
    owners = [{} for _ in WORLDS]
    for line, (w, t) in zip(open(base + ".nd"), ps):
        held, seg = {}, []
        for k, n in json.loads(line)["locks"]:
            k = {"U": "R", "u": "r"}.get(k, k)
            if k in "RW":
                seg.append((k, n, []))
                held[n] = held.get(n, 0) + 1
            elif seg:
                seg[-1][2].append((k, n))
                held[n] = held.get(n, 0) - (k != "D")
            if not any(held.values()):
                if seg:
                    us = owners[w - 1].setdefault(tuple((a, b, tuple(c)) for a, b, c in seg), [])
                    if t[0][0] not in us:
                        us.append(t[0][0])
                seg = []
    worlds = []
    for o in owners:
        # one that reads a single lock holds up nobody
        segs = [s for s in sorted(o) if len(s) > 1 or s[0][0] != "R"]
        worlds.append(dict(locks=sorted({x[1] for s in segs for x in s}), segs=segs))
    return worlds, owners

def wait_at(seg, j):
    """What is held before step j of a lock program, and what is wanted."""
    held = set()
    for m, l, rs in seg[:j]:
        held.add((l, m))
        for k, x in rs:
            held.discard((x, "R" if k == "r" else "W"))
            if k == "D":
                held.add((x, "R"))
    return frozenset(held), seg[j][0], seg[j][1]

def locks(run, waits, threads):
    """Deadlocks among lock programs: found in the model, looked for in the real code. Says if one was found there."""
    import itertools
    r = lock_programs()
    if r is None:
        return
    worlds, owners = r
    path = lib.scratch() + "/locks.json"
    json.dump([dict(locks=x["locks"], segs=[[dict(m=a, l=b, r=[dict(k=k, l=l) for k, l in c]) for a, b, c in s] for s in x["segs"]]) for x in worlds], open(path, "w"))
    info = run.extra["lock_programs"] = dict(programs=[len(x["segs"]) for x in worlds], worlds=len(worlds))
    g, d, out = lib.model("LockWaits", {"K": waits}, invariants=["EmitStuck"], spec="WSpec", env={"LOCKS": path})
    run.count_model("LockWaits", d, g, threads_waiting=waits)
    flat = out.replace("\n", " ")
    stuck = set()
    for m in re.finditer(r'<<\s*"S",\s*(\d+),\s*<<((?:\s*<<\s*\d+,\s*\d+\s*>>,?)+)\s*>>\s*>>', flat):
        stuck.add((int(m.group(1)), tuple((int(a), int(b)) for a, b in re.findall(r"<<\s*(\d+),\s*(\d+)\s*>>", m.group(2)))))
    if len(stuck) != len(re.findall(r'<<\s*"S"', flat)):
        raise lib.ToolError("waits were not read")
    info["stuck"] = len(stuck)
    if not stuck:
        g, d, out = lib.model("LockWaits", {"K": threads}, invariants=["Sane", "Covered", "HoldsAgree", "Emit"], spec="LSpec", env={"LOCKS": path})
        run.count_model("LockPrograms", d, g, threads=threads)
        return
    # the smallest ones, each with some of the calls that can wait there
    rng = run.rng("locks")
    size = min(len(x) for _, x in stuck)
    todo, seen = [], set()
    cases = sorted(x for x in stuck if len(x[1]) == size)
    rng.shuffle(cases)
    for w, places in cases[:150]:
        segs = worlds[w - 1]["segs"]
        units = []
        for i, j in places:
            v = wait_at(segs[i - 1], j - 1)
            us = [u for s, us in owners[w - 1].items() if any(wait_at(s, k) == v for k in range(len(s))) for u in us]
            units.append(sorted(us, key=lambda u: (len(u), rng.random()))[:4])
        ways = list(itertools.product(*units))
        for us in rng.sample(ways, min(6, len(ways))):
            if (w, us) not in seen:
                seen.add((w, us))
                todo.append(make("locks-%d" % len(todo), WORLDS[w - 1], [[u] for u in us]))
    r = run_(run, todo, dict(bound=2, most=600, rand=200))
    info.update(looked_for=len(todo), schedules=r.schedules, deadlocks=len(r.dead))
    run.traces += r.schedules
    run.events += r.points
    if r.dead:
        report(run, min(r.dead, key=lambda d: (len(d[0].threads), len(d[1]))), "C17")

# ---------------------------------------------------------------- whole checks
# free: runs of each program in which nobody schedules the threads (for what goes on between operations on locks)
QUICK = {"C16": [dict(k=2, n=90, bound=0, most=1, free=160), dict(k=3, n=40, bound=0, most=1, free=160), dict(k=2, bound=1, most=40, rand=0), dict(k=2, pairs=True, bound=1, most=30), dict(k=3, n=60, bound=1, most=50, rand=15), dict(k=2, d=2, n=60, bound=1, most=50, rand=15)],
         "C17": [dict(k=1, bound=0, most=1, pure=True), dict(k=2, bound=1, most=40, rand=3, pure=True), dict(k=3, n=250, bound=2, most=120, rand=60),
                 dict(k=2, d=2, n=250, bound=2, most=120, rand=60)]}
THOROUGH = {"C16": [dict(k=2, n=400, bound=0, most=1, free=400), dict(k=3, n=150, bound=0, most=1, free=400), dict(k=3, d=2, n=60, bound=0, most=1, free=400), dict(k=2, bound=2, most=150, rand=10), dict(k=2, pairs=True, bound=2, most=150), dict(k=3, n=500, bound=2, most=120, rand=40), dict(k=2, d=2, n=500, bound=2, most=120, rand=40),
                    dict(k=3, d=2, n=200, bound=1, most=60, rand=60)],
            "C17": [dict(k=1, bound=0, most=1, pure=True), dict(k=2, bound=2, most=500, rand=30, pure=True), dict(k=3, n=2500, bound=2, most=400, rand=200),
                    dict(k=2, d=2, n=2500, bound=2, most=400, rand=200), dict(k=3, d=2, n=1000, bound=2, most=200, rand=300)]}

def programs(run, s):
    k, d, n, pure = s["k"], s.get("d", 1), s.get("n", 0), s.get("pure", False)
    pairs = s.get("pairs", False)
    ps, states = enumerate_programs(k, d, n, run.seed, pure, pairs)
    name = "pairs" if pairs else "k%dd%d" % (k, d)
    run.count_model("ConcPrograms/" + name, states, states, threads=k, units=d, complete=n == 0)
    # in half of the worlds the groups are made after the entities
    return [make("%s-%d" % (name, i), WORLDS[w - 1], t, late=i % 2 == 1) for i, (w, t) in enumerate(ps)]

def explore(run, tier):
    import json as _j
    t0 = time.time()
    limit = dict(C16=300, C17=60)[run.pid] if tier == "quick" else 700
    dead = crash = 0
    x = run.extra["schedules"] = []
    if run.pid == "C17":
        locks(run, *(dict(quick=(4, 2), thorough=(5, 3))[tier]))
        t0 = time.time()
    for s in (THOROUGH if tier == "thorough" else QUICK)[run.pid]:
        if time.time() - t0 > limit or run.found:
            break
        ps = programs(run, s)
        run.rng("order", str(s)).shuffle(ps)
        step = 4000 if run.pid == "C16" else 20000
        for i in range(0, len(ps), step):
            if time.time() - t0 > limit or run.found:
                break
            part = ps[i:i + step]
            r = run_(run, part, s)
            info = dict(programs=len(part), schedules=r.schedules, choice_points=r.points, explored_to_the_bound=r.complete, preemptions=s["bound"],
                        random_per_program=s.get("rand", 0), unscheduled_per_program=s.get("free", 0), threads=s["k"], units=s.get("d", 1), histories=len(r.lines), deadlocks=len(r.dead), crashes=len(r.crash))
            x.append(info)
            run.traces += r.schedules
            if not run.samples:
                for p, sch, line in r.lines[:3]:
                    run.samples.append(dict(trace=p.name, ops=p.setup + ["%d %s" % (t + 1, o) for t, os_ in enumerate(p.threads) for o in os_], schedule=sch,
                                            history=_j.loads(line)["h"]))
            if run.pid == "C17":
                run.events += r.points
                if r.dead:
                    report(run, min(r.dead, key=lambda d: (len(d[0].threads), len(d[1]))), "C17")
                elif r.crash:
                    run.elsewhere["crash"] = run.elsewhere.get("crash", 0) + len(r.crash)
                continue
            states, n, bad = judge([l for _, _, l in r.lines])
            info["histories_judged"] = n
            run.count_model("XecsLin", states, states, histories=n)
            run.events += sum(l.count('{"o":') for _, _, l in r.lines)
            if r.dead:
                run.elsewhere["deadlock"] = run.elsewhere.get("deadlock", 0) + len(r.dead)
            wrong = [(r.lines[k][0], r.lines[k][1]) for k in bad] + [(p, sch) for p, sch, _ in r.crash]
            if wrong:
                # is it the threads, or is the call wrong on its own?
                first = {}
                for p, sch in wrong:
                    first.setdefault(p.name, (p, sch))
                todo = sorted(first.values(), key=lambda f: (len(f[0].threads), sum(len(t) for t in f[0].threads)))[:60]
                alone = wrong_alone([p for p, _ in todo])
                run.elsewhere["wrong one at a time, too"] = run.elsewhere.get("wrong one at a time, too", 0) + len(alone)
                todo = [f for f in todo if f[0].name not in alone]
                if todo:
                    report(run, todo[0], "C16")

def run_(r, ps, s):
    return run(ps, s["bound"], s["most"], s.get("rand", 0), seed=r.seed, free=s.get("free", 0), procs=3 if s.get("free") else 8)

def wrong_alone(ps):
    """The programs that go wrong even if the threads take turns between calls only."""
    r = run(ps, 0, 60, serial=True)
    _, _, bad = judge([l for _, _, l in r.lines])
    return {r.lines[k][0].name for k in bad} | {p.name for p, _, _ in r.crash} | {p.name for p, _, _ in r.dead}

def failing(pid, ps, bound, most):
    """Which programs fail: {name: schedule}."""
    r = run(ps, bound, most)
    if pid == "C17":
        return {p.name: sch for p, sch, _ in r.dead}
    _, _, bad = judge([l for _, _, l in r.lines])
    res = {}
    for p, sch in [(r.lines[k][0], r.lines[k][1]) for k in bad] + [(p, sch) for p, sch, _ in r.crash]:
        res.setdefault(p.name, sch)
    if res:
        for n in wrong_alone([p for p in ps if p.name in res]):
            res.pop(n)
    return res

def shrink(p, sch, pid, budget=40):
    """A smaller program that fails in the same way, with a schedule."""
    t0 = time.time()
    bound, most = 2, 400
    best = (p, sch)
    def parts(q):
        """All its operations: (section, index)."""
        return [("S", i) for i in range(len(q.setup))] + [("F", i) for i in range(len(q.fin))] + [(t, i) for t in range(len(q.threads)) for i in range(len(q.threads[t]))]
    def less(q, drop, name):
        keep = lambda sec, l: [x for i, x in enumerate(l) if (sec, i) not in drop]
        return Program(name, keep("S", q.setup), [t for t in (keep(k, t) for k, t in enumerate(q.threads)) if t], keep("F", q.fin))
    size = None
    while time.time() - t0 < budget:
        q = best[0]
        al = [x for x in parts(q) if not (x[0] == "F" and q.fin[x[1]] == "dw")]
        size = min(size or max(1, len(al) // 3), len(al))
        cands = {}
        for i in range(0, len(al), size):
            c = less(q, set(al[i:i + size]), "m%d" % i)
            if len(c.threads) > (1 if pid == "C16" else 0):
                cands[c.name] = (c, set(al[i:i + size]))
        if not cands:
            break
        bad = failing(pid, [c for c, _ in cands.values()], bound, most)
        if bad:
            both = less(q, set().union(*[cands[n][1] for n in bad]), "both")
            b2 = failing(pid, [both], bound, most) if len(bad) > 1 and len(both.threads) > (1 if pid == "C16" else 0) else {}
            if b2:
                best = (both, b2["both"])
            else:
                n = min(bad, key=lambda n: len(parts(cands[n][0])))
                best = (cands[n][0], bad[n])
            size = min(size, max(1, (len(parts(best[0])) - 1) // 2))
        elif size == 1:
            break
        else:
            size = max(1, size // 3)
    return best

def report(run, case, pid):
    import os as _os
    p, sch = case[0], case[1]
    small, sch2 = shrink(p, sch, pid)
    what = ("the threads block one another for ever" if len(p.threads) > 1 else "a call blocks on its own") if pid == "C17" else "no sequential order of the calls explains a history"
    _os.makedirs(lib.REPLAYS, exist_ok=True)
    path = "%s/%s-%s.conc" % (lib.REPLAYS, pid, small_id(small))
    small.schedule = sch2
    with open(path, "w") as f:
        f.write("# %s %s\n# program %s; shown by: python3 /verif/tools/check.py replay %s\n" % (pid, what, p.name, path))
        f.write(small.text())
    run.found = (what, p.name, path, ["deadlock" if pid == "C17" else "history"], None)

def small_id(p):
    import hashlib
    return hashlib.sha1(p.text().encode()).hexdigest()[:10]

def replay(path):
    """Runs a replay file: shows what each call gave and whether that can be explained."""
    ps = parse(path)
    r = run(ps, 0, 1)
    rc = 0
    for p, sch, rec in r.dead:
        print("program:\n" + p.text())
        print("deadlock under schedule %s: %s" % (sch, rec["blocked"]))
        rc = 1
    for p, sch, what in r.crash:
        print("program:\n" + p.text() + "\ncrash: %s" % what)
        rc = 1
    _, _, bad = judge([l for _, _, l in r.lines])
    for k, (p, sch, line) in enumerate(r.lines):
        rec = json.loads(line)
        for e in rec["pre"]:
            print("before   ", json.dumps(e))
        n = {}
        for x in rec["h"]:
            t = abs(x)
            if x > 0:
                n[t] = n.get(t, 0) + 1
                print("thread %d calls   %s" % (t, p.threads[t - 1][n[t] - 1]))
            else:
                print("thread %d returns %s" % (t, json.dumps(rec["ops"][t - 1][n[t] - 1])))
        for e in rec["post"]:
            print("after    ", json.dumps(e))
        print("schedule %s: %s" % (sch, "NO ORDER EXPLAINS THIS" if k in bad else "explained"))
        rc = rc or (1 if k in bad else 0)
    return rc
