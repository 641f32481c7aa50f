#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property against /repo's working tree
check.py replay <file>                 run the operations of a replay file against the real code and show what is wrong
check.py build                         build the harness"""
import hashlib, json, os, random, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

SEQ = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C18", "C19"]
CONC = ["C15", "C16", "C17", "C20"]

class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.states = self.transitions = self.traces = self.events = self.edges = 0
        self.models, self.samples, self.extra = [], [], {}
        self.pending, self.size = [], 0
        self.found = None           # (what, trace id, ops, tags, detail)
        self.elsewhere = {}         # disagreements that are about other properties
        self.lock = threading.Lock()

    def rng(self, *key):
        return random.Random("%d/%s/%s" % (self.seed, self.pid, "/".join(map(str, key))))
    def path(self, name):
        return "%s/%s" % (lib.scratch(), name)

    def count_model(self, name, states, transitions, **more):
        with self.lock:
            self.states += states
            self.transitions += transitions
            self.models.append(dict(name=name, states=states, transitions=transitions, **more))

    # -- sources of traces
    def replay_file(self, ops):
        for tf in lib.replay(ops):
            self.take(tf)
        os.remove(ops)
    def take(self, tf):
        with self.lock:
            self.pending.append(tf)
            self.size += os.path.getsize(tf.path)
        os.remove(tf.path)

    def from_model(self, i, m, workers):
        import graph
        if self.found:
            return
        g = graph.build(m["name"], m["consts"], m["groups"], workers=workers)
        ops = self.path("model%d.ops" % i)
        covered, n = graph.write_walks(g, self.rng("walk", m["name"]), ops, m["ops"], m["obs"])
        with self.lock:
            self.edges += covered
        self.count_model("XecsImpl/" + m["name"], g.states, g.transitions, edges_replayed=covered, edges=g.edges, walks=n,
                         complete=covered == g.edges, constants=m["consts"], groups=m["groups"])
        self.replay_file(ops)
    def from_random(self, i, r):
        if self.found:
            return
        base = self.path("random%d" % i)
        a = ["random", "seed=%d" % (self.seed * 1000 + i * 37 + sum(map(ord, self.pid))), "traces=%d" % r["n"], "out=" + base + ".nd", "ops=" + base + ".ops"]
        a += ["%s=%s" % kv for kv in r["args"].items()]
        crash = lib.harness(a)
        if crash:
            # what it recorded before is lost: run those histories again, and the one it died in up to there
            for tf in lib.replay(base + ".ops", status=crash):
                self.take(tf)
            return
        self.take(lib.TraceFile(base + ".nd", lib.read_ops(base + ".ops")))
        os.remove(base + ".ops")
    def from_worlds(self, w):
        import worlds
        ops = self.path("worlds.ops")
        sizes = [("ABCDE", 2), ("ABC", 4), ("ABCD", 3)] if not w.get("big") else [("ABCDE", 3), ("ABCD", 4), ("ABC", 5)]
        info = worlds.write(ops, self.rng("worlds"), w["classes"], w["per"], sizes)
        self.extra["worlds"] = info
        self.count_model("Worlds", info["states"], info["states"])
        self.replay_file(ops)

    # -- judging
    def judge(self):
        """Validates what was recorded so far against the specification."""
        import blame, minimise
        with self.lock:
            files, self.pending, self.size = self.pending, [], 0
        if not files:
            return
        ev, n, bad = lib.validate(files)
        self.events += ev
        self.traces += n
        if not self.samples:
            for f in files[:3]:
                k = min(range(len(f.lines)), key=lambda i: abs(len(f.lines[i]) - 3000))
                self.samples.append(dict(trace=f.ids[k], ops=f.ops[f.ids[k]][:40], events=len(f.ops[f.ids[k]])))
        if not bad or self.found:
            return
        hits, maybe = [], []
        for f, i, b in bad:
            evs = f.events(i)
            d = blame.direct(self.pid, evs, b)
            if d:
                hits.append((f, i, d, evs))
            else:
                d = blame.indirect(self.pid, evs, b)
                if d:
                    maybe.append((d[0], d[1], len(maybe), f, i, d[2]))
                l, tags = b[0]
                key = evs[l]["o"] + ":" + ",".join(tags) if l < len(evs) else "?"
                self.elsewhere[key] = self.elsewhere.get(key, 0) + 1
        if hits:
            f, i, (l, tags), evs = min(hits, key=lambda h: h[2][0])
            self.report(f.ids[i], f.ops[f.ids[i]][:l + 1], tags)
            return
        # nothing direct: is an operation of the property needed for what went wrong?
        maybe.sort()
        for _, l, _, f, i, tags in maybe[:4]:
            small = minimise.shrink(f.ops[f.ids[i]][:l + 1], tags, 40)
            evs = self.once(small)
            if any(blame.is_cause(self.pid, e) for e in evs[:-1]):
                self.found = ("disagreement " + ",".join(tags), f.ids[i], small, tags, evs[-1])
                return
    def once(self, ops):
        import minimise
        return minimise.record([ops])[0]
    def report(self, trace, ops, tags):
        import minimise
        small = minimise.shrink(ops, tags, 45)
        self.found = ("disagreement " + ",".join(tags), trace, small, tags, self.once(small)[-1])

    # -- the whole check
    def explore(self, prof):
        jobs = []
        for i, r in enumerate(prof.get("random", [])):
            jobs.append(lambda i=i, r=r: self.from_random(i, r))
        if "worlds" in prof:
            jobs.append(lambda: self.from_worlds(prof["worlds"]))
        models = prof.get("models", [])
        for i, m in enumerate(models):
            jobs.append(lambda i=i, m=m: self.from_model(i, m, 4 if len(models) > 1 else 8))
        jobs.append(self.abstract)
        if prof.get("proof"):
            jobs.append(lambda: self.proof(prof["proof"]))
        errs = []
        judging = threading.Lock()
        def worker():
            while True:
                with self.lock:
                    if not jobs or errs or self.found:
                        return
                    j = jobs.pop(0)
                try:
                    j()
                    with judging:
                        if self.size > 400 << 20:
                            self.judge()
                except Exception as e:
                    errs.append(e)
                    return
        ts = [threading.Thread(target=worker) for _ in range(3)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        self.judge()
    def abstract(self):
        """The specification's own properties."""
        big = self.tier == "thorough"
        c = dict(Types=["A", "B"], Values=[1, 2] if big else [1], MaxId=3 if big else 2, MaxGroups=2, Resources=["P"])
        g, d, _ = lib.model("MCXecs", c, invariants=["TypeOK", "IdsPartition", "NoGhosts", "HeldAlive", "OwnedOnce"],
                            properties=["RefusalKeepsState", "Conserved"], view="state", workers=2)
        self.count_model("Xecs", d, g)

    def proof(self, module):
        """What TLC checks up to a bound, proved without one."""
        n = lib.prove(module)
        self.extra["proof"] = dict(module=module, obligations=n, tool="tlapm")

def evidence(run, wall):
    cov = dict(states=run.states, transitions=run.transitions, traces_validated_against_impl=run.traces, samples=run.samples or ["none"],
               events_validated=run.events, edges_of_the_model_replayed=run.edges, models=run.models, **run.extra)
    if run.elsewhere:
        cov["disagreements_about_other_properties"] = run.elsewhere
    d = dict(property=run.pid, tier=run.tier, seed=run.seed, level="model_checking", coverage=cov, wall_s=round(wall, 1), violations=1 if run.found else 0,
             assumptions=["parking_lot is replaced by a stand-in with the same blocking rules", "TLC's 64-bit state fingerprints do not collide"])
    os.makedirs(lib.ROOT + "/evidence", exist_ok=True)
    json.dump(d, open("%s/evidence/%s.json" % (lib.ROOT, run.pid), "w"), indent=1)

def write_replay(run):
    what, trace, ops, tags, ev = run.found
    os.makedirs(lib.REPLAYS, exist_ok=True)
    h = hashlib.sha1("\n".join(ops).encode()).hexdigest()[:8]
    p = "%s/%s-%s.ops" % (lib.REPLAYS, run.pid, h)
    with open(p, "w") as f:
        f.write("# property %s: %s (found in trace %s)\n" % (run.pid, what, trace))
        if ev:
            f.write("# the last operation's record: %s\n" % json.dumps(ev))
        f.write("# run: python3 %s/tools/check.py replay %s\n" % (lib.ROOT, p))
        f.write("T replay\n" + "\n".join(ops) + "\n")
    return p

def decide(pid, tier, seed):
    t0 = time.time()
    lib.build()
    run = Run(pid, tier, seed)
    if pid in SEQ:
        import profiles
        run.explore(profiles.thorough(pid) if tier == "thorough" else profiles.QUICK[pid])
    elif pid == "C15":
        import guards
        guards.explore(run, tier)
    elif pid == "C20":
        import worldturns
        worldturns.explore(run, tier)
    else:
        import conc
        conc.explore(run, tier)
    evidence(run, time.time() - t0)
    known(pid)
    if run.found:
        p = run.found[2] if isinstance(run.found[2], str) else write_replay(run)
        print("%s: %s" % (pid, run.found[0]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    print("%s held: %d model states, %d traces, %d events, %.0f s" % (pid, run.states, run.traces, run.events, time.time() - t0))
    return 0

def known(pid):
    """Findings recorded in known_findings.txt (none suppress anything unless they are listed as known)."""
    p = lib.ROOT + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % pid):
                print("KNOWN-FINDING: " + l[len("known: "):].strip())

def replay(path):
    lib.build()
    rc = 0
    if path.endswith(".conc"):
        import conc
        return conc.replay(path)
    for tf in lib.replay(path):
        import guards, worldturns
        module = "XecsWorlds" if worldturns.mine(path) else "XecsGuards" if guards.mine(path) else "XecsTrace"
        _, _, bad = lib.validate([tf], procs=1, module=module)
        for i in range(len(tf.lines)):
            tags = {l: t for _, j, b in bad if j == i for l, t in b}
            for l, e in enumerate(tf.events(i)):
                print("%-40s %s %s" % (tf.ops[tf.ids[i]][l], json.dumps({k: v for k, v in e.items() if k not in ("o",)}), "   <-- " + ",".join(tags[l]) if l in tags else ""))
        rc = rc or (1 if bad else 0)
    return rc

def main():
    try:
        if sys.argv[1] == "build":
            lib.build()
            return 0
        if sys.argv[1] == "replay":
            return replay(sys.argv[2])
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        return decide(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1")))
    except lib.ToolError as e:
        print("TOOL ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        lib.cleanup()

if __name__ == "__main__":
    sys.exit(main())
