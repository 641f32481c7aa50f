"""Shared machinery: building the harness, running TLC, validating recorded traces against XecsTrace."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = ROOT + "/spec"
HARNESS = ROOT + "/harness"
TARGET = HARNESS + "/target"
BIN = TARGET + "/debug/xh"
REPLAYS = ROOT + "/replays"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- scratch space
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="xecs-check-")
    return _scratch
def cleanup():
    if _scratch and os.path.isdir(_scratch):
        shutil.rmtree(_scratch, ignore_errors=True)


# ---------------------------------------------------------------- building
def tree_hash():
    h = hashlib.sha256()
    files = [REPO + "/Cargo.toml"]
    for base in (REPO + "/src", HARNESS + "/src", HARNESS + "/shim"):
        for d, ds, fs in os.walk(base):
            ds.sort()
            if "target" in ds:
                ds.remove("target")
            files += [os.path.join(d, f) for f in sorted(fs)]
    files += [HARNESS + "/Cargo.toml", HARNESS + "/Cargo.lock"]
    for f in files:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()

def build():
    """Builds the harness against /repo's working tree (by content, whatever the files' times say)."""
    os.makedirs(TARGET, exist_ok=True)
    stamp, want = TARGET + "/tree.sha256", tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    if have != want or not os.path.exists(BIN):
        if os.path.exists(stamp):
            os.remove(stamp)
        subprocess.run(["cargo", "clean", "--offline", "-p", "xecs", "-p", "xh", "-p", "parking_lot"], cwd=HARNESS, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("the harness does not build:\n" + p.stdout[-4000:])
        open(stamp, "w").write(want)


# ---------------------------------------------------------------- running the harness
hangs = 0      # operations that never came back
class Crash:
    """The harness died or hung; ops is what it was doing."""
    def __init__(self, what, trace, ops):
        self.what, self.trace, self.ops = what, trace, ops

def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def harness(args, timeout=600):
    """Runs the harness. Returns None, or a Crash. args: list of key=value with the subcommand first."""
    n = len(os.listdir(scratch()))
    status = "%s/status%d-%d" % (scratch(), threading.get_ident(), n)
    try:
        p = subprocess.run([BIN] + args + ["status=" + status], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           preexec_fn=_limits)
        rc, err = p.returncode, p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, err = 97, "timeout"
    if rc == 0:
        if os.path.exists(status):
            os.remove(status)
        return None
    lines = open(status).read().split("\n") if os.path.exists(status) else []
    lines = [l for l in lines if l]
    if rc == 2 or not lines:
        raise ToolError("harness failed (%d): %s" % (rc, err[-2000:]))
    if rc == 97:
        global hangs
        hangs += 1
    what = "hang" if rc == 97 else ("signal %s" % signal.Signals(-rc).name if rc < 0 else "exit %d" % rc)
    return Crash(what + " " + err.strip()[-300:].replace("\n", " "), lines[0][2:], lines[1:])


# ---------------------------------------------------------------- running TLC
def tlc(module, cfg, workers=8, env=None, timeout=800, heap="4g", extra=()):
    """Runs TLC; gives (exit code, output)."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    work = tempfile.mkdtemp(prefix="spec", dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(SPEC + "/" + f, work + "/" + f)
    cfgf = work + "/run.cfg"
    open(cfgf, "w").write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", meta, "-config", cfgf] + list(extra) + [work + "/" + module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    out = meta + "/out.txt"
    with open(out, "w") as fo:
        p = subprocess.Popen(cmd, stdout=fo, stderr=subprocess.STDOUT, env=e, cwd=work)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise ToolError("TLC took longer than %d s on %s" % (timeout, module))
    text = open(out, errors="replace").read()
    shutil.rmtree(meta, ignore_errors=True)
    shutil.rmtree(work, ignore_errors=True)
    return rc, text

def stats(text):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def tval(v):
    """A Python value as a TLA+ constant for a configuration file."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    return "{" + ", ".join(tval(x) for x in v) + "}"

def model(module, constants, defs=(), invariants=(), properties=(), view=None, action_constraint=None, spec="Spec", constraint=None,
          timeout=800, workers=8, heap="6g", postcondition=None, extra=(), env=None):
    """Model checks one configuration. Gives (generated, distinct, output). Any violation is an error of the specification."""
    cfg = ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    if constants or defs:
        cfg.append("CONSTANTS")
        cfg += [" %s = %s" % (k, tval(v)) for k, v in constants.items()]
        cfg += [" %s <- %s" % (k, v) for k, v in defs]
    if invariants:
        cfg.append("INVARIANT " + " ".join(invariants))
    if properties:
        cfg.append("PROPERTY " + " ".join(properties))
    if view:
        cfg.append("VIEW " + view)
    if action_constraint:
        cfg.append("ACTION_CONSTRAINT " + action_constraint)
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    if postcondition:
        cfg.append("POSTCONDITION " + postcondition)
    rc, out = tlc(module, "\n".join(cfg) + "\n", workers=workers, timeout=timeout, heap=heap, extra=extra, env=env)
    if rc != 0 or "No error has been found" not in out:
        tail = "\n".join(l for l in out.split("\n") if not l.startswith('<<"E"'))[-3000:]
        raise ToolError("TLC found an error in the specification %s %s:\n%s" % (module, constants, tail))
    g, d = stats(out)
    return g, d, out


# ---------------------------------------------------------------- validating traces
class TraceFile:
    """Recorded traces (JSON lines) and the operations behind them."""
    def __init__(self, path, ops):
        self.path = path
        self.ids, self.lines = [], []
        self.ops = ops                       # trace id -> list of operation lines
        with open(path) as f:
            for line in f:
                line = line.rstrip("\n")
                if line:
                    self.lines.append(line)
                    self.ids.append(line[7:line.index('"', 7)])
    def events(self, i):
        return json.loads(self.lines[i])["ev"]

def replay(path, status=None, limit=6):
    """Runs the histories of a file. One in which the process dies is recorded up to there, with the last operation marked as a crash.
    status: a crash that ended a run which was writing this file."""
    ops = read_ops(path)
    if status is not None:
        ops = {k: v for k, v in ops.items() if k != status.trace}
    files, n = [], 0
    def go(todo):
        nonlocal n
        n += 1
        src = "%s.%d.run" % (path, n)
        with open(src, "w") as f:
            for k, v in todo.items():
                f.write("T %s\n%s\n" % (k, "\n".join(v)))
        c = harness(["replay", "in=" + src, "out=" + src + ".nd"])
        os.remove(src)
        if c is None:
            files.append(TraceFile(src + ".nd", todo))
        return c
    def dead(c):
        # an operation starting with ! is recorded as a crash and not run
        if c.ops:
            go({c.trace: c.ops[:-1] + ["!" + c.ops[-1]]})
    if status is not None:
        dead(status)
    while ops:
        c = go(ops)
        if c is None:
            break
        names = list(ops)
        k = names.index(c.trace)
        before = {x: ops[x] for x in names[:k]}
        ops = {x: ops[x] for x in names[k + 1:]}
        dead(c)
        if before:
            go(before)
        limit -= 1
        if limit == 0 or hangs > 3:
            break
    return files

def read_ops(path):
    ops, cur = {}, None
    with open(path) as f:
        for line in f:
            line = line.rstrip("\n")
            if line.startswith("T "):
                cur = []
                ops[line[2:]] = cur
            elif line and line[0] != "#":
                cur.append(line)
    return ops

BAD = re.compile(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>')

def _validate_lines(lines, workers, module, timeout, strict=True):
    """Gives (states, {index: [(event, tags)]}, events)."""
    if not lines:
        return 0, {}, 0
    keep = list(range(len(lines)))
    bads, total = {}, 0
    for attempt in range(6):
        path = tempfile.mktemp(prefix="t", suffix=".ndjson", dir=scratch())
        with open(path, "w") as f:
            f.write("\n".join(lines[i] for i in keep) + "\n")
        rc, out = tlc(module, "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % {"XecsGuards": "GSpec", "XecsWorlds": "WSpec"}.get(module, "TraceSpec"), workers=workers, env={"TRACE": path}, timeout=timeout)
        os.remove(path)
        bads = {i: v for i, v in bads.items() if i not in keep}
        for t, l, tags in BAD.findall(out):
            bads.setdefault(keep[int(t) - 1], []).append((int(l) - 1, tuple(sorted(re.findall(r'"(\w+)"', tags)))))
        if rc == 0 and "No error has been found" in out:
            total = stats(out)[0]
            break
        # The recorded data could not even be evaluated: that trace is wrong too. Set it aside and go on.
        m = re.findall(r"/\\ tr = (\d+)", out)
        n = re.findall(r"/\\ l = (\d+)", out)
        if not m:
            raise ToolError("TLC failed on traces:\n" + out[-3000:])
        i = keep[int(m[-1]) - 1]
        bads.setdefault(i, []).append((int(n[-1]) - 1, ("shape",)))
        bads = {k: v for k, v in bads.items() if k == i or k not in keep}
        keep.remove(i)
        if not keep:
            break
    else:
        raise ToolError("TLC failed on too many traces")
    n_ev = 0
    want = 0
    for i in keep:
        k = lines[i].count('{"o":')
        n_ev += k
        want += k + 1
    if strict and total != want and not any(i in bads for i in keep):
        raise ToolError("traces were not checked to the end: %d states for %d" % (total, want))
    for v in bads.values():
        v.sort()
    return total, bads, n_ev

def prove(module, timeout=700):
    """Has tlapm check the proofs of a module; gives the number of obligations."""
    work = tempfile.mkdtemp(prefix="proof", dir=scratch())
    shutil.copy("%s/%s.tla" % (SPEC, module), work)
    try:
        p = subprocess.run(["tlapm", "--threads", "4", "--stretch", "4", "--cache-dir", work + "/cache", module + ".tla"], cwd=work, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except subprocess.TimeoutExpired:
        raise ToolError("tlapm took longer than %d s on %s" % (timeout, module))
    m = re.search(r"All (\d+) obligations? proved", p.stdout)
    if not m:
        raise ToolError("%s is not proved:\n%s" % (module, p.stdout[-3000:]))
    return int(m.group(1))

def validate(files, module="XecsTrace", procs=4, workers=2, timeout=800, strict=True):
    """Validates trace files with several TLC processes. Gives (events, traces, [(file, index, [(event, tags)])])."""
    items = [(f, i) for f in files for i in range(len(f.lines))]
    if not items:
        return 0, 0, []
    # share the traces out evenly by size
    shares = [[] for _ in range(procs)]
    load = [0] * procs
    for it in sorted(items, key=lambda it: -len(it[0].lines[it[1]])):
        k = load.index(min(load))
        shares[k].append(it)
        load[k] += len(it[0].lines[it[1]])
    res, errs = [None] * procs, []
    def go(k):
        try:
            res[k] = _validate_lines([f.lines[i] for f, i in shares[k]], workers, module, timeout, strict)
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=go, args=(k,)) for k in range(procs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    bad, ev = [], 0
    for k in range(procs):
        ev += res[k][2]
        for i, b in sorted(res[k][1].items()):
            bad.append((shares[k][i][0], shares[k][i][1], b))
    return ev, len(items), bad
