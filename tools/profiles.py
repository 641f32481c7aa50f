"""What each property's check explores.

models: graphs of XecsImpl (quick / thorough): name, constants, group set, operations budget, what to look at after each step.
random: random histories (quick / thorough): harness arguments and number of traces.
worlds: presence patterns times query classes (spec/Worlds.tla).
"""
AB, ABC = ["A", "B"], ["A", "B", "C"]
INF = 10 ** 9

def M(name, groups, obs, ops, **c):
    return dict(name=name, groups=groups, obs=obs, ops=ops, consts=c)
def R(n, len=40, cap=10, types="ABCDE", mask="er", w="new:8,att:30,det:14,rem:6", groups=50, batch=4):
    return dict(n=n, args=dict(len=len, cap=cap, types=types, mask=mask, w=w, groups=groups, batch=batch))

CORE = "new:8,fill:5,att:26,det:14,rem:7,bat:4,wr:5,qw:4"
BIG = dict(len=60, cap=220, batch=120)

def ids(ops): return M("ids", "GNone", "e", ops, MaxId=5, Batches=[2])
def store(ops, obs="er"): return M("store", "GNone", obs, ops, Types=["A"], MaxId=4)
def F(ops, obs): return M("full", "GF", obs, ops, Types=AB, MaxId=3, MaxGroups=1)
def P(ops, obs): return M("partial", "GP", obs, ops, Types=AB, MaxId=3, MaxGroups=1)
def N(ops, obs): return M("non", "GN", obs, ops, Types=AB, MaxId=3, MaxGroups=1)
def FB(ops, obs): return M("fullbatch", "GF", obs, ops, Types=AB, MaxId=3, MaxGroups=1, Batches=[1, 2])
def FN(ops, obs): return M("fullnon", "GFN", obs, ops, Types=AB, MaxId=3, MaxGroups=2)
def PN(ops, obs): return M("partnon", "GPN", obs, ops, Types=AB, MaxId=3, MaxGroups=2)
def PP(ops, obs): return M("partpart", "GPP", obs, ops, Types=AB, MaxId=3, MaxGroups=2)
# the same with two entities, for every change
def FN2(obs): return M("fullnon2", "GFN", obs, INF, Types=AB, MaxId=2, MaxGroups=2)
def PN2(obs): return M("partnon2", "GPN", obs, INF, Types=AB, MaxId=2, MaxGroups=2)
def PP2(obs): return M("partpart2", "GPP", obs, INF, Types=AB, MaxId=2, MaxGroups=2)
def FP3(ops, obs): return M("three", "GFP3", obs, ops, Types=ABC, MaxId=2, MaxGroups=2)
def PPP3(ops, obs): return M("cycle", "GPPP3", obs, ops, Types=ABC, MaxId=2, MaxGroups=3)
def NN3(ops, obs): return M("non3", "GNN3", obs, ops, Types=ABC, MaxId=2, MaxGroups=3)
def ALL(ops, obs): return M("all", "GAll", obs, ops, Types=AB, MaxId=2, MaxGroups=3)
def MIS(ops, obs): return M("misuse", "GFN", obs, ops, Types=["A"], Late=["B"], MaxId=2, MaxGroups=1, Misuse=True)
def ALL1(ops, obs): return M("groups", "GAll", obs, ops, Types=AB, MaxId=2, MaxGroups=2, Misuse=True)

QUICK = {
 "C01": dict(models=[ids(INF)], random=[R(150, mask="e", w="new:20,rem:14,bat:6,att:6,ent:4"), R(30, mask="e", w="new:20,rem:14,bat:6,fill:3", **BIG)]),
 "C02": dict(models=[ids(INF)], random=[R(150, mask="e", w="new:20,rem:16,bat:6,att:4"), R(30, mask="e", w="new:20,rem:14,bat:6,fill:3", **BIG)]),
 "C03": dict(models=[store(INF)], random=[R(220, mask="rS1T1", w=CORE), R(120, mask="rG", w=CORE, groups=100), R(20, mask="r", w=CORE, **BIG)]),
 "C04": dict(models=[store(20000), F(25000, "rG"), N(15000, "rG"), PN2("rG")],
             random=[R(150, mask="r", w="new:8,fill:6,att:20,det:26,rem:4,bat:3,ent:6"), R(200, mask="rGl", w="new:6,fill:8,att:20,det:26,rem:3,ent:4", groups=100),
                     R(15, mask="rG", w="fill:10,att:20,det:26,bat:4", **BIG)]),
 "C05": dict(models=[store(20000), F(15000, "erG"), FN2("erG"), PP2("erG")],
             random=[R(150, mask="erS1T1", w="new:10,fill:12,att:16,det:6,rem:18,bat:3"), R(250, mask="erGl", w="new:8,fill:14,att:16,det:5,rem:18,bat:3", groups=100),
                     R(15, mask="erG", w="fill:16,att:12,rem:14,bat:4", **BIG)]),
 "C06": dict(worlds=dict(classes="STH", per=6), random=[R(200, mask="S2T4H3", w=CORE, groups=70), R(60, mask="T4H4", w="fill:20,att:20,det:10,rem:5,qw:10", groups=80),
                     R(12, mask="S1T3H2", w="fill:16,att:14,det:8,rem:8,bat:4", **BIG)]),
 "C07": dict(worlds=dict(classes="W", per=14), random=[R(250, mask="W6", w=CORE, groups=70), R(60, mask="W5", w="fill:20,att:20,det:10,rem:5,qw:10", groups=90),
                     R(12, mask="W4", w="fill:16,att:14,det:8,rem:8,bat:4", **BIG)]),
 "C08": dict(models=[F(40000, "Gr"), P(40000, "Gr"), N(40000, "Gr"), FN2("G"), PP2("G")],
             random=[R(350, mask="GH1", w=CORE, groups=100), R(15, mask="GH1", w=CORE, groups=100, **BIG)]),
 "C09": dict(models=[ALL1(30000, "rG"), MIS(INF, "r")],
             random=[R(250, mask="erGl", w="new:8,fill:10,att:20,det:10,rem:5,mg:10,reg:2,mis:3", groups=50), R(15, mask="rG", w="fill:16,att:14,det:8,rem:8,bat:4,mg:5", **BIG)]),
 "C10": dict(models=[FN2("rGw"), PN2("rGw")], random=[R(250, mask="rS1", w="new:6,fill:12,att:14,det:6,rem:3,wr:22,wa:6,qw:14,ent:4", groups=20),
                     R(300, mask="rGT1", w="new:6,fill:14,att:14,det:6,rem:3,wr:8,qw:26", groups=100), R(15, mask="r", w="fill:16,att:10,wr:8,wa:4,qw:12,bat:4", groups=80, **BIG)]),
 "C11": dict(models=[FB(40000, "rG")], random=[R(220, mask="erGl", w="new:4,att:8,det:5,rem:5,bat:24,mis:2", groups=90, cap=16), R(120, mask="rS1", w="new:4,att:8,det:5,rem:5,bat:24,mis:3", groups=0, cap=16),
                     R(25, mask="erG", w="att:6,det:6,rem:6,bat:10", **BIG)]),
 "C12": dict(random=[R(400, mask="crk", w="rr:20,rw:20,att:10,new:6,det:4,wr:6,rem:2", groups=20)]),
 "C13": dict(models=[store(20000, "r"), FN2("r"), F(15000, "r")], random=[R(300, mask="", len=80, w="new:8,fill:8,att:26,det:12,rem:8,bat:6,wr:6,qw:5,mg:3,rr:4,rw:3,mis:6,ent:4", groups=60),
                     R(20, mask="", w=CORE + ",mis:5", **BIG)]),
 "C14": dict(models=[MIS(INF, "erGk")], random=[R(350, mask="erGS1ck", w="new:6,fill:6,att:12,det:6,rem:5,bat:2,mis:26,mg:3,rr:2,reg:2", groups=60)]),
 "C18": dict(models=[FN2("ii"), PP2("ii"), store(8000, "i")], random=[R(300, mask="i3", w=CORE, groups=70), R(12, mask="i3", w="fill:16,att:14,det:8,rem:8,bat:4", **BIG)]),
 "C19": dict(models=[F(40000, "l"), P(40000, "l"), FN2("l"), PP2("l")],
             random=[R(350, mask="l", w=CORE + ",mg:3", groups=100), R(20, mask="l", w=CORE, groups=100, **BIG)]),
}

def _without(w, *ks):
    return ",".join(x for x in w.split(",") if x.split(":")[0] not in ks)
def _more(pid):
    """Histories of other proportions: another world alongside, thousands of entities, high ids, thousands of operations."""
    q = QUICK[pid]
    r = q["random"][0]
    a = r["args"]
    mask = a["mask"]
    out = [dict(n=max(30, r["n"] // 4), args=dict(a, w=a["w"] + ",o2:%d" % max(4, sum(int(x.split(":")[1]) for x in a["w"].split(",")) // 5)))]
    long = dict(a, len=1200, every=30, w=a["w"])
    out.append(dict(n=4, args=long))
    # the same thing hundreds and tens of thousands of times
    again = ",cyn:3,cyd:3,cyb:1,cyq:2"
    out.append(dict(n=12, args=dict(a, len=30, w=a["w"] + again)))
    out.append(dict(n=2, args=dict(a, len=12, churn=66000, w=a["w"] + again)))
    if pid != "C12":
        w = _without(a["w"], "qw", "mis", "ent", "wa") + ",wa:3"
        groups = 100 if a["groups"] else 0
        out.append(dict(n=3, args=dict(a, len=16, cap=10 ** 6, batch=900, start=3000, types="ABCD", w=w + ",wipe:1,refill:1", every=2, full=30, groups=groups, mask=mask.replace("k", ""))))
        out.append(dict(n=4, args=dict(a, len=12, cap=10 ** 6, batch=200, start=700, w=a["w"] + ",wipe:3,refill:3", every=3, full=70, groups=groups, mask=mask.replace("k", ""))))
        # more rows, and places, than fit 16 bits
        out.append(dict(n=1, args=dict(a, len=10, cap=10 ** 6, batch=5, start=66500, types="ABCD", fat=100, every=12, full=3, w=w, groups=groups, mask=mask.replace("k", ""))))
        out.append(dict(n=3, args=dict(a, len=24, cap=10 ** 6, batch=5, start=66500, fat=0, w=w + ",fill:24", every=4, groups=groups)))
    return out
for _p in QUICK:
    QUICK[_p]["random"] = QUICK[_p]["random"] + _more(_p)

def thorough(pid):
    """The same sources, every edge of the graphs, more and larger graphs, many more random histories."""
    q = QUICK[pid]
    t = dict(q)
    t["models"] = [dict(m, ops=INF) for m in q.get("models", [])]
    obs = {"C04": "rGl", "C05": "erGl", "C08": "GH", "C09": "rGl", "C10": "rGw", "C11": "rGl", "C13": "r", "C18": "i", "C19": "l", "C03": "rGST"}.get(pid)
    if pid in ("C01", "C02"):
        t["models"] = [dict(ids(INF), consts=dict(MaxId=6, Batches=[2, 3]))]
        t["proof"] = "IdProof"
    if pid in ("C03", "C08", "C09", "C19"):
        t["proof"] = "GroupProof"
    if pid == "C03":
        t["models"].append(dict(store(INF, "r"), name="store5", consts=dict(Types=["A"], MaxId=5), ops=600000))
    if pid in ("C14", "C09"):
        t["models"].append(dict(MIS(INF, "erGk" if pid == "C14" else "rGl"), name="misuse3", groups="GFPN",
                                consts=dict(Types=["A"], Late=["B"], MaxId=2, MaxGroups=2, Misuse=True)))
    if obs:
        big = [F, P, N, FN, PN, PP, FP3, PPP3, NN3, FB]
        have = {m["name"] for m in t["models"]}
        for f in big:
            m = f(400000, obs)
            if m["name"] not in have:
                t["models"].append(m)
    t["random"] = [dict(r, n=r["n"] * (2 if r["args"].get("start") else 12)) for r in q["random"]]
    if pid not in ("C12", "C06", "C07"):
        a = q["random"][0]["args"]
        t["random"].append(dict(n=2, args=dict(a, len=6, cap=10 ** 6, batch=900, start=67000, types="AB", w=_without(a["w"], "qw", "mis", "ent"), every=3, fat=100)))
    if "worlds" in q:
        t["worlds"] = dict(q["worlds"], per=60, big=True)
    return t
