"""Presence patterns (spec/Worlds.tla) times the query catalogue."""
import re
import gen_catalog as cat
import graph, lib

def write(path, rng, classes, per, sizes, prefix="p"):
    """For every world of every (types, N) in sizes: a history that builds it and asks about `per` queries of the classes."""
    qs = [i for i in range(1, len(cat.Q) + 1) if cat.klass(cat.Q[i - 1]) in classes]
    rng.shuffle(qs)
    turn, asked, states, worlds, made_so_far = 0, set(), 0, 0, 0
    with open(path, "w") as f:
        for types, n in sizes:
            gen, dist, out = lib.model("Worlds", {"N": n, "Types": list(types)}, invariants=["Emit"], workers=4, timeout=300)
            ws = re.findall(r'<<\s*"W",\s*<<(.*?)>>\s*>>', out, re.S)
            if len(set(ws)) != dist:
                raise lib.ToolError("worlds were not read: %d of %d" % (len(set(ws)), dist))
            states += dist
            for w in sorted(set(ws)):
                pats = [re.findall(r'"(\w)"', x) for x in re.findall(r'\{(.*?)\}', w)]
                done, group_sets = 0, 0
                while done < per:
                    # the next query in turn decides which groups there are; the rest is filled up with what is legal then
                    first = qs[turn % len(qs)]
                    turn += 1
                    made = []
                    for g in cat.groups(cat.Q[first - 1]):
                        if graph.legal(g, made, "ABCDE"):
                            made.append(g)
                    if not set(cat.groups(cat.Q[first - 1])) <= set(made):
                        continue
                    also = [i for i in qs if set(cat.groups(cat.Q[i - 1])) <= set(made)]
                    ask = [first] + [rng.choice(also) for _ in range(min(per - done - 1, 5))]
                    f.write("T %s.%d.%d\n" % (prefix, worlds, group_sets))
                    # some among hundreds of other entities, a few among tens of thousands
                    made_so_far += 1
                    base = 66000 if made_so_far % 150 == 7 else 300 if made_so_far % 12 == 5 else 0
                    f.write(history(rng, pats, made, ask, base))
                    asked |= set(ask)
                    done += len(ask)
                    group_sets += 1
                worlds += 1
    return dict(states=states, worlds=worlds, queries_asked=len(asked), of=len(qs))

def history(rng, pats, made, ask, base=0):
    n = len(pats)
    lines = ["reg " + t for t in "ABCDE"] + (["bo %d" % base, "bc"] if base else [])
    early = rng.random() < 0.5
    if early:
        lines += ["mg %s %s %s" % g for g in made]
    order = list(range(base + 1, base + n + 1))
    rng.shuffle(order)
    lines += ["new"] * n
    puts = [(order[i], t) for i in range(n) for t in pats[i]]
    rng.shuffle(puts)
    val = 0
    for e, t in puts:
        val += 1
        lines.append("att %d %s %d w" % (e, t, 0 if t == 'C' else val))
    if rng.random() < 0.3 and puts:
        # a detour: something taken away and put back
        e, t = rng.choice(puts)
        val += 1
        lines += ["det %d %s w" % (e, t), "att %d %s %d w" % (e, t, 0 if t == 'C' else val)]
    if not early:
        lines += ["mg %s %s %s" % g for g in made]
    for q in ask:
        r = rng.random()
        if r < 0.12:
            lines.append("it %d - %s" % (q, " ".join(rng.choice(["n", "n", "i", "i", "h", "k%d" % rng.randint(0, 2), "f%d" % (base + rng.randint(1, n + 1))]) for _ in range(2 * n + 3))))
        elif r < 0.2 and cat.muts(cat.Q[q - 1]):
            val += 1
            lines.append("qw %d %d %s" % (q, val, rng.choice("inm")))
            val += 10 * (n + 1)
        else:
            lines.append("q %d %s" % (q, rng.choice("iinwm")))
    return "\n".join(lines) + "\n"
