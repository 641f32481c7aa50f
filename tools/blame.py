"""Which property a disagreement between the code and the specification is about."""
import gen_catalog as cat

MUT = {"att": "C03", "ha": "C03"}
LOOK = {"ex", "rd", "lay", "q", "it", "lk", "rg", "hr"}
ROWTAGS = {"rows", "foreign", "rowvalue", "repeat", "kind", "shape"}

def klass(ev):
    return cat.klass(cat.Q[ev["q"] - 1])

def owns(pid, ev, tags):
    """The event itself, and what is wrong with it, is the property's business."""
    o, T = ev["o"], set(tags)
    if T & {"shape"}:
        T |= {"kind"}
    row = bool(T & ROWTAGS)
    if pid == "C01":
        return bool(T & {"id", "exist"}) or (o == "ho" and "kind" in T)
    if pid == "C02":
        return "lifo" in T or (o in ("bc", "bo", "cyb") and bool(T & {"value", "kind"})) or (o == "new" and "kind" in T)
    if pid == "C03":
        return o == "rd" or (o == "cr" and ev["t"] == "X") or (o in ("att", "ha") and bool(T & {"kind"})) or (o in ("q", "it") and klass(ev) == "S" and row)
    if pid == "C04":
        return o in ("det", "hd", "cyd")
    if pid == "C05":
        return o == "rem" or (o == "cyn" and "kind" in T)
    if pid == "C06":
        return o in ("q", "qw", "qf", "cyq") and klass(ev) in "STH" and row
    if pid == "C07":
        return o in ("q", "qw", "qf", "it", "cyq") and klass(ev) == "W" and bool(T & (ROWTAGS | {"itrow", "itid", "itend", "itlookup"}))
    if pid == "C08":
        return o in ("q", "qw", "qf", "cyq") and klass(ev) in "GH" and row
    if pid == "C09":
        return o in ("mg", "fg")
    if pid == "C10":
        return o in ("wr", "wa", "hw", "qw", "qf") and bool(T & {"value", "kind", "alias", "shape", "rows", "rowvalue"})
    if pid == "C11":
        return o in ("ba", "bo", "bc")
    if pid == "C12":
        return o in ("rr", "rg", "rw")
    if pid == "C13":
        return "drop" in T or o == "dw" or ev["k"] == "crash"
    if pid == "C14":
        return "locked" in T or o == "lk" or (ev["k"] == "panic" and "kind" in T) or misuse(ev)
    if pid == "C15" or pid == "C17":
        return ev["k"] == "block"
    if pid == "C18":
        return o == "it"
    if pid == "C19":
        return o == "lay"
    return False

# Operations whose effect on everything else is the property's business, too.
CAUSE = {"C02": {"bo", "bc", "cyn", "cyb"}, "C04": {"det", "hd", "cyd"}, "C05": {"rem", "cyn", "cyb"}, "C09": {"mg", "fg"}, "C10": {"wr", "wa", "hw", "qw", "qf"}, "C11": {"ba", "bo", "bc"},
         "C12": {"rr", "rw"}, "C14": None}

def misuse(ev):
    return ev["k"] == "panic"

def direct(pid, evs, bads):
    """The first disagreement of a trace that is about the property, or None: (event, tags)."""
    for l, tags in bads:
        if l < len(evs) and owns(pid, evs[l], tags):
            return l, tags
    return None

def is_cause(pid, ev):
    if pid == "C14":
        return misuse(ev)
    return pid in CAUSE and ev["o"] in CAUSE[pid]

def indirect(pid, evs, bads):
    """The history before the first disagreement contains operations of the property: (rank, event, tags); worth minimising."""
    if pid not in CAUSE:
        return None
    l, tags = bads[0]
    if not any(is_cause(pid, e) for e in evs[:l]):
        return None
    i = l - 1
    while i > 0 and evs[i]["o"] in LOOK:
        i -= 1
    near = evs[l]["o"] in LOOK | {"qw", "qf", "wa"} and is_cause(pid, evs[i])
    return (0 if near else 1), l, tags
