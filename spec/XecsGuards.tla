------------------------------ MODULE XecsGuards ------------------------------
(***************************************************************************)
(* Guards, iterators and handles held while other calls are made (C15).    *)
(* One caller holds things in numbered slots and goes on calling; a call   *)
(* that would have to wait is recorded as blocked ("block").               *)
(*                                                                         *)
(* For every call in every state the module says whether it must be held   *)
(* up (MustBlock: granting it would give conflicting access), must not be  *)
(* (~MayBlock: nothing held is involved in it), or either: calls that also *)
(* touch other types, for the sake of groups or to find out what an entity *)
(* has, may wait for those, and calls that create or remove entities may   *)
(* wait for any handle.                                                    *)
(***************************************************************************)
EXTENDS XecsTrace

VARIABLES
    held,     \* slot -> what is held there: [g, t, a, acc, lo, hi, used]
    taint     \* a call that changes the world was held up in the middle of it: nothing is claimed any more
gvars == <<tvars, held, taint>>

\* What things give access to: <<type, 1 if for writing>>. Resources are types of their own.
RECURSIVE Acc(_), AccIn(_, _)
Acc(q) ==
    CASE q.k = "c" -> {<<q.t, q.m>>}
      [] q.k = "g" -> {<<q.g[2], q.m[1]>>, <<q.g[3], q.m[2]>>}
      [] q.k = "t" -> AccIn(q.s, 1)
      [] q.k = "w" -> Acc(q.q) \cup Acc(q.x)
AccIn(s, i) == IF i > Len(s) THEN {} ELSE Acc(s[i]) \cup AccIn(s, i + 1)
OfGuard(g, t, a) ==
    CASE g \in {"sr", "cr", "hr"} -> {<<t, 0>>}
      [] g \in {"sw", "cw", "hw"} -> {<<t, 1>>}
      [] g = "rr" -> {<<"res" \o t, 0>>}
      [] g = "rw" -> {<<"res" \o t, 1>>}
      [] g = "q" -> Acc(Q[a])
      [] OTHER -> {}
Conflict(A, B) == \E x \in A, y \in B : x[1] = y[1] /\ x[2] + y[2] > 0
HeldAcc == UNION {held[s].acc : s \in DOMAIN held}
HeldIds == UNION {held[s].lo .. held[s].hi - 1 : s \in DOMAIN held}
HandleHeld == \E s \in DOMAIN held : held[s].g \in {"en", "ne", "ba", "hr", "hw"}

\* Types a change of t touches: those grouped with it.
Kin(t) == {t} \cup UNION {{g[2], g[3]} : g \in {h \in Range(groups) : t \in {h[2], h[3]}}}
Possessed(e) == {t \in reg : Has(t, e)}
All(ts, m) == {<<t, m>> : t \in ts}

\* Access the call must have, and access it may want besides.
Needs(ev) ==
    CASE ev.o = "gh" -> IF ev.g \in {"cr", "cw", "hr", "hw"} /\ ~(ev.t \in reg /\ Has(ev.t, ev.a)) THEN {} ELSE OfGuard(ev.g, ev.t, ev.a)
      [] ev.o = "q" -> Acc(Q[ev.q])
      [] ev.o = "cr" -> IF ev.t \in reg /\ Has(ev.t, ev.e) THEN {<<ev.t, 0>>} ELSE {}
      [] ev.o = "wr" -> IF ev.t \in reg /\ Has(ev.t, ev.e) THEN {<<ev.t, 1>>} ELSE {}
      [] ev.o = "sl" -> {<<ev.t, 0>>}
      [] ev.o = "rg" -> {<<"res" \o ev.t, 0>>}
      [] ev.o = "rw" -> {<<"res" \o ev.t, 1>>}
      [] ev.o = "att" -> IF Exists(ev.e) /\ ev.t \in reg THEN {<<ev.t, 1>>} ELSE {}
      [] ev.o = "det" -> IF Exists(ev.e) /\ ev.t \in reg /\ Has(ev.t, ev.e) THEN {<<ev.t, 1>>} ELSE {}
      [] ev.o = "rem" -> IF Exists(ev.e) THEN All(Possessed(ev.e), 1) ELSE {}
      [] OTHER -> {}
Wants(ev) ==
    CASE ev.o = "gh" -> OfGuard(ev.g, ev.t, ev.a)
      [] ev.o = "cr" -> {<<ev.t, 0>>}
      [] ev.o = "wr" -> {<<ev.t, 1>>}
      [] ev.o \in {"att", "det"} -> All(Kin(ev.t), 1)
      [] ev.o = "rem" -> All(reg, 0) \cup All(UNION {Kin(t) : t \in Possessed(ev.e)}, 1)
      [] OTHER -> Needs(ev)
Creates(ev) == ev.o = "new" \/ (ev.o = "gh" /\ ev.g \in {"ne", "ba"})

MustBlock(ev) == Conflict(Needs(ev), HeldAcc) \/ (ev.o = "rem" /\ ev.e \in HeldIds)
MayBlock(ev) == \/ MustBlock(ev)
                \/ Conflict(Wants(ev), HeldAcc)
                \/ HandleHeld /\ (Creates(ev) \/ ev.o = "rem")
Changes(ev) == ev.o \in {"new", "att", "det", "rem"} \/ (ev.o = "gh" /\ ev.g \in {"ne", "ba"})

---------------------------------------------------------------------------
Hold1(ev, lo, hi) ==
    held' = Put(held, ev.s, [g |-> ev.g, t |-> ev.t, a |-> ev.a, acc |-> OfGuard(ev.g, ev.t, ev.a), lo |-> lo, hi |-> hi, used |-> FALSE])
Take(ev) ==
    CASE ev.g \in {"sr", "sw"} ->
           IF ev.t \in reg THEN Hold1(ev, 0, 0) /\ Looks(ev, If(ev.k # "ok", "kind"))
           ELSE UNCHANGED held /\ Looks(ev, If(ev.k # "none", "kind"))
      [] ev.g \in {"cr", "cw"} ->
           IF ev.t \in reg /\ Has(ev.t, ev.a) THEN Hold1(ev, 0, 0) /\ Looks(ev, If(ev.k # "ok", "kind"))
           ELSE UNCHANGED held /\ Looks(ev, If(ev.k # "none", "kind"))
      [] ev.g \in {"hr", "hw"} ->
           IF ev.t \in reg /\ Has(ev.t, ev.a) THEN Hold1(ev, ev.a, ev.a + 1) /\ Looks(ev, If(ev.k # "ok", "kind"))
           ELSE UNCHANGED held /\ Looks(ev, If(ev.k # "none", "kind"))
      [] ev.g \in {"rr", "rw"} ->
           IF ev.t \in DOMAIN res THEN Hold1(ev, 0, 0) /\ Looks(ev, If(ev.k # "ok", "kind"))
           ELSE UNCHANGED held /\ Looks(ev, If(ev.k # "none", "kind"))
      [] ev.g = "q" ->
           IF Legal(Q[ev.a]) THEN Hold1(ev, 0, 0) /\ Looks(ev, If(ev.k # "ok", "kind"))
           ELSE UNCHANGED held /\ Looks(ev, If(ev.k # "panic", "kind"))
      [] ev.g = "en" ->
           IF Exists(ev.a) THEN Hold1(ev, ev.a, ev.a + 1) /\ Looks(ev, If(ev.k # "ok", "kind"))
           ELSE UNCHANGED held /\ Looks(ev, If(ev.k # "none", "kind"))
      [] ev.g = "ne" -> CreateAs(NextId) /\ UNCHANGED hnd /\ Hold1(ev, NextId, NextId + 1) /\ Judge(If(ev.k # "ok", "kind"))
      [] ev.g = "ba" -> CreateBatchWith(ev.a, "-", 0) /\ Hold1(ev, next, next + ev.a) /\ Judge(If(ev.k # "ok", "kind"))

\* Using what is held: it still shows what the world holds, and writes through it arrive.
Use(ev) ==
    LET h == held[ev.s]
        Off(c) == If(c, "gvalue")
        Seen(want) == Looks(ev, Off(ev.k # "ok" \/ ev.v # want))
    IN CASE h.g \in {"sr", "sw"} -> UNCHANGED held /\ Looks(ev, Off(ev.k # "ok" \/ ~SameBag(ev.v, DOMAIN comp[h.t], LAMBDA e : comp[h.t][e])))
         [] h.g \in {"cr", "hr"} -> UNCHANGED held /\ Seen(<<comp[h.t][h.a]>>)
         [] h.g \in {"cw", "hw"} -> UNCHANGED held /\ Write(h.a, h.t, ev.x) /\ Judge(Off(ev.k # "ok" \/ ev.v # out'.v) \cup If(~DropOK(ev.d, out'.d), "drop"))
         [] h.g = "rr" -> UNCHANGED held /\ Seen(<<res[h.t]>>)
         [] h.g = "rw" -> UNCHANGED held /\ WriteResource(h.t, ev.x) /\ Judge(Off(ev.k # "ok" \/ ev.v # out'.v) \cup If(~DropOK(ev.d, out'.d), "drop"))
         [] h.g = "q" -> /\ held' = [held EXCEPT ![ev.s].used = TRUE]
                         /\ Looks(ev, Off(ev.k # "ok" \/ (IF h.used THEN ev.rows # <<>> ELSE Rows(ev, Q[h.a]) # {})))
         [] OTHER -> UNCHANGED held /\ Seen(<<>>)
GiveBack(ev) ==
    LET h == held[ev.s]
        want == CASE h.g \in {"en", "ne"} -> <<h.lo>> [] h.g = "ba" -> <<h.lo, h.hi>> [] OTHER -> <<>>
    IN held' = Without(held, {ev.s}) /\ Looks(ev, If(ev.k # "ok" \/ ev.v # want, "gvalue"))

GStep(ev) ==
    IF taint THEN UNCHANGED <<vars, held, taint>> /\ Judge(If(ev.k # "skip", "kind"))
    ELSE IF ev.o \in {"gu", "gr"} /\ ev.s \notin DOMAIN held
    THEN UNCHANGED <<held, taint>> /\ Looks(ev, If(ev.k # "nohandle", "kind"))
    ELSE IF ev.k = "block"
    THEN /\ UNCHANGED <<vars, held>> /\ taint' = Changes(ev)
         /\ Judge(If(ev.o = "lk", "locked") \cup If(ev.o # "lk" /\ ~MayBlock(ev), "heldup"))
    ELSE IF MustBlock(ev)
    THEN UNCHANGED <<vars, held>> /\ taint' = TRUE /\ Judge({"granted"})
    ELSE /\ UNCHANGED taint
         /\ CASE ev.o = "gh" -> Take(ev)
              [] ev.o = "gu" -> Use(ev)
              [] ev.o = "gr" -> GiveBack(ev)
              [] OTHER -> Step(ev) /\ UNCHANGED held

GInit == TraceInit /\ held = <<>> /\ taint = FALSE
GNext ==
    /\ l <= Len(Traces[tr].ev)
    /\ GStep(Traces[tr].ev[l])
    /\ l' = l + 1
    /\ tr' = tr
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
