---------------------------- MODULE GuardScenarios ----------------------------
(***************************************************************************)
(* What can be held at the same time (C15), as a model of its own: callers *)
(* take and give back guards, iterators and handles in N slots, in each of *)
(* a list of worlds.  Checked: no conflicting access is ever granted, what *)
(* must be held up may be, and a call is held up by nobody when nothing is *)
(* held.  Each state is printed: what is held there, for the real code to  *)
(* go through.  The world is that of ConcPrograms, with four resources.     *)
(***************************************************************************)
EXTENDS XecsGuards, Worlds3

CONSTANTS N, Every        \* slots; every how many-th query is used, to begin with
VARIABLE w
sv == <<gvars, w>>

Have == [A |-> {1, 2, 4}, B |-> {1, 3, 4}, C |-> {3, 4}, D |-> {2}]
SInit ==
    /\ w \in 1..Len(GroupLists)
    /\ reg = DOMAIN Have /\ alive = 1..4 /\ rec = <<5>> /\ next = 6
    /\ comp = [t \in DOMAIN Have |-> [e \in Have[t] |-> e]]
    /\ groups = GroupLists[w] /\ res = [P |-> 1, R |-> 2, A |-> 3, U |-> 4]
    /\ hnd = NoHandle /\ up = TRUE /\ out = Reply("ok", <<>>, {})
    /\ tr = 1 /\ l = 1
    /\ held = <<>> /\ taint = FALSE

Self(q) == LET n == Named(q) IN \E i, j \in 1..Len(n) : i < j /\ Conflict({n[i]}, {n[j]})
\* The queries that can be made in this world without blocking on themselves.
Usable == {i \in 1..Len(Q) : i % Every = 0 /\ Legal(Q[i]) /\ ~Self(Q[i])}
G(g, t, a) == [o |-> "gh", s |-> 0, g |-> g, t |-> t, a |-> a, k |-> "ok"]
Things ==
    {G(g, t, 0) : g \in {"sr", "sw"}, t \in {"A", "B", "C", "D"}}
    \cup {G(g, t, 4) : g \in {"cr", "cw", "hr", "hw"}, t \in {"A", "B"}}
    \cup {G("hw", "D", 2), G("cw", "D", 2), G("cr", "C", 3)}
    \cup {G(g, t, 0) : g \in {"rr", "rw"}, t \in {"P", "R", "A", "U"}}
    \cup {G("en", "-", 1), G("en", "-", 3), G("ne", "-", 0), G("ba", "-", 2)}
    \cup {G("q", "-", i) : i \in Usable}
\* Calls made in passing.
Op(o, e, t) == [o |-> o, e |-> e, t |-> t, k |-> "ok"]
Calls ==
    {Op(o, e, t) : o \in {"att", "det", "cr", "wr"}, e \in {1, 2}, t \in {"A", "B", "C", "D"}}
    \cup {Op("rem", e, "-") : e \in 1..5} \cup {Op("new", 0, "-")}
    \cup {Op(o, 0, t) : o \in {"rg", "rw"}, t \in {"P", "R", "A", "U"}}
    \cup {Op("sl", 0, t) : t \in {"A", "B", "C", "D"}}

\* Slots are filled from the first and emptied from the last; what is held is a set, so larger codes come later.
Code(ev) == <<ev.g, ev.t, ev.a>>
AcquireAny ==
    /\ Cardinality(DOMAIN held) < N
    /\ \E ev \in Things :
         /\ ~MustBlock(ev)
         /\ \/ ~(HandleHeld /\ ev.g \in {"ne", "ba"})
         /\ Hold1([ev EXCEPT !.s = Cardinality(DOMAIN held) + 1], IF ev.g \in {"en", "hr", "hw"} THEN ev.a ELSE 0, IF ev.g \in {"en", "hr", "hw"} THEN ev.a + 1 ELSE 0)
    /\ UNCHANGED <<tvars, taint, w>>
ReleaseAny ==
    /\ \E s \in DOMAIN held : s = Cardinality(DOMAIN held) /\ held' = Without(held, {s})
    /\ UNCHANGED <<tvars, taint, w>>
SNext == AcquireAny \/ ReleaseAny
SSpec == SInit /\ [][SNext]_sv

\* Any number of shared accesses, or one for writing.
Exclusive == \A s, u \in DOMAIN held : s # u => ~Conflict(held[s].acc, held[u].acc)
Consistent == \A ev \in Calls \cup Things : (MustBlock(ev) => MayBlock(ev)) /\ (held = <<>> => ~MayBlock(ev))
\* Access to a type that nothing held is about is granted.
Uninvolved == \A ev \in Calls : ev.o \in {"cr", "wr", "sl"} /\ (\A x \in HeldAcc : x[1] # ev.t) => ~MayBlock(ev)
Emit == PrintT(<<"S", w, [s \in 1..Cardinality(DOMAIN held) |-> Code(held[s])]>>)
=============================================================================
