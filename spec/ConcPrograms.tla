---------------------------- MODULE ConcPrograms ----------------------------
(***************************************************************************)
(* Small programs of several threads over one world (C16, C17): every way  *)
(* to give K threads D units each, in each of a list of worlds, or N of    *)
(* them per world chosen at random (if N > 0).  A unit is a call, or a     *)
(* chain of calls that hangs together.  The entities are                   *)
(* 1: A,B   2: A   3: B,C   4: A,B,C   and 5, removed.                     *)
(* Pairs: instead, one thread makes one change, and the other looks at it  *)
(* twice, in every two ways that may show different parts of it.           *)
(* Arguments that are values are filled in by whoever runs the program.    *)
(*                                                                         *)
(* Queries follow the rule of C17: a group is named first, there is at     *)
(* most one, and the types named are in one order, none of them twice.     *)
(***************************************************************************)
EXTENDS Xecs, Catalog, Worlds3, Randomization

CONSTANTS K, D, N, Pure, Pairs
RECURSIVE NGroups(_), NGroupsIn(_, _)
NGroups(q) ==
    CASE q.k = "c" -> 0
      [] q.k = "g" -> 1
      [] q.k = "t" -> NGroupsIn(q.s, 1)
      [] q.k = "w" -> NGroups(q.q) + NGroups(q.x)
NGroupsIn(s, i) == IF i > Len(s) THEN 0 ELSE NGroups(s[i]) + NGroupsIn(s, i + 1)
RECURSIVE GroupFirst(_)
GroupFirst(q) ==
    CASE q.k = "c" -> TRUE
      [] q.k = "g" -> TRUE
      [] q.k = "t" -> GroupFirst(q.s[1]) /\ NGroupsIn(q.s, 2) = 0
      [] q.k = "w" -> IF q.side = "L" THEN GroupFirst(q.x) /\ NGroups(q.q) = 0 ELSE GroupFirst(q.q) /\ NGroups(q.x) = 0
Rank(t) == CHOOSE i \in 1..5 : <<"A", "B", "C", "D", "E">>[i] = t
Ordered(q) == LET n == Named(q) IN \A i \in 1..Len(n) - 1 : Rank(n[i][1]) < Rank(n[i + 1][1])
RECURSIVE GroupsOf(_), GroupsOfAll(_)
GroupsOfAll(S) == UNION {GroupsOf(x) : x \in S}
GroupsOf(q) ==
    CASE q.k = "c" -> {}
      [] q.k = "g" -> {q.g}
      [] q.k = "t" -> GroupsOfAll(Range(q.s))
      [] q.k = "w" -> GroupsOf(q.q) \cup GroupsOf(q.x)
\* The queries allowed in a world with these groups.
Allowed(gl) == {i \in 1..Len(Q) : /\ Ordered(Q[i]) /\ GroupFirst(Q[i])
                                  /\ GroupsOf(Q[i]) \subseteq Range(gl)
                                  /\ \A x \in Range(Named(Q[i])) : x[1] \in {"A", "B", "C"}
                                  /\ (Len(Named(Q[i])) > 1 \/ Named(Q[i])[1][1] # "C")}
Calls == <<
    <<"new">>, <<"att 1 A">>, <<"att 2 B">>, <<"att 3 A">>, <<"att 1 C">>, <<"att 5 A">>,
    <<"det 1 A">>, <<"det 4 B">>, <<"det 2 A">>, <<"det 4 C">>,
    <<"rem 1 -">>, <<"rem 4 -">>, <<"rem 2 m">>, <<"rem 3 -">>, <<"rem 5 -">>,
    <<"xe 1">>, <<"xe 5">>, <<"cr 1 A">>, <<"cr 4 B">>, <<"wr 1 A">>, <<"wr 4 B">>, <<"sl A">>, <<"sl B">>,
    <<"new", "att $ A", "att $ B">>, <<"new", "rem $ -">>,
    <<"bo 2", "ba A", "bc">>, <<"bo 2", "ba A", "ba B", "bc">>,
    <<"ho 2", "ha B", "hc">>, <<"ho 0", "ha A", "ha B", "hc">>, <<"ho 4", "hd A", "hc">>, <<"ho 1", "hw B", "hd B", "hc">>,
    <<"rw P">>, <<"rg P">>
>>
Query(i) == <<"q " \o ToString(i)>>

VARIABLES w, ops
pv == <<vars, w, ops>>
Choices(gl) == (1..Len(Calls)) \cup {100 + i : i \in Allowed(gl)}
Unit(c) == IF c <= 100 THEN Calls[c] ELSE Query(c - 100)
\* Calls that only look: alone they cannot go wrong but in taking turns (Pure).
Looks(c) == c > 100 \/ Calls[c][1] \in {"xe 1", "xe 5", "cr 1 A", "cr 4 B", "sl A", "sl B", "rg P"}
\* All of them: in the order of the choices, as the threads are interchangeable.
Sensible(cs) ==
    /\ Pure \/ \E i \in 1..Len(cs) : ~Looks(cs[i])
    /\ N > 0 => 2 * Cardinality({i \in 1..Len(cs) : Looks(cs[i])}) <= Len(cs)
    /\ N = 0 /\ D = 1 => \A i \in 1..K - 1 : cs[i] <= cs[i + 1]
Of(t) == [d \in 1..D |-> Unit(ops[(t - 1) * D + d])]
\* One query for each group, and the calls that look; what changes something.
Ways(gl) == {c \in 1..Len(Calls) : Calls[c][1] \in {"xe 1", "cr 1 A", "cr 4 B", "sl A", "sl B"}}
            \cup {100 + CHOOSE i \in Allowed(gl) : Q[i].k = "g" /\ Q[i].g = g : g \in Range(gl)}
Changes == {c \in 1..Len(Calls) : ~Looks(c)}
PairsOf(gl) == {<<c, a, b>> : c \in Changes, a \in Ways(gl), b \in Ways(gl)}
Emit == PrintT(<<"P", w, IF Pairs THEN <<<<Unit(ops[1])>>, <<Unit(ops[2]), Unit(ops[3])>>>> ELSE [t \in 1..K |-> Of(t)]>>)
PInit ==
    /\ Init
    /\ w \in 1..Len(GroupLists)
    /\ IF Pairs THEN ops \in PairsOf(GroupLists[w]) /\ ops[2] # ops[3] ELSE
       ops \in LET all == [1..(K * D) -> Choices(GroupLists[w])] IN IF N = 0 THEN all ELSE RandomSubset(N, all)
    /\ Pairs \/ Sensible(ops)
PSpec == PInit /\ [][UNCHANGED pv]_pv
=============================================================================
