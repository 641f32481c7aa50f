------------------------------- MODULE Worlds3 -------------------------------
\* Shared by ConcPrograms and GuardScenarios: lists of groups over A, B and C, and what queries name.
EXTENDS Integers, Sequences
\* The worlds: sequences of groups.
GroupLists == <<
    <<>>,
    << <<"F", "A", "B">> >>,
    << <<"P", "A", "B">> >>,
    << <<"N", "A", "B">> >>,
    << <<"F", "A", "B">>, <<"N", "B", "C">> >>,
    << <<"P", "A", "B">>, <<"P", "B", "C">>, <<"N", "A", "C">> >>,
    << <<"N", "A", "B">>, <<"F", "A", "C">>, <<"N", "B", "C">> >>
>>

RECURSIVE Named(_), NamedIn(_, _)
\* The accesses of a query, in the order in which it opens them: <<type, 1 if mutable>>.
Named(q) ==
    CASE q.k = "c" -> << <<q.t, q.m>> >>
      [] q.k = "g" -> << <<q.g[2], q.m[1]>>, <<q.g[3], q.m[2]>> >>
      [] q.k = "t" -> NamedIn(q.s, 1)
      [] q.k = "w" -> IF q.side = "L" THEN Named(q.x) \o Named(q.q) ELSE Named(q.q) \o Named(q.x)
NamedIn(s, i) == IF i > Len(s) THEN <<>> ELSE Named(s[i]) \o NamedIn(s, i + 1)
=============================================================================
