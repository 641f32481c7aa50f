------------------------------ MODULE WorldTurns ------------------------------
(***************************************************************************)
(* In which order several worlds can be worked on, each from its creation  *)
(* to its end in K pieces (C20): every interleaving is a complete state.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS W, K     \* worlds, pieces of each
VARIABLE turns
Done(n) == Cardinality({i \in 1..Len(turns) : turns[i] = n})
\* worlds are numbered in the order of their creation
Started == {n \in 1..W : Done(n) > 0}
Init == turns = <<>>
Next ==
    \E n \in 1..W :
        /\ Done(n) < K
        /\ \A m \in 1..n - 1 : m \in Started
        /\ turns' = Append(turns, n)
Spec == Init /\ [][Next]_turns
Complete == Len(turns) = W * K
\* No world is created after it was worked on, and none is worked on after its end.
Bounds == \A n \in 1..W : Done(n) <= K
Emit == Complete => PrintT(<<"T", turns>>)
=============================================================================
