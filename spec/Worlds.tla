------------------------------- MODULE Worlds -------------------------------
(***************************************************************************)
(* Which components the entities have, up to the order of the entities:    *)
(* every way to give N entities subsets of Types.  One line per world; the *)
(* queries of the catalogue are asked in each (C06, C07).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Types
VARIABLE w

\* A number for each subset, to list the entities in one order only.
Order == CHOOSE f \in [Types -> 0..Cardinality(Types) - 1] : \A s, t \in Types : s # t => f[s] # f[t]
RECURSIVE Code(_)
Code(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN 2 ^ Order[t] + Code(S \ {t})
Emit == PrintT(<<"W", w>>)
Init == /\ w \in [1..N -> SUBSET Types]
        /\ \A i \in 1..N - 1 : Code(w[i]) <= Code(w[i + 1])
Spec == Init /\ [][UNCHANGED w]_w
=============================================================================
