------------------------------ MODULE SameBag ------------------------------
(* Comparing sequences with sets up to order, in time for thousands of elements. *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt

\* The sequence s is, up to order, what the elements of S give under f.
\* (When values repeat both are put in order, TLC's own order of sets, and compared place by place.)
SameBag(s, S, f(_)) ==
    LET got == {s[i] : i \in 1..Len(s)}
    IN /\ Len(s) = Cardinality(S)
       /\ got = {f(x) : x \in S}
       /\ Cardinality(got) < Len(s) =>
            LET a == SetToSeq({<<s[i], i>> : i \in 1..Len(s)})
                b == SetToSeq({<<f(x), x>> : x \in S})
            IN \A i \in 1..Len(s) : a[i][1] = b[i][1]
=============================================================================
