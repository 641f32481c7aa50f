----------------------------- MODULE LockPrograms -----------------------------
(***************************************************************************)
(* Lock programs (C17).  What a call does, seen from the locks: it takes   *)
(* and gives them back in some order.  The order is recorded from the real *)
(* code, one call at a time, and cut wherever nothing is held: the pieces  *)
(* are the lock programs (a thread that deadlocks does so inside one).     *)
(* Here K threads run any K of them at once, in every interleaving, under  *)
(* parking_lot's rules:                                                    *)
(*   - reading is granted unless somebody writes or waits to write,        *)
(*   - a writer first claims the lock, which shuts out later readers, and  *)
(*     then waits for the readers inside to leave.                         *)
(* A state in which some thread is not done and none can move is printed;  *)
(* whoever runs this looks for it in the real code.                        *)
(*                                                                         *)
(* A step is an acquisition together with what is given back after it and  *)
(* before the next one: giving back never waits and only helps others.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANT K
\* Per world: [locks |-> names, segs |-> sequence of lock programs]; a program is a sequence of steps
\* [m |-> "R" or "W", l |-> lock, r |-> << [k |-> "r" "w" or "D" (a writer becomes a reader), l |-> lock] >>].
Worlds == JsonDeserialize(IOEnv.LOCKS)

VARIABLES
    w, c,     \* the world; which program each thread runs
    pc,       \* thread -> its next step
    claim,    \* thread -> it has claimed the lock it wants to write and waits for the readers to leave
    rd, bit   \* lock -> readers inside; -> it is written or claimed
lv == <<w, c, pc, claim, rd, bit>>

T == 1 .. K
Prog(t) == Worlds[w].segs[c[t]]
Done(t) == pc[t] > Len(Prog(t))
Step(t) == Prog(t)[pc[t]]

RECURSIVE GiveBack(_, _, _)
GiveBack(rs, i, s) ==        \* s = <<readers, bits>>
    IF i > Len(rs) THEN s
    ELSE LET x == rs[i]
         IN GiveBack(rs, i + 1,
              CASE x.k = "r" -> <<[s[1] EXCEPT ![x.l] = @ - 1], s[2]>>
                [] x.k = "w" -> <<s[1], [s[2] EXCEPT ![x.l] = FALSE]>>
                [] x.k = "D" -> <<[s[1] EXCEPT ![x.l] = @ + 1], [s[2] EXCEPT ![x.l] = FALSE]>>)
After(t, s) ==
    LET n == GiveBack(Step(t).r, 1, s)
    IN rd' = n[1] /\ bit' = n[2] /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ claim' = [claim EXCEPT ![t] = FALSE]

Read(t) ==
    /\ ~Done(t) /\ Step(t).m = "R" /\ ~bit[Step(t).l]
    /\ After(t, <<[rd EXCEPT ![Step(t).l] = @ + 1], bit>>)
Claim(t) ==
    /\ ~Done(t) /\ Step(t).m = "W" /\ ~claim[t] /\ ~bit[Step(t).l] /\ rd[Step(t).l] > 0
    /\ claim' = [claim EXCEPT ![t] = TRUE] /\ bit' = [bit EXCEPT ![Step(t).l] = TRUE]
    /\ UNCHANGED <<pc, rd>>
Write(t) ==
    /\ ~Done(t) /\ Step(t).m = "W" /\ rd[Step(t).l] = 0 /\ (claim[t] \/ ~bit[Step(t).l])
    /\ After(t, <<rd, [bit EXCEPT ![Step(t).l] = TRUE]>>)
Move(t) == (Read(t) \/ Claim(t) \/ Write(t)) /\ UNCHANGED <<w, c>>

CanMove(t) ==
    /\ ~Done(t)
    /\ LET x == Step(t).l
       IN IF Step(t).m = "R" THEN ~bit[x] ELSE IF claim[t] THEN rd[x] = 0 ELSE ~bit[x]
Dead == (\E t \in T : ~Done(t)) /\ \A t \in T : ~CanMove(t)

LInit ==
    /\ w \in 1 .. Len(Worlds)
    \* the threads are interchangeable
    /\ c \in {x \in [T -> 1 .. Len(Worlds[w].segs)] : \A t \in 1 .. K - 1 : x[t] <= x[t + 1]}
    /\ pc = [t \in T |-> 1] /\ claim = [t \in T |-> FALSE]
    /\ rd = [x \in {Worlds[w].locks[i] : i \in 1 .. Len(Worlds[w].locks)} |-> 0]
    /\ bit = [x \in {Worlds[w].locks[i] : i \in 1 .. Len(Worlds[w].locks)} |-> FALSE]
LNext == \E t \in T : Move(t)
LSpec == LInit /\ [][LNext]_lv

\* A written lock has no readers, and what is taken is given back.
Sane ==
    /\ \A x \in DOMAIN rd : rd[x] >= 0
    /\ (\A t \in T : Done(t)) => \A x \in DOMAIN rd : rd[x] = 0 /\ ~bit[x]
Emit == Dead => PrintT(<<"D", w, c, [t \in T |-> pc[t]]>>)
=============================================================================
