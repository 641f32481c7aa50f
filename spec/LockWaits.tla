------------------------------ MODULE LockWaits ------------------------------
(***************************************************************************)
(* Deadlocks among lock programs, seen from where threads wait (C17).  A   *)
(* thread that waits holds some locks and wants one more; which that can   *)
(* be follows from the programs alone.  Up to K threads that wait, hold    *)
(* nothing that excludes what another holds, and each of which has to go   *)
(* on waiting, are a deadlock.  That covers every state of LockPrograms    *)
(* in which nobody can move (Covered, checked there), for far more threads *)
(* and programs than the interleavings could be gone through for.  What is *)
(* found may not be reachable: whoever runs this looks in the real code.   *)
(***************************************************************************)
EXTENDS LockPrograms, FiniteSets, SequencesExt

\* What is held before step j of a program: <<lock, "R" or "W">>, as a set.
RECURSIVE HeldBefore(_, _)
Drop(h, x) == IF x.k = "r" THEN h \ {<<x.l, "R">>}
              ELSE IF x.k = "w" THEN h \ {<<x.l, "W">>}
              ELSE (h \ {<<x.l, "W">>}) \cup {<<x.l, "R">>}
RECURSIVE DropAll(_, _, _)
DropAll(h, rs, i) == IF i > Len(rs) THEN h ELSE DropAll(Drop(h, rs[i]), rs, i + 1)
HeldBefore(p, j) == IF j = 1 THEN {} ELSE DropAll(HeldBefore(p, j - 1) \cup {<<p[j - 1].l, p[j - 1].m>>}, p[j - 1].r, 1)
Wait(p, j) == [h |-> HeldBefore(p, j), m |-> p[j].m, l |-> p[j].l]

Places == [x \in 1 .. Len(Worlds) |-> UNION {{<<i, j>> : j \in 1 .. Len(Worlds[x].segs[i])} : i \in 1 .. Len(Worlds[x].segs)}]
WaitAt(x, p) == Wait(Worlds[x].segs[p[1]], p[2])
\* Waiting to read while holding nothing holds up nobody.
WaitSeq == [x \in 1 .. Len(Worlds) |-> SetToSeq({v \in {WaitAt(x, p) : p \in Places[x]} : v.h # {} \/ v.m = "W"})]
PlaceOf == [x \in 1 .. Len(Worlds) |-> [i \in 1 .. Len(WaitSeq[x]) |-> CHOOSE p \in Places[x] : WaitAt(x, p) = WaitSeq[x][i]]]

Excludes(g, h) == \E a \in g, b \in h : a[1] = b[1] /\ (a[2] = "W" \/ b[2] = "W")
\* ws: a sequence of waits.
Compatible(ws) == \A i, j \in 1 .. Len(ws) : i < j => ~Excludes(ws[i].h, ws[j].h)
MustWait(ws, i) ==
    LET x == ws[i].l
    IN \/ \E j \in 1 .. Len(ws) : <<x, "W">> \in ws[j].h
       \/ IF ws[i].m = "W" THEN \E j \in 1 .. Len(ws) : <<x, "R">> \in ws[j].h
          ELSE \E j \in 1 .. Len(ws) : ws[j].m = "W" /\ ws[j].l = x
Stuck(ws) == Len(ws) > 0 /\ Compatible(ws) /\ \A i \in 1 .. Len(ws) : MustWait(ws, i)

\* In a reachable state of LockPrograms in which nobody can move, the threads that are not done are found here.
Alive == SelectSeq([t \in T |-> t], LAMBDA t : ~Done(t))
Covered == Dead => Stuck([i \in 1 .. Len(Alive) |-> Wait(Prog(Alive[i]), pc[Alive[i]])])
HoldsAgree ==
    LET ws == [i \in 1 .. Len(Alive) |-> HeldBefore(Prog(Alive[i]), pc[Alive[i]])]
    IN \A i, j \in 1 .. Len(ws) : i < j => ~Excludes(ws[i], ws[j])

\* The waits that some threads are in at the same time, one more at every step; the threads are interchangeable.
WInit ==
    /\ w \in 1 .. Len(Worlds)
    /\ c = <<>> /\ pc = <<>> /\ claim = <<>> /\ rd = <<>> /\ bit = <<>>
Clash == [x \in 1 .. Len(Worlds) |-> [i, j \in 1 .. Len(WaitSeq[x]) |-> Excludes(WaitSeq[x][i].h, WaitSeq[x][j].h)]]
WNext ==
    /\ Len(c) < K
    /\ \E i \in (IF c = <<>> THEN 1 ELSE c[Len(c)]) .. Len(WaitSeq[w]) :
         /\ \A k \in 1 .. Len(c) : ~Clash[w][c[k], i]
         /\ c' = Append(c, i)
    /\ UNCHANGED <<w, pc, claim, rd, bit>>
WSpec == WInit /\ [][WNext]_lv
EmitStuck == Stuck([i \in 1 .. Len(c) |-> WaitSeq[w][c[i]]]) => PrintT(<<"S", w, [i \in 1 .. Len(c) |-> PlaceOf[w][c[i]]]>>)
=============================================================================
