------------------------------- MODULE XecsLin -------------------------------
(***************************************************************************)
(* Validates histories of several threads sharing one world against Xecs.  *)
(*                                                                         *)
(* A recorded history is: calls made before the threads started (pre), the *)
(* order in which the threads' calls began and returned (h: t when thread  *)
(* t called, -t when that call returned), each thread's calls with their   *)
(* results (ops), and what a single thread saw afterwards (post).          *)
(* Histories with the same calls before are recorded together (hs).        *)
(*                                                                         *)
(* A history is right if there is a behaviour of the specification in      *)
(* which every call takes effect, with the recorded result, between its    *)
(* beginning and its return.  TLC searches for one: taking effect is a     *)
(* silent step here.  (It is enough to take silent steps when the next     *)
(* thing recorded is a return.)  Histories that have such a behaviour are  *)
(* printed as <<"OK", group, number>>; the others are violations.          *)
(*                                                                         *)
(* Removing an entity is the one call that takes effect in several steps:  *)
(* for readers its components go one type at a time and its id at any      *)
(* moment in between.  Nothing else may happen to that entity in between,  *)
(* and its id is not handed out again before the end.                      *)
(***************************************************************************)
EXTENDS XecsTrace

VARIABLES
    hx,      \* which history of the group
    ph,      \* pre, h, post or done; l is the position there
    called,  \* thread -> number of calls begun
    eff,     \* thread -> number of calls that have taken effect
    busy,    \* thread -> the removal in progress: [e, dead, gone], or none (e = 0)
    hs       \* thread -> the handle it holds; hnd is the one of the thread that moved last
lvars == <<tvars, hx, ph, called, eff, busy, hs>>

Strict(tags) == tags = {}     \* replaces Judge

H == Traces[tr].hs[hx]
Threads == 1 .. Traces[tr].threads
Idle == [e |-> 0, dead |-> FALSE, gone |-> {}]
Covers(h, e) == h.k # "none" /\ h.lo <= e /\ e < h.hi
Going(e) == \E t \in Threads : busy[t].e = e

LinInit ==
    /\ TraceInit
    /\ ph = "pre" /\ hx = 0
    /\ called = [t \in Threads |-> 0] /\ eff = [t \in Threads |-> 0]
    /\ busy = [t \in Threads |-> Idle] /\ hs = [t \in Threads |-> NoHandle]

Pre ==
    /\ ph = "pre"
    /\ IF l <= Len(Traces[tr].pre) THEN Step(Traces[tr].pre[l]) /\ l' = l + 1 /\ ph' = ph /\ hx' = hx
       ELSE ph' = "h" /\ l' = 1 /\ hx' \in 1 .. Len(Traces[tr].hs) /\ UNCHANGED vars
    /\ UNCHANGED <<tr, called, eff, busy, hs>>

Call ==
    /\ ph = "h" /\ l <= Len(H.h) /\ H.h[l] > 0
    /\ called' = [called EXCEPT ![H.h[l]] = @ + 1]
    /\ l' = l + 1
    /\ UNCHANGED <<vars, tr, hx, ph, eff, busy, hs>>
Return ==
    /\ ph = "h" /\ l <= Len(H.h) /\ H.h[l] < 0
    /\ eff[-H.h[l]] = called[-H.h[l]]
    /\ l' = l + 1
    /\ UNCHANGED <<vars, tr, hx, ph, called, eff, busy, hs>>
Finish ==
    /\ ph = "h" /\ l > Len(H.h)
    /\ ph' = "post" /\ l' = 1
    /\ hnd = NoHandle /\ \A t \in Threads : hs[t] = NoHandle
    /\ UNCHANGED <<vars, tr, hx, called, eff, busy, hs>>

Ready(t) == ph = "h" /\ l <= Len(H.h) /\ H.h[l] < 0 /\ eff[t] < called[t]
Op(t) == H.ops[t][eff[t] + 1]
Switch(t) ==
    /\ Ready(t) /\ hnd # hs[t]
    /\ hnd' = hs[t]
    /\ UNCHANGED <<reg, alive, rec, next, comp, groups, res, up, out, tr, hx, l, ph, called, eff, busy, hs>>

\* The entity whose existence a call depends on.
Target(ev) == IF ev.o \in {"att", "det", "rem", "ho"} THEN ev.e ELSE IF ev.o = "new" THEN NextId ELSE 0
Removes(ev) == ev.o = "rem" /\ ev.k = "ok"
Effect(t) ==
    /\ Ready(t) /\ busy[t] = Idle /\ hnd = hs[t]
    /\ LET ev == Op(t)
       IN /\ ~Removes(ev)
          /\ Target(ev) = 0 \/ ~Going(Target(ev))
          /\ ev.o = "ho" /\ ev.e = 0 => ~Going(NextId)
          \* a call that wrongly returned is a mismatch, not a wait
          /\ ev.o = "rem" => ~Exists(ev.e)
          /\ Step(ev)
    /\ eff' = [eff EXCEPT ![t] = @ + 1]
    /\ hs' = [hs EXCEPT ![t] = hnd']
    /\ UNCHANGED <<tr, hx, l, ph, called, busy>>

RemoveBegin(t) ==
    /\ Ready(t) /\ busy[t] = Idle /\ Removes(Op(t))
    /\ LET e == Op(t).e
       IN /\ Exists(e) /\ ~Going(e)
          /\ \A u \in Threads : ~Covers(hs[u], e)
          /\ busy' = [busy EXCEPT ![t] = [e |-> e, dead |-> FALSE, gone |-> {}]]
    /\ UNCHANGED <<vars, tr, hx, l, ph, called, eff, hs>>
Erase(t, ty) ==
    /\ Ready(t) /\ busy[t].e # 0 /\ Has(ty, busy[t].e)
    /\ LET e == busy[t].e
       IN /\ comp' = [comp EXCEPT ![ty] = Without(@, {e})]
          /\ busy' = [busy EXCEPT ![t].gone = @ \cup {<<ty, e, comp[ty][e]>>}]
    /\ UNCHANGED <<reg, alive, rec, next, groups, res, hnd, up, out, tr, hx, l, ph, called, eff, hs>>
Die(t) ==
    /\ Ready(t) /\ busy[t].e # 0 /\ ~busy[t].dead
    /\ alive' = alive \ {busy[t].e}
    /\ rec' = Append(rec, busy[t].e)
    /\ busy' = [busy EXCEPT ![t].dead = TRUE]
    /\ UNCHANGED <<reg, next, comp, groups, res, hnd, up, out, tr, hx, l, ph, called, eff, hs>>
RemoveEnd(t) ==
    /\ Ready(t) /\ busy[t].e # 0 /\ busy[t].dead
    /\ \A ty \in reg : ~Has(ty, busy[t].e)
    /\ DropOK(Op(t).d, busy[t].gone)
    /\ busy' = [busy EXCEPT ![t] = Idle]
    /\ eff' = [eff EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<vars, tr, hx, l, ph, called, hs>>

Post ==
    /\ ph = "post"
    /\ IF l <= Len(H.post) THEN Step(H.post[l]) /\ l' = l + 1 /\ ph' = ph
       ELSE ph' = "done" /\ UNCHANGED <<vars, l>> /\ PrintT(<<"OK", tr, hx>>)
    /\ UNCHANGED <<tr, hx, called, eff, busy, hs>>

LinNext ==
    \/ Pre \/ Call \/ Return \/ Finish \/ Post
    \/ \E t \in Threads : \/ Switch(t) \/ Effect(t) \/ RemoveBegin(t) \/ Die(t) \/ RemoveEnd(t)
                          \/ \E ty \in reg : Erase(t, ty)
LinSpec == LinInit /\ [][LinNext]_lvars
=============================================================================
