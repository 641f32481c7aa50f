------------------------------ MODULE XecsWorlds ------------------------------
(***************************************************************************)
(* Several worlds in one process (C20).  Calls are made on one of them at  *)
(* a time; "sw" turns to another one, a new one if it was not seen before. *)
(* What the others are like is put aside as it is: nothing done elsewhere  *)
(* changes a world, takes or drops a value of it, or holds up its calls.   *)
(***************************************************************************)
EXTENDS XecsGuards

VARIABLES
    cur,      \* the world calls are made on
    parked    \* the others, as they were left
wvars == <<gvars, cur, parked>>

AsIs == <<vars, held, taint>>
Fresh == << <<{}, {}, <<>>, 1, <<>>, <<>>, <<>>, NoHandle, TRUE, Reply("ok", <<>>, {})>>, <<>>, FALSE >>
Become(s) ==
    /\ reg' = s[1][1] /\ alive' = s[1][2] /\ rec' = s[1][3] /\ next' = s[1][4] /\ comp' = s[1][5]
    /\ groups' = s[1][6] /\ res' = s[1][7] /\ hnd' = s[1][8] /\ up' = s[1][9] /\ out' = s[1][10]
    /\ held' = s[2] /\ taint' = s[3]
Turn(n) ==
    IF n = cur THEN UNCHANGED <<vars, held, taint, cur, parked>>
    ELSE /\ parked' = Without(Put(parked, cur, AsIs), {n})
         /\ cur' = n
         /\ Become(IF n \in DOMAIN parked THEN parked[n] ELSE Fresh)
WStep(ev) ==
    IF ev.o = "sw" THEN Turn(ev.n) /\ Judge(If(Len(ev.d) > 0, "drop"))
    ELSE GStep(ev) /\ UNCHANGED <<cur, parked>>

WInit == GInit /\ cur = 1 /\ parked = <<>>
WNext ==
    /\ l <= Len(Traces[tr].ev)
    /\ WStep(Traces[tr].ev[l])
    /\ l' = l + 1
    /\ tr' = tr
WSpec == WInit /\ [][WNext]_wvars
=============================================================================
