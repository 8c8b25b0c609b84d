------------------------------ MODULE MC_CacheSim ------------------------------
(* Behaviours of JCache, drawn at random (TLC -simulate): who makes each step   *)
(* is written down, and the order is played back with the code.  The invariants *)
(* are checked along the way, for more calls and types than can be enumerated. *)
EXTENDS JCache, Json

VARIABLES hist
SimInit == Init /\ hist = <<>>
SimNext == \E p \in Procs : Step(p) /\ hist' = Append(hist, p)
SimSpec == SimInit /\ [][SimNext]_<<vars, hist>>

Written == AllEnd =>
  PrintT("PLAN " \o ToJson([z |-> "sched", s |-> [kids |-> kids, goal |-> goal, how |-> "order", seq |-> hist]]))
=============================================================================
