------------------------------ MODULE TraceCalls ------------------------------
(* Judges recorded calls of the real package against the specification.       *)
(* The events are split into W chains; the chains are independent, so TLC      *)
(* explores them in parallel.  A state says how far a chain has been judged.   *)
(* An event that the specification does not allow is printed (REJECT); when    *)
(* encoding/json is recorded beside jettison, an event for which the           *)
(* specification itself disagrees with encoding/json is printed too            *)
(* (CALIBRATE): the specification is wrong then, not the code.                 *)
EXTENDS JJudge, Json, IOUtils

Ev == ndJsonDeserialize(IOEnv.JT_EVENTS)
N == Len(Ev)
W == 64

VARIABLES c, i
Init == c \in 1..W /\ i = 0
Next ==
  LET n == IF i = 0 THEN c ELSE i + W IN
  /\ n <= N
  /\ i' = n /\ c' = c
  /\ LET r == Judge(Ev[n]) IN
     r = {} \/ PrintT("REJECT " \o ToString(n) \o " " \o ToJson(r))
Spec == Init /\ [][Next]_<<c, i>>

AllJudged == PrintT(<<"JUDGED", N>>) /\ TLCGet("distinct") = N + W
=============================================================================
