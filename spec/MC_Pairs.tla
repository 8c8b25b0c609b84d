-------------------------------- MODULE MC_Pairs --------------------------------
(* Two calls that use shared scratch memory, at the same time: every two of the *)
(* S values that do so in different ways.  The first call is stopped after each *)
(* of its steps (statements) while the second runs to its end, and goes on then *)
(* (changes = 1); or the second is stopped as well, after one of its steps, and *)
(* goes on after the first (changes = 2).  How many steps a call has is found   *)
(* out when the schedules are played; what must hold at every step is the       *)
(* matter of JPool (OneHand).                                                  *)
EXTENDS MCPlan
CONSTANTS S, Twice

Line(a, b, n) == [z |-> "pairs", s |-> [a |-> a, b |-> b, twice |-> n]]
Plan == SetToSeq({Line(a, b, Twice) : a \in 1..S, b \in 1..S})
ASSUME WritesPlan(Plan)

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
