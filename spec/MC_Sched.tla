-------------------------------- MODULE MC_Sched --------------------------------
(* Schedules of calls that find nothing prepared, for every graph of N types    *)
(* that refer to one another and every choice of what P calls encode: call p    *)
(* makes k operations on shared state, then another goes on, and so on; when    *)
(* the plan is used up, the calls end one after another.                        *)
(*                                                                             *)
(* Two calls and one change are enumerated (a call is stopped after each of its *)
(* first K operations, while the other runs to its end); schedules with more    *)
(* changes, calls or types are drawn with the seed.                            *)
EXTENDS MCPlan
CONSTANTS N, K, Draws

Sorted(S) == SetToSortSeq(S, <)
Graphs(n) == [1..n -> SUBSET (1..n)]
Text(g) == [t \in DOMAIN g |-> Sorted(g[t])]
Line(g, goal, segs) == [z |-> "sched", s |-> [kids |-> Text(g), goal |-> goal, how |-> "segs", segs |-> segs]]

(* what the second call encodes: the same type, or another; the first encodes 1 *)
One == SetToSeq({Line(g, <<1, t>>, << <<1, k>>, <<2, 100000>> >>) : g \in Graphs(N), t \in 1..N, k \in 1..K})

Pick(S) == RandomElement(S)
Drawn(i) ==
  LET n == 1 + (i % 3) p == 2 + ((i \div 3) % 2) c == 2 + ((i \div 6) % 3) IN
  Line([t \in 1..n |-> Pick(SUBSET (1..n))], [q \in 1..p |-> Pick(1..n)],
       [j \in 1..c |-> <<Pick(1..p), IF j = c THEN Pick({5, 100000}) ELSE Pick(1..(K + 6))>>])

Plan == One \o [i \in 1..Draws |-> Drawn(i)]
(* every graph, goal and place is there *)
Complete == Len(One) = (2 ^ (N * N)) * N * K
ASSUME Complete /\ WritesPlan(Plan)

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
