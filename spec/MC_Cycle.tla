-------------------------------- MODULE MC_Cycle --------------------------------
(* Values that refer to themselves.  The nodes of a graph are the pointers,     *)
(* maps and slices of a value; encoding walks the graph depth first and counts  *)
(* how deep it is.  Beyond depth D it notes the nodes it is in, and stops with  *)
(* an error when it comes to one of them again.  Then                           *)
(*   - encoding ends, for every graph, however small D is;                      *)
(*   - it fails exactly when a cycle can be reached from the root: what is      *)
(*     shared, but does not contain itself, is encoded each time;              *)
(*   - it is never nested deeper than D plus the number of nodes and one.       *)
EXTENDS MCPlan
CONSTANTS N, D, Variant, PlanN

Nodes == 1..N
VARIABLES kids, lead, stack, in, res, visits
vars == <<kids, lead, stack, in, res, visits>>
(* lead: how many nodes that are in no cycle are on top of the root *)
Sorted(S) == SetToSortSeq(S, <)
Init == /\ kids \in {[n \in Nodes |-> Sorted(g[n])] : g \in [Nodes -> SUBSET Nodes]}
        /\ lead \in 0..(D + 1)
        /\ stack = <<>> /\ in = {} /\ res = "go" /\ visits = 0

Depth == lead + Len(stack)
Top == stack[Len(stack)]
Enter(n) ==
  IF lead + Len(stack) + 1 > D
  THEN IF n \in in THEN res' = "cycle" /\ UNCHANGED <<stack, in, visits>>
       ELSE /\ in' = in \cup {n} /\ stack' = Append(stack, [n |-> n, k |-> 1, noted |-> TRUE])
            /\ visits' = visits + 1 /\ UNCHANGED res
  ELSE /\ stack' = Append(stack, [n |-> n, k |-> 1, noted |-> FALSE]) /\ visits' = visits + 1
       /\ UNCHANGED <<in, res>>
Start == res = "go" /\ stack = <<>> /\ visits = 0 /\ Enter(1) /\ UNCHANGED <<kids, lead>>
Down == /\ res = "go" /\ stack # <<>> /\ Top.k <= Len(kids[Top.n])
        /\ LET c == kids[Top.n][Top.k]
               s == [stack EXCEPT ![Len(stack)].k = @ + 1] IN
           IF lead + Len(stack) + 1 > D
           THEN IF c \in in THEN res' = "cycle" /\ UNCHANGED <<stack, in, visits>>
                ELSE /\ in' = in \cup {c} /\ stack' = Append(s, [n |-> c, k |-> 1, noted |-> TRUE])
                     /\ visits' = visits + 1 /\ UNCHANGED res
           ELSE stack' = Append(s, [n |-> c, k |-> 1, noted |-> FALSE]) /\ visits' = visits + 1 /\ UNCHANGED <<in, res>>
        /\ UNCHANGED <<kids, lead>>
Up == /\ res = "go" /\ stack # <<>> /\ Top.k > Len(kids[Top.n])
      /\ in' = IF Top.noted /\ Variant # "noleave" THEN in \ {Top.n} ELSE in
      /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
      /\ res' = IF Len(stack) = 1 THEN "ok" ELSE "go"
      /\ UNCHANGED <<kids, lead, visits>>
Next == Start \/ Down \/ Up
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what must hold ---- *)
RECURSIVE Reach(_, _)
Reach(S, k) == IF k = 0 THEN S ELSE Reach(S \cup UNION {{kids[n][i] : i \in 1..Len(kids[n])} : n \in S}, k - 1)
Succ(n) == {kids[n][i] : i \in 1..Len(kids[n])}
HasCycle == \E n \in Reach({1}, N) : n \in Reach(Succ(n), N)
RECURSIVE Unfold(_)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Unfold(Head(s)) + Sum(Tail(s))
Unfold(n) == 1 + Sum(kids[n])
RightAnswer == /\ res = "cycle" => HasCycle
               /\ res = "ok" => ~HasCycle /\ visits = Unfold(1)
Bounded == Depth <= Max2(D, lead) + N + 1
Ends == <>(res # "go")

Plan ==
  LET gs == SetToSeq({g \in [1..PlanN -> SUBSET (1..PlanN)] : TRUE})
  IN [i \in 1..Len(gs) |-> [z |-> "graph", s |-> [n \in 1..PlanN |-> Sorted(gs[i][n])]]]
ASSUME WritesPlan(Plan)
=============================================================================
