------------------------------- MODULE MC_Struct -------------------------------
(* Objects are written one member at a time, as encoders do: a brace or a comma *)
(* first, then the name, then the value; what is left out must leave no trace.  *)
(* A field has one of the roles                                                *)
(*   shown     written                                                         *)
(*   empty     omitempty, empty              nil      omitnil, nil             *)
(*   null      omitnil, and its MarshalJSON method gives null: known only after *)
(*             the member has been written, which is then taken back           *)
(*   denied    not allowed by the lists      far      behind a nil embedded     *)
(*             pointer                                                         *)
(*   fails     its encoding fails                                              *)
EXTENDS MCPlan
CONSTANTS MaxLen, PlanLen, TakeBack

Roles == {"shown", "empty", "nil", "null", "denied", "far", "fails"}
VARIABLES fs, i, out, st
vars == <<fs, i, out, st>>
Init == fs \in (AllSeqs(Roles, MaxLen)) /\ i = 1 /\ out = <<"{">> /\ st = "go"

Skipped == {"empty", "nil", "denied", "far"}
Field ==
  /\ st = "go" /\ i <= Len(fs)
  /\ LET r == fs[i]
         w == (IF Len(out) = 1 THEN <<>> ELSE <<",">>) \o <<i, ":">> IN
     CASE r \in Skipped -> out' = out /\ i' = i + 1 /\ st' = st
       [] r = "shown" -> out' = out \o w \o <<"v">> /\ i' = i + 1 /\ st' = st
       [] r = "null" -> /\ i' = i + 1 /\ st' = st
                        /\ out' = IF TakeBack = "all" THEN out
                                  ELSE IF TakeBack = "value" THEN out \o w
                                  ELSE out \o (IF Len(out) = 1 THEN <<>> ELSE <<",">>)
       [] r = "fails" -> out' = out /\ i' = i /\ st' = "failed"
  /\ UNCHANGED fs
Close == st = "go" /\ i > Len(fs) /\ out' = Append(out, "}") /\ st' = "done" /\ UNCHANGED <<fs, i>>
Next == Field \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* exactly the shown fields, in order, with a comma between them *)
Members == LET I == SelectSeq([k \in 1..Len(fs) |-> k], LAMBDA k : fs[k] = "shown")
           IN Concat([k \in 1..Len(I) |-> (IF k = 1 THEN <<>> ELSE <<",">>) \o <<I[k], ":", "v">>])
Right == st = "done" => out = <<"{">> \o Members \o <<"}">>
(* fails when a field that is not skipped fails *)
Fails == st = "failed" => \E k \in 1..Len(fs) : fs[k] = "fails"
Decided == <>(st \in {"done", "failed"})

Plan == LET bs == SetToSeq(AllSeqs(Roles, PlanLen)) IN [k \in 1..Len(bs) |-> [z |-> "roles", s |-> bs[k]]]
ASSUME WritesPlan(Plan)
=============================================================================
