-------------------------------- MODULE MCPlan --------------------------------
(* Bounded models also write the inputs they are about, as a plan that the     *)
(* harness replays into the code (ndjson, one case a line).                    *)
EXTENDS JBytes, Json, IOUtils, TLC

WritesPlan(plan) == IOEnv.JT_PLAN = "" \/ ndJsonSerialize(IOEnv.JT_PLAN, plan)

(* cut a sequence into pieces of n *)
Batches(s, n) == [k \in 1..((Len(s) + n - 1) \div n) |-> SubSeq(s, (k-1) * n + 1, Min2(k * n, Len(s)))]
(* all sequences over S of length 0..n, in some fixed order *)
RECURSIVE AllSeqs(_, _)
AllSeqs(S, n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup {<<x>> \o s : x \in S, s \in AllSeqs(S, n - 1)}
=============================================================================
