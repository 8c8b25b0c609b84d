-------------------------------- MODULE MC_Pump --------------------------------
(* What the judgement of values of very many repetitions rests on (JJudge,      *)
(* "huge"): in the specification, when one and two repetitions give A U M W B   *)
(* and A U U M W W B, then n of them give A U^n M W^n B.  For texts, bytes in   *)
(* base64, texts that are compacted, and lists.                                *)
EXTENDS JJudge, MCPlan
CONSTANTS MaxLen, MaxTail, MaxN
VARIABLES form, p, t
vars == <<form, p, t>>

Bytes == {97, 34, 60, 128, 226}           \* a " < and bytes that are not ASCII
Toks == {49, 32, 34, 92, 44, 91, 93}      \* 1 space " \ , [ ]
RepSeq(x, n) == Concat([i \in 1..n |-> x])
Plain == [nostr |-> FALSE, nohtml |-> FALSE, noutf |-> FALSE]
(* pieces that run into nothing: an ASCII byte at both ends *)
Closed(x) == x # <<>> /\ x[1] < 128 /\ x[Len(x)] < 128

Init == form \in {"text", "base64", "json", "deep"} /\ p = <<>> /\ t = <<>>
Alphabet == IF form \in {"json", "deep"} THEN Toks ELSE Bytes
Next == /\ UNCHANGED form
        /\ \E b \in Alphabet :
             \/ Len(p) < MaxLen /\ t = <<>> /\ p' = Append(p, b) /\ UNCHANGED t
             \/ Len(t) < MaxTail /\ p # <<>> /\ t' = Append(t, b) /\ UNCHANGED p
Spec == Init /\ [][Next]_vars

(* the text for n repetitions; FALSE: refused *)
Of(n) ==
  CASE form = "text" -> Quote(EscapeBytes(RepSeq(p, n) \o t, Plain))
    [] form = "base64" -> Quote(Base64(RepSeq(p, n) \o t))
    [] form = "json" -> LET x == <<91>> \o RepSeq(p, n) \o t \o <<93>> IN IF ValidJSON(x) THEN Compact(x, TRUE) ELSE <<0>>
    [] form = "deep" -> LET x == RepSeq(<<91>>, n) \o t \o RepSeq(<<93>>, n) IN IF ValidJSON(x) THEN Compact(x, TRUE) ELSE <<0>>
La == IF form = "deep" THEN 0 ELSE 1
Lw == IF form = "deep" THEN 1 ELSE 0
Fits == CASE form = "text" -> Closed(p) /\ (t = <<>> \/ t[1] < 128)
          [] form = "base64" -> Len(p) % 3 = 0
          [] form = "json" -> ValidJSON(<<91>> \o p \o <<49, 93>>)   \* whole elements
          [] OTHER -> TRUE
Pumps == (p # <<>> /\ Fits) =>
  LET x1 == TLCEval(Of(1)) x2 == TLCEval(Of(2)) P == Pumped(x1, x2, La, Lw, 0) IN
  IF x1 = <<0>> \/ x2 = <<0>>
  THEN (x1 = x2) => \A n \in 3..MaxN : Of(n) = <<0>>
  ELSE P.ok => \A n \in 3..MaxN : Of(n) = P.A \o RepSeq(P.U, n) \o P.M \o RepSeq(P.W, n) \o P.B
(* texts and bytes always are of this form *)
Always == (p # <<>> /\ Fits /\ form \in {"text", "base64"}) => Pumped(Of(1), Of(2), 1, 0, 0).ok
=============================================================================
