------------------------------- MODULE MC_Escape -------------------------------
(* Strings: the local definition of escaping (JEscape) is faithful for every   *)
(* byte string over the alphabet up to MaxLen and every set of escape options, *)
(* and a scanner that walks the string once, as encoders do, computes it.      *)
EXTENDS JEscape, MCPlan
CONSTANTS Alphabet, MaxLen, PlanLen

VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E b \in Alphabet : s' = Append(s, b)
Spec == Init /\ [][Next]_s

Start == Len(s) = 2 /\ s[2] = -1       \* of SpecOthers
EscOpts == [nostr : BOOLEAN, nohtml : BOOLEAN, noutf : BOOLEAN]

(* the scanner: at i, bytes from b on not written yet *)
RECURSIVE Scan(_, _, _, _)
Scan(o, i, b, out) ==
  LET Flush == out \o SubSeq(s, b, i - 1) IN
  IF i > Len(s) THEN Flush
  ELSE IF s[i] < 128
  THEN LET e == IF o.nohtml THEN EscTabPlain[s[i]] ELSE EscTabHTML[s[i]] IN
       IF e = <<s[i]>> THEN Scan(o, i + 1, b, out) ELSE Scan(o, i + 1, i + 1, Flush \o e)
  ELSE IF o.noutf THEN Scan(o, i + 1, b, out)
  ELSE LET n == RuneLen(s, i) IN
       IF n = 0 THEN Scan(o, i + 1, i + 1, Flush \o FFFD)
       ELSE IF LineSepAt(s, i) THEN Scan(o, i + 3, i + 3, Flush \o U202(s[i+2]))
       ELSE Scan(o, i + n, b, out)

Faithful == Start \/ \A o \in EscOpts : FaithfulString(Quote(EscapeBytes(s, o)), s, o)
Scanner == Start \/ \A o \in EscOpts : o.nostr \/ EscapeBytes(s, o) = Scan(o, 1, 1, <<>>)
(* what a reader gets is valid, and reading and writing again changes nothing *)
Stable == Start \/ LET c == Coerce(s) IN
  /\ ValidUTF8(c) /\ Coerce(c) = c
  /\ ValidUTF8(s) <=> c = s
  /\ \A o \in EscOpts : ~o.noutf /\ ~o.nostr =>
       Unescape(EscapeBytes(Unescape(EscapeBytes(s, o)), o)) = Unescape(EscapeBytes(s, o))

(* other strings: every byte, alone and between others; byte sequences of the  *)
(* form of UTF-8 around all the places where what is valid or special begins   *)
(* or ends                                                                    *)
Cont == {128, 129, 130, 132, 143, 144, 159, 160, 167, 168, 169, 170, 187, 188, 189, 190, 191}
Cont4 == {128, 143, 144, 159, 168, 191}
CONSTANTS Others, Wide
Runes == IF Wide = 0 THEN {} ELSE
  {<<b>> : b \in 0..255} \cup {<<97, b, 226>> : b \in 0..255}
  \cup {<<a, b>> : a \in {194, 195, 223, 224, 226, 239}, b \in Cont \cup {34, 60, 97}}
  \cup {<<a, b, c>> : a \in {224, 225, 226, 227, 236, 237, 238, 239}, b \in Cont, c \in Cont}
  \cup {<<a, b, c, d>> : a \in {240, 241, 243, 244, 245}, b \in Cont4, c \in Cont4, d \in Cont4}
  \cup (IF Wide = 2 THEN {<<a, b>> : a \in 0..255, b \in 0..255} ELSE {})
Sum(q) == FoldLeft(LAMBDA a, b : (a + b) % 61, 0, q)
SpecOthers == s \in {<<b, -1>> : b \in 0..60} /\ [][Len(s) = 2 /\ s[2] = -1 /\ s' \in {q \in Others : Sum(q) = s[1]}]_s

Strings == AllSeqs(Alphabet, PlanLen)
Plan == LET q == SetToSeq(Strings)
            bs == Batches(q, 64)
        IN [i \in 1..Len(bs) |-> [z |-> "strings", s |-> bs[i]]]
ASSUME WritesPlan(Plan)
=============================================================================
