------------------------------- MODULE JEscape -------------------------------
(* How string contents are escaped, per option set.  The definition is local: *)
(* what byte i turns into depends on the bytes within distance 3 only.        *)
EXTENDS JText

FFFD == <<BSL, 117, 102, 102, 102, 100>>        \* \ufffd, as written
RFFFD == <<239, 191, 189>>                      \* U+FFFD in UTF-8

EscAscii(html) == [b \in 0..127 |->
   CASE b = QUOTE \/ b = BSL -> <<BSL, b>>
     [] b = 10 -> <<BSL, 110>>
     [] b = 13 -> <<BSL, 114>>
     [] b = 9  -> <<BSL, 116>>
     [] b < 32 -> U00(b)
     [] html /\ (b = 60 \/ b = 62 \/ b = 38) -> U00(b)
     [] OTHER -> <<b>>]
EscTabHTML == EscAscii(TRUE)
EscTabPlain == EscAscii(FALSE)

(* o.nostr, o.nohtml, o.noutf: the three escape options *)
EscapeBytes(s, o) ==
  IF o.nostr THEN s
  ELSE Concat([i \in 1..Len(s) |->
      IF s[i] < 128 THEN (IF o.nohtml THEN EscTabPlain[s[i]] ELSE EscTabHTML[s[i]])
      ELSE IF o.noutf THEN <<s[i]>>
      ELSE LET n == RuneLen(s, i) IN
           IF n > 0 THEN (IF LineSepAt(s, i) THEN U202(s[i+2]) ELSE SubSeq(s, i, i + n - 1))
           ELSE IF Covered(s, i) THEN <<>> ELSE FFFD])

(* the string a reader gets back *)
Coerce(s) ==
  Concat([i \in 1..Len(s) |->
      IF s[i] < 128 \/ RuneLen(s, i) > 0 \/ Covered(s, i) THEN <<s[i]>> ELSE RFFFD])

(* ---- what escaping must achieve, whatever way it is done ---- *)
FaithfulString(lit, s, o) ==
  /\ Len(lit) >= 2 /\ lit[1] = QUOTE /\ lit[Len(lit)] = QUOTE
  /\ IF o.nostr THEN Inside(lit) = s
     ELSE /\ CompactJSON(lit)
          /\ o.noutf => Unescape(Inside(lit)) = s
          /\ ~o.noutf => ValidUTF8(lit) /\ Unescape(Inside(lit)) = Coerce(s)
                          /\ \A i \in 1..Len(lit) : ~LineSepAt(lit, i)
          /\ ~o.nohtml => \A i \in 1..Len(lit) : lit[i] \notin {60, 62, 38}
=============================================================================
