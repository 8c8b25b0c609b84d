-------------------------------- MODULE MC_Json --------------------------------
(* JSON texts: the automaton (JText) recognises exactly the grammar of JSON,   *)
(* stated here a second time by derivation, for every concatenation of up to   *)
(* MaxLen pieces; compaction gives a compact text with the same tokens, and    *)
(* changes nothing when done again.                                           *)
EXTENDS JText, MCPlan
CONSTANTS Pieces, Start, MaxLen, PlanLen, Kind

(* the pieces of each bound, see the configurations *)
TokenPieces == {<<91>>, <<93>>, <<123>>, <<125>>, <<44>>, <<58>>, <<34,97,34>>, <<49>>, <<110,117,108,108>>, <<32>>}
StringPieces == {<<34>>, <<92>>, <<117>>, <<48>>, <<31>>, <<97>>, <<226,128,168>>, <<60>>}
NumberPieces == {<<45>>, <<48>>, <<49>>, <<46>>, <<101>>, <<43>>, <<32>>}
WordPieces == {<<116,114,117,101>>, <<102,97,108,115,101>>, <<110,117,108,108>>, <<116,114,117>>, <<110,117,108>>, <<116>>, <<101>>, <<108>>, <<32>>, <<91>>, <<93>>, <<44>>}
(* a prefix that every text starts with *)
NoStart == <<>>
InString == <<QUOTE>>

VARIABLE s, n
Init == s = Start /\ n = 0
Next == n < MaxLen /\ n' = n + 1 /\ \E p \in Pieces : s' = s \o p
Spec == Init /\ [][Next]_<<s, n>>

(* ---- the grammar, by derivation ---- *)
Is(i, j, w) == j - i + 1 = Len(w) /\ SubSeq(s, i, j) = w
Blank(i, j) == \A k \in i..j : IsWS(s[k])
Digits(i, j) == i <= j /\ \A k \in i..j : IsDigit(s[k])
Integer(i, j) ==
  LET p == IF i <= j /\ s[i] = 45 THEN i + 1 ELSE i IN
  p <= j /\ (Is(p, j, <<48>>) \/ (s[p] # 48 /\ Digits(p, j)))
Exponent(i, j) ==
  /\ i <= j /\ s[i] \in {101, 69}
  /\ \/ Digits(i + 1, j)
     \/ i + 1 <= j /\ s[i+1] \in {43, 45} /\ Digits(i + 2, j)
Number(i, j) ==
  \E a \in i..j :
    /\ Integer(i, a)
    /\ \/ a = j
       \/ Exponent(a + 1, j)
       \/ a + 1 <= j /\ s[a+1] = 46
          /\ (Digits(a + 2, j) \/ \E b \in (a+2)..j : Digits(a + 2, b) /\ Exponent(b + 1, j))
RECURSIVE Chars(_, _)
Chars(i, j) ==
  \/ i > j
  \/ s[i] >= 32 /\ s[i] \notin {QUOTE, BSL} /\ Chars(i + 1, j)
  \/ s[i] = BSL /\ i < j
     /\ \/ s[i+1] \in {QUOTE, BSL, 47, 98, 102, 110, 114, 116} /\ Chars(i + 2, j)
        \/ s[i+1] = 117 /\ i + 5 <= j /\ (\A k \in 2..5 : IsHex(s[i+k])) /\ Chars(i + 6, j)
String(i, j) == i < j /\ s[i] = QUOTE /\ s[j] = QUOTE /\ Chars(i + 1, j - 1)
RECURSIVE Value(_, _)
RECURSIVE Elements(_, _)
RECURSIVE Members(_, _)
Value(i, j) ==      \* a value without white space around it
  /\ i <= j
  /\ \/ Is(i, j, TNull) \/ Is(i, j, TTrue) \/ Is(i, j, TFalse)
     \/ String(i, j) \/ Number(i, j)
     \/ s[i] = 91 /\ s[j] = 93 /\ i < j /\ (Blank(i + 1, j - 1) \/ Elements(i + 1, j - 1))
     \/ s[i] = 123 /\ s[j] = 125 /\ i < j /\ (Blank(i + 1, j - 1) \/ Members(i + 1, j - 1))
Padded(i, j) == \E a \in i..j, b \in i..j : Blank(i, a - 1) /\ Blank(b + 1, j) /\ Value(a, b)
Elements(i, j) ==
  Padded(i, j) \/ \E k \in (i+1)..(j-1) : s[k] = 44 /\ Padded(i, k - 1) /\ Elements(k + 1, j)
Member(i, j) ==
  \E a \in i..j, b \in i..j, c \in i..j :
     a < b /\ b < c /\ s[c] = 58 /\ Blank(i, a - 1) /\ String(a, b) /\ Blank(b + 1, c - 1) /\ Padded(c + 1, j)
Members(i, j) ==
  Member(i, j) \/ \E k \in (i+1)..(j-1) : s[k] = 44 /\ Member(i, k - 1) /\ Members(k + 1, j)

Grammar == ValidJSON(s) <=> (s # <<>> /\ Padded(1, Len(s)))
NoSeps == \A i \in 1..Len(s) : ~LineSepAt(s, i)
(* a compact text is a value without blanks outside of strings *)
CompactIs ==
  LET in == StringMap(s) IN
  CompactJSON(s) <=> (s # <<>> /\ Value(1, Len(s)) /\ \A i \in 1..Len(s) : in[i] \/ ~IsWS(s[i]))
(* compaction of a valid text *)
Compacts ==
  ValidJSON(s) =>
    \A html \in BOOLEAN :
      LET c == Compact(s, html) IN
      /\ CompactJSON(c) /\ Compact(c, html) = c
      /\ \A i \in 1..Len(c) : ~LineSepAt(c, i)
      /\ html => \A i \in 1..Len(c) : c[i] \notin {60, 62, 38}
      /\ IsStringLit(s) => Unescape(Inside(c)) = Unescape(Inside(s))
      /\ (\A i \in 1..Len(s) : ~IsWS(s[i]) /\ s[i] \notin {60, 62, 38}) /\ NoSeps => c = s

(* texts with one byte of any value in them, and strings of special runes *)
Hole == -1
Holes == {
  <<Hole>>, <<49, Hole>>, <<45, Hole>>, <<48, Hole>>, <<49, 46, Hole>>, <<49, 101, Hole>>, <<49, 101, 43, Hole>>, <<49, 46, 53, Hole>>,
  <<49, Hole, 50>>, <<49, 69, 45, Hole, 49>>, <<Hole, 49>>, <<45, 48, Hole, 49>> }
TextHoles == Holes \cup {
  <<QUOTE, Hole, QUOTE>>, <<QUOTE, BSL, Hole, QUOTE>>, <<QUOTE, 97, Hole, 97, QUOTE>>, <<Hole, QUOTE, QUOTE>>, <<QUOTE, QUOTE, Hole>>,
  <<QUOTE, BSL, 117, Hole, 48, 48, 48, QUOTE>>, <<QUOTE, BSL, 117, 48, Hole, 48, 48, QUOTE>>,
  <<QUOTE, BSL, 117, 48, 48, Hole, 48, QUOTE>>, <<QUOTE, BSL, 117, 48, 48, 48, Hole, QUOTE>>, <<QUOTE, BSL, 117, 48, 48, 51, 99, Hole, QUOTE>>,
  <<91, Hole, 93>>, <<91, 49, Hole, 50, 93>>, <<91, 49, Hole, 93>>, <<91, 93, Hole>>, <<123, Hole, 125>>,
  <<123, QUOTE, 97, QUOTE, Hole, 49, 125>>, <<123, QUOTE, 97, QUOTE, 58, 49, Hole, QUOTE, 98, QUOTE, 58, 50, 125>>, <<123, QUOTE, Hole, QUOTE, 58, QUOTE, Hole, QUOTE, 125>>,
  <<116, Hole, 117, 101>>, <<110, 117, 108, Hole>>, <<110, 117, 108, 108, Hole>>, <<102, 97, 108, 115, Hole>>, <<Hole, 114, 117, 101>> }
CONSTANTS Others, WithHoles
Filled(H) == IF ~WithHoles THEN {} ELSE UNION {{[i \in 1..Len(h) |-> IF h[i] = Hole THEN b ELSE h[i]] : b \in 0..255} : h \in H}
Cont == {128, 129, 132, 160, 167, 168, 169, 170, 191}
RuneTexts == {<<QUOTE, a, b, c, QUOTE>> : a \in {224, 225, 226, 227, 237, 239}, b \in Cont, c \in Cont}
             \cup {<<QUOTE, 226, b, QUOTE>> : b \in Cont} \cup {<<QUOTE, 226, 128, c, QUOTE>> : c \in 128..191}
             \cup {<<QUOTE, 226, 128, 168, 226, 128, c, 60, QUOTE>> : c \in 128..191}
HoleTexts == Filled(TextHoles) \cup RuneTexts
HoleNumbers == Filled(Holes)
Sum(q) == FoldLeft(LAMBDA a, b : (a + b) % 61, 0, q)
SpecOthers == s = <<>> /\ n \in -61..-1 /\ [][n < 0 /\ n' = 0 /\ s' \in {q \in Others : Sum(q) = -1 - n}]_<<s, n>>

Texts == {Start \o FlattenSeq(q) : q \in AllSeqs(Pieces, PlanLen)}
Plan == LET bs == Batches(SetToSeq(Texts), 40)
        IN [i \in 1..Len(bs) |-> [z |-> Kind, s |-> bs[i]]]
ASSUME WritesPlan(Plan)
=============================================================================
