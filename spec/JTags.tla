-------------------------------- MODULE JTags --------------------------------
(* The json tag of a struct field: a name, and options after commas.           *)
(* f.tag: its bytes; f.u: the non-ASCII runes of its name are all letters or   *)
(* digits.                                                                    *)
EXTENDS JEscape

COMMA == 44
TagOmitEmpty == <<111,109,105,116,101,109,112,116,121>>
TagOmitNil == <<111,109,105,116,110,105,108>>
TagString == <<115,116,114,105,110,103>>
DASH == <<45>>

SplitComma(s) ==
  LET cs == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = COMMA)
      n == Len(cs)
  IN [k \in 1..(n+1) |->
        SubSeq(s, IF k = 1 THEN 1 ELSE cs[k-1] + 1, IF k = n+1 THEN Len(s) ELSE cs[k] - 1)]

(* letters, digits and the punctuation that a name given by a tag may have:   *)
(* everything printable but quotes, comma and backslash                       *)
NameAscii(b) ==
  b >= 32 /\ b <= 126 /\ b \notin {QUOTE, 39, COMMA, BSL, 96}
ValidName(s, u) ==
  s # <<>> /\ u /\ \A i \in 1..Len(s) : s[i] >= 128 \/ NameAscii(s[i])

ParseTag(f) ==
  LET parts == SplitComma(f.tag)
      opts == {parts[i] : i \in 2..Len(parts)}
  IN [name |-> IF ValidName(parts[1], f.u) THEN parts[1] ELSE <<>>,
      oe |-> TagOmitEmpty \in opts, on |-> TagOmitNil \in opts, q |-> TagString \in opts]
=============================================================================
