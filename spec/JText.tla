-------------------------------- MODULE JText --------------------------------
(* JSON texts as byte strings: the grammar (a push-down automaton folded over *)
(* the bytes), compaction, and the decoding of JSON strings.                  *)
EXTENDS JBytes, TLC

TNull  == <<110,117,108,108>>
TTrue  == <<116,114,117,101>>
TFalse == <<102,97,108,115,101>>
QUOTE == 34
BSL == 92

IsWS(b) == b = 32 \/ b = 9 \/ b = 10 \/ b = 13
IsDigit(b) == b >= 48 /\ b <= 57
IsHex(b) == IsDigit(b) \/ (b >= 65 /\ b <= 70) \/ (b >= 97 /\ b <= 102)
HexVal(b) == IF IsDigit(b) THEN b - 48 ELSE IF b <= 70 THEN b - 55 ELSE b - 87

(* ---- the automaton ---- *)
(* m: mode; st: stack of "o" (object) / "a" (array); lit: rest of a literal;  *)
(* key: the string being read is an object key.                               *)
(* modes: v value; ve value or ]; ke key or }; k key; c colon; d done;        *)
(*   s string; e escape; u1..u4 hex; ng minus; nz zero; n digits; nd dot;     *)
(*   nf fraction; ne exponent mark; ns exponent sign; nx exponent; l literal; *)
(*   bad.                                                                     *)
PInit == [m |-> "v", st |-> <<>>, lit |-> <<>>, key |-> FALSE]
PBad == [m |-> "bad", st |-> <<>>, lit |-> <<>>, key |-> FALSE]

PGo(p, m) == [p EXCEPT !.m = m]
PPush(p, c, m) == [p EXCEPT !.st = Append(@, c), !.m = m]
PPop(p) == [p EXCEPT !.st = SubSeq(@, 1, Len(@) - 1), !.m = "d"]
PTop(p) == IF p.st = <<>> THEN "" ELSE p.st[Len(p.st)]

PValue(p, b) ==
  CASE b = 123 -> PPush(p, "o", "ke")
    [] b = 91  -> PPush(p, "a", "ve")
    [] b = QUOTE -> [p EXCEPT !.m = "s", !.key = FALSE]
    [] b = 45  -> PGo(p, "ng")
    [] b = 48  -> PGo(p, "nz")
    [] b >= 49 /\ b <= 57 -> PGo(p, "n")
    [] b = 116 -> [p EXCEPT !.m = "l", !.lit = <<114,117,101>>]
    [] b = 102 -> [p EXCEPT !.m = "l", !.lit = <<97,108,115,101>>]
    [] b = 110 -> [p EXCEPT !.m = "l", !.lit = <<117,108,108>>]
    [] OTHER -> PBad

PDone(p, b) ==     \* after a complete value
  CASE b = 44 /\ PTop(p) = "a" -> PGo(p, "v")
    [] b = 44 /\ PTop(p) = "o" -> PGo(p, "k")
    [] b = 93 /\ PTop(p) = "a" -> PPop(p)
    [] b = 125 /\ PTop(p) = "o" -> PPop(p)
    [] OTHER -> PBad

PStep(ws, p, b) ==
  CASE p.m = "s" ->
         IF b = QUOTE THEN PGo(p, IF p.key THEN "c" ELSE "d")
         ELSE IF b = BSL THEN PGo(p, "e")
         ELSE IF b < 32 THEN PBad ELSE p
    [] p.m = "bad" -> p
    [] p.m \in {"v", "ve", "ke", "k", "c", "d"} /\ IsWS(b) -> IF ws THEN p ELSE PBad
    [] p.m = "v" -> PValue(p, b)
    [] p.m = "d" -> PDone(p, b)
    [] p.m = "ve" -> IF b = 93 THEN PPop(p) ELSE PValue(p, b)
    [] p.m = "ke" -> IF b = 125 THEN PPop(p)
                     ELSE IF b = QUOTE THEN [p EXCEPT !.m = "s", !.key = TRUE] ELSE PBad
    [] p.m = "k" -> IF b = QUOTE THEN [p EXCEPT !.m = "s", !.key = TRUE] ELSE PBad
    [] p.m = "c" -> IF b = 58 THEN PGo(p, "v") ELSE PBad
    [] p.m = "e" -> IF b = 117 THEN PGo(p, "u1")
                    ELSE IF b \in {QUOTE, BSL, 47, 98, 102, 110, 114, 116} THEN PGo(p, "s")
                    ELSE PBad
    [] p.m = "u1" -> IF IsHex(b) THEN PGo(p, "u2") ELSE PBad
    [] p.m = "u2" -> IF IsHex(b) THEN PGo(p, "u3") ELSE PBad
    [] p.m = "u3" -> IF IsHex(b) THEN PGo(p, "u4") ELSE PBad
    [] p.m = "u4" -> IF IsHex(b) THEN PGo(p, "s") ELSE PBad
    [] p.m = "l" -> IF b # Head(p.lit) THEN PBad
                    ELSE IF Len(p.lit) = 1 THEN PGo(p, "d")
                    ELSE [p EXCEPT !.lit = Tail(@)]
    [] p.m = "ng" -> IF b = 48 THEN PGo(p, "nz")
                     ELSE IF b >= 49 /\ b <= 57 THEN PGo(p, "n") ELSE PBad
    [] p.m \in {"nz", "n", "nf", "nx"} ->
         IF IsDigit(b) THEN (IF p.m = "nz" THEN PBad ELSE p)
         ELSE IF b = 46 /\ p.m \in {"nz", "n"} THEN PGo(p, "nd")
         ELSE IF (b = 101 \/ b = 69) /\ p.m # "nx" THEN PGo(p, "ne")
         ELSE IF IsWS(b) THEN (IF ws THEN PGo(p, "d") ELSE PBad)
         ELSE PDone(p, b)
    [] p.m = "nd" -> IF IsDigit(b) THEN PGo(p, "nf") ELSE PBad
    [] p.m = "ne" -> IF IsDigit(b) THEN PGo(p, "nx")
                     ELSE IF b = 43 \/ b = 45 THEN PGo(p, "ns") ELSE PBad
    [] p.m = "ns" -> IF IsDigit(b) THEN PGo(p, "nx") ELSE PBad
    [] OTHER -> PBad

PAccept(p) == p.st = <<>> /\ p.m \in {"d", "nz", "n", "nf", "nx"}

(* s is one JSON value, white space allowed around tokens *)
ValidJSON(s) == PAccept(FoldLeft(LAMBDA p, b : PStep(TRUE, p, b), PInit, s))
(* s is one JSON value without any insignificant white space *)
CompactJSON(s) == PAccept(FoldLeft(LAMBDA p, b : PStep(FALSE, p, b), PInit, s))

(* the number grammar by itself *)
ValidNumber(s) ==
  /\ s # <<>>
  /\ s[1] = 45 \/ IsDigit(s[1])
  /\ CompactJSON(s)

(* ---- compaction ---- *)
(* in[i]: byte i lies between the quotes of a string, quotes included *)
StringMap(s) ==
  FoldLeft(LAMBDA a, b :
     IF ~a.in THEN [in |-> b = QUOTE, sk |-> FALSE, r |-> Append(a.r, b = QUOTE)]
     ELSE IF a.sk THEN [in |-> TRUE, sk |-> FALSE, r |-> Append(a.r, TRUE)]
     ELSE [in |-> b # QUOTE, sk |-> b = BSL, r |-> Append(a.r, TRUE)],
   [in |-> FALSE, sk |-> FALSE, r |-> <<>>], s).r

U00(b) == <<BSL, 117, 48, 48, HexDigit(b \div 16), HexDigit(b % 16)>>
U202(b) == <<BSL, 117, 50, 48, 50, HexDigit(b % 16)>>

Compact(s, html) ==
  LET in == StringMap(s) IN
  Concat([i \in 1..Len(s) |->
    IF html /\ (s[i] = 60 \/ s[i] = 62 \/ s[i] = 38) THEN U00(s[i])
    ELSE IF s[i] >= 128 THEN
       (IF LineSepAt(s, i) THEN U202(s[i+2])
        ELSE IF (i > 1 /\ LineSepAt(s, i-1)) \/ (i > 2 /\ LineSepAt(s, i-2)) THEN <<>>
        ELSE <<s[i]>>)
    ELSE IF ~in[i] /\ IsWS(s[i]) THEN <<>>
    ELSE <<s[i]>>])

(* ---- strings ---- *)
(* UTF-8 bytes of a code point below 0x10000 *)
Utf8(r) ==
  IF r < 128 THEN <<r>>
  ELSE IF r < 2048 THEN <<192 + r \div 64, 128 + (r % 64)>>
  ELSE <<224 + r \div 4096, 128 + ((r \div 64) % 64), 128 + (r % 64)>>

(* bytes denoted by the inside of a JSON string without surrogate escapes *)
Unescape(s) ==
  FoldLeft(LAMBDA a, b :
    CASE a.m = "n" -> IF b = BSL THEN [a EXCEPT !.m = "e"] ELSE [a EXCEPT !.r = Append(@, b)]
      [] a.m = "e" -> IF b = 117 THEN [a EXCEPT !.m = "u", !.k = 0, !.v = 0]
                      ELSE [a EXCEPT !.m = "n", !.r = Append(@,
                            CASE b = 110 -> 10 [] b = 116 -> 9 [] b = 114 -> 13
                              [] b = 98 -> 8 [] b = 102 -> 12 [] OTHER -> b)]
      [] a.m = "u" -> IF a.k = 3
                      THEN [a EXCEPT !.m = "n", !.r = @ \o Utf8(a.v * 16 + HexVal(b))]
                      ELSE [a EXCEPT !.k = @ + 1, !.v = @ * 16 + HexVal(b)],
    [m |-> "n", k |-> 0, v |-> 0, r |-> <<>>], s).r

IsStringLit(s) == Len(s) >= 2 /\ s[1] = QUOTE /\ CompactJSON(s)
Inside(s) == SubSeq(s, 2, Len(s) - 1)
Quote(s) == <<QUOTE>> \o s \o <<QUOTE>>
=============================================================================
