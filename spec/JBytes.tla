------------------------------- MODULE JBytes -------------------------------
(* Byte sequences and the small amount of arithmetic the encoding needs.     *)
(* A byte string is a sequence of integers 0..255.  TLC's integers have 32   *)
(* bits, so 64-bit magnitudes are four 16-bit limbs (most significant first) *)
(* and are turned into sequences of decimal digits before any computation.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Concat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

(* b-separated concatenation of a sequence of byte strings *)
Join(ss, b) ==
  Concat([i \in 1..Len(ss) |-> IF i = 1 THEN ss[1] ELSE <<b>> \o ss[i]])

Rep(n, b) == [i \in 1..n |-> b]

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* lexicographic order on byte strings *)
BytesLess(a, b) ==
  LET n == Min2(Len(a), Len(b))
      D == {i \in 1..n : a[i] # b[i]}
  IN IF D = {} THEN Len(a) < Len(b)
     ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN a[i] < b[i]

(* ---- decimal ---- *)
Digit(d) == 48 + d
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d

(* digits (numbers 0..9, most significant first) of a small natural *)
RECURSIVE SmallDigits(_)
SmallDigits(n) == IF n < 10 THEN <<n>> ELSE Append(SmallDigits(n \div 10), n % 10)

StripZeros(ds) ==
  LET NZ == {i \in 1..Len(ds) : ds[i] # 0}
  IN IF NZ = {} THEN <<0>>
     ELSE SubSeq(ds, CHOOSE i \in NZ : \A j \in NZ : i <= j, Len(ds))

(* division of a digit sequence by a small divisor (below 2*10^8) *)
DivMod(ds, k) ==
  FoldLeft(LAMBDA acc, d : [q |-> Append(acc.q, (acc.r * 10 + d) \div k),
                            r |-> (acc.r * 10 + d) % k],
           [q |-> <<>>, r |-> 0], ds)

DivDigits(ds, k) == StripZeros(DivMod(ds, k).q)
ModDigits(ds, k) == DivMod(ds, k).r

(* value of a digit sequence known to be below 2^31 *)
DigitsToInt(ds) == FoldLeft(LAMBDA a, d : a * 10 + d, 0, ds)

(* four 16-bit limbs, most significant first, to decimal digits *)
LimbStep(ls) ==   \* one division by 10^4: quotient limbs and remainder
  FoldLeft(LAMBDA acc, l : [q |-> Append(acc.q, (acc.r * 65536 + l) \div 10000),
                            r |-> (acc.r * 65536 + l) % 10000],
           [q |-> <<>>, r |-> 0], ls)
Four(n) == <<n \div 1000, (n \div 100) % 10, (n \div 10) % 10, n % 10>>
LimbDigits(ls) ==
  IF ls[1] = 0 /\ ls[2] = 0 /\ ls[3] < 16384
  THEN SmallDigits(ls[3] * 65536 + ls[4])
  ELSE LET a == LimbStep(ls) b == LimbStep(a.q) c == LimbStep(b.q)
           d == LimbStep(c.q) e == LimbStep(d.q)
       IN StripZeros(Four(e.r) \o Four(d.r) \o Four(c.r) \o Four(b.r) \o Four(a.r))

DigitBytes(ds) == [i \in 1..Len(ds) |-> 48 + ds[i]]

(* zero-padded decimal of a small natural in w places *)
Pad(n, w) ==
  LET ds == SmallDigits(n)
  IN DigitBytes(Rep(w - Len(ds), 0) \o ds)
SmallDec(n) == DigitBytes(SmallDigits(n))

(* ---- UTF-8 ---- *)
IsCont(s, j) == j <= Len(s) /\ s[j] >= 128 /\ s[j] <= 191
Within(s, j, lo, hi) == j <= Len(s) /\ s[j] >= lo /\ s[j] <= hi

(* length of the valid UTF-8 sequence that starts at i, 0 if there is none *)
RuneLen(s, i) ==
  LET b == s[i] IN
  CASE b < 128 -> 1
    [] b < 194 -> 0
    [] b < 224 -> IF IsCont(s, i+1) THEN 2 ELSE 0
    [] b < 240 -> IF /\ Within(s, i+1, IF b = 224 THEN 160 ELSE 128,
                                       IF b = 237 THEN 159 ELSE 191)
                     /\ IsCont(s, i+2) THEN 3 ELSE 0
    [] b < 245 -> IF /\ Within(s, i+1, IF b = 240 THEN 144 ELSE 128,
                                       IF b = 244 THEN 143 ELSE 191)
                     /\ IsCont(s, i+2) /\ IsCont(s, i+3) THEN 4 ELSE 0
    [] OTHER -> 0

(* byte i lies inside (not at the start of) a valid sequence *)
Covered(s, i) ==
  \E k \in 1..3 : i - k >= 1 /\ s[i-k] >= 192 /\ RuneLen(s, i-k) > k

ValidUTF8(s) ==
  \A i \in 1..Len(s) : s[i] < 128 \/ RuneLen(s, i) > 0 \/ Covered(s, i)

(* U+2028 or U+2029 starts at i: E2 80 A8/A9 *)
LineSepAt(s, i) ==
  i + 2 <= Len(s) /\ s[i] = 226 /\ s[i+1] = 128 /\ (s[i+2] = 168 \/ s[i+2] = 169)

(* ---- base64, standard alphabet, padded ---- *)
B64 == [i \in 0..63 |->
   IF i < 26 THEN 65 + i ELSE IF i < 52 THEN 71 + i ELSE IF i < 62 THEN i - 4
   ELSE IF i = 62 THEN 43 ELSE 47]
Base64(s) ==
  LET n == Len(s)
      At(j) == IF j <= n THEN s[j] ELSE 0
      Grp(g) == LET i == 3*(g-1) + 1
                    w == At(i) * 65536 + At(i+1) * 256 + At(i+2)
                IN << B64[w \div 262144], B64[(w \div 4096) % 64],
                      IF i + 1 <= n THEN B64[(w \div 64) % 64] ELSE 61,
                      IF i + 2 <= n THEN B64[w % 64] ELSE 61 >>
  IN Concat([g \in 1..((n + 2) \div 3) |-> Grp(g)])

(* decoding, used to state the round trip *)
B64Val(c) == IF c >= 65 /\ c <= 90 THEN c - 65 ELSE IF c >= 97 /\ c <= 122 THEN c - 71
             ELSE IF c >= 48 /\ c <= 57 THEN c + 4 ELSE IF c = 43 THEN 62
             ELSE IF c = 47 THEN 63 ELSE 0
UnBase64(s) ==
  LET G(g) == LET i == 4*(g-1) + 1
                  w == B64Val(s[i]) * 262144 + B64Val(s[i+1]) * 4096 + B64Val(s[i+2]) * 64 + B64Val(s[i+3])
              IN IF s[i+2] = 61 THEN <<w \div 65536>>
                 ELSE IF s[i+3] = 61 THEN <<w \div 65536, (w \div 256) % 256>>
                 ELSE <<w \div 65536, (w \div 256) % 256, w % 256>>
  IN Concat([g \in 1..(Len(s) \div 4) |-> G(g)])
=============================================================================
