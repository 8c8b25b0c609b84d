-------------------------------- MODULE MC_Time --------------------------------
(* The calendar: the date of the day after a day is the next date, for the     *)
(* days of Days (all of the years 0 to 9999 in the large configuration), so    *)
(* that dates are right by induction from 0000-01-01; the text of a duration   *)
(* of so many seconds and nanoseconds, read back, is the duration.             *)
EXTENDS JTime, MCPlan
CONSTANTS Days, Secs, Nanos, PlanYears

AllDays == 0..(LastDay - 1)
MonthLen(y, m) == IF m = 2 THEN (IF y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0) THEN 29 ELSE 28)
                  ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
NextDate(c) ==
  IF c.d < MonthLen(c.y, c.m) THEN [c EXCEPT !.d = @ + 1]
  ELSE IF c.m < 12 THEN [y |-> c.y, m |-> c.m + 1, d |-> 1] ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]
(* a few days around the ends of the months of some years *)
EdgeYears == {0, 1, 3, 4, 5, 99, 100, 101, 103, 104, 399, 400, 401, 1582, 1600, 1752, 1899, 1900, 1901, 1969, 1970, 1999, 2000, 2001, 2004,
  2038, 2100, 2400, 4000, 8000, 9996, 9998, 9999}
EdgeDays == (UNION {{YearStart(y) + MonthStart(y, m) + k : k \in -2..2} : y \in EdgeYears, m \in 1..13}
             \cup {YearStart(y) + k : y \in 0..9999, k \in -1..0}) \cap AllDays
EdgeSecs == {0, 1, 9, 10, 59, 60, 61, 599, 600, 3599, 3600, 3601, 3660, 35999, 36000, 86399, 86400, 359999, 360000, 1000000, 1999999999}
EdgeNanos == {0, 1, 9, 10, 99, 100, 999, 1000, 1001, 1500, 9999, 10000, 99999, 100000, 999000, 999999, 1000000, 1000001, 1500000, 9999999,
  10000000, 100000000, 123456789, 120000000, 999000000, 999999000, 999999999}

VARIABLE v
Init == \/ \E n \in Days : v = [c |-> "day", n |-> n]
        \/ \E s \in Secs, n \in Nanos, g \in BOOLEAN : v = [c |-> "dur", s |-> s, n |-> n, neg |-> g]
Next == FALSE /\ UNCHANGED v
Spec == Init /\ [][Next]_v

FirstDay == Civil(0) = [y |-> 0, m |-> 1, d |-> 1]
NextDay == v.c = "day" => Civil(v.n + 1) = NextDate(Civil(v.n))

(* ---- durations ---- *)
(* DurText works on the digits of the magnitude; the limbs of s*10^9 + n      *)
RECURSIVE ToLimbs(_, _)
ToLimbs(ds, l) ==       \* Horner, on limbs
  IF ds = <<>> THEN l
  ELSE LET w4 == l[4] * 10 + Head(ds)  w3 == l[3] * 10 + w4 \div 65536
           w2 == l[2] * 10 + w3 \div 65536  w1 == l[1] * 10 + w2 \div 65536
       IN ToLimbs(Tail(ds), <<w1 % 65536, w2 % 65536, w3 % 65536, w4 % 65536>>)
NanoDigits(n) == LET d == SmallDigits(n) IN Rep(9 - Len(d), 0) \o d
Dur(s, n, g) == [neg |-> g, l |-> ToLimbs(SmallDigits(s) \o NanoDigits(n), <<0, 0, 0, 0>>)]

Pos(t, b) == LET I == {i \in 1..Len(t) : t[i] = b} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Num(t) == FoldLeft(LAMBDA a, b : a * 10 + (b - 48), 0, t)
AllDigits(t) == \A i \in 1..Len(t) : IsDigit(t[i])
NoLeadZero(t) == t # <<>> /\ (Len(t) > 1 => t[1] # 48)
(* a number with a fraction: <<integer, fraction digits as 9 places>> *)
Decimal(t) ==
  LET p == Pos(t, 46) i == IF p = 0 THEN t ELSE SubSeq(t, 1, p - 1) f == IF p = 0 THEN <<>> ELSE SubSeq(t, p + 1, Len(t))
  IN [ok |-> NoLeadZero(i) /\ AllDigits(i) /\ AllDigits(f) /\ (p > 0 => f # <<>> /\ f[Len(f)] # 48) /\ Len(f) <= 9,
      i |-> Num(i), f |-> f]
Places(f, k) == Num(f \o Rep(k - Len(f), 48))
DurRight ==
  v.c = "dur" =>
    LET t0 == DurText(Dur(v.s, v.n, v.neg))
        t == IF t0[1] = 45 THEN Tail(t0) ELSE t0
        n == Len(t)
        u == IF n > 2 /\ t[n-1] = 181 THEN "u" ELSE IF n > 1 /\ t[n-1] = 110 THEN "n" ELSE IF n > 1 /\ t[n-1] = 109 THEN "m" ELSE "s"
        h == Pos(t, 104) m == Pos(t, 109)
        d == Decimal(SubSeq(t, 1 + (IF u = "s" THEN Max2(h, m) ELSE 0), n - (CASE u = "u" -> 3 [] u = "s" -> 1 [] OTHER -> 2)))
    IN /\ (t0[1] = 45) = v.neg
       /\ t[n] = 115 /\ d.ok
       /\ IF v.s = 0 /\ v.n > 0
          THEN \* the largest unit below a second, from 1 to 999 of it
               /\ u # "s" /\ d.i \in 1..999
               /\ CASE u = "n" -> d.f = <<>> /\ d.i = v.n
                    [] u = "u" -> t[n-2] = 194 /\ d.i * 1000 + Places(d.f, 3) = v.n /\ Len(d.f) <= 3
                    [] u = "m" -> d.i * 1000000 + Places(d.f, 6) = v.n /\ Len(d.f) <= 6
          ELSE /\ u = "s" /\ d.i < 60 /\ Places(d.f, 9) = v.n
               /\ LET hh == IF h = 0 THEN 0 ELSE Num(SubSeq(t, 1, h - 1))
                      mm == IF m = 0 THEN 0 ELSE Num(SubSeq(t, h + 1, m - 1)) IN
                  /\ mm < 60 /\ hh * 3600 + mm * 60 + d.i = v.s
                  /\ h > 0 => hh > 0 /\ m > 0 /\ NoLeadZero(SubSeq(t, 1, h - 1)) /\ NoLeadZero(SubSeq(t, h + 1, m - 1))
                  /\ h = 0 /\ m > 0 => mm > 0 /\ NoLeadZero(SubSeq(t, 1, m - 1))

(* the truncating formats: quotient and sign, toward zero *)
TruncRight ==
  v.c = "dur" =>
    LET x == Dur(v.s, v.n, v.neg)
        ms == TruncText(x, 6) us == TruncText(x, 3)
        Body(t) == IF t[1] = 45 THEN Tail(t) ELSE t
        StripZerosText(t) == LET NZ == {i \in 1..Len(t) : t[i] # 48} IN
             IF NZ = {} THEN <<48>> ELSE SubSeq(t, CHOOSE i \in NZ : \A j \in NZ : i <= j, Len(t))
        Same(b, hi, lo, k) == b = StripZerosText(SmallDec(hi) \o Pad(lo, k))
    IN /\ Same(Body(ms), v.s, v.n \div 1000000, 3) /\ Same(Body(us), v.s, v.n \div 1000, 6)
       /\ (ms[1] = 45) <=> (v.neg /\ (v.s > 0 \/ v.n >= 1000000))
       /\ (us[1] = 45) <=> (v.neg /\ (v.s > 0 \/ v.n >= 1000))

(* ---- the plan ---- *)
Offsets == <<0, 3600, -3600, 19800, 50400, -43200, 86340, -86340, 60, -60, 1800, -1800>>
Sods == <<0, 1, 59, 60, 3599, 3600, 43200, 86399>>
NSs == <<0, 1, 10, 999999999, 100000000, 123456789, 120000000, 1000>>
PlanDays == {YearStart(y) + k : y \in PlanYears, k \in {0, 30, 31, 58, 59, 60, 364, 365}}
Plan ==
  LET ds == SetToSeq(PlanDays)
      ts == [i \in 1..Len(ds) |-> <<ds[i], Sods[(i % 8) + 1], NSs[((i \div 8) % 8) + 1], Offsets[((i \div 3) % 12) + 1]>>]
      bs == Batches(ts, 60)
      us == Batches(SetToSeq(Secs \X Nanos \X {0, 1}), 60)
  IN [i \in 1..Len(bs) |-> [z |-> "times", s |-> bs[i]]] \o [i \in 1..Len(us) |-> [z |-> "durations", s |-> us[i]]]
ASSUME WritesPlan(Plan)
SomeYears == EdgeYears \cup {17 * k : k \in 0..588}
AllYears == 0..9999
=============================================================================
