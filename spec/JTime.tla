-------------------------------- MODULE JTime --------------------------------
(* Text of times and durations.                                              *)
(*   time: [s |-> Unix seconds as integer, ns |-> 0..999999999,              *)
(*          off |-> zone offset in seconds east, fmts |-> texts that          *)
(*          time.Format gives for the layouts of the call, by index]          *)
(*   duration: [n |-> nanoseconds as integer, sec, min |-> the floats         *)
(*          Duration.Seconds/Minutes]                                         *)
EXTENDS JNumber

DaysBefore == <<0,31,59,90,120,151,181,212,243,273,304,334,365>>
IsLeap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
(* days of the months before month m (1..13) of year y *)
MonthStart(y, m) == DaysBefore[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)
(* days from 0000-01-01 to y-01-01, y >= 0 *)
YearStart(y) ==
  IF y = 0 THEN 0
  ELSE LET p == y - 1 IN y * 365 + (p \div 4) - (p \div 100) + (p \div 400) + 1
UnixDay0 == 719528         \* days from 0000-01-01 to 1970-01-01
YearsRange == 0..9999
LastDay == YearStart(10000) - 1

(* date of a day number counted from 0000-01-01 (in the years 0..9999) *)
Civil(n) ==
  LET est == Min2(n \div 365, 9999)
      \* the estimate is never too low and at most 7 years too high
      y == CHOOSE y \in Max2(0, est - 8)..est : YearStart(y) <= n /\ n < YearStart(y + 1)
      r == n - YearStart(y)
      m == CHOOSE m \in 1..12 : MonthStart(y, m) <= r /\ r < MonthStart(y, m + 1)
  IN [y |-> y, m |-> m, d |-> r - MonthStart(y, m) + 1]

(* local day number and second of the day.  Only called for magnitudes below  *)
(* 10^13 seconds, which TimeRange guarantees.                                 *)
TimeBig(t) == Len(LimbDigits(t.s.l)) > 13
LocalDay(t) ==
  LET dm == DivMod(LimbDigits(t.s.l), 86400)
      q == DigitsToInt(StripZeros(dm.q))
      d0 == IF t.s.neg THEN (IF dm.r = 0 THEN -q ELSE -q - 1) ELSE q
      s0 == IF t.s.neg /\ dm.r # 0 THEN 86400 - dm.r ELSE dm.r
      u == s0 + t.off + 86400 * 4       \* any offset below four days
  IN [day |-> d0 + UnixDay0 + (u \div 86400) - 4, sod |-> u % 86400]

YearOK(t) == ~TimeBig(t) /\ LET l == LocalDay(t) IN l.day >= 0 /\ l.day <= LastDay

Frac(ns) ==      \* fraction of a second without trailing zeros
  IF ns = 0 THEN <<>>
  ELSE LET p == Pad(ns, 9)
           k == CHOOSE k \in 1..9 : p[k] # 48 /\ \A j \in (k+1)..9 : p[j] = 48
       IN <<46>> \o SubSeq(p, 1, k)

Zone(off) ==
  IF off = 0 THEN <<90>>
  ELSE LET a == (IF off < 0 THEN -off ELSE off) \div 60
           \* an offset between -60 and 0 seconds has no sign left
       IN <<IF off < 0 /\ a > 0 THEN 45 ELSE 43>> \o Pad(a \div 60, 2) \o <<58>> \o Pad(a % 60, 2)

RFC3339(t, nano) ==
  LET l == LocalDay(t) c == Civil(l.day) IN
  Pad(c.y, 4) \o <<45>> \o Pad(c.m, 2) \o <<45>> \o Pad(c.d, 2) \o <<84>>
  \o Pad(l.sod \div 3600, 2) \o <<58>> \o Pad((l.sod \div 60) % 60, 2) \o <<58>> \o Pad(l.sod % 60, 2)
  \o (IF nano THEN Frac(t.ns) ELSE <<>>) \o Zone(t.off)

(* ---- durations ---- *)
(* the last k of the digits, left-padded with zeros, and what is before them *)
LowDigits(ds, k) ==
  IF Len(ds) >= k THEN SubSeq(ds, Len(ds) - k + 1, Len(ds)) ELSE Rep(k - Len(ds), 0) \o ds
HighDigits(ds, k) == IF Len(ds) > k THEN SubSeq(ds, 1, Len(ds) - k) ELSE <<0>>

(* .ddd of the low k digits without trailing zeros, empty if they are zero *)
DurFrac(ds, k) ==
  LET p == LowDigits(ds, k)
      NZ == {i \in 1..k : p[i] # 0}
  IN IF NZ = {} THEN <<>>
     ELSE <<46>> \o DigitBytes(SubSeq(p, 1, CHOOSE i \in NZ : \A j \in NZ : j <= i))

DurText(n) ==
  LET ds == LimbDigits(n.l)
      small == Len(ds) <= 9
      body ==
        IF ds = <<0>> THEN <<48, 115>>
        ELSE IF Len(ds) <= 3 THEN DigitBytes(ds) \o <<110, 115>>
        ELSE IF Len(ds) <= 6 THEN DigitBytes(HighDigits(ds, 3)) \o DurFrac(ds, 3) \o <<194, 181, 115>>
        ELSE IF Len(ds) <= 9 THEN DigitBytes(HighDigits(ds, 6)) \o DurFrac(ds, 6) \o <<109, 115>>
        ELSE LET secs == HighDigits(ds, 9)
                 s == ModDigits(secs, 60)
                 mins == DigitsToInt(DivDigits(secs, 60))
                 h == mins \div 60
             IN (IF h > 0 THEN SmallDec(h) \o <<104>> ELSE <<>>)
                \o (IF mins > 0 THEN SmallDec(mins % 60) \o <<109>> ELSE <<>>)
                \o SmallDec(s) \o DurFrac(ds, 9) \o <<115>>
  IN Sign(n.neg) \o body

TruncText(n, k) ==      \* n / 10^k truncated toward zero
  LET q == HighDigits(LimbDigits(n.l), k)
  IN IF q = <<0>> THEN <<48>> ELSE Sign(n.neg) \o DigitBytes(q)

(* DurationFmt: 0 string, 1 minutes, 2 seconds, 3 ms, 4 us, 5 ns *)
DurationText(v, f) ==
  CASE f = 0 -> DurText(v.n)
    [] f = 1 -> FloatText(v.min)
    [] f = 2 -> FloatText(v.sec)
    [] f = 3 -> TruncText(v.n, 6)
    [] f = 4 -> TruncText(v.n, 3)
    [] f = 5 -> IntText(v.n)
=============================================================================
