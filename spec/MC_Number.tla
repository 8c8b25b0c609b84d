------------------------------- MODULE MC_Number -------------------------------
(* Numbers.  A state is a 64-bit magnitude whose limbs are from Limbs, or a    *)
(* float with digits from Mantissas and a decimal exponent.  The text of an    *)
(* integer, read back limb by limb, is the integer; the text of a float is a   *)
(* number of the grammar, denotes the same digits and exponent, and has the    *)
(* form ECMAScript gives it.                                                  *)
EXTENDS JNumber, MCPlan
CONSTANTS Limbs, Mantissas, NegX, MaxX

LimbSet == {0, 1, 9, 10, 99, 255, 9999, 10000, 32767, 32768, 65535}
LimbSetAll == {0, 1, 2, 9, 10, 99, 100, 255, 256, 999, 1000, 9999, 10000, 16383, 16384, 32767, 32768, 65534, 65535}
MantissaSet == {<<0>>, <<1>>, <<9>>, <<1,2>>, <<2,5>>, <<9,9>>, <<1,0,1>>, <<1,2,3,4,5,6,7>>, <<1,6,7,7,7,2,1,6>>,
  <<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,1>>, <<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,7>>, <<3,4,0,2,8,2,3,5>>, <<5>>}
VARIABLE v
Init == \/ v \in [c : {"int"}, neg : BOOLEAN, l : [1..4 -> Limbs]]
        \/ v \in [c : {"float"}, neg : BOOLEAN, d : Mantissas, x : (-NegX)..MaxX]
Next == FALSE /\ UNCHANGED v
Spec == Init /\ [][Next]_v

(* ---- integers ---- *)
(* limbs times 10 plus d *)
TimesTen(l, d) ==
  LET w4 == l[4] * 10 + d  w3 == l[3] * 10 + w4 \div 65536
      w2 == l[2] * 10 + w3 \div 65536  w1 == l[1] * 10 + w2 \div 65536
  IN <<w1 % 65536, w2 % 65536, w3 % 65536, w4 % 65536>>
ReadInt(t) == FoldLeft(LAMBDA l, b : TimesTen(l, b - 48), <<0, 0, 0, 0>>, t)
IntRight ==
  v.c = "int" =>
    LET t == IntText(v)
        u == IF v.neg THEN Tail(t) ELSE t IN
    /\ v.neg => t[1] = 45
    /\ ReadInt(u) = [i \in 1..4 |-> v.l[i]]
    /\ ValidNumber(t) /\ (Len(u) > 1 => u[1] # 48)
    /\ \A i \in 1..Len(u) : IsDigit(u[i])

(* ---- floats ---- *)
(* digits and exponent of a number text: [d, x] with value d1.d2... * 10^x    *)
IndexOf(t, S) == LET I == {i \in 1..Len(t) : t[i] \in S} IN
  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
ReadSmall(t) == FoldLeft(LAMBDA a, b : a * 10 + (b - 48), 0, t)
ReadFloat(t0) ==
  LET neg == t0[1] = 45
      t == IF neg THEN Tail(t0) ELSE t0
      e == IndexOf(t, {101})
      mant == IF e = 0 THEN t ELSE SubSeq(t, 1, e - 1)
      ex == IF e = 0 THEN 0
            ELSE LET w == SubSeq(t, e + 2, Len(t)) IN IF t[e+1] = 45 THEN -ReadSmall(w) ELSE ReadSmall(w)
      p == IndexOf(mant, {46})
      int == IF p = 0 THEN mant ELSE SubSeq(mant, 1, p - 1)
      frac == IF p = 0 THEN <<>> ELSE SubSeq(mant, p + 1, Len(mant))
      all == [i \in 1..(Len(int) + Len(frac)) |-> (int \o frac)[i] - 48]
      NZ == {i \in 1..Len(all) : all[i] # 0}
  IN IF NZ = {} THEN [neg |-> neg, d |-> <<0>>, x |-> 0]
     ELSE LET a == CHOOSE i \in NZ : \A j \in NZ : i <= j
              b == CHOOSE i \in NZ : \A j \in NZ : i >= j
          IN [neg |-> neg, d |-> SubSeq(all, a, b), x |-> Len(int) - a + ex]
FloatRight ==
  v.c = "float" =>
    LET t == FloatText(v) r == ReadFloat(t) u == IF v.neg THEN Tail(t) ELSE t IN
    /\ ValidNumber(t)
    /\ r.neg = v.neg /\ r.d = v.d /\ (v.d # <<0>> => r.x = v.x)
    (* plain notation exactly between 1e-6 and 1e21; no needless character *)
    /\ v.d # <<0>> => ((IndexOf(t, {101}) = 0) <=> (v.x >= -6 /\ v.x < 21))
    /\ IndexOf(t, {46}) > 0 => u[Len(u)] # 48 \/ IndexOf(t, {101}) > 0
    /\ LET e == IndexOf(t, {101}) IN e > 0 => t[e+1] \in {43, 45} /\ t[e+2] # 48 /\ Len(t) >= e + 2

(* ---- the plan: integers in every type they fit in, decimal strings that the *)
(* harness parses as floats                                                   *)
FloatStrings ==
  {FloatText([neg |-> n, d |-> d, x |-> x]) : n \in BOOLEAN, d \in Mantissas, x \in (-NegX)..MaxX}
Plan ==
  LET is == Batches(SetToSeq([1..4 -> Limbs]), 100)
      fs == Batches(SetToSeq(FloatStrings), 100)
  IN [i \in 1..Len(is) |-> [z |-> "ints", s |-> is[i]]] \o [i \in 1..Len(fs) |-> [z |-> "floats", s |-> fs[i]]]
ASSUME WritesPlan(Plan)
=============================================================================
