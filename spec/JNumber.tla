------------------------------- MODULE JNumber -------------------------------
(* Text of integers and floats.                                              *)
(*   integer: [neg |-> BOOLEAN, l |-> limbs of the magnitude]                *)
(*   float:   [c |-> "nan"/"inf"/"fin", neg |-> BOOLEAN,                     *)
(*             d |-> digits, x |-> e]  with value  d1.d2d3... * 10^e         *)
(* The digits of a float are those of its shortest decimal (see MC_Float for  *)
(* the definition of shortest and what is trusted).                          *)
EXTENDS JText

Sign(neg) == IF neg THEN <<45>> ELSE <<>>
IntText(n) == Sign(n.neg) \o DigitBytes(LimbDigits(n.l))

ExpText(e) ==     \* minimal exponent, sign always there
  <<101, IF e < 0 THEN 45 ELSE 43>> \o SmallDec(IF e < 0 THEN -e ELSE e)

(* e < -6 or e >= 21: scientific form *)
FloatText(f) ==
  LET ds == DigitBytes(f.d) n == Len(ds) IN
  Sign(f.neg) \o
  (IF f.d = <<0>> THEN <<48>>
   ELSE IF f.x < -6 \/ f.x >= 21
   THEN <<ds[1]>> \o (IF n > 1 THEN <<46>> \o Tail(ds) ELSE <<>>) \o ExpText(f.x)
   ELSE IF f.x < 0 THEN <<48, 46>> \o Rep(-f.x - 1, 48) \o ds
   ELSE IF n <= f.x + 1 THEN ds \o Rep(f.x + 1 - n, 48)
   ELSE SubSeq(ds, 1, f.x + 1) \o <<46>> \o SubSeq(ds, f.x + 2, n))
=============================================================================
