-------------------------------- MODULE MC_Table --------------------------------
(* Types, in the form of JTypes: simple ones, everything made of one of those,  *)
(* and everything made of one of these.                                       *)
EXTENDS MCPlan
CONSTANTS Step        \* take every Step-th type of the third layer

Seed == atoi(IOEnv.JT_SEED)
NoM == [C |-> FALSE, A |-> FALSE, J |-> FALSE, T |-> FALSE]
Kind(k, n) == [k |-> k, n |-> n, nm |-> TRUE, b |-> FALSE, e |-> 0, key |-> 0, len |-> 0, sp |-> "",
               ms |-> NoM, mp |-> NoM, f |-> <<>>]
Of(k) == [Kind(k, "") EXCEPT !.nm = FALSE]
Fld(n, t, tag) == [n |-> n, x |-> TRUE, a |-> FALSE, t |-> t, tag |-> tag, u |-> TRUE]
FA == <<65>>
FB == <<66>>
tInt == 1
tString == 2
tIface == 5
tText == 15

Simple == <<
  Kind("int", "int"), Kind("string", "string"), Kind("bool", "bool"), Kind("float64", "float64"), Of("iface"),
  [Kind("uint", "uint8") EXCEPT !.b = TRUE], Of("struct"),
  [Kind("struct", "MV") EXCEPT !.ms.J = TRUE, !.mp.J = TRUE, !.f = <<Fld(FA, tInt, <<>>)>>],
  [Kind("struct", "MP") EXCEPT !.mp.J = TRUE, !.f = <<Fld(FA, tInt, <<>>)>>],
  Of("chan"),
  [Kind("int", "Duration") EXCEPT !.sp = "duration"],
  [Kind("string", "Number") EXCEPT !.sp = "number"],
  [Kind("slice", "RawMessage") EXCEPT !.sp = "raw", !.e = 6, !.ms.J = TRUE, !.mp.J = TRUE],
  [Kind("struct", "Time") EXCEPT !.sp = "time", !.ms.J = TRUE, !.ms.T = TRUE, !.mp.J = TRUE, !.mp.T = TRUE],
  [Kind("struct", "TV") EXCEPT !.ms.T = TRUE, !.mp.T = TRUE, !.f = <<Fld(FA, tInt, <<>>)>>],
  [Kind("struct", "AP") EXCEPT !.mp.A = TRUE, !.f = <<Fld(FA, tInt, <<>>)>>] >>

Ptr(tab, e) == [Of("ptr") EXCEPT !.e = e, !.ms = tab[e].mp]
Struct(fs) == [Of("struct") EXCEPT !.f = fs]
TagE == <<97, 60, 44>> \o <<111,109,105,116,101,109,112,116,121>>     \* a<,omitempty
TagN == <<44>> \o <<111,109,105,116,110,105,108>>                    \* ,omitnil
TagQ == <<113, 44>> \o <<115,116,114,105,110,103>>                   \* q,string
Map(key, e) == [Of("map") EXCEPT !.key = key, !.e = e]
Array(n, e) == [Of("array") EXCEPT !.len = n, !.e = e]
Seven(tab, e) ==
  <<Ptr(tab, e), [Of("slice") EXCEPT !.e = e], Array(1, e), Map(tString, e),
    Struct(<<Fld(FA, e, <<>>)>>), Struct(<<Fld(FA, e, TagE)>>), Struct(<<Fld(FA, e, TagN)>>)>>
Rest(e) ==
  <<Array(0, e), Array(2, e), Struct(<<Fld(FA, e, TagQ)>>),
    Struct(<<Fld(FA, e, TagN), Fld(FB, tInt, <<>>)>>), Struct(<<Fld(FB, tInt, <<>>), Fld(FA, e, TagE)>>)>>
Layer2 == Concat([e \in 1..Len(Simple) |-> Seven(Simple, e) \o Rest(e)])
          \o [i \in 1..7 |-> Map(<<1, 6, tText, 3, 9, 11, 14>>[i], 3)]
Two == Simple \o Layer2
Every(s) == LET n == Len(s) IN [i \in 1..((n - 1 - (Seed % Step)) \div Step + 1) |-> s[(i - 1) * Step + 1 + (Seed % Step)]]
Layer3 == Every(Concat([i \in 1..Len(Layer2) |-> Seven(Two, Len(Simple) + i)]))

ASSUME PrintT(<<"types", Len(Simple), Len(Layer2), Len(Layer3)>>)
ASSUME JsonSerialize(IOEnv.JT_TYPES, Two \o Layer3)
=============================================================================
