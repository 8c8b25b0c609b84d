------------------------------- MODULE MC_Values -------------------------------
(* The encoder of JEncode on every type of MC_Table (JT_TYPES) and all of some  *)
(* small values of it, with each option: what the properties say of it.        *)
EXTENDS JEncode, JOptions, MCPlan

FA == <<65>>
FB == <<66>>
Nat4(n) == [neg |-> FALSE, l |-> <<0, 0, n \div 65536, n % 65536>>]
Num(n) == IF n < 0 THEN [Nat4(-n) EXCEPT !.neg = TRUE] ELSE Nat4(n)
Fin(neg, ds, x) == [c |-> "fin", neg |-> neg, d |-> ds, x |-> x]
MOk(b) == [ok |-> TRUE, b |-> b, x |-> ""]
MBad == [ok |-> FALSE, b |-> <<>>, x |-> "no"]
(* the methods of the types with a field A that says what they return *)
JText1 == <<32, 123, QUOTE, 60, QUOTE, 32, 58, 49, 125>>    \* ` {"<" :1}`
Method(t, n) ==
  CASE Types[t].mp.J -> [J |-> CASE n = 0 -> MOk(TNull) [] n = 1 -> MOk(JText1) [] n = 2 -> MBad [] n = 3 -> MOk(<<123>>)]
    [] Types[t].mp.T -> [T |-> CASE n = 0 -> MOk(<<>>) [] n = 1 -> MOk(<<60, QUOTE, 255>>) [] n = 2 -> MBad [] n = 3 -> MOk(<<97>>)]
    [] Types[t].mp.A -> [A |-> CASE n = 0 -> MOk(TNull) [] n = 1 -> MOk(<<91, 49, 93>>) [] n = 2 -> MBad [] n = 3 -> MOk(<<48>>)]
NoM == [C |-> FALSE, A |-> FALSE, J |-> FALSE, T |-> FALSE]
HasM(t) == \E m \in {"C", "A", "J", "T"} : Types[t].mp[m]

PtrInt == CHOOSE t \in DOMAIN Types : Types[t].k = "ptr" /\ Types[t].e = 1
Own == [n \in 0..3 |-> [f |-> <<[n |-> Num(n)]>>]]
Meth(t) == [n \in 1..4 |-> [f |-> Own[n-1].f, m |-> Method(t, n-1)]]

RECURSIVE Vals(_)
Vals(t) ==
  LET T == Types[t]
      E == Vals(T.e)          \* used for types that have elements only
      F == E[1] L == E[Len(E)]
  IN
  CASE T.sp = "duration" -> <<[n |-> Num(0), sec |-> Fin(FALSE, <<0>>, 0), min |-> Fin(FALSE, <<0>>, 0)],
                              [n |-> Num(-1500000), sec |-> Fin(TRUE, <<1, 5>>, -3), min |-> Fin(TRUE, <<2, 5>>, -5)]>>
    [] T.sp = "number" -> <<[s |-> <<>>], [s |-> <<45, 48, 46, 53>>], [s |-> <<48, 49>>]>>
    [] T.sp = "raw" -> <<[nil |-> TRUE, len |-> 0, s |-> <<>>, m |-> [J |-> MOk(TNull)]],
                         [nil |-> FALSE, len |-> 0, s |-> <<>>, m |-> [J |-> MOk(<<>>)]],
                         [nil |-> FALSE, len |-> 4, s |-> <<91, 32, 49, 93>>, m |-> [J |-> MOk(<<91, 32, 49, 93>>)]],
                         [nil |-> FALSE, len |-> 4, s |-> TNull, m |-> [J |-> MOk(TNull)]]>>
    [] T.sp = "time" -> <<[s |-> Num(86399), ns |-> 120000000, off |-> -3600, fmts |-> <<>>],
                          [s |-> Num(951782400), ns |-> 0, off |-> 0, fmts |-> <<>>]>>
    [] HasM(t) /\ T.k = "struct" -> Meth(t)
    [] T.k = "int" -> <<[n |-> Num(0)], [n |-> Num(-7)]>>
    [] T.k = "uint" -> <<[n |-> Num(0)], [n |-> Num(200)]>>
    [] T.k = "bool" -> <<[b |-> FALSE], [b |-> TRUE]>>
    [] T.k = "float64" -> <<[x |-> Fin(TRUE, <<0>>, 0)], [x |-> Fin(FALSE, <<1, 5>>, 21)], [x |-> [Fin(FALSE, <<0>>, 0) EXCEPT !.c = "nan"]]>>
    [] T.k = "string" -> <<[s |-> <<>>], [s |-> <<60, 195, 169, QUOTE, 10>>], [s |-> <<255, 226, 128, 168>>]>>
    [] T.k = "chan" -> <<[z |-> 0]>>
    [] T.k = "iface" -> <<[nil |-> TRUE], [nil |-> FALSE, t |-> 1, e |-> [n |-> Num(3)]],
                          [nil |-> FALSE, t |-> PtrInt, e |-> [nil |-> TRUE]],
                          [nil |-> FALSE, t |-> 8, e |-> Meth(8)[2]]>>
    [] T.k = "ptr" -> <<[nil |-> TRUE]>> \o [i \in 1..Len(E) |->
           LET p == [nil |-> FALSE, cyc |-> FALSE, e |-> E[i]] IN
           IF "m" \in DOMAIN E[i] /\ T.ms # NoM THEN p @@ [m |-> E[i].m] ELSE p]
    [] T.k = "slice" /\ ByteElem(t) -> <<[nil |-> TRUE, len |-> 0, s |-> <<>>], [nil |-> FALSE, len |-> 0, s |-> <<>>],
                                         [nil |-> FALSE, len |-> 4, s |-> <<60, 0, 255, 34>>]>>
    [] T.k = "slice" ->
         <<[nil |-> TRUE, len |-> 0, cyc |-> FALSE, e |-> <<>>], [nil |-> FALSE, len |-> 0, cyc |-> FALSE, e |-> <<>>],
           [nil |-> FALSE, len |-> 2, cyc |-> FALSE, e |-> <<L, F>>]>>
         \o [i \in 1..Len(E) |-> [nil |-> FALSE, len |-> 1, cyc |-> FALSE, e |-> <<E[i]>>]]
    [] T.k = "array" /\ ByteElem(t) -> [i \in 1..Min2(2, T.len + 1) |-> [s |-> [j \in 1..T.len |-> IF i = 1 THEN 0 ELSE 91 + j]]]
    [] T.k = "array" /\ T.len = 0 -> <<[e |-> <<>>]>>
    [] T.k = "array" /\ T.len = 1 -> [i \in 1..Len(E) |-> [e |-> <<E[i]>>]]
    [] T.k = "array" -> <<[e |-> <<F, L>>], [e |-> <<L, F>>]>>
    [] T.k = "map" ->
         LET K == Vals(T.key) IN
         <<[nil |-> TRUE, cyc |-> FALSE, k |-> <<>>, v |-> <<>>], [nil |-> FALSE, cyc |-> FALSE, k |-> <<>>, v |-> <<>>],
           [nil |-> FALSE, cyc |-> FALSE, k |-> <<K[2], K[1]>>, v |-> <<F, L>>]>>
         \o [i \in 1..Len(E) |-> [nil |-> FALSE, cyc |-> FALSE, k |-> <<K[2]>>, v |-> <<E[i]>>]]
         \o (IF HasM(T.key) /\ Types[T.key].sp = "" THEN <<[nil |-> FALSE, cyc |-> FALSE, k |-> <<K[3]>>, v |-> <<F>>]>> ELSE <<>>)
    [] T.k = "struct" /\ T.f = <<>> -> <<[f |-> <<>>]>>
    [] T.k = "struct" ->
         LET A(i) == Vals(T.f[i].t) IN
         IF Len(T.f) = 1 THEN [i \in 1..Len(A(1)) |-> [f |-> <<A(1)[i]>>]]
         ELSE Concat([i \in 1..Len(A(1)) |-> [j \in 1..Len(A(2)) |-> [f |-> <<A(1)[i], A(2)[j]>>]]])

(* ---- the options, one at a time ---- *)
D0 == [DefaultOpts EXCEPT !.layout.k = "nano"]
Options == <<
  D0, [D0 EXCEPT !.unix = TRUE], [D0 EXCEPT !.unsorted = TRUE], [D0 EXCEPT !.raw = TRUE], [D0 EXCEPT !.bas = TRUE],
  [D0 EXCEPT !.nilmap = TRUE], [D0 EXCEPT !.nilslice = TRUE], [D0 EXCEPT !.nohtml = TRUE], [D0 EXCEPT !.noutf = TRUE],
  [D0 EXCEPT !.nocompact = TRUE], [D0 EXCEPT !.nonum = TRUE], [D0 EXCEPT !.dfmt = 0], [D0 EXCEPT !.layout.k = "sec"],
  [D0 EXCEPT !.deny = {FA}], [D0 EXCEPT !.allow = [on |-> TRUE, s |-> {FA, FB}]], [D0 EXCEPT !.nostr = TRUE] >>

(* ---- the nodes of a value ---- *)
(* all of them: <<type, value>> *)
RECURSIVE Nodes(_, _)
Nodes(t, v) ==
  LET T == Types[t] IN
  {<<t, v>>} \cup
  (CASE T.sp # "" \/ (HasM(t) /\ T.k = "struct") \/ T.k = "chan" -> {}
     [] T.k = "iface" -> IF v.nil THEN {} ELSE Nodes(v.t, v.e)
     [] T.k = "ptr" -> IF v.nil THEN {} ELSE Nodes(T.e, v.e)
     [] T.k \in {"slice", "array"} -> IF ByteElem(t) THEN {} ELSE UNION {Nodes(T.e, v.e[i]) : i \in 1..Len(v.e)}
     [] T.k = "map" -> UNION {Nodes(T.e, v.v[i]) \cup Nodes(T.key, v.k[i]) : i \in 1..Len(v.k)}
     [] T.k = "struct" -> UNION {Nodes(T.f[i].t, v.f[i]) : i \in 1..Len(T.f)}
     [] OTHER -> {})

(* nil maps (slices) made empty ones, but for those that omitnil leaves out *)
RECURSIVE Fill(_, _, _)
Fill(t, v, k) ==
  LET T == Types[t] IN
  CASE T.sp # "" \/ (HasM(t) /\ T.k = "struct") \/ T.k = "chan" -> v
    [] T.k = k /\ v.nil /\ ~(T.k = "map" /\ ~KeyOK(T.key)) /\ ~(T.k = "slice" /\ ByteElem(t)) -> [v EXCEPT !.nil = FALSE]
    [] T.k = "iface" -> IF v.nil THEN v ELSE [v EXCEPT !.e = Fill(v.t, v.e, k)]
    [] T.k = "ptr" -> IF v.nil THEN v ELSE [v EXCEPT !.e = Fill(T.e, v.e, k)]
    [] T.k \in {"slice", "array"} -> IF ByteElem(t) THEN v ELSE [v EXCEPT !.e = [i \in 1..Len(v.e) |-> Fill(T.e, v.e[i], k)]]
    [] T.k = "map" -> [v EXCEPT !.v = [i \in 1..Len(v.v) |-> Fill(T.e, v.v[i], k)]]
    [] T.k = "struct" -> [v EXCEPT !.f = [i \in 1..Len(v.f) |->
            IF ParseTag(T.f[i]).on /\ NilField(T.f[i].t, v.f[i]) THEN v.f[i] ELSE Fill(T.f[i].t, v.f[i], k)]]
    [] OTHER -> v

(* ---- states: a type, then a value, then options ---- *)
VARIABLES t, vi, oi, r
vars == <<t, vi, oi, r>>
W == 64
None == [ok |-> TRUE, b |-> <<>>]
Init == t \in 1..W /\ vi = 0 /\ oi = 0 /\ r = None
Value == Vals(t)[vi]
Res(o) == Enc(t, Value, FALSE, FALSE, o)
(* the types in chains, so that workers have something to do *)
Next == \/ /\ vi = 0 /\ t + W <= Len(Types) /\ t' = t + W /\ UNCHANGED <<vi, oi, r>>
        \/ /\ vi = 0 /\ vi' \in 1..Len(Vals(t)) /\ UNCHANGED t /\ oi' \in 1..Len(Options)
           /\ r' = Enc(t, Vals(t)[vi'], FALSE, FALSE, Options[oi'])
Spec == Init /\ [][Next]_vars
At == vi > 0
O == Options[oi]
N == Nodes(t, Value)
Of(k) == \E n \in N : Types[n[1]].k = k
Sp(s) == \E n \in N : Types[n[1]].sp = s \/ (Types[n[1]].k = "ptr" /\ Types[Types[n[1]].e].sp = s)

(* the group markers of unordered maps are taken out first *)
Flat(b) == [i \in 1..Len(SelectSeq(b, LAMBDA c : c \notin {-1, -3})) |->
              LET c == SelectSeq(b, LAMBDA c : c \notin {-1, -3})[i] IN IF c = -2 THEN COMMA ELSE c]
WellFormed ==
  (At /\ r.ok /\ ~O.nostr /\ ~O.noutf /\ ~O.nocompact /\ ~O.nonum) =>
    LET b == Flat(r.b) IN
    /\ CompactJSON(b) /\ ValidUTF8(b)
    /\ ~O.nohtml => \A i \in 1..Len(b) : b[i] \notin {60, 62, 38} /\ ~LineSepAt(b, i)

(* C11: the two options are the encoding of the value with empty ones for nil *)
NilOptions ==
  At => /\ O.nilmap => r = Enc(t, Fill(t, Value, "map"), FALSE, FALSE, D0)
        /\ O.nilslice => r = Enc(t, Fill(t, Value, "slice"), FALSE, FALSE, D0)

(* C23: an option acts on what it is about only *)
Independent ==
  At /\ oi > 1 =>
    (r # Res(D0) =>
      CASE O.unix -> Sp("time")
        [] O.unsorted -> Of("map")
        [] O.raw -> \E n \in N : Types[n[1]].k = "slice" /\ Types[n[1]].sp = "" /\ ByteElem(n[1])
        [] O.bas -> \E n \in N : Types[n[1]].k = "array" /\ ByteElem(n[1])
        [] O.nilmap -> \E n \in N : Types[n[1]].k = "map" /\ n[2].nil
        [] O.nilslice -> \E n \in N : Types[n[1]].k = "slice" /\ n[2].nil
        [] O.nohtml -> (\E n \in N : HasM(n[1])) \/ Of("string") \/ Of("struct")
        [] O.noutf -> Of("string") \/ (\E n \in N : Types[n[1]].mp.T)
        [] O.nocompact -> \E n \in N : Types[n[1]].mp.J \/ (Types[n[1]].k = "iface" /\ ~n[2].nil)
        [] O.nonum -> Sp("number")
        [] O.dfmt = 0 -> Sp("duration")
        [] O.layout.k = "sec" -> Sp("time")
        [] O.deny # {} \/ O.allow.on -> Of("struct")
        [] O.nostr -> Of("string") \/ (\E n \in N : Types[n[1]].mp.T)
        [] OTHER -> FALSE)

(* C21, C09: addressable or not matters to pointer methods only *)
PtrMethod(n) == LET T == Types[n[1]] IN T.k # "ptr" /\ \E m \in {"C", "A", "J", "T"} : T.mp[m] /\ ~T.ms[m]
Position ==
  At /\ (\A n \in N : ~PtrMethod(n)) =>
    /\ r = Enc(t, Value, TRUE, FALSE, O)
    /\ r = EncIface([nil |-> FALSE, t |-> t, e |-> Value], O)

(* C18: a call fails exactly when something that cannot be encoded is reached *)
RECURSIVE Stuck(_, _, _, _)
Stuck(u, v, a, o) ==
  LET T == Types[u] IN
  CASE T.sp \in {"time", "duration"} -> FALSE
    [] T.sp = "number" -> v.s = <<48, 49>> /\ ~o.nonum
    [] T.sp = "raw" -> ~v.nil /\ v.len = 0 /\ ~o.nocompact
    [] T.k = "struct" /\ HasM(u) /\ (a \/ \E m \in {"J", "T", "A"} : T.ms[m]) ->
         v.f[1].n.l[4] = 2 \/ (v.f[1].n.l[4] = 3 /\ T.mp.J /\ ~o.nocompact)
    [] T.k = "chan" -> TRUE
    [] T.k = "float64" -> v.x.c # "fin"
    [] T.k = "iface" -> ~v.nil /\ Stuck(v.t, v.e, FALSE, o)
    [] T.k = "ptr" -> ~v.nil /\ Stuck(T.e, v.e, TRUE, o)
    [] T.k = "slice" -> ~ByteElem(u) /\ \E i \in 1..Len(v.e) : Stuck(T.e, v.e[i], TRUE, o)
    [] T.k = "array" -> ~ByteElem(u) /\ \E i \in 1..Len(v.e) : Stuck(T.e, v.e[i], a, o)
    [] T.k = "map" -> \/ ~(Types[T.key].k \in {"string", "int", "uint"} \/ T.key \in {14, 15})
                      \/ \E i \in 1..Len(v.k) : Stuck(T.e, v.v[i], FALSE, o) \/ (T.key = 15 /\ Stuck(15, v.k[i], FALSE, o))
    [] T.k = "struct" -> \E i \in 1..Len(T.f) :
         LET f == T.f[i] p == ParseTag(f) nm == IF p.name = <<>> THEN f.n ELSE p.name IN
         /\ nm \notin o.deny /\ (o.allow.on => nm \in o.allow.s)
         /\ ~(p.oe /\ Empty(f.t, v.f[i])) /\ ~(p.on /\ NilField(f.t, v.f[i]))
         /\ Stuck(f.t, v.f[i], a, o)
    [] OTHER -> FALSE
FailsRightly == At => (r.ok <=> ~Stuck(t, Value, FALSE, O))

(* C05: a member is there exactly when its field is neither empty nor nil *)
TopStruct == At /\ Types[t].k = "struct" /\ ~HasM(t) /\ Types[t].sp = "" /\ r.ok
Members(b) ==      \* number of members of the object at the top: colons outside of strings, at depth one
  LET st == FoldLeft(LAMBDA s, c :
               IF s.str THEN (IF s.esc THEN [s EXCEPT !.esc = FALSE]
                              ELSE IF c = BSL THEN [s EXCEPT !.esc = TRUE]
                              ELSE IF c = QUOTE THEN [s EXCEPT !.str = FALSE] ELSE s)
               ELSE IF c = QUOTE THEN [s EXCEPT !.str = TRUE]
               ELSE IF c \in {123, 91} THEN [s EXCEPT !.d = @ + 1]
               ELSE IF c \in {125, 93} THEN [s EXCEPT !.d = @ - 1]
               ELSE IF c = 58 /\ s.d = 1 THEN [s EXCEPT !.n = @ + 1] ELSE s,
             [str |-> FALSE, esc |-> FALSE, d |-> 0, n |-> 0], b)
  IN st.n
GivesNull(u, v) == HasJSONMarshaler(u) /\ Types[u].ms.J /\
   IF Types[u].k = "ptr" THEN ~v.nil /\ Types[Types[u].e].sp = "" /\ v.e.f[1].n.l[4] = 0 ELSE
   IF Types[u].sp = "raw" THEN v.nil \/ v.s = TNull ELSE Types[u].sp = "" /\ v.f[1].n.l[4] = 0
Omitted ==
  TopStruct /\ ~O.nostr /\ ~O.nocompact /\ O.deny = {} /\ ~O.allow.on =>
    Members(Flat(r.b)) = Cardinality({i \in 1..Len(Types[t].f) :
       LET f == Types[t].f[i] p == ParseTag(f) v == Value.f[i] IN
       ~(p.oe /\ Empty(f.t, v)) /\ ~(p.on /\ (NilField(f.t, v) \/ GivesNull(f.t, v)))})

Plan == LET Line(u, k) == [z |-> "values", s |-> [t |-> u, k |-> k, vs |-> Vals(u)]]
        IN [i \in 1..(2 * Len(Types)) |-> Line((i + 1) \div 2, i % 2)]
ASSUME WritesPlan(Plan)
=============================================================================
