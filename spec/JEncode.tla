------------------------------- MODULE JEncode -------------------------------
(* The encoding of a value.                                                   *)
(* Values are trees that mirror their Go type:                                *)
(*   bool [b], int/uint [n], float [x], string [s], iface [nil, t, e],        *)
(*   struct [f], map/syncmap [nil, k, v], slice [nil, e] or [nil, s] for bytes,*)
(*   array [e] or [s], ptr [nil, e] or [cyc], time, duration, number [s],     *)
(*   raw [nil, s].  m holds what the value's own marshaling methods return     *)
(*   (they belong to the environment).                                        *)
(* Results: [ok |-> TRUE, b |-> bytes] or [ok |-> FALSE, e |-> set of the      *)
(* errors allowed].  Where the order is not determined (unsorted maps, equal  *)
(* key texts) the bytes contain a group  -1 item -2 item ... -3  whose items   *)
(* may come in any order, separated by commas: see Matches.                   *)
EXTENDS JTypes, JTime

Ok(b) == [ok |-> TRUE, b |-> b]
Err(k, t, m, x) == [ok |-> FALSE, e |-> {[k |-> k, t |-> t, m |-> m, x |-> x]}]
UnsupType(t) == Err("type", Types[t].n, "", "")
UnsupValue(x) == Err("value", "", "", x)
OtherErr == Err("other", "", "", "")
MarshalErr(t, m, x) ==
  Err("marshal", IF MethodOnPtr(t, m) THEN "*" \o Types[t].n ELSE Types[t].n, MethodName(m), x)

(* sequence of results: the first error, or all the bytes *)
FirstErr(rs) ==
  LET B == {i \in 1..Len(rs) : ~rs[i].ok}
  IN IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : i <= j
Seal(l, results, r) ==
  LET rs == TLCEval(results)      \* evaluated once
      i == FirstErr(rs)
  IN IF i > 0 THEN rs[i]
     ELSE Ok(<<l>> \o Join([j \in 1..Len(rs) |-> rs[j].b], COMMA) \o <<r>>)

StrText(s, o) == Quote(EscapeBytes(s, o))
Quoted(q, b) == IF q THEN Quote(b) ELSE b

(* the string option: the JSON string of the JSON string *)
QuotedStr(s, o) ==
  IF o.nostr THEN <<QUOTE, BSL, QUOTE>> \o s \o <<BSL, QUOTE, QUOTE>>
  ELSE Quote(EscapeBytes(StrText(s, o), [o EXCEPT !.nohtml = TRUE]))

(* ---- the types with an encoding of their own ---- *)
(* text of a time and whether it is a string *)
TimeResult(v, o) ==
  IF ~YearOK(v) THEN OtherErr
  ELSE IF o.unix THEN [ok |-> TRUE, b |-> IntText(v.s), str |-> FALSE]
  ELSE [ok |-> TRUE, str |-> TRUE, b |->
         CASE o.layout.k = "nano" -> RFC3339(v, TRUE)
           [] o.layout.k = "sec" -> RFC3339(v, FALSE)
           [] OTHER -> v.fmts[o.layout.i]]
EncTime(v, o) ==
  LET r == TimeResult(v, o) IN
  IF ~r.ok THEN r ELSE IF r.str THEN Ok(StrText(r.b, o)) ELSE Ok(r.b)

EncDuration(v, q, o) ==
  Ok(Quoted(q \/ o.dfmt = 0, DurationText(v, o.dfmt)))

EncNumber(v, q, o) ==
  LET s == IF v.s = <<>> THEN <<48>> ELSE v.s
  IN IF o.nonum \/ ValidNumber(s) THEN Ok(Quoted(q, s)) ELSE OtherErr

EncRaw(t, v, o) ==
  IF v.nil THEN Ok(TNull)
  ELSE IF o.nocompact THEN Ok(v.s)
  ELSE IF ~ValidJSON(v.s) THEN Err("marshal", Types[t].n, "MarshalJSON", "syntax")
  ELSE Ok(Compact(v.s, ~o.nohtml))

(* ---- marshaling methods ---- *)
NilIs(t, v) == Types[t].k \in {"ptr", "iface"} /\ v.nil
MResult(t, v, m, o) ==
  LET w == IF Types[t].k = "iface" THEN v.e ELSE v
  IN IF m = "C" THEN w.m.C[o.ctx] ELSE w.m[m]

EncMethod(t, v, m, o) ==
  IF NilIs(t, v) THEN Ok(TNull)
  ELSE LET r == MResult(t, v, m, o) IN
       IF ~r.ok THEN MarshalErr(t, m, r.x)
       ELSE IF m \in {"C", "A"} THEN Ok(r.b)
       ELSE IF m = "T" THEN Ok(StrText(r.b, o))
       ELSE IF o.nocompact THEN Ok(r.b)
       ELSE IF ~ValidJSON(r.b) THEN MarshalErr(t, m, "syntax")
       ELSE Ok(Compact(r.b, ~o.nohtml))

(* ---- map keys ---- *)
KeyOK(t) == Types[t].k = "string" \/ Types[t].k \in IntKinds \/ Types[t].ms["T"]
MapKey(t, v, o) ==          \* the text, not escaped
  LET T == Types[t] IN
  CASE T.k = "string" -> Ok(v.s)
    [] T.sp = "time" -> LET r == TimeResult(v, o) IN IF r.ok THEN Ok(r.b) ELSE r
    [] T.sp = "duration" -> Ok(DurationText(v, o.dfmt))
    [] T.ms["T"] -> IF NilIs(t, v) THEN Ok(<<>>)
                    ELSE LET r == MResult(t, v, "T", o)
                         IN IF r.ok THEN Ok(r.b) ELSE MarshalErr(t, "T", r.x)
    [] OTHER -> Ok(IntText(v.n))

(* ---- omitted fields ---- *)
Empty(t, v) ==
  LET k == Types[t].k IN
  CASE k = "bool" -> ~v.b
    [] k = "string" -> v.s = <<>>
    [] k \in IntKinds -> v.n.l = <<0, 0, 0, 0>>
    [] k \in {"float32", "float64"} -> v.x.c = "fin" /\ v.x.d = <<0>>
    [] k \in {"ptr", "iface"} -> v.nil
    [] k = "map" -> v.nil \/ v.k = <<>>
    [] k = "slice" -> v.nil \/ v.len = 0
    [] k = "array" -> Types[t].len = 0
    [] OTHER -> FALSE
NilField(t, v) == Types[t].k \in {"ptr", "iface", "map", "slice"} /\ v.nil
HasJSONMarshaler(t) == Types[t].ms["J"] \/ Types[t].mp["J"]

Listed(name, o) ==
  /\ name \notin o.deny
  /\ o.allow.on => name \in o.allow.s

(* follow an index sequence; <<>> when an embedded pointer is nil *)
RECURSIVE Follow(_, _, _)
Follow(t, v, idx) ==
  LET fv == v.f[Head(idx)] ft == Types[t].f[Head(idx)].t
      rest == Tail(idx) IN
  IF rest = <<>> THEN <<fv>>
  ELSE IF Types[ft].k = "ptr"
       THEN (IF fv.nil THEN <<>> ELSE Follow(Types[ft].e, fv.e, rest))
       ELSE Follow(ft, fv, rest)

(* groups of indices 1..Len(ks) by equal text, in the order of the texts *)
SortedGroups(ks) ==
  LET txts == SetToSortSeq({ks[i] : i \in 1..Len(ks)}, BytesLess)
  IN [g \in 1..Len(txts) |-> SelectSeq([i \in 1..Len(ks) |-> i], LAMBDA i : ks[i] = txts[g])]
Group(items) ==
  IF Len(items) = 1 THEN items[1]
  ELSE <<-1>> \o Concat([i \in 1..Len(items) |->
            IF i = 1 THEN items[1] ELSE <<-2>> \o items[i]]) \o <<-3>>

(* an object from key texts and value results *)
MapObject(keys, vals, o) ==
  LET ks == TLCEval(keys)
      vs == TLCEval(vals)
      n == Len(ks)
      errs == UNION {IF ks[i].ok THEN (IF vs[i].ok THEN {} ELSE vs[i].e) ELSE ks[i].e : i \in 1..n}
  IN IF errs # {} THEN [ok |-> FALSE, e |-> errs]
     ELSE IF n = 0 THEN Ok(<<123, 125>>)
     ELSE LET Item(i) == StrText(ks[i].b, o) \o <<58>> \o vs[i].b
              body == IF o.unsorted THEN Group([i \in 1..n |-> Item(i)])
                      ELSE LET gs == SortedGroups([i \in 1..n |-> ks[i].b])
                           IN Join([g \in 1..Len(gs) |->
                                Group([j \in 1..Len(gs[g]) |-> Item(gs[g][j])])], COMMA)
          IN Ok(<<123>> \o body \o <<125>>)

(* ---- values ---- *)
RECURSIVE Enc(_, _, _, _, _)
RECURSIVE EncStruct(_, _, _, _)
RECURSIVE EncSyncMap(_, _)

EncIface(v, o) == IF v.nil THEN Ok(TNull) ELSE Enc(v.t, v.e, FALSE, FALSE, o)

EncPtr(t, v, q, o) ==
  IF v.nil THEN Ok(TNull)
  ELSE IF v.cyc THEN UnsupValue("cycle")
  ELSE Enc(Types[t].e, v.e, TRUE, q, o)

(* the elements of byte kinds are one string unless they marshal themselves *)
ByteElem(t) ==
  LET E == Types[Types[t].e] IN E.b /\ \A m \in {"J", "T", "A", "C"} : ~E.mp[m]

EncSlice(t, v, o) ==
  IF v.nil THEN Ok(IF o.nilslice /\ ~ByteElem(t) THEN <<91, 93>> ELSE TNull)
  ELSE IF ByteElem(t) THEN Ok(IF o.raw THEN StrText(v.s, o) ELSE Quote(Base64(v.s)))
  ELSE IF v.cyc THEN UnsupValue("cycle")
  ELSE Seal(91, [i \in 1..Len(v.e) |-> Enc(Types[t].e, v.e[i], TRUE, FALSE, o)], 93)

EncArray(t, v, addr, o) ==
  IF ByteElem(t)
  THEN IF o.bas THEN Ok(StrText(v.s, o))
       ELSE Ok(<<91>> \o Join([i \in 1..Len(v.s) |-> SmallDec(v.s[i])], COMMA) \o <<93>>)
  ELSE Seal(91, [i \in 1..Len(v.e) |-> Enc(Types[t].e, v.e[i], addr, FALSE, o)], 93)

EncMap(t, v, o) ==
  IF ~KeyOK(Types[t].key) THEN UnsupType(t)
  ELSE IF v.nil THEN Ok(IF o.nilmap THEN <<123, 125>> ELSE TNull)
  ELSE IF v.cyc THEN UnsupValue("cycle")
  ELSE MapObject([i \in 1..Len(v.k) |-> MapKey(Types[t].key, v.k[i], o)],
                 [i \in 1..Len(v.k) |-> Enc(Types[t].e, v.v[i], FALSE, FALSE, o)], o)

SyncKey(k, o) ==
  IF k.nil \/ ~KeyOK(k.t) THEN OtherErr ELSE MapKey(k.t, k.e, o)
EncSyncMap(v, o) ==
  MapObject([i \in 1..Len(v.k) |-> SyncKey(v.k[i], o)],
            [i \in 1..Len(v.k) |-> EncIface(v.v[i], o)], o)

EncStruct(t, v, addr, o) ==
  LET fs == FieldTab[t]
      Member(f) ==       \* <<>> or the member's result
        IF ~Listed(f.name, o) THEN <<>>
        ELSE LET w == Follow(t, v, f.idx) IN
             IF w = <<>> THEN <<>>
             ELSE LET fv == w[1] IN
                  IF (f.on /\ NilField(f.t, fv)) \/ (f.oe /\ Empty(f.t, fv)) THEN <<>>
                  ELSE LET r == Enc(f.t, fv, addr \/ f.ind, f.q, o) IN
                       IF ~r.ok THEN <<r>>
                       ELSE IF f.on /\ HasJSONMarshaler(f.t) /\ r.b = TNull THEN <<>>
                       ELSE <<Ok(Quote(IF o.nohtml THEN f.name ELSE f.kh) \o <<58>> \o r.b)>>
      ms == TLCEval([i \in 1..Len(fs) |-> Member(fs[i])])     \* evaluated once
  IN Seal(123, Concat(ms), 125)

(* t: type, v: value, addr: addressable, q: under the string tag option *)
Enc(t, v, addr, q, o) ==
  LET T == Types[t]
      ptrToSpecial == T.k = "ptr" /\ ~T.nm /\ Types[T.e].sp # ""
      m == IF T.sp # "" \/ ptrToSpecial THEN "" ELSE PickMethod(t, addr)
  IN
  CASE T.sp = "time" -> EncTime(v, o)
    [] T.sp = "duration" -> EncDuration(v, q, o)
    [] T.sp = "number" -> EncNumber(v, q, o)
    [] T.sp = "raw" -> EncRaw(t, v, o)
    [] T.sp = "syncmap" -> EncSyncMap(v, o)
    [] m # "" -> EncMethod(t, v, m, o)
    [] T.k = "bool" -> Ok(Quoted(q, IF v.b THEN TTrue ELSE TFalse))
    [] T.k \in IntKinds -> Ok(Quoted(q, IntText(v.n)))
    [] T.k \in {"float32", "float64"} ->
         IF v.x.c = "fin" THEN Ok(Quoted(q, FloatText(v.x)))
         ELSE UnsupValue(IF v.x.c = "nan" THEN "NaN" ELSE IF v.x.neg THEN "-Inf" ELSE "+Inf")
    [] T.k = "string" -> Ok(IF q THEN QuotedStr(v.s, o) ELSE StrText(v.s, o))
    [] T.k = "iface" -> EncIface(v, o)
    [] T.k = "struct" -> EncStruct(t, v, addr, o)
    [] T.k = "map" -> EncMap(t, v, o)
    [] T.k = "slice" -> EncSlice(t, v, o)
    [] T.k = "array" -> EncArray(t, v, addr, o)
    [] T.k = "ptr" -> EncPtr(t, v, q, o)
    [] OTHER -> UnsupType(t)

(* ---- matching bytes against a result with unordered groups ---- *)
(* end of the group that starts at i, and its separators *)
RECURSIVE GroupScan(_, _, _, _)
GroupScan(p, i, d, acc) ==     \* acc: positions of -1, separators and -3 of depth 1
  LET j == CHOOSE j \in i..Len(p) : p[j] < 0 /\ \A k \in i..(j-1) : p[k] >= 0 IN
  IF p[j] = -1 THEN GroupScan(p, j+1, d+1, acc)
  ELSE IF p[j] = -2 THEN GroupScan(p, j+1, d, IF d = 1 THEN Append(acc, j) ELSE acc)
  ELSE IF d = 1 THEN Append(acc, j) ELSE GroupScan(p, j+1, d-1, acc)

RECURSIVE Ends(_, _, _, _, _)      \* positions in b after pattern p[i..n] read from j
RECURSIVE ItemEnds(_, _, _, _, _)
Ends(p, i, n, b, j) ==
  LET N == {k \in i..n : p[k] < 0} IN
  IF N = {} THEN (IF j + (n - i) <= Len(b) /\ SubSeq(b, j, j + (n - i)) = SubSeq(p, i, n)
                  THEN {j + (n - i) + 1} ELSE {})
  ELSE LET g == CHOOSE k \in N : \A l \in N : k <= l
           lit == g - i IN
       IF j + lit - 1 > Len(b) \/ SubSeq(b, j, j + lit - 1) # SubSeq(p, i, g - 1) THEN {}
       ELSE LET seps == GroupScan(p, g + 1, 1, <<g>>)
                items == {<<seps[k] + 1, seps[k+1] - 1>> : k \in 1..(Len(seps) - 1)}
            IN UNION {Ends(p, seps[Len(seps)] + 1, n, b, e) :
                        e \in ItemEnds(p, items, b, j + lit, TRUE)}
ItemEnds(p, items, b, j, first) ==
  IF items = {} THEN {j}
  ELSE IF ~first /\ (j > Len(b) \/ b[j] # COMMA) THEN {}
  ELSE LET at == IF first THEN j ELSE j + 1
           \* the items that can stand here; of equal ones the first is enough
           E == {x \in {<<it, Ends(p, it[1], it[2], b, at)>> : it \in items} : x[2] # {}}
           Text(x) == SubSeq(p, x[1][1], x[1][2])
           F == {x \in E : \A y \in E : y[1][1] < x[1][1] => Text(y) # Text(x)}
       IN UNION {UNION {ItemEnds(p, items \ {x[1]}, b, e, FALSE) : e \in x[2]} : x \in F}

Matches(p, b) ==
  IF \A i \in 1..Len(p) : p[i] >= 0 THEN p = b
  ELSE (Len(b) + 1) \in Ends(p, 1, Len(p), b, 1)
=============================================================================
