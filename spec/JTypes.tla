-------------------------------- MODULE JTypes --------------------------------
(* Type descriptors and the members of a struct.                              *)
(* Types[i] is a record                                                       *)
(*   k   kind: bool int uint string float32 float64 iface struct map slice    *)
(*       array ptr chan func complex unsafe                                   *)
(*   n   the type's name as errors print it; nm: it is a declared type        *)
(*   b   the kind is an 8-bit unsigned integer                                *)
(*   e, key  element / key type index, len array length                       *)
(*   sp  "" or one of the types with an encoding of their own: time duration  *)
(*       number raw syncmap                                                   *)
(*   ms, mp  which of the methods C(AppendJSONContext) A(AppendJSON)          *)
(*       J(MarshalJSON) T(MarshalText) are in the method set of the type and   *)
(*       of the pointer to it                                                 *)
(*   f   struct fields: n name, x exported, a embedded, t type, tag bytes of   *)
(*       the json tag, u the non-ASCII runes of the tag's name are all        *)
(*       letters or digits                                                    *)
EXTENDS JTags, Json, IOUtils

Types == JsonDeserialize(IOEnv.JT_TYPES)

BasicKinds == {"bool", "int", "uint", "string", "float32", "float64"}
IntKinds == {"int", "uint"}

(* ---- fields ---- *)
Deref(t) == IF Types[t].k = "ptr" /\ ~Types[t].nm THEN Types[t].e ELSE t
DerefAny(t) == IF Types[t].k = "ptr" THEN Types[t].e ELSE t

Considered(f) ==
  /\ f.tag # DASH
  /\ IF f.a THEN f.x \/ Types[DerefAny(f.t)].k = "struct" ELSE f.x

(* an embedded struct without a name of its own: its fields are promoted *)
Descends(f, p) == f.a /\ p.name = <<>> /\ Types[Deref(f.t)].k = "struct"

KeyText(name, html) ==
  IF ~html THEN name
  ELSE Concat([i \in 1..Len(name) |->
        IF name[i] \in {60, 62, 38} THEN U00(name[i])
        ELSE IF LineSepAt(name, i) THEN U202(name[i+2])
        ELSE IF (i > 1 /\ LineSepAt(name, i-1)) \/ (i > 2 /\ LineSepAt(name, i-2)) THEN <<>>
        ELSE <<name[i]>>])

(* one level of the search: fields found in the struct c.t reached by c.idx   *)
Found(c, mult) ==
  LET fs == Types[c.t].f
      I == SelectSeq([i \in 1..Len(fs) |-> i],
                     LAMBDA i : Considered(fs[i]) /\ ~Descends(fs[i], ParseTag(fs[i])))
  IN [k \in 1..Len(I) |->
       LET f == fs[I[k]] p == ParseTag(f)
           nm == IF p.name = <<>> THEN f.n ELSE p.name IN
       [name |-> nm, idx |-> Append(c.idx, I[k]), tagged |-> p.name # <<>>, mult |-> mult,
        t |-> f.t, oe |-> p.oe, on |-> p.on,
        q |-> p.q /\ Types[Deref(f.t)].k \in BasicKinds,
        kh |-> KeyText(nm, TRUE), ind |-> c.ind]]
Embedded(c) ==
  LET fs == Types[c.t].f
      I == SelectSeq([i \in 1..Len(fs) |-> i],
                     LAMBDA i : Considered(fs[i]) /\ Descends(fs[i], ParseTag(fs[i])))
  IN [k \in 1..Len(I) |->
       [t |-> Deref(fs[I[k]].t), idx |-> Append(c.idx, I[k]),
        ind |-> c.ind \/ Types[fs[I[k]].t].k = "ptr"]]

(* level by level; a struct type is looked into at the first level where it   *)
(* appears, and its fields count as many times as it appears there            *)
RECURSIVE Levels(_, _)
Levels(cur, seen) ==
  IF cur = <<>> THEN <<>>
  ELSE LET fresh == SelectSeq(cur, LAMBDA c : c.t \notin seen)
           n == Len(fresh)
           firsts == SelectSeq([i \in 1..n |-> i],
                       LAMBDA i : \A j \in 1..(i-1) : fresh[j].t # fresh[i].t)
           Mult(t) == Cardinality({i \in 1..n : fresh[i].t = t})
           here == Concat([k \in 1..Len(firsts) |->
                      Found(fresh[firsts[k]], Mult(fresh[firsts[k]].t))])
           below == Concat([k \in 1..Len(firsts) |-> Embedded(fresh[firsts[k]])])
       IN here \o Levels(below, seen \cup {fresh[i].t : i \in 1..n})

(* among the fields of one name, the one that is visible, if any *)
Dominant(cs) ==       \* set of candidates -> {} or {field}
  LET d == CHOOSE d \in {Len(c.idx) : c \in cs} : \A c \in cs : d <= Len(c.idx)
      top == {c \in cs : Len(c.idx) = d}
      tg == {c \in top : c.tagged}
      w == IF tg # {} THEN tg ELSE top
  IN IF Cardinality(w) = 1 /\ \A c \in w : c.mult = 1 THEN w ELSE {}

IdxLess(a, b) ==
  LET n == Min2(Len(a), Len(b))
      D == {i \in 1..n : a[i] # b[i]}
  IN IF D = {} THEN Len(a) < Len(b)
     ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN a[i] < b[i]

ResolveFields(t) ==
  LET all == Levels(<<[t |-> t, idx |-> <<>>, ind |-> FALSE]>>, {})
      cs == {all[i] : i \in 1..Len(all)}
      names == {c.name : c \in cs}
      vis == UNION {Dominant({c \in cs : c.name = nm}) : nm \in names}
  IN SetToSortSeq(vis, LAMBDA a, b : IdxLess(a.idx, b.idx))

(* computed once *)
FieldTab == [t \in DOMAIN Types |-> IF Types[t].k = "struct" THEN ResolveFields(t) ELSE <<>>]

(* ---- methods ---- *)
MethodOrder == <<"C", "A", "J", "T">>
HasMethod(t, m, addr) ==
  Types[t].ms[m] \/ (addr /\ Types[t].k # "ptr" /\ Types[t].mp[m])
PickMethod(t, addr) ==
  CASE HasMethod(t, "C", addr) -> "C"
    [] HasMethod(t, "A", addr) -> "A"
    [] HasMethod(t, "J", addr) -> "J"
    [] HasMethod(t, "T", addr) -> "T"
    [] OTHER -> ""
(* the receiver the chosen method is called through, as errors name it *)
MethodOnPtr(t, m) == ~Types[t].ms[m]
MethodName(m) == CASE m = "C" -> "AppendJSONContext" [] m = "A" -> "AppendJSON"
                   [] m = "J" -> "MarshalJSON" [] m = "T" -> "MarshalText"
=============================================================================
