------------------------------- MODULE MC_Fields -------------------------------
(* The members of a struct, for every program of MC_Programs (JT_TYPES): the   *)
(* level by level search of JTypes gives what the rule of the language says,   *)
(* stated here over all paths through embedded structs:                        *)
(*   a field is promoted if no other field of its name is less deep; if         *)
(*   several are equally deep, the one that is named by a tag, if only one is;  *)
(*   else none.                                                                *)
(* One thing is particular to encoding/json: when a struct type appears twice  *)
(* at a level, what is embedded in it is looked at once.  The rule applies to  *)
(* the programs in which that does not happen (Plain).                         *)
EXTENDS JTypes

(* the structs are 4..LastStruct; they are gone through in chains that are independent *)
LastStruct == CHOOSE l \in DOMAIN Types : Types[l].k = "struct" /\ (l = Len(Types) \/ Types[l+1].k # "struct")
W == 64
VARIABLE t
Init == t \in 4..(3 + W)
Next == t + W <= LastStruct /\ t' = t + W
Spec == Init /\ [][Next]_t

Emb(u) == {i \in 1..Len(Types[u].f) : Considered(Types[u].f[i]) /\ Descends(Types[u].f[i], ParseTag(Types[u].f[i]))}
Fld(u) == {i \in 1..Len(Types[u].f) : Considered(Types[u].f[i]) /\ ~Descends(Types[u].f[i], ParseTag(Types[u].f[i]))}

(* all paths to struct types, no deeper than there are types on the way *)
RECURSIVE Paths(_, _, _)
Paths(u, idx, on) ==
  {<<u, idx>>} \cup UNION {LET v == Deref(Types[u].f[i].t) IN
      IF v \in on THEN {} ELSE Paths(v, Append(idx, i), on \cup {v}) : i \in Emb(u)}
AllPaths == Paths(t, <<>>, {t})
Cands == UNION {{LET f == Types[p[1]].f[i] pt == ParseTag(f) IN
                 [name |-> IF pt.name = <<>> THEN f.n ELSE pt.name, idx |-> Append(p[2], i), tagged |-> pt.name # <<>>]
                 : i \in Fld(p[1])} : p \in AllPaths}
Shallow(c) == \A d \in Cands : d.name = c.name => Len(c.idx) <= Len(d.idx)
Rivals(c) == {d \in Cands : d.name = c.name /\ d # c /\ Len(d.idx) = Len(c.idx)}
Promoted == {c \in Cands : Shallow(c) /\ \/ Rivals(c) = {}
                                         \/ c.tagged /\ \A d \in Rivals(c) : ~d.tagged}
Twice == \E p \in AllPaths, q \in AllPaths :
           p # q /\ p[1] = q[1] /\ Len(p[2]) = Len(q[2]) /\ Emb(p[1]) # {}

Found3 == {[name |-> FieldTab[t][i].name, idx |-> FieldTab[t][i].idx, tagged |-> FieldTab[t][i].tagged] : i \in 1..Len(FieldTab[t])}
Rule == Twice \/ Found3 = Promoted
(* whatever the program: names are unique, the order is that of declaration    *)
Once == \A i, j \in 1..Len(FieldTab[t]) : i < j =>
          FieldTab[t][i].name # FieldTab[t][j].name /\ IdxLess(FieldTab[t][i].idx, FieldTab[t][j].idx)
(* a field of the struct itself is never hidden by an embedded one             *)
OwnFirst == \A i \in Fld(t) :
   LET c == CHOOSE c \in Cands : c.idx = <<i>> IN
   (\A d \in Rivals(c) : FALSE) => c \in Found3
=============================================================================
