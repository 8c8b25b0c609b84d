------------------------------ MODULE MC_Programs ------------------------------
(* Small programs of structs that embed each other: the table of their types,  *)
(* in the form of JTypes.  Type 1 is int, 2 an exported declared int, 3 an     *)
(* unexported one.  Three layers: structs of plain fields; structs that embed  *)
(* those (or themselves, by pointer); structs that embed these.  And structs   *)
(* that reach one struct by three and four ways.                               *)
EXTENDS MCPlan
CONSTANTS MidStep, TopStep        \* take every MidStep-th / TopStep-th

Seed == atoi(IOEnv.JT_SEED)
nA == <<65>>
nB == <<66>>
nC == <<67>>

(* items of a struct: plain fields and embedded types *)
Plain(n, tag) == [a |-> FALSE, n |-> n, x |-> TRUE, tag |-> tag, t |-> 1, p |-> FALSE, lo |-> FALSE]
Hidden(tag) == [a |-> FALSE, n |-> <<97>>, x |-> FALSE, tag |-> tag, t |-> 1, p |-> FALSE, lo |-> FALSE]
(* embeds type t (0: itself), by pointer if p, under a tag *)
Emb(t, p, tag) == [a |-> TRUE, n |-> <<>>, x |-> TRUE, tag |-> tag, t |-> t, p |-> p, lo |-> FALSE]

PlainItems == <<Plain(nA, <<>>), Plain(nB, <<>>), Plain(nC, nA), Plain(nB, <<45>>), Hidden(nA)>>
(* no two fields of one name *)
Name(i) == IF i.a THEN <<0, i.t>> ELSE i.n
OK(is) == \A i, j \in 1..Len(is) : i < j => Name(is[i]) # Name(is[j])
SeqsOf(s, n) ==      \* sequences of 1..n items of s, in a fixed order
  LET one == [i \in 1..Len(s) |-> <<s[i]>>]
      two == FlattenSeq([i \in 1..Len(s) |-> [j \in 1..Len(s) |-> <<s[i], s[j]>>]])
      three == FlattenSeq([i \in 1..Len(s) |-> FlattenSeq([j \in 1..Len(s) |-> [k \in 1..Len(s) |-> <<s[i], s[j], s[k]>>]])])
  IN SelectSeq(one \o (IF n >= 2 THEN two ELSE <<>>) \o (IF n >= 3 THEN three ELSE <<>>), OK)
EachNth(s, k) == SelectSeq([i \in 1..Len(s) |-> IF (i + Seed) % k = 0 THEN s[i] ELSE <<>>], LAMBDA x : x # <<>>)

(* layer 1: ids 4.. ; every second one has an unexported name *)
Leaf == SeqsOf(PlainItems, 2)
NLeaf == Len(Leaf)
LeafId(i) == 3 + i
(* layer 2 *)
MidItems ==
  <<Plain(nA, <<>>), Plain(nC, nA), Emb(0, TRUE, <<>>), Emb(2, FALSE, <<>>), Emb(3, FALSE, <<>>), Emb(2, TRUE, nA)>>
  \o FlattenSeq([i \in 1..5 |-> LET t == LeafId(<<1, 3, 6, 11, 12>>[i]) IN
        <<Emb(t, FALSE, <<>>), Emb(t, TRUE, <<>>)>> \o (IF i <= 2 THEN <<Emb(t, FALSE, nA)>> ELSE <<>>)])
Mid == EachNth(SeqsOf(MidItems, 3), MidStep)
NMid == Len(Mid)
MidId(i) == 3 + NLeaf + i
(* layer 3 *)
Second(k) ==
  LET few == [i \in 1..6 |-> Emb(MidId(((k * 7 + i * 13) % NMid) + 1), i % 3 = 0, IF i = 5 THEN nB ELSE <<>>)] IN
  <<Plain(nA, <<>>), Plain(nC, nA), Emb(0, TRUE, <<>>), Emb(LeafId(1), FALSE, <<>>), Emb(LeafId(3), TRUE, <<>>), Emb(LeafId(6), FALSE, <<>>)>> \o few
Top ==
  EachNth(SelectSeq(FlattenSeq([k \in 1..NMid |->
     LET s == Second(k) IN
     FlattenSeq([j \in 1..Len(s) |->
        <<<<Emb(MidId(k), FALSE, <<>>), s[j]>>, <<s[j], Emb(MidId(k), TRUE, <<>>)>>,
          <<s[j], Emb(MidId(k), FALSE, <<>>), s[((j + 3) % Len(s)) + 1]>>>>])]), OK), TopStep)
NTop == Len(Top)
(* layers of their own: one struct reached by three and four ways at a depth   *)
DupOf == <<1, 3, 6>>
NArm == 4
ArmId(l, j) == 3 + NLeaf + NMid + NTop + (l - 1) * NArm + j
Arms == FlattenSeq([l \in 1..Len(DupOf) |-> LET t == LeafId(DupOf[l]) IN
          <<<<Emb(t, FALSE, <<>>)>>, <<Emb(t, TRUE, <<>>)>>, <<Emb(t, FALSE, <<>>), Plain(<<88>>, <<>>)>>, <<Plain(<<88>>, <<>>), Emb(t, TRUE, <<>>)>>>>])
Ways == <<<<1, 2, 3>>, <<1, 2, 4>>, <<1, 3, 4>>, <<2, 3, 4>>, <<4, 3, 2, 1>>, <<1, 2, 3, 4>>>>
Dups == FlattenSeq([l \in 1..Len(DupOf) |-> FlattenSeq([w \in 1..Len(Ways) |->
          LET es(m) == [k \in 1..Len(Ways[w]) |-> Emb(ArmId(l, Ways[w][k]), (k + m) % 3 = 0, <<>>)] IN
          <<es(0), Append(es(1), Plain(<<89>>, <<>>)), Append(es(2), Emb(LeafId(DupOf[l]), w % 2 = 0, <<>>)), <<Emb(ArmId((l % 3) + 1, 1), FALSE, <<>>)>> \o es(1)>>])])
NDup == Len(Dups)
DupId(i) == ArmId(Len(DupOf), NArm) + i
Twos == FlattenSeq([i \in 1..(NDup \div 3) |-> LET a == DupId(i * 3) b == DupId(((i * 7) % NDup) + 1) IN
          IF a = b THEN <<>> ELSE <<<<Emb(a, FALSE, <<>>), Emb(b, i % 2 = 0, <<>>)>>, <<Plain(nB, <<>>), Emb(b, TRUE, <<>>), Emb(a, FALSE, <<>>)>>>>])
Structs == Leaf \o Mid \o Top \o Arms \o Dups \o Twos
NStruct == Len(Structs)
FirstPtr == 3 + NStruct

(* pointer types come last: type FirstPtr + i points to type i + 1 *)
PtrTo(t) == FirstPtr + t - 1
Lower(t) == t = 3 \/ (t > 3 /\ t % 2 = 0)
(* the name of type t, as bytes: letter and number *)
TName(t) == <<IF Lower(t) THEN 103 ELSE 71>> \o SmallDec(t)
Base(k, nm) == [k |-> k, n |-> nm, nm |-> FALSE, b |-> FALSE, e |-> 0, key |-> 0, len |-> 0, sp |-> "",
                ms |-> [C |-> FALSE, A |-> FALSE, J |-> FALSE, T |-> FALSE], mp |-> [C |-> FALSE, A |-> FALSE, J |-> FALSE, T |-> FALSE], f |-> <<>>]
FieldOf(self, i) ==
  LET t == IF i.t = 0 THEN self ELSE i.t IN
  [n |-> IF i.a THEN TName(t) ELSE i.n, x |-> IF i.a THEN ~Lower(t) ELSE i.x, a |-> i.a,
   t |-> IF i.p THEN PtrTo(t) ELSE t, tag |-> i.tag, u |-> TRUE]
StructType(id, is) == [Base("struct", "") EXCEPT !.nm = TRUE, !.f = [i \in 1..Len(is) |-> FieldOf(id, is[i])]]
Table ==
  <<Base("int", "int"), [Base("int", "G2") EXCEPT !.nm = TRUE], [Base("int", "g3") EXCEPT !.nm = TRUE]>>
  \o [i \in 1..NStruct |-> StructType(3 + i, Structs[i])]
  \o [i \in 1..(2 + NStruct) |-> [Base("ptr", "") EXCEPT !.e = i + 1]]

ASSUME /\ PrintT(<<"structs", NLeaf, NMid, NTop, Len(Arms), NDup, Len(Twos)>>)
       /\ JsonSerialize(IOEnv.JT_TYPES, Table)
=============================================================================
