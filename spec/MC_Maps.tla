-------------------------------- MODULE MC_Maps --------------------------------
(* Maps whose entries arrive in any order, keys with the same text among them.  *)
(* The entries are put in order by the bytes of their key texts (By = "text");  *)
(* wrong are the orders of the escaped texts and of the written members.        *)
EXTENDS JEncode, JOptions, MCPlan, FiniteSetsExt
CONSTANTS MaxSize, PlanSize, By

(* texts that are prefixes of each other, and whose order changes when they are *)
(* escaped or followed by a quote                                             *)
Texts == <<
  <<>>, <<97>>, <<97, 32>>, <<97, 33>>, <<97, QUOTE>>, <<97, 97>>, <<98>>, <<60>>, <<BSL>>, <<10>>, <<127>>,
  <<195, 169>>, <<255>>, <<226, 128, 168>>, <<49, 48>>, <<50>> >>
(* keys: a text, and which of the keys with that text it is *)
Keys == {<<i, 1>> : i \in 1..Len(Texts)} \cup {<<2, 2>>, <<13, 2>>}
Text(k) == Texts[k[1]]
Val(k) == <<49 + (k[1] % 9), 48 + k[2]>>

VARIABLES m, got, un, out
vars == <<m, got, un, out>>
Init == m \in UNION {kSubset(n, Keys) : n \in 0..MaxSize} /\ got = <<>> /\ un \in BOOLEAN /\ out = <<>>
O == [DefaultOpts EXCEPT !.unsorted = un]

Arrived == ToSetOf(got)
Member(k) == StrText(Text(k), O) \o <<58>> \o Val(k)
SortKey(k) == CASE By = "text" -> Text(k) [] By = "escaped" -> StrText(Text(k), O) [] By = "member" -> Member(k)
(* the place of a new entry among those in order: behind all that are not above it *)
Place(k) == LET I == {i \in 1..Len(got) : BytesLess(SortKey(k), SortKey(got[i]))}
            IN IF un \/ I = {} THEN Len(got) ELSE (CHOOSE i \in I : \A j \in I : i <= j) - 1
Arrive == \E k \in m \ Arrived : got' = SubSeq(got, 1, Place(k)) \o <<k>> \o SubSeq(got, Place(k) + 1, Len(got)) /\ UNCHANGED <<m, un, out>>
Write == /\ Arrived = m /\ out = <<>>
         /\ out' = <<123>> \o Join([i \in 1..Len(got) |-> Member(got[i])], COMMA) \o <<125>>
         /\ UNCHANGED <<m, got, un>>
Next == Arrive \/ Write
Spec == Init /\ [][Next]_vars

Order == SetToSeq(m)
Want == MapObject([i \in 1..Len(Order) |-> Ok(Text(Order[i]))], [i \in 1..Len(Order) |-> Ok(Val(Order[i]))], O)
Right == out # <<>> => Want.ok /\ Matches(Want.b, out)
(* read as JSON, it is one object *)
Reads == out # <<>> => CompactJSON(out)
(* no other order is right: the members exchanged do not match *)
Strict == (out # <<>> /\ ~un) =>
  \A i \in 1..(Len(got) - 1) : Text(got[i]) # Text(got[i+1]) =>
     LET sw == [got EXCEPT ![i] = got[i+1], ![i+1] = got[i]] IN
     ~Matches(Want.b, <<123>> \o Join([j \in 1..Len(sw) |-> Member(sw[j])], COMMA) \o <<125>>)

Plan == LET ss == SetToSeq(UNION {kSubset(n, {k \in Keys : k[2] = 1}) : n \in 0..PlanSize})
        IN [i \in 1..Len(ss) |-> [z |-> "maps", s |-> [j \in 1..Cardinality(ss[i]) |-> Text(SetToSeq(ss[i])[j])]]]
ASSUME WritesPlan(Plan)
=============================================================================
