-------------------------------- MODULE MC_Tags --------------------------------
(* All tags made of up to MaxLen of the pieces.  A reader that goes over the   *)
(* tag once, byte by byte, finds the same name and options as ParseTag, which  *)
(* splits it at the commas; and "-" alone, but not "-,", hides the field.      *)
EXTENDS JTags, MCPlan
CONSTANTS MaxLen, PlanLen

B(s) == [b |-> s, u |-> TRUE]
Pieces == {B(<<COMMA>>), B(TagOmitEmpty), B(TagOmitNil), B(TagString), B(DASH), B(<<32>>),
           B(<<97>>),             \* a
           B(<<79, 109>>),        \* Om
           B(<<66, 48, 95>>),     \* B0_
           B(<<60>>), B(<<38>>),  \* < &
           B(<<QUOTE>>), B(<<BSL>>), B(<<39>>),
           B(<<59, 47>>), B(<<36, 64, 46, 58>>), \* ;/ $@.:
           B(<<195, 169>>),       \* a letter
           [b |-> <<226, 130, 172>>, u |-> FALSE], \* no letter
           [b |-> <<226, 128, 168>>, u |-> FALSE], \* U+2028
           B(<<217, 163>>)}       \* a digit

(* one or two runes of each general category: names have letters and decimal   *)
(* digits                                                                     *)
R(cat, b) == [b |-> b, u |-> cat \in {"Lu", "Ll", "Lt", "Lm", "Lo", "Nd"}]
RunePieces == {
  R("Lu", <<195, 137>>), R("Ll", <<195, 169>>), R("Ll", <<195, 159>>), R("Lt", <<199, 133>>), R("Lm", <<202, 176>>),
  R("Lo", <<230, 151, 165>>), R("Lo", <<194, 170>>), R("Nd", <<217, 163>>), R("Nd", <<239, 188, 145>>), R("Nl", <<226, 133, 168>>),
  R("No", <<194, 189>>), R("No", <<194, 178>>), R("Mn", <<204, 129>>), R("Mc", <<224, 164, 131>>), R("Me", <<226, 131, 157>>),
  R("Pc", <<226, 128, 191>>), R("Pd", <<226, 128, 144>>), R("Ps", <<227, 128, 140>>), R("Pi", <<194, 171>>), R("Pf", <<226, 128, 153>>),
  R("Po", <<194, 183>>), R("Sm", <<194, 177>>), R("Sc", <<226, 130, 172>>), R("Sk", <<194, 168>>), R("So", <<194, 169>>),
  R("Zs", <<194, 160>>), R("Zs", <<227, 128, 128>>), R("Zl", <<226, 128, 168>>), R("Zp", <<226, 128, 169>>), R("Cc", <<194, 133>>),
  R("Cf", <<194, 173>>), R("Co", <<238, 128, 128>>), R("Cn", <<205, 184>>), R("So", <<239, 191, 189>>), R("Lo", <<240, 160, 128, 128>>),
  R("So", <<240, 159, 152, 128>>), R("Lu", <<240, 157, 144, 128>>), R("Nd", <<240, 157, 159, 142>>), R("No", <<240, 159, 132, 128>>),
  [b |-> <<255>>, u |-> FALSE], [b |-> <<195>>, u |-> FALSE], [b |-> <<237, 160, 128>>, u |-> FALSE]}
RuneTags == {r \o s : r \in {q.b : q \in RunePieces}, s \in {<<>>, <<120>>, <<COMMA>> \o TagOmitEmpty}}
            \cup {<<120>> \o r.b : r \in RunePieces} \cup {r.b \o q.b : r \in RunePieces, q \in RunePieces}

(* what is nearly an option *)
Up(w) == [k \in 1..Len(w) |-> w[k] - 32]
Near(w) == {w, Up(w), <<w[1] - 32>> \o Tail(w), Front(w) \o <<w[Len(w)] - 32>>, Append(w, 32), <<32>> \o w, Append(w, 115), Front(w), Tail(w),
            Append(w, 61) \o <<49>>, <<33>> \o w, Append(w, 0), w \o w, <<39>> \o w \o <<39>>, <<9>> \o w}
NearTags == {n \o <<COMMA>> \o w \o e : n \in {<<>>, <<97>>}, w \in Near(TagOmitEmpty) \cup Near(TagOmitNil) \cup Near(TagString),
                                        e \in {<<>>, <<COMMA>> \o TagString, <<COMMA>> \o TagOmitEmpty}}
VARIABLES ps, i, name, inName, cur, found
vars == <<ps, i, name, inName, cur, found>>
Init == ps = <<>> /\ i = 0 /\ name = <<>> /\ inName = TRUE /\ cur = <<>> /\ found = {}

Add == i = 0 /\ Len(ps) < MaxLen /\ \E p \in Pieces \cup (IF Len(ps) < 2 THEN RunePieces ELSE {}) : ps' = Append(ps, p) /\ UNCHANGED <<i, name, inName, cur, found>>
Tag == Concat([k \in 1..Len(ps) |-> ps[k].b])
Read ==
  /\ i < Len(Tag)
  /\ i' = i + 1 /\ UNCHANGED ps
  /\ LET c == Tag[i + 1] IN
     IF inName THEN /\ UNCHANGED <<cur, found>>
                    /\ IF c = COMMA THEN inName' = FALSE /\ name' = name
                       ELSE inName' = TRUE /\ name' = Append(name, c)
     ELSE /\ UNCHANGED <<name, inName>>
          /\ IF c = COMMA THEN cur' = <<>> /\ found' = found \cup {cur}
             ELSE cur' = Append(cur, c) /\ found' = found
Next == Add \/ Read
Spec == Init /\ [][Next]_vars

(* the non-ASCII runes of the name: those of the pieces before the first comma *)
NameOK == LET C == {k \in 1..Len(ps) : ps[k].b = <<COMMA>>}
              n == IF C = {} THEN Len(ps) ELSE (CHOOSE k \in C : \A l \in C : k <= l) - 1
          IN \A k \in 1..n : ps[k].u
Field == [tag |-> Tag, u |-> NameOK]
SameReading ==
  i = Len(Tag) =>
    LET p == ParseTag(Field) os == found \cup (IF inName THEN {} ELSE {cur}) IN
    /\ p.name # <<>> => p.name = name
    /\ p.name = <<>> <=> (name = <<>> \/ ~NameOK \/ \E k \in 1..Len(name) : name[k] \in {QUOTE, BSL, 39})
    /\ p.oe = (TagOmitEmpty \in os) /\ p.on = (TagOmitNil \in os) /\ p.q = (TagString \in os)

Plan == LET bs == Batches(SetToSeq({Concat([k \in 1..Len(s) |-> s[k].b]) : s \in AllSeqs(Pieces, PlanLen)} \cup RuneTags \cup NearTags), 8)
        IN [k \in 1..Len(bs) |-> [z |-> "tags", s |-> bs[k]]]
ASSUME WritesPlan(Plan)
=============================================================================
