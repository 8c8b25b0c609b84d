------------------------------- MODULE MC_Options -------------------------------
(* Option lists up to MaxLen: the last option of a kind wins, options of        *)
(* different kinds do not disturb each other, and a list is refused exactly    *)
(* when what it comes down to is not valid.                                    *)
EXTENDS JOptions, MCPlan
CONSTANTS MaxLen, PlanLen

Layouts == <<"nano", "sec", "other", "empty">>
A == <<65>>
B == <<66>>
It(n, i, l) == [n |-> n, i |-> i, l |-> l]
Flags == {"UnixTime", "UnsortedMap", "RawByteSlice", "ByteArrayAsString", "NilMapEmpty", "NilSliceEmpty",
          "NoStringEscaping", "NoHTMLEscaping", "NoUTF8Coercion", "NoCompact", "NoNumberValidation"}
Items == {It(f, 0, <<>>) : f \in Flags \cup {"nil"}}
  \cup {It("TimeLayout", i, <<>>) : i \in 1..4}
  \cup {It("DurationFormat", i, <<>>) : i \in {-1, 0, 2, 5, 6}}
  \cup {It("WithContext", i, <<>>) : i \in 0..2}
  \cup {It(n, 0, l) : n \in {"AllowList", "DenyList"}, l \in {<<>>, <<A>>, <<B, A>>, <<B>>}}

VARIABLE l
Init == l = <<>>
Next == Len(l) < MaxLen /\ \E i \in Items : l' = Append(l, i)
Spec == Init /\ [][Next]_l

Ap(ls) == ApplyOpts(ls, Layouts)
(* the last item of a kind is the one that counts, wherever it stands *)
LastOf(n) == LET I == {i \in 1..Len(l) : l[i].n = n} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i >= j
Effective == SelectSeq([i \in 1..Len(l) |-> IF LastOf(l[i].n) = i THEN l[i] ELSE It("nil", 0, <<>>)], LAMBDA x : x.n # "nil")
LastWins == Ap(l) = Ap(Effective)
(* the order of the different kinds does not matter *)
AnyOrder == Ap(Effective) = Ap(Reverse(Effective))
(* every option sets its own component, and no other *)
Has(n) == LastOf(n) > 0
Own == LET o == Ap(l) d == DefaultOpts IN
  /\ o.unix = Has("UnixTime") /\ o.unsorted = Has("UnsortedMap") /\ o.raw = Has("RawByteSlice")
  /\ o.bas = Has("ByteArrayAsString") /\ o.nilmap = Has("NilMapEmpty") /\ o.nilslice = Has("NilSliceEmpty")
  /\ o.nostr = Has("NoStringEscaping") /\ o.nohtml = Has("NoHTMLEscaping") /\ o.noutf = Has("NoUTF8Coercion")
  /\ o.nocompact = Has("NoCompact") /\ o.nonum = Has("NoNumberValidation")
  /\ ~Has("TimeLayout") => o.layout = d.layout
  /\ ~Has("DurationFormat") => o.dfmt = d.dfmt
  /\ ~Has("WithContext") => o.ctx = d.ctx
  /\ o.allow.on = Has("AllowList")
  /\ ~Has("DenyList") => o.deny = {}
Refused == ~ValidOpts(Ap(l)) <=>
  \/ LastOf("TimeLayout") > 0 /\ l[LastOf("TimeLayout")].i = 4
  \/ LastOf("DurationFormat") > 0 /\ l[LastOf("DurationFormat")].i \in {-1, 6}
  \/ LastOf("WithContext") > 0 /\ l[LastOf("WithContext")].i = 0

Plan == LET ls == Batches(SetToSeq(AllSeqs(Items, PlanLen)), 10)
        IN [i \in 1..Len(ls) |-> [z |-> "options", s |-> ls[i]]]
ASSUME WritesPlan(Plan)
=============================================================================
