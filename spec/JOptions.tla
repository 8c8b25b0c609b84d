------------------------------- MODULE JOptions -------------------------------
(* A call's list of options folded into the options in force.                 *)
(* list items: [n |-> name, i |-> index, l |-> list of names]                 *)
(*   TimeLayout i: index into the call's layouts ([k |-> nano/sec/other/empty]*)
(*   DurationFormat i: the format; WithContext i: 0 for nil, else the index   *)
(*   of the context; AllowList/DenyList l.  "nil" is a nil option.            *)
EXTENDS Integers, Sequences, SequencesExt

DefaultOpts ==
  [unix |-> FALSE, unsorted |-> FALSE, raw |-> FALSE, bas |-> FALSE, nilmap |-> FALSE,
   nilslice |-> FALSE, nostr |-> FALSE, nohtml |-> FALSE, noutf |-> FALSE,
   nocompact |-> FALSE, nonum |-> FALSE,
   layout |-> [k |-> "nano", i |-> 0], dfmt |-> 5, ctx |-> 1,
   allow |-> [on |-> FALSE, s |-> {}], deny |-> {}]

ToSetOf(l) == {l[i] : i \in 1..Len(l)}

ApplyOpt(o, it, layouts) ==
  CASE it.n = "UnixTime" -> [o EXCEPT !.unix = TRUE]
    [] it.n = "UnsortedMap" -> [o EXCEPT !.unsorted = TRUE]
    [] it.n = "RawByteSlice" -> [o EXCEPT !.raw = TRUE]
    [] it.n = "ByteArrayAsString" -> [o EXCEPT !.bas = TRUE]
    [] it.n = "NilMapEmpty" -> [o EXCEPT !.nilmap = TRUE]
    [] it.n = "NilSliceEmpty" -> [o EXCEPT !.nilslice = TRUE]
    [] it.n = "NoStringEscaping" -> [o EXCEPT !.nostr = TRUE]
    [] it.n = "NoHTMLEscaping" -> [o EXCEPT !.nohtml = TRUE]
    [] it.n = "NoUTF8Coercion" -> [o EXCEPT !.noutf = TRUE]
    [] it.n = "NoCompact" -> [o EXCEPT !.nocompact = TRUE]
    [] it.n = "NoNumberValidation" -> [o EXCEPT !.nonum = TRUE]
    [] it.n = "TimeLayout" -> [o EXCEPT !.layout = [k |-> layouts[it.i], i |-> it.i]]
    [] it.n = "DurationFormat" -> [o EXCEPT !.dfmt = it.i]
    [] it.n = "WithContext" -> [o EXCEPT !.ctx = it.i]
    [] it.n = "AllowList" -> [o EXCEPT !.allow = [on |-> TRUE, s |-> ToSetOf(it.l)]]
    [] it.n = "DenyList" -> [o EXCEPT !.deny = ToSetOf(it.l)]
    [] it.n = "nil" -> o

ApplyOpts(list, layouts) == FoldLeft(LAMBDA o, it : ApplyOpt(o, it, layouts), DefaultOpts, list)
ValidOpts(o) == o.ctx # 0 /\ o.layout.k # "empty" /\ o.dfmt \in 0..5
=============================================================================
