-------------------------------- MODULE JJudge --------------------------------
(* Whether a recorded event is one the specification allows: {}, or what is    *)
(* wrong with it.                                                             *)
EXTENDS JEncode, JOptions

Opts(ev) == ApplyOpts(ev.o, ev.ly)

(* Values too deep for the reader come as a list of nodes that refer to       *)
(* earlier nodes by index; z says in which member.                            *)
Built(nodes) ==
  FoldLeft(LAMBDA acc, n : Append(acc,
      CASE n.z = "" -> n
        [] n.z = "e1" -> [n EXCEPT !.e = acc[n.e]]
        [] n.z = "es" -> [n EXCEPT !.e = TLCEval([i \in 1..Len(n.e) |-> acc[n.e[i]]])]
        [] n.z = "fs" -> [n EXCEPT !.f = TLCEval([i \in 1..Len(n.f) |-> IF n.f[i] = 0 THEN 0 ELSE acc[n.f[i]]])]
        [] n.z = "kv" -> [n EXCEPT !.k = TLCEval([i \in 1..Len(n.k) |-> acc[n.k[i]]]),
                                   !.v = TLCEval([i \in 1..Len(n.v) |-> acc[n.v[i]]])]),
    <<>>, nodes)
ValueOf(ev) == IF ev.deep THEN Last(Built(ev.nodes)) ELSE ev.v

(* what the call must give *)
Expected(ev) ==
  LET o == Opts(ev) IN
  IF ~ValidOpts(o) THEN Err("option", "", "", "") ELSE EncIface(ValueOf(ev), o)

SameErr(allowed, e) ==
  \E a \in allowed :
    /\ a.k = e.k
    /\ a.k \in {"type", "marshal"} => a.t = e.t
    /\ a.k = "marshal" => a.m = e.m /\ a.x = e.x
    /\ a.k = "value" => a.x = e.x

(* strict: errors must be the documented ones *)
Accepts(x, g, strict) ==
  IF x.ok THEN g.ok /\ Matches(x.b, g.b)
  ELSE /\ ~g.ok /\ g.e.k # "panic"
       /\ strict => SameErr(x.e, g.e)

(* encoding/json writes U+0008 and U+000C as \b and \f, also inside of the     *)
(* JSON strings that the string tag option quotes.  Both forms are made one.  *)
UBackspace == <<BSL, 117, 48, 48, 48, 56>>
UFormFeed == <<BSL, 117, 48, 48, 48, 99>>
OneForm(s) ==
  IF ~\E i \in 1..(Len(s) - 5) : SubSeq(s, i, i + 4) = SubSeq(UBackspace, 1, 5) THEN s
  ELSE LET At(i, w) == i >= 1 /\ i + 5 <= Len(s) /\ SubSeq(s, i, i + 5) = w
           In(i, w) == \E j \in (i-5)..(i-2) : At(j, w)
       IN Concat([i \in 1..Len(s) |->
            IF In(i, UBackspace) \/ In(i, UFormFeed) THEN <<>>
            ELSE IF At(i - 1, UBackspace) THEN <<98>>
            ELSE IF At(i - 1, UFormFeed) THEN <<102>> ELSE <<s[i]>>])

Calibrated(x, std) ==
  /\ x.ok = std.ok
  /\ x.ok /\ (\A i \in 1..Len(x.b) : x.b[i] >= 0) => OneForm(x.b) = OneForm(std.b)

Bad(what, x) == {<<what, x>>}

(* the call gives what the specification says *)
JudgeEnc(ev, strict) ==
  LET x == Expected(ev) IN
  IF Accepts(x, ev.g, strict) THEN {} ELSE Bad("want", x)

(* ... and so does encoding/json *)
JudgeStd(ev) ==
  LET x == Expected(ev) IN
  IF ~Calibrated(x, ev.std) THEN Bad("calibrate", x)
  ELSE IF Accepts(x, ev.g, FALSE) THEN {} ELSE Bad("want", x)

(* the call fails exactly when it must, with one of the documented errors *)
JudgeFails(ev) ==
  LET x == Expected(ev) IN
  IF x.ok = ev.g.ok /\ (x.ok \/ SameErr(x.e, ev.g.e)) THEN {} ELSE Bad("want", x)

(* successful output is well formed *)
JudgeWF(ev) ==
  LET g == ev.g o == Opts(ev) IN
  IF ~g.ok THEN (IF g.e.k = "panic" THEN Bad("panic", g.e.x) ELSE {})
  ELSE (IF CompactJSON(g.b) THEN {} ELSE Bad("not one compact JSON text", 0))
       \cup (IF ValidUTF8(g.b) THEN {} ELSE Bad("not UTF-8", 0))
       \cup (IF o.nohtml \/ \A i \in 1..Len(g.b) : g.b[i] \notin {60, 62, 38} THEN {} ELSE Bad("HTML", 0))
       \cup (IF \A i \in 1..Len(g.b) : ~LineSepAt(g.b, i) THEN {} ELSE Bad("line separator", 0))

(* a string: written as the specification says, and so that it can be read back *)
JudgeStr(ev) ==
  LET r == JudgeEnc(ev, FALSE) IN
  IF r # {} THEN r
  ELSE IF FaithfulString(ev.g.b, ev.s, Opts(ev)) THEN {} ELSE Bad("not faithful", 0)

(* Append beside Marshal.  ev.g: Marshal's result, ev.a: Append's; ev.pre and *)
(* ev.after: the bytes of dst before and after.                               *)
SameText(x, b, c) ==
  IF x.ok /\ \E i \in 1..Len(x.b) : x.b[i] < 0
  THEN Matches(x.b, b) = Matches(x.b, c)
  ELSE b = c
JudgeAppend(ev) ==
  LET g == ev.g a == ev.a n == Len(ev.pre) IN
  IF ev.after # ev.pre THEN Bad("dst changed", 0)
  ELSE IF "panic" \in {g.e.k, a.e.k} THEN Bad("panic", 0)
  ELSE IF g.ok # a.ok THEN Bad("only one of Marshal and Append fails", 0)
  ELSE IF ~g.ok THEN (IF g.b = <<>> THEN {} ELSE Bad("bytes with an error", 0))
  ELSE IF Len(a.b) < n \/ SubSeq(a.b, 1, n) # ev.pre THEN Bad("dst is no prefix", 0)
  ELSE IF ~SameText(Expected(ev), g.b, SubSeq(a.b, n + 1, Len(a.b)))
  THEN Bad("Append and Marshal differ", 0) ELSE {}

(* options: as Append, and what is written and which options are refused *)
JudgeOpts(ev) ==
  LET o == Opts(ev) IN
  IF ~ValidOpts(o)
  THEN IF /\ ~ev.g.ok /\ ~ev.a.ok /\ ev.g.b = <<>> /\ ev.after = ev.pre
          /\ ev.g.e.k = "option" /\ ev.a.e.k = "option"
       THEN {} ELSE Bad("want", Expected(ev))
  ELSE LET r == JudgeAppend(ev) IN
       IF r # {} THEN r
       ELSE IF ev.g.e.k = "option" \/ ev.a.e.k = "option" THEN Bad("option refused", 0)
       ELSE JudgeEnc(ev, FALSE)

(* the same value in other places: ev.w[i] is a value that holds it, p and s  *)
(* are the bytes before and after it                                          *)
JudgePos(ev) ==
  LET g == ev.g IN
  IF g.e.k = "panic" THEN Bad("panic", g.e.x)
  ELSE UNION {LET w == ev.w[i] IN
         IF w.g.ok = g.ok /\ w.g.e.k # "panic"
            /\ (g.ok => Len(w.g.b) >= Len(w.p) + Len(w.s)
                      /\ SubSeq(w.g.b, 1, Len(w.p)) = w.p
                      /\ SubSeq(w.g.b, Len(w.g.b) - Len(w.s) + 1, Len(w.g.b)) = w.s
                      /\ SameText(Expected(ev), g.b, SubSeq(w.g.b, Len(w.p) + 1, Len(w.g.b) - Len(w.s))))
         THEN {} ELSE Bad("position " \o w.n, w.g.b) : i \in 1..Len(ev.w)}

(* one call made in different histories, or at the same time as others: it     *)
(* gives the same every time; what it returned was not touched afterwards,     *)
(* and the value was left alone.  Which of several errors a map with several   *)
(* entries gives is open (ev.exact is FALSE then).                            *)
SameResult(a, b, exact) ==
  /\ a.ok = b.ok
  /\ a.b = b.b
  /\ exact => a.k = b.k /\ a.t = b.t /\ a.m = b.m /\ a.x = b.x
JudgeHist(ev) ==
  LET D == {i \in 2..Len(ev.rs) : ~SameResult(ev.rs[1], ev.rs[i], ev.exact)} IN
  (IF D = {} THEN {}
   ELSE Bad("the results differ", <<ev.rs[1], ev.rs[CHOOSE i \in D : \A j \in D : i <= j]>>))
  \cup (IF FALSE \in ToSetOf(ev.kept) THEN Bad("a returned slice changed", 0) ELSE {})
  \cup (IF FALSE \in ToSetOf(ev.pure) THEN Bad("the value changed", 0) ELSE {})

(* many calls with the same options: ev.vs the values, ev.gs the results *)
JudgeMany(ev) ==
  LET o == Opts(ev)
      D == {i \in 1..Len(ev.vs) : ~Accepts(EncIface(ev.vs[i], o), ev.gs[i], ev.strict)}
  IN IF D = {} THEN {}
     ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN
          {<<"call " \o ToString(i) \o " gives", ev.gs[i]>>} \cup Bad("want", EncIface(ev.vs[i], o))

(* a sync.Map that is changed while it is encoded.  ev.es: its entries, each   *)
(* with the values it may have (given as maps of that entry alone); those that *)
(* are there all the time (must) are written, the others may be; none twice;   *)
(* sorted by key unless the order is left open.                                *)
EntryTexts(e, o) == {LET x == EncIface(e.vs[j], o) IN SubSeq(x.b, 2, Len(x.b) - 1) : j \in 1..Len(e.vs)}
TextAt(b, p, t) == p + Len(t) - 1 <= Len(b) /\ SubSeq(b, p, p + Len(t) - 1) = t
(* the entries of which texts T are written in b from p to the end, in order; <<0>> if there is anything else *)
RECURSIVE Written(_, _, _)
Written(b, p, T) ==
  LET C == {<<i, t>> \in UNION {{i} \X T[i] : i \in DOMAIN T} :
              TextAt(b, p, t) /\ (p + Len(t) = Len(b) + 1 \/ (p + Len(t) < Len(b) /\ b[p + Len(t)] = 44))}
  IN IF C = {} THEN <<0>>
     ELSE LET c == CHOOSE c \in C : \A d \in C : Len(c[2]) >= Len(d[2]) q == p + Len(c[2]) IN
          <<c[1]>> \o (IF q > Len(b) THEN <<>> ELSE Written(b, q + 1, T))
MutOK(g, ev, T, first, o) ==
  LET n == Len(g.b) lo == Len(ev.pre) + 1 hi == n - Len(ev.suf) IN
  /\ g.ok /\ hi > lo /\ g.b[lo] = 123 /\ g.b[hi] = 125
  /\ SubSeq(g.b, 1, lo - 1) = ev.pre /\ SubSeq(g.b, hi + 1, n) = ev.suf
  /\ LET b == SubSeq(g.b, lo + 1, hi - 1)
         w == IF b = <<>> THEN <<>> ELSE Written(b, 1, T)
         W == ToSetOf(w)
     IN /\ 0 \notin W /\ Cardinality(W) = Len(w)
        /\ \A i \in DOMAIN T : ev.es[i].must => i \in W
        /\ o.unsorted \/ \A k \in 2..Len(w) : BytesLess(first[w[k-1]], first[w[k]])
JudgeMut(ev) ==
  LET o == Opts(ev)
      T == [i \in 1..Len(ev.es) |-> EntryTexts(ev.es[i], o)]
      first == [i \in DOMAIN T |-> CHOOSE t \in T[i] : TRUE]
      D == {i \in 1..Len(ev.gs) : ~MutOK(ev.gs[i], ev, T, first, o)}
  IN IF D = {} THEN {} ELSE {<<"a map that is changed gives", ev.gs[CHOOSE i \in D : TRUE]>>}

(* n repetitions.  The values of one and of two give A U M W B and            *)
(* A U U M W W B (A has ev.la bytes, W ev.lw, B ev.lb), so that of n must give *)
(* A U^n M W^n B.  What it gave comes as ev.p1 ev.p2^k ev.p3 ev.p4^j ev.p5.    *)
Pumped(x1, x2, la, lw, lb) ==
  LET n1 == Len(x1) lu == Len(x2) - n1 - lw
      A == SubSeq(x1, 1, la) U == SubSeq(x1, la + 1, la + lu)
      M == SubSeq(x1, la + lu + 1, n1 - lb - lw)
      W == SubSeq(x1, n1 - lb - lw + 1, n1 - lb) B == SubSeq(x1, n1 - lb + 1, n1)
  IN [ok |-> lu >= 0 /\ la + lu + lw + lb <= n1 /\ x2 = A \o U \o U \o M \o W \o W \o B,
      A |-> A, U |-> U, M |-> M, W |-> W, B |-> B]
JudgeHuge(ev) ==
  LET o == Opts(ev) x1 == EncIface(ev.vs[1], o) x2 == EncIface(ev.vs[2], o) IN
  IF x1.ok # x2.ok THEN Bad("calibrate", <<x1, x2>>)
  ELSE IF ~Accepts(x1, [ev.gs[1] EXCEPT !.b = SubSeq(@, Len(ev.pre) + 1, Len(@))], TRUE) THEN {<<"one gives", ev.gs[1]>>} \cup Bad("want", x1)
  ELSE IF ~Accepts(x2, [ev.gs[2] EXCEPT !.b = SubSeq(@, Len(ev.pre) + 1, Len(@))], TRUE) THEN {<<"two give", ev.gs[2]>>} \cup Bad("want", x2)
  ELSE IF ~x1.ok THEN (IF Accepts(x1, ev.g, TRUE) THEN {} ELSE Bad("want of any number", x1))
  ELSE LET P == Pumped(ev.pre \o x1.b, ev.pre \o x2.b, ev.la, ev.lw, ev.lb) IN
       IF ~P.ok THEN Bad("calibrate", <<x1, x2>>)
       ELSE IF /\ ev.g.ok
               /\ IF P.U = <<>> THEN ev.p3 = ev.pre \o x1.b
                  ELSE /\ ev.p1 = P.A /\ ev.p2 = P.U /\ ev.k = ev.n /\ ev.p3 = P.M /\ ev.p5 = P.B
                       /\ ev.lw = 0 \/ (ev.p4 = P.W /\ ev.j = ev.n)
       THEN {} ELSE Bad("want repeated", P)

(* how often methods were called: ev.cs[i] says that the one that gives the text t was called n times; *)
(* it is to be called once for each place where its text is written                                   *)
JudgeCount(ev) ==
  LET b == ev.g.b
      Times(t) == Cardinality({p \in 1..(Len(b) - Len(t) + 1) : b[p] = t[1] /\ TextAt(b, p, t)})
      D == {i \in 1..Len(ev.cs) : ev.cs[i].n # Times(ev.cs[i].t)}
  IN IF ~ev.g.ok THEN Bad("want no error", ev.g.e)
     ELSE IF D = {} THEN {} ELSE {<<"calls of a method", ev.cs[CHOOSE i \in D : TRUE]>>}

Judge(ev) ==
  CASE ev.kind = "enc" -> JudgeEnc(ev, FALSE)
    [] ev.kind = "strict" -> JudgeEnc(ev, TRUE)
    [] ev.kind = "std" -> JudgeStd(ev)
    [] ev.kind = "fails" -> JudgeFails(ev)
    [] ev.kind = "wf" -> JudgeWF(ev)
    [] ev.kind = "str" -> JudgeStr(ev)
    [] ev.kind = "append" -> JudgeAppend(ev)
    [] ev.kind = "appendenc" -> LET r == JudgeAppend(ev) IN IF r # {} THEN r ELSE JudgeEnc(ev, FALSE)
    [] ev.kind = "opts" -> JudgeOpts(ev)
    [] ev.kind = "pos" -> JudgePos(ev)
    [] ev.kind = "hist" -> JudgeHist(ev)
    [] ev.kind = "many" -> JudgeMany(ev)
    [] ev.kind = "huge" -> JudgeHuge(ev)
    [] ev.kind = "count" -> JudgeCount(ev)
    [] ev.kind = "mut" -> JudgeMut(ev)
=============================================================================
