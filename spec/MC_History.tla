------------------------------ MODULE MC_History ------------------------------
(* Histories of one process.  The calls of a history share what is remembered  *)
(* of types and what is kept of scratch memory; what a call gives must be what *)
(* it gives as the first call of a fresh process, whatever came before: calls  *)
(* that succeeded, that failed, that panicked half-way, of the same type in    *)
(* another place, of another type of the same name, with other options.        *)
(*                                                                            *)
(* A call, as far as this matters: the types it meets, each addressable or     *)
(* not (ts), how many buffers it has in use at once (need), how it ends (end), *)
(* how much it leaves in its buffers (len), its options (os).                  *)
(* Design: "good", or what must not be: what is remembered of a type is found  *)
(* by its name ("name"), for both kinds of place ("addr"); buffers are not     *)
(* emptied ("dirty"); options are kept ("opts"); a call that panics puts its   *)
(* buffers back while they are in use elsewhere ("panic").                     *)
EXTENDS MCPlan
CONSTANTS MaxLen, PlanLen, Calls, Design

T(n, name, addr) == [n |-> n, name |-> name, addr |-> addr]
(* types: 1 fS, 2 fA, 3 fB, 4 5 6 7 of one name, 8 lists; the calls are those   *)
(* of the harness (fresh.go), in their order                                   *)
S(a) == T(1, 1, a)
Call(c) ==
  LET C(ts, need, end, len, os) == [ts |-> ts, need |-> need, end |-> end, len |-> len, os |-> os] IN
  CASE c = 1 -> C({S(FALSE), S(TRUE)}, 1, "ok", 1, 0)
    [] c = 2 -> C({S(TRUE)}, 1, "ok", 1, 0)
    [] c = 3 -> C({S(FALSE), S(TRUE)}, 2, "ok", 1, 0)
    [] c = 4 -> C({T(2, 2, FALSE), T(3, 3, TRUE), S(FALSE), S(TRUE)}, 2, "ok", 1, 0)
    [] c = 5 -> C({T(3, 3, TRUE), T(2, 2, FALSE), S(FALSE), S(TRUE)}, 2, "ok", 1, 0)
    [] c = 6 -> C({S(FALSE), S(TRUE)}, 1, "ok", 1, 0)
    [] c = 7 -> C({T(4, 4, FALSE)}, 0, "ok", 1, 0)
    [] c = 8 -> C({T(5, 4, TRUE)}, 1, "ok", 1, 0)
    [] c = 9 -> C({T(6, 4, FALSE), T(7, 4, FALSE)}, 1, "ok", 1, 0)
    [] c = 10 -> C({S(FALSE), S(TRUE)}, 2, "fail", 2, 0)
    [] c = 11 -> C({}, 2, "panic", 1, 0)
    [] c = 12 -> C({}, 2, "ok", 1, 0)
    [] c = 13 -> C({}, 1, "ok", 1, 0)
    [] c = 14 -> C({}, 2, "ok", 1, 0)
    [] c = 15 -> C({S(FALSE), S(TRUE)}, 1, "ok", 1, 1)
    [] c = 16 -> C({S(TRUE)}, 1, "ok", 1, 2)
    [] c = 17 -> C({}, 1, "ok", 1, 3)
    [] c = 18 -> C({}, 0, "ok", 2, 0)
    [] c = 19 -> C({S(TRUE)}, 1, "ok", 1, 0)
    [] c = 20 -> C({T(8, 8, TRUE)}, 1, "fail", 2, 0)
    [] c = 21 -> C({T(8, 8, TRUE)}, 0, "ok", 2, 0)
    [] c = 22 -> C({}, 1, "panic", 1, 0)
    [] c = 23 -> C({}, 0, "fail", 1, 0)
    [] OTHER -> C({}, 0, "ok", 1, 4)

VARIABLES hist,  \* the calls made
          gave,  \* what they gave
          memo,  \* what is remembered: key -> type
          pool,  \* what the buffers at rest hold: sequence of lengths
          opts   \* options left over
vars == <<hist, gave, memo, pool, opts>>

Key(t) == CASE Design = "name" -> <<t.name, t.addr>>
            [] Design = "addr" -> <<t.n>>
            [] OTHER -> <<t.n, t.addr>>
(* the types in the order in which the call meets them *)
Memo(m, ts) == LET new == {t \in ts : Key(t) \notin DOMAIN m} IN
  [k \in DOMAIN m \cup {Key(t) : t \in new} |-> IF k \in DOMAIN m THEN m[k] ELSE CHOOSE t \in new : Key(t) = k]
Gives(c, m, p, o) ==
  LET m2 == Memo(m, c.ts) n == Min2(c.need, Len(p)) IN
  [types |-> {<<t, m2[Key(t)]>> : t \in c.ts},
   junk |-> IF Design \in {"dirty", "panic"} THEN [k \in 1..n |-> p[k]] ELSE <<>>,
   os |-> IF Design = "opts" /\ c.os = 0 THEN o ELSE c.os]
(* alone: with nothing remembered, and no buffers *)
Alone(c) == Gives(c, [k \in {} |-> {}], <<>>, 0)

Init == hist = <<>> /\ gave = <<>> /\ memo = [k \in {} |-> {}] /\ pool = <<>> /\ opts = 0
Do(i) ==
  LET c == Call(i) n == Min2(c.need, Len(pool)) IN
  /\ Len(hist) < MaxLen
  /\ hist' = Append(hist, i)
  /\ gave' = Append(gave, Gives(c, memo, pool, opts))
  /\ memo' = Memo(memo, c.ts)
  /\ pool' = SubSeq(pool, n + 1, Len(pool)) \o
             (CASE c.end # "panic" -> [k \in 1..c.need |-> IF Design = "dirty" THEN c.len ELSE 0]
                [] Design = "panic" -> [k \in 1..c.need |-> c.len]
                [] OTHER -> <<>>)
  /\ opts' = c.os
Next == \E i \in 1..Calls : Do(i)
Spec == Init /\ [][Next]_vars

Independent == \A k \in 1..Len(hist) :
  LET g == gave[k] a == Alone(Call(hist[k])) IN
  g.types = a.types /\ g.os = a.os /\ (\A i \in 1..Len(g.junk) : g.junk[i] = 0)

Hists == SetToSeq(UNION {[1..n -> 1..Calls] : n \in 2..PlanLen})
Plan == LET bs == Batches(Hists, 40) IN [k \in 1..Len(bs) |-> [z |-> "fresh", s |-> bs[k]]]
ASSUME WritesPlan(Plan)
=============================================================================
