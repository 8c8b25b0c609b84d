-------------------------------- MODULE JCache --------------------------------
(* How the instructions of (mutually recursive) types are prepared and used by *)
(* calls that run at the same time, or one after another.                      *)
(*                                                                             *)
(* Types are 1..N; kids[t] are the types t refers to (through pointers, slices, *)
(* maps or fields), itself included: every graph is an initial state.  Call p   *)
(* encodes a value of type goal[p]: its instruction is looked up in the cache   *)
(* of top-level types (top, copied on write); if it is not there it is built.   *)
(* Building asks for the instruction of every kid.  A type that is being built  *)
(* by anyone is represented by a placeholder ("ph"), which waits, when it is    *)
(* run, until the instruction behind it is there.                              *)
(*                                                                             *)
(* One step is one operation on shared state.  Variant is "code" for what the   *)
(* package does; the others are mistakes that the properties must exclude       *)
(* (checked so that the model is known to be able to tell).                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS P, N, Depth, Variant
Procs == 1..P
Nodes == 1..N

VARIABLES kids, goal,   \* the program
          top, snap,    \* cache of top-level types, and what p read of it
          sh,           \* shared cache: "none", "ph", "fin"
          ins, done,    \* the instruction is there; its wait group is released
          refs,         \* what the instruction refers to for each kid
          pc, ask, st,  \* where p is; the type it asks for; types being built
          work, seen,   \* what is left to encode, and what has been encoded
          bad           \* a placeholder was run before its instruction was there
vars == <<kids, goal, top, snap, sh, ins, done, refs, pc, ask, st, work, seen, bad>>

Asc(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => s[i] < s[j]

(* what encoding a value of type t, d levels deep, comes down to *)
RECURSIVE Want(_, _)
RECURSIVE WantAll(_, _)
Want(t, d) == <<t>> \o (IF d = 0 THEN <<>> ELSE WantAll(kids[t], d - 1))
WantAll(ks, d) == IF ks = <<>> THEN <<>> ELSE Want(Head(ks), d) \o WantAll(Tail(ks), d)

Init ==
  /\ kids \in {[t \in Nodes |-> Asc(g[t])] : g \in [Nodes -> SUBSET Nodes]}
  /\ goal \in [Procs -> Nodes]
  /\ top = {} /\ snap = [p \in Procs |-> {}]
  /\ sh = [t \in Nodes |-> "none"]
  /\ ins = [t \in Nodes |-> FALSE] /\ done = [t \in Nodes |-> FALSE]
  /\ refs = [t \in Nodes |-> <<>>]
  /\ pc = [p \in Procs |-> "start"] /\ ask = [p \in Procs |-> 0]
  /\ st = [p \in Procs |-> <<>>]
  /\ work = [p \in Procs |-> <<>>] /\ seen = [p \in Procs |-> <<>>]
  /\ bad = FALSE

Entry(t, d, r) == [n |-> t, d |-> d, r |-> r]
RefIn(t) == IF sh[t] = "none" THEN "fin" ELSE sh[t]

Start(p) ==         \* atomic load of the top-level cache
  /\ pc[p] = "start"
  /\ IF goal[p] \in top
     THEN /\ pc' = [pc EXCEPT ![p] = "run"]
          /\ work' = [work EXCEPT ![p] = <<Entry(goal[p], Depth, "ph")>>]
          /\ UNCHANGED ask
     ELSE /\ pc' = [pc EXCEPT ![p] = "load"]
          /\ ask' = [ask EXCEPT ![p] = goal[p]]
          /\ UNCHANGED work
  /\ UNCHANGED <<kids, goal, top, snap, sh, ins, done, refs, st, seen, bad>>

(* where p goes on with the frames s *)
Go(p, s) ==
  IF s = <<>> THEN pc' = [pc EXCEPT ![p] = "snap"] /\ UNCHANGED ask
  ELSE LET f == s[Len(s)] IN
       IF Len(f.r) < Len(kids[f.n])
       THEN /\ pc' = [pc EXCEPT ![p] = "load"]
            /\ ask' = [ask EXCEPT ![p] = kids[f.n][Len(f.r) + 1]]
       ELSE /\ pc' = [pc EXCEPT ![p] = IF Variant = "doneearly" THEN "done" ELSE "set"]
            /\ UNCHANGED ask
(* p gets r as the instruction it asked for, with the frames s *)
Give(p, r, s) ==
  IF s = <<>>
  THEN /\ pc' = [pc EXCEPT ![p] = "snap"]
       /\ work' = [work EXCEPT ![p] = <<Entry(goal[p], Depth, r)>>]
       /\ st' = [st EXCEPT ![p] = <<>>] /\ UNCHANGED ask
  ELSE LET f == s[Len(s)] g == [f EXCEPT !.r = Append(@, r)]
           s2 == Append(SubSeq(s, 1, Len(s) - 1), g) IN
       st' = [st EXCEPT ![p] = s2] /\ Go(p, s2) /\ UNCHANGED work

Load(p) ==
  /\ pc[p] = "load"
  /\ IF sh[ask[p]] # "none"
     THEN /\ Variant = "waitatload" => done[ask[p]]
          /\ Give(p, sh[ask[p]], st[p])
     ELSE /\ pc' = [pc EXCEPT ![p] = "los"] /\ UNCHANGED <<ask, st, work>>
  /\ UNCHANGED <<kids, goal, top, snap, sh, ins, done, refs, seen, bad>>

LoadOrStore(p) ==
  /\ pc[p] = "los"
  /\ IF sh[ask[p]] # "none"
     THEN Give(p, sh[ask[p]], st[p]) /\ UNCHANGED sh
     ELSE /\ sh' = [sh EXCEPT ![ask[p]] = "ph"]
          /\ LET s == Append(st[p], [n |-> ask[p], r |-> <<>>]) IN
             st' = [st EXCEPT ![p] = s] /\ Go(p, s)
          /\ UNCHANGED work
  /\ UNCHANGED <<kids, goal, top, snap, ins, done, refs, seen, bad>>

Frame(p) == st[p][Len(st[p])]
SetIns(p) ==
  /\ pc[p] = "set"
  /\ ins' = [ins EXCEPT ![Frame(p).n] = TRUE]
  /\ refs' = [refs EXCEPT ![Frame(p).n] = Frame(p).r]
  /\ pc' = [pc EXCEPT ![p] = IF Variant = "doneearly" THEN "store" ELSE "done"]
  /\ UNCHANGED <<kids, goal, top, snap, sh, done, ask, st, work, seen, bad>>
Release(p) ==
  /\ pc[p] = "done"
  /\ done' = [done EXCEPT ![Frame(p).n] = TRUE]
  /\ pc' = [pc EXCEPT ![p] = IF Variant = "doneearly" THEN "set" ELSE "store"]
  /\ UNCHANGED <<kids, goal, top, snap, sh, ins, refs, ask, st, work, seen, bad>>
Store(p) ==
  /\ pc[p] = "store"
  /\ sh' = [sh EXCEPT ![Frame(p).n] = "fin"]
  /\ Give(p, "fin", SubSeq(st[p], 1, Len(st[p]) - 1))
  /\ UNCHANGED <<kids, goal, top, snap, ins, done, refs, seen, bad>>

Snap(p) ==          \* the cache is read, ...
  /\ pc[p] = "snap"
  /\ snap' = [snap EXCEPT ![p] = top]
  /\ pc' = [pc EXCEPT ![p] = "pub"]
  /\ UNCHANGED <<kids, goal, top, sh, ins, done, refs, ask, st, work, seen, bad>>
Publish(p) ==       \* ... copied, and replaced: the entry of another call may get lost
  /\ pc[p] = "pub"
  /\ top' = snap[p] \cup {goal[p]}
  /\ pc' = [pc EXCEPT ![p] = "run"]
  /\ UNCHANGED <<kids, goal, snap, sh, ins, done, refs, ask, st, work, seen, bad>>

(* one instruction runs.  A placeholder waits; a final instruction need not.   *)
Run(p) ==
  /\ pc[p] = "run"
  /\ IF work[p] = <<>>
     THEN pc' = [pc EXCEPT ![p] = "end"] /\ UNCHANGED <<work, seen, bad>>
     ELSE LET w == Head(work[p]) ks == kids[w.n] IN
          /\ w.r = "ph" /\ Variant # "nowait" => done[w.n]
          /\ bad' = (bad \/ ~ins[w.n])
          /\ seen' = [seen EXCEPT ![p] = Append(@, w.n)]
          /\ work' = [work EXCEPT ![p] =
               (IF w.d = 0 \/ ~ins[w.n] THEN <<>>
                ELSE [j \in 1..Len(ks) |-> Entry(ks[j], w.d - 1, refs[w.n][j])]) \o Tail(@)]
          /\ UNCHANGED pc
  /\ UNCHANGED <<kids, goal, top, snap, sh, ins, done, refs, ask, st>>

Step(p) == Start(p) \/ Load(p) \/ LoadOrStore(p) \/ SetIns(p) \/ Release(p) \/ Store(p)
           \/ Snap(p) \/ Publish(p) \/ Run(p)
AllEnd == \A p \in Procs : pc[p] = "end"
Next == (\E p \in Procs : Step(p)) \/ (AllEnd /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

(* ---- what must hold ---- *)
NeverHalfDone == ~bad
RightResults == \A p \in Procs : pc[p] = "end" => seen[p] = Want(goal[p], Depth)
OneBuilder == \A t \in Nodes : sh[t] = "ph" =>
  Cardinality({p \in Procs : \E i \in 1..Len(st[p]) : st[p][i].n = t}) = 1
FinalIsDone == \A t \in Nodes : sh[t] = "fin" => ins[t] /\ done[t]
TopIsBuilt == \A t \in top : sh[t] # "none"
(* once a type is prepared it stays so: the cache only grows *)
Grows == [][\A t \in Nodes : (sh[t] = "fin" => sh'[t] = "fin") /\ (ins[t] => ins'[t])]_vars
(* no call waits for ever (deadlock is checked besides) *)
Ends == <>AllEnd
=============================================================================
