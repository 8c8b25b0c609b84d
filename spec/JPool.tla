-------------------------------- MODULE JPool ---------------------------------
(* Scratch buffers that calls share through a pool, and the results that the   *)
(* callers keep.  A call takes a buffer, writes its text to it (in two steps),  *)
(* while doing so takes a second buffer for the entries of a map if it has one, *)
(* copies the text into a slice of its own and gives the buffers back.  The     *)
(* caller keeps the slice, and may write to it.  One call of each process may   *)
(* fail half way.                                                              *)
(* Memory is a set of cells; a slice is a cell.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS P, Calls, Variant
Procs == 1..P
Cells == 1..(2 * P + P * Calls)

VARIABLES mem,          \* cell -> what is written in it: <<call, parts>>
          used,         \* cells handed out by the allocator
          pool,         \* cells in the pool
          pc, n,        \* where p is, and in which of its calls
          b1, b2,       \* p's buffers, 0: none
          kept          \* p -> the slices it got: [c |-> cell, w |-> what it must hold]
vars == <<mem, used, pool, pc, n, b1, b2, kept>>

Id(p) == <<p, n[p]>>
Nothing == <<<<0, 0>>, 0>>
Init == /\ mem = [c \in Cells |-> Nothing] /\ used = {} /\ pool = {}
        /\ pc = [p \in Procs |-> "get"] /\ n = [p \in Procs |-> 1]
        /\ b1 = [p \in Procs |-> 0] /\ b2 = [p \in Procs |-> 0]
        /\ kept = [p \in Procs |-> {}]

New == CHOOSE c \in Cells \ used : \A d \in Cells \ used : c <= d
(* from the pool, or new: a pool may drop what is in it *)
Take(c) == \/ c \in pool /\ pool' = pool \ {c} /\ UNCHANGED used
           \/ used # Cells /\ c = New /\ used' = used \cup {c} /\ UNCHANGED pool
To(p, x) == pc' = [pc EXCEPT ![p] = x]

Get(p) == /\ pc[p] = "get" /\ n[p] <= Calls
          /\ \E c \in Cells : Take(c) /\ b1' = [b1 EXCEPT ![p] = c]
                              /\ mem' = [mem EXCEPT ![c] = <<Id(p), 0>>]
          /\ To(p, "half") /\ UNCHANGED <<n, b2, kept>>
Half(p) == /\ pc[p] = "half"        \* half of the text; then a map, the rest, or a failure
           /\ mem' = [mem EXCEPT ![b1[p]] = <<Id(p), 1>>]
           /\ \E x \in {"map", "rest", "fail"} : To(p, x)
           /\ UNCHANGED <<used, pool, n, b1, b2, kept>>
Map(p) == /\ pc[p] = "map"
          /\ \E c \in Cells : Take(c) /\ b2' = [b2 EXCEPT ![p] = c]
                              /\ mem' = [mem EXCEPT ![c] = <<Id(p), 1>>]
          /\ To(p, IF Variant = "mapearly" THEN "mapput" ELSE "mapuse") /\ UNCHANGED <<n, b1, kept>>
MapPut(p) == /\ pc[p] = "mapput" /\ pool' = pool \cup {b2[p]}
             /\ To(p, IF Variant = "mapearly" THEN "mapuse" ELSE "rest")
             /\ UNCHANGED <<mem, used, n, b1, b2, kept>>
MapUse(p) == /\ pc[p] = "mapuse"    \* the entries are copied to the text
             /\ mem' = [mem EXCEPT ![b1[p]] = IF mem[b2[p]] = <<Id(p), 1>> THEN @ ELSE Nothing]
             /\ To(p, IF Variant = "mapearly" THEN "rest" ELSE "mapput")
             /\ UNCHANGED <<used, pool, n, b1, b2, kept>>
Rest(p) == /\ pc[p] = "rest"
           /\ mem' = [mem EXCEPT ![b1[p]] = IF @ = <<Id(p), 1>> THEN <<Id(p), 2>> ELSE Nothing]
           /\ To(p, IF Variant = "putearly" THEN "put" ELSE "copy")
           /\ UNCHANGED <<used, pool, n, b1, b2, kept>>
Copy(p) == /\ pc[p] = "copy"
           /\ IF Variant = "alias"
              THEN /\ kept' = [kept EXCEPT ![p] = @ \cup {[c |-> b1[p], w |-> <<Id(p), 2>>]}]
                   /\ UNCHANGED <<mem, used>>
              ELSE /\ used # Cells /\ used' = used \cup {New}
                   /\ mem' = [mem EXCEPT ![New] = mem[b1[p]]]
                   /\ kept' = [kept EXCEPT ![p] = @ \cup {[c |-> New, w |-> <<Id(p), 2>>]}]
           /\ To(p, IF Variant = "putearly" THEN "next" ELSE "put")
           /\ UNCHANGED <<pool, n, b1, b2>>
Put(p) == /\ pc[p] = "put" /\ pool' = pool \cup {b1[p]}
          /\ To(p, IF Variant = "putearly" THEN "copy" ELSE "next")
          /\ UNCHANGED <<mem, used, n, b1, b2, kept>>
(* a failed call has no result, and gives its buffer back (or does not) *)
Fail(p) == /\ pc[p] = "fail"
           /\ pool' = pool \cup {b1[p]} \/ UNCHANGED pool
           /\ To(p, "next") /\ UNCHANGED <<mem, used, n, b1, b2, kept>>
NextCall(p) == /\ pc[p] = "next" /\ n' = [n EXCEPT ![p] = @ + 1] /\ To(p, "get")
               /\ b1' = [b1 EXCEPT ![p] = 0] /\ b2' = [b2 EXCEPT ![p] = 0]
               /\ UNCHANGED <<mem, used, pool, kept>>
(* the caller writes to a slice it got *)
Scribble(p) == \E k \in kept[p] :
  /\ mem' = [mem EXCEPT ![k.c] = <<<<-1, -1>>, 9>>]
  /\ kept' = [kept EXCEPT ![p] = @ \ {k}]
  /\ UNCHANGED <<used, pool, pc, n, b1, b2>>

Step(p) == Get(p) \/ Half(p) \/ Map(p) \/ MapPut(p) \/ MapUse(p) \/ Rest(p) \/ Copy(p) \/ Put(p) \/ Fail(p) \/ NextCall(p) \/ Scribble(p)
Finished == \A p \in Procs : pc[p] = "get" /\ n[p] > Calls
Next == (\E p \in Procs : Step(p)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

(* what a call returned is what it wrote, and stays so until its caller writes *)
ResultsStay == \A p \in Procs : \A k \in kept[p] : mem[k.c] = k.w
(* no cell is in two hands *)
Hands(c) == Cardinality({p \in Procs : b1[p] = c /\ pc[p] \in {"half", "map", "mapuse", "mapput", "rest", "copy"}})
            + Cardinality({p \in Procs : b2[p] = c /\ pc[p] \in {"mapuse"}})
            + (IF c \in pool THEN 1 ELSE 0)
OneHand == \A c \in Cells : Hands(c) <= 1
=============================================================================
