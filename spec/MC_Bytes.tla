-------------------------------- MODULE MC_Bytes --------------------------------
(* Base64 written in groups of three bytes into a destination with some room    *)
(* left: decoded, it gives the bytes back; it has the length the standard says; *)
(* and how much room there was makes no difference to it.                      *)
EXTENDS MCPlan
CONSTANTS MaxLen, MaxPre, MaxRoom, PlanLen, PlanRoom

VARIABLES s, pre, room, i, mem, len, moved
vars == <<s, pre, room, i, mem, len, moved>>
Values == {0, 255, 62, 107}
Init == /\ s \in AllSeqs(Values, MaxLen) /\ pre \in 0..MaxPre /\ room \in 0..MaxRoom
        /\ i = 0 /\ mem = [k \in 1..(pre + room) |-> IF k <= pre THEN 80 + k ELSE 35]
        /\ len = pre /\ moved = FALSE
(* put bytes b behind those written: where there is room for them, else in a larger array *)
Put(b) == LET need == len + Len(b) IN
  /\ mem' = IF need <= Len(mem) THEN [k \in 1..Len(mem) |-> IF k > len /\ k <= need THEN b[k - len] ELSE mem[k]]
            ELSE SubSeq(mem, 1, len) \o b \o Rep(need \div 2, 35)
  /\ moved' = (moved \/ need > Len(mem)) /\ len' = need
Group(k) == LET n == Min2(3, Len(s) - k) At(j) == IF j <= n THEN s[k + j] ELSE 0
                w == At(1) * 65536 + At(2) * 256 + At(3)
            IN << B64[w \div 262144], B64[(w \div 4096) % 64],
                  IF n >= 2 THEN B64[(w \div 64) % 64] ELSE 61, IF n = 3 THEN B64[w % 64] ELSE 61 >>
Next == /\ i < Len(s) /\ i' = Min2(i + 3, Len(s)) /\ Put(Group(i)) /\ UNCHANGED <<s, pre, room>>
Spec == Init /\ [][Next]_vars

Done == i = Len(s)
Out == SubSeq(mem, pre + 1, len)
Same == Done => Out = Base64(s)
RoundTrip == Done => UnBase64(Out) = s
Length == Done => Len(Out) = 4 * ((Len(s) + 2) \div 3)
Kept == SubSeq(mem, 1, pre) = [k \in 1..pre |-> 80 + k]
InPlace == (Done /\ Len(Out) <= room) => ~moved

Plan == LET ps == SetToSeq((0..PlanLen) \X (0..PlanRoom)) IN [k \in 1..Len(ps) |-> [z |-> "room", s |-> ps[k]]]
ASSUME WritesPlan(Plan)
=============================================================================
