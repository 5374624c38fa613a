------------------------------ MODULE MC_Limbs ------------------------------
(* The limb algorithms of the 32-bit field backend on every value of the limbs up to the slack
   the operations leave. *)
EXTENDS LimbImpl
CONSTANTS Slack, Few
VARIABLES a, b
Limb == 0..(MASK + Slack)
All == [1..N -> Limb]
Seqs == {[j \in 1..N |-> f[j]] : f \in All}
Others == IF Few = 1 THEN {[j \in 1..N |-> k] : k \in {0, MASK + Slack}} \cup {[j \in 1..N |-> IF j = H + 1 THEN MASK - 1 ELSE MASK]}
          ELSE IF Few = 2 THEN {[j \in 1..N |-> k] : k \in {0, 1, MASK, MASK + Slack}} \cup
                      {[j \in 1..N |-> IF j = i THEN k ELSE 0] : i \in 1..N, k \in {1, MASK, MASK + Slack}} \cup
                      {[j \in 1..N |-> IF j = i THEN 0 ELSE MASK + Slack] : i \in 1..N}
          ELSE Seqs
Init == a \in Seqs /\ b \in Others
Next == FALSE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>

Small(q) == \A j \in 1..N : q[j] >= 0 /\ q[j] <= MASK + Slack
WeakOk   == Val(Weak(a)) % PP = Val(a) % PP /\ Small(Weak(a))
StrongOk == Val(Strong(a)) = Val(a) % PP /\ StrongAsserts(a)
AddOk    == Val(AddF(a, b)) % PP = (Val(a) + Val(b)) % PP /\ Small(AddF(a, b))
SubOk    == /\ \A j \in 1..N : SubRaw(a, b)[j] >= 0
            /\ Val(SubF(a, b)) % PP = (Val(a) - Val(b)) % PP /\ Small(SubF(a, b))
MulOk    == LET c == MulF(a, b) IN Val(c) % PP = (Val(a) * Val(b)) % PP /\ \A j \in 1..N : c[j] >= 0
=============================================================================
