----------------------------- MODULE MC_Repeat ------------------------------
(* EMul, TMul and Ladder are repeated addition: n counts up, acc adds p each time. *)
EXTENDS Impl

VARIABLES p, n, acc, tacc
vars == <<p, n, acc, tacc>>
Points == {x \in Field \X Field : EOn(x)}
Init == p \in Points /\ n = 0 /\ acc = EId /\ tacc = TId
Next == n < 2^SB - 1 /\ n' = n + 1 /\ acc' = EAdd(acc, p) /\ tacc' = TAdd(tacc, ToTwisted(p)) /\ UNCHANGED p
Spec == Init /\ [][Next]_vars

Edwards == EMul(n, p) = acc
Twisted == TMul(n, ToTwisted(p)) = tacc
\* the 4-isogeny to the Montgomery curve commutes with multiplication
Montgomery == Ladder(n, ToU(p)) = ToU(acc)
=============================================================================
