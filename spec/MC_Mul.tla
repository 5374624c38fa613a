------------------------------- MODULE MC_Mul -------------------------------
(* Scalar multiplication as the crate does it, one iteration per step, for every point and every
   scalar of SB bits: signed radix 16 from the top with a table of Niels points on the twisted
   curve, between the two isogenies. *)
EXTENDS Impl

VARIABLES p, s, pc, i, acc, out
vars == <<p, s, pc, i, acc, out>>
Points == {x \in Field \X Field : EOn(x)}

Dg == Recode(s \div 4)
Tw == ExtIso(1, ExtOf(p, 1))
Tab == Table(Tw)

Init == p \in Points /\ s \in 0..(2^SB - 1) /\ pc = "loop" /\ i = Nibbles + 1 /\ acc = XId /\ out = ExtId
Loop == pc = "loop" /\ i > 0 /\ acc' = VarBaseStep(Tab, acc, Dg[i]) /\ i' = i - 1 /\ UNCHANGED <<p, s, pc, out>>
Back == pc = "loop" /\ i = 0 /\ out' = ExtIso(-1, ToExt(acc)) /\ pc' = "low" /\ UNCHANGED <<p, s, i, acc>>
Low  == pc = "low" /\ out' = ExtAdd(out, ModFour(ExtOf(p, 1), s)) /\ pc' = "done" /\ UNCHANGED <<p, s, i, acc>>
Next == Loop \/ Back \/ Low
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

DigitsSmall == \A k \in DOMAIN Dg : Dg[k] >= -8 /\ Dg[k] <= 8
Recoded == Undigits(Dg, 4) = s \div 4
\* the digits done so far, as an integer: never negative
Prefix == Undigits(SubSeq(Dg, i + 1, Len(Dg)), 4)
LoopInv == pc = "loop" => /\ ExtOk(-1, TD, ToExt(acc))
                          /\ Prefix >= 0
                          /\ ExtAff(ToExt(acc)) = TMul(Prefix, ExtAff(Tw))
Right   == pc = "done" => ExtOk(1, D, out) /\ ExtAff(out) = EMul(s, p)
Folded  == pc = "done" => ExtEq(ExtMul(ExtOf(p, 1), s), out)
Other   == pc = "done" => ExtAff(DoubleAndAdd(Tw, s)) = TMul(s, ExtAff(Tw))
Ends    == <>(pc = "done")
=============================================================================
