----------------------------- MODULE MC_Scalars -----------------------------
(* The limb algorithms of the scalars on every pair of operands, reduced or not. *)
EXTENDS ScalarImpl
VARIABLES a, b
Top == 2^(N * W)
Init == a \in 0..(Top - 1) /\ b = 0
Next == b < Top - 1 /\ b' = b + 1 /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>

x == Lm(a)
y == Lm(b)
Sum     == Val(ImplAdd(x, y)) = (a + b) % Ell
Diff    == Val(ImplSub(x, y)) = (a - b) % Ell
Product == Val(ImplMul(x, y)) = (a * b) % Ell
\* the remark in sub_extra ("XXX: explain why borrow == 1 should never happen"): it does not
Borrow  == LET t == MontAcc(x, y) IN BorrowOk(t[1], MOD, t[2])
Halved  == b = 0 => LET h == Val(ImplHalve(x)) IN (2 * h - a) % Ell = 0 /\ (a < Ell => h < Ell)
Quarter == b = 0 => Val(ImplDivFour(x)) = a \div 4
Inverted == b = 0 => LET i == Val(ImplInvert(x)) IN i < Ell /\ (i * a) % Ell = (IF a % Ell = 0 THEN 0 ELSE 1)
Wide    == \A t \in {0, 1, 2, 3} : Val(ImplWide(x, y, Lm(t))) = (a + b * Top + t * Top * Top) % Ell
Canon   == b = 0 => ImplCanonical(x) = (a < Ell)
=============================================================================
