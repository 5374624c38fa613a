------------------------------- MODULE MC_Leak -------------------------------
(* Each program of Leak beside itself, on one secret and on every other: the two runs are seen to
   do the same, step by step, and end together.  (Being seen alike is an equivalence, so one side
   of the pair may stay the same.) *)
EXTENDS Leak, TLC

VARIABLES prog, x, y
vars == <<prog, x, y>>
Strings == [1..Digits -> -Size..Size]
Zero == [k \in 1..Digits |-> 0]
Secrets == {<<a, b>> : a \in Strings, b \in {Zero, [k \in 1..Digits |-> IF k = Digits THEN 1 ELSE -1]}}
             \cup {<<a, a>> : a \in Strings}

Run(r) == Step(prog, r) @@ [secret |-> r.secret]

Init == prog \in Programs /\ x = Start(<<Zero, Zero>>) /\ y \in {Start(s) : s \in Secrets}
Next == x.pc # "done" /\ y.pc # "done" /\ x' = Run(x) /\ y' = Run(y) /\ UNCHANGED prog
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Alike == x.obs = y.obs
EndTogether == (x.pc = "done") = (y.pc = "done")
\* the programs do compute something: the digits, the bits, whether they are equal
Undigits(s, b) == LET u[k \in 0..Digits] == IF k = 0 THEN 0 ELSE u[k - 1] + s[k] * b^(k - 1) IN u[Digits]
Computes == y.pc = "done" =>
  CASE prog = "varbase" -> y.acc = Undigits(y.secret[1], 2 * Size)
    [] prog = "ladder"  -> y.acc = Undigits([k \in 1..Digits |-> (y.secret[1])[k] % 2], 2)
    [] prog = "equal"   -> (y.acc = 0) = (y.secret[1] = y.secret[2])
    [] prog = "modfour" -> y.acc = (y.secret[1])[1] % 4
    [] prog = "correct" -> y.acc \in {-1, 0}
Ends == <>(x.pc = "done")
=============================================================================
