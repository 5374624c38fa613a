------------------------------ MODULE MC_Bounds ------------------------------
(* The 32-bit backend at its real size, with every field element abstracted to a bound on its
   limbs: no sequence of operations makes a limb or an accumulator overflow.  The state is the
   largest limb any element can have so far; every operation may be applied to the worst. *)
EXTENDS Integers, Sequences, SequencesExt
VARIABLES m, last
W == 28
Base == 2^W
MASK == Base - 1
Larger(x, y) == IF x > y THEN x ELSE y

\* upper bounds of the results for operands with limbs up to x
WeakUp(x) == MASK + (x + x \div Base) \div Base + x \div Base
AddUp(x) == WeakUp(2 * x)
SubUp(x) == WeakUp(x + 2 * MASK)
\* the largest column of a product: 8 products of sums of two limbs, and 8 of limbs, and a carry
Col(x, carry) == 8 * (2 * x) * (2 * x) + 8 * x * x + carry
CarryUp(x) == FoldLeft(LAMBDA c, j : Col(x, c) \div Base, 0, [j \in 1..8 |-> j])
MulUp(x) == MASK + (2 * CarryUp(x) + MASK) \div Base

Init == m = MASK /\ last = "from_bytes"
Apply(o, f) == m' = Larger(m, f) /\ last' = o
Next == Apply("add", AddUp(m)) \/ Apply("sub", SubUp(m)) \/ Apply("mul", MulUp(m)) \/ Apply("neg", SubUp(m))
Spec == Init /\ [][Next]_<<m, last>>

NoU32Overflow == 2 * m < 2^32 /\ m + 2 * MASK < 2^32 /\ m + m \div Base < 2^32
\* the subtraction never goes below 0 in a limb: what is added is at least what is taken away
Biased == 2 * (MASK - 1) >= m
\* square uses u64: every partial sum stays below 2^64
NoU64Overflow == Col(m, CarryUp(m)) < 2^64 /\ 2 * CarryUp(m) + MASK < 2^64 /\ (2 * CarryUp(m) + MASK) \div Base < 2^32
\* after weak reduction the value is below 2 p, as strong_reduce needs
Reducible == (WeakUp(m) * (2^448 - 1)) \div MASK < 2 * (2^448 - 2^224 - 1)
=============================================================================
