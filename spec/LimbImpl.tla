------------------------------ MODULE LimbImpl ------------------------------
(* field/u32: 2 H limbs of W bits (in the crate 16 of 28), least significant first, with some
   slack in every limb.  P = 2^(2 H W) - 2^(H W) - 1. *)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS W, H
N == 2 * H
Base == 2^W
MASK == Base - 1
PP == Base^N - Base^H - 1
Val(q) == FoldRight(LAMBDA x, acc : acc * Base + x, q, 0)
\* the limbs of P: all ones but the one in the middle
PL == [j \in 1..N |-> IF j = H + 1 THEN MASK - 1 ELSE MASK]

Weak(a) ==
  LET top == a[N] \div Base
      b == [a EXCEPT ![H + 1] = @ + top]
  IN [j \in 1..N |-> (b[j] % Base) + (IF j = 1 THEN top ELSE b[j - 1] \div Base)]
Bias(a, k) == [j \in 1..N |-> a[j] + k * PL[j]]
AddF(a, b) == Weak([j \in 1..N |-> a[j] + b[j]])
SubRaw(a, b) == [j \in 1..N |-> Bias(a, 2)[j] - b[j]]
SubF(a, b) == Weak(SubRaw(a, b))

Ripple(f(_)) == FoldLeft(LAMBDA st, j : LET c == st[2] + f(j) IN <<Append(st[1], c % Base), c \div Base>>,
                         <<<<>>, 0>>, [j \in 1..N |-> j])
StrongParts(a) ==
  LET w == Weak(a)
      s == Ripple(LAMBDA j : w[j] - PL[j])
      m == IF s[2] = 0 THEN 0 ELSE 1
      r == Ripple(LAMBDA j : s[1][j] + m * PL[j])
  IN <<s[2], r>>
Strong(a) == (StrongParts(a))[2][1]
StrongAsserts(a) == LET t == StrongParts(a) IN t[1] \in {-1, 0} /\ t[2][2] + t[1] = 0

\* Karatsuba with phi = 2^(H W), phi^2 = phi + 1; column j of the low half and of the high half
Sm(S, f(_)) == FoldLeft(LAMBDA acc, i : acc + f(i), 0, S)
Rng(a, b) == [i \in 1..(IF b >= a THEN b - a + 1 ELSE 0) |-> a + i - 1]
MulF(a, b) ==
  LET aa(i) == a[i + 1] + a[i + H + 1]   bb(i) == b[i + 1] + b[i + H + 1]
      lo(i) == a[i + 1]  hi(i) == a[i + H + 1]  blo(i) == b[i + 1]  bhi(i) == b[i + H + 1]
      col(st, j) ==                    \* st = <<low limbs, high limbs, z0, z1>>
        LET ll == Sm(Rng(0, j), LAMBDA i : lo(i) * blo(j - i))
            hh == Sm(Rng(0, j), LAMBDA i : hi(i) * bhi(j - i))
            ss == Sm(Rng(0, j), LAMBDA i : aa(i) * bb(j - i))
            llw == Sm(Rng(j + 1, H - 1), LAMBDA i : lo(i) * blo(j + H - i))
            hhw == Sm(Rng(j + 1, H - 1), LAMBDA i : hi(i) * bhi(j + H - i))
            ssw == Sm(Rng(j + 1, H - 1), LAMBDA i : aa(i) * bb(j + H - i))
            z0 == st[3] + hh + ll + ssw - llw
            z1 == st[4] + ss - ll + hhw + ssw
        IN <<Append(st[1], z0 % Base), Append(st[2], z1 % Base), z0 \div Base, z1 \div Base>>
      r  == FoldLeft(col, <<<<>>, <<>>, 0, 0>>, Rng(0, H - 1))
      z0 == r[3] + r[4] + r[2][1]
      z1 == r[4] + r[1][1]
      lo1 == [r[1] EXCEPT ![1] = z1 % Base]
      hi1 == [r[2] EXCEPT ![1] = z0 % Base]
  IN [lo1 EXCEPT ![2] = @ + z1 \div Base] \o [hi1 EXCEPT ![2] = @ + z0 \div Base]
=============================================================================
