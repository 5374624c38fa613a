----------------------------- MODULE ScalarImpl -----------------------------
(* field/scalar.rs, limb by limb: N limbs of W bits (in the crate 14 of 32), least significant
   first.  L2 is the order, with N W = bits(L) + 2. *)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS W, N, Ell
Base == 2^W
Lm(n) == [j \in 1..N |-> (n \div Base^(j - 1)) % Base]
Val(q) == FoldRight(LAMBDA x, acc : acc * Base + x, q, 0)
MOD == Lm(Ell)
RR  == Base^N
cR  == Lm(RR % Ell)
cR2 == Lm((RR * RR) % Ell)
\* - Ell^-1 modulo the base
Factor == CHOOSE f \in 0..(Base - 1) : (f * Ell + 1) % Base = 0

\* one ripple: st = <<limbs out, chain>>; floor division is the arithmetic shift
Ripple(f(_)) == FoldLeft(LAMBDA st, j : LET c == st[2] + f(j) IN <<Append(st[1], c % Base), c \div Base>>,
                         <<<<>>, 0>>, [j \in 1..N |-> j])
SubExtra(a, b, carry) ==
  LET d == Ripple(LAMBDA j : a[j] - b[j])
      borrow == d[2] + carry                       \* -1: all ones, 0: none
  IN (Ripple(LAMBDA j : d[1][j] + (IF borrow = -1 THEN MOD[j] ELSE 0)))[1]
BorrowOk(a, b, carry) == (Ripple(LAMBDA j : a[j] - b[j]))[2] + carry \in {-1, 0}
AddL(a, b) == LET s == Ripple(LAMBDA j : a[j] + b[j]) IN SubExtra(s[1], MOD, s[2])

\* montgomery_multiply: x y / R
MontRow(x, y, st, i) ==                            \* st = <<result, carry>>
  LET r1 == FoldLeft(LAMBDA t, j : LET c == t[2] + x[i] * y[j] + st[1][j] IN <<Append(t[1], c % Base), c \div Base>>,
                     <<<<>>, 0>>, [j \in 1..N |-> j])
      saved == r1[2]
      m  == (r1[1][1] * Factor) % Base
      r2 == FoldLeft(LAMBDA t, j : LET c == t[2] + m * MOD[j] + r1[1][j] IN <<Append(t[1], c % Base), c \div Base>>,
                     <<<<>>, 0>>, [j \in 1..N |-> j])
      top == r2[2] + saved + st[2]
  IN << SubSeq(r2[1], 2, N) \o <<top % Base>>, top \div Base >>
MontAcc(x, y) == FoldLeft(LAMBDA st, i : MontRow(x, y, st, i), << [j \in 1..N |-> 0], 0 >>, [j \in 1..N |-> j])
Mont(x, y) == LET t == MontAcc(x, y) IN SubExtra(t[1], MOD, t[2])

Reduce(a) == Mont(a, cR)
ImplAdd(a, b) == AddL(Reduce(a), Reduce(b))
ImplSub(a, b) == SubExtra(Reduce(a), Reduce(b), 0)
ImplMul(a, b) == Mont(Mont(a, b), cR2)
ImplHalve(a) ==
  LET m == a[1] % 2
      s == Ripple(LAMBDA j : a[j] + m * MOD[j])
      r == s[1]
  IN [j \in 1..N |-> (r[j] \div 2) + ((IF j < N THEN r[j + 1] ELSE s[2]) % 2) * (Base \div 2)]
ImplDivFour(a) == [j \in 1..N |-> (a[j] \div 4) + (IF j < N THEN (a[j + 1] % 4) * (Base \div 4) ELSE 0)]

\* invert: a sliding window of 3 bits over Ell - 2, in the crate's own way of going about it
ElBits == N * W - 2
ExpBit(i) == ((Ell - 2) \div 2^i) % 2               \* the crate takes 2 off the lowest limb
ImplInvert(a) ==
  LET p0 == Mont(a, cR2)
      sq == Mont(p0, p0)
      pre == FoldLeft(LAMBDA t, i : Append(t, Mont(t[Len(t)], sq)), <<p0>>, <<1, 2, 3, 4, 5, 6, 7>>)
      \* st = <<result, residue, trailing, started>>, i going down to -3
      stp(st, i) ==
        LET r0  == IF st[4] THEN Mont(st[1], st[1]) ELSE st[1]
            res == st[2] * 2 + (IF i >= 0 THEN ExpBit(i) ELSE 0)
            full == res \div 8 # 0
            tr  == IF full THEN res ELSE st[3]
            re  == IF full THEN 0 ELSE res
            now == tr > 0 /\ tr % 8 = 0
            ix  == (tr \div 16) + 1
            r1  == IF now THEN (IF st[4] THEN Mont(r0, pre[ix]) ELSE pre[ix]) ELSE r0
        IN <<r1, re, (IF now THEN 0 ELSE tr) * 2, st[4] \/ now>>
      r == FoldLeft(stp, << [j \in 1..N |-> 0], 0, 0, FALSE >>, [k \in 1..(ElBits + 3) |-> ElBits - k])
  IN Mont(r[1], Lm(1))

\* from_bytes_mod_order_wide: 2 N W bits and T more
ImplWide(lo, hi, top) ==
  ImplAdd(AddL(Mont(lo, cR), Mont(hi, cR2)), Mont(Mont(top, cR2), cR2))
\* from_canonical_bytes on N W bits
ImplCanonical(a) == a[N] \div 2^(W - 2) = 0 /\ SubExtra(a, MOD, 0) = a
=============================================================================
