-------------------------------- MODULE Impl --------------------------------
(***************************************************************************)
(* The crate's algorithms, written the way the crate computes: extended,   *)
(* extensible and Niels coordinates, the isogeny strategy for scalar       *)
(* multiplication, the Costello-Smith ladder, decaf on the twisted curve.  *)
(* The MC_ models check, on curves small enough to enumerate, that they    *)
(* compute what Ed448Math defines: why the crate is right when it is.      *)
(*                                                                         *)
(* Field elements are integers modulo P here; limbs are in Scalars and     *)
(* Limbs.                                                                  *)
(***************************************************************************)
EXTENDS Ed448Math

M(a, b) == (a * b) % P
S(a) == (a * a) % P

--------------------------------------------------------------------------------
(* curve/edwards/extended.rs: <<X, Y, Z, T>> *)

ExtOf(p, z) == <<M(p[1], z), M(p[2], z), z, M(M(p[1], p[2]), z)>>
ExtAff(q) == LET i == Inv(q[3]) IN <<M(q[1], i), M(q[2], i)>>
ExtOk(a, d, q) == /\ q[3] # 0
                  /\ M(q[1], q[2]) = M(q[3], q[4])
                  /\ (S(q[2]) + a * S(q[1]) - S(q[3]) - d * S(q[4])) % P = 0

ExtId == <<0, 1, 1, 0>>
ExtAdd(p, q) ==
  LET aXX == M(p[1], q[1])  dTT == M(M(D, p[4]), q[4])
      ZZ == M(p[3], q[3])   YY == M(p[2], q[2])
      x1 == (M(p[1], q[2]) + M(p[2], q[1])) % P
      x2 == (ZZ - dTT) % P
      y1 == (YY - aXX) % P
      y2 == (ZZ + dTT) % P
  IN <<M(x1, x2), M(y1, y2), M(x2, y2), M(y1, x1)>>
ExtNeg(p)    == <<Neg(p[1]), p[2], p[3], Neg(p[4])>>
ExtTorque(p) == <<Neg(p[1]), Neg(p[2]), p[3], p[4]>>
ExtEq(p, q)  == M(p[1], q[3]) = M(p[3], q[1]) /\ M(p[2], q[3]) = M(p[3], q[2])

\* to_montgomery: u = y^2 / x^2
ExtToU(p) == LET y == (ExtAff(p))[2] x == (ExtAff(p))[1] IN M(S(y), S(Inv(x)))

\* edwards_isogeny, in either direction (b = 1, b = -1)
ExtIso(b, q) ==
  LET p == ExtAff(q) x == p[1] y == p[2]
      nx == M(2 * M(x, y), Inv((S(y) - b * S(x)) % P))
      ny == M((S(y) + b * S(x)) % P, Inv((2 - S(y) - b * S(x)) % P))
  IN <<nx, ny, 1, M(nx, ny)>>

--------------------------------------------------------------------------------
(* curve/twedwards: extensible points <<X, Y, Z, T1, T2>>, T = T1 T2 *)

XId == <<0, 1, 1, 0, 1>>
ToX(p) == <<p[1], p[2], p[3], p[4], 1>>
ToExt(x) == <<x[1], x[2], x[3], M(x[4], x[5])>>
XDouble(x) ==
  LET A == S(x[1])  B == S(x[2])  C == 2 * S(x[3])  DD == -A
      E == S(x[1] + x[2]) - A - B  G == DD + B  F == G - C  H == DD - B
  IN <<M(E, F), M(G, H), M(F, G), E % P, H % P>>
XAdd(x, q) ==
  LET A == M(x[1], q[1])  B == M(x[2], q[2])  C == M(M(x[4], x[5]), M(q[4], TD))  DD == M(x[3], q[3])
      E == M(x[1] + x[2], q[1] + q[2]) - A - B  F == DD - C  G == DD + C  H == B + A
  IN <<M(E, F), M(G, H), M(F, G), E % P, H % P>>
XSub(x, q) ==
  LET A == M(x[1], q[1])  B == M(x[2], q[2])  C == M(M(x[4], x[5]), M(q[4], TD))  DD == M(x[3], q[3])
      E == M(x[1] + x[2], q[2] - q[1]) + A - B  F == DD + C  G == DD - C  H == B - A
  IN <<M(E, F), M(G, H), M(F, G), E % P, H % P>>

\* Niels: affine <<y+x, y-x, dt>>, projective <<Y+X, Y-X, 2Z, 2dT>>
AffNiels(p) == <<(p[2] + p[1]) % P, (p[2] - p[1]) % P, M(TD, M(p[1], p[2]))>>
AffNielsExt(n) ==
  LET x == n[1] - n[2]  y == n[1] + n[2] IN <<(2 * x) % P, (2 * y) % P, 4 % P, M(x, y)>>
AffNielsAdd(x, n) ==
  LET A == M(n[2], x[2] - x[1])  B == M(n[1], x[1] + x[2])  C == M(n[3], M(x[4], x[5]))
      DD == B + A  E == B - A  F == 2 * (x[3] - C)  G == 2 * (x[3] + C)
  IN <<M(E, F), M(G, DD), M(F, G), E % P, DD % P>>
ProjNiels(x) == <<(x[1] + x[2]) % P, (x[2] - x[1]) % P, (2 * x[3]) % P, M(M(x[4], x[5]), 2 * TD)>>
ProjNielsNeg(n) == <<n[2], n[1], n[3], Neg(n[4])>>
ProjNielsExt(n) ==
  LET A == n[1] - n[2]  B == n[1] + n[2] IN <<M(n[3], A), M(n[3], B), S(n[3]), M(B, A)>>
ProjNielsAdd(x, n) ==
  LET Z == M(x[3], n[3])
      A == M(x[2] - x[1], n[2])  B == M(x[2] + x[1], n[1])  C == M(n[4], M(x[4], x[5]))
      DD == B + A  E == B - A  F == Z - C  G == Z + C
  IN <<M(E, F), M(G, DD), M(F, G), E % P, DD % P>>

--------------------------------------------------------------------------------
(* field/scalar.rs: to_radix_16, for scalars of k nibbles; curve/scalar_mul *)

Nibbles == ScalarDigits
Recode(s) ==
  LET raw == DigitsLE(s, 4, Nibbles)
      st(acc, x) ==                         \* acc = <<digits so far, carry>>
        LET v == x + acc[2] c == (v + 8) \div 16 IN <<Append(acc[1], v - 16 * c), c>>
      r == FoldLeft(st, <<<<>>, 0>>, raw)
  IN Append(r[1], r[2])

\* the table of 1..8 times the point, as projective Niels points
Table(q) ==
  LET x == ToX(q)
      nxt(t, i) == Append(t, ProjNiels(ProjNielsAdd(x, t[Len(t)])))
  IN FoldLeft(nxt, <<ProjNiels(x)>>, <<2, 3, 4, 5, 6, 7, 8>>)
Select(tab, i) == IF i = 0 THEN ProjNiels(XId) ELSE tab[i]

VarBaseStep(tab, acc, dgt) ==
  LET d4 == XDouble(XDouble(XDouble(XDouble(acc))))
      n  == Select(tab, IF dgt < 0 THEN -dgt ELSE dgt)
  IN ProjNielsAdd(d4, IF dgt < 0 THEN ProjNielsNeg(n) ELSE n)
VarBase(q, s) ==
  LET tab == Table(q) IN ToExt(FoldLeft(LAMBDA acc, d : VarBaseStep(tab, acc, d), XId, Reverse(Recode(s))))

DoubleAndAdd(q, s) ==
  FoldLeft(LAMBDA acc, bit : ToExt(XAdd(ToX(ToExt(XDouble(ToX(acc)))), IF bit = 1 THEN q ELSE ExtId)),
           ExtId, Digits(s, 1, SB))

\* curve/edwards: [s] p = [s / 4] on the other curve and back, which is [4 (s / 4)], and [s mod 4]
ModFour(p, s) == LET r == s % 4 p2 == ExtAdd(p, p) IN
  CASE r = 0 -> ExtId [] r = 1 -> p [] r = 2 -> p2 [] r = 3 -> ExtAdd(p2, p)
ExtMul(p, s) == ExtAdd(ExtIso(-1, VarBase(ExtIso(1, p), s \div 4)), ModFour(p, s))

--------------------------------------------------------------------------------
(* curve/montgomery: Algorithm 8 of Costello-Smith; a register is <<U, W>> *)

APlus2Over4 == (1 - D) % P
DiffAddDouble(p, q, u) ==
  LET t0 == p[1] + p[2]  t1 == p[1] - p[2]  t2 == q[1] + q[2]  t3 == q[1] - q[2]
      t4 == S(t0)  t5 == S(t1)  t6 == t4 - t5
      t7 == M(t0, t3)  t8 == M(t1, t2)
      t11 == S(t7 + t8)  t12 == S(t7 - t8)
  IN << <<M(t4, t5), M(t6, (M(APlus2Over4, t6) + t5) % P)>>, <<t11, M(u, t12)>> >>
\* one iteration: st = <<x0, x1, swap>>
LadderIter(st, bit, u) ==
  LET sw == st[3] # bit
      r  == IF sw THEN DiffAddDouble(st[2], st[1], u) ELSE DiffAddDouble(st[1], st[2], u)
  IN <<r[1], r[2], bit>>
LadderInit(u) == << <<1, 0>>, <<u % P, 1>>, 0>>
LadderOut(st) == LET x == IF st[3] = 1 THEN st[2] ELSE st[1] IN M(x[1], Inv(x[2]))

--------------------------------------------------------------------------------
(* decaf/decaf.rs: an element is a point of the twisted curve, in extended coordinates *)

NegIf(b, x) == IF b THEN Neg(x) ELSE x
DImplEnc(q) ==
  LET X == q[1] Y == q[2] Z == q[3] T == q[4]
      xt == M(X + T, X - T)
      isr == (ISqrt(M(M(S(X), xt), Neg(D))))[1]
      r0 == M(isr, xt)
      r  == NegIf(Odd(M(r0, SMD)), r0)
      k  == (M(r, Z) - T) % P
      s  == M(M(k, Neg(D)), M(isr, X))
  IN NegIf(Odd(s), s)
DImplDec(s) ==
  LET ss == S(s)  u1 == (1 - ss) % P  u2 == (1 + ss) % P  u1s == S(u1)
      v  == (M(ss, -4 * TD) + u1s) % P
      r  == ISqrt(M(v, u1s))
      Dx == M(r[1], u1)  Dxs == M(2 * s, Dx)
      X0 == M(M(Dxs, r[1]), v)
      X  == NegIf(Odd(M(Dxs, SMD)), X0)
      Y  == M(Dx, u2)
  IN IF s >= P \/ Odd(s) \/ ~r[2] THEN <<>> ELSE << <<X, Y, 1, M(X, Y)>> >>
DImplEq(p, q) == M(p[1], q[2]) = M(p[2], q[1])
DImplGen == ExtIso(1, <<GX, GY, 1, M(GX, GY)>>)

--------------------------------------------------------------------------------
(* CompressedEdwardsY::decompress, as repaired *)

EImplDec(n) ==
  LET y == n % 2^SGN  s == n \div 2^SGN
      yr == y % P  yy == S(yr)
      num == (yy - 1) % P  den == (M(yy, D) - 1) % P
      \* FieldElement::sqrt_ratio
      r  == (ISqrt(M(num, den)))[1]
      x0 == M(r, num)
      ok == M(S(x0), den) = num
      x  == IF Odd(x0) # (s % 2 = 1) THEN Neg(x0) ELSE x0
      pt == <<x, yr>>
  IN IF ~ok THEN <<>> ELSE IF EEnc(pt) = n THEN <<pt>> ELSE <<>>
=============================================================================
