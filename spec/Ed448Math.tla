------------------------------ MODULE Ed448Math ------------------------------
(***************************************************************************)
(* The mathematics the crate promises to compute, written as directly as   *)
(* possible: RFC 8032 (Ed448 points and their encoding), RFC 7748 (X448),  *)
(* RFC 9496 (decaf448) and the integers modulo the group order.            *)
(*                                                                         *)
(* Everything is parametric, so that the same operators are used at the    *)
(* real size (Params448), to judge executions of the crate, and on curves  *)
(* small enough for TLC to enumerate every point, scalar and byte string   *)
(* (the MC_ models), to check the theory itself.  The curve has to be of the same    *)
(* kind as Ed448: P = 7 (mod 8), D and 1 - D non-squares, order 4 L.       *)
(*                                                                         *)
(* "Nothing" is <<>> and "just v" is <<v>>.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS
  P,       \* the field is the integers modulo P
  D,       \* x^2 + y^2 = 1 + D x^2 y^2, 0 <= D < P
  L,       \* order of the prime-order group
  FB,      \* bits in the encoding of a field element
  SGN,     \* which bit of an encoded Edwards point holds the sign of x
  SB,      \* bits of a scalar
  GX, GY,  \* the generator: the base point of RFC 8032
  SMD      \* SQRT_MINUS_D of RFC 9496: the non-negative root of -D

--------------------------------------------------------------------------------
(* Integers as digits *)

\* n in base 2^w, k digits, most significant first
Digits(n, w, k) == [j \in 1..k |-> (n \div 2^(w * (k - j))) % 2^w]
\* least significant first
DigitsLE(n, w, k) == [j \in 1..k |-> (n \div 2^(w * (j - 1))) % 2^w]
\* the integer with the digits q, base 2^w, least significant first
Undigits(q, w) == FoldRight(LAMBDA x, acc : acc * 2^w + x, q, 0)

--------------------------------------------------------------------------------
(* The field *)

Field == 0..(P - 1)
Mod(a) == a % P
Neg(a) == (P - a) % P
Odd(a) == a % 2 = 1                      \* "negative", for an element of the field
Abs(a) == IF Odd(a) THEN P - a ELSE a    \* 0 is even

\* b^e mod m, where e is given by its base-16 digits (most significant first)
PowDigits(b, e, m) ==
  LET t1 == b % m            t2 == (t1 * t1) % m    t3 == (t2 * t1) % m    t4 == (t2 * t2) % m
      t5 == (t4 * t1) % m    t6 == (t3 * t3) % m    t7 == (t6 * t1) % m    t8 == (t4 * t4) % m
      t9 == (t8 * t1) % m    t10 == (t5 * t5) % m   t11 == (t10 * t1) % m  t12 == (t6 * t6) % m
      t13 == (t12 * t1) % m  t14 == (t7 * t7) % m   t15 == (t14 * t1) % m
      tab == <<t1, t2, t3, t4, t5, t6, t7, t8, t9, t10, t11, t12, t13, t14, t15>>
  IN FoldLeft(LAMBDA acc, x :
                LET a2 == (acc * acc) % m  a4 == (a2 * a2) % m
                    a8 == (a4 * a4) % m    a16 == (a8 * a8) % m
                IN IF x = 0 THEN a16 ELSE (a16 * tab[x]) % m,
              1 % m, e)

FDigits == (FB + 3) \div 4
ExpInv  == Digits(P - 2, 4, FDigits)
ExpISqrt == Digits((P - 3) \div 4, 4, FDigits)
ExpChi  == Digits((P - 1) \div 2, 4, FDigits)

Inv(a) == PowDigits(a, ExpInv, P)                \* and Inv(0) = 0
Square(a) == a = 0 \/ PowDigits(a, ExpChi, P) = 1
\* 1/sqrt(a): <<r, TRUE>> with r^2 a = 1 if a is a non-zero square
ISqrt(a) == LET r == PowDigits(a, ExpISqrt, P) IN <<r, (((r * r) % P) * a) % P = 1>>

Half == (P + 1) \div 2
InvSMD == Inv(SMD)

--------------------------------------------------------------------------------
(* Twisted Edwards curves  a x^2 + y^2 = 1 + d x^2 y^2: the textbook law on affine points *)

OnCurve(a, d, q) == LET x == q[1] y == q[2] IN
  /\ x \in Nat /\ y \in Nat /\ x < P /\ y < P
  /\ (a * x * x + y * y - 1 - d * ((x * x) % P) * ((y * y) % P)) % P = 0

\* where a denominator is 0 the law does not apply, and this gives (0, 0) or so
AffAdd(a, d, p, q) ==
  LET x1 == p[1] y1 == p[2] x2 == q[1] y2 == q[2]
      k  == (d * ((x1 * x2) % P) * ((y1 * y2) % P)) % P
      i  == Inv(((1 + k) * (1 - k)) % P)            \* one inversion for both
  IN << ((x1 * y2 + y1 * x2) * ((i * (1 - k)) % P)) % P,
        ((y1 * y2 - a * x1 * x2) * ((i * (1 + k)) % P)) % P >>
AffDefined(a, d, p, q) ==
  LET k == (d * ((p[1] * q[1]) % P) * ((p[2] * q[2]) % P)) % P IN (1 + k) % P # 0 /\ (1 - k) % P # 0

\* The same law without divisions, on (X : Y : Z)
ProjAdd(a, d, p, q) ==
  LET A == (p[3] * q[3]) % P   B == (A * A) % P
      C == (p[1] * q[1]) % P   E == (p[2] * q[2]) % P
      F == (d * ((C * E) % P)) % P
  IN << (((A * (B - F)) % P) * ((p[1] + p[2]) * (q[1] + q[2]) - C - E)) % P,
        (((A * (B + F)) % P) * (E - a * C)) % P,
        ((B - F) * (B + F)) % P >>
ProjDouble(a, p) ==
  LET B == ((p[1] + p[2]) * (p[1] + p[2])) % P
      C == (p[1] * p[1]) % P   E == (p[2] * p[2]) % P
      F == a * C + E           J == F - 2 * p[3] * p[3]
  IN << ((B - C - E) * J) % P, (F * (a * C - E)) % P, (F * J) % P >>
ToAffine(p) == LET i == Inv(p[3]) IN << (p[1] * i) % P, (p[2] * i) % P >>

\* [n] p, four bits at a time; n < 2^SB
ScalarDigits == (SB + 3) \div 4
AffMul(a, d, n, p) ==
  LET p1 == <<p[1], p[2], 1>>
      p2 == ProjDouble(a, p1)      p3 == ProjAdd(a, d, p2, p1)   p4 == ProjDouble(a, p2)
      p5 == ProjAdd(a, d, p4, p1)  p6 == ProjDouble(a, p3)       p7 == ProjAdd(a, d, p6, p1)
      p8 == ProjDouble(a, p4)      p9 == ProjAdd(a, d, p8, p1)   p10 == ProjDouble(a, p5)
      p11 == ProjAdd(a, d, p10, p1) p12 == ProjDouble(a, p6)     p13 == ProjAdd(a, d, p12, p1)
      p14 == ProjDouble(a, p7)     p15 == ProjAdd(a, d, p14, p1)
      tab == <<p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11, p12, p13, p14, p15>>
  IN ToAffine(
       FoldLeft(LAMBDA acc, x :
                  LET q == ProjDouble(a, ProjDouble(a, ProjDouble(a, ProjDouble(a, acc))))
                  IN IF x = 0 THEN q ELSE ProjAdd(a, d, q, tab[x]),
                <<0, 1, 1>>, Digits(n, 4, ScalarDigits)))

--------------------------------------------------------------------------------
(* Ed448 *)

EOn(p)     == OnCurve(1, D, p)
EId        == <<0, 1>>
EGen       == <<GX, GY>>
ENeg(p)    == <<Neg(p[1]), p[2]>>
ETorque(p) == <<Neg(p[1]), Neg(p[2])>>          \* p + (0, -1)
EAdd(p, q) == AffAdd(1, D, p, q)
ESub(p, q) == EAdd(p, ENeg(q))
EDouble(p) == EAdd(p, p)
EMul(n, p) == AffMul(1, D, n, p)
ESum(q)    == FoldLeft(LAMBDA acc, p : EAdd(acc, p), EId, q)
ETorsionFree(p) == EMul(L, p) = EId

\* RFC 8032, 5.2.2: y, and the sign of x in the top bit
EEnc(p) == p[2] + (p[1] % 2) * 2^SGN
\* RFC 8032, 5.2.3
EDec(n) ==
  LET y == n % 2^SGN
      s == n \div 2^SGN
      u == (y * y - 1) % P
      v == (D * ((y * y) % P) - 1) % P
      w == (u * v) % P
      r == ISqrt(w)                     \* x^2 = u/v, so that x = u/sqrt(uv)
      x == (u * r[1]) % P
  IN IF y >= P \/ s > 1 THEN <<>>
     ELSE IF u = 0 THEN (IF s = 1 THEN <<>> ELSE << <<0, y>> >>)
     ELSE IF ~r[2] THEN <<>>
     ELSE << <<IF x % 2 = s THEN x ELSE P - x, y>> >>

--------------------------------------------------------------------------------
(* The isogenous curve  -x^2 + y^2 = 1 + (D - 1) x^2 y^2  the crate multiplies on *)

TD         == (D - 1) % P
TOn(p)     == OnCurve(-1, TD, p)
TId        == <<0, 1>>
TNeg(p)    == <<Neg(p[1]), p[2]>>
TTorque(p) == <<Neg(p[1]), Neg(p[2])>>
TAdd(p, q) == AffAdd(-1, TD, p, q)
TSub(p, q) == TAdd(p, TNeg(q))
TDouble(p) == TAdd(p, p)
TMul(n, p) == AffMul(-1, TD, n, p)

\* The isogeny between the two curves (of degree 4, the crate calls it a 2-isogeny) and its dual:
\* b = 1 from Ed448, b = -1 back
Isogeny(b, p) ==
  LET x == p[1] y == p[2]
      m == (y * y - b * x * x) % P
      n == (y * y + b * x * x) % P
      i == Inv((m * (2 - n)) % P)
  IN << (2 * x * y * ((i * (2 - n)) % P)) % P, (n * ((i * m) % P)) % P >>
ToTwisted(p)   == Isogeny(1, p)
ToUntwisted(p) == Isogeny(-1, p)

--------------------------------------------------------------------------------
(* Curve448, u-coordinates only: RFC 7748, section 5, without the clamping of the scalar.
   A is 2 - 4 D, so that a24 = (A - 2) / 4 = -D. *)

A24 == Neg(D)
Ladder(k, u) ==
  LET x1 == u % P
      step(st, bit) ==                       \* st = <<x2, z2, x3, z3>>
        LET q  == IF bit = 1 THEN <<st[3], st[4], st[1], st[2]>> ELSE st
            A  == q[1] + q[2]   AA == (A * A) % P
            B  == q[1] - q[2]   BB == (B * B) % P
            E  == AA - BB
            C  == q[3] + q[4]   F  == q[3] - q[4]
            DA == (F * A) % P   CB == (C * B) % P
            r  == << (AA * BB) % P,
                     (E * ((AA + A24 * E) % P)) % P,
                     ((DA + CB) * (DA + CB)) % P,
                     (x1 * (((DA - CB) * (DA - CB)) % P)) % P >>
        IN IF bit = 1 THEN <<r[3], r[4], r[1], r[2]>> ELSE r
      z  == FoldLeft(step, <<1, 0, x1, 1>>, Digits(k, 1, SB))
  IN (z[1] * Inv(z[2])) % P

\* The 4-isogeny from Ed448, y^2/x^2; the points of order 1, 2 and 4 have u = 0
ToU(p) == LET i == Inv(p[1]) IN ((p[2] * p[2]) % P) * ((i * i) % P) % P
\* of order 1, 2 or 4 on the curve or on its twist
LowOrder(u) == u % P \in {0, 1, P - 1}

--------------------------------------------------------------------------------
(* decaf448: RFC 9496, section 5.3.  An element is represented by a point of Ed448; two points
   represent the same element iff DEq, and every element has one encoding. *)

DId   == EId
\* RFC 9496 has the element of the double of the base point as the generator
DGen  == EDouble(EGen)
DEq(p, q) == (p[1] * q[2] - p[2] * q[1]) % P = 0
DAdd(p, q) == EAdd(p, q)
DSub(p, q) == ESub(p, q)
DNeg(p)    == ENeg(p)
DMul(n, p) == EMul(n, p)

DEnc(p) ==
  LET x == p[1] y == p[2] t == (x * y) % P
      u1 == ((x + t) * (x - t)) % P
      v  == (u1 * (((1 - D) * x) % P)) % P
      inv == Abs(ISqrt((v * x) % P)[1])
      rat == Abs((((inv * u1) % P) * SMD) % P)
      u2 == (InvSMD * rat - t) % P
  IN Abs(((((1 - D) * inv) % P) * ((x * u2) % P)) % P)

DDec(s) ==
  LET ss == (s * s) % P
      u1 == (1 + ss) % P
      u2 == (u1 * u1 - 4 * D * ss) % P
      r  == ISqrt((u2 * ((u1 * u1) % P)) % P)
      iu == (r[1] * u1) % P
      u3 == Abs((((2 * s * iu) % P) * SMD) % P)
      x  == (((u3 * r[1]) % P) * ((u2 * InvSMD) % P)) % P
      y  == ((1 - ss) * iu) % P
  IN IF s >= P \/ Odd(s) \/ ~r[2] THEN <<>> ELSE << <<x, y>> >>

\* The encoding from a representative on the twisted curve (Hamburg, "Decaf", and libdecaf), with
\* DEncTwisted(ToTwisted(p)) = DEnc(2 p)
DEncTwisted(q) ==
  LET x == q[1] t == (q[1] * q[2]) % P
      u == ((x + t) * (x - t)) % P
      i == ISqrt((((x * x) % P) * ((u * Neg(D)) % P)) % P)[1]
      r == (i * u) % P
      k == (IF Odd((r * SMD) % P) THEN -r ELSE r) - t
  IN Abs((((k * Neg(D)) % P) * ((i * x) % P)) % P)

--------------------------------------------------------------------------------
(* Scalars: any integer of SB bits can be held; results of arithmetic are reduced modulo L *)

ExpLInv == Digits(L - 2, 4, ScalarDigits)
SAdd(a, b) == (a + b) % L
SSub(a, b) == (a - b) % L
SMul(a, b) == (a * b) % L
SInv(a)    == PowDigits(a, ExpLInv, L)       \* and SInv(0) = 0
\* h is a half of a: twice h is a, and h is reduced if a is
SIsHalf(a, h) == (2 * h - a) % L = 0 /\ (a < L => h < L) /\ h >= 0 /\ h < 2^SB
SCanonical(n) == IF n < L THEN <<n>> ELSE <<>>
=============================================================================
