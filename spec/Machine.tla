------------------------------- MODULE Machine -------------------------------
(***************************************************************************)
(* The crate as an abstract machine.  Its state is what a program that     *)
(* uses the crate holds: registers of scalars, of points of Ed448, of the  *)
(* twisted curve and of Curve448, of decaf elements, of field elements and *)
(* of byte strings, each holding the mathematical value and nothing of its *)
(* representation.  Its transitions are the calls of the API, one          *)
(* transition per call.                                                    *)
(*                                                                         *)
(* A call is a record: c.o is the operation, c.d the destination, c.a c.b  *)
(* c.c the sources, c.n a number, c.v the spelling (the crate has up to 11 *)
(* spellings of one operation), c.i a literal byte string (as an integer). *)
(*                                                                         *)
(* Value(c) is what the call gives: <<>> if it declines (a decoder that    *)
(* rejects), <<v>> otherwise.  The few operations that promise a relation  *)
(* and not a value (half of an unreduced scalar, a random scalar, the root *)
(* of a non-square) are in Relational; Related says which values they may  *)
(* give.                                                                   *)
(***************************************************************************)
EXTENDS Ed448Math

VARIABLE reg      \* [s, e, t, m, d, f, b : registers]

CONSTANTS NS, NE, NT, NM, ND, NF, NB      \* how many registers of each kind

EmptyRegs ==
  [s |-> [i \in 1..NS |-> 0],
   e |-> [i \in 1..NE |-> EId],
   t |-> [i \in 1..NT |-> TId],
   m |-> [i \in 1..NM |-> 0],
   d |-> [i \in 1..ND |-> DId],
   f |-> [i \in 1..NF |-> 0],
   b |-> [i \in 1..NB |-> 0]]

--------------------------------------------------------------------------------
(* Which registers a call writes *)

ScalarOps == {"s_lit", "s_can", "s_wide", "s_rand", "s_u32", "s_const", "s_add", "s_sub", "s_mul",
              "s_inv", "s_halve", "s_set"}
EdwardsOps == {"e_const", "e_dec", "e_add", "e_sub", "e_neg", "e_dbl", "e_torque", "e_mul", "e_mod4",
               "e_sum", "e_aff", "e_sel", "e_swap", "e_scale", "t_un"}
TwistedOps == {"t_const", "t_iso", "t_neg", "t_torque", "t_dbl", "t_add", "t_sub", "t_chain",
               "t_niels", "t_sel", "t_scale", "t_vb", "t_daa", "t_dbsm", "t_aff"}
MontOps    == {"m_lit", "m_gen", "m_mul", "m_proj", "m_sel", "m_wipe", "e_mont"}
DecafOps   == {"d_const", "d_dec", "d_add", "d_sub", "d_neg", "d_mul", "d_scale"}
FieldOps   == {"f_lit", "f_const", "f_add", "f_sub", "f_mul", "f_sqr", "f_neg", "f_inv", "f_red",
               "f_isr", "f_sqrtr", "f_cneg", "f_sel"}
ByteOps    == {"b_lit", "b_xor", "s_bytes", "s_rfc", "e_enc", "m_bytes", "d_enc"}
\* these only answer
Queries    == {"s_get", "s_bits", "s_eq", "s_radix", "e_eq", "e_tf", "t_eq", "t_aneq", "t_on", "m_low", "m_eq",
               "d_eq", "d_ceq", "d_beq", "d_rep", "f_test", "f_eq", "r_id", "x_fmt"}

\* what they may decline
Decoders   == {"s_can", "e_dec", "d_dec"}
Relational == {"s_halve", "s_rand", "f_isr", "f_sqrtr", "s_radix", "d_rep"}

File(o) == CASE o \in ScalarOps  -> "s" [] o \in EdwardsOps -> "e" [] o \in TwistedOps -> "t"
             [] o \in MontOps    -> "m" [] o \in DecafOps   -> "d" [] o \in FieldOps   -> "f"
             [] o \in ByteOps    -> "b"

--------------------------------------------------------------------------------
(* What each call gives *)

\* the byte string a call is given: a literal, or the byte register c.c (its first bytes, as many
\* as the type has)
Lit(c) == IF "i" \in DOMAIN c THEN c.i ELSE reg.b[c.c]
LitS(c) == Lit(c) % 2^SB
LitF(c) == Lit(c) % 2^FB

BoolNum(x) == IF x THEN 1 ELSE 0
Same(x, n) == LET y == BoolNum(x) IN [i \in 1..n |-> y]

FlipBit(n, k) == IF (n \div 2^k) % 2 = 1 THEN n - 2^k ELSE n + 2^k

ScalarValue(c) ==
  LET a == reg.s[c.a] b == reg.s[c.b] IN
  CASE c.o = "s_add"   -> <<SAdd(a, b)>>
    [] c.o = "s_sub"   -> <<SSub(a, b)>>
    [] c.o = "s_mul"   -> <<SMul(a, b)>>
    [] c.o = "s_inv"   -> <<SInv(a)>>
    [] c.o = "s_lit"   -> <<LitS(c)>>
    [] c.o = "s_can"   -> SCanonical(Lit(c))
    [] c.o = "s_wide"  -> <<Lit(c) % L>>
    [] c.o = "s_u32"   -> <<Lit(c)>>
    [] c.o = "s_const" -> <<IF c.v = 1 THEN 1 ELSE 0>>
    [] c.o = "s_set"   -> LET w == 2^(32 * c.n) IN <<a + (Lit(c) - ((a \div w) % 2^32)) * w>>

EdwardsValue(c) ==
  LET a == reg.e[c.a] b == reg.e[c.b] IN
  CASE c.o = "e_add"    -> <<EAdd(a, b)>>
    [] c.o = "e_sub"    -> <<ESub(a, b)>>
    [] c.o = "e_mul"    -> <<EMul(reg.s[c.b], a)>>
    [] c.o = "e_neg"    -> <<ENeg(a)>>
    [] c.o = "e_dbl"    -> <<EDouble(a)>>
    [] c.o = "e_torque" -> <<ETorque(a)>>
    [] c.o = "e_mod4"   -> <<EMul(reg.s[c.b] % 4, a)>>
    [] c.o = "e_const"  -> <<IF c.v = 1 THEN EGen ELSE EId>>
    [] c.o = "e_dec"    -> EDec(Lit(c))
    [] c.o = "e_sum"    -> <<ESum([i \in 1..Len(c.l) |-> reg.e[c.l[i]]])>>
    [] c.o = "e_aff"    -> <<a>>
    [] c.o = "e_scale"  -> <<a>>
    [] c.o = "e_sel"    -> <<IF c.n = 1 THEN b ELSE a>>
    [] c.o = "e_swap"   -> <<IF c.n = 1 THEN a ELSE b>>
    [] c.o = "t_un"     -> <<ToUntwisted(reg.t[c.a])>>

\* the generator of the twisted curve: the image of the base point
TGen == ToTwisted(EGen)

TwistedValue(c) ==
  LET a == reg.t[c.a] b == reg.t[c.b] IN
  CASE c.o = "t_add"    -> <<TAdd(a, b)>>
    [] c.o = "t_sub"    -> <<TSub(a, b)>>
    [] c.o = "t_dbl"    -> <<TDouble(a)>>
    [] c.o = "t_iso"    -> <<ToTwisted(reg.e[c.a])>>
    [] c.o = "t_neg"    -> <<TNeg(a)>>
    [] c.o = "t_torque" -> <<TTorque(a)>>
    [] c.o = "t_const"  -> <<TId>>
    [] c.o = "t_scale"  -> <<a>>
    [] c.o = "t_niels"  -> <<IF c.n = 1 THEN TNeg(a) ELSE a>>
    [] c.o = "t_sel"    -> <<IF c.n = 1 THEN b ELSE a>>
    [] c.o = "t_chain"  ->
         LET r == TMul(2^c.n, TAdd(a, b))
             q == reg.t[c.c] IN
         <<CASE c.v = 1 -> TSub(r, q)
             [] c.v \in {3, 4} -> TAdd(r, TDouble(q))
             [] c.v = 5 -> TSub(r, TDouble(q))
             [] OTHER -> TAdd(r, q)>>
    \* by way of affine points and affine Niels points
    [] c.o = "t_aff"    -> <<CASE c.v \in {0, 4} -> a
                               [] c.v = 1 -> TNeg(a)
                               [] c.v \in {2, 3} -> TAdd(a, b)
                               [] c.v = 5 -> IF c.n = 1 THEN b ELSE a
                               [] c.v \in {6, 7} -> TId
                               [] c.v = 8 -> TDouble(TAdd(a, b))>>
    [] c.o = "t_vb"     -> <<TMul(reg.s[c.b], a)>>
    [] c.o = "t_daa"    -> <<TMul(reg.s[c.b], a)>>
    [] c.o = "t_dbsm"   -> <<TAdd(TMul(reg.s[c.b], a), TMul(reg.s[c.c], TGen))>>

MontValue(c) ==
  CASE c.o = "m_mul"   -> <<Ladder(reg.s[c.b], reg.m[c.a])>>
    [] c.o = "m_lit"   -> <<LitF(c)>>
    [] c.o = "m_gen"   -> <<ToU(EGen)>>
    [] c.o = "m_proj"  -> <<reg.m[c.a] % P>>
    [] c.o = "m_sel"   -> <<reg.m[IF c.n = 1 THEN c.b ELSE c.a] % P>>
    [] c.o = "m_wipe"  -> <<0>>
    [] c.o = "e_mont"  -> <<ToU(reg.e[c.a])>>

\* By-value operations of decaf elements consume their operands, and leave the identity there
Consumes(c) == CASE c.o = "d_add" -> c.v = 1
                 [] c.o = "d_sub" -> c.v = 2
                 [] c.o = "d_neg" -> c.v = 1
                 [] c.o = "d_mul" -> c.v >= 2
                 [] OTHER -> FALSE
DecafValue(c) ==
  LET a == reg.d[c.a]
      b == IF Consumes(c) /\ c.a = c.b THEN DId ELSE reg.d[c.b]
  IN
  CASE c.o = "d_add"   -> <<DAdd(a, b)>>
    [] c.o = "d_sub"   -> <<DSub(a, b)>>
    [] c.o = "d_neg"   -> <<DNeg(a)>>
    [] c.o = "d_mul"   -> <<DMul(reg.s[c.b], a)>>
    [] c.o = "d_const" -> <<IF c.v = 1 THEN DGen ELSE DId>>
    [] c.o = "d_dec"   -> DDec(LitF(c))
    [] c.o = "d_scale" -> <<a>>

FieldValue(c) ==
  LET a == reg.f[c.a] b == reg.f[c.b] IN
  CASE c.o = "f_mul"   -> <<(a * b) % P>>
    [] c.o = "f_add"   -> <<(a + b) % P>>
    [] c.o = "f_sub"   -> <<(a - b) % P>>
    [] c.o = "f_sqr"   -> <<(a * a) % P>>
    [] c.o = "f_neg"   -> <<Neg(a)>>
    [] c.o = "f_inv"   -> <<Inv(a)>>
    [] c.o = "f_lit"   -> <<LitF(c) % P>>
    [] c.o = "f_const" -> <<IF c.v = 0 THEN 0 ELSE 1>>
    [] c.o = "f_red"   -> <<a>>
    [] c.o = "f_cneg"  -> <<IF c.n = 1 THEN Neg(a) ELSE a>>
    [] c.o = "f_sel"   -> <<IF c.n = 1 THEN b ELSE a>>

ByteValue(c) ==
  CASE c.o = "b_lit"   -> <<c.i>>
    [] c.o = "b_xor"   -> <<FlipBit(reg.b[c.a], c.n)>>
    [] c.o = "s_bytes" -> <<reg.s[c.a]>>
    [] c.o = "s_rfc"   -> <<reg.s[c.a]>>
    [] c.o = "e_enc"   -> <<EEnc(reg.e[c.a])>>
    [] c.o = "m_bytes" -> <<reg.m[c.a]>>
    [] c.o = "d_enc"   -> <<DEnc(reg.d[c.a])>>

Value(c) ==
  CASE c.o \in ScalarOps  -> ScalarValue(c)
    [] c.o \in EdwardsOps -> EdwardsValue(c)
    [] c.o \in TwistedOps -> TwistedValue(c)
    [] c.o \in MontOps    -> MontValue(c)
    [] c.o \in DecafOps   -> DecafValue(c)
    [] c.o \in FieldOps   -> FieldValue(c)
    [] c.o \in ByteOps    -> ByteValue(c)

\* whether the four coordinates in n (X the least significant) are those of a point of the curve
\* a x^2 + y^2 = 1 + d x^2 y^2, given that Z is not zero
OnExt(a, d, n) ==
  LET w == 2^FB  X == n % w  Y == (n \div w) % w  Z == (n \div w^2) % w  T == n \div w^3 IN
  /\ (X * Y - Z * T) % P = 0
  /\ (a * X^2 + Y^2 - Z^2 - d * T^2) % P = 0

\* The answer of a query
Answer(c) ==
  CASE c.o = "s_get"  -> (reg.s[c.a] \div 2^(32 * c.n)) % 2^32
    [] c.o = "s_bits" -> reg.s[c.a]
    [] c.o = "s_eq"   -> Same(reg.s[c.a] = reg.s[c.b], 3)
    [] c.o = "e_eq"   -> Same(reg.e[c.a] = reg.e[c.b], 3)
    [] c.o = "e_tf"   -> Same(ETorsionFree(reg.e[c.a]), 1)
    [] c.o = "t_eq"   -> Same(reg.t[c.a] = reg.t[c.b], 9)
    [] c.o = "t_aneq" -> Same(reg.t[c.a] = reg.t[c.b], 2)
    [] c.o = "t_on"   -> <<BoolNum(OnExt(1, D, c.i)), BoolNum(OnExt(-1, TD, c.i))>>
    [] c.o = "m_low"  -> Same(LowOrder(reg.m[c.a]), 1)
    [] c.o = "m_eq"   -> Same(reg.m[c.a] = reg.m[c.b], 4)
    [] c.o = "d_eq"   -> Same(DEnc(reg.d[c.a]) = DEnc(reg.d[c.b]), 1)
    [] c.o = "d_ceq"  -> Same(DEnc(reg.d[c.a]) = DEnc(reg.d[c.b]), 3)
    [] c.o = "d_beq"  -> Same(reg.b[c.a] % 2^FB = reg.b[c.b] % 2^FB, 3)
    [] c.o = "f_test" -> <<reg.f[c.a] % 2, BoolNum(reg.f[c.a] = 0)>>
    [] c.o = "f_eq"   -> Same(reg.f[c.a] = reg.f[c.b], 1)
    [] c.o = "r_id"   -> Same(TRUE, 4)
    [] c.o = "x_fmt"  -> Same(TRUE, 1)

\* whether c may give w, for an operation in Relational
Related(c, w) ==
  CASE c.o = "s_halve" -> SIsHalf(reg.s[c.a], w)
    [] c.o = "s_rand"  ->                     \* c.n bytes were drawn from the generator
         /\ c.n = 114
         /\ "i" \in DOMAIN c => w = c.i % L
         /\ w < L
    [] c.o = "f_isr"   -> LET a == reg.f[c.a] IN      \* w = <<root, flag>>
         IF a # 0 /\ Square(a) THEN w[2] = 1 /\ (w[1] * w[1] * a) % P = 1 ELSE w[2] = 0
    [] c.o = "f_sqrtr" -> LET u == reg.f[c.a] v == reg.f[c.b] IN
         IF u = 0 THEN w = <<0, 1>>
         ELSE IF v # 0 /\ Square((u * v) % P) THEN w[2] = 1 /\ (w[1] * w[1] * v - u) % P = 0
         ELSE w[2] = 0
    [] c.o = "s_radix" ->                             \* signed base-16 digits
         /\ \A i \in 1..Len(w) : w[i] >= -8 /\ w[i] <= 8
         /\ Undigits(w, 4) = reg.s[c.a]

--------------------------------------------------------------------------------
(* The transition of a call that gives v *)

After(c, v) ==
  IF c.o \in Queries \/ v = <<>> THEN reg
  ELSE IF c.o \in DecafOps /\ Consumes(c)
       THEN [reg EXCEPT !.d = [i \in 1..ND |->
              IF i = c.d THEN v[1]
              ELSE IF i = c.a \/ (c.o # "d_mul" /\ c.o # "d_neg" /\ i = c.b) THEN DId
              ELSE reg.d[i]]]
       ELSE [reg EXCEPT ![File(c.o)][c.d] = v[1]]

Call(c) == reg' = After(c, Value(c))
=============================================================================
