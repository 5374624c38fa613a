--------------------------------- MODULE Logs ---------------------------------
(***************************************************************************)
(* The machine by discrete logarithms.  Every point a program can build    *)
(* from the base point and the points of order 4 is k B + t T with T =     *)
(* (1, 0); every group operation of the API is linear in k and t.  So the  *)
(* same histories can be followed at the real size at the cost of a few    *)
(* additions, and relations between registers (equal, opposite, equal up   *)
(* to torsion, zero) are decided at sight.                                 *)
(*                                                                         *)
(* MC_Logs checks on small curves that this is the machine: every call     *)
(* commutes with the map to points.  Gen uses it to choose behaviours      *)
(* worth executing.                                                        *)
(*                                                                         *)
(* lreg holds, by file: s integers; e <<k, t>>; t <<k, t>>, k ToTwisted(B) *)
(* + t (0, -1); m <<k, t>> the u of k B + t T; d <<k>>, k times the decaf  *)
(* generator; b <<kind, ...>> the encoding of such a value.  <<>> is a     *)
(* value whose logarithm is not known.                                     *)
(***************************************************************************)
EXTENDS Machine

VARIABLE lreg

LEmpty ==
  [s |-> [i \in 1..NS |-> <<0>>],
   e |-> [i \in 1..NE |-> <<0, 0>>],
   t |-> [i \in 1..NT |-> <<0, 0>>],
   m |-> [i \in 1..NM |-> <<0, 0>>],
   d |-> [i \in 1..ND |-> <<0>>],
   b |-> [i \in 1..NB |-> <<>>]]

\* x + c y, torsion modulo n
Lin(x, c, y, n) == <<(x[1] + c * y[1]) % L, (x[2] + c * y[2]) % n>>
Times(c, x, n) == <<(c * x[1]) % L, (c * x[2]) % n>>
Fst(x) == <<x[1] % L>>

\* an operand in full: from which file each operation reads, and what it needs to know
LValue(c) ==
  LET s(i) == lreg.s[i]   e(i) == lreg.e[i]  t(i) == lreg.t[i]
      m(i) == lreg.m[i]   d(i) == lreg.d[i]  b(i) == lreg.b[i]
      \* by-value decaf calls take the first operand before they look at the second
      db   == IF Consumes(c) /\ c.a = c.b THEN <<0>> ELSE d(c.b)
      S1(x)    == IF x = <<>> THEN <<>> ELSE x
  IN
  CASE c.o \in {"s_add", "s_sub", "s_mul"} ->
         IF s(c.a) = <<>> \/ s(c.b) = <<>> THEN <<>>
         ELSE LET x == s(c.a)[1] y == s(c.b)[1] IN
              <<CASE c.o = "s_add" -> SAdd(x, y) [] c.o = "s_sub" -> SSub(x, y) [] OTHER -> SMul(x, y)>>
    [] c.o = "s_inv"   -> IF s(c.a) = <<>> THEN <<>> ELSE <<SInv(s(c.a)[1])>>
    [] c.o \in {"s_lit", "s_u32"} -> IF "i" \in DOMAIN c THEN <<c.i>> ELSE IF b(c.c) # <<>> /\ b(c.c)[1] = "s" THEN <<b(c.c)[2]>> ELSE <<>>
    [] c.o = "s_can"   -> IF "i" \in DOMAIN c THEN <<c.i>> ELSE IF b(c.c) # <<>> /\ b(c.c)[1] = "s" /\ b(c.c)[2] < L THEN <<b(c.c)[2]>> ELSE <<>>
    [] c.o = "s_const" -> <<IF c.v = 1 THEN 1 ELSE 0>>
    [] c.o = "s_halve" -> <<>>
    [] c.o \in {"e_add", "e_sub"} ->
         IF e(c.a) = <<>> \/ e(c.b) = <<>> THEN <<>> ELSE Lin(e(c.a), IF c.o = "e_add" THEN 1 ELSE -1, e(c.b), 4)
    [] c.o = "e_neg"   -> IF e(c.a) = <<>> THEN <<>> ELSE Times(-1, e(c.a), 4)
    [] c.o = "e_dbl"   -> IF e(c.a) = <<>> THEN <<>> ELSE Times(2, e(c.a), 4)
    [] c.o = "e_torque" -> IF e(c.a) = <<>> THEN <<>> ELSE Lin(e(c.a), 1, <<0, 2>>, 4)
    [] c.o = "e_mul"   -> IF e(c.a) = <<>> \/ s(c.b) = <<>> THEN <<>> ELSE Times(s(c.b)[1], e(c.a), 4)
    [] c.o = "e_mod4"  -> IF e(c.a) = <<>> \/ s(c.b) = <<>> THEN <<>> ELSE Times(s(c.b)[1] % 4, e(c.a), 4)
    [] c.o = "e_const" -> <<IF c.v = 1 THEN 1 ELSE 0, 0>>
    [] c.o = "e_sum"   -> IF \E i \in 1..Len(c.l) : e(c.l[i]) = <<>> THEN <<>>
                          ELSE FoldLeft(LAMBDA acc, i : Lin(acc, 1, e(i), 4), <<0, 0>>, c.l)
    [] c.o \in {"e_aff", "e_scale"} -> e(c.a)
    [] c.o = "e_sel"   -> e(IF c.n = 1 THEN c.b ELSE c.a)
    [] c.o = "e_swap"  -> e(IF c.n = 1 THEN c.a ELSE c.b)
    [] c.o = "e_dec"   -> IF "k" \in DOMAIN c THEN c.k
                          ELSE IF b(c.c) # <<>> /\ b(c.c)[1] = "e" THEN <<b(c.c)[2], b(c.c)[3]>> ELSE <<>>
    [] c.o = "t_un"    -> IF t(c.a) = <<>> THEN <<>> ELSE <<(4 * t(c.a)[1]) % L, 0>>
    [] c.o = "t_iso"   -> IF e(c.a) = <<>> THEN <<>> ELSE <<e(c.a)[1], 0>>
    [] c.o \in {"t_add", "t_sub"} ->
         IF t(c.a) = <<>> \/ t(c.b) = <<>> THEN <<>> ELSE Lin(t(c.a), IF c.o = "t_add" THEN 1 ELSE -1, t(c.b), 2)
    [] c.o = "t_dbl"   -> IF t(c.a) = <<>> THEN <<>> ELSE Times(2, t(c.a), 2)
    [] c.o = "t_neg"   -> IF t(c.a) = <<>> THEN <<>> ELSE Times(-1, t(c.a), 2)
    [] c.o = "t_torque" -> IF t(c.a) = <<>> THEN <<>> ELSE Lin(t(c.a), 1, <<0, 1>>, 2)
    [] c.o = "t_const" -> <<0, 0>>
    [] c.o = "t_scale" -> t(c.a)
    [] c.o = "t_niels" -> IF t(c.a) = <<>> THEN <<>> ELSE IF c.n = 1 THEN Times(-1, t(c.a), 2) ELSE t(c.a)
    [] c.o = "t_sel"   -> t(IF c.n = 1 THEN c.b ELSE c.a)
    [] c.o = "t_aff"   -> IF t(c.a) = <<>> \/ t(c.b) = <<>> THEN <<>>
                          ELSE (CASE c.v \in {0, 4} -> t(c.a)
                                 [] c.v = 1 -> Times(-1, t(c.a), 2)
                                 [] c.v \in {2, 3} -> Lin(t(c.a), 1, t(c.b), 2)
                                 [] c.v = 5 -> t(IF c.n = 1 THEN c.b ELSE c.a)
                                 [] c.v \in {6, 7} -> <<0, 0>>
                                 [] c.v = 8 -> Times(2, Lin(t(c.a), 1, t(c.b), 2), 2))
    [] c.o \in {"t_vb", "t_daa"} -> IF t(c.a) = <<>> \/ s(c.b) = <<>> THEN <<>> ELSE Times(s(c.b)[1], t(c.a), 2)
    [] c.o = "t_dbsm"  -> IF t(c.a) = <<>> \/ s(c.b) = <<>> \/ s(c.c) = <<>> THEN <<>>
                          ELSE Lin(Times(s(c.b)[1], t(c.a), 2), s(c.c)[1], <<1, 0>>, 2)
    [] c.o = "t_chain" ->
         IF t(c.a) = <<>> \/ t(c.b) = <<>> \/ t(c.c) = <<>> THEN <<>>
         ELSE LET r == Times(2^c.n, Lin(t(c.a), 1, t(c.b), 2), 2) IN
              Lin(r, CASE c.v = 1 -> -1 [] c.v \in {3, 4} -> 2 [] c.v = 5 -> -2 [] OTHER -> 1, t(c.c), 2)
    [] c.o = "m_mul"   -> IF m(c.a) = <<>> \/ s(c.b) = <<>> THEN <<>> ELSE Times(s(c.b)[1], m(c.a), 2)
    [] c.o = "m_gen"   -> <<1, 0>>
    [] c.o = "m_proj"  -> m(c.a)
    [] c.o = "m_sel"   -> m(IF c.n = 1 THEN c.b ELSE c.a)
    [] c.o = "m_wipe"  -> <<0, 0>>
    [] c.o = "m_lit"   -> IF "i" \notin DOMAIN c /\ b(c.c) # <<>> /\ b(c.c)[1] = "m" THEN <<b(c.c)[2], b(c.c)[3]>> ELSE <<>>
    [] c.o = "e_mont"  -> IF e(c.a) = <<>> THEN <<>> ELSE <<e(c.a)[1], e(c.a)[2] % 2>>
    [] c.o \in {"d_add", "d_sub"} ->
         IF d(c.a) = <<>> \/ db = <<>> THEN <<>> ELSE <<(d(c.a)[1] + (IF c.o = "d_add" THEN 1 ELSE -1) * db[1]) % L>>
    [] c.o = "d_neg"   -> IF d(c.a) = <<>> THEN <<>> ELSE <<(-d(c.a)[1]) % L>>
    [] c.o = "d_mul"   -> IF d(c.a) = <<>> \/ s(c.b) = <<>> THEN <<>> ELSE <<(s(c.b)[1] * d(c.a)[1]) % L>>
    [] c.o = "d_const" -> <<IF c.v = 1 THEN 1 ELSE 0>>
    [] c.o = "d_scale" -> d(c.a)
    [] c.o = "d_dec"   -> IF "k" \in DOMAIN c THEN c.k
                          ELSE IF b(c.c) # <<>> /\ b(c.c)[1] = "d" THEN <<b(c.c)[2]>> ELSE <<>>
    [] c.o \in {"s_bytes", "s_rfc"} -> IF s(c.a) = <<>> THEN <<>> ELSE <<"s", s(c.a)[1]>>
    [] c.o = "e_enc"   -> IF e(c.a) = <<>> THEN <<>> ELSE <<"e">> \o e(c.a)
    [] c.o = "m_bytes" -> IF m(c.a) = <<>> THEN <<>> ELSE <<"m">> \o m(c.a)
    [] c.o = "d_enc"   -> IF d(c.a) = <<>> THEN <<>> ELSE <<"d">> \o d(c.a)
    \* the sign bit of an encoded point that is not its own opposite
    [] c.o = "b_xor"   -> IF b(c.a) # <<>> /\ b(c.a)[1] = "e" /\ c.n = SGN /\ <<b(c.a)[2], b(c.a)[3] % 2>> # <<0, 0>>
                          THEN <<"e">> \o Times(-1, <<b(c.a)[2], b(c.a)[3]>>, 4) ELSE <<>>
    [] c.o = "b_lit"   -> <<>>

LAfter(c, v) ==
  IF c.o \in Queries THEN lreg
  ELSE IF c.o \in DecafOps /\ Consumes(c)
       THEN [lreg EXCEPT !.d = [i \in 1..ND |->
              IF i = c.d THEN v
              ELSE IF i = c.a \/ (c.o # "d_mul" /\ c.o # "d_neg" /\ i = c.b) THEN <<0>>
              ELSE lreg.d[i]]]
       ELSE [lreg EXCEPT ![File(c.o)][c.d] = v]

--------------------------------------------------------------------------------
(* The points *)

T4 == <<1, 0>>
EPoint(x) == EAdd(EMul(x[1], EGen), EMul(x[2], T4))
TPoint(x) == TAdd(TMul(x[1], TGen), IF x[2] = 1 THEN <<0, P - 1>> ELSE TId)
MPoint(x) == ToU(EPoint(x))
DPoint(x) == DMul(x[1], DGen)
BPoint(x) == CASE x[1] = "s" -> x[2]
               [] x[1] = "e" -> EEnc(EPoint(<<x[2], x[3]>>))
               [] x[1] = "m" -> MPoint(<<x[2], x[3]>>)
               [] x[1] = "d" -> DEnc(DPoint(<<x[2]>>))
=============================================================================
