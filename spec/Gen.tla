--------------------------------- MODULE Gen ----------------------------------
(***************************************************************************)
(* Behaviours worth executing, from the specification: random walks (TLC   *)
(* -simulate) of the machine by logarithms at the real size.  At each step *)
(* a few calls are drawn and the one is taken that covers most of what was *)
(* not covered before, by this or by an earlier walk: an operation and     *)
(* spelling with operands of some classes and in some relation, an         *)
(* operation on what other operations gave, a pattern of aliasing.         *)
(* A finished walk is printed; the driver turns it into a program.         *)
(***************************************************************************)
EXTENDS Params448, Logs, Json, TLC, FiniteSets

CONSTANTS Focus,       \* the operations most wanted
          Others,      \* further operations
          Load,        \* a sequence: the operations a walk begins with, from literals
          Length       \* of a walk after that

VARIABLES hist, prov
gvars == <<reg, lreg, hist, prov>>

--------------------------------------------------------------------------------
(* Literals *)

Big == 2^445 + 2^444 + 1234567891 * 2^200 + 987654321
SPool == <<0, 1, 2, 3, 4, 5, 7, 8, 15, 16, L - 1, L, L + 1, L - 2, L + 2, 2 * L - 1, 2 * L, 2 * L + 1, 3 * L, 3 * L + 2, 4 * L - 1, 4 * L, 4 * L + 1,
           2^448 - 1, 2^448 - 2, 2^447, 2^446, 2^446 - 1, 2^224, 2^32, 2^32 - 1, (L - 1) \div 2, (L + 1) \div 2, Big, L - (Big % L),
           SInv(2), SInv(3), SInv(4), SInv(L - 2)>>
KPool == <<0, 1, 2, 3, 4, 8, L - 1, L - 2, L - 3, (L + 1) \div 2, (L - 1) \div 2, SInv(4), Big % L, L - (Big % L), (2 * Big) % L, SInv(3)>>
Pick(q) == q[RandomElement(1..Len(q))]
Coin(n) == RandomElement(1..n) = 1
RandBig(j) == RandomElement(0..1073741823) + 2^30 * RandomElement(0..1073741823) * (2^385 + 1) + 2^180 * RandomElement(0..1073741823)
RandScalar(j) == IF Coin(3) THEN RandBig(j) % 2^SB ELSE Pick(SPool)
\* often one related to what a register holds
RandLog(j) == IF Coin(3) THEN RandBig(j) % L
              ELSE IF Coin(2) THEN Pick(KPool)
              ELSE LET x == IF Coin(3) THEN lreg.d[RandomElement(1..4)] ELSE lreg.e[RandomElement(1..4)] IN
                   IF x = <<>> THEN 1 ELSE (RandomElement({1, -1, -1, 2, -2}) * x[1]) % L

--------------------------------------------------------------------------------
(* Calls *)

Spellings == [o \in Focus \cup Others |->
  CASE o = "e_add" -> 8 [] o = "e_sub" -> 6 [] o = "e_neg" -> 3 [] o = "e_mul" -> 11 [] o = "e_sum" -> 4
    [] o = "e_const" -> 3 [] o = "d_const" -> 3 [] o = "s_const" -> 3 [] o = "d_add" -> 2 [] o = "d_sub" -> 3 [] o = "d_neg" -> 2
    [] o = "d_mul" -> 4 [] o = "m_mul" -> 2 [] o = "t_add" -> 3 [] o = "t_sub" -> 2 [] o = "t_chain" -> 6 [] o = "e_sel" -> 3
    [] o = "t_sel" -> 5 [] o = "m_sel" -> 3 [] OTHER -> 1]
Size(f) == CASE f = "s" -> NS [] f = "e" -> NE [] f = "t" -> NT [] f = "m" -> NM [] f = "d" -> ND [] f = "b" -> NB
Few(n) == IF n < 4 THEN n ELSE 4
\* the last register of a file is for what has no logarithm
Reg(f) == RandomElement(1..Few(Size(f) - 1))
Src(f) == IF Coin(12) THEN Size(f) ELSE Reg(f)

\* the files an operation reads as a, b, c
FileA(o) == CASE o \in {"t_iso", "e_mont", "e_enc"} -> "e" [] o = "t_un" -> "t" [] o \in {"s_bytes", "s_rfc"} -> "s"
              [] o = "m_bytes" -> "m" [] o = "d_enc" -> "d" [] o = "d_beq" -> "b"
              [] o \in Queries -> (CASE o \in {"s_eq", "s_bits", "s_radix", "s_get"} -> "s" [] o \in {"e_eq", "e_tf"} -> "e" [] o = "t_eq" -> "t"
                                     [] o \in {"m_eq", "m_low"} -> "m" [] o \in {"d_eq", "d_ceq", "d_rep"} -> "d" [] OTHER -> "e")
              [] OTHER -> File(o)
FileB(o) == IF o \in {"e_mul", "e_mod4", "t_vb", "t_daa", "t_dbsm", "m_mul", "d_mul"} THEN "s" ELSE FileA(o)
FileC(o) == IF o = "t_dbsm" THEN "s" ELSE IF o = "t_chain" THEN "t" ELSE "b"
FromBytes == {"s_lit", "s_can", "e_dec", "d_dec", "m_lit"}
Unary == {"s_inv", "s_halve", "e_neg", "e_dbl", "e_torque", "e_aff", "e_scale", "t_un", "t_iso", "t_neg", "t_torque", "t_dbl", "t_scale",
          "t_niels", "m_proj", "e_mont", "d_neg", "d_scale", "s_bytes", "s_rfc", "e_enc", "m_bytes", "d_enc", "s_bits", "s_radix", "s_get",
          "e_tf", "m_low", "d_rep", "b_xor", "r_id"}
Nullary == {"s_const", "e_const", "t_const", "m_gen", "m_wipe", "d_const"} \cup FromBytes \cup {"s_u32", "b_lit"}

Draw(j) ==
  LET o == IF Len(hist) < Len(Load) THEN Load[Len(hist) + 1]
           ELSE IF Focus # {} /\ Coin(2) THEN RandomElement(Focus) ELSE RandomElement(Focus \cup Others) IN
  \* bound once each
  CHOOSE x \in { [o |-> oo, d |-> IF oo \in Queries THEN 1 ELSE IF Len(hist) < Len(Load) THEN 1 + (Len(hist) % Few(Size(File(oo)) - 1)) ELSE Reg(File(oo)),
      a |-> Src(FileA(oo)),
      b |-> Src(FileB(oo)),
      c |-> Src(FileC(oo)),
      n |-> (CASE oo = "t_chain" -> RandomElement(0..3) [] oo = "s_get" -> RandomElement(0..13)
               [] oo = "b_xor" -> IF Coin(2) THEN SGN ELSE RandomElement(0..SGN)
               [] OTHER -> RandomElement(0..1)),
      v |-> RandomElement(0..(Spellings[oo] - 1)),
      l |-> IF oo = "e_sum" THEN [i \in 1..RandomElement(1..4) |-> Src("e")] ELSE <<>>,
      lit |-> RandomElement((IF Len(hist) < Len(Load) THEN 1 ELSE 0)..2),
      x |-> RandScalar(j), y |-> RandLog(j), z |-> RandomElement(0..3)] : oo \in {o} } : TRUE
\* a drawn call as a call: with a literal or with a byte register
Fix(x) ==
  LET base == [o |-> x.o, d |-> x.d, a |-> x.a, b |-> x.b, c |-> x.c, n |-> x.n, v |-> x.v, l |-> x.l]
      c0 == CASE x.o = "s_u32" -> [i |-> x.x % 2^32] @@ base
              [] x.o = "s_lit" /\ x.lit > 0 -> [i |-> x.x] @@ base
              [] x.o = "s_can" /\ x.lit > 0 -> [i |-> x.x % L] @@ base
              [] x.o = "e_dec" /\ x.lit > 0 -> [k |-> <<x.y, x.z>>] @@ base
              [] x.o = "d_dec" /\ x.lit > 0 -> [k |-> <<x.y>>] @@ base
              [] x.o = "m_lit" /\ x.lit = 2 -> [i |-> x.x % P] @@ base
              [] OTHER -> base
  IN IF c0.o \notin Queries /\ LValue(c0) = <<>> THEN [c0 EXCEPT !.d = Size(File(c0.o))] ELSE c0
\* the harness reads the operand before it writes, so that any aliasing is a fair call

--------------------------------------------------------------------------------
(* What a call covers *)

SClass(n) == IF n < 4 THEN n ELSE IF n < 16 THEN 4 ELSE IF n < L - 2 THEN 5 + (n % 2) ELSE IF n < L THEN 7 ELSE IF n = L THEN 8
             ELSE IF n % L = 0 THEN 9 ELSE IF n < 2 * L THEN 10 ELSE IF n < 2^446 THEN 11 ELSE 12 + (n \div 2^446)
KClass(k) == IF k < 3 THEN k ELSE IF k > L - 3 THEN 3 + (L - k) ELSE 6
Class(f, x) == IF x = <<>> THEN <<>>
               ELSE CASE f = "s" -> <<SClass(x[1])>>
                      [] f \in {"e", "t", "m"} -> <<KClass(x[1]), x[2]>>
                      [] f = "d" -> <<KClass(x[1])>>
                      [] f = "b" -> <<x[1]>>
Relation(f, x, y) ==
  IF x = <<>> \/ y = <<>> THEN "?"
  ELSE IF f = "b" THEN (IF x = y THEN "=" ELSE "#")
  ELSE IF x = y THEN "="
  ELSE IF (x[1] + y[1]) % L = 0 THEN (IF Len(x) = 1 \/ (x[2] + y[2]) % 4 = 0 THEN "-" ELSE "-t")
  ELSE IF (x[1] - y[1]) % L = 0 THEN "=t"
  ELSE IF (x[1] - 2 * y[1]) % L = 0 \/ (y[1] - 2 * x[1]) % L = 0 THEN "2"
  ELSE "#"
Covers(c) ==
  LET fa == FileA(c.o) fb == FileB(c.o)
      un == c.o \in Unary  nu == c.o \in Nullary
      x == lreg[fa][c.a]  y == lreg[fb][c.b]
      num == IF c.o = "b_xor" THEN BoolNum(c.n = SGN) ELSE c.n
  IN IF nu THEN { <<"v", c.o, c.v, IF c.o \in FromBytes /\ "i" \notin DOMAIN c /\ "k" \notin DOMAIN c THEN lreg.b[c.c] = <<>> ELSE TRUE>> }
     ELSE IF un THEN { <<"v", c.o, c.v, num, Class(fa, x)>>,
                       <<"p", c.o, prov[fa][c.a]>>,
                       <<"a", c.o, c.v, c.d = c.a>> }
     ELSE { <<"v", c.o, c.v, Class(fa, x), Class(fb, y)>>,
            <<"r", c.o, c.v, num, IF fa = fb THEN Relation(fa, x, y) ELSE "#">>,
            <<"p", c.o, prov[fa][c.a], prov[fb][c.b]>>,
            <<"a", c.o, c.v, c.d = c.a, c.d = c.b, c.a = c.b>> }

\* the best of a few drawn calls
Seen == TLCGet(1)
Score(c) == Cardinality({k \in Covers(c) : k \notin Seen})
Best(q) == FoldLeft(LAMBDA acc, c : LET s == Score(c) IN IF s > acc[1] THEN <<s, c>> ELSE acc, <<-1, q[1]>>, q)[2]

--------------------------------------------------------------------------------

\* what the driver needs of a call; integers as digits
Digits28(n) == DigitsLE(n, 28, 17)
Show(c) == [o |-> c.o, d |-> c.d, a |-> c.a, b |-> c.b, c |-> c.c, n |-> c.n, v |-> c.v, l |-> c.l,
            i |-> IF "i" \in DOMAIN c THEN Digits28(c.i) ELSE <<>>,
            k |-> IF "k" \in DOMAIN c THEN Digits28(c.k[1]) ELSE <<>>,
            t |-> IF "k" \in DOMAIN c /\ Len(c.k) = 2 THEN c.k[2] ELSE 0]

ProvEmpty == [s |-> [i \in 1..NS |-> "-"], e |-> [i \in 1..NE |-> "-"], t |-> [i \in 1..NT |-> "-"], m |-> [i \in 1..NM |-> "-"],
              d |-> [i \in 1..ND |-> "-"], b |-> [i \in 1..NB |-> "-"]]

ASSUME TLCSet(1, {})
ASSUME TLCSet(2, 0)

GenInit == reg = 0 /\ lreg = LEmpty /\ hist = <<>> /\ prov = ProvEmpty
GenNext ==
  /\ Len(hist) < Len(Load) + Length
  /\ \E q \in {[j \in 1..10 |-> Draw(j + Len(hist))]} : \E c \in {Best([j \in 1..10 |-> Fix(q[j])])} :
       /\ TLCSet(1, Seen \cup Covers(c))
       /\ lreg' = LAfter(c, IF c.o \in Queries THEN <<>> ELSE LValue(c))
       /\ prov' = IF c.o \in Queries THEN prov ELSE [prov EXCEPT ![File(c.o)][c.d] = c.o]
       /\ hist' = Append(hist, Show(c))
       /\ UNCHANGED reg
       /\ Len(hist') = Len(Load) + Length => PrintT("BEH " \o ToString(Cardinality(TLCGet(1))) \o " " \o ToJson(hist'))
GenSpec == GenInit /\ [][GenNext]_gvars
=============================================================================
