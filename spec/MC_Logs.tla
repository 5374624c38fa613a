------------------------------- MODULE MC_Logs --------------------------------
(* Every call, on operands with every pair of logarithms: the machine's value is the image of the
   logarithm's. *)
EXTENDS Logs

Es == {<<k, t>> : k \in 0..(L - 1), t \in 0..3}
Ts == {<<k, t>> : k \in 0..(L - 1), t \in 0..1}
Ds == {<<k>> : k \in 0..(L - 1)}

VARIABLE call
Cl(o, a, b, c, n, v) == [o |-> o, d |-> 1, a |-> a, b |-> b, c |-> c, n |-> n, v |-> v, l |-> <<a, b, a>>]
Calls ==
  {Cl(o, a, b, 1, 0, 0) : o \in {"s_add", "s_sub", "s_mul", "e_add", "e_sub", "e_sum", "t_add", "t_sub"},
                          a \in {1}, b \in {1, 2}} \cup
  {Cl(o, a, b, 1, 0, v) : o \in {"d_add", "d_sub"}, a \in {1}, b \in {1, 2}, v \in 0..2} \cup
  {Cl(o, 1, 1, 1, 0, v) : o \in {"d_neg", "d_mul"}, v \in 0..2} \cup
  {Cl(o, 1, 1, 1, 0, 0) : o \in {"e_mul", "e_mod4", "t_vb", "t_daa", "m_mul"}} \cup
  {Cl(o, 1, 2, 1, n, 0) : o \in {"e_sel", "e_swap", "t_niels", "t_sel", "m_sel"}, n \in {0, 1}} \cup
  {Cl(o, 1, 1, 1, 0, v) : o \in {"s_const", "e_const", "t_const", "d_const", "m_gen", "m_wipe"}, v \in {0, 1}} \cup
  {Cl(o, 1, 1, 1, 0, 0) : o \in {"s_inv", "e_neg", "e_dbl", "e_torque", "e_aff", "e_scale", "e_enc", "e_mont", "t_iso", "t_un", "t_dbl", "t_neg",
                                 "t_torque", "t_scale", "m_proj", "m_bytes", "s_bytes", "s_rfc", "d_enc", "d_scale",
                                 "s_lit", "s_can", "e_dec", "d_dec", "m_lit"}} \cup
  {Cl("t_chain", 1, 2, 1, n, v) : n \in 0..2, v \in 0..5} \cup
  {Cl("t_aff", 1, 2, 1, n, v) : n \in 0..1, v \in 0..8} \cup
  {Cl("t_dbsm", 1, 1, 2, 0, 0)} \cup
  {Cl("b_xor", 1, 1, 1, SGN, 0)}

SLs == {<<n>> : n \in 0..(2^SB - 1)}
\* the operands of the call range over everything; the other registers stay as they are
Reads(c) == CASE c.o \in {"s_add", "s_sub", "s_mul", "s_inv", "s_bytes", "s_rfc"} -> {"s"}
              [] c.o \in {"e_mul", "e_mod4"} -> {"s", "e"}
              [] c.o \in {"t_vb", "t_daa", "t_dbsm"} -> {"s", "t"}
              [] c.o = "m_mul" -> {"s", "m"}
              [] c.o = "d_mul" -> {"s", "d"}
              [] c.o \in {"t_iso", "e_mont", "e_enc"} -> {"e"}
              [] c.o = "t_un" -> {"t"}
              [] c.o = "m_bytes" -> {"m"}
              [] c.o = "d_enc" -> {"d"}
              [] c.o \in {"s_lit", "s_can", "e_dec", "d_dec", "m_lit", "b_xor"} -> {"b"}
              [] OTHER -> {File(c.o)}
Two(c) == c.b = 2 \/ c.c = 2
All(c, f, vals, zero) == IF f \in Reads(c) THEN {<<x, IF y = <<>> THEN zero ELSE y>> : x \in vals, y \in IF Two(c) /\ ~(c.o = "t_dbsm" /\ f = "t") THEN vals ELSE {<<>>}}
                         ELSE {<<zero, zero>>}
Bs(c) == CASE c.o \in {"s_lit", "s_can"} -> {<<"s">> \o x : x \in SLs}
           [] c.o \in {"e_dec", "b_xor"} -> {<<"e">> \o x : x \in Es}
           [] c.o = "d_dec" -> {<<"d">> \o x : x \in Ds}
           [] c.o = "m_lit" -> {<<"m">> \o x : x \in Ts}
           [] OTHER -> {<<"s", 0>>}
Init ==
  /\ call \in Calls
  /\ \E s \in All(call, "s", SLs, <<0>>), e \in All(call, "e", Es, <<0, 0>>), t \in All(call, "t", Ts, <<0, 0>>),
        m \in All(call, "m", Ts, <<0, 0>>), d \in All(call, "d", Ds, <<0>>), b \in Bs(call) :
       /\ lreg = [s |-> s, e |-> e, t |-> t, m |-> m, d |-> d, b |-> <<b>>]
       /\ reg = [s |-> [i \in 1..2 |-> s[i][1]], e |-> [i \in 1..2 |-> EPoint(e[i])], t |-> [i \in 1..2 |-> TPoint(t[i])],
                 m |-> [i \in 1..2 |-> MPoint(m[i])], d |-> [i \in 1..2 |-> DPoint(d[i])], f |-> <<0>>, b |-> <<BPoint(b)>>]
Next == FALSE /\ UNCHANGED <<reg, lreg, call>>
Spec == Init /\ [][Next]_<<reg, lreg, call>>

Commutes ==
  LET v == Value(call)  w == LValue(call) f == File(call.o) IN
  w = <<>> \/
    /\ v # <<>>
    /\ CASE f = "s" -> v[1] = w[1]
         [] f = "e" -> v[1] = EPoint(w)
         [] f = "t" -> v[1] = TPoint(w)
         [] f = "m" -> v[1] = MPoint(w)
         [] f = "d" -> DEnc(v[1]) = DEnc(DPoint(w))
         [] f = "b" -> v[1] = BPoint(w)
\* what an operation without a logarithm is: only these
Known == LValue(call) = <<>> => call.o \in {"s_can", "b_xor"}
\* queries, and what a call leaves behind
Rest == \A i \in 1..2 : LET n == LAfter(call, LValue(call)) IN
          LValue(call) # <<>> /\ ND = 2 => DEnc(After(call, Value(call)).d[i]) = DEnc(DPoint(n.d[i]))
=============================================================================
