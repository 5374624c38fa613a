----------------------------- MODULE MC_History -----------------------------
(* Every history of the machine on a small curve: all reachable contents of its registers under
   all calls, from all operands.  The invariants are those a user relies on across calls. *)
EXTENDS Machine, FiniteSets

Points  == {x \in Field \X Field : EOn(x)}
Twisted == {ToTwisted(x) : x \in Points}
Even    == {EDouble(x) : x \in Points}

\* the calls: every operation of the machine that makes sense without the width of the real
\* types, every register, every spelling that consumes its operands or does not
Cl(o, d, a, b, n, v) == [o |-> o, d |-> d, a |-> a, b |-> b, c |-> 1, n |-> n, v |-> v, l |-> <<a, b>>]
Lt(o, d, i) == [o |-> o, d |-> d, a |-> 1, b |-> 1, c |-> 1, n |-> 0, v |-> 0, l |-> <<>>, i |-> i]
Calls ==
  {Cl(o, d, a, b, 0, 0) : o \in {"s_add", "s_sub", "s_mul"}, d \in 1..NS, a \in 1..NS, b \in 1..NS} \cup
  {Cl("s_inv", d, a, 1, 0, 0) : d \in 1..NS, a \in 1..NS} \cup
  {Lt("s_lit", d, i) : d \in 1..NS, i \in {0, 1, 3, L - 1, L, L + 1, 2^SB - 1}} \cup
  {Lt("s_can", d, i) : d \in 1..NS, i \in {0, L - 1, L}} \cup
  {Cl(o, d, a, b, 0, 0) : o \in {"e_add", "e_sub"}, d \in 1..NE, a \in 1..NE, b \in 1..NE} \cup
  {Cl(o, d, a, 1, 0, 0) : o \in {"e_neg", "e_dbl", "e_torque", "e_aff"}, d \in 1..NE, a \in 1..NE} \cup
  {Cl(o, d, a, b, 0, 0) : o \in {"e_mul", "e_mod4"}, d \in 1..NE, a \in 1..NE, b \in 1..NS} \cup
  {Cl("e_const", d, 1, 1, 0, v) : d \in 1..NE, v \in {0, 1}} \cup
  {Cl("e_sum", d, a, b, 0, 0) : d \in 1..NE, a \in 1..NE, b \in 1..NE} \cup
  {Cl("e_enc", d, a, 1, 0, 0) : d \in 1..NB, a \in 1..NE} \cup
  {[Cl("e_dec", d, 1, 1, 0, 0) EXCEPT !.c = b] : d \in 1..NE, b \in 1..NB} \cup
  {Cl("b_xor", d, a, 1, n, 0) : d \in 1..NB, a \in 1..NB, n \in {0, SGN}} \cup
  {Cl("t_iso", d, a, 1, 0, 0) : d \in 1..NT, a \in 1..NE} \cup
  {Cl("t_un", d, a, 1, 0, 0) : d \in 1..NE, a \in 1..NT} \cup
  {Cl("t_vb", d, a, b, 0, 0) : d \in 1..NT, a \in 1..NT, b \in 1..NS} \cup
  {Cl("e_mont", d, a, 1, 0, 0) : d \in 1..NM, a \in 1..NE} \cup
  {Cl("m_mul", d, a, b, 0, 0) : d \in 1..NM, a \in 1..NM, b \in 1..NS} \cup
  {Cl(o, d, a, b, 0, v) : o \in {"d_add", "d_sub"}, d \in 1..ND, a \in 1..ND, b \in 1..ND, v \in {0, 1, 2}} \cup
  {Cl("d_neg", d, a, 1, 0, v) : d \in 1..ND, a \in 1..ND, v \in {0, 1}} \cup
  {Cl("d_mul", d, a, b, 0, v) : d \in 1..ND, a \in 1..ND, b \in 1..NS, v \in {0, 2}} \cup
  {Cl("d_const", d, 1, 1, 0, v) : d \in 1..ND, v \in {0, 1}} \cup
  {Cl("d_enc", d, a, 1, 0, 0) : d \in 1..NB, a \in 1..ND} \cup
  {[Cl("d_dec", d, 1, 1, 0, 0) EXCEPT !.c = b] : d \in 1..ND, b \in 1..NB}

Init == reg = EmptyRegs
Next == \E c \in Calls : Call(c)
Spec == Init /\ [][Next]_reg

\* every register always holds a value of its type
TypeOK ==
  /\ \A i \in 1..NS : reg.s[i] \in 0..(2^SB - 1)
  /\ \A i \in 1..NE : reg.e[i] \in Points
  /\ \A i \in 1..NT : reg.t[i] \in Twisted
  /\ \A i \in 1..NM : reg.m[i] \in Field
  /\ \A i \in 1..ND : reg.d[i] \in Even
\* whatever the history: what is encoded decodes, and to the same thing
Decodable == /\ \A i \in 1..NE : EDec(EEnc(reg.e[i])) = <<reg.e[i]>>
             /\ \A i \in 1..ND : LET r == DDec(DEnc(reg.d[i])) IN r # <<>> /\ DEq(r[1], reg.d[i])
\* multiplying by the order kills what is in a group of that order, whatever was done before
Killed == \A i \in 1..ND : DEnc(DMul(L, reg.d[i])) = 0
\* a call changes only its destination, and what a by-value call consumes
Frame == [][\A c \in Calls : Call(c) =>
              /\ \A k \in {"s", "e", "t", "m", "b", "f"} : k # File(c.o) => reg'[k] = reg[k]
              /\ (File(c.o) # "d") => reg'.d = reg.d
              /\ \A i \in DOMAIN reg[File(c.o)] :
                   i # c.d /\ ~(c.o \in DecafOps /\ Consumes(c) /\ i \in {c.a, c.b}) => reg'[File(c.o)][i] = reg[File(c.o)][i]]_reg
=============================================================================
