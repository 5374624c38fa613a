------------------------------ MODULE MC_Ladder ------------------------------
(* The ladder of the crate, one iteration per step, for every u (on the curve or on its twist) and
   every scalar, against the chord-and-tangent law of the Montgomery curve
   B v^2 = u^3 + A u^2 + u, B = 1 or -1 (whichever makes u the coordinate of a point). *)
EXTENDS Impl

VARIABLES u, k, i, st
vars == <<u, k, i, st>>

\* points <<u, v>>, and infinity <<>>
A == (2 - 4 * D) % P
Rhs(x) == (M(S(x), x) + M(A, S(x)) + x) % P
B(x) == IF Square(Rhs(x)) THEN 1 ELSE -1
V(x) == LET w == (B(x) * Rhs(x)) % P IN CHOOSE v \in Field : S(v) = w
MAdd(b, p, q) ==
  IF p = <<>> THEN q ELSE IF q = <<>> THEN p
  ELSE IF p[1] = q[1] /\ (p[2] + q[2]) % P = 0 THEN <<>>
  ELSE LET m == IF p = q THEN M((3 * S(p[1]) + 2 * A * p[1] + 1) % P, Inv((2 * b * p[2]) % P))
                ELSE M(q[2] - p[2], Inv((q[1] - p[1]) % P))
           x == (b * S(m) - A - p[1] - q[1]) % P
       IN <<x, (M(m, p[1] - x) - p[2]) % P>>
\* [n] of the point with coordinate x, for n up to 2^SB
Mults(x) == LET p == <<x, V(x)>> IN
  FoldLeft(LAMBDA acc, j : Append(acc, MAdd(B(x), acc[Len(acc)], p)), << <<>> >>, [j \in 1..(2^SB) |-> j])

VARIABLE mults
all == <<u, k, i, st, mults>>
Init == u \in Field /\ k \in 0..(2^SB - 1) /\ i = SB /\ st = LadderInit(u) /\ mults = Mults(u)
Bit(j) == (k \div 2^(j - 1)) % 2
Next == i > 0 /\ st' = LadderIter(st, Bit(i), u) /\ i' = i - 1 /\ UNCHANGED <<u, k, mults>>
Spec == Init /\ [][Next]_all /\ WF_all(Next)

\* <<U, W>> is the projective coordinate of the point p
Is(x, p) == IF p = <<>> THEN x[2] = 0 /\ x[1] # 0 ELSE x[2] # 0 /\ M(x[1], Inv(x[2])) = p[1]
Done == k \div 2^i
x0 == IF st[3] = 1 THEN st[2] ELSE st[1]
x1 == IF st[3] = 1 THEN st[1] ELSE st[2]
\* the registers hold [m] P and [m + 1] P for the prefix m (for the point (0,0) of order 2, the
\* second register degenerates to (0 : 0), and the first is right all the same)
LoopInv == /\ (u # 0 => Is(x0, mults[Done + 1]) /\ Is(x1, mults[Done + 2]))
           /\ (u = 0 => M(x0[1], Inv(x0[2])) = 0)
Result  == IF mults[k + 1] = <<>> THEN 0 ELSE mults[k + 1][1]
Right   == i = 0 => LadderOut(st) = Result
RFC     == i = 0 => Ladder(k, u) = Result
\* low order: of order 1, 2 or 4 on the curve or the twist; exactly what multiples of 4 send to 0
Low     == LowOrder(u) = (mults[5] = <<>>)
Sent    == i = 0 /\ k % 4 = 0 /\ LowOrder(u) => LadderOut(st) = 0
Ends    == <>(i = 0)
=============================================================================
