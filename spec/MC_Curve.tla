------------------------------ MODULE MC_Curve ------------------------------
(* The points of a small curve of Ed448's kind: the group laws of Ed448Math, and that the crate's
   extended coordinates compute them whatever the Z of the operands.  Every triple of points is an
   initial state; the step walks through the Z coordinates. *)
EXTENDS Impl, FiniteSets

VARIABLES p, q, r, z
vars == <<p, q, r, z>>

Points == {x \in Field \X Field : EOn(x)}
Init == p \in Points /\ q \in Points /\ r \in Points /\ z = 1
Next == z < P - 1 /\ z' = z + 1 /\ r = EId /\ UNCHANGED <<p, q, r>>
Spec == Init /\ [][Next]_vars

Counted  == Cardinality(Points) = 4 * L
Defined  == z = 1 => AffDefined(1, D, p, q)
Closed   == z = 1 => EAdd(p, q) \in Points /\ ENeg(p) \in Points /\ ETorque(p) \in Points
Abelian  == z = 1 => EAdd(p, q) = EAdd(q, p)
Associative == z = 1 => EAdd(EAdd(p, q), r) = EAdd(p, EAdd(q, r))
Neutral  == z = 1 => EAdd(p, EId) = p /\ EAdd(p, ENeg(p)) = EId /\ EDouble(p) = EAdd(p, p) /\ ESub(EAdd(p, q), q) = p
Torqued  == z = 1 => ETorque(p) = EAdd(p, <<0, P - 1>>)
\* the cosets of the subgroup the generator generates: an independent definition
Multiples[n \in 0..(L - 1)] == IF n = 0 THEN EId ELSE EAdd(Multiples[n - 1], EGen)
Subgroup == {Multiples[n] : n \in 0..(L - 1)}
TorsionFree == z = 1 => ETorsionFree(p) = (p \in Subgroup)
Generates == Cardinality(Subgroup) = L

\* the projective law, and the crate's extended coordinates (the second operand's Z is z too, and z^2)
ProjectiveLaw ==
  r = EId => /\ ToAffine(ProjAdd(1, D, <<M(p[1], z), M(p[2], z), z>>, <<q[1], q[2], 1>>)) = EAdd(p, q)
             /\ ToAffine(ProjDouble(1, <<M(p[1], z), M(p[2], z), z>>)) = EDouble(p)
ExtendedLaw ==
  r = EId => LET a == ExtOf(p, z) b == ExtOf(q, S(z)) IN
    /\ ExtOk(1, D, ExtAdd(a, b)) /\ ExtAff(ExtAdd(a, b)) = EAdd(p, q)
    /\ ExtOk(1, D, ExtNeg(a)) /\ ExtAff(ExtNeg(a)) = ENeg(p)
    /\ ExtOk(1, D, ExtTorque(a)) /\ ExtAff(ExtTorque(a)) = ETorque(p)
    /\ ExtEq(a, b) = (p = q)
    /\ ExtAff(ExtAdd(a, a)) = EDouble(p)

ASSUME Counted /\ Generates
=============================================================================
