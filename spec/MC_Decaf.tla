------------------------------ MODULE MC_Decaf ------------------------------
(* decaf on a small curve: every pair of points of the even subgroup, and every field element as
   an encoding (and those too large). *)
EXTENDS Impl, FiniteSets

VARIABLES p, q, z
vars == <<p, q, z>>
Points == {x \in Field \X Field : EOn(x)}
Even   == {EDouble(x) : x \in Points}
Init == p \in Even /\ q \in Even /\ z = 1
Next == z < P - 1 /\ z' = z + 1 /\ UNCHANGED <<p, q>>
Spec == Init /\ [][Next]_vars

Two == {EId, <<0, P - 1>>}
Same == ESub(p, q) \in Two
EqIsCoset  == DEq(p, q) = Same
EncIsCoset == (DEnc(p) = DEnc(q)) = Same
RoundTrip  == LET r == DDec(DEnc(p)) IN r # <<>> /\ DEq(r[1], p) /\ r[1] \in Even
Congruent  == DEnc(EAdd(p, q)) = DEnc(EAdd(ETorque(p), q))

\* what the crate holds: the image t of a point h with 2 h = p, in any coordinates.  Its encoding
\* is that of p; its equality is that of elements; decoding gives such an image
Halves == {h \in Points : EDouble(h) = p}
Reps   == {ToTwisted(h) : h \in Halves}
TRep(x) == ToTwisted(CHOOSE h \in Points : EDouble(h) = x)
ImplEnc == \A t \in Reps : DImplEnc(ExtOf(t, z)) = DEnc(p) /\ DImplEnc(ExtOf(TTorque(t), z)) = DEnc(p)
               /\ DEncTwisted(t) = DEnc(p)
ImplEq  == DImplEq(ExtOf(TRep(p), z), ExtOf(TRep(q), S(z))) = Same
ImplDec == LET r == DImplDec(DEnc(p)) IN r # <<>> /\ ExtOk(-1, TD, r[1]) /\ DImplEnc(r[1]) = DEnc(p)
               /\ DImplEq(r[1], ExtOf(TRep(p), z))
ImplAdd == LET a == ExtOf(TRep(p), z) b == ExtOf(TRep(q), S(z)) IN
  /\ DImplEnc(ToExt(XAdd(ToX(a), b))) = DEnc(EAdd(p, q))
  /\ DImplEnc(ToExt(XSub(ToX(a), b))) = DEnc(ESub(p, q))

ASSUME PrimeOrder == Cardinality({DEnc(x) : x \in Even}) = L
ASSUME Strict == \A s \in 0..(2^(FB + 1) - 1) :
  LET r == DDec(s) t == DImplDec(s) IN
  /\ (r # <<>>) = (\E x \in Even : DEnc(x) = s)
  /\ (r # <<>>) = (t # <<>>)
  /\ r # <<>> => r[1] \in Even /\ DEnc(r[1]) = s
ASSUME Identity == DEnc(EId) = 0
ASSUME Generator == DImplEnc(DImplGen) = DEnc(DGen)
=============================================================================
