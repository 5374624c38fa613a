----------------------------- MODULE MC_Isogeny -----------------------------
(* The two curves and the maps between them, on every point; and the arithmetic of the twisted
   curve in the coordinates the crate uses, on the image of the map (where the law is complete). *)
EXTENDS Impl, FiniteSets

VARIABLES p, q, z
vars == <<p, q, z>>
Points == {x \in Field \X Field : EOn(x)}
Init == p \in Points /\ q \in Points /\ z = 1
Next == z < P - 1 /\ z' = z + 1 /\ UNCHANGED <<p, q>>
Spec == Init /\ [][Next]_vars

tp == ToTwisted(p)
tq == ToTwisted(q)
OnIt   == z = 1 => TOn(tp) /\ EOn(ToUntwisted(tp)) /\ AffDefined(-1, TD, tp, tq)
Homo   == z = 1 => ToTwisted(EAdd(p, q)) = TAdd(tp, tq)
HomoBack == z = 1 => ToUntwisted(TAdd(tp, tq)) = EAdd(ToUntwisted(tp), ToUntwisted(tq))
FourTimes == z = 1 => ToUntwisted(tp) = EMul(4, p) /\ ToTwisted(ToUntwisted(tp)) = TMul(4, tp)
\* the crate calls it a 2-isogeny; its kernel is the four points of order 1, 2 and 4
Kernel == z = 1 => (tp = TId) = (EMul(4, p) = EId)
ASSUME Image == Cardinality({ToTwisted(x) : x \in Points}) = L
Alike  == z = 1 => ExtAff(ExtIso(1, ExtOf(p, 1))) = tp /\ ExtAff(ExtIso(-1, ExtOf(tp, 1))) = ToUntwisted(tp)

\* T1 and T2 are any pair with the right product: here (T / z, z) and (T, 1)
Split(a, k) == <<a[1], a[2], a[3], M(a[4], Inv(k)), k>>
Good(x, v) == ExtOk(-1, TD, ToExt(x)) /\ ExtAff(ToExt(x)) = v
Coordinates ==
  LET a == ExtOf(tp, z) b == ExtOf(tq, S(z)) x == Split(a, z) y == Split(b, S(z)) IN
  /\ Good(XAdd(x, b), TAdd(tp, tq))
  /\ Good(XSub(x, b), TSub(tp, tq))
  /\ Good(XDouble(x), TDouble(tp))
  /\ Good(ProjNielsAdd(x, ProjNiels(y)), TAdd(tp, tq))
  /\ Good(ProjNielsAdd(x, ProjNielsNeg(ProjNiels(y))), TSub(tp, tq))
  /\ Good(ToX(ProjNielsExt(ProjNiels(y))), tq)
  /\ Good(AffNielsAdd(x, AffNiels(tq)), TAdd(tp, tq))
  /\ Good(AffNielsAdd(XDouble(x), AffNiels(tq)), TAdd(TDouble(tp), tq))
  /\ ExtOk(-1, TD, AffNielsExt(AffNiels(tq))) /\ ExtAff(AffNielsExt(AffNiels(tq))) = tq
  /\ AffNiels(TId) = <<1, 1, 0>>
  /\ ExtIso(-1, a) = ExtIso(-1, ExtOf(tp, 1))
=============================================================================
