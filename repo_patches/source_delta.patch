From a20d0ce69275731459d29efe0cbb993ec4846030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:20 +0000
Subject: [PATCH 1/7] fix: undo the last swap of the Montgomery ladder

Odd scalars returned [s+1]P instead of [s]P.
---
 src/curve/montgomery/montgomery.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/curve/montgomery/montgomery.rs b/src/curve/montgomery/montgomery.rs
index d431e5f..c6d2280 100644
--- a/src/curve/montgomery/montgomery.rs
+++ b/src/curve/montgomery/montgomery.rs
@@ -91,6 +91,8 @@ impl Mul<&Scalar> for &MontgomeryPoint {
 
             swap = bit;
         }
+        // The last iteration leaves the registers swapped when the low bit is set
+        ProjectiveMontgomeryPoint::conditional_swap(&mut x0, &mut x1, Choice::from(swap));
 
         x0.to_affine()
     }
-- 
2.43.0


From db12be9bbb5cb3ffd8d41ead4a07736714e52559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:20 +0000
Subject: [PATCH 2/7] fix: detect low order points given by a non-canonical
 encoding

p and p+1 encode u = 0 and u = 1.
---
 src/curve/montgomery/montgomery.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/montgomery/montgomery.rs b/src/curve/montgomery/montgomery.rs
index c6d2280..526f356 100644
--- a/src/curve/montgomery/montgomery.rs
+++ b/src/curve/montgomery/montgomery.rs
@@ -114,7 +114,9 @@ impl MontgomeryPoint {
 
     /// Returns true if the point is one of the low order points
     pub fn is_low_order(&self) -> bool {
-        (*self == LOW_A) || (*self == LOW_B) || (*self == LOW_C)
+        // Reduce first: 0 and 1 also have a non-canonical encoding
+        let reduced = MontgomeryPoint(FieldElement::from_bytes(&self.0).to_bytes());
+        (reduced == LOW_A) || (reduced == LOW_B) || (reduced == LOW_C)
     }
     /// View the point as a byte slice
     pub fn as_bytes(&self) -> &[u8; 56] {
-- 
2.43.0


From 09d745c75ca823c54392ae9204c955c02a091267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:20 +0000
Subject: [PATCH 3/7] fix: reject non-canonical Edwards encodings when
 decompressing

RFC 8032, section 5.2.3: y >= p, stray bits in the last byte, and x = 0 with
the sign bit set are not encodings of a point.
---
 src/curve/edwards/extended.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/curve/edwards/extended.rs b/src/curve/edwards/extended.rs
index 13eeee2..1b6fc64 100644
--- a/src/curve/edwards/extended.rs
+++ b/src/curve/edwards/extended.rs
@@ -47,6 +47,13 @@ impl CompressedEdwardsY {
 
         // Recover x using y
         let y = FieldElement::from_bytes(&y_bytes);
+
+        // RFC 8032 (5.2.3): y must be reduced, and only the sign may be set in the last byte
+        let is_canonical = y.to_bytes().ct_eq(&y_bytes) & (sign & 0x7f).ct_eq(&0);
+        if is_canonical.unwrap_u8() != 1 {
+            return None;
+        }
+
         let yy = y.square();
         let dyy = EDWARDS_D * yy;
         let numerator = FieldElement::one() - yy;
@@ -59,6 +66,10 @@ impl CompressedEdwardsY {
 
         // Compute correct sign of x
         let compressed_sign_bit = Choice::from(sign >> 7);
+        // There is no negative zero
+        if (x.is_zero() & compressed_sign_bit).unwrap_u8() == 1 {
+            return None;
+        }
         let is_negative = x.is_negative();
         x.conditional_negate(compressed_sign_bit ^ is_negative);
 
-- 
2.43.0


From 4b8365ec027cdb19bd5ba8cb869169f3d64a278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:20 +0000
Subject: [PATCH 4/7] fix: reduce the operands of scalar addition and
 subtraction

Scalar::from_bytes and IndexMut give scalars of up to 448 bits, for which a
single conditional subtraction does not give the sum or difference mod l.
---
 src/field/scalar.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/field/scalar.rs b/src/field/scalar.rs
index 35b1602..c0e2118 100644
--- a/src/field/scalar.rs
+++ b/src/field/scalar.rs
@@ -60,7 +60,7 @@ impl IndexMut<usize> for Scalar {
 impl Add<Scalar> for Scalar {
     type Output = Scalar;
     fn add(self, rhs: Scalar) -> Self::Output {
-        add(&self, &rhs)
+        add(&self.reduce(), &rhs.reduce())
     }
 }
 impl Mul<Scalar> for Scalar {
@@ -73,7 +73,7 @@ impl Mul<Scalar> for Scalar {
 impl Sub<Scalar> for Scalar {
     type Output = Scalar;
     fn sub(self, rhs: Scalar) -> Self::Output {
-        sub_extra(&self, &rhs, 0)
+        sub_extra(&self.reduce(), &rhs.reduce(), 0)
     }
 }
 impl Default for Scalar {
@@ -175,6 +175,11 @@ impl Scalar {
         }
         res
     }
+    /// Reduces modulo the group order, `from_bytes` does not
+    fn reduce(&self) -> Scalar {
+        // ((a*R)/R) = a mod ℓ
+        montgomery_multiply(self, &R)
+    }
     fn square(&self) -> Scalar {
         montgomery_multiply(&self, &self)
     }
-- 
2.43.0


From 59d0c77611eb4e947271d3205eb21e015246f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:03 +0000
Subject: [PATCH 5/7] Add verification hooks behind cfg(ed448_verif)

---
 src/lib.rs   |   2 +
 src/verif.rs | 119 +++++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 121 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 9abe061..dcd6014 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,5 +13,7 @@ pub mod curve;
 pub mod decaf;
 mod field;
 pub mod ristretto;
+#[cfg(ed448_verif)]
+pub mod verif;
 
 pub use field::Scalar;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..fc9774a
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,119 @@
+//! Hooks for the verification harness, compiled only with `--cfg ed448_verif`.
+//!
+//! They give a name to what the harness observes or drives below the public API: field
+//! arithmetic, the coordinates of a point, and the multiplication routines of the twisted curve.
+//! Nothing here computes anything itself.
+
+use crate::curve::edwards::ExtendedPoint;
+use crate::curve::scalar_mul;
+use crate::curve::twedwards::extended::ExtendedPoint as TwistedPoint;
+use crate::decaf::DecafPoint;
+use crate::field::{FieldElement, Scalar};
+use subtle::{Choice, ConditionallyNegatable, ConditionallySelectable};
+
+pub use crate::curve::twedwards::extended::ExtendedPoint as Twisted;
+
+/// A field element
+#[derive(Copy, Clone)]
+pub struct Fe(FieldElement);
+
+impl Fe {
+    pub fn zero() -> Fe {
+        Fe(FieldElement::zero())
+    }
+    pub fn one() -> Fe {
+        Fe(FieldElement::one())
+    }
+    pub fn from_bytes(b: &[u8; 56]) -> Fe {
+        Fe(FieldElement::from_bytes(b))
+    }
+    pub fn to_bytes(&self) -> [u8; 56] {
+        self.0.to_bytes()
+    }
+    pub fn add(&self, o: &Fe) -> Fe {
+        Fe(self.0 + o.0)
+    }
+    pub fn sub(&self, o: &Fe) -> Fe {
+        Fe(self.0 - o.0)
+    }
+    pub fn mul(&self, o: &Fe) -> Fe {
+        Fe(self.0 * o.0)
+    }
+    pub fn square(&self) -> Fe {
+        Fe(self.0.square())
+    }
+    pub fn negate(&self) -> Fe {
+        Fe(self.0.negate())
+    }
+    pub fn invert(&self) -> Fe {
+        Fe(self.0.invert())
+    }
+    pub fn strong_reduce(&self) -> Fe {
+        let mut r = self.0;
+        r.strong_reduce();
+        Fe(r)
+    }
+    pub fn inverse_square_root(&self) -> (Fe, bool) {
+        let (r, ok) = self.0.inverse_square_root();
+        (Fe(r), ok.into())
+    }
+    pub fn sqrt_ratio(u: &Fe, v: &Fe) -> (Fe, bool) {
+        let (r, ok) = FieldElement::sqrt_ratio(&u.0, &v.0);
+        (Fe(r), ok.into())
+    }
+    pub fn is_negative(&self) -> bool {
+        self.0.is_negative().into()
+    }
+    pub fn is_zero(&self) -> bool {
+        self.0.is_zero().into()
+    }
+    pub fn equals(&self, o: &Fe) -> bool {
+        self.0 == o.0
+    }
+    pub fn conditional_negate(&self, c: bool) -> Fe {
+        let mut r = self.0;
+        r.conditional_negate(Choice::from(c as u8));
+        Fe(r)
+    }
+    pub fn conditional_select(a: &Fe, b: &Fe, c: bool) -> Fe {
+        Fe(FieldElement::conditional_select(&a.0, &b.0, Choice::from(c as u8)))
+    }
+}
+
+/// The coordinates X, Y, Z, T of a point
+pub type Coords = [[u8; 56]; 4];
+
+pub fn edwards_coords(p: &ExtendedPoint) -> Coords {
+    [p.X.to_bytes(), p.Y.to_bytes(), p.Z.to_bytes(), p.T.to_bytes()]
+}
+pub fn twisted_coords(p: &TwistedPoint) -> Coords {
+    [p.X.to_bytes(), p.Y.to_bytes(), p.Z.to_bytes(), p.T.to_bytes()]
+}
+pub fn decaf_coords(p: &DecafPoint) -> Coords {
+    twisted_coords(&p.0)
+}
+/// The same point with every coordinate multiplied by `z`
+pub fn edwards_rescale(p: &ExtendedPoint, z: &Fe) -> ExtendedPoint {
+    ExtendedPoint { X: p.X * z.0, Y: p.Y * z.0, Z: p.Z * z.0, T: p.T * z.0 }
+}
+/// The same point with every coordinate multiplied by `z`
+pub fn twisted_rescale(p: &TwistedPoint, z: &Fe) -> TwistedPoint {
+    TwistedPoint { X: p.X * z.0, Y: p.Y * z.0, Z: p.Z * z.0, T: p.T * z.0 }
+}
+/// The same element with every coordinate of its representative multiplied by `z`
+pub fn decaf_rescale(p: &DecafPoint, z: &Fe) -> DecafPoint {
+    DecafPoint(twisted_rescale(&p.0, z))
+}
+
+pub fn variable_base(p: &TwistedPoint, s: &Scalar) -> TwistedPoint {
+    scalar_mul::variable_base(p, s)
+}
+pub fn double_and_add(p: &TwistedPoint, s: &Scalar) -> TwistedPoint {
+    scalar_mul::double_and_add(p, s)
+}
+pub fn double_base_scalar_mul(a: &Scalar, p: &TwistedPoint, b: &Scalar) -> TwistedPoint {
+    scalar_mul::double_base_scalar_mul(a, p, b)
+}
+pub fn radix_16(s: &Scalar) -> [i8; 113] {
+    s.to_radix_16()
+}
-- 
2.43.0


From 1b5fc3b3c2800ef2658a629a048f8045764730db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:10 +0000
Subject: [PATCH 6/7] Add verification hooks for the affine points behind
 cfg(ed448_verif_affine)

---
 src/lib.rs          |  2 ++
 src/verif_affine.rs | 55 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 57 insertions(+)
 create mode 100644 src/verif_affine.rs

diff --git a/src/lib.rs b/src/lib.rs
index dcd6014..7ddea6f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,5 +15,7 @@ mod field;
 pub mod ristretto;
 #[cfg(ed448_verif)]
 pub mod verif;
+#[cfg(ed448_verif_affine)]
+pub mod verif_affine;
 
 pub use field::Scalar;
diff --git a/src/verif_affine.rs b/src/verif_affine.rs
new file mode 100644
index 0000000..448b046
--- /dev/null
+++ b/src/verif_affine.rs
@@ -0,0 +1,55 @@
+//! Hooks for the verification harness, compiled only with `--cfg ed448_verif_affine`: the affine
+//! points and affine Niels points of the twisted curve, which the crate itself does not use, and the
+//! curve equations.  Nothing here computes anything itself.
+
+use crate::curve::edwards::ExtendedPoint;
+use crate::curve::twedwards::affine::{AffineNielsPoint, AffinePoint};
+use crate::curve::twedwards::extended::ExtendedPoint as Twisted;
+use crate::curve::twedwards::extensible::ExtensiblePoint;
+use crate::field::FieldElement;
+use subtle::{Choice, ConditionallySelectable};
+
+fn niels(p: &Twisted) -> AffineNielsPoint {
+    p.to_affine().to_affine_niels()
+}
+pub fn identity(n: bool) -> Twisted {
+    if n {
+        AffineNielsPoint::identity().to_extended()
+    } else {
+        AffinePoint::identity().to_extended()
+    }
+}
+pub fn through(p: &Twisted) -> Twisted {
+    p.to_affine().to_extended()
+}
+pub fn negate(p: &Twisted) -> Twisted {
+    p.to_affine().negate().to_extended()
+}
+pub fn add(p: &Twisted, q: &Twisted) -> Twisted {
+    p.to_affine().add(&q.to_affine()).to_extended()
+}
+pub fn add_niels(p: &Twisted, q: &Twisted) -> Twisted {
+    p.to_extensible().add_affine_niels(niels(q)).to_extended()
+}
+/// Added in extensible coordinates that a computation left
+pub fn add_niels_twice(p: &Twisted, q: &Twisted) -> Twisted {
+    let r: ExtensiblePoint = p.to_extensible().double();
+    r.add_affine_niels(niels(q)).add_affine_niels(niels(q)).to_extended()
+}
+pub fn through_niels(p: &Twisted) -> Twisted {
+    niels(p).to_extended()
+}
+pub fn select(p: &Twisted, q: &Twisted, c: bool) -> Twisted {
+    let r = AffineNielsPoint::conditional_select(&niels(p), &niels(q), Choice::from(c as u8));
+    Twisted::identity().to_extensible().add_affine_niels(r).to_extended()
+}
+pub fn equal(p: &Twisted, q: &Twisted) -> [bool; 2] {
+    [p.to_affine() == q.to_affine(), niels(p).equals(&niels(q))]
+}
+/// Whether the coordinates X, Y, Z, T are those of a point of the curve, of the twisted curve
+pub fn on_curve(c: &[[u8; 56]; 4]) -> [bool; 2] {
+    let f = |i: usize| FieldElement::from_bytes(&c[i]);
+    let e = ExtendedPoint { X: f(0), Y: f(1), Z: f(2), T: f(3) };
+    let t = Twisted { X: f(0), Y: f(1), Z: f(2), T: f(3) };
+    [e.is_on_curve(), t.is_on_curve()]
+}
-- 
2.43.0


From d37c9724cbafff397ebb121c6274139fbfc2365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:56 +0000
Subject: [PATCH 7/7] fix: make addition and conversion of affine Niels points
 agree with their coordinates

AffinePoint::to_affine_niels gives (y+x, y-x, dxy), but add_affine_niels took the
first two as halved, and to_extended set Z = 1 and T from the wrong product.
---
 src/curve/twedwards/affine.rs     | 14 +++++++++-----
 src/curve/twedwards/extensible.rs |  5 +++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/curve/twedwards/affine.rs b/src/curve/twedwards/affine.rs
index 2720738..ade4a8d 100644
--- a/src/curve/twedwards/affine.rs
+++ b/src/curve/twedwards/affine.rs
@@ -81,7 +81,7 @@ impl AffinePoint {
 }
 
 /// Represents a PreComputed or Cached AffinePoint
-///  ((y+x)/2, (y-x)/2, dxy)
+///  (y+x, y-x, dxy)
 #[derive(Copy, Clone)]
 pub struct AffineNielsPoint {
     pub(crate) y_plus_x: FieldElement,
@@ -118,11 +118,15 @@ impl AffineNielsPoint {
     }
     /// Converts an AffineNielsPoint to an ExtendedPoint
     pub(crate) fn to_extended(&self) -> ExtendedPoint {
+        let two = FieldElement::one() + FieldElement::one();
+        // Twice the affine coordinates
+        let x = self.y_plus_x - self.y_minus_x;
+        let y = self.y_plus_x + self.y_minus_x;
         ExtendedPoint {
-            X: self.y_plus_x - self.y_minus_x,
-            Y: self.y_minus_x + self.y_plus_x,
-            Z: FieldElement::one(),
-            T: self.y_plus_x * self.y_minus_x,
+            X: x + x,
+            Y: y + y,
+            Z: two.square(),
+            T: x * y,
         }
     }
 }
diff --git a/src/curve/twedwards/extensible.rs b/src/curve/twedwards/extensible.rs
index e712f6a..97bde33 100644
--- a/src/curve/twedwards/extensible.rs
+++ b/src/curve/twedwards/extensible.rs
@@ -120,8 +120,9 @@ impl ExtensiblePoint {
         let C = other.td * self.T1 * self.T2;
         let D = B + A;
         let E = B - A;
-        let F = self.Z - C;
-        let G = self.Z + C;
+        // The coordinates of an AffineNielsPoint are not halved, so D and E carry a factor of two
+        let F = (self.Z - C) + (self.Z - C);
+        let G = (self.Z + C) + (self.Z + C);
         ExtensiblePoint {
             X: E * F,
             Y: G * D,
-- 
2.43.0

