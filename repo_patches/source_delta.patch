From 8000a3204328759eed215e3f391f6245f33f0217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:38 +0000
Subject: [PATCH 01/17] fix: compute angle remainder exactly so that wrapped
 angles never leave [-pi, pi]

---
 geokit/src/math/fp.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/geokit/src/math/fp.rs b/geokit/src/math/fp.rs
index 2e54cd8..9d304ba 100644
--- a/geokit/src/math/fp.rs
+++ b/geokit/src/math/fp.rs
@@ -9,8 +9,17 @@ pub const TAU: Float = std::f64::consts::TAU;
 pub fn sq(x: Float) -> Float {
     x * x
 }
+/// Return the representative of `val` modulo `r` (`r > 0`) in `[-r / 2, r / 2]`.
+/// No rounding error is introduced, so that the result never leaves this range.
 pub fn remainder(val: Float, r: Float) -> Float {
-    val - (val / r).round_ties_even() * r
+    let m = val % r;
+    if m > 0.5 * r {
+        m - r
+    } else if m < -0.5 * r {
+        m + r
+    } else {
+        m
+    }
 }
 
 /// Compute `sum(0, N, c[k] * F[k](x))` where `F[k](x) = sin(k * x)`
-- 
2.43.0


From 462ee66f80b10cd3a99eb212abf8c9e446dd3032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:39 +0000
Subject: [PATCH 02/17] fix: apply the prime meridian in the spherical branch
 of geodetic/geocentric conversions

---
 geokit/src/geodesy/geodetic_datum.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geokit/src/geodesy/geodetic_datum.rs b/geokit/src/geodesy/geodetic_datum.rs
index b629142..1959f4c 100644
--- a/geokit/src/geodesy/geodetic_datum.rs
+++ b/geokit/src/geodesy/geodetic_datum.rs
@@ -76,7 +76,7 @@ impl GeodeticDatum {
         let lon = llh.lon + self.prime_meridian.lon().angle();
 
         if self.ellipsoid.is_spherical() {
-            let (sin_lon, cos_lon) = llh.lon.sin_cos();
+            let (sin_lon, cos_lon) = lon.sin_cos();
             let (sin_lat, cos_lat) = llh.lat.sin_cos();
             let d = self.ellipsoid.a() + llh.height;
             let z = d * sin_lat;
@@ -115,7 +115,8 @@ impl GeodeticDatum {
             let lat = z.atan2(r);
             let h = r.hypot(z) - a;
             LLH {
-                lon: Lon::new(lon * RAD),
+                // Change longitude origin from Greenwich meridian to this datum's prime meridian
+                lon: Lon::new(lon * RAD) - self.prime_meridian().lon().angle(),
                 lat: Lat::new(lat * RAD),
                 height: h * M,
             }
-- 
2.43.0


From 15e217784952db3e743c10a1943cd995668f8092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:55 +0000
Subject: [PATCH 03/17] fix: transverse mercator unproj returns an error
 instead of looping forever when it cannot converge

---
 geokit/src/projections/cyl/transverse_mercator.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 1913d27..95661ee 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -98,6 +98,9 @@ impl TransverseMercator {
     }
 }
 
+/// Maximum number of iterations when computing the isometric latitude in the reverse projection.
+const MAX_ITER: usize = 100;
+
 impl Projection for TransverseMercator {
     fn proj(&self, input: LLH) -> Result<ENH, ProjectionError> {
         let Q = Q(self.e, input.lat);
@@ -160,12 +163,18 @@ impl Projection for TransverseMercator {
         }
 
         let mut Q_pp = iter_fn(self.e, Q_p, Q_p);
+        let mut iter_count = 0;
         loop {
             let old_Q_pp = Q_pp;
             Q_pp = iter_fn(self.e, Q_p, Q_pp);
             if (Q_pp - old_Q_pp).abs() < 1e-12 {
                 break;
             }
+            // Not a number or input too far away to be a projected point.
+            iter_count += 1;
+            if iter_count >= MAX_ITER {
+                return Err(ProjectionError::ENHOutOfBounds);
+            }
         }
 
         Ok(LLH {
-- 
2.43.0


From fed356a98979405b95a6dafbac03df635be9ee86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:07 +0000
Subject: [PATCH 04/17] fix: UTM zone 1 starts at 180W so that its central
 meridian is 177W

---
 geokit/src/projections/cyl/transverse_mercator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 95661ee..94cf822 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -193,7 +193,7 @@ type UTMZone = u8;
 
 const UTM_ZONE_WIDTH_DEG: Float = 6.0;
 const UTM_ZONE_COUNT: Float = 360.0 / UTM_ZONE_WIDTH_DEG;
-const UTM_ZONE_1_WEST_LIMIT_DEG: Float = -177.0;
+const UTM_ZONE_1_WEST_LIMIT_DEG: Float = -180.0;
 const UTM_LAT0: Lat = Lat::ZERO;
 const UTM_K0: Float = 0.9996;
 const UTM_FE: Length = Length::new(500_000.0, M);
-- 
2.43.0


From afde24f6a61de959ae6853e7bfbc59d885498f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:50 +0000
Subject: [PATCH 05/17] fix: inverse geodesic of coincident points has length
 zero instead of failing to converge

---
 geokit/src/geodesy/geodesics/rapp.rs     | 10 ++++++++++
 geokit/src/geodesy/geodesics/vincenty.rs | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index be1a3d2..e84df1d 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -189,6 +189,16 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
                 + (sin_beta2 * cos_beta1 - sin_beta1 * cos_beta2 * cos_lambda).powi(2))
             .sqrt();
             sigma = sin_sigma.atan2(cos_sigma);
+            if sigma == 0.0 {
+                // Coincident points: Eq (1.61) is indeterminate.
+                return Ok(Geodesic {
+                    p1,
+                    alpha1: Azimuth::NORTH,
+                    p2,
+                    alpha2: Azimuth::NORTH,
+                    s: Length::ZERO,
+                });
+            }
             sin_2_sigma = 2. * sin_sigma * cos_sigma;
             sin_3_sigma = 3. * sin_sigma * cos_sigma.powi(2) - sin_sigma.powi(3);
             sin_4_sigma = 4. * sin_sigma * cos_sigma.powi(3) - 4. * sin_sigma.powi(3) * cos_sigma;
diff --git a/geokit/src/geodesy/geodesics/vincenty.rs b/geokit/src/geodesy/geodesics/vincenty.rs
index 06566e0..14d97da 100644
--- a/geokit/src/geodesy/geodesics/vincenty.rs
+++ b/geokit/src/geodesy/geodesics/vincenty.rs
@@ -147,6 +147,16 @@ impl<'e> VincentyGeodesicSolver<'e> {
             // Eq (16): tan(sigma) = sin(sigma) / cos(sigma)
             sigma = sin_sigma_sq.sqrt().atan2(cos_sigma_i);
             (sin_sigma, cos_sigma) = sigma.sin_cos();
+            if sin_sigma == 0.0 {
+                // Coincident points: Eq (17) is indeterminate.
+                return Ok(Geodesic {
+                    p1,
+                    alpha1: Azimuth::NORTH,
+                    p2,
+                    alpha2: Azimuth::NORTH,
+                    s: Length::ZERO,
+                });
+            }
 
             // Eq (17)
             let sin_alpha = cos_beta1 * cos_beta2 * sin_lambda / sin_sigma;
-- 
2.43.0


From ce6627d3a23c5e77e73a6e113c1e6897f87c1144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:51 +0000
Subject: [PATCH 06/17] fix: cos(8 sigma_m) in Rapp's inverse solution depends
 on sigma_m only

---
 geokit/src/geodesy/geodesics/rapp.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index e84df1d..13a0f36 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -217,9 +217,7 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
                 cos_4_sigma_m = 2. * cos_2_sigma_m.powi(2) - 1.;
                 cos_6_sigma_m =
                     cos_2_sigma_m.powi(3) - 3. * cos_2_sigma_m * (1. - cos_2_sigma_m.powi(2));
-                cos_8_sigma_m = cos_2_sigma_m.powi(4)
-                    - 6. * cos_2_sigma_m.powi(2) * sin_2_sigma.powi(2)
-                    + sin_2_sigma.powi(4);
+                cos_8_sigma_m = 2. * cos_4_sigma_m.powi(2) - 1.;
 
                 // Eq (1.56)
                 let big_as = self.axs.map(|p| p.eval_at(cos_alpha_sq));
-- 
2.43.0


From a65e65240f13749314790adda6aa3fc873b7d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:24 +0000
Subject: [PATCH 07/17] fix: small geodetic tolerance allows 1e-3 m on the
 height axis as documented

---
 geokit/src/cs/geodetic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/cs/geodetic.rs b/geokit/src/cs/geodetic.rs
index dd91753..e3f57f6 100644
--- a/geokit/src/cs/geodetic.rs
+++ b/geokit/src/cs/geodetic.rs
@@ -234,7 +234,7 @@ impl GeodeticTolerance {
         GeodeticTolerance {
             lon: Angle::SMALL,
             lat: Angle::SMALL,
-            height: Length::TINY,
+            height: Length::SMALL,
         }
     }
 }
-- 
2.43.0


From ac940f26d8e6bc1383b60ffcdc04efb25b0feee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:25 +0000
Subject: [PATCH 08/17] fix: degrees-minutes-seconds never has 60 minutes

---
 geokit/src/quantities/angle.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geokit/src/quantities/angle.rs b/geokit/src/quantities/angle.rs
index 7873f69..e21e987 100644
--- a/geokit/src/quantities/angle.rs
+++ b/geokit/src/quantities/angle.rs
@@ -191,13 +191,18 @@ impl Angle {
         let rad = self.0;
         let sgn = rad.signum();
         let mut deg = rad.abs().to_degrees();
-        let d = deg.floor();
+        let mut d = deg.floor();
         deg = 60. * deg.fract();
-        let m;
+        let mut m;
         let s;
         if (deg - deg.round()).abs() < 1e-8 {
             m = deg.round();
             s = 0.0;
+            if m == 60. {
+                // a full degree: carry
+                d += 1.;
+                m = 0.;
+            }
         } else {
             m = deg.floor();
             s = 60. * deg.fract();
-- 
2.43.0


From 8715323e74edb4a53d5baa4f4b0c2dbb4423a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:26 +0000
Subject: [PATCH 09/17] fix: curve parameterization never runs past the last
 segment nor divides by a zero length

---
 geokit/src/geometry/coordinate/curve/line_string.rs | 7 +++++--
 geokit/src/geometry/primitive/curve.rs              | 5 +++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/geokit/src/geometry/coordinate/curve/line_string.rs b/geokit/src/geometry/coordinate/curve/line_string.rs
index dcf1517..a1b486b 100644
--- a/geokit/src/geometry/coordinate/curve/line_string.rs
+++ b/geokit/src/geometry/coordinate/curve/line_string.rs
@@ -84,8 +84,11 @@ impl ParameterizedCurve for LineString {
         let mut start_pos_ix = 0;
         let mut ratio = 0.;
         while let Some(l) = len_iter.next() {
-            if l >= &res_len {
-                ratio = res_len / *l;
+            // Because of rounding errors, `res_len` may be a bit more than the last length.
+            if l >= &res_len || len_iter.len() == 0 {
+                if l > &Length::ZERO {
+                    ratio = (res_len / *l).min(1.);
+                }
                 break;
             }
             res_len -= *l;
diff --git a/geokit/src/geometry/primitive/curve.rs b/geokit/src/geometry/primitive/curve.rs
index f4402a0..cf75e4c 100644
--- a/geokit/src/geometry/primitive/curve.rs
+++ b/geokit/src/geometry/primitive/curve.rs
@@ -107,6 +107,11 @@ impl ParameterizedCurve for Curve {
             if seg_len >= res_len {
                 break;
             }
+            if seg_iter.len() == 0 {
+                // Because of rounding errors, `res_len` may be a bit more than the last length.
+                res_len = seg_len;
+                break;
+            }
             res_len -= seg_len;
             seg_ix += 1;
         }
-- 
2.43.0


From 447486c26b6b5fa4c47475fc5a15aee82389c827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:27 +0000
Subject: [PATCH 10/17] fix: a curve cannot start with a segment of another
 coordinate dimension

---
 geokit/src/geometry/primitive/curve.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geokit/src/geometry/primitive/curve.rs b/geokit/src/geometry/primitive/curve.rs
index cf75e4c..cffd055 100644
--- a/geokit/src/geometry/primitive/curve.rs
+++ b/geokit/src/geometry/primitive/curve.rs
@@ -149,6 +149,9 @@ impl<'a> CurveBuilder<'a> {
         crs: &'a dyn Crs,
         seg: C,
     ) -> Result<Self, &'static str> {
+        if crs.dim() != seg.coord_dim() {
+            return Err("Invalid coordinate dimension");
+        }
         Ok(Self::new(crs, vec![clone_box(&seg)]))
     }
 
-- 
2.43.0


From 9c2c75ec15ac945a633fcc69e886848973811611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:28 +0000
Subject: [PATCH 11/17] fix: interval from -pi to -pi contains a point and is
 not empty

---
 geokit/src/cs/s1.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geokit/src/cs/s1.rs b/geokit/src/cs/s1.rs
index a3d4f14..8ee45a6 100644
--- a/geokit/src/cs/s1.rs
+++ b/geokit/src/cs/s1.rs
@@ -66,9 +66,13 @@ impl Interval {
     ///     - `[lo..hi]` otherwise
     pub fn new(lo: Angle, hi: Angle) -> Self {
         let mut low = lo.wrapped();
-        let hig = hi.wrapped();
+        let mut hig = hi.wrapped();
         if low == Angle::M_PI && hig != Angle::PI {
             low = Angle::PI;
+            if hig == Angle::M_PI {
+                // singleton, not empty
+                hig = Angle::PI;
+            }
         }
         Self { lo: low, hi: hig }
     }
-- 
2.43.0


From 739b063fe6dc50566bd204859f3b320c84d8d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:29 +0000
Subject: [PATCH 12/17] fix: the normal sphere is a sphere

---
 geokit/src/geodesy/ellipsoid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/geodesy/ellipsoid.rs b/geokit/src/geodesy/ellipsoid.rs
index b49769d..65ef4d7 100644
--- a/geokit/src/geodesy/ellipsoid.rs
+++ b/geokit/src/geodesy/ellipsoid.rs
@@ -277,7 +277,7 @@ pub mod consts {
         WGS66 => ("WGS 66", a = 6_378_145., invf = 298.25),
         WGS72 => ("WGS 72", a = 6_378_135., invf = 298.26),
         WGS84 => ("WGS 84", a = 6_378_137., invf = 298.257_223_563),
-        SPHERE => ("Normal Sphere (r=6370997)", a = 6_370_997., invf = 6_370_997.)
+        SPHERE => ("Normal Sphere (r=6370997)", a = 6_370_997., b = 6_370_997.)
     }
 }
 
-- 
2.43.0


From 664b730d5e2328880bc0fd41ab4c92f84a751719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:30 +0000
Subject: [PATCH 13/17] fix: argument of a complex is never -pi

---
 geokit/src/math/complex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geokit/src/math/complex.rs b/geokit/src/math/complex.rs
index 39951ab..13cf786 100644
--- a/geokit/src/math/complex.rs
+++ b/geokit/src/math/complex.rs
@@ -36,7 +36,7 @@ impl Complex {
 
     /// Return the argument **in (-pi..pi] radians** of this complex.
     pub fn arg(self) -> Angle {
-        self.im.atan2(self.re) * RAD
+        (self.im.atan2(self.re) * RAD).normalized()
     }
 
     /// Return the multiplicative inverse of this complex.
-- 
2.43.0


From c7db62b358d62a0db8da3c7d03313da91aa53612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:09 +0000
Subject: [PATCH 14/17] verif: guarded access to crate-private items (cfg
 geokit_verif)

---
 geokit/src/lib.rs         |  4 ++++
 geokit/src/verif_hooks.rs | 44 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+)
 create mode 100644 geokit/src/verif_hooks.rs

diff --git a/geokit/src/lib.rs b/geokit/src/lib.rs
index 587efa5..03cfdb0 100644
--- a/geokit/src/lib.rs
+++ b/geokit/src/lib.rs
@@ -14,3 +14,7 @@ pub mod projections;
 pub mod quantities;
 pub mod transformations;
 pub mod units;
+
+#[allow(unexpected_cfgs)]
+#[cfg(geokit_verif)]
+pub mod verif_hooks;
diff --git a/geokit/src/verif_hooks.rs b/geokit/src/verif_hooks.rs
new file mode 100644
index 0000000..4275d72
--- /dev/null
+++ b/geokit/src/verif_hooks.rs
@@ -0,0 +1,44 @@
+//! Access to crate-private items for the contract checks kept outside of this repository.
+//!
+//! Only compiled with `--cfg geokit_verif`; nothing here changes the behaviour of the library.
+
+/// Geocentric transformations.
+#[cfg(gkv_xyz)]
+pub mod xyz {
+    use crate::quantities::{angle::Angle, length::Length, scale::PPM};
+    use crate::transformations::xyz::{
+        GeocentricTranslation, Helmert7Params, RotationConvention, XYZTransformation,
+    };
+
+    pub fn translation(tx: Length, ty: Length, tz: Length) -> impl XYZTransformation {
+        GeocentricTranslation::new(tx, ty, tz)
+    }
+
+    pub fn helmert(
+        conv: RotationConvention,
+        rotation: [Angle; 3],
+        translation: [Length; 3],
+        ppm: PPM,
+    ) -> impl XYZTransformation {
+        Helmert7Params::new(conv, rotation, translation, ppm)
+    }
+}
+
+/// Line strings and circle intervals.
+#[cfg(gkv_line)]
+pub mod line {
+    use crate::cs::s1::Interval;
+    use crate::geometry::coordinate::{Pos, curve::line_string::LineString};
+
+    pub fn line_len(l: &LineString) -> usize {
+        l.len()
+    }
+
+    pub fn line_pos(l: &LineString, n: usize) -> &Pos {
+        l.pos(n)
+    }
+
+    pub fn is_inverted(i: &Interval) -> bool {
+        i.is_inverted()
+    }
+}
-- 
2.43.0


From f26d85fec5e6cc38bf0962ec5c21c60a5c7b3177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:41 +0000
Subject: [PATCH 15/17] fix: transverse Mercator inverse returned a NaN
 longitude near the poles

Rounding could push tanh(eta') / cos(beta') just outside of [-1, 1], where asin
is NaN.
---
 geokit/src/projections/cyl/transverse_mercator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geokit/src/projections/cyl/transverse_mercator.rs b/geokit/src/projections/cyl/transverse_mercator.rs
index 94cf822..dd3b47a 100644
--- a/geokit/src/projections/cyl/transverse_mercator.rs
+++ b/geokit/src/projections/cyl/transverse_mercator.rs
@@ -178,7 +178,8 @@ impl Projection for TransverseMercator {
         }
 
         Ok(LLH {
-            lon: self.lon0 + (eta_p0.tanh() / beta_p.cos()).asin() * RAD,
+            // Near the poles, rounding can push the sine just outside of [-1, 1].
+            lon: self.lon0 + (eta_p0.tanh() / beta_p.cos()).clamp(-1.0, 1.0).asin() * RAD,
             lat: Lat::new(Q_pp.sinh().atan() * RAD),
             height: input.height,
         })
-- 
2.43.0


From d5cfa1f7ab98bae998310be78e14018f97caf322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:23 +0000
Subject: [PATCH 16/17] fix: direct geodesics from or to the poles, and
 azimuths past half a turn

Karney: omega was taken from the sine and cosine of the rounded sigma, which loses it
when the start is at or near a pole (45 degrees at the pole for an east azimuth).
Rapp: solving the triangle through arc sines and quotients loses the longitude at the
poles, the latitude near the equator, and the quadrant of the final azimuth when
sin(sigma) is negative or the length is zero.
---
 geokit/src/geodesy/geodesics/karney.rs |  6 ++---
 geokit/src/geodesy/geodesics/rapp.rs   | 31 ++++++++------------------
 2 files changed, 12 insertions(+), 25 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/karney.rs b/geokit/src/geodesy/geodesics/karney.rs
index 2d67b33..eef0f10 100644
--- a/geokit/src/geodesy/geodesics/karney.rs
+++ b/geokit/src/geodesy/geodesics/karney.rs
@@ -229,11 +229,11 @@ fn solve_triangle_from_p(beta: Angle, alpha: Azimuth) -> Triangle {
 
     // Eq (11)
     let sigma = Complex::new(cos_alpha * cos_beta, sin_beta).arg();
-    let (sin_sigma, cos_sigma) = sigma.sin_cos();
 
     // Eq (12): omega1 is the ~longitude~ of p1 from the point of the geodesic on the equator
-    let sin_alpha0 = alpha0.sin();
-    let omega = Complex::new(cos_sigma, sin_alpha0 * sin_sigma).arg();
+    // (the coordinates of sigma in Eq (11) are used as is: going through sigma's sine and cosine
+    // loses omega when P is near a pole)
+    let omega = Complex::new(cos_alpha * cos_beta, sin_alpha * cos_beta * sin_beta).arg();
 
     Triangle {
         alpha0: Azimuth::new(alpha0),
diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index 13a0f36..2ebcbbf 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -109,18 +109,16 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
             }
         }
 
-        let alpha = sin_alpha.asin();
-        // From Eq (1.22)
-        let beta2 = ((sigma_1 + sigma).sin() * alpha.cos()).asin() * RAD;
-        let (sin_beta2, cos_beta2) = beta2.sin_cos();
+        // Solve the spherical triangle (pole, p1, p2) with 2-argument arc tangents: they keep the
+        // quadrants for any sigma, and stay accurate near the poles and near the equator.
+        let sin_beta2 = sin_beta1 * cos_sigma + cos_beta1 * sin_sigma * cos_alpha1;
+        let cos_alpha2 = cos_beta1 * cos_sigma * cos_alpha1 - sin_beta1 * sin_sigma;
+        let cos_beta2 = sin_alpha.hypot(cos_alpha2);
         // geodetic latitude from reduced latitude
-        let lat2 = beta2.tan().atan2(1. - self.ellipsoid.f());
-
-        // Eq (1.76)
-        let sin_lambda = sin_sigma * sin_alpha1 / cos_beta2;
-        // From Eq (1.57)
-        let cos_lambda = (cos_sigma - sin_beta1 * sin_beta2) / (cos_beta1 * cos_beta2);
-        let lambda = sin_lambda.atan2(cos_lambda);
+        let lat2 = sin_beta2.atan2((1. - self.ellipsoid.f()) * cos_beta2);
+        let lambda = (sin_sigma * sin_alpha1)
+            .atan2(cos_beta1 * cos_sigma - sin_beta1 * sin_sigma * cos_alpha1);
+        let alpha21 = sin_alpha.atan2(cos_alpha2);
 
         // Eq (1.56)
         let f = self.ellipsoid.f();
@@ -134,17 +132,6 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
 
         let L = lambda - lambda_minus_L;
 
-        let alpha21 = if s12.m() < 1000.0 {
-            let sin_lambda_2_sq = (1. - cos_lambda) / 2.;
-            // Eq (1.73)
-            (sin_lambda * cos_beta1)
-                .atan2((beta2 - beta1).sin() - 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq)
-        } else {
-            // Eq (1.71)
-            (sin_lambda * cos_beta1)
-                .atan2(sin_beta2 * cos_beta1 * cos_lambda - sin_beta1 * cos_beta2)
-        };
-
         Ok(Geodesic {
             p1,
             alpha1,
-- 
2.43.0


From 307fbf8b42e5917392065ef5d847f5761f5d1759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:25 +0000
Subject: [PATCH 17/17] fix: azimuths of Rapp's inverse solution on meridians
 through a pole

Both azimuths were those of the wrong pole when the end points are on opposite meridians
and the nearest pole is not in the start's hemisphere, or when lambda rounds next to PI.
---
 geokit/src/geodesy/geodesics/rapp.rs | 61 ++++++++--------------------
 1 file changed, 18 insertions(+), 43 deletions(-)

diff --git a/geokit/src/geodesy/geodesics/rapp.rs b/geokit/src/geodesy/geodesics/rapp.rs
index 2ebcbbf..e32c746 100644
--- a/geokit/src/geodesy/geodesics/rapp.rs
+++ b/geokit/src/geodesy/geodesics/rapp.rs
@@ -4,7 +4,6 @@ use crate::cs::azimuth::Azimuth;
 use crate::cs::geodetic::{Lat, Lon};
 use crate::geodesy::geodesics::{Geodesic, GeodesicSolver};
 use crate::geodesy::Ellipsoid;
-use crate::math::fp::PI;
 use crate::math::polynomial::Polynomial;
 use crate::quantities::length::Length;
 use crate::units::angle::RAD;
@@ -248,52 +247,28 @@ impl<'e> RappIterativeGeodisicSolver<'e> {
                 .m();
             Length::new(s_m, M)
         };
-        let sin_alpha1 = sin_alpha / cos_beta1;
-        let sin_alpha2 = sin_alpha / cos_beta2;
-        let sin_lambda_2_sq = (1. - cos_lambda) / 2.;
-
-        // If the geodesic (p1, p2) is a meridional line, 2 cases:
-        let (alpha1, alpha2) = if lambda == 0. {
-            // lambda = 0 -> no pole crossing
-            if lat1 < lat2 {
-                (0., 0.)
-            } else {
-                (PI, PI)
-            }
-        } else if lambda == PI {
-            // lambda = PI -> pole crossing
-            if lat1 >= Lat::ZERO {
-                // crossing north pole by going north then south
-                (0., PI)
-            } else {
-                // crossing south pole by going south then north
-                (PI, 0.)
-            }
+        // The azimuths are those of 2-argument arc tangents: as sin_sigma is positive, they have
+        // the quadrants of Eq (1.70) to (1.73)'s numerators and denominators, meridional lines
+        // included (whether or not they cross a pole).
+        let (sin_lambda, cos_lambda) = lambda.sin_cos();
+        let (cos_alpha12, cos_alpha21) = if s.m() < 10_000.0 {
+            let sin_lambda_2_sq = (1. - cos_lambda) / 2.;
+            (
+                // Eq (1.72)
+                (beta2 - beta1).sin() + 2. * sin_beta1 * cos_beta2 * sin_lambda_2_sq,
+                // Eq (1.73)
+                (beta2 - beta1).sin() - 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq,
+            )
         } else {
-            let (tan_alpha12, tan_alpha21) = if s.m() < 10_000.0 {
-                (
-                    // Eq (1.72)
-                    lambda.sin() * cos_beta2
-                        / ((beta2 - beta1).sin() + 2. * sin_beta1 * cos_beta2 * sin_lambda_2_sq),
-                    // Eq (1.73)
-                    lambda.sin() * cos_beta1
-                        / ((beta2 - beta1).sin() - 2. * cos_beta1 * sin_beta2 * sin_lambda_2_sq),
-                )
-            } else {
-                (
-                    // Eq (1.70)
-                    lambda.sin() * cos_beta2
-                        / (sin_beta2 * cos_beta1 - lambda.cos() * sin_beta1 * cos_beta2),
-                    // Eq (1.71)
-                    lambda.sin() * cos_beta1
-                        / (sin_beta2 * cos_beta1 * lambda.cos() - sin_beta1 * cos_beta2),
-                )
-            };
             (
-                sin_alpha1.atan2(sin_alpha1 / tan_alpha12),
-                sin_alpha2.atan2(sin_alpha2 / tan_alpha21),
+                // Eq (1.70)
+                sin_beta2 * cos_beta1 - cos_lambda * sin_beta1 * cos_beta2,
+                // Eq (1.71)
+                sin_beta2 * cos_beta1 * cos_lambda - sin_beta1 * cos_beta2,
             )
         };
+        let alpha1 = (sin_lambda * cos_beta2).atan2(cos_alpha12);
+        let alpha2 = (sin_lambda * cos_beta1).atan2(cos_alpha21);
 
         Ok(Geodesic {
             p1: (lon1, lat1),
-- 
2.43.0

