From 9b41189776b0c72ad9c013405e162f3cf740c04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 01/23] fix: back substitution of the tridiagonal solver
 skipped the last-but-one unknown

---
 crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs b/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
index 81b613b..5803b1b 100644
--- a/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
+++ b/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
@@ -95,7 +95,7 @@ fn solve_with_thomas_algorithm_unchecked<V: Value>(
     }
 
     /* loop from X - 2 to 0 inclusive */
-    for ix in (0..matrix_size - 2).rev() {
+    for ix in (0..matrix_size - 1).rev() {
         let temp = scratch[ix] * x[ix + 1];
         x[ix] -= temp;
     }
-- 
2.43.0


From 0e1708caf9eae12af5b8e623c42916a02a49e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 02/23] fix: natural cubic spline through three points dropped
 the last ordinate

---
 .../src/interpolation/spline/natural_cubic.rs         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
index 093321f..e72ed49 100644
--- a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
+++ b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
@@ -55,13 +55,14 @@ impl<V: Value> Interpolator for NaturalCubic<V> {
                 b_upper_diagonals.push(h_next / V::from_i8(6).unwrap());
                 c_upper_diagonals.push(h_next.recip());
             }
+            let mut boundary = V::zero();
             if i == 1 {
-                m.push(raw_points[i - 1].1 / h);
-            } else if i + 2 == raw_points.len() {
-                m.push(raw_points[i + 1].1 / h_next);
-            } else {
-                m.push(V::zero());
+                boundary += raw_points[i - 1].1 / h;
             }
+            if i + 2 == raw_points.len() {
+                boundary += raw_points[i + 1].1 / h_next;
+            }
+            m.push(boundary);
             b_diagonals.push((h + h_next) / V::from_i8(3).unwrap());
             c_diagonals.push(-(h.recip() + h_next.recip()));
         }
-- 
2.43.0


From c51b477126a46694a1df3066fa82d04274936cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 03/23] fix: last Catmull-Rom segment did not reach the last
 knot on uneven grids

---
 crates/qlab-math/src/interpolation/spline/catmull_rom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
index 8f3202a..c2e2f05 100644
--- a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
+++ b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
@@ -111,7 +111,7 @@ impl<V: Value> Interpolator for CatmullRom<V> {
                 Matrix4::new(
                     -alpha,
                     V::one(),
-                    -V::one() * alpha,
+                    -V::one() + alpha,
                     V::zero(),
                     V::from_i8(2).unwrap() * alpha,
                     V::from_i8(-2).unwrap(),
-- 
2.43.0


From 289bb61722f38f26ea0d4d9371f50cd587ec64fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 04/23] fix: interior Catmull-Rom segments used a wrong chord
 for the left tangent

---
 crates/qlab-math/src/interpolation/spline/catmull_rom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
index c2e2f05..5f1717b 100644
--- a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
+++ b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
@@ -129,7 +129,7 @@ impl<V: Value> Interpolator for CatmullRom<V> {
                 .mul(Vector4::new(prev_point.y, point.y, next_point.y, V::zero()))
             } else {
                 let prev_point = &self.points[pos - 1];
-                let prev_h = next_point.x - prev_point.x;
+                let prev_h = point.x - prev_point.x;
                 let alpha = h / (h + prev_h);
                 let next_next_point = &self.points[pos + 2];
                 let next_h = next_next_point.x - next_point.x;
-- 
2.43.0


From cb7e534f29d3ecdd704afbd3a20ed8846810255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 05/23] fix: interpolators panicked on fewer than two points
 instead of reporting it

---
 crates/qlab-math/src/interpolation.rs                | 2 +-
 crates/qlab-math/src/interpolation/spline/hermite.rs | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/interpolation.rs b/crates/qlab-math/src/interpolation.rs
index 548da9e..dd3b727 100644
--- a/crates/qlab-math/src/interpolation.rs
+++ b/crates/qlab-math/src/interpolation.rs
@@ -80,7 +80,7 @@ fn find_index_at_left_boundary<V: PartialOrd>(
     points: &[impl X<V>],
     x: V,
 ) -> Result<usize, InterpolationError<V>> {
-    if points.is_empty() {
+    if points.len() < 2 {
         return Err(InterpolationError::InsufficientPointsError(points.len()));
     }
     let pos = points.partition_point(|point| *point.x() < x);
diff --git a/crates/qlab-math/src/interpolation/spline/hermite.rs b/crates/qlab-math/src/interpolation/spline/hermite.rs
index 035818d..3882046 100644
--- a/crates/qlab-math/src/interpolation/spline/hermite.rs
+++ b/crates/qlab-math/src/interpolation/spline/hermite.rs
@@ -31,6 +31,11 @@ impl<V: Value> Hermite<V> {
     /// # Panics
     /// Will panic if `V` fail to cast constants.
     pub fn try_new(raw_points: &[(V, V, V)]) -> Result<Self, InterpolationError<V>> {
+        if raw_points.len() < 2 {
+            return Err(InterpolationError::InsufficientPointsError(
+                raw_points.len(),
+            ));
+        }
         let mut temp = raw_points[0].0;
 
         let mut points = Vec::new();
-- 
2.43.0


From 7240ac4a08ed4a0679eda658a835cb9fd38a35ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 06/23] fix: interpolators accepted unordered or repeated
 abscissae and returned garbage

---
 crates/qlab-math/src/interpolation.rs           | 17 +++++++++++++++++
 crates/qlab-math/src/interpolation/linear.rs    |  5 ++++-
 .../src/interpolation/spline/catmull_rom.rs     | 10 ++++------
 .../src/interpolation/spline/hermite.rs         |  8 ++------
 .../src/interpolation/spline/natural_cubic.rs   | 10 ++++------
 5 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/crates/qlab-math/src/interpolation.rs b/crates/qlab-math/src/interpolation.rs
index dd3b727..dc33fa6 100644
--- a/crates/qlab-math/src/interpolation.rs
+++ b/crates/qlab-math/src/interpolation.rs
@@ -1,6 +1,7 @@
 use crate::value::Value;
 use num_traits::Zero;
 use qlab_error::InterpolationError;
+use std::cmp::Ordering;
 
 pub mod linear;
 pub mod spline;
@@ -76,6 +77,22 @@ pub trait Interpolator: Default {
     fn try_value(&self, t: Self::Value) -> Result<Self::Value, InterpolationError<Self::Value>>;
 }
 
+/// Checks that abscissae are strictly ascending.
+fn validate_ascending<V: PartialOrd>(
+    mut abscissae: impl Iterator<Item = V>,
+) -> Result<(), InterpolationError<V>> {
+    let Some(mut prev) = abscissae.next() else {
+        return Ok(());
+    };
+    for x in abscissae {
+        if prev.partial_cmp(&x) != Some(Ordering::Less) {
+            return Err(InterpolationError::PointOrderError);
+        }
+        prev = x;
+    }
+    Ok(())
+}
+
 fn find_index_at_left_boundary<V: PartialOrd>(
     points: &[impl X<V>],
     x: V,
diff --git a/crates/qlab-math/src/interpolation/linear.rs b/crates/qlab-math/src/interpolation/linear.rs
index 3f24735..a427718 100644
--- a/crates/qlab-math/src/interpolation/linear.rs
+++ b/crates/qlab-math/src/interpolation/linear.rs
@@ -1,4 +1,6 @@
-use crate::interpolation::{find_index_at_left_boundary, Interpolator, Point2D};
+use crate::interpolation::{
+    find_index_at_left_boundary, validate_ascending, Interpolator, Point2D,
+};
 use crate::value::Value;
 use num_traits::real::Real;
 use qlab_error::InterpolationError;
@@ -48,6 +50,7 @@ impl<V: Real> Linear<V> {
 impl<V: Value> Interpolator for Linear<V> {
     type Value = V;
     fn try_fit(mut self, raw_points: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
+        validate_ascending(raw_points.iter().map(|&(x, _)| x))?;
         let mut points = Vec::with_capacity(raw_points.len());
         for &(x, y) in raw_points {
             points.push(Point2D { x, y });
diff --git a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
index 5f1717b..b4276f9 100644
--- a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
+++ b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
@@ -1,5 +1,7 @@
 use crate::interpolation::spline::Value;
-use crate::interpolation::{find_index_at_left_boundary, Interpolator, Point2D};
+use crate::interpolation::{
+    find_index_at_left_boundary, validate_ascending, Interpolator, Point2D,
+};
 use nalgebra::{Matrix4, Vector4};
 use qlab_error::InterpolationError;
 use std::ops::Mul;
@@ -33,14 +35,10 @@ impl<V: Value> Interpolator for CatmullRom<V> {
                 raw_points.len(),
             ));
         }
-        let mut temp = raw_points[0].0;
+        validate_ascending(raw_points.iter().map(|&(x, _)| x))?;
         let mut points = Vec::new();
         for &(x, y) in raw_points {
             let point = Point2D { x, y };
-            if point.x < temp {
-                return Err(InterpolationError::PointOrderError);
-            }
-            temp = point.x;
             points.push(point);
         }
         self.points = points;
diff --git a/crates/qlab-math/src/interpolation/spline/hermite.rs b/crates/qlab-math/src/interpolation/spline/hermite.rs
index 3882046..eedc2d4 100644
--- a/crates/qlab-math/src/interpolation/spline/hermite.rs
+++ b/crates/qlab-math/src/interpolation/spline/hermite.rs
@@ -1,5 +1,5 @@
 use crate::interpolation::spline::Value;
-use crate::interpolation::{find_index_at_left_boundary, Point2DWithSlope};
+use crate::interpolation::{find_index_at_left_boundary, validate_ascending, Point2DWithSlope};
 use nalgebra::Matrix4;
 use nalgebra::Vector4;
 use qlab_error::InterpolationError;
@@ -36,15 +36,11 @@ impl<V: Value> Hermite<V> {
                 raw_points.len(),
             ));
         }
-        let mut temp = raw_points[0].0;
+        validate_ascending(raw_points.iter().map(|&(x, _, _)| x))?;
 
         let mut points = Vec::new();
         for &(x, y, dydx) in raw_points {
             let point = Point2DWithSlope::new(x, y, dydx);
-            if point.coordinate.x < temp {
-                return Err(InterpolationError::PointOrderError);
-            }
-            temp = point.coordinate.x;
             points.push(point);
         }
         let m = Matrix4::new(
diff --git a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
index e72ed49..2ffc49e 100644
--- a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
+++ b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
@@ -1,5 +1,7 @@
 use crate::interpolation::spline::Value;
-use crate::interpolation::{find_index_at_left_boundary, Interpolator, Point2DWithSlope};
+use crate::interpolation::{
+    find_index_at_left_boundary, validate_ascending, Interpolator, Point2DWithSlope,
+};
 use crate::linear_algebra::tridiagonal_matrix::TridiagonalMatrix;
 use nalgebra::DVector;
 use qlab_error::InterpolationError;
@@ -37,6 +39,7 @@ impl<V: Value> Interpolator for NaturalCubic<V> {
                 raw_points.len(),
             ));
         }
+        validate_ascending(raw_points.iter().map(|&(x, _)| x))?;
         let mut m = Vec::with_capacity(raw_points.len() - 2);
         let mut b_upper_diagonals = Vec::with_capacity(raw_points.len() - 3);
         let mut b_diagonals = Vec::with_capacity(raw_points.len() - 2);
@@ -83,14 +86,9 @@ impl<V: Value> Interpolator for NaturalCubic<V> {
         }
         derivatives.push(V::zero());
 
-        let mut temp = raw_points[0].0;
         let mut points = Vec::with_capacity(raw_points.len());
         for (&(x, y), dydx) in raw_points.iter().zip(derivatives) {
             let point = Point2DWithSlope::new(x, y, dydx);
-            if point.coordinate.x < temp {
-                return Err(InterpolationError::PointOrderError);
-            }
-            temp = point.coordinate.x;
             points.push(point);
         }
 
-- 
2.43.0


From 2261ca81be085ddc61a451205a95d2c5d6472558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 07/23] fix: adding a huge number of years overflowed instead
 of returning None

---
 crates/qlab-time/src/date.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 81999ba..3043718 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -70,12 +70,12 @@ impl Date {
     /// `None` if the resulting date is not valid.
     #[must_use]
     pub fn checked_add_years(self, rhs_years: Years) -> Option<Self> {
-        self.0.with_year(self.0.year() + rhs_years.0).map_or_else(
+        let year = self.0.year().checked_add(rhs_years.0)?;
+        self.0.with_year(year).map_or_else(
             || {
-                self.0.with_day(28).and_then(|date| {
-                    date.with_year(self.0.year() + rhs_years.0)
-                        .map(std::convert::Into::into)
-                })
+                self.0
+                    .with_day(28)
+                    .and_then(|date| date.with_year(year).map(std::convert::Into::into))
             },
             |date| Some(date.into()),
         )
-- 
2.43.0


From 62d1c1b4e227a48ddaf75773cd23d7421cecba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 08/23] fix: modified rolling compared the month with the start
 date, not the date being rolled

---
 crates/qlab-time/src/date.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 3043718..6809ae5 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -273,8 +273,9 @@ impl Date {
                 Some(ret)
             }
             DateRolling::ModifiedFollowing => {
+                let target = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Following)?;
-                if ret.month() == self.month() {
+                if ret.month() == target.month() {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Preceding)
@@ -288,8 +289,9 @@ impl Date {
                 Some(ret)
             }
             DateRolling::ModifiedPreceding => {
+                let target = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Preceding)?;
-                if ret.month() == self.month() {
+                if ret.month() == target.month() {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Following)
-- 
2.43.0


From f54eaa3345d05aa50d96620d3dba734328918f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 09/23] fix: 30/360 day count underflowed when the later date
 is in an earlier month or day

---
 crates/qlab-time/src/day_count/thirty_360.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/qlab-time/src/day_count/thirty_360.rs b/crates/qlab-time/src/day_count/thirty_360.rs
index 690c7b0..4b4859d 100644
--- a/crates/qlab-time/src/day_count/thirty_360.rs
+++ b/crates/qlab-time/src/day_count/thirty_360.rs
@@ -8,26 +8,26 @@ use qlab_math::value::Value;
 pub struct Thirty360;
 
 impl Thirty360 {
-    #[allow(clippy::cast_sign_loss)] // validation deals with it
-    fn date_diff(date1: Date, date2: Date) -> QLabResult<u32> {
+    #[allow(clippy::cast_possible_wrap)] // months and days are small
+    fn date_diff(date1: Date, date2: Date) -> QLabResult<i32> {
         if date1 > date2 {
             return Err(
                 InvalidInput(format!("date1: {date1} must precede date2: {date2}").into()).into(),
             );
         }
-        let d1 = date1.day().min(30);
-        let d2 = date2.day().min(30);
-        Ok(
-            360 * (date2.year() - date1.year()) as u32 + 30 * (date2.month() - date1.month()) + d2
-                - d1,
-        )
+        let d1 = date1.day().min(30) as i32;
+        let d2 = date2.day().min(30) as i32;
+        Ok(360 * (date2.year() - date1.year())
+            + 30 * (date2.month() as i32 - date1.month() as i32)
+            + d2
+            - d1)
     }
 }
 
 impl DayCount for Thirty360 {
     fn calculate_day_count_fraction<V: Value>(date1: Date, date2: Date) -> QLabResult<V> {
         let date_diff = Self::date_diff(date1, date2)?;
-        let date_diff = V::from_u32(date_diff)
+        let date_diff = V::from_i32(date_diff)
             .ok_or_else(|| ComputeError::CastNumberError(format!("{date_diff}").into()))?;
         let denomination =
             V::from_i32(360).ok_or_else(|| ComputeError::CastNumberError("360".into()))?;
-- 
2.43.0


From 5b047a4a6f7af6d2eee65910fba9d33c33f93eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 10/23] fix: business_days_between inverted include_first and
 panicked on an empty range

---
 third-parties/calendar/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/third-parties/calendar/src/lib.rs b/third-parties/calendar/src/lib.rs
index 641192d..5e8157b 100644
--- a/third-parties/calendar/src/lib.rs
+++ b/third-parties/calendar/src/lib.rs
@@ -213,11 +213,11 @@ pub trait Calendar: Debug {
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
         let day_diff = ((to + Duration::days(i64::from(include_last)))
-            - (from + Duration::days(i64::from(include_first))))
+            - (from + Duration::days(i64::from(!include_first))))
         .num_days();
-        for date in (from + Duration::days(i64::from(include_first)))
+        for date in (from + Duration::days(i64::from(!include_first)))
             .iter_days()
-            .take(usize::try_from(day_diff).unwrap())
+            .take(usize::try_from(day_diff).unwrap_or(0))
         {
             if self.is_business_day(date) {
                 day_count += 1;
-- 
2.43.0


From a9a8553e90fa755690dd66472d21bb0275f3475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 11/23] fix: Ukraine observed western Easter although the rule
 is Orthodox Easter

---
 third-parties/calendar/src/ukraine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/ukraine.rs b/third-parties/calendar/src/ukraine.rs
index 8fbb269..18a2df8 100644
--- a/third-parties/calendar/src/ukraine.rs
+++ b/third-parties/calendar/src/ukraine.rs
@@ -10,7 +10,7 @@ pub struct Ukraine;
 impl Calendar for Ukraine {
     fn is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, dd) = self.naive_date_to_dkmy(date);
-        let em = self.easter_monday(y);
+        let em = self.orthodox_easter_monday(y);
         if self.is_weekend(date)
             // New Year's Day (possibly moved to Weekday::Mon)
             || ((d == 1 || ((d == 2 || d == 3) && w == Weekday::Mon))
-- 
2.43.0


From 584446cb653b1627cb815d7518a43c9e52518a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 12/23] fix: Israel reported Saturday and Sunday as its weekend
 instead of Friday and Saturday

---
 third-parties/calendar/src/israel.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/israel.rs b/third-parties/calendar/src/israel.rs
index 20cedb5..360c7d6 100644
--- a/third-parties/calendar/src/israel.rs
+++ b/third-parties/calendar/src/israel.rs
@@ -2,12 +2,16 @@
 
 use crate::Calendar;
 
-use chrono::{NaiveDate, Weekday};
+use chrono::{Datelike, NaiveDate, Weekday};
 
 #[derive(Default, Debug)]
 pub struct Israel;
 
 impl Calendar for Israel {
+    fn is_weekend(&self, date: NaiveDate) -> bool {
+        matches!(date.weekday(), Weekday::Fri | Weekday::Sat)
+    }
+
     fn is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, _) = self.naive_date_to_dkmy(date);
 
-- 
2.43.0


From 34a749c65387e4a4d86047e95f969e95c4bd854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 13/23] fix: bond with no regular coupon panicked instead of
 returning None

---
 crates/qlab-instrument/src/bond.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-instrument/src/bond.rs b/crates/qlab-instrument/src/bond.rs
index 79f8fa2..49f2692 100644
--- a/crates/qlab-instrument/src/bond.rs
+++ b/crates/qlab-instrument/src/bond.rs
@@ -108,19 +108,20 @@ impl<V: Value> Bond<V> {
         regular_coupon_payment: V,
         bond_cash_flows: &mut [BondCashFlow<V>],
     ) -> Option<()> {
+        let first_cash_flow = bond_cash_flows.first_mut()?;
         let first_prior = first_coupon_date.checked_sub_months(months_in_regular_coupon_period)?;
         match first_prior.cmp(&issue_date) {
             Ordering::Less => {
                 let coupon_fraction = V::from_i64(first_coupon_date - issue_date)?
                     / V::from_i64(first_coupon_date - first_prior)?;
-                bond_cash_flows[0].payment_amount *= coupon_fraction;
+                first_cash_flow.payment_amount *= coupon_fraction;
             }
             Ordering::Greater => {
                 let second_prior =
                     first_prior.checked_sub_months(months_in_regular_coupon_period)?;
                 let coupon_fraction = V::from_i64(first_prior - issue_date)?
                     / V::from_i64(first_prior - second_prior)?;
-                bond_cash_flows[0].payment_amount += coupon_fraction * regular_coupon_payment;
+                first_cash_flow.payment_amount += coupon_fraction * regular_coupon_payment;
             }
             Ordering::Equal => {}
         }
-- 
2.43.0


From 3da285e9b9408fa4e3cc54622516c10155ce393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 14/23] fix: coupon dates drifted away from the end of the
 month

---
 crates/qlab-instrument/src/bond.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-instrument/src/bond.rs b/crates/qlab-instrument/src/bond.rs
index 49f2692..ce48249 100644
--- a/crates/qlab-instrument/src/bond.rs
+++ b/crates/qlab-instrument/src/bond.rs
@@ -64,10 +64,12 @@ impl<V: Value> Bond<V> {
         coupon_rate: V,
         face_value: V,
     ) -> Option<Self> {
-        let months_in_regular_coupon_period = Months::new(12 / coupon_frequency as u32);
+        let months_per_period = 12 / coupon_frequency as u32;
+        let months_in_regular_coupon_period = Months::new(months_per_period);
         let regular_coupon_payment = coupon_rate * face_value / V::from_u8(coupon_frequency as u8)?;
 
         let mut regular_due_date = first_coupon_date;
+        let mut months_from_first_coupon = 0;
         let mut bond_cash_flows = Vec::new();
 
         while regular_due_date <= penultimate_coupon_date {
@@ -77,8 +79,9 @@ impl<V: Value> Bond<V> {
                 payment_date,
                 payment_amount: regular_coupon_payment,
             });
+            months_from_first_coupon += months_per_period;
             regular_due_date =
-                regular_due_date.checked_add_months(months_in_regular_coupon_period)?;
+                first_coupon_date.checked_add_months(Months::new(months_from_first_coupon))?;
         }
         Self::first_cash_flow(
             issue_date,
-- 
2.43.0


From 1db8802b5200b10511329276b5a268b818286dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 15/23] fix: 2010 lunar holidays of Taiwan and Singapore were
 listed one month early

---
 third-parties/calendar/src/singapore.rs | 2 +-
 third-parties/calendar/src/taiwan.rs    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/third-parties/calendar/src/singapore.rs b/third-parties/calendar/src/singapore.rs
index 2df67cc..d7a15da 100644
--- a/third-parties/calendar/src/singapore.rs
+++ b/third-parties/calendar/src/singapore.rs
@@ -30,7 +30,7 @@ impl Calendar for Singapore {
             || ((d == 19 || d == 20) && m == 2 && y == 2007)
             || ((d == 7 || d == 8) && m == 2 && y == 2008)
             || ((d == 26 || d == 27) && m == 1 && y == 2009)
-            || ((d == 15 || d == 16) && m == 1 && y == 2010)
+            || ((d == 15 || d == 16) && m == 2 && y == 2010)
             || ((d == 23 || d == 24) && m == 1 && y == 2012)
             || ((d == 11 || d == 12) && m == 2 && y == 2013)
             || (d == 31 && m == 1 && y == 2014)
diff --git a/third-parties/calendar/src/taiwan.rs b/third-parties/calendar/src/taiwan.rs
index d7114f0..f13a45c 100644
--- a/third-parties/calendar/src/taiwan.rs
+++ b/third-parties/calendar/src/taiwan.rs
@@ -105,11 +105,11 @@ impl Calendar for Taiwan {
             return false;
         }
         // Year 2010
-        // Lunar New Year 01-13 to 01-21
-        // Dragon Boat Festival 05-16
+        // Lunar New Year 02-13 to 02-21
+        // Dragon Boat Festival 06-16
         // Moon Festival 09-22
         if (y == 2010)
-            && (((13..=21).contains(&d) && m == 1) || (d == 16 && m == 5) || (d == 22 && m == 9))
+            && (((13..=21).contains(&d) && m == 2) || (d == 16 && m == 6) || (d == 22 && m == 9))
         {
             return false;
         }
-- 
2.43.0


From 9a7703b191c7085dfb8ce99513cbb94eeda9a5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 16/23] fix: Turkey's 2015 Feast of Sacrifice was listed in
 October instead of September

---
 third-parties/calendar/src/turkey.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/turkey.rs b/third-parties/calendar/src/turkey.rs
index 83ba4c2..5a3628c 100644
--- a/third-parties/calendar/src/turkey.rs
+++ b/third-parties/calendar/src/turkey.rs
@@ -129,7 +129,7 @@ impl Calendar for Turkey {
             // Ramadan
             if (m == 7 && (17..=19).contains(&d))
                 // Kurban
-                || (m == 10 && (24..=27).contains(&d))
+                || (m == 9 && (24..=27).contains(&d))
             {
                 return false;
             }
-- 
2.43.0


From b68728e16ec92586c5281541ef7872573ac1f170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 17/23] fix: Japan's equinox holidays were right only between
 2013 and 2028

---
 third-parties/calendar/src/japan.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/third-parties/calendar/src/japan.rs b/third-parties/calendar/src/japan.rs
index e37e048..1a73ad4 100644
--- a/third-parties/calendar/src/japan.rs
+++ b/third-parties/calendar/src/japan.rs
@@ -8,17 +8,22 @@ use chrono::{NaiveDate, Weekday};
 pub struct Japan;
 
 impl Japan {
+    // Approximation of the Hydrographic Department of Japan (1900-2150); `base` is the constant
+    // term of the formula for 1900-1979, 1980-2099 and 2100 onwards respectively.
+    #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
+    fn equinox_day(y: i32, base: [f64; 3]) -> u32 {
+        let (constant, leap_days) = match y {
+            ..=1979 => (base[0], (y - 1983) / 4),
+            1980..=2099 => (base[1], (y - 1980) / 4),
+            _ => (base[2], (y - 1980) / 4),
+        };
+        (constant + 0.242_194 * f64::from(y - 1980) - f64::from(leap_days)) as u32
+    }
     fn vernal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2014 | 2015 | 2018 | 2019 | 2022 | 2023 | 2027 => 21,
-            _ => 20,
-        }
+        Self::equinox_day(y, [20.8357, 20.8431, 21.8510])
     }
     fn autumnal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2020 | 2024 | 2028 => 22,
-            _ => 23,
-        }
+        Self::equinox_day(y, [23.2588, 23.2488, 24.2488])
     }
 }
 
-- 
2.43.0


From 6cd3b7a6fa3f3aae27829f3c46cdca109044d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 18/23] fix: NYSE election-day closings missed elections held
 on 8 November

---
 third-parties/calendar/src/unitedstates.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/unitedstates.rs b/third-parties/calendar/src/unitedstates.rs
index 78103cf..6bdca1b 100644
--- a/third-parties/calendar/src/unitedstates.rs
+++ b/third-parties/calendar/src/unitedstates.rs
@@ -147,7 +147,11 @@ impl UnitedStates {
         }
 
         // Presidential election days
-        if (y <= 1968 || (y <= 1980 && y % 4 == 0)) && m == 11 && d <= 7 && w == Weekday::Tue {
+        if (y <= 1968 || (y <= 1980 && y % 4 == 0))
+            && m == 11
+            && (2..=8).contains(&d)
+            && w == Weekday::Tue
+        {
             return false;
         }
 
-- 
2.43.0


From 23a45ce50efe61afd4442a1f1f0e351718c1613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 19/23] fix: Israel's 2038 Memorial and Independence Days were
 a day early (5 Iyar falls on a Monday)

---
 third-parties/calendar/src/israel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/israel.rs b/third-parties/calendar/src/israel.rs
index 360c7d6..db3ab3d 100644
--- a/third-parties/calendar/src/israel.rs
+++ b/third-parties/calendar/src/israel.rs
@@ -108,7 +108,7 @@ impl Calendar for Israel {
             || ((d == 14 || d == 15) && m == 5 && y == 2035)
             || (((d == 30 && m == 4) || (d == 1 && m == 5)) && y == 2036)
             || ((d == 20 || d == 21) && m == 4 && y == 2037)
-            || ((d == 9 || d == 10) && m == 5 && y == 2038)
+            || ((d == 10 || d == 11) && m == 5 && y == 2038)
             || ((d == 27 || d == 28) && m == 4 && y == 2039)
             || ((d == 17 || d == 18) && m == 4 && y == 2040)
             || ((d == 6 || d == 7) && m == 5 && y == 2041)
-- 
2.43.0


From b6a47ca6944a979265c2bce2bd2f05eeccab50dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 20/23] fix: modified rolling took the same month of another
 year for the month of the date being rolled

---
 crates/qlab-time/src/date.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 6809ae5..1a9eb08 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -275,7 +275,7 @@ impl Date {
             DateRolling::ModifiedFollowing => {
                 let target = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Following)?;
-                if ret.month() == target.month() {
+                if (ret.year(), ret.month()) == (target.year(), target.month()) {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Preceding)
@@ -291,7 +291,7 @@ impl Date {
             DateRolling::ModifiedPreceding => {
                 let target = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Preceding)?;
-                if ret.month() == target.month() {
+                if (ret.year(), ret.month()) == (target.year(), target.month()) {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Following)
-- 
2.43.0


From efee6fbe06ce4d09458c0aba2cbc39914a7765e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 21/23] fix: last_day_of_month panicked throughout the last
 representable year

---
 third-parties/calendar/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/third-parties/calendar/src/lib.rs b/third-parties/calendar/src/lib.rs
index 5e8157b..97a7f4c 100644
--- a/third-parties/calendar/src/lib.rs
+++ b/third-parties/calendar/src/lib.rs
@@ -166,8 +166,10 @@ pub trait Calendar: Debug {
         let year = date.year();
         let month = date.month();
         NaiveDate::from_ymd_opt(year, month + 1, 1)
-            .unwrap_or(NaiveDate::from_ymd_opt(year + 1, 1, 1).unwrap())
-            .pred_opt()
+            .map_or_else(
+                || NaiveDate::from_ymd_opt(year, 12, 31),
+                |first_of_next| first_of_next.pred_opt(),
+            )
             .unwrap()
     }
 
-- 
2.43.0


From 64968a033916f49237a4411bea33e9626ad502fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:43 +0000
Subject: [PATCH 22/23] fix: counting business days up to the last
 representable date panicked

---
 third-parties/calendar/src/lib.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/third-parties/calendar/src/lib.rs b/third-parties/calendar/src/lib.rs
index 97a7f4c..503f851 100644
--- a/third-parties/calendar/src/lib.rs
+++ b/third-parties/calendar/src/lib.rs
@@ -214,13 +214,9 @@ pub trait Calendar: Debug {
         let include_first = include_first.unwrap_or(true);
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
-        let day_diff = ((to + Duration::days(i64::from(include_last)))
-            - (from + Duration::days(i64::from(!include_first))))
-        .num_days();
-        for date in (from + Duration::days(i64::from(!include_first)))
-            .iter_days()
-            .take(usize::try_from(day_diff).unwrap_or(0))
-        {
+        let end = (to - from).num_days() + i64::from(include_last);
+        for offset in i64::from(!include_first)..end {
+            let date = from + Duration::days(offset);
             if self.is_business_day(date) {
                 day_count += 1;
             }
-- 
2.43.0


From 37e796956165c58fdba6704a13beb28557f057f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:30 +0000
Subject: [PATCH 23/23] fix: actual/360 and actual/365 report a number type
 that cannot hold 360 or 365 instead of panicking

---
 crates/qlab-time/src/day_count/act_360.rs | 3 ++-
 crates/qlab-time/src/day_count/act_365.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-time/src/day_count/act_360.rs b/crates/qlab-time/src/day_count/act_360.rs
index 6ec187a..e8146f0 100644
--- a/crates/qlab-time/src/day_count/act_360.rs
+++ b/crates/qlab-time/src/day_count/act_360.rs
@@ -10,7 +10,8 @@ impl DayCount for Act360 {
     fn calculate_day_count_fraction<V: Value>(date1: Date, date2: Date) -> QLabResult<V> {
         let date_diff = V::from_i64(date2 - date1)
             .ok_or_else(|| ComputeError::CastNumberError(format!("{}", date2 - date1).into()))?;
-        let denomination = V::from_i32(360).unwrap();
+        let denomination =
+            V::from_i32(360).ok_or_else(|| ComputeError::CastNumberError("360".into()))?;
 
         Ok(date_diff.div(denomination))
     }
diff --git a/crates/qlab-time/src/day_count/act_365.rs b/crates/qlab-time/src/day_count/act_365.rs
index 3222f58..0eb3f58 100644
--- a/crates/qlab-time/src/day_count/act_365.rs
+++ b/crates/qlab-time/src/day_count/act_365.rs
@@ -10,7 +10,8 @@ impl DayCount for Act365 {
     fn calculate_day_count_fraction<V: Value>(date1: Date, date2: Date) -> QLabResult<V> {
         let date_diff = V::from_i64(date2 - date1)
             .ok_or_else(|| ComputeError::CastNumberError(format!("{}", date2 - date1).into()))?;
-        let denomination = V::from_i32(365).unwrap();
+        let denomination =
+            V::from_i32(365).ok_or_else(|| ComputeError::CastNumberError("365".into()))?;
 
         Ok(date_diff.div(denomination))
     }
-- 
2.43.0

