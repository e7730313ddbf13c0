From 5b5c3844525b607ac0f77c2c2e8cbaa67c30c91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 01/91] fix: Date::add_days truncated the day count to 8 bits,
 so long jumps landed on impossible days

---
 calendar/src/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/calendar/src/date.rs b/calendar/src/date.rs
index 9d66e38..9d09fc9 100644
--- a/calendar/src/date.rs
+++ b/calendar/src/date.rs
@@ -288,7 +288,7 @@ impl Date {
             let would_be_day = self.day as usize + n_days; // Now we can add more than a year
             let n_days_this_month = N_DAYS_PER_MONTH[self.month as usize - 1];
 
-            if would_be_day as u8 > n_days_this_month {
+            if would_be_day > n_days_this_month as usize {
                 // Add one month, considering that this might be a change in year
                 self.month += 1;
                 if self.month == 13 {
-- 
2.43.0


From 48bb7787798e372d1726aab16d8f994faf948b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 02/91] fix: Date::into_naive_datetime returned wrong minutes
 and seconds

---
 calendar/src/date.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/calendar/src/date.rs b/calendar/src/date.rs
index 9d09fc9..985ff26 100644
--- a/calendar/src/date.rs
+++ b/calendar/src/date.rs
@@ -135,24 +135,14 @@ impl Date {
     /// Because `Date` does not have a year, we need to pass it as a parameter.        
     #[cfg(feature = "chrono")]
     pub fn into_naive_datetime(self, year: i32) -> Result<NaiveDateTime, String> {
-        let hour = self.hour.floor();
-        let remainder = self.hour - hour;
-        let min = remainder * 60.0;
-        let sec = (60.0 - min) * 60.0;
-
-        let mut min = min.round() as u32;
-        let mut sec = sec.round() as u32;
-
-        if min == 60 {
-            min = 59;
-            sec = 59;
-        }
-
-        sec %= 60;
+        // Work with whole seconds; never go into the following day.
+        let seconds = (self.hour * 3600.0).round().min(86399.0) as u32;
+        let hour = seconds / 3600;
+        let min = (seconds / 60) % 60;
+        let sec = seconds % 60;
 
         let r = NaiveDate::from_ymd_opt(year, self.month as u32, self.day as u32)
             .ok_or("Could not build chronos::Date")?;
-        let hour = hour.round() as u32;
         let r = r
             .and_hms_opt(hour, min, sec)
             .ok_or("Could not add HMS to chrosnos::Date")?;
-- 
2.43.0


From b121d4910d1a6c48d9a5409b3589d40013ef2575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:20 +0000
Subject: [PATCH 03/91] fix: a Period through new year never ended when a step
 jumped over both new year and its end

---
 calendar/src/period.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/calendar/src/period.rs b/calendar/src/period.rs
index a81dcb3..1efd245 100644
--- a/calendar/src/period.rs
+++ b/calendar/src/period.rs
@@ -133,9 +133,15 @@ impl Iterator for Period {
 
         // println!("     ---- old = {} | new = {} | end = {} |||| vs_end_before = {} | vs_end_after = {} | crossed_new? = {}", old, new, self.end, vs_end_before, vs_end_after, crossed_ny);
 
-        // if !self.goes_through_new_year && (crossed_end || crossed_ny)
-        //     || self.goes_through_new_year && crossed_end && !crossed_ny
-        if (crossed_ny || crossed_end) && (!crossed_ny || !self.goes_through_new_year) {
+        // Until the end date is 'ahead of us in this year' (i.e. when the period
+        // goes through new year and we have not celebrated it yet) the only way
+        // of leaving the period is jumping over the new year AND the end date.
+        let finished = if vs_end_before {
+            crossed_end || crossed_ny
+        } else {
+            crossed_ny && !vs_end_after
+        };
+        if finished {
             return None;
         }
         self.current = new;
-- 
2.43.0


From 165d1a4640c2587a626d31eeb64411d45f7b8e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 04/91] fix: NDiagGenericMatrix::new ignored the initial value

---
 matrix/src/n_diag_generic_matrix.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/matrix/src/n_diag_generic_matrix.rs b/matrix/src/n_diag_generic_matrix.rs
index 49659f9..d815326 100644
--- a/matrix/src/n_diag_generic_matrix.rs
+++ b/matrix/src/n_diag_generic_matrix.rs
@@ -54,11 +54,6 @@ impl<const N: usize, T: Numberish> NDiagGenericMatrix<N, T> {
         // when some profile states we have to.
         let n = Self::acc_n_in_row(nrows, ncols);
         let data = vec![v; n];
-        let data = data
-            .iter()
-            .enumerate()
-            .map(|(i, _)| T::one() * i as Float)
-            .collect();
 
         Self { nrows, ncols, data }
     }
-- 
2.43.0


From aa202881445a07d853ef245d0b9f8f27f8516206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 05/91] fix: product of an n-diagonal matrix failed when the
 band is wider than the matrix or it is not square

---
 matrix/src/n_diag_generic_matrix.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/matrix/src/n_diag_generic_matrix.rs b/matrix/src/n_diag_generic_matrix.rs
index d815326..86c0890 100644
--- a/matrix/src/n_diag_generic_matrix.rs
+++ b/matrix/src/n_diag_generic_matrix.rs
@@ -92,8 +92,12 @@ impl<const N: usize, T: Numberish> NDiagGenericMatrix<N, T> {
         let s = one_sided_n!(N);
         let n_zeroes_before = Self::zeroes_before(row);
         if row < s {
-            // top padding
-            s + 1 + row
+            // top padding... the diagonal might be wider than the matrix
+            if s + 1 + row < ncols {
+                s + 1 + row
+            } else {
+                ncols
+            }
         } else if n_zeroes_before + N <= ncols {
             // somewhere passed the top padding.
             N
@@ -210,17 +214,17 @@ impl<const N: usize, T: Numberish> NDiagGenericMatrix<N, T> {
                 self.ncols
             ));
         }
-        if vec.len() != into.len() {
+        if into.len() != self.nrows {
             return Err(format!(
-                "Size mismatch. Column vector has {} elements, destination vector has {} elements",
-                vec.len(),
+                "Size mismatch. Matrix has {} rows, destination vector has {} elements",
+                self.nrows,
                 into.len()
             ));
         }
 
         let mut acc = 0;
         // for row in 0..vec.len() {
-        for (row, item) in into.iter_mut().enumerate().take(vec.len()) {
+        for (row, item) in into.iter_mut().enumerate() {
             let non_zeroes = Self::n_in_row(row, self.ncols);
             *item = T::zero();
             if non_zeroes > 0 {
-- 
2.43.0


From 42b37ead4946af1bfba97892cbb23f0d00fd3a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 06/91] fix: add_into and sub_into silently accepted a result
 matrix of the wrong size

---
 matrix/src/generic_matrix.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/matrix/src/generic_matrix.rs b/matrix/src/generic_matrix.rs
index 3a6c928..c5c7504 100644
--- a/matrix/src/generic_matrix.rs
+++ b/matrix/src/generic_matrix.rs
@@ -182,6 +182,9 @@ impl<T: Numberish> GenericMatrix<T> {
         if self.ncols != other.ncols || self.nrows != other.nrows {
             return Err("Matrices being added are of different sizes".to_string());
         }
+        if self.ncols != into.ncols || self.nrows != into.nrows {
+            return Err("Result matrix when adding is not of appropriate size".to_string());
+        }
 
         // Benchmarks showed that making this parallel was not worth
         // it unless the matrices were very big.
@@ -204,6 +207,9 @@ impl<T: Numberish> GenericMatrix<T> {
         if self.ncols != other.ncols || self.nrows != other.nrows {
             return Err("Matrices being substracted are not the same size".to_string());
         }
+        if self.ncols != into.ncols || self.nrows != into.nrows {
+            return Err("Result matrix when substracting is not of appropriate size".to_string());
+        }
 
         // Benchmarks showed that making this parallel was not worth
         // it unless the matrices were very big.
-- 
2.43.0


From 4404f2e3207e731279be0b6479fc8f740b8f8e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 07/91] fix: n-diagonal product kept NaN or infinite values
 left in the result matrix

---
 matrix/src/generic_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/src/generic_matrix.rs b/matrix/src/generic_matrix.rs
index c5c7504..f8a1e0c 100644
--- a/matrix/src/generic_matrix.rs
+++ b/matrix/src/generic_matrix.rs
@@ -312,7 +312,7 @@ impl<T: Numberish> GenericMatrix<T> {
         }
 
         // Clear
-        *into *= T::zero();
+        into.data.fill(T::zero());
 
         // Multiply.
         let i = self.data.chunks_exact(self.ncols);
-- 
2.43.0


From aeae761b5f9834e51d18391daa426186fe053890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:15 +0000
Subject: [PATCH 08/91] fix: gauss_seidel reported success without solving when
 the diagonal has a zero

---
 matrix/src/matrix.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/matrix/src/matrix.rs b/matrix/src/matrix.rs
index 058633b..64eb003 100644
--- a/matrix/src/matrix.rs
+++ b/matrix/src/matrix.rs
@@ -155,6 +155,16 @@ impl Matrix {
             return Err(format!("Gauss-Seidel algorithm (for solving Ax=b) requires A to have the same number of columns as b has rows... found {} and {}, respectively", self.ncols, x.nrows));
         }
 
+        if b.ncols != 1 || x.ncols != 1 {
+            return Err(format!("Gauss-Seidel algorithm (for solving Ax=b) requires x and b to be column vectors... found {} and {} columns, respectively", x.ncols, b.ncols));
+        }
+        for i in 0..self.nrows {
+            let v = self.data[self.index(i, i)];
+            if v == 0.0 {
+                return Err(format!("Gauss-Seidel algorithm (for solving Ax=b) requires non-zero elements in the diagonal of A... found {} in row {}", v, i));
+            }
+        }
+
         let mut max_err = -Float::MAX;
         let (n, ..) = self.size();
         let zeroes = vec![0.0; n];
-- 
2.43.0


From 31519761c6ba981d0f38f6e41a8cec46496ba70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:16 +0000
Subject: [PATCH 09/91] fix: Gaussian elimination panicked or returned garbage
 when A is not square or b does not match it

---
 matrix/src/matrix.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/matrix/src/matrix.rs b/matrix/src/matrix.rs
index 64eb003..99cf189 100644
--- a/matrix/src/matrix.rs
+++ b/matrix/src/matrix.rs
@@ -39,6 +39,14 @@ impl Matrix {
         const TINY: Float = 1e-26;
         let one_sided_n = one_sided_n!(n);
 
+        // Check dimensions
+        if self.ncols != self.nrows {
+            return Err(format!("Gaussian elimination (for solving Ax=b) only works for squared matrices A... found A to be {} by {}", self.nrows, self.ncols));
+        }
+        if self.nrows != b.nrows {
+            return Err(format!("Gaussian elimination (for solving Ax=b) requires A and b to have the same number of rows... found {} and {}, respectively", self.nrows, b.nrows));
+        }
+
         // Scale row operation.
         fn aux_scale(matrix: &mut Matrix, row: usize, col_start: usize, col_end: usize, v: Float) {
             for col in col_start..col_end {
-- 
2.43.0


From 7f0fc5dbd6cab4c897a4d1b5392620d6756a8624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:43 +0000
Subject: [PATCH 10/91] fix: point-in-loop test was wrong when the tested ray
 grazes a vertex of a tilted loop

---
 geometry/src/loop3d.rs | 45 ++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/geometry/src/loop3d.rs b/geometry/src/loop3d.rs
index 349ef91..9ad6b90 100644
--- a/geometry/src/loop3d.rs
+++ b/geometry/src/loop3d.rs
@@ -717,8 +717,12 @@ impl Loop3D {
         }
 
         // Ray cast
-        let d = (point - (self.vertices[0] + self.vertices[1]) * 0.5) * 1000.; // Should be enough...?
-        let ray = Segment3D::new(point, point + d);
+        let d = point - (self.vertices[0] + self.vertices[1]) * 0.5;
+
+        // Side of the ray's line on which a vertex is. Vertices that are exactly
+        // on the line are always assigned to the same side. By doing this, a ray that
+        // goes through a vertex is never counted twice, nor missed.
+        let is_left = |v: Point3D| d.cross(v - point) * self.normal >= 0.0;
 
         let mut n_cross = 0;
         let n = self.vertices.len();
@@ -732,28 +736,21 @@ impl Loop3D {
                 return Ok(true);
             }
 
-            // Check if the ray and the segment touch. We only consider
-            // touching at the start (e.g., t_a between [0 and 1) ) in
-            // order not to count vertices twice.
-            if let Some((t_a, t_b)) = segment_ab.get_intersection_pt(&ray) {
-                // If the ray intersects
-                if (0. ..=1.).contains(&t_b) && (0. ..=1.).contains(&t_a) {
-                    if t_a < Float::EPSILON {
-                        // if the intersection is at the start of the segment
-                        let side_normal = d.cross(segment_ab.as_vector3d());
-                        if side_normal.is_same_direction(self.normal) {
-                            n_cross += 1
-                        }
-                    } else if t_a < 1. {
-                        // intersection is within the segment (not including the end)
-                        n_cross += 1;
-                    } else {
-                        // if the intersection is at the end of the segment
-                        let side_normal = d.cross(segment_ab.as_reversed_vector3d());
-                        if side_normal.is_same_direction(self.normal) {
-                            n_cross += 1
-                        }
-                    }
+            // Check if the segment goes across the line of the ray
+            if is_left(vertex_a) != is_left(vertex_b) {
+                // ... in front of the point?
+                let a_ahead = d * (vertex_a - point) > 0.0;
+                let b_ahead = d * (vertex_b - point) > 0.0;
+                let crosses = if a_ahead == b_ahead {
+                    a_ahead
+                } else {
+                    let ab = segment_ab.as_vector3d();
+                    let num = (vertex_a - point).cross(ab) * self.normal;
+                    let den = d.cross(ab) * self.normal;
+                    num * den > 0.0
+                };
+                if crosses {
+                    n_cross += 1;
                 }
             }
         }
-- 
2.43.0


From 0c36d4a1e8f9b93310ff53813e4676db2ac9ac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:14 +0000
Subject: [PATCH 11/91] fix: bridging a hole into its polygon walked the wrong
 vertices unless the hole had 2^k vertices

---
 geometry/src/polygon3d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/src/polygon3d.rs b/geometry/src/polygon3d.rs
index 8dba7e4..2deba20 100644
--- a/geometry/src/polygon3d.rs
+++ b/geometry/src/polygon3d.rs
@@ -345,9 +345,9 @@ impl Polygon3D {
                         let vertex_to_add = if outer_normal.is_same_direction(inner_normal) {
                             // If both in the same direction, then we need to
                             // add the interior in reverse.
-                            (inner_vertex_id as i32 - j as i32) as usize % n_inner_loop_vertices
+                            (inner_vertex_id + 2 * n_inner_loop_vertices - j) % n_inner_loop_vertices
                         } else {
-                            (inner_vertex_id as i32 + j as i32) as usize % n_inner_loop_vertices
+                            (inner_vertex_id + j) % n_inner_loop_vertices
                         };
 
                         let inner_vertex = self.inner[min_inner_loop_id][vertex_to_add];
-- 
2.43.0


From e2fb99ed7cd6961cbed0e34bd8f405cb1d60ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:34 +0000
Subject: [PATCH 12/91] fix: cut_hole accepted holes whose sides cross the
 border of the polygon or of another hole

---
 geometry/src/polygon3d.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/geometry/src/polygon3d.rs b/geometry/src/polygon3d.rs
index 2deba20..321e1d2 100644
--- a/geometry/src/polygon3d.rs
+++ b/geometry/src/polygon3d.rs
@@ -239,6 +239,24 @@ impl Polygon3D {
             }
         }
 
+        // Check that the sides of the hole do not go through the sides of the outer
+        // loop, or the sides of other holes (e.g., the polygon might not be convex).
+        // Touching them is fine.
+        const TINY: Float = 1e-8;
+        const INTERSECT_RANGE: core::ops::Range<Float> = TINY..(1. - TINY);
+        for hole_s in hole.segments() {
+            for this_loop in std::iter::once(&self.outer).chain(self.inner.iter()) {
+                for s in this_loop.segments() {
+                    if let Some((t_a, t_b)) = hole_s.get_intersection_pt(&s) {
+                        if INTERSECT_RANGE.contains(&t_a) && INTERSECT_RANGE.contains(&t_b) {
+                            let msg = "The hole you are trying to cut intersects the border of the Polygon3D or that of another hole".to_string();
+                            return Err(msg);
+                        }
+                    }
+                }
+            }
+        }
+
         // All good now! Add it.
         let hole_area = hole.area()?;
 
-- 
2.43.0


From afbb67a525edba40a9afbdf0f7be086de4cca3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:47 +0000
Subject: [PATCH 13/91] fix: the bridge between a polygon and its hole could
 cross other sides, panicking

---
 geometry/src/polygon3d.rs | 73 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 72 insertions(+), 1 deletion(-)

diff --git a/geometry/src/polygon3d.rs b/geometry/src/polygon3d.rs
index 321e1d2..c773012 100644
--- a/geometry/src/polygon3d.rs
+++ b/geometry/src/polygon3d.rs
@@ -305,6 +305,7 @@ impl Polygon3D {
             // find the minimum distance
             // from interior to exterior
             let mut min_distance = Float::MAX;
+            let mut min_can_bridge = false;
             let mut min_inner_loop_id = 0;
             let mut min_ext_vertex_id = 0;
             //let mut min_int_vertex_id = 0;
@@ -328,7 +329,16 @@ impl Polygon3D {
                         // the same but the calculation is faster.
                         let distance = ext_vertex.squared_distance(inner_vertex);
 
-                        if distance < min_distance {
+                        // Prefer the pairs that can be connected without crossing anything
+                        if distance >= min_distance && min_can_bridge {
+                            continue;
+                        }
+                        let can_bridge =
+                            self.can_bridge(&ret_loop, j, inner_vertex, &processed_inner_loops);
+                        if (can_bridge && !min_can_bridge)
+                            || (can_bridge == min_can_bridge && distance < min_distance)
+                        {
+                            min_can_bridge = can_bridge;
                             min_distance = distance;
                             min_ext_vertex_id = j;
                             //min_int_vertex_id = l;
@@ -390,6 +400,67 @@ impl Polygon3D {
         ret_loop
     } // end of get_closed_polygon
 
+    /// Checks whether the vertex `ext_vertex_id` of `ret_loop` can be connected to
+    /// `inner_vertex` through a straight line that leaves `ret_loop` inwards and that
+    /// does not go through the sides or vertices of `ret_loop` nor those of the holes
+    /// that have not been processed.
+    fn can_bridge(
+        &self,
+        ret_loop: &Loop3D,
+        ext_vertex_id: usize,
+        inner_vertex: Point3D,
+        processed_inner_loops: &[usize],
+    ) -> bool {
+        let n = ret_loop.len();
+        let ext_vertex = ret_loop[ext_vertex_id];
+        let bridge = Segment3D::new(ext_vertex, inner_vertex);
+
+        // It must leave towards the inside of the corner (relevant
+        // when other bridges already start at this point).
+        let normal = self.outer.normal();
+        let next = ret_loop[(ext_vertex_id + 1) % n] - ext_vertex;
+        let prev = ret_loop[(ext_vertex_id + n - 1) % n] - ext_vertex;
+        let dir = inner_vertex - ext_vertex;
+        let after_next = next.cross(dir) * normal > 0.0;
+        let before_prev = dir.cross(prev) * normal > 0.0;
+        let inwards = if next.cross(prev) * normal > 0.0 {
+            after_next && before_prev
+        } else {
+            after_next || before_prev
+        };
+        if !inwards {
+            return false;
+        }
+
+        // It must not go through any side or vertex
+        let mut intersection = Point3D::new(0., 0., 0.); // dummy variable
+        let mut blocked = |a: Point3D, b: Point3D| -> bool {
+            if bridge.intersect(&Segment3D::new(a, b), &mut intersection) {
+                return true;
+            }
+            !a.compare(ext_vertex)
+                && !a.compare(inner_vertex)
+                && bridge.contains_point(a).unwrap_or(false)
+        };
+        for i in 0..n {
+            if blocked(ret_loop[i], ret_loop[(i + 1) % n]) {
+                return false;
+            }
+        }
+        for (k, inner_loop) in self.inner.iter().enumerate() {
+            if processed_inner_loops.contains(&k) {
+                continue;
+            }
+            let n = inner_loop.len();
+            for i in 0..n {
+                if blocked(inner_loop[i], inner_loop[(i + 1) % n]) {
+                    return false;
+                }
+            }
+        }
+        true
+    }
+
     /// Checks whether the [`Polygon3D`] contains a certain [`Segment3D`]
     /// in any of its loops
     pub fn contains_segment(&self, s: &Segment3D) -> bool {
-- 
2.43.0


From 754bd1b0d1cb88d012f72ca4793b0dfe21b2ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:47 +0000
Subject: [PATCH 14/91] fix: a diagonal of a loop could go through one of its
 vertices, leaving collinear leftovers when triangulating

---
 geometry/src/loop3d.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geometry/src/loop3d.rs b/geometry/src/loop3d.rs
index 9ad6b90..9d35b8a 100644
--- a/geometry/src/loop3d.rs
+++ b/geometry/src/loop3d.rs
@@ -579,6 +579,12 @@ impl Loop3D {
             if intersects || contains || is_equal {
                 return Ok(false);
             }
+
+            // It cannot go through a vertex either
+            let is_end = a.compare(s.start) || a.compare(s.end);
+            if !is_end && s.contains_point(a)? {
+                return Ok(false);
+            }
         }
         // And the midpoint must be in the loop.
         if !self.test_point(s.midpoint())? {
-- 
2.43.0


From 17d5c9eb298d56556ad59407b905fa9f8804c84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:47 +0000
Subject: [PATCH 15/91] fix: triangulation of polygons with holes clipped
 corners that are not ears, and gave up on large polygons

---
 geometry/src/triangulation3d.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/geometry/src/triangulation3d.rs b/geometry/src/triangulation3d.rs
index 5652d9e..de37250 100644
--- a/geometry/src/triangulation3d.rs
+++ b/geometry/src/triangulation3d.rs
@@ -207,6 +207,7 @@ impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
     fn try_from(poly: &Polygon3D) -> Result<Self, Self::Error> {
         let mut the_loop = poly.get_closed_loop();
         the_loop.close()?;
+        let normal = poly.normal();
         // This is a theorem, apparently.
         let mut t = Triangulation3D::with_capacity(the_loop.len() - 2);
 
@@ -215,7 +216,8 @@ impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
         loop {
             count += 1;
 
-            if count > 220 {
+            // All the corners have been visited and there was no ear to clip.
+            if count > the_loop.len() {
                 return Err("Excessive number of iteration when triangulating polygon".into());
             }
 
@@ -237,7 +239,18 @@ impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
 
             // this will be false if potential_diag is very small.
             let is_diagonal = the_loop.is_diagonal(potential_diag)?;
-            if (n == 3) || (!is_line && is_diagonal) {
+
+            // In a loop with holes (whose bridges are walked twice), a diagonal might
+            // also close a reflex corner or enclose other vertices.
+            let left_of = |a: Point3D, b: Point3D, p: Point3D| (b - a).cross(p - a) * normal > 0.0;
+            let is_convex = left_of(v0, v1, v2);
+            let is_empty = !the_loop.vertices().iter().any(|p| {
+                !(p.compare(v0) || p.compare(v1) || p.compare(v2))
+                    && left_of(v0, v1, *p)
+                    && left_of(v1, v2, *p)
+                    && left_of(v2, v0, *p)
+            });
+            if (n == 3) || (!is_line && is_convex && is_empty && is_diagonal) {
                 // Add triangle
                 t.push(v0, v1, v2, last_added)?;
 
@@ -257,6 +270,7 @@ impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
 
                 //remove v1
                 the_loop.remove((anchor + 1) % n);
+                count = 0;
             } else {
                 anchor += 1;
             }
-- 
2.43.0


From 358ef8bd1aec1c80fba4dd3f896811126952e39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:59 +0000
Subject: [PATCH 16/91] fix: a point on the edge of a triangle was reported as
 inside due to rounding

---
 geometry/src/triangle3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/triangle3d.rs b/geometry/src/triangle3d.rs
index 46b4e51..afe3e53 100644
--- a/geometry/src/triangle3d.rs
+++ b/geometry/src/triangle3d.rs
@@ -399,7 +399,7 @@ impl Triangle3D {
         let w = 1. - alpha - beta;
 
         // Check if point is in triangle
-        const TINY: Float = 100. * Float::EPSILON;
+        const TINY: Float = 1e-9;
         if alpha >= -TINY && beta >= -TINY && w >= -TINY {
             // Somewhere in the triangle
             if alpha <= TINY && beta <= TINY {
-- 
2.43.0


From 00c421179e3cdf3a58cc3eba714922fc89e3d5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:59 +0000
Subject: [PATCH 17/91] fix: mesh refinement left triangles larger than
 requested when their circumcenter was already a vertex

---
 geometry/src/triangulation3d.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/geometry/src/triangulation3d.rs b/geometry/src/triangulation3d.rs
index de37250..dcc4fb6 100644
--- a/geometry/src/triangulation3d.rs
+++ b/geometry/src/triangulation3d.rs
@@ -1083,13 +1083,12 @@ impl Triangulation3D {
                 // Since the circumcenter may be in another triangle, we need
                 // to search for it.
                 match self.add_point(c_center) {
-                    Ok(did_something) => {
-                        if did_something {
-                            any_changes = true;
-                            self.restore_delaunay(max_aspect_ratio)?;
-                        }
+                    Ok(true) => {
+                        any_changes = true;
+                        self.restore_delaunay(max_aspect_ratio)?;
                     }
-                    Err(_) => {
+                    // Either the circumcenter is already a vertex or...
+                    Ok(false) | Err(_) => {
                         // What should I do if the circumcenter is out of the polygon?
                         // For now just add the centroid of it...
                         let centroid = self.triangles[i].centroid;
-- 
2.43.0


From a344e0a555e06091229240e35a26c7261e9e5742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:54 +0000
Subject: [PATCH 18/91] fix: inverse of a composed Transform multiplies the
 inverses in reverse order

---
 geometry/src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/transform.rs b/geometry/src/transform.rs
index 9b10912..70afa41 100644
--- a/geometry/src/transform.rs
+++ b/geometry/src/transform.rs
@@ -168,7 +168,7 @@ pub fn mul4x4(m1: &[Float; 16], m2: &[Float; 16]) -> [Float; 16] {
 impl std::ops::MulAssign<Self> for Transform {
     fn mul_assign(&mut self, other: Self) {
         self.elements = mul4x4(&self.elements, &other.elements);
-        self.inv_elements = mul4x4(&self.inv_elements, &other.inv_elements);
+        self.inv_elements = mul4x4(&other.inv_elements, &self.inv_elements);
     }
 }
 
-- 
2.43.0


From e270a56f179ce04d3dc994b21295d21a7598c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:21 +0000
Subject: [PATCH 19/91] fix: the translation of a Transform is not part of a
 propagated error

---
 geometry/src/transform.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/geometry/src/transform.rs b/geometry/src/transform.rs
index 70afa41..3f6512c 100644
--- a/geometry/src/transform.rs
+++ b/geometry/src/transform.rs
@@ -100,6 +100,17 @@ fn mul4x4_abs(matrix: &[Float; 16], x: Float, y: Float, z: Float) -> Point3D {
     Point3D::new(err_x, err_y, err_z)
 }
 
+/// Like `mul4x4_abs`, but for a difference (e.g., an error), which
+/// is not affected by the translation in the matrix
+fn mul4x4_abs_diff(matrix: &[Float; 16], x: Float, y: Float, z: Float) -> Point3D {
+    let row = |i: usize| -> Float {
+        (matrix[elem!(i, 0)] * x).abs()
+            + (matrix[elem!(i, 1)] * y).abs()
+            + (matrix[elem!(i, 2)] * z).abs()
+    };
+    Point3D::new(row(0), row(1), row(2))
+}
+
 /// Multiplies two 4x4 matrices, represented as `[Float; 16]`
 pub fn mul4x4(m1: &[Float; 16], m2: &[Float; 16]) -> [Float; 16] {
     let mut ret = [0.; 16];
@@ -338,7 +349,7 @@ impl Transform {
 
         // propagate error
         let (x, y, z) = (error.x, error.y, error.z);
-        let err1 = mul4x4_abs(&self.elements, x, y, z) * (1. + gamma!(3));
+        let err1 = mul4x4_abs_diff(&self.elements, x, y, z) * (1. + gamma!(3));
 
         (ret, err1 + err2)
     }
@@ -354,7 +365,7 @@ impl Transform {
 
         // propagate error
         let (x, y, z) = (error.x, error.y, error.z);
-        let err1 = mul4x4_abs(&self.inv_elements, x, y, z) * (1. + gamma!(3));
+        let err1 = mul4x4_abs_diff(&self.inv_elements, x, y, z) * (1. + gamma!(3));
 
         (ret, err1 + err2)
     }
@@ -406,7 +417,7 @@ impl Transform {
 
         // propagate error
         let (x, y, z) = (error.x, error.y, error.z);
-        let err1 = mul4x4_abs(&self.elements, x, y, z) * (1. + gamma!(3));
+        let err1 = mul4x4_abs_diff(&self.elements, x, y, z) * (1. + gamma!(3));
 
         (ret, err1 + err2)
     }
@@ -422,7 +433,7 @@ impl Transform {
 
         // propagate error
         let (x, y, z) = (error.x, error.y, error.z);
-        let err1 = mul4x4_abs(&self.inv_elements, x, y, z) * (1. + gamma!(3));
+        let err1 = mul4x4_abs_diff(&self.inv_elements, x, y, z) * (1. + gamma!(3));
 
         (ret, err1 + err2)
     }
-- 
2.43.0


From c3a5d30d9c04edde3897e5084b18b38803b8f900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:09 +0000
Subject: [PATCH 20/91] fix: rays hit a triangle only within it (u+v<=1),
 without cracks along its edges

---
 geometry/src/triangle3d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/src/triangle3d.rs b/geometry/src/triangle3d.rs
index afe3e53..d8f8620 100644
--- a/geometry/src/triangle3d.rs
+++ b/geometry/src/triangle3d.rs
@@ -51,13 +51,13 @@ pub fn intersect_triangle(
     let f = 1. / a;
     let s = ray.origin - vertex0;
     let u = f * (s * h);
-    if !(0.0..=1.).contains(&u) {
+    if !(-TINY..=1. + TINY).contains(&u) {
         return None;
     }
     let q = s.cross(edge1);
     let v = f * (ray.direction * q);
 
-    if !(0.0..=1.0).contains(&v) {
+    if v < -TINY || u + v > 1.0 + TINY {
         return None;
     }
     let t = f * (edge2 * q);
-- 
2.43.0


From 19518a0ea4ef11b074e626319c81b08a0695ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:09 +0000
Subject: [PATCH 21/91] fix: rays hitting the pole of a sphere panicked

---
 geometry/src/sphere3d.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/src/sphere3d.rs b/geometry/src/sphere3d.rs
index 3f751c9..0cdda4d 100644
--- a/geometry/src/sphere3d.rs
+++ b/geometry/src/sphere3d.rs
@@ -281,7 +281,8 @@ impl Sphere3D {
 
         let cos_theta = (hit_z / self.radius).clamp(-1., 1.);
         let theta = cos_theta.acos();
-        let sin_theta = theta.sin();
+        // Note that `theta.sin()` would be exactly Zero for hits at the poles
+        let sin_theta = (hit_x * hit_x + hit_y * hit_y).sqrt() / self.radius;
         let one_over_r_sin_theta = 1. / self.radius / sin_theta;
         let cos_phi = hit_x * one_over_r_sin_theta;
         let sin_phi = hit_y * one_over_r_sin_theta;
-- 
2.43.0


From 1d99b38717c19483728bda49fa7922df7ce97670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:09 +0000
Subject: [PATCH 22/91] fix: Cylinder3D between two points was rotated in the
 wrong order

---
 geometry/src/cylinder3d.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/src/cylinder3d.rs b/geometry/src/cylinder3d.rs
index 4d18a31..dafdaae 100644
--- a/geometry/src/cylinder3d.rs
+++ b/geometry/src/cylinder3d.rs
@@ -72,8 +72,9 @@ impl Cylinder3D {
         let rot_y_degrees = (x * x + y * y).sqrt().atan2(z).to_degrees();
         let rot_z_degrees = y.atan2(x).to_degrees();
 
-        transform *= Transform::rotate_y(rot_y_degrees);
+        // ... tilt it first (i.e., around Y), and then point it in the right direction
         transform *= Transform::rotate_z(rot_z_degrees);
+        transform *= Transform::rotate_y(rot_y_degrees);
 
         Self::new_transformed(
             radius,
-- 
2.43.0


From 847ee8afe7434307eafa0c36c7107cda6bd0abda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:39 +0000
Subject: [PATCH 23/91] fix: negating and subtracting ApproxFloat intervals
 kept the wrong bounds

---
 geometry/src/round_error.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geometry/src/round_error.rs b/geometry/src/round_error.rs
index 8bfa067..d3ac777 100644
--- a/geometry/src/round_error.rs
+++ b/geometry/src/round_error.rs
@@ -169,8 +169,8 @@ impl std::ops::Neg for ApproxFloat {
 
     fn neg(self) -> Self::Output {
         Self {
-            low: -self.low,
-            high: -self.high,
+            low: -self.high,
+            high: -self.low,
         }
     }
 }
@@ -199,8 +199,8 @@ impl std::ops::Sub for ApproxFloat {
 
     fn sub(self, other: Self) -> Self {
         Self {
-            low: next_float_down(self.low - other.low),
-            high: next_float_up(self.high - other.high),
+            low: next_float_down(self.low - other.high),
+            high: next_float_up(self.high - other.low),
         }
     }
 }
@@ -327,8 +327,8 @@ impl std::ops::AddAssign<Float> for ApproxFloat {
 
 impl std::ops::SubAssign for ApproxFloat {
     fn sub_assign(&mut self, other: Self) {
-        self.low = next_float_down(self.low - other.low);
-        self.high = next_float_up(self.high - other.high);
+        self.low = next_float_down(self.low - other.high);
+        self.high = next_float_up(self.high - other.low);
     }
 }
 
-- 
2.43.0


From cf9b7fe59346328f03a052dda56633160b3801b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:21 +0000
Subject: [PATCH 24/91] fix: rays missed small triangles (e.g., those of a
 meshed small sphere)

---
 rendering/src/triangle/fallback.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rendering/src/triangle/fallback.rs b/rendering/src/triangle/fallback.rs
index 9a90b8d..e5550c9 100644
--- a/rendering/src/triangle/fallback.rs
+++ b/rendering/src/triangle/fallback.rs
@@ -24,7 +24,10 @@ pub fn baricentric_coordinates(ray: Ray3D, t: &Triangle) -> Option<(Point3D, Flo
     let h = ray.direction.cross(edge2);
     let a = edge1 * h;
 
-    if a < TINY && a > -TINY {
+    // Note that `a` is proportional to the area of the triangle, so this
+    // needs to be small enough for allowing tiny triangles (e.g., in meshed spheres)
+    const PARALLEL: Float = 100. * Float::EPSILON;
+    if a < PARALLEL && a > -PARALLEL {
         return None; // ray is parallel
     }
     let f = 1. / a;
-- 
2.43.0


From b6ca561d43bbb66c9b644c75eab4e228e0fc48d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:44 +0000
Subject: [PATCH 25/91] fix: rendering: bucket primitives by their bounds so
 that aligned triangles do not overflow the traversal stack

---
 rendering/src/bvh.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rendering/src/bvh.rs b/rendering/src/bvh.rs
index e9708e7..9592ef5 100644
--- a/rendering/src/bvh.rs
+++ b/rendering/src/bvh.rs
@@ -282,12 +282,9 @@ impl Node {
                     match buckets[bucket_index].bounds {
                         Some(b) => {
                             buckets[bucket_index].bounds =
-                                Some(BBox3D::from_union_point(&b, prim_info.centroid))
-                        }
-                        None => {
-                            buckets[bucket_index].bounds =
-                                Some(BBox3D::from_point(prim_info.centroid))
+                                Some(BBox3D::from_union(&b, &prim_info.bounds))
                         }
+                        None => buckets[bucket_index].bounds = Some(prim_info.bounds),
                     }
                 }
 
-- 
2.43.0


From 3d1507b7ae56e8841b7abe3336cefb6dcd8af5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:08 +0000
Subject: [PATCH 26/91] fix: rendering: solid angle pdf of a triangle uses the
 angle between the ray and the normal

---
 rendering/src/primitive_samplers.rs | 5 ++---
 rendering/src/triangle/mod.rs       | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/rendering/src/primitive_samplers.rs b/rendering/src/primitive_samplers.rs
index 5046158..40687e4 100644
--- a/rendering/src/primitive_samplers.rs
+++ b/rendering/src/primitive_samplers.rs
@@ -56,14 +56,13 @@ pub fn triangle_solid_angle_pdf(
     ray: &Ray3D,
 ) -> Float {
     let d2 = (info.p - ray.origin).length_squared();
-    let cos_theta = ray.origin * info.normal;
-    // debug_assert!(cos_theta > 0.);
+    let cos_theta = (ray.direction * info.normal).abs();
     if cos_theta < 1e-7 {
         return 0.0;
     }
     let area = triangle.area();
     // return
-    d2 / cos_theta.abs() / area
+    d2 / cos_theta / area
 }
 
 /* END OF TRIANGLE */
diff --git a/rendering/src/triangle/mod.rs b/rendering/src/triangle/mod.rs
index f8d834b..1e4a5a6 100644
--- a/rendering/src/triangle/mod.rs
+++ b/rendering/src/triangle/mod.rs
@@ -90,14 +90,13 @@ pub fn triangle_solid_angle_pdf(
     ray: &Ray3D,
 ) -> Float {
     let d2 = (point - ray.origin).length_squared();
-    let cos_theta = ray.origin * normal;
-    // debug_assert!(cos_theta > 0.);
+    let cos_theta = (ray.direction * normal).abs();
     if cos_theta < 1e-7 {
         return 0.0;
     }
     let area = triangle_area(t);
     // return
-    d2 / cos_theta.abs() / area
+    d2 / cos_theta / area
 }
 
 /// Gets the BBox of a Triangle
-- 
2.43.0


From 3e6f9a0d12976f7d3c3331d2ebe795d76b91d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:08 +0000
Subject: [PATCH 27/91] fix: rendering: sun close to the zenith is at three
 degrees, not 87

---
 rendering/src/scene.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rendering/src/scene.rs b/rendering/src/scene.rs
index 4290fe0..54fbf2b 100644
--- a/rendering/src/scene.rs
+++ b/rendering/src/scene.rs
@@ -167,7 +167,7 @@ impl Scene {
                     it did not allow me to create a constant of that value... so I
                     did this just in case
                 */
-                (3. * crate::PI / 180.).acos()
+                3. * crate::PI / 180.
             } else {
                 cos_zenit.acos()
             };
-- 
2.43.0


From 7c59b78bbd79a9e14c081699bdb4884fa3dfe6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:35 +0000
Subject: [PATCH 28/91] fix: rendering: the medium of a ray changes only when
 it goes through a dielectric surface

---
 rendering/src/material/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rendering/src/material/mod.rs b/rendering/src/material/mod.rs
index 759b9cd..de6ee88 100644
--- a/rendering/src/material/mod.rs
+++ b/rendering/src/material/mod.rs
@@ -160,14 +160,15 @@ impl Material {
             Self::Mirror(m) => m.sample_bsdf(wo, *eta, rng, transport_mode, trans_flags),
             Self::Dielectric(m) => {
                 let ret = m.sample_bsdf(wo, *eta, rng, transport_mode, trans_flags);
-                // if front or back?
-                // dbg!("Fxix the refraction index transition");
-                match interaction.geometry_shading.side {
-                    // Going in
-                    SurfaceSide::Front => *eta = m.refraction_index,
-                    // Going out... TODO?: create a stack of refraction indexes
-                    SurfaceSide::Back => *eta = 1.0,
-                    _ => unreachable!(),
+                // The medium only changes if the ray goes through the surface
+                if ret.as_ref().is_some_and(|s| s.is_transmission()) {
+                    match interaction.geometry_shading.side {
+                        // Going in
+                        SurfaceSide::Front => *eta = m.refraction_index,
+                        // Going out... TODO?: create a stack of refraction indexes
+                        SurfaceSide::Back => *eta = 1.0,
+                        _ => unreachable!(),
+                    }
                 }
                 ret
             }
-- 
2.43.0


From 35108e829711ac288389e95ef18652929435792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:54 +0000
Subject: [PATCH 29/91] fix: rendering: matrix and image files with missing
 rows or pixels are refused

---
 rendering/src/colour_matrix.rs | 14 ++++++++++++++
 rendering/src/image.rs         | 10 +++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/rendering/src/colour_matrix.rs b/rendering/src/colour_matrix.rs
index 03f34f7..971d611 100644
--- a/rendering/src/colour_matrix.rs
+++ b/rendering/src/colour_matrix.rs
@@ -212,6 +212,13 @@ pub fn read_colour_matrix(filename: &Path) -> Result<ColourMatrix, String> {
     let mut matrix = ColourMatrix::new(Spectrum::BLACK, nrows, ncols);
 
     // Read content.
+    let found_rows = content.lines().count() - header_lines;
+    if found_rows != nrows {
+        return Err(format!(
+            "Expecting {} rows in matrix in file '{}'... found {}",
+            nrows, filename, found_rows
+        ));
+    }
     for (nrow, line) in content.lines().skip(header_lines).enumerate() {
         let ln = nrow + header_lines;
         let values: Vec<&str> = line.split_ascii_whitespace().collect();
@@ -371,6 +378,13 @@ pub fn read_matrix(filename: &Path) -> Result<Matrix, String> {
     let mut matrix = Matrix::new(0.0, nrows, ncols);
 
     // Read content.
+    let found_rows = content.lines().count() - header_lines;
+    if found_rows != nrows {
+        return Err(format!(
+            "Expecting {} rows in matrix in file '{}'... found {}",
+            nrows, filename, found_rows
+        ));
+    }
     for (nrow, line) in content.lines().skip(header_lines).enumerate() {
         let ln = nrow + header_lines;
         let values: Vec<&str> = line.split_ascii_whitespace().collect();
diff --git a/rendering/src/image.rs b/rendering/src/image.rs
index 50fdf10..429c9d3 100644
--- a/rendering/src/image.rs
+++ b/rendering/src/image.rs
@@ -272,13 +272,21 @@ impl ImageBuffer {
         let height = height.ok_or("no height")?;
 
         // Read body
-        let pixels = content
+        let pixels: Vec<Spectrum> = content
             .chunks_exact(4)
             .map(|x| {
                 let (r, g, b, e) = (x[0], x[1], x[2], x[3]);
                 rgbe_to_colour(r, g, b, e)
             })
             .collect();
+        if pixels.len() != width * height {
+            return Err(format!(
+                "Expecting {} pixels in image file '{}'... found {}",
+                width * height,
+                filename,
+                pixels.len()
+            ));
+        }
 
         // return
         Ok(Self {
-- 
2.43.0


From 97af6c7a3907fdebc87080eda0c3561b5626b4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:54 +0000
Subject: [PATCH 30/91] fix: rendering: pixel_from_ray inverts gen_ray on films
 that are not square and ignores rays going backwards

---
 rendering/src/camera/pinhole.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/rendering/src/camera/pinhole.rs b/rendering/src/camera/pinhole.rs
index 6bc38f8..e4269f2 100644
--- a/rendering/src/camera/pinhole.rs
+++ b/rendering/src/camera/pinhole.rs
@@ -63,8 +63,8 @@ impl Camera for Pinhole {
         let direction = ray.direction;
         let normal = self.view.view_direction;
         let cos = normal * direction;
-        if cos.abs() < 1e-12 {
-            // The ray does not intersect at all.... its weight is Zero
+        if cos < 1e-12 {
+            // The ray does not intersect (or goes backwards).... its weight is Zero
             return ((0, 0), 0.);
         }
 
@@ -87,11 +87,6 @@ impl Camera for Pinhole {
         }
         let z = intersection_pt * self.view.view_up;
 
-        // If it is out of the FOV, return None.
-        if z.abs() > 1. || x.abs() > 1. {
-            return ((0, 0), 0.);
-        }
-
         let (width, height) = self.film.resolution;
         let xlim = 2.;
         let aspect_ratio = height as Float / width as Float;
@@ -99,9 +94,14 @@ impl Camera for Pinhole {
         let dx = xlim / width as Float;
         let dy = ylim / height as Float;
 
+        // If it is out of the FOV, return None.
+        if z.abs() >= ylim / 2. || x.abs() >= xlim / 2. {
+            return ((0, 0), 0.);
+        }
+
         // Else, calculate:
-        let x = (x + 1.) / dx;
-        let y = (1. - z) / dy;
+        let x = (x + xlim / 2.) / dx;
+        let y = (ylim / 2. - z) / dy;
 
         // return
         ((x.floor() as usize, y.floor() as usize), 1.)
-- 
2.43.0


From 4877221304f98471114301d2d604f445a6d04066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:54 +0000
Subject: [PATCH 31/91] fix: rendering: colours next to the upper limit of the
 scale do not panic

---
 rendering/src/colourmap/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rendering/src/colourmap/mod.rs b/rendering/src/colourmap/mod.rs
index 9404654..1461dda 100644
--- a/rendering/src/colourmap/mod.rs
+++ b/rendering/src/colourmap/mod.rs
@@ -93,7 +93,8 @@ fn map_linear_colour(
             return [r, g, b];
         }
     }
-    unreachable!()
+    // rounding can leave x just above the end of the last bin
+    *map.last().expect("Given an empty colour map")
 }
 
 #[cfg(test)]
-- 
2.43.0


From 08926a9ee8035da38effb2d03652b4cbcb2eed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:27 +0000
Subject: [PATCH 32/91] fix: hour angle of solar times before the first of
 January

---
 weather/src/solar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index f2054a4..d93670e 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -177,7 +177,7 @@ impl Solar {
         let n = self.unwrap_solar_time(n);
 
         // Remove the day (keep the hour). Multiply by 24 hours
-        let solar_hour = 24. * (n % 1.);
+        let solar_hour = 24. * n.rem_euclid(1.);
 
         // Multiply for 24 hours, and by 15degrees/hour
         ((solar_hour - 12.) * 15.).to_radians()
-- 
2.43.0


From bcc720b0267e616908500f5469701549e835ba55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:27 +0000
Subject: [PATCH 33/91] fix: refuse the first bin past the end of a Reinhart
 sky

---
 weather/src/solar/reinhart_sky.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weather/src/solar/reinhart_sky.rs b/weather/src/solar/reinhart_sky.rs
index 5542865..5829fc7 100644
--- a/weather/src/solar/reinhart_sky.rs
+++ b/weather/src/solar/reinhart_sky.rs
@@ -117,7 +117,7 @@ impl ReinhartSky {
 
     /// Calculates the row in which a certain bin is located
     fn bins_row(&self, nbin: usize) -> usize {
-        if nbin > self.n_bins {
+        if nbin >= self.n_bins {
             panic!("Trying to get the row of a bin out of bounds... found {} but only {} are available", nbin, self.n_bins);
         }
 
@@ -143,7 +143,7 @@ impl ReinhartSky {
             return cone_solid_angle(height / 2.);
         }
         // Error
-        if nbin > self.n_bins {
+        if nbin >= self.n_bins {
             panic!("Trying to get direction to a bin out of bounds... found {} but only {} are available", nbin, self.n_bins);
         }
         // All others
@@ -261,7 +261,7 @@ impl ReinhartSky {
             return Vector3D::new(0., 0., 1.);
         }
         // Error
-        if nbin > self.n_bins {
+        if nbin >= self.n_bins {
             panic!("Trying to get direction to a bin out of bounds... found {} but only {} are available", nbin, self.n_bins);
         }
 
-- 
2.43.0


From 6b84724ed2a7e8858d57bfbf5076ee3de9407b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:47 +0000
Subject: [PATCH 34/91] fix: EPW wind directions were all raised to 360 degrees

---
 weather/src/epw/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/epw/scanner.rs b/weather/src/epw/scanner.rs
index 33fffb2..0fcaac3 100644
--- a/weather/src/epw/scanner.rs
+++ b/weather/src/epw/scanner.rs
@@ -271,7 +271,7 @@ impl<'a> EPWScanner<'a> {
                 direct_normal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                 diffuse_horizontal_illuminance: EPWScanner::scan_number(self.scan_element())?,
                 zenith_luminance: EPWScanner::scan_number(self.scan_element())?,
-                wind_direction: EPWScanner::scan_number(self.scan_element())?.max(360.), //Missing value is 999
+                wind_direction: EPWScanner::scan_number(self.scan_element())?.min(360.), //Missing value is 999
                 wind_speed: EPWScanner::scan_number(self.scan_element())?,
                 total_sky_cover: EPWScanner::scan_number(self.scan_element())?,
                 opaque_sky_cover: EPWScanner::scan_number(self.scan_element())?,
-- 
2.43.0


From 7eb6c340dc12a9fdc2f27a751dd7cb054d17aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:47 +0000
Subject: [PATCH 35/91] fix: EPW scanner with an empty first element or an
 unbalanced quotation mark

---
 weather/src/epw/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weather/src/epw/scanner.rs b/weather/src/epw/scanner.rs
index 0fcaac3..da8ff6c 100644
--- a/weather/src/epw/scanner.rs
+++ b/weather/src/epw/scanner.rs
@@ -106,6 +106,7 @@ impl<'a> EPWScanner<'a> {
             // Increase line number if required
             if self.src[self.current] == b'\n' {
                 self.line += 1;
+                self.in_string = false; // Strings do not span lines
                 break;
             }
 
@@ -118,7 +119,7 @@ impl<'a> EPWScanner<'a> {
 
         // Ignore the \r thing that I hate
         let mut end = self.current;
-        if self.src[end - 1] == b'\r' {
+        if end > self.start && self.src[end - 1] == b'\r' {
             end -= 1;
         }
         let (ini, fin) = (self.start, end);
-- 
2.43.0


From cf0cb4f346a748700d331a3f4177053bc234a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:47 +0000
Subject: [PATCH 36/91] fix: malformed numbers and headers of EPW files are
 errors rather than panics

---
 weather/src/epw/scanner.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/weather/src/epw/scanner.rs b/weather/src/epw/scanner.rs
index da8ff6c..5aafc6b 100644
--- a/weather/src/epw/scanner.rs
+++ b/weather/src/epw/scanner.rs
@@ -154,14 +154,8 @@ impl<'a> EPWScanner<'a> {
     /// Scans an element and transforms it into a number
     fn scan_number(slice: Option<&[u8]>) -> Result<Float, String> {
         if let Ok(v) = EPWScanner::scan_string(slice) {
-            let the_v = match v.parse::<Float>() {
-                Ok(v) => v,
-                Err(msg) => {
-                    panic!("{}", msg);
-                }
-            };
-
-            Ok(the_v)
+            v.parse::<Float>()
+                .map_err(|msg| format!("Could not read number from '{}': {}", v, msg))
         } else {
             Err("Could not scan number... scan_string() return error".to_string())
         }
@@ -226,12 +220,12 @@ impl<'a> EPWScanner<'a> {
     fn parse_data_periods(&mut self, epw: &mut EPWWeather) -> Result<(), String> {
         let n = EPWScanner::scan_number(self.scan_element())? as usize;
         if n != 1 {
-            panic!("Only one data period per EPW file is allowed!");
+            return Err("Only one data period per EPW file is allowed!".to_string());
         }
 
         let n_records_per_hour = EPWScanner::scan_number(self.scan_element())? as usize;
         if n_records_per_hour != 1 {
-            panic!("Only one record per hour is allowed in EPW file!");
+            return Err("Only one record per hour is allowed in EPW file!".to_string());
         }
 
         let _data_period_name = EPWScanner::scan_string(self.scan_element())?;
-- 
2.43.0


From 57f023c0afb34f30ffa68dc316f840fedc343460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:47 +0000
Subject: [PATCH 37/91] fix: refuse EPW records of the wrong length or with
 impossible dates

---
 weather/src/epw/scanner.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/weather/src/epw/scanner.rs b/weather/src/epw/scanner.rs
index 5aafc6b..259c926 100644
--- a/weather/src/epw/scanner.rs
+++ b/weather/src/epw/scanner.rs
@@ -239,7 +239,8 @@ impl<'a> EPWScanner<'a> {
         // Now scan until the file is finished
 
         while !self.is_finished() {
-            epw.data.push(EPWWeatherLine {
+            let line = self.line;
+            let record = EPWWeatherLine {
                 year: EPWScanner::scan_number(self.scan_element())? as usize,
                 month: EPWScanner::scan_number(self.scan_element())? as u8,
                 day: EPWScanner::scan_number(self.scan_element())? as u8,
@@ -282,7 +283,20 @@ impl<'a> EPWScanner<'a> {
                 albedo: EPWScanner::scan_number(self.scan_element())?,
                 liquid_precipitation_depth: EPWScanner::scan_number(self.scan_element())?,
                 liquid_precipitation_quantity: EPWScanner::scan_number(self.scan_element())?,
-            })
+            };
+
+            // Each record takes exactly one line
+            let ends_line = self.line == line + 1 && self.src.get(self.current - 1) == Some(&b'\n');
+            if !ends_line && !(self.line == line && self.is_finished()) {
+                return Err(format!("Incorrect number of elements in line {}", line));
+            }
+            if !(1..=12).contains(&record.month)
+                || !(1..=31).contains(&record.day)
+                || !(0.0..25.0).contains(&record.hour)
+            {
+                return Err(format!("Invalid date in line {}", line));
+            }
+            epw.data.push(record);
         }
         Ok(())
     }
-- 
2.43.0


From a08e260aa2aa34152e588c0c657deea9dd2784b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:12 +0000
Subject: [PATCH 38/91] fix: weather after the last record is interpolated, not
 extrapolated by a year

---
 weather/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weather/src/lib.rs b/weather/src/lib.rs
index e77429e..1341098 100644
--- a/weather/src/lib.rs
+++ b/weather/src/lib.rs
@@ -116,7 +116,12 @@ impl Weather {
                     let first_date = self.data[0].date;
                     let last_n = last_date.day_of_year();
                     let first_n = first_date.day_of_year() + 365.;
-                    let date_n = date.day_of_year() + 365.;
+                    let date_n = if i == 0 {
+                        date.day_of_year() + 365.
+                    } else {
+                        // Same year as the last date
+                        date.day_of_year()
+                    };
 
                     let x = (date_n - last_n) / (first_n - last_n);
                     self.data.last().unwrap().interpolate(&self.data[0], x)
-- 
2.43.0


From 5b054ed820720d17c260dee171547bfc35b68140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:12 +0000
Subject: [PATCH 39/91] fix: interpolate wind directions across north

---
 weather/src/current_weather.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/weather/src/current_weather.rs b/weather/src/current_weather.rs
index efcf863..1054d44 100644
--- a/weather/src/current_weather.rs
+++ b/weather/src/current_weather.rs
@@ -146,6 +146,17 @@ impl CurrentWeather {
             }
         };
         let interp = |a, b| a + x * (b - a);
+        // Directions turn the short way around
+        let interp_angle = |a: Float, b: Float| {
+            const FULL: Float = 2. * crate::PI;
+            let mut delta = (b - a) % FULL;
+            if delta > crate::PI {
+                delta -= FULL;
+            } else if delta < -crate::PI {
+                delta += FULL;
+            }
+            (a + x * delta).rem_euclid(FULL)
+        };
 
         let date = self.date.interpolate(other.date, x);
 
@@ -171,7 +182,7 @@ impl CurrentWeather {
                 self.diffuse_horizontal_radiation,
                 other.diffuse_horizontal_radiation,
             ),
-            wind_direction: interp(self.wind_direction, other.wind_direction),
+            wind_direction: interp_angle(self.wind_direction, other.wind_direction),
             wind_speed: interp(self.wind_speed, other.wind_speed),
             // total_sky_cover: interp(self.total_sky_cover, other.total_sky_cover),
             opaque_sky_cover: interp(self.opaque_sky_cover, other.opaque_sky_cover),
-- 
2.43.0


From c5513e6a62a876766ed7260c934a418433b60c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:03 +0000
Subject: [PATCH 40/91] fix: Perez sky was black exactly towards the sun when
 rounding took the cosine past one

---
 weather/src/solar/perez.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/solar/perez.rs b/weather/src/solar/perez.rs
index 8002443..f5cd34c 100644
--- a/weather/src/solar/perez.rs
+++ b/weather/src/solar/perez.rs
@@ -337,7 +337,7 @@ impl PerezSky {
         let ret = move |dir: Vector3D| -> Float {
             debug_assert!((1. - dir.length()) < 1e-5);
 
-            let cosgamma = sun_position * dir;
+            let cosgamma = (sun_position * dir).clamp(-1., 1.);
             let gamma = cosgamma.acos();
 
             const MIN_DZ: Float = 0.01;
-- 
2.43.0


From 46ad5153e3e1368956ff8f85a91ac025157890ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:03 +0000
Subject: [PATCH 41/91] fix: updating a daytime sky vector accumulated onto its
 previous content

---
 weather/src/solar/perez.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/weather/src/solar/perez.rs b/weather/src/solar/perez.rs
index f5cd34c..e856b0d 100644
--- a/weather/src/solar/perez.rs
+++ b/weather/src/solar/perez.rs
@@ -494,6 +494,11 @@ impl PerezSky {
             dir_illum = direct_normal_irrad * WHTEFFICACY;
         }
 
+        // Forget previous values
+        for bin in 0..r.n_bins {
+            vec.set(bin, 0, 0.0)?;
+        }
+
         // Add ground
         if albedo > 1e-8 {
             let mut global_horizontal = diff_illum;
-- 
2.43.0


From 24f9c2a1f64a6ca904295d1a5a8faecbc89d9a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:55 +0000
Subject: [PATCH 42/91] fix: Perez skies with negative patches, or with no
 positive patch at all

---
 weather/src/solar/perez.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/weather/src/solar/perez.rs b/weather/src/solar/perez.rs
index e856b0d..0b81624 100644
--- a/weather/src/solar/perez.rs
+++ b/weather/src/solar/perez.rs
@@ -368,15 +368,21 @@ impl PerezSky {
             }
             norm_diff_illum += skypatch * r.bin_solid_angle(i) * bin_dir.z;
         }
-        let norm_diff_illum = if norm_diff_illum > 1e-4 {
-            diff_illum / (norm_diff_illum * WHTEFFICACY)
-        } else {
-            0.0
-        };
+        // If the model degenerates (e.g., there is no positive patch), use a
+        // uniform sky, as Radiance's gendaymtx.c does
+        let uniform = !(norm_diff_illum > 1e-4 && norm_diff_illum.is_finite());
+        if uniform {
+            norm_diff_illum = 0.;
+            for i in 1..r.n_bins {
+                norm_diff_illum += r.bin_solid_angle(i) * r.bin_dir(i).z;
+            }
+        }
+        let norm_diff_illum = diff_illum / (norm_diff_illum * WHTEFFICACY);
 
         // Return
         Box::new(move |dir: Vector3D| -> Float {
-            let sky = ret(dir);
+            // Negative values were not considered in the normalization either
+            let sky = if uniform { 1.0 } else { ret(dir).max(0.0) };
             sky * norm_diff_illum
         })
     }
-- 
2.43.0


From c7d25317a36f4c8e2795df7d4224e64d128c8099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:26 +0000
Subject: [PATCH 43/91] fix: cloud-cover radiation depended on the radiation
 previously stored in neighbouring records

---
 weather/src/lib.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/weather/src/lib.rs b/weather/src/lib.rs
index 1341098..1412038 100644
--- a/weather/src/lib.rs
+++ b/weather/src/lib.rs
@@ -150,6 +150,35 @@ impl Weather {
     pub fn fill_solar_radiation_data(&mut self) -> Result<(), String> {
         let solar = self.location.get_solar();
 
+        // The neighbours of each line need to have their global radiation estimated
+        // as well, instead of whatever was there before
+        let global_data: Vec<Float> = self
+            .data
+            .iter()
+            .enumerate()
+            .map(|(line_index, current_data)| {
+                let three_hours_prior_data = if line_index >= 3 {
+                    &self.data[line_index - 3]
+                } else {
+                    current_data
+                };
+                match solar.sun_position_from_standard_time(current_data.date) {
+                    Some(sun_direction) => solar.estimate_global_horizontal_radiation(
+                        sun_direction,
+                        current_data.opaque_sky_cover,
+                        current_data.dry_bulb_temperature,
+                        three_hours_prior_data.dry_bulb_temperature,
+                        current_data.wind_speed,
+                        current_data.relative_humidity,
+                    ),
+                    None => 0.0,
+                }
+            })
+            .collect();
+        for (w, global) in self.data.iter_mut().zip(global_data) {
+            w.global_horizontal_radiation = global;
+        }
+
         let solar_data: Vec<(Float, Float, Float)> = self
             .data
             .iter()
-- 
2.43.0


From 95fe98722769922311bd16e2bbbc4bf16946bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:19 +0000
Subject: [PATCH 44/91] fix: the Perez sky function is black at night instead
 of panicking

---
 weather/src/solar/perez.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weather/src/solar/perez.rs b/weather/src/solar/perez.rs
index 0b81624..b8b19e3 100644
--- a/weather/src/solar/perez.rs
+++ b/weather/src/solar/perez.rs
@@ -284,7 +284,11 @@ impl PerezSky {
     ) -> Box<dyn Fn(Vector3D) -> Float + Sync> {
         // Convert local into solar time
         let day = Time::Standard(date.day_of_year());
-        let sun_position = solar.sun_position(day).unwrap();
+        let sun_position = match solar.sun_position(day) {
+            Some(pos) => pos,
+            // The night sky is black
+            None => return Box::new(|_dir: Vector3D| -> Float { 0. }),
+        };
 
         // Convert day into solar time
         let day = solar.unwrap_solar_time(day);
-- 
2.43.0


From 8de1dea3d7c2c33a04fccea705faca07d399285c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:06 +0000
Subject: [PATCH 45/91] fix: the latest definition of a Radiance modifier is
 the one used

---
 rendering/src/from_radiance.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rendering/src/from_radiance.rs b/rendering/src/from_radiance.rs
index abe6304..5a06996 100644
--- a/rendering/src/from_radiance.rs
+++ b/rendering/src/from_radiance.rs
@@ -47,7 +47,8 @@ impl RadianceReader {
     }
 
     fn get_modifier_index(&self, name: &str) -> usize {
-        for (i, mod_name) in self.modifiers.iter().enumerate() {
+        // The latest definition of a modifier is the one that counts
+        for (i, mod_name) in self.modifiers.iter().enumerate().rev() {
             if name == mod_name {
                 return i;
             }
-- 
2.43.0


From 900777ddd644758441192ba018f1948c4b488efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:06 +0000
Subject: [PATCH 46/91] fix: keep OBJ faces of more than four corners and split
 concave ones correctly

---
 rendering/src/from_obj.rs | 73 ++++++++++++++++++++++-----------------
 1 file changed, 41 insertions(+), 32 deletions(-)

diff --git a/rendering/src/from_obj.rs b/rendering/src/from_obj.rs
index da630bd..b6f6d8f 100644
--- a/rendering/src/from_obj.rs
+++ b/rendering/src/from_obj.rs
@@ -36,6 +36,46 @@ struct ObjTriangle {
     textures: Option<[(Float, Float, Float); 3]>,
 }
 
+/// Splits a face into triangles by clipping its ears, one by one. The face does
+/// not need to be convex, but it is expected to be (nearly) planar.
+fn split_face(p: &[Point3D]) -> Vec<(usize, usize, usize)> {
+    let mut ret = Vec::with_capacity(p.len().saturating_sub(2));
+    let mut left: Vec<usize> = (0..p.len()).collect();
+
+    // Normal of the face (its length does not matter)
+    let mut normal = Vector3D::new(0., 0., 0.);
+    for i in 2..p.len() {
+        normal += (p[i - 1] - p[0]).cross(p[i] - p[0]);
+    }
+    // Positive if c is to the left of the line that goes from a to b
+    let side = |a: usize, b: usize, c: usize| (p[b] - p[a]).cross(p[c] - p[a]) * normal;
+
+    while left.len() > 3 {
+        let len = left.len();
+        let corner = |i: usize| (left[(i + len - 1) % len], left[i], left[(i + 1) % len]);
+        let ear = (1..=len)
+            .map(|i| i % len)
+            .find(|i| {
+                let (a, b, c) = corner(*i);
+                side(a, b, c) > 0.
+                    && !left.iter().any(|v| {
+                        ![a, b, c].contains(v)
+                            && side(a, b, *v) >= 0.
+                            && side(b, c, *v) >= 0.
+                            && side(c, a, *v) >= 0.
+                    })
+            })
+            // Degenerate face... any corner will do
+            .unwrap_or(1);
+        ret.push(corner(ear));
+        left.remove(ear);
+    }
+    if let [a, b, c] = left[..] {
+        ret.push((a, b, c));
+    }
+    ret
+}
+
 impl<I> FromRawVertex<I> for ObjTriangle {
     fn process(
         vertices: Vec<(f32, f32, f32, f32)>,
@@ -67,10 +107,6 @@ impl<I> FromRawVertex<I> for ObjTriangle {
                     n = Some(pos_text_normal.iter().map(|v| v.2).collect());
                 }
             }
-            // assert!(p.len() == 4 || p.len() == 3, "Only faces of 3 and 4 vertices are allowed when reading OBJ files for now... sorry");
-            if p.len() > 4 {
-                continue;
-            }
             let p: Vec<Point3D> = p
                 .iter()
                 .map(|index| {
@@ -118,37 +154,10 @@ impl<I> FromRawVertex<I> for ObjTriangle {
             });
 
             // Add the bottom half
-            let (x, y, z) = (0, 1, 2);
-            let vertices = [p[x], p[y], p[z]];
-            // let normals = match &n {
-            //     Some(no)=>Some([no[x], no[y], no[z]]),
-            //     None => None
-            // };
-            let normals = n.as_ref().map(|no| [no[x], no[y], no[z]]);
 
-            // let textures = match &t {
-            //     Some(no)=>Some([no[x], no[y], no[z]]),
-            //     None => None
-            // };
-            let textures = t.as_ref().map(|no| [no[x], no[y], no[z]]);
-            ret.push(ObjTriangle {
-                vertices,
-                normals,
-                textures,
-            });
-            if p.len() == 4 {
-                // add second half
-                let (x, y, z) = (0, 2, 3);
+            for (x, y, z) in split_face(&p) {
                 let vertices = [p[x], p[y], p[z]];
-                // let normals = match &n {
-                //     Some(no)=>Some([no[x], no[y], no[z]]),
-                //     None => None
-                // };
                 let normals = n.as_ref().map(|no| [no[x], no[y], no[z]]);
-                // let textures = match &t {
-                //     Some(no)=>Some([no[x], no[y], no[z]]),
-                //     None => None
-                // };
                 let textures = t.as_ref().map(|no| [no[x], no[y], no[z]]);
                 ret.push(ObjTriangle {
                     vertices,
-- 
2.43.0


From 809bd366a221cc8243605d837efc58cb8a550a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:06 +0000
Subject: [PATCH 47/91] fix: the back of a wall looks like the back of its last
 layer

---
 rendering/src/from_simple_model.rs | 35 +++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/rendering/src/from_simple_model.rs b/rendering/src/from_simple_model.rs
index a261d0f..d96bc2e 100644
--- a/rendering/src/from_simple_model.rs
+++ b/rendering/src/from_simple_model.rs
@@ -81,7 +81,7 @@ impl SimpleModelReader {
 
             let front_substance = model.get_material_substance(front_mat_name)?;
             let front_mat_index = self
-                .push_substance(&mut scene, &front_substance, wavelength)
+                .push_substance(&mut scene, &front_substance, true, wavelength)
                 .ok_or(format!(
                     "Front material of  Construction '{}' seems to be a gas. This is not supported",
                     construction.name()
@@ -93,7 +93,7 @@ impl SimpleModelReader {
                 .ok_or("Could not get last material")?;
             let back_substance = model.get_material_substance(last_mat_name)?;
             let back_mat_index = self
-                .push_substance(&mut scene, &back_substance, wavelength)
+                .push_substance(&mut scene, &back_substance, false, wavelength)
                 .ok_or(format!(
                     "Back material of  Construction '{}' seems to be a gas. This is not supported",
                     construction.name()
@@ -129,7 +129,7 @@ impl SimpleModelReader {
             let front_material_name = &construction.materials[0];
             let front_substance = model.get_material_substance(front_material_name)?;
             let front_mat_index = self
-                .push_substance(&mut scene, &front_substance, wavelength)
+                .push_substance(&mut scene, &front_substance, true, wavelength)
                 .ok_or(format!(
                     "Front material of  Construction '{}' seems to be a gas. This is not supported",
                     construction.name()
@@ -140,7 +140,7 @@ impl SimpleModelReader {
                 .ok_or("Could not get last material")?;
             let back_substance = model.get_material_substance(back_material_name)?;
             let back_mat_index = self
-                .push_substance(&mut scene, &back_substance, wavelength)
+                .push_substance(&mut scene, &back_substance, false, wavelength)
                 .ok_or(format!(
                     "Back material of  Construction '{}' seems to be a gas. This is not supported",
                     construction.name()
@@ -167,15 +167,21 @@ impl SimpleModelReader {
         &mut self,
         scene: &mut Scene,
         substance: &Substance,
+        is_front: bool,
         wavelength: &Wavelengths,
     ) -> Option<usize> {
-        let substance_name = substance.name().to_string();
+        // The two sides of a substance may look different
+        let substance_name = if is_front {
+            substance.name().to_string()
+        } else {
+            format!("{} (back)", substance.name())
+        };
         match self.get_modifier_index(&substance_name) {
             Some(i) => Some(i),
             None => {
                 // Material is not there... add, then.
-                let front_mat = Self::substance_to_material(substance, wavelength)?;
-                Some(scene.push_material(front_mat))
+                let mat = Self::substance_to_material(substance, is_front, wavelength)?;
+                Some(scene.push_material(mat))
             }
         }
     }
@@ -190,18 +196,27 @@ impl SimpleModelReader {
     }
 
     /// Transformsa a Model Substance into a Material
-    fn substance_to_material(substance: &Substance, wavelength: &Wavelengths) -> Option<Material> {
+    fn substance_to_material(
+        substance: &Substance,
+        is_front: bool,
+        wavelength: &Wavelengths,
+    ) -> Option<Material> {
         match substance {
             Substance::Normal(s) => {
+                let (solar_absorbtance, visible_reflectance) = if is_front {
+                    (s.front_solar_absorbtance(), s.front_visible_reflectance())
+                } else {
+                    (s.back_solar_absorbtance(), s.back_visible_reflectance())
+                };
                 let alpha = match *wavelength {
-                    Wavelengths::Solar => match s.front_solar_absorbtance() {
+                    Wavelengths::Solar => match solar_absorbtance {
                         Ok(v) => *v,
                         Err(_) => {
                             // eprintln!("Substance '{}' does not have a Solar Absorbtance... assuming value of {}", s.name, v);
                             0.7
                         }
                     },
-                    Wavelengths::Visible => match s.front_visible_reflectance() {
+                    Wavelengths::Visible => match visible_reflectance {
                         Ok(v) => *v,
                         Err(_) => {
                             // eprintln!("Substance '{}' does not have a Solar Absorbtance... assuming value of {}", s.name, v);
-- 
2.43.0


From a1e1407382c8b7fd1adc6a45c375b9290b5eb974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:15 +0000
Subject: [PATCH 48/91] fix: radiation reaching the back of a wall finds the
 back of its layers

---
 heat/src/glazing.rs | 11 +++++++++++
 heat/src/surface.rs |  6 +++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/heat/src/glazing.rs b/heat/src/glazing.rs
index 020764e..c625e96 100644
--- a/heat/src/glazing.rs
+++ b/heat/src/glazing.rs
@@ -157,6 +157,17 @@ impl Glazing {
         self.alpha_back
     }
 
+    /// Returns this same layer, seen from its other side
+    pub fn flipped(&self) -> Self {
+        Self {
+            tau: self.tau,
+            rho_front: self.rho_back,
+            rho_back: self.rho_front,
+            alpha_front: self.alpha_back,
+            alpha_back: self.alpha_front,
+        }
+    }
+
     /// Calculates the overall transmittance of a system of two glazing layers
     ///
     /// Source: ISO-9050/2003, Equation 2
diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index f5b12a4..269bbe9 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -431,7 +431,11 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
 
         // Calculate solar absoption
         let front_glazing = Glazing::get_front_glazing_system(construction, model)?;
-        let back_glazing = Glazing::get_back_glazing_system(construction, model)?;
+        // Radiation reaching the back of the construction finds the back of each layer
+        let back_glazing: Vec<Glazing> = Glazing::get_back_glazing_system(construction, model)?
+            .iter()
+            .map(|g| g.flipped())
+            .collect();
         // These two are the absorbtion of each glazing layer. We need the absorption of each node
         let front_alphas_prev = Glazing::alphas(&front_glazing);
 
-- 
2.43.0


From f8e497506c0f47d076a3aa861bb18bf8d0e12970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:31 +0000
Subject: [PATCH 49/91] fix: a horizontal cavity heated from above does not
 convect as if heated from below

---
 heat/src/gas.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/heat/src/gas.rs b/heat/src/gas.rs
index 8b4c3a0..f8679d7 100644
--- a/heat/src/gas.rs
+++ b/heat/src/gas.rs
@@ -198,8 +198,6 @@ fn nusselt(ra: Float, gamma: Float, a_gi: Float) -> Float {
     const THIRTY_RAD: Float = 30. * crate::PI / 180.;
     const EPSILON_RAD: Float = 0.5 * crate::PI / 180.;
 
-    let gamma = gamma % crate::PI;
-
     if (0.0..2. * THIRTY_RAD - EPSILON_RAD).contains(&gamma) {
         // Between 0 and 60 degrees
         nu_0_60(ra, gamma, a_gi)
@@ -212,7 +210,7 @@ fn nusselt(ra: Float, gamma: Float, a_gi: Float) -> Float {
     } else if gamma < 3. * THIRTY_RAD + EPSILON_RAD {
         // 90 degrees
         nu_90(ra, a_gi)
-    } else if gamma < 6. * THIRTY_RAD {
+    } else if gamma < 6. * THIRTY_RAD + EPSILON_RAD {
         // between 90 and 180 degrees
         nu_90_180(ra, a_gi, gamma)
     } else {
-- 
2.43.0


From ac026cdb499f33a17a017c606caaff60d74c58fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:04 +0000
Subject: [PATCH 50/91] fix: a cavity with a Rayleigh number of exactly 5e4
 panicked

---
 heat/src/gas.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/heat/src/gas.rs b/heat/src/gas.rs
index f8679d7..0fd83ef 100644
--- a/heat/src/gas.rs
+++ b/heat/src/gas.rs
@@ -284,14 +284,12 @@ fn nu_90(ra: Float, a_gi: Float) -> Float {
     let nu1 = if ra <= 1e4 {
         // Eq. 52
         1. + 1.7596678 * 1e-10 * ra.powf(2.2984755)
-    } else if ra < 5e4 {
+    } else if ra <= 5e4 {
         // Eq. 51
         0.028154 * ra.powf(0.4134)
-    } else if ra > 5e4 {
+    } else {
         // Eq. 50
         0.0673838 * ra.powf(1. / 3.)
-    } else {
-        unreachable!()
     };
     // Eq. 53
     let nu2 = 0.242 * (ra / a_gi).powf(0.272);
-- 
2.43.0


From 9b6b9bac2fbac698a4ae194cf5bf27e7d5dca182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:04 +0000
Subject: [PATCH 51/91] fix: a back facing a fixed temperature exchanges heat
 from its own surface

---
 heat/src/surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 269bbe9..8f9a22c 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -688,7 +688,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     air_temperature: *temperature,
                     air_speed: 0.0,
                     rad_temperature: *temperature,
-                    surface_temperature: self.parent.front_temperature(state),
+                    surface_temperature: self.parent.back_temperature(state),
                     roughness_index: 1,
                     cos_surface_tilt: self.cos_tilt,
                 };
-- 
2.43.0


From 1ac3fd66df2d32bb2dcda4a41f08bdb30c8861c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:04 +0000
Subject: [PATCH 52/91] fix: negative solar irradiance at the back of a wall
 was absorbed

---
 heat/src/surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 8f9a22c..4dcc599 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -1271,7 +1271,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
             solar_front = 0.0;
         }
         let mut solar_back = self.parent.back_solar_irradiance(state);
-        if solar_back.is_nan() || solar_front < 0.0 {
+        if solar_back.is_nan() || solar_back < 0.0 {
             solar_back = 0.0;
         }
 
-- 
2.43.0


From 13b6d8eecef6bfc5bfa10eb62628796367cbd5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:04 +0000
Subject: [PATCH 53/91] fix: the back of a wall faces the wind that its front
 does not

---
 heat/src/surface.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 4dcc599..61f9eba 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -582,7 +582,8 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
         let ir_front = self.parent.front_infrared_irradiance(state);
         let ir_back = self.parent.back_infrared_irradiance(state);
 
-        let windward = is_windward(wind_direction, self.cos_tilt, self.normal);
+        let front_windward = is_windward(wind_direction, self.cos_tilt, self.normal);
+        let back_windward = is_windward(wind_direction, self.cos_tilt, self.normal * -1.);
 
         // TODO: There is something to do here if we are talking about windows
         let (front_env, mut front_hs) = match &self.front_boundary {
@@ -654,7 +655,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     None => front_env.get_tarp_convection_coefficient(
                         self.area,
                         self.perimeter,
-                        windward,
+                        front_windward,
                     ),
                 };
 
@@ -716,7 +717,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     None => back_env.get_tarp_convection_coefficient(
                         self.area,
                         self.perimeter,
-                        windward,
+                        back_windward,
                     ),
                 };
 
-- 
2.43.0


From 90f1185f54f725c41fa82eb54bdbd880544d7d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:04 +0000
Subject: [PATCH 54/91] fix: fronts facing a space convected as if they were
 turned upside down

---
 heat/src/surface.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 61f9eba..537e17b 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -594,7 +594,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     rad_temperature: t_back,
                     surface_temperature: self.parent.back_temperature(state),
                     roughness_index: 1,
-                    cos_surface_tilt: self.cos_tilt,
+                    cos_surface_tilt: -self.cos_tilt,
                 };
 
                 let front_hs = match self.front_hs {
@@ -611,7 +611,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     rad_temperature: t_front,
                     surface_temperature: self.parent.front_temperature(state),
                     roughness_index: 1,
-                    cos_surface_tilt: self.cos_tilt,
+                    cos_surface_tilt: -self.cos_tilt,
                 };
 
                 let front_hs = match self.front_hs {
@@ -628,7 +628,7 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                     rad_temperature: *temperature,
                     surface_temperature: self.parent.front_temperature(state),
                     roughness_index: 1,
-                    cos_surface_tilt: self.cos_tilt,
+                    cos_surface_tilt: -self.cos_tilt,
                 };
 
                 let front_hs = match self.front_hs {
-- 
2.43.0


From 1acb8cdf66ca58e0c27d98f9e8f639ac4822386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:04 +0000
Subject: [PATCH 55/91] fix: an adiabatic front has the same conditions as the
 back of its wall

---
 heat/src/heat_model.rs | 7 +++++--
 heat/src/surface.rs    | 8 ++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/heat/src/heat_model.rs b/heat/src/heat_model.rs
index b4a4de0..5759e67 100644
--- a/heat/src/heat_model.rs
+++ b/heat/src/heat_model.rs
@@ -120,8 +120,11 @@ pub(crate) fn iterate_surfaces<T: SurfaceTrait + Send + Sync>(
     let boundary_temps: Vec<(Float, Float)> = surfaces
         .iter()
         .map(|s| {
-            let t_front = match &s.front_boundary {
-                Boundary::Adiabatic => s.parent.back_temperature(state),
+            let t_front = match (&s.front_boundary, &s.back_boundary) {
+                (Boundary::Adiabatic, Boundary::Adiabatic) => s.parent.back_temperature(state),
+                (Boundary::Adiabatic, back) => {
+                    get_boundary_temperature(back, t_out, model, state).unwrap()
+                }
                 _ => get_boundary_temperature(&s.front_boundary, t_out, model, state).unwrap(),
             };
 
diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index 537e17b..f243a0b 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -725,6 +725,14 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
             }
         };
 
+        // The conditions in front of an adiabatic wall are those at its back
+        let front_env = if let Boundary::Adiabatic = &self.front_boundary {
+            front_hs = back_hs;
+            back_env
+        } else {
+            front_env
+        };
+
         // assert!(
         //     !front_hs.is_nan() && !back_hs.is_nan(),
         //     "Found NaN convection coefficients: Front={front_hs} | back={back_hs}"
-- 
2.43.0


From 37f7f30580f548188f507d3edbbcc7bb5b253928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:26 +0000
Subject: [PATCH 56/91] fix: massless walls reached absurd temperatures when
 radiation exceeded convection

---
 heat/src/surface.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/heat/src/surface.rs b/heat/src/surface.rs
index f243a0b..19b1fcf 100644
--- a/heat/src/surface.rs
+++ b/heat/src/surface.rs
@@ -1082,6 +1082,22 @@ impl<T: SurfaceTrait + Send + Sync> ThermalSurfaceData<T> {
                 memory,
             )?;
 
+            // The radiant exchange depends on the temperature being solved for... it goes
+            // in K. Otherwise, this iteration diverges when radiation exceeds convection.
+            if ini == 0 {
+                let ts = global_temperatures.get(0, 0)?;
+                memory.k.add_to_element(0, 0, -front_rad_hs)?;
+                memory.q[0] += front_rad_hs * ts;
+            }
+            let n_local = fin - ini;
+            if fin == self.discretization.segments.len() {
+                let ts = global_temperatures.get(fin - 1, 0)?;
+                memory
+                    .k
+                    .add_to_element(n_local - 1, n_local - 1, -back_rad_hs)?;
+                memory.q[n_local - 1] += back_rad_hs * ts;
+            }
+
             // add solar gains
             for (local_i, i) in (ini..fin).enumerate() {
                 let v = solar_radiation.get(i, 0)?;
-- 
2.43.0


From d4bad5bf794b7b5131bb1597ab8ff6dc02d2e246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:34 +0000
Subject: [PATCH 57/91] fix: the gains of a space isolated from everything were
 lost

---
 heat/src/heat_model.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/heat/src/heat_model.rs b/heat/src/heat_model.rs
index 5759e67..018369f 100644
--- a/heat/src/heat_model.rs
+++ b/heat/src/heat_model.rs
@@ -687,7 +687,7 @@ impl ThermalModel {
                             * (1.0 - (-b[i] * future_time / c[i]).exp()),
                 );
             } else {
-                ret.push(current_temp);
+                ret.push(current_temp + a[i] * future_time / c[i] / 2.0);
             }
         }
 
@@ -716,8 +716,9 @@ impl ThermalModel {
                     a[i] / b[i] + (t_current[i] - a[i] / b[i]) * (-b[i] * future_time / c[i]).exp(),
                 );
             } else {
-                // A space that is disconnected from everything... maintains its temperature
-                ret.push(t_current[i]);
+                // A space that is disconnected from everything... only its own
+                // gains change its temperature
+                ret.push(t_current[i] + a[i] * future_time / c[i]);
             }
         }
 
-- 
2.43.0


From 6b193a9c0deccddc0739dc165e4e1da423229ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:57 +0000
Subject: [PATCH 58/91] fix: a refused push of a state element changed the
 header

---
 model/src/simulation_state.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/model/src/simulation_state.rs b/model/src/simulation_state.rs
index 07cb27b..10af58d 100644
--- a/model/src/simulation_state.rs
+++ b/model/src/simulation_state.rs
@@ -95,6 +95,13 @@ impl SimulationStateHeader {
     ///
     /// Returns the index of the new element.
     pub fn push(&mut self, e: SimulationStateElement, value: Float) -> Result<usize, String> {
+        if self.default_values.is_none() {
+            return Err(
+                "Trying to push a value to a SimulationStateHeader with no values vector"
+                    .to_string(),
+            );
+        }
+
         if e.is_personal() {
             // If individual, check if we are passed that... if not, count
             // and add
@@ -121,11 +128,6 @@ impl SimulationStateHeader {
         self.elements.push(e);
         if let Some(values) = &mut self.default_values {
             values.push(value);
-        } else {
-            return Err(
-                "Trying to push a value to a SimulationStateHeader with no values vector"
-                    .to_string(),
-            );
         }
         // return
         Ok(ret)
-- 
2.43.0


From 64faef7a94641bc8f187b72edf476feaacbd7800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:57 +0000
Subject: [PATCH 59/91] fix: the name of an output was not escaped

---
 derive/src/simulation_state_behaviour.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/derive/src/simulation_state_behaviour.rs b/derive/src/simulation_state_behaviour.rs
index 691a485..b89c0b5 100644
--- a/derive/src/simulation_state_behaviour.rs
+++ b/derive/src/simulation_state_behaviour.rs
@@ -255,13 +255,12 @@ pub fn derive_output(
         let args = op.1;
         let ops = op.2;
 
-        let aux = format!("{{{{\"{}\":\"{}\"}}}}", v_ident, args);
         if args.is_empty() {
             get_output_string = quote!(
 
                 #get_output_string
                 #enum_name::#v_ident {..} => {
-                    format!(#aux, #ops)
+                    Output::#v_ident(format!(#args, #ops))
                 },
             )
         } else {
@@ -269,7 +268,7 @@ pub fn derive_output(
 
                 #get_output_string
                 #enum_name::#v_ident(#varnames) => {
-                    format!(#aux, #ops)
+                    Output::#v_ident(format!(#args, #ops))
                 },
             )
         }
@@ -294,11 +293,11 @@ pub fn derive_output(
         impl #enum_name {
             #[doc=#get_output_string_docs]
             pub fn stringify(&self, model: &crate::Model)->String{
-                match self {
+                let output = match self {
                     #get_output_string
                     _ => todo!("Unsupported transformation between SimulationStateElement into Output --> {:?}", self)
-                }
-
+                };
+                serde_json::to_string(&output).expect("could not serialize an Output")
 
             }
         }
-- 
2.43.0


From c6a80d9970dfb35fae3c5b7c69d5faa9c1a38862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:58 +0000
Subject: [PATCH 60/91] fix: the scanner of SIMPLE files hung at their end and
 counted brackets within texts

---
 model/src/scanner.rs | 55 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 9 deletions(-)

diff --git a/model/src/scanner.rs b/model/src/scanner.rs
index 842e03d..be209ec 100644
--- a/model/src/scanner.rs
+++ b/model/src/scanner.rs
@@ -167,15 +167,53 @@ impl<'a> SimpleScanner<'a> {
         Ok((self.start_index, self.current_index))
     }
 
+    /// Consumes a text between quotes. The current `char` has to be the opening quote.
+    fn text(&mut self) -> Result<(), String> {
+        let ln = self.line;
+        let quote = self.advance();
+        while !self.finished {
+            let next = self.advance();
+            if next == quote {
+                return Ok(());
+            }
+            if next == Some('\n') {
+                self.line += 1;
+            }
+            if next == Some('\\') {
+                // Whatever comes next, it does not close the text
+                if let Some('\n') = self.advance() {
+                    self.line += 1;
+                }
+            }
+        }
+        Err(Self::make_error_msg(
+            "Unexpected End of File: text is never closed",
+            ln,
+        ))
+    }
+
     /// Consumes an object and returns the start and end of that object.
     fn object(&mut self) -> Result<(usize, usize), String> {
+        let ln = self.line;
         let mut levels = 0;
         let mut started = false;
 
         let (mut open, mut close) = ('{', '}');
 
         while levels > 0 || !started {
+            // Brackets within comments or texts do not count
+            self.skip_white_space()?;
+            if self.finished {
+                let errmsg =
+                    Self::make_error_msg("Unexpected End of File: object is never closed", ln);
+                return Err(errmsg);
+            }
+
             let next = self.peek();
+            if next == '"' || next == '\'' {
+                self.text()?;
+                continue;
+            }
             if !started && (next == ',') {
                 let errmsg = Self::make_error_msg("Malformed enum object. These should have parentheses (e.g., not 'ShelterClass::Urban' but 'ShelterClass::Urban()' )", self.line);
                 return Err(errmsg);
@@ -193,15 +231,7 @@ impl<'a> SimpleScanner<'a> {
             if next == close {
                 levels -= 1;
             }
-            if next == '\n' {
-                self.line += 1;
-            }
-            self.current_index += 1;
-
-            if self.current_index == self.source.len() {
-                self.finished = true;
-                break;
-            }
+            self.advance();
         }
 
         // return
@@ -227,6 +257,13 @@ impl<'a> SimpleScanner<'a> {
 
             // Scan identifier
             let (ini, fin) = self.identifier()?;
+            if ini == fin {
+                let errmsg = Self::make_error_msg(
+                    format!("Expecting an identifier... found '{}'", self.peek()),
+                    self.line,
+                );
+                return Err(errmsg);
+            }
             let ident = &self.source[ini..fin];
 
             // Skip whitespaces
-- 
2.43.0


From f871a371db51a2a19ffed7b94a260c8257beec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:58 +0000
Subject: [PATCH 61/91] fix: the solar options were lost when writing a SIMPLE
 file

---
 model/src/model.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model/src/model.rs b/model/src/model.rs
index 7c7d59a..3b3cf81 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -136,6 +136,10 @@ impl std::fmt::Display for Model {
             write!(f, "SiteDetails {}", s)?;
         }
 
+        if let Some(s) = self.solar_options.as_ref() {
+            write!(f, "SolarOptions {}", s)?;
+        }
+
         for b in self.substances.iter() {
             write!(f, "Substance {}", b)?;
         }
-- 
2.43.0


From 0e1d6db5c37a9d9240a25a67d0dba2cc45bc9a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:29 +0000
Subject: [PATCH 62/91] fix: a JSON model was read or refused depending on the
 order of its fields

---
 model/src/model.rs | 55 ++++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 3b3cf81..1d8c3c5 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -192,6 +192,14 @@ impl<'de> Visitor<'de> for SimpleModelVisitor {
     {
         let mut model = Model::default();
 
+        // These refer to other objects (which might come later) or have a state. So, add
+        // them at the end, and always in the same order.
+        let mut surfaces: Vec<Surface> = Vec::new();
+        let mut fenestrations: Vec<Fenestration> = Vec::new();
+        let mut hvacs: Vec<HVAC> = Vec::new();
+        let mut luminaires: Vec<Luminaire> = Vec::new();
+        let mut objects: Vec<Object> = Vec::new();
+
         while let Some(key) = map.next_key::<&[u8]>()? {
             match key {
                 b"buildings" => {
@@ -207,24 +215,13 @@ impl<'de> Visitor<'de> for SimpleModelVisitor {
                     }
                 }
                 b"fenestrations" => {
-                    let objs: Vec<Fenestration> = map.next_value()?;
-                    for o in objs.into_iter() {
-                        model
-                            .add_fenestration(o)
-                            .map_err(serde::de::Error::custom)?;
-                    }
+                    fenestrations.extend(map.next_value::<Vec<Fenestration>>()?);
                 }
                 b"hvacs" => {
-                    let objs: Vec<HVAC> = map.next_value()?;
-                    for o in objs.into_iter() {
-                        model.add_hvac(o).map_err(serde::de::Error::custom)?;
-                    }
+                    hvacs.extend(map.next_value::<Vec<HVAC>>()?);
                 }
                 b"luminaires" => {
-                    let objs: Vec<Luminaire> = map.next_value()?;
-                    for o in objs.into_iter() {
-                        model.add_luminaire(o).map_err(serde::de::Error::custom)?;
-                    }
+                    luminaires.extend(map.next_value::<Vec<Luminaire>>()?);
                 }
                 b"materials" => {
                     let objs: Vec<Material> = map.next_value()?;
@@ -236,11 +233,7 @@ impl<'de> Visitor<'de> for SimpleModelVisitor {
                     model.name = map.next_value()?;
                 }
                 b"objects" => {
-                    let objs: Vec<Object> = map.next_value()?;
-                    for o in objs.into_iter() {
-                        // model.add_object(o).map_err(serde::de::Error::custom)?;
-                        model.objects.push(o);
-                    }
+                    objects.extend(map.next_value::<Vec<Object>>()?);
                 }
                 b"outputs" => {
                     let objs: Vec<Output> = map.next_value()?;
@@ -261,11 +254,7 @@ impl<'de> Visitor<'de> for SimpleModelVisitor {
                     }
                 }
                 b"surfaces" => {
-                    let objs: Vec<Surface> = map.next_value()?;
-                    for o in objs.into_iter() {
-                        // model.add_surface(o).map_err(serde::de::Error::custom)?;
-                        model.surfaces.push(Arc::new(o));
-                    }
+                    surfaces.extend(map.next_value::<Vec<Surface>>()?);
                 }
                 b"substances" => {
                     let objs: Vec<Substance> = map.next_value()?;
@@ -281,6 +270,24 @@ impl<'de> Visitor<'de> for SimpleModelVisitor {
             }
         }
 
+        for o in surfaces.into_iter() {
+            model.add_surface(o).map_err(serde::de::Error::custom)?;
+        }
+        for o in fenestrations.into_iter() {
+            model
+                .add_fenestration(o)
+                .map_err(serde::de::Error::custom)?;
+        }
+        for o in hvacs.into_iter() {
+            model.add_hvac(o).map_err(serde::de::Error::custom)?;
+        }
+        for o in luminaires.into_iter() {
+            model.add_luminaire(o).map_err(serde::de::Error::custom)?;
+        }
+        for o in objects.into_iter() {
+            model.add_object(o).map_err(serde::de::Error::custom)?;
+        }
+
         Ok(model)
     }
 }
-- 
2.43.0


From a2e3c6b3f60ac1cb87f83d78a47a1c106437a3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:50 +0000
Subject: [PATCH 63/91] fix: a malformed list of vertices panicked instead of
 being refused

---
 geometry/src/loop3d.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/geometry/src/loop3d.rs b/geometry/src/loop3d.rs
index 9d35b8a..e8f900b 100644
--- a/geometry/src/loop3d.rs
+++ b/geometry/src/loop3d.rs
@@ -152,7 +152,11 @@ impl<'de> Deserialize<'de> for Loop3D {
                             .ok_or("Could not get X... it does not seem to be a number")
                             .map_err(serde::de::Error::custom)? as Float
                     }
-                    _ => panic!("Expecting Polygon3D to be an array of numbers"),
+                    _ => {
+                        return Err(serde::de::Error::custom(
+                            "Expecting Polygon3D to be an array of numbers, three per vertex",
+                        ))
+                    }
                 };
                 let y = it.next();
                 let y = match y {
@@ -161,7 +165,11 @@ impl<'de> Deserialize<'de> for Loop3D {
                             .ok_or("Could not get Y... it does not seem to be a number")
                             .map_err(serde::de::Error::custom)? as Float
                     }
-                    _ => panic!("Expecting Polygon3D to be an array of numbers"),
+                    _ => {
+                        return Err(serde::de::Error::custom(
+                            "Expecting Polygon3D to be an array of numbers, three per vertex",
+                        ))
+                    }
                 };
                 let z = it.next();
                 let z = match z {
@@ -170,7 +178,11 @@ impl<'de> Deserialize<'de> for Loop3D {
                             .ok_or("Could not get Z... it does not seem to be a number")
                             .map_err(serde::de::Error::custom)? as Float
                     }
-                    _ => panic!("Expecting Polygon3D to be an array of numbers"),
+                    _ => {
+                        return Err(serde::de::Error::custom(
+                            "Expecting Polygon3D to be an array of numbers, three per vertex",
+                        ))
+                    }
                 };
                 // We push "as is"
                 ret.push_collinear(Point3D { x, y, z }, false)
-- 
2.43.0


From 7482b7d1aeb311c963b751e5bd77246c7012d6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:48 +0000
Subject: [PATCH 64/91] fix: a hole that touches the border of its polygon
 could not be bridged, panicking

---
 geometry/src/polygon3d.rs | 140 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 140 insertions(+)

diff --git a/geometry/src/polygon3d.rs b/geometry/src/polygon3d.rs
index c773012..90339a6 100644
--- a/geometry/src/polygon3d.rs
+++ b/geometry/src/polygon3d.rs
@@ -302,6 +302,15 @@ impl Polygon3D {
 
         // This is done once per inner loop
         for _i in 0..n_inner_loops {
+            // A hole that touches the border does not need to be bridged
+            if let Some((touching_loop, k)) =
+                self.merge_touching_loop(&ret_loop, &processed_inner_loops)
+            {
+                ret_loop = touching_loop;
+                processed_inner_loops.push(k);
+                continue;
+            }
+
             // find the minimum distance
             // from interior to exterior
             let mut min_distance = Float::MAX;
@@ -400,6 +409,137 @@ impl Polygon3D {
         ret_loop
     } // end of get_closed_polygon
 
+    /// Splits the sides of a loop in the points of `others` that are on them, so that
+    /// two loops that touch each other do so through their vertices
+    fn split_sides(vertices: &[Point3D], others: &[Point3D]) -> Vec<Point3D> {
+        let n = vertices.len();
+        let mut ret = Vec::with_capacity(n);
+        for (i, a) in vertices.iter().enumerate() {
+            let b = vertices[(i + 1) % n];
+            let side = b - *a;
+            ret.push(*a);
+
+            let mut in_side: Vec<(Float, Point3D)> = Vec::new();
+            for p in others.iter() {
+                let t = ((*p - *a) * side) / side.length_squared();
+                if (0.0..1.0).contains(&t)
+                    && p.compare(*a + side * t)
+                    && !p.compare(*a)
+                    && !p.compare(b)
+                    && !in_side.iter().any(|(_, other)| p.compare(*other))
+                {
+                    in_side.push((t, *p));
+                }
+            }
+            in_side.sort_by(|a, b| a.0.total_cmp(&b.0));
+            ret.extend(in_side.into_iter().map(|(_, p)| p));
+        }
+        ret
+    }
+
+    /// Looks for a hole that touches `ret_loop` and, if there is one, returns the
+    /// loop that goes around it together with the index of such a hole.
+    fn merge_touching_loop(
+        &self,
+        ret_loop: &Loop3D,
+        processed_inner_loops: &[usize],
+    ) -> Option<(Loop3D, usize)> {
+        let normal = self.outer.normal();
+
+        for (k, inner_loop) in self.inner.iter().enumerate() {
+            if processed_inner_loops.contains(&k) {
+                continue;
+            }
+            // Go through the hole in the opposite direction
+            let mut hole = inner_loop.vertices().to_vec();
+            if normal.is_same_direction(inner_loop.normal()) {
+                hole.reverse();
+            }
+            let border = Self::split_sides(ret_loop.vertices(), &hole);
+            let mut hole = Self::split_sides(&hole, &border);
+            for p in hole.iter_mut() {
+                if let Some(other) = border.iter().find(|other| other.compare(*p)) {
+                    *p = *other;
+                }
+            }
+
+            let (n, n_hole) = (border.len(), hole.len());
+            for (i, p) in border.iter().enumerate() {
+                for l in 0..n_hole {
+                    let fits = p.compare(hole[l])
+                        && Self::fits_in_corner(
+                            normal,
+                            border[(i + n - 1) % n] - *p,
+                            border[(i + 1) % n] - *p,
+                            hole[(l + 1) % n_hole] - *p,
+                            hole[(l + n_hole - 1) % n_hole] - *p,
+                        );
+                    if !fits {
+                        continue;
+                    }
+
+                    // Walk the border, go around the hole, and back to the border
+                    let mut vertices = border[..=i].to_vec();
+                    vertices.extend((1..=n_hole).map(|j| hole[(l + j) % n_hole]));
+                    vertices.extend_from_slice(&border[i + 1..]);
+
+                    // Do not walk back and forth through the sides they share.
+                    let mut i = 0;
+                    while i < vertices.len() && vertices.len() > 4 {
+                        let n = vertices.len();
+                        let (prev, next) = ((i + n - 1) % n, (i + 1) % n);
+                        if vertices[prev].compare(vertices[next]) {
+                            vertices.remove(i.max(next));
+                            vertices.remove(i.min(next));
+                            i = 0;
+                        } else {
+                            i += 1;
+                        }
+                    }
+
+                    let mut ret = Loop3D::new();
+                    for p in vertices {
+                        ret.push_collinear(p, false).ok()?;
+                    }
+                    return Some((ret, k));
+                }
+            }
+        }
+        None
+    }
+
+    /// Checks whether a hole that leaves a corner through `first` and comes back to it
+    /// through `last` is between the sides of such a corner, `prev` and `next`
+    fn fits_in_corner(
+        normal: Vector3D,
+        prev: Vector3D,
+        next: Vector3D,
+        first: Vector3D,
+        last: Vector3D,
+    ) -> bool {
+        const TINY: Float = 1e-3;
+        let full_turn = 2. * crate::PI;
+        let sideways = normal.cross(next);
+        let angle = |v: Vector3D| -> Float {
+            let a = (v * sideways).atan2(v * next);
+            if a < 0.0 {
+                a + full_turn
+            } else {
+                a
+            }
+        };
+        let mut last = angle(last);
+        if last > full_turn - TINY {
+            last = 0.0;
+        }
+        let mut prev = angle(prev);
+        if prev < TINY {
+            prev = full_turn;
+        }
+        let first = angle(first);
+        last < first && first < prev + TINY
+    }
+
     /// Checks whether the vertex `ext_vertex_id` of `ret_loop` can be connected to
     /// `inner_vertex` through a straight line that leaves `ret_loop` inwards and that
     /// does not go through the sides or vertices of `ret_loop` nor those of the holes
-- 
2.43.0


From c7c9a1ffbb02b71a103905870d219a87a481115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:59 +0000
Subject: [PATCH 65/91] fix: cut_hole accepted holes that go outside through
 the border of the polygon

---
 geometry/src/polygon3d.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/geometry/src/polygon3d.rs b/geometry/src/polygon3d.rs
index 90339a6..1123667 100644
--- a/geometry/src/polygon3d.rs
+++ b/geometry/src/polygon3d.rs
@@ -225,6 +225,18 @@ impl Polygon3D {
             }
         }
 
+        // Its vertices might all be in the border and yet the sides of
+        // the hole go through the outside
+        let pieces = Self::split_sides(hole.vertices(), self.outer.vertices());
+        for (i, a) in pieces.iter().enumerate() {
+            let b = pieces[(i + 1) % pieces.len()];
+            if !self.outer.test_point(*a + (b - *a) * 0.5)? {
+                let msg = "At least one of the sides of your hole goes through the outside of the polygon"
+                    .to_string();
+                return Err(msg);
+            }
+        }
+
         // Check that this hole does not contain another hole in it.
         let n_inner = self.inner.len();
         for n_loop in 0..n_inner {
-- 
2.43.0


From 6beb031b6ce3b1ed761925126726fedf6ba505d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:35 +0000
Subject: [PATCH 66/91] fix: polygons with holes that touch their border could
 not be triangulated

---
 geometry/src/loop3d.rs          | 10 ++++++++--
 geometry/src/triangulation3d.rs | 22 ++++++++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/geometry/src/loop3d.rs b/geometry/src/loop3d.rs
index e8f900b..c0c60a4 100644
--- a/geometry/src/loop3d.rs
+++ b/geometry/src/loop3d.rs
@@ -619,13 +619,19 @@ impl Loop3D {
             return Err("Loops need at least 3 vertices".to_string());
         }
 
+        // A vertex that the loop visits twice joins two parts of it (e.g., where a hole
+        // touches the border of a polygon), so it needs to stay.
+        let is_visited_twice = |vertices: &[Point3D], p: Point3D| -> bool {
+            vertices.iter().filter(|v| v.compare(p)).count() > 1
+        };
+
         // Check the last vertex for collinearity
         let n = self.vertices.len();
         let a = self.vertices[n - 2];
         let b = self.vertices[n - 1];
         let c = self.vertices[0];
 
-        if a.is_collinear(b, c)? {
+        if a.is_collinear(b, c)? && (b.compare(c) || !is_visited_twice(&self.vertices, b)) {
             // collinear. Remove the last vertex
             self.vertices.pop();
         }
@@ -639,7 +645,7 @@ impl Loop3D {
         let b = self.vertices[0];
         let c = self.vertices[1];
 
-        if a.is_collinear(b, c)? {
+        if a.is_collinear(b, c)? && (a.compare(b) || !is_visited_twice(&self.vertices, b)) {
             // collinear. Remove the last vertex
             self.vertices.remove(0);
         }
diff --git a/geometry/src/triangulation3d.rs b/geometry/src/triangulation3d.rs
index dcc4fb6..361fba1 100644
--- a/geometry/src/triangulation3d.rs
+++ b/geometry/src/triangulation3d.rs
@@ -224,7 +224,7 @@ impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
             let last_added = t.n_triangles();
 
             let n = the_loop.len();
-            if n == 2 {
+            if n <= 2 {
                 // return
                 t.mark_neighbourhouds()?;
                 return Ok(t);
@@ -234,9 +234,24 @@ impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
             let v1 = the_loop[(anchor + 1) % n];
             let v2 = the_loop[(anchor + 2) % n];
 
+            if v0.compare(v2) {
+                // It goes to v1 and comes back: there is nothing left between them.
+                let (i, j) = ((anchor + 1) % n, (anchor + 2) % n);
+                the_loop.remove(i.max(j));
+                the_loop.remove(i.min(j));
+                count = 0;
+                continue;
+            }
+
             let potential_diag = Segment3D::new(v0, v2);
             let is_line = v0.is_collinear(v1, v2)?;
 
+            if n == 3 && is_line {
+                // Nothing left but the way between two pieces
+                t.mark_neighbourhouds()?;
+                return Ok(t);
+            }
+
             // this will be false if potential_diag is very small.
             let is_diagonal = the_loop.is_diagonal(potential_diag)?;
 
@@ -250,7 +265,10 @@ impl std::convert::TryFrom<&Polygon3D> for Triangulation3D {
                     && left_of(v1, v2, *p)
                     && left_of(v2, v0, *p)
             });
-            if (n == 3) || (!is_line && is_convex && is_empty && is_diagonal) {
+            // Where a hole touches the border twice, the loop goes twice through the same
+            // point and an ear might be all there is between those two visits.
+            let is_whole = n > 3 && the_loop[(anchor + 3) % n].compare(v0);
+            if (n == 3) || (!is_line && is_convex && is_empty && (is_diagonal || is_whole)) {
                 // Add triangle
                 t.push(v0, v1, v2, last_added)?;
 
-- 
2.43.0


From 4ed07c9a418018fe756defc6dd58e3400a736e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:35 +0000
Subject: [PATCH 67/91] fix: objects refused by a model left their state (or a
 hole in a wall) behind

---
 model/src/model.rs | 114 +++++++++++++++++++++++++++++----------------
 1 file changed, 73 insertions(+), 41 deletions(-)

diff --git a/model/src/model.rs b/model/src/model.rs
index 1d8c3c5..a725d7f 100644
--- a/model/src/model.rs
+++ b/model/src/model.rs
@@ -368,6 +368,27 @@ impl Model {
         }
     }
 
+    /// Checks that an object can be given a (new) place in the state of this model
+    fn check_can_push_state(
+        &self,
+        current_index: Option<usize>,
+        name: &String,
+    ) -> Result<(), String> {
+        if current_index.is_some() {
+            return Err(format!(
+                "Cannot add '{}' to the model, because it is already part of one",
+                name
+            ));
+        }
+        if self.simulation_state.is_none() {
+            return Err(format!(
+                "Cannot add '{}' to this model because it no longer has a state",
+                name
+            ));
+        }
+        Ok(())
+    }
+
     /// Takes the [`SimulationStateHeader`] from the model.
     ///
     /// This state will very likely be incomplete, as it will only contain the
@@ -1031,61 +1052,62 @@ impl Model {
             ));
         }
 
-        // Check the index of this object
-        let fen_index = self.fenestrations.len();
+        // Everything that might fail is done before modifying the model.
+        self.check_can_push_state(add.open_fraction_index(), add.name())?;
+
+        // check the parent surface, and whether it is possible to cut a hole on it
+        let mut cut_parent = None;
+        if let Ok(parent_name) = add.parent_surface() {
+            let parent_index = match self.surfaces.iter().position(|s| s.name() == parent_name) {
+                Some(i) => i,
+                None => {
+                    return Err(format!(
+                        "Fenestration '{}' has been given parent '{}', which does not exist",
+                        add.name(),
+                        parent_name
+                    ));
+                }
+            };
+            let parent = match Arc::get_mut(&mut self.surfaces[parent_index]) {
+                Some(s) => s,
+                None => {
+                    return Err(format!(
+                        "Could not borrow parent surface '{}' when adding surface '{}'",
+                        parent_name,
+                        add.name()
+                    ));
+                }
+            };
+            // Cut a hole on the wall
+            let mut vertices = parent.vertices.clone();
+            vertices.cut_hole(add.vertices.clone_outer())?;
+            cut_parent = Some((parent_index, vertices));
+        }
 
         // Push the OpenFraction state, and map into the object
+        let fen_index = self.fenestrations.len();
         let state_index = self.push_to_state(
             SimulationStateElement::FenestrationOpenFraction(fen_index),
             0.,
         )?;
         add.set_open_fraction_index(state_index)?;
 
-        // check the parent surface
-        let mut parent: Option<Arc<Surface>> = None;
-        if let Ok(parent_name) = add.parent_surface() {
-            for s in self.surfaces.iter_mut() {
-                if s.name() == parent_name {
-                    {
-                        // scope so we can drop
-                        let s = match std::sync::Arc::get_mut(s) {
-                            Some(s) => s,
-                            None => {
-                                return Err(format!(
-                                    "Could not borrow parent surface '{}' when adding surface '{}'",
-                                    parent_name,
-                                    add.name()
-                                ));
-                            }
-                        };
-                        // Cut a hole on the wall
-                        let out = add.vertices.clone_outer();
-                        s.vertices.cut_hole(out)?;
-                    }
-                    parent = Some(s.clone());
-                    break;
-                }
-            }
-            if parent.is_none() {
-                return Err(format!(
-                    "Fenestration '{}' has been given parent '{}', which does not exist",
-                    add.name(),
-                    add.parent_surface()?
-                ));
-            }
-        }
-        if let Some(s) = parent {
+        if let Some((parent_index, vertices)) = cut_parent {
+            let parent = Arc::get_mut(&mut self.surfaces[parent_index])
+                .ok_or("Could not borrow parent surface")?;
+            parent.vertices = vertices;
+
             // inherit boundaries
-            let wall_normal = s.vertices.normal();
+            let wall_normal = parent.vertices.normal();
             let window_normal = add.vertices.normal();
             if wall_normal.is_same_direction(window_normal) {
                 // front with front, back with back
-                add.front_boundary = s.front_boundary.clone();
-                add.back_boundary = s.back_boundary.clone();
+                add.front_boundary = parent.front_boundary.clone();
+                add.back_boundary = parent.back_boundary.clone();
             } else {
                 // otherwise, they are diverted
-                add.front_boundary = s.back_boundary.clone();
-                add.back_boundary = s.front_boundary.clone();
+                add.front_boundary = parent.back_boundary.clone();
+                add.back_boundary = parent.front_boundary.clone();
             }
         }
 
@@ -1160,6 +1182,13 @@ impl Model {
             print_warning_no_module(format!("There is already an HVAC called '{}'", add.name()))
         }
 
+        // Check that this object can be added before modifying the model
+        let current_index = match &add {
+            HVAC::ElectricHeater(hvac) => hvac.heating_cooling_consumption_index(),
+            HVAC::IdealHeaterCooler(hvac) => hvac.heating_cooling_consumption_index(),
+        };
+        self.check_can_push_state(current_index, add.name())?;
+
         // Check the index of this object
         let obj_index = self.hvacs.len();
         match &add {
@@ -1242,6 +1271,9 @@ impl Model {
                 add.name()
             ))
         }
+        // Check that this object can be added before modifying the model
+        self.check_can_push_state(add.power_consumption_index(), add.name())?;
+
         let obj_index = self.luminaires.len();
         // Push the state, and map into the object
         let state_index = self.push_to_state(
-- 
2.43.0


From 59069bdd71839e84ea8ab6af377487dfadfc7adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 68/91] fix: view factors ignored where the sampled rays go,
 and whatever blocks them

---
 light/src/solar_surface.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/light/src/solar_surface.rs b/light/src/solar_surface.rs
index 2a400e7..a5eba28 100644
--- a/light/src/solar_surface.rs
+++ b/light/src/solar_surface.rs
@@ -30,6 +30,7 @@ use model::{Boundary, Fenestration, SimulationStateElement, SimulationStateHeade
 use geometry::{Point3D, Polygon3D, Ray3D, Triangulation3D, Vector3D};
 use rendering::primitive_samplers::sample_triangle_surface;
 use rendering::rand::*;
+use rendering::samplers::{local_to_world, sample_cosine_weighted_horizontal_hemisphere};
 use utils::ProgressBar;
 
 use crate::optical_info::IRViewFactorSet;
@@ -307,6 +308,7 @@ impl SolarSurface {
 
         let mut ground = 0.0;
         let mut sky = 0.0;
+        let mut others = 0.0; // other objects, assumed to be at air temperature
 
         let n_samples = 10000;
         let mut node_aux = [0; 32];
@@ -316,15 +318,22 @@ impl SolarSurface {
             let e2 = normal.cross(e1);
 
             for _ in 0..n_samples {
+                // View factors weigh each direction by the cosine of its angle with the normal
                 let u = rng.gen();
-                let dir = rendering::samplers::uniform_sample_tilted_hemisphere(u, e1, e2, normal);
-
-                if scene.cast_ray(*ray, &mut node_aux).is_none() {
-                    if dir.z > 0.0 {
-                        sky += 1.0;
-                    } else {
-                        ground += 1.;
-                    }
+                let dir = sample_cosine_weighted_horizontal_hemisphere(u);
+                let (x, y, z) =
+                    local_to_world(e1, e2, normal, Point3D::new(0., 0., 0.), dir.x, dir.y, dir.z);
+                let view_ray = Ray3D {
+                    origin: ray.origin,
+                    direction: Vector3D::new(x, y, z),
+                };
+
+                if scene.cast_ray(view_ray, &mut node_aux).is_some() {
+                    others += 1.;
+                } else if view_ray.direction.z > 0.0 {
+                    sky += 1.0;
+                } else {
+                    ground += 1.;
                 }
             }
         }
@@ -332,9 +341,10 @@ impl SolarSurface {
         let n = n_samples as Float * rays.len() as Float;
         ground /= n;
         sky /= n;
+        others /= n;
 
         let beta = sky.sqrt();
-        let air = sky * (1. - beta);
+        let air = sky * (1. - beta) + others;
         sky *= beta;
 
         Ok(IRViewFactorSet { sky, ground, air })
-- 
2.43.0


From 79eb78a05e300fe06bd5bd8075473225cfa1a847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 69/91] fix: derived sky radiation took the fraction of sky
 cover for tenths

---
 light/src/solar_model.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/light/src/solar_model.rs b/light/src/solar_model.rs
index 90d8727..40c60eb 100644
--- a/light/src/solar_model.rs
+++ b/light/src/solar_model.rs
@@ -76,7 +76,12 @@ impl SolarModel {
         let db = weather_data.dry_bulb_temperature;
         let horizontal_ir = match weather_data.horizontal_infrared_radiation_intensity {
             Some(v) => v,
-            None => weather_data.derive_horizontal_ir(),
+            None => {
+                // The correlation takes the sky cover in tenths
+                let mut data = *weather_data;
+                data.opaque_sky_cover *= 10.;
+                data.derive_horizontal_ir()
+            }
         };
 
         // surfaces are never skipped
-- 
2.43.0


From 2c038b337a537e057819c859420ddcc2c42d9de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 70/91] fix: models with windows but no walls panicked under
 subdivided skies

---
 light/src/solar_model.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/light/src/solar_model.rs b/light/src/solar_model.rs
index 40c60eb..e211fa4 100644
--- a/light/src/solar_model.rs
+++ b/light/src/solar_model.rs
@@ -407,6 +407,8 @@ impl SimulationModel for SolarModel {
 
         if model.surfaces.is_empty() {
             print_warning(MODULE_NAME, "Model has no surfaces");
+        }
+        if model.surfaces.is_empty() && model.fenestrations.is_empty() {
             return Ok(Self {
                 optical_info,
                 solar,
@@ -415,7 +417,11 @@ impl SimulationModel for SolarModel {
         }
 
         // derive MF
-        let (.., ncols) = optical_info.back_surfaces_dc.size();
+        let (.., ncols) = if model.surfaces.is_empty() {
+            optical_info.back_fenestrations_dc.size()
+        } else {
+            optical_info.back_surfaces_dc.size()
+        };
         if ncols == 0 {
             return Err(
                 "optical data is corrupt: daylight coefficient matrix has zero columns."
-- 
2.43.0


From ed7e83c95a6a714331912e98734e50d7de0acec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:19 +0000
Subject: [PATCH 71/91] fix: optical data read from a file was neither checked
 nor given its place in the state

---
 light/src/optical_info.rs | 25 +++++++++++++++++++++++++
 light/src/solar_model.rs  | 11 +++++++++++
 2 files changed, 36 insertions(+)

diff --git a/light/src/optical_info.rs b/light/src/optical_info.rs
index f29c47b..61a2adf 100644
--- a/light/src/optical_info.rs
+++ b/light/src/optical_info.rs
@@ -72,6 +72,31 @@ pub struct OpticalInfo {
 }
 
 impl OpticalInfo {
+    /// Checks whether there is information for each of the surfaces
+    /// and fenestrations in the model, and all of it is about the same sky
+    pub(crate) fn matches(&self, model: &Model) -> bool {
+        let (n_surfaces, n_fenestrations) = (model.surfaces.len(), model.fenestrations.len());
+        let view_factors = [
+            (&self.front_surfaces_view_factors, n_surfaces),
+            (&self.back_surfaces_view_factors, n_surfaces),
+            (&self.front_fenestrations_view_factors, n_fenestrations),
+            (&self.back_fenestrations_view_factors, n_fenestrations),
+        ];
+        let dcs = [
+            (&self.front_surfaces_dc, n_surfaces),
+            (&self.back_surfaces_dc, n_surfaces),
+            (&self.front_fenestrations_dc, n_fenestrations),
+            (&self.back_fenestrations_dc, n_fenestrations),
+        ];
+        let n_bins = dcs.iter().map(|(m, _)| m.size().1).max();
+
+        view_factors.iter().all(|(v, n)| v.len() == *n)
+            && dcs.iter().all(|(m, n)| {
+                let (nrows, ncols) = m.size();
+                nrows == *n && (nrows == 0 || Some(ncols) == n_bins)
+            })
+    }
+
     /// Calculates the new OpticalInformation.
     ///
     /// This will trigger ray-tracing processes, so it might be slow.
diff --git a/light/src/solar_model.rs b/light/src/solar_model.rs
index e211fa4..e35d69e 100644
--- a/light/src/solar_model.rs
+++ b/light/src/solar_model.rs
@@ -377,6 +377,17 @@ impl SimulationModel for SolarModel {
                     }
                 };
 
+                // It has to be about this model
+                if !info.matches(model) {
+                    return Err(format!(
+                        "The optical_info in file '{}' does not correspond to this model... Delete it in order to calculate it again",
+                        path_str
+                    ));
+                }
+                // These elements are otherwise added when calculating
+                SolarSurface::make_surfaces(&model.surfaces, state, 0)?;
+                SolarSurface::make_fenestrations(&model.fenestrations, state, 0)?;
+
                 info
             } else {
                 // write into file
-- 
2.43.0


From 8641e91e117819c9ce66f3c57d76ef5859345fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:10 +0000
Subject: [PATCH 72/91] fix: columns were glued, or one too many, when some
 outputs did not exist

---
 src/run_simulation.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/run_simulation.rs b/src/run_simulation.rs
index 964bc68..b48f610 100644
--- a/src/run_simulation.rs
+++ b/src/run_simulation.rs
@@ -195,11 +195,8 @@ where
         .take_values()
         .ok_or("Could not take values from SimulationStateHeader")?;
 
-    let report_len = if model.borrow().outputs.is_empty() {
-        state_header.elements.len()
-    } else {
-        model.borrow().outputs.len()
-    };
+    // Not all the outputs requested by the model necessarily exist
+    let report_len = pre_process_data.report_indexes.len();
 
     let mut memory = pre_process_data.model.allocate_memory(&state)?;
 
@@ -293,11 +290,8 @@ where
     let (controller, state) =
         RhaiControlScript::from_file(&model, state, control_file, options.research_mode)?;
 
-    let report_len = if model.outputs.is_empty() {
-        state_header.elements.len()
-    } else {
-        model.outputs.len()
-    };
+    // Not all the outputs requested by the model necessarily exist
+    let report_len = pre_process_data.report_indexes.len();
 
     // Write header
     let _u = out
-- 
2.43.0


From f2ff95506173d771c42ed7f007618bdd3e037946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:10 +0000
Subject: [PATCH 73/91] fix: results were lost when they were only partly
 written, and failures to write panicked

---
 src/run_simulation.rs | 70 +++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 42 deletions(-)

diff --git a/src/run_simulation.rs b/src/run_simulation.rs
index b48f610..6eaf93b 100644
--- a/src/run_simulation.rs
+++ b/src/run_simulation.rs
@@ -201,25 +201,21 @@ where
     let mut memory = pre_process_data.model.allocate_memory(&state)?;
 
     // Write header
-    let _u = out
-        .write(b"Date,")
-        .expect("Could not write to output file (header => 'Date').");
+    out.write_all(b"Date,")
+        .map_err(|e| format!("Could not write to output file (header => 'Date'): {e}"))?;
     for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
         let s: &String = &pre_process_data.full_header[*i];
         if index < report_len - 1 {
             let s = format!("{s},");
-            let _u = out
-                .write(s.as_bytes())
-                .expect("Could not write to output file (header).");
+            out.write_all(s.as_bytes())
+                .map_err(|e| format!("Could not write to output file (header): {e}"))?;
         } else {
-            let _u = out
-                .write(s.as_bytes())
-                .expect("Could not write to output file (header).");
+            out.write_all(s.as_bytes())
+                .map_err(|e| format!("Could not write to output file (header): {e}"))?;
         }
     }
-    let _u = out
-        .write(b"\n")
-        .expect("Could not write to output file (header newline).");
+    out.write_all(b"\n")
+        .map_err(|e| format!("Could not write to output file (header newline): {e}"))?;
 
     /* ************************************ */
     /* SIMULATE THE WHOLE SIMULATION PERIOD */
@@ -244,9 +240,8 @@ where
 
         // Print all the values in the state
         let ds = format!("{},", date);
-        let _u = out
-            .write(ds.as_bytes())
-            .unwrap_or_else(|_| panic!("Could not write to output file (Date '{}')", date));
+        out.write_all(ds.as_bytes())
+            .map_err(|e| format!("Could not write to output file (Date '{date}'): {e}"))?;
 
         for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
             let st = if index < report_len - 1 {
@@ -254,13 +249,11 @@ where
             } else {
                 format!("{:.3}", state[*i])
             };
-            let _u = out
-                .write(st.as_bytes())
-                .expect("Could not write to output file (data)");
+            out.write_all(st.as_bytes())
+                .map_err(|e| format!("Could not write to output file (data): {e}"))?;
         }
-        let _u = out
-            .write(b"\n")
-            .expect("Could not write to output file (newline)");
+        out.write_all(b"\n")
+            .map_err(|e| format!("Could not write to output file (newline): {e}"))?;
     }
 
     Ok(())
@@ -294,25 +287,21 @@ where
     let report_len = pre_process_data.report_indexes.len();
 
     // Write header
-    let _u = out
-        .write(b"Date,")
-        .expect("Could not write to output file (header => 'Date').");
+    out.write_all(b"Date,")
+        .map_err(|e| format!("Could not write to output file (header => 'Date'): {e}"))?;
     for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
         let s: &String = &pre_process_data.full_header[*i];
         if index < report_len - 1 {
             let s = format!("{s},");
-            let _u = out
-                .write(s.as_bytes())
-                .expect("Could not write to output file (header).");
+            out.write_all(s.as_bytes())
+                .map_err(|e| format!("Could not write to output file (header): {e}"))?;
         } else {
-            let _u = out
-                .write(s.as_bytes())
-                .expect("Could not write to output file (header).");
+            out.write_all(s.as_bytes())
+                .map_err(|e| format!("Could not write to output file (header): {e}"))?;
         }
     }
-    let _u = out
-        .write(b"\n")
-        .expect("Could not write to output file (header newline).");
+    out.write_all(b"\n")
+        .map_err(|e| format!("Could not write to output file (header newline): {e}"))?;
 
     /* ************************************ */
     /* SIMULATE THE WHOLE SIMULATION PERIOD */
@@ -341,9 +330,8 @@ where
 
         // Print all the values in the state
         let ds = format!("{},", date);
-        let _u = out
-            .write(ds.as_bytes())
-            .unwrap_or_else(|_| panic!("Could not write to output file (Date '{}')", date));
+        out.write_all(ds.as_bytes())
+            .map_err(|e| format!("Could not write to output file (Date '{date}'): {e}"))?;
 
         for (index, i) in pre_process_data.report_indexes.iter().enumerate() {
             let st = if index < report_len - 1 {
@@ -351,14 +339,12 @@ where
             } else {
                 format!("{:.3}", state_lock[*i])
             };
-            let _u = out
-                .write(st.as_bytes())
-                .expect("Could not write to output file (data)");
+            out.write_all(st.as_bytes())
+                .map_err(|e| format!("Could not write to output file (data): {e}"))?;
         }
         std::mem::drop(state_lock); // drop mutex
-        let _u = out
-            .write(b"\n")
-            .expect("Could not write to output file (newline)");
+        out.write_all(b"\n")
+            .map_err(|e| format!("Could not write to output file (newline): {e}"))?;
     }
 
     Ok(())
-- 
2.43.0


From 4bf21a81b5fd1f00ca45c85acc5bbba3b144ecb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:23 +0000
Subject: [PATCH 74/91] fix: scripts that ask for an object by its number
 panicked when there are none

---
 derive/src/object_enum.rs   | 2 +-
 derive/src/object_struct.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/object_enum.rs b/derive/src/object_enum.rs
index 966e0d4..c4039a7 100644
--- a/derive/src/object_enum.rs
+++ b/derive/src/object_enum.rs
@@ -366,7 +366,7 @@ impl EnumObject {
                             return Err(format!(#negative_index_err, index).into())
                         }
                         if index >= len as i64 {
-                            return Err(format!(#out_of_bounds_err, index, len - 1).into());
+                            return Err(format!(#out_of_bounds_err, index, len as i64 - 1).into());
                         }
                         match &new_mod.#location[index as usize]{
                             #index_match_statement
diff --git a/derive/src/object_struct.rs b/derive/src/object_struct.rs
index a1b3617..3630a34 100644
--- a/derive/src/object_struct.rs
+++ b/derive/src/object_struct.rs
@@ -630,7 +630,7 @@ impl StructObject {
                     return Err(format!(#negative_index_err, index).into())
                 }
                 if index >= len as i64 {
-                    return Err(format!(#out_of_bounds_err, index, len - 1).into());
+                    return Err(format!(#out_of_bounds_err, index, len as i64 - 1).into());
                 }
                 Ok(std::sync::Arc::clone(&new_mod.#location[index as usize]))
             });
-- 
2.43.0


From dacf4aab9534da88ec882ef97448f36c48018b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:23 +0000
Subject: [PATCH 75/91] fix: simulating with a weather file without data
 panicked

---
 src/run_simulation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/run_simulation.rs b/src/run_simulation.rs
index 6eaf93b..2634929 100644
--- a/src/run_simulation.rs
+++ b/src/run_simulation.rs
@@ -123,6 +123,9 @@ fn pre_process(
         }
     };
 
+    if weather.data.is_empty() {
+        return Err("The weather file has no data".to_string());
+    }
     let start = weather.data[0].date;
     let mut end = weather.data[weather.data.len() - 1].date;
     end.hour -= 0.1;
-- 
2.43.0


From 765cfb93a0a5b6d22ef5581067d1f3158feb8644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 76/91] fix: glossy surfaces reflected up to four times the
 light of a lamp

Equation 17 of the model cited is in terms of the half vector before
normalising it, and there is no division by the cosine.
---
 rendering/src/material/ward.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rendering/src/material/ward.rs b/rendering/src/material/ward.rs
index 0619f9b..c263db1 100644
--- a/rendering/src/material/ward.rs
+++ b/rendering/src/material/ward.rs
@@ -173,7 +173,8 @@ pub fn evaluate_ward_anisotropic(
         alpha = alpha.max(LOW_ROUGHNESS);
         beta = beta.max(LOW_ROUGHNESS);
 
-        let h = (wo + wi).get_normalized();
+        // Eq. 17 is in terms of this vector, which is not normalized
+        let h = wo + wi;
         let h_n = h.z;
         // Eq. 17
         let c1 = specularity * (h * h) / (PI * alpha * beta * h_n.powi(4));
@@ -184,7 +185,7 @@ pub fn evaluate_ward_anisotropic(
     };
 
     let diff = (1. - specularity) / PI;
-    (spec / wo.z.abs(), diff)
+    (spec, diff)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 8a36d0b240e1bf5a655f9930d3da9cbe5f58b2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:52 +0000
Subject: [PATCH 77/91] fix: glossy reflections were scattered in one plane
 only

---
 rendering/src/material/ward.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rendering/src/material/ward.rs b/rendering/src/material/ward.rs
index c263db1..2d95e2c 100644
--- a/rendering/src/material/ward.rs
+++ b/rendering/src/material/ward.rs
@@ -74,8 +74,7 @@ pub fn sample_ward_anisotropic(
 
             let h = Vector3D::new(cosp * d, sinp * d, 1.0);
             d = (h * wo) * 2. / (1. + d.powi(2));
-            let mut v = -wo;
-            v.z += d;
+            let mut v = h * d - wo;
             v.normalize();
             debug_assert!((1. - v.length()).abs() < 1e-5, "len of v = {}", v.length());
 
-- 
2.43.0


From 282b6e5350edd3cfbf3430e520422fc1f776958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:44 +0000
Subject: [PATCH 78/91] fix: loops and polygons kept their old area after being
 projected or snapped

---
 geometry/src/loop3d.rs    |  7 +++++++
 geometry/src/polygon3d.rs | 13 +++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/geometry/src/loop3d.rs b/geometry/src/loop3d.rs
index c0c60a4..0c62859 100644
--- a/geometry/src/loop3d.rs
+++ b/geometry/src/loop3d.rs
@@ -958,6 +958,8 @@ impl Loop3D {
         } else {
             self.normal = -normal;
         }
+        self.set_area()?;
+        self.set_perimeter()?;
         Ok(())
     }
 
@@ -1024,6 +1026,11 @@ impl Loop3D {
         if count == 0 {
             None
         } else {
+            if self.closed {
+                // This cannot fail, as the loop was closed.
+                let _ = self.set_area();
+                let _ = self.set_perimeter();
+            }
             Some(count)
         }
     }
diff --git a/geometry/src/polygon3d.rs b/geometry/src/polygon3d.rs
index 1123667..cef826b 100644
--- a/geometry/src/polygon3d.rs
+++ b/geometry/src/polygon3d.rs
@@ -636,7 +636,18 @@ impl Polygon3D {
         for l in self.inner.iter_mut() {
             l.project_into_plane(other)?;
         }
+        self.normal = self.outer.normal();
+
+        self.update_area()
+    }
 
+    /// Recalculates the area, after the outer loop or the holes changed
+    fn update_area(&mut self) -> Result<(), String> {
+        let mut area = self.outer.area()?;
+        for l in self.inner.iter() {
+            area -= l.area()?;
+        }
+        self.area = area;
         Ok(())
     }
 
@@ -663,6 +674,8 @@ impl Polygon3D {
         if count == 0 {
             None
         } else {
+            // This cannot fail, as all the loops are closed.
+            let _ = self.update_area();
             Some(count)
         }
     }
-- 
2.43.0


From 1d5078cc2f85adb39abb593da7fd736ebba9ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:39 +0000
Subject: [PATCH 79/91] fix: rendering never ended where a lamp was seen
 edge-on from a surface

---
 rendering/src/ray_tracer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rendering/src/ray_tracer.rs b/rendering/src/ray_tracer.rs
index 266a9b5..f964166 100644
--- a/rendering/src/ray_tracer.rs
+++ b/rendering/src/ray_tracer.rs
@@ -233,8 +233,9 @@ impl RayTracer {
 
         let n_shadow_samples = n as Float;
         if let Some((light, p_light)) = scene.sample_light_uniform(rng) {
-            let mut i = 0;
-            while i < n {
+            // Samples that miss the light (e.g., because it is seen edge-on) add no
+            // light, but they are counted... trying again might never end.
+            for _ in 0..n {
                 let wi = if n > 1 {
                     light.primitive.sample_direction(rng, intersection_pt)
                 } else {
@@ -249,7 +250,6 @@ impl RayTracer {
                 if let Some((light_colour, light_pdf)) =
                     intersect_light(scene, light, shadow_ray, node_aux)
                 {
-                    i += 1;
                     if light_pdf < 1e-18 {
                         // The light is obstructed... don't add light, but count it.
                         continue;
-- 
2.43.0


From bceeb63ab594d6b785df7654e61a69aa7a4c5beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 80/91] fix: pictures with no shadow rays or no samples were
 not numbers

---
 rendering/src/ray_tracer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rendering/src/ray_tracer.rs b/rendering/src/ray_tracer.rs
index f964166..d4ed110 100644
--- a/rendering/src/ray_tracer.rs
+++ b/rendering/src/ray_tracer.rs
@@ -201,7 +201,7 @@ impl RayTracer {
         let n_ambient_samples = if self.max_depth == 0 {
             1
         } else {
-            self.n_ambient_samples
+            self.n_ambient_samples.max(1) // There is no average of zero samples
         };
 
         for _ in 0..n_ambient_samples {
@@ -230,6 +230,9 @@ impl RayTracer {
         let mut local_illum = Spectrum::BLACK;
 
         let n = n_shadow_samples;
+        if n == 0 {
+            return local_illum;
+        }
 
         let n_shadow_samples = n as Float;
         if let Some((light, p_light)) = scene.sample_light_uniform(rng) {
-- 
2.43.0


From c91be7f556fa1ac92f16df057024888e4d8a316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 81/91] fix: logarithmic falsecolour pictures without an upper
 limit did not reach the top of the scale when dim

---
 rendering/src/image.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rendering/src/image.rs b/rendering/src/image.rs
index 429c9d3..5ae8682 100644
--- a/rendering/src/image.rs
+++ b/rendering/src/image.rs
@@ -317,14 +317,14 @@ impl ImageBuffer {
         let log_max = match max {
             Some(v) => v.log10(),
             None => {
-                let mut m = MIN_MIN;
+                let mut m = log_min;
                 log_luminance.iter().for_each(|v| {
                     if *v > m {
                         m = *v
                     }
                 });
-                if m <= MIN_MIN {
-                    m = 2. * MIN_MIN;
+                if m <= log_min {
+                    m = log_min + (2. as Float).log10();
                 }
                 m
             }
-- 
2.43.0


From 15e960f35686c70a4ba0e6140ff5bb5b3c4934d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 82/91] fix: spict refused views with negative coordinates and
 its -h option clashed with the help

---
 bin/spict.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bin/spict.rs b/bin/spict.rs
index ecb074e..fc7fb03 100644
--- a/bin/spict.rs
+++ b/bin/spict.rs
@@ -78,8 +78,12 @@ impl std::str::FromStr for Triplet {
 /// A program for Rendering an image from a .rad (i.e., Radiance) or .spl (i.e., Simple)
 /// formats
 #[derive(Parser, Debug)]
-#[clap(author, version, about, long_about = None)]
+#[clap(author, version, about, long_about = None, disable_help_flag = true)]
 struct Inputs {
+    /// Print help (note that '-h' is the field of view)
+    #[clap(long, action = clap::ArgAction::Help)]
+    pub help: Option<bool>,
+
     #[clap(short, long)]
     /// The file to load the model from
     pub input: String,
@@ -115,15 +119,15 @@ struct Inputs {
 
     /* VIEW */
     /// The view point (e.g., '-p 0. 1. 2')
-    #[clap(short = 'p', long)]
+    #[clap(short = 'p', long, allow_hyphen_values = true)]
     pub view_point: Triplet,
 
     /// The view direction (Does not need to be normalized. e.g., '-d -3. 1. 2')
-    #[clap(short = 'd', long)]
+    #[clap(short = 'd', long, allow_hyphen_values = true)]
     pub view_direction: Triplet,
 
     /// The view up (e.g., '-u 0. 1. 0')
-    #[clap(short='u', long, default_value_t=Triplet(0., 0., 1.))]
+    #[clap(short='u', long, allow_hyphen_values = true, default_value_t=Triplet(0., 0., 1.))]
     pub view_up: Triplet,
 
     /// The horizontal field of view, in degrees
-- 
2.43.0


From 665d95d2c46dbfe766eb6c65fbf90ff875975cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:32 +0000
Subject: [PATCH 83/91] fix: missing infrared radiation in EPW files was taken
 as 9999 W/m2

---
 weather/src/epw/weather_line.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weather/src/epw/weather_line.rs b/weather/src/epw/weather_line.rs
index 8b58d2c..7ec76bc 100644
--- a/weather/src/epw/weather_line.rs
+++ b/weather/src/epw/weather_line.rs
@@ -173,9 +173,11 @@ impl std::convert::From<&EPWWeatherLine> for CurrentWeather {
             diffuse_horizontal_radiation: epw.diffuse_horizontal_radiation,
             wind_speed: epw.wind_speed,
             wind_direction: epw.wind_direction.to_radians(),
+            // 9999 means that it is missing
             horizontal_infrared_radiation_intensity: Some(
                 epw.horizontal_infrared_radiation_intensity,
-            ),
+            )
+            .filter(|v| *v < 9999.),
             opaque_sky_cover: epw.opaque_sky_cover / 10.0, // convert units
             relative_humidity: epw.relative_humidity / 100.0, // convert units
             pressure: epw.atmospheric_station_pressure,
-- 
2.43.0


From f8138b4d1fb47453d723b147f54b037238f36015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 84/91] fix: shadow rays only counted a part of the light of
 large lamps

---
 rendering/src/ray_tracer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rendering/src/ray_tracer.rs b/rendering/src/ray_tracer.rs
index d4ed110..9e3683a 100644
--- a/rendering/src/ray_tracer.rs
+++ b/rendering/src/ray_tracer.rs
@@ -23,6 +23,7 @@ use crate::colour::Spectrum;
 use crate::image::ImageBuffer;
 use crate::interaction::Interaction;
 use crate::material::Material;
+use crate::primitive::Primitive;
 use crate::rand::*;
 
 use crate::scene::{Object, Scene};
@@ -265,7 +266,14 @@ impl RayTracer {
 
                     let bsdf_pdf = material.pdf(normal, e1, e2, wi, wo, eta);
 
-                    let weight = power_heuristic(n, light_pdf * p_light, 1, bsdf_pdf);
+                    // Scattered rays only count the distant lights that they reach. All the
+                    // light of other lamps needs to be counted here.
+                    let weight = match &light.primitive {
+                        Primitive::Source(_) => {
+                            power_heuristic(n, light_pdf * p_light, 1, bsdf_pdf)
+                        }
+                        _ => 1.0,
+                    };
 
                     local_illum += weight * fx / (light_pdf * p_light);
                 }
-- 
2.43.0


From f1059e88a06c5051ab72632bc7550a0bd22db636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:48 +0000
Subject: [PATCH 85/91] fix: directions towards round lamps were not spread
 evenly, as their density says

---
 rendering/src/primitive.rs          |  2 +-
 rendering/src/primitive_samplers.rs | 45 +++++++++++++++++++++++++++--
 2 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/rendering/src/primitive.rs b/rendering/src/primitive.rs
index 49e54c8..5c6aae2 100644
--- a/rendering/src/primitive.rs
+++ b/rendering/src/primitive.rs
@@ -111,7 +111,7 @@ impl Primitive {
     pub fn sample_direction(&self, rng: &mut RandGen, point: Point3D) -> Vector3D {
         let u: (Float, Float) = rng.gen();
         let surface_point = match self {
-            Self::Sphere(s) => sample_sphere_surface(s, rng),
+            Self::Sphere(s) => return sample_sphere_direction(s, u, point),
             Self::Triangle(s) => sample_triangle_surface(s, rng),
             Self::Cylinder(_s) => unimplemented!(),
             Self::Source(s) => {
diff --git a/rendering/src/primitive_samplers.rs b/rendering/src/primitive_samplers.rs
index 40687e4..8ab84af 100644
--- a/rendering/src/primitive_samplers.rs
+++ b/rendering/src/primitive_samplers.rs
@@ -69,14 +69,53 @@ pub fn triangle_solid_angle_pdf(
 
 /* SPHERE */
 
+/// The cosine of half of the angle of the cone that a sphere subtends from a point
+fn sphere_cone(sphere: &Sphere3D, point: Point3D) -> Float {
+    let d2 = (sphere.centre() - point).length_squared();
+    let r2 = sphere.radius * sphere.radius;
+    if d2 <= r2 {
+        // It is inside... the sphere is all around
+        return -1.;
+    }
+    (1. - r2 / d2).sqrt()
+}
+
 pub fn sphere_solid_angle_pdf(sphere: &Sphere3D, _info: &IntersectionInfo, ray: &Ray3D) -> Float {
-    let d2 = (sphere.centre() - ray.origin).length_squared();
-    let sin_theta_2 = sphere.radius * sphere.radius / d2;
-    let cos_theta = ((1. - sin_theta_2).clamp(0., 1.)).sqrt();
+    let cos_theta = sphere_cone(sphere, ray.origin);
     // return
     uniform_cone_pdf(cos_theta)
 }
 
+/// Samples the directions from `point` that reach a sphere uniformly, i.e., according
+/// to [`sphere_solid_angle_pdf`]
+pub fn sample_sphere_direction(sphere: &Sphere3D, u: (Float, Float), point: Point3D) -> Vector3D {
+    let cos_cone = sphere_cone(sphere, point);
+    if cos_cone < 0. {
+        let p = uniform_sample_sphere(u);
+        return Vector3D::new(p.x, p.y, p.z);
+    }
+
+    // Form the basis
+    let (_, normal) = sphere_direction(sphere, point);
+    let e2 = normal.get_perpendicular().unwrap();
+    let e1 = e2.cross(normal);
+
+    // Form the direction
+    let cos_theta = 1. - u.0 * (1. - cos_cone);
+    let sin_theta = (1. - cos_theta * cos_theta).sqrt();
+    let (sin_phi, cos_phi) = (2. * PI * u.1).sin_cos();
+    let (x, y, z) = local_to_world(
+        e1,
+        e2,
+        normal,
+        Point3D::new(0., 0., 0.),
+        cos_phi * sin_theta,
+        sin_phi * sin_theta,
+        cos_theta,
+    );
+    Vector3D::new(x, y, z)
+}
+
 pub fn sphere_direction(sphere: &Sphere3D, point: Point3D) -> (Float, Vector3D) {
     let direction = sphere.centre() - point;
     let t = direction.length();
-- 
2.43.0


From 248bf53a775ce83f3b3448f008f5eaa213cbf753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:45 +0000
Subject: [PATCH 86/91] fix: radiance crossing a dielectric surface changes
 with the squared refraction index

---
 rendering/src/material/dielectric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rendering/src/material/dielectric.rs b/rendering/src/material/dielectric.rs
index 9cc0649..4351044 100644
--- a/rendering/src/material/dielectric.rs
+++ b/rendering/src/material/dielectric.rs
@@ -172,7 +172,7 @@ impl MaterialTrait for Dielectric {
             let wi = fresnel_transmission_dir(wo, normal, n1, cos1, n2, cos2);
             let mut spectrum = Spectrum::gray(trans / cos2) * self.colour;
             if let TransportMode::Radiance = transport_mode {
-                spectrum *= n1_over_n2.sqrt();
+                spectrum *= n1_over_n2 * n1_over_n2;
             }
             let pdf = pt / (pr + pt);
             BSDFSample::new(spectrum, wi, pdf, MatFlag::SpecularTransmission)
-- 
2.43.0


From 24f9af3a4c0c88d867632c0403c0a9b7c9335aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:40 +0000
Subject: [PATCH 87/91] fix: the weight of lamps hit by chance ignored how many
 shadow rays are sent, and to which light

---
 rendering/src/ray_tracer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rendering/src/ray_tracer.rs b/rendering/src/ray_tracer.rs
index 9e3683a..e15c8ba 100644
--- a/rendering/src/ray_tracer.rs
+++ b/rendering/src/ray_tracer.rs
@@ -83,6 +83,9 @@ impl RayTracer {
         let mut depth = 0;
         let mut refraction_coefficient = 1.0;
         let mut specular_bounce = true;
+        // number of shadow rays sent from the last intersection
+        let mut n_shadow = 0;
+        let p_light = 1. / scene.count_all_lights().max(1) as Float;
         let mut spectrum = Spectrum::BLACK;
         loop {
             let intersect = scene.cast_ray(ray, aux);
@@ -95,7 +98,8 @@ impl RayTracer {
                             let w = if depth == 0 || specular_bounce {
                                 1.0
                             } else {
-                                power_heuristic(1, ray_prob, 1, light_pdf)
+                                // The rest of the weight is in the shadow rays
+                                power_heuristic(1, ray_prob, n_shadow, light_pdf * p_light)
                             };
                             spectrum += beta * w * light_colour;
                         }
@@ -138,14 +142,14 @@ impl RayTracer {
 
             // Direct lighting
             if !material.specular_only() {
-                let n_shadow_samples = if depth == 0 { self.n_shadow_samples } else { 1 };
+                n_shadow = if depth == 0 { self.n_shadow_samples } else { 1 };
                 let local = self.get_local_illumination(
                     scene,
                     material,
                     &interaction,
                     refraction_coefficient,
                     rng,
-                    n_shadow_samples,
+                    n_shadow,
                     aux,
                 );
                 spectrum += beta * local;
-- 
2.43.0


From dd91945deca03a912b99fd9749ca9e13e2c131af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:40 +0000
Subject: [PATCH 88/91] fix: the dark side of lamps emitted the colour of its
 material

---
 rendering/src/ray_tracer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rendering/src/ray_tracer.rs b/rendering/src/ray_tracer.rs
index e15c8ba..e8e3128 100644
--- a/rendering/src/ray_tracer.rs
+++ b/rendering/src/ray_tracer.rs
@@ -371,6 +371,11 @@ pub fn intersect_light<const N: usize>(
     };
     // let light_material = &scene.materials[light.front_material_index];
 
+    if !light_material.emits_light() {
+        // Only the other side of this object emits light
+        return Some((Spectrum::BLACK, 0.0));
+    }
+
     let light_colour = light_material.colour();
     let light_pdf = light.primitive.solid_angle_pdf(&info, &shadow_ray);
 
-- 
2.43.0


From 8f2909f304fcaf985a393610aaa246885d9564de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:40 +0000
Subject: [PATCH 89/91] fix: direct radiation was not a number in hours of the
 day without global radiation

---
 weather/src/solar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index d93670e..e3b0390 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -356,7 +356,7 @@ impl Solar {
             next_hour_data,
             prev_hour_data,
         );
-        if direct_normal_radiation.is_nan() && direct_normal_radiation.is_infinite() {
+        if direct_normal_radiation.is_nan() || direct_normal_radiation.is_infinite() {
             direct_normal_radiation = 0.0;
         }
 
-- 
2.43.0


From 68c045e0ba7bedd3c6851d0b5df4b4e79ab381b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:40 +0000
Subject: [PATCH 90/91] fix: rows and columns of the coefficients of direct
 radiation were swapped

---
 weather/src/solar/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index e3b0390..21dc16a 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -968,7 +968,7 @@ fn perez_direct_rad_coefs(kt_p: usize, zenith: usize, prec_water: usize, delta_k
         0.518640, 0.339970, 0.520230, 0.743440, 0.592190, 0.603060, 0.316930, 0.794390,
     ];
 
-    let i = prec_water * 5 + delta_kt;
+    let i = delta_kt * 5 + prec_water;
 
     match (kt_p, zenith) {
         (0, 0) => C00[i],
-- 
2.43.0


From a7d55915b455ae681de75962b9b0aae2c45f15e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:40 +0000
Subject: [PATCH 91/91] fix: direct radiation on the ground could exceed the
 global

---
 weather/src/solar/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weather/src/solar/mod.rs b/weather/src/solar/mod.rs
index 21dc16a..9f0f529 100644
--- a/weather/src/solar/mod.rs
+++ b/weather/src/solar/mod.rs
@@ -360,7 +360,11 @@ impl Solar {
             direct_normal_radiation = 0.0;
         }
 
+        // The direct radiation is a part of the global
         let cos_theta = sun_direction.z;
+        if direct_normal_radiation * cos_theta > global_horizontal {
+            direct_normal_radiation = global_horizontal / cos_theta;
+        }
         let diffuse_horizontal = (global_horizontal - direct_normal_radiation * cos_theta).max(0.0);
 
         (
-- 
2.43.0

