From 834f72c624ac30d17e062d505dc198bfe1c228e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 1/7] fix: version 21 has its last alignment pattern at 94, not
 92

Reading version 21 symbols took modules of the alignment pattern as data and
left out data modules, so hundreds of modules ended up in the wrong place and
most of the error correction capacity was spent on that.
---
 src/version_db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/version_db.rs b/src/version_db.rs
index 80bdae8..f8b68da 100644
--- a/src/version_db.rs
+++ b/src/version_db.rs
@@ -551,7 +551,7 @@ pub const VERSION_DATA_BASE: [VersionInfo; 41] = [
     },
     VersionInfo {
         data_bytes: 1156,
-        apat: [6, 28, 50, 72, 92, 0, 0],
+        apat: [6, 28, 50, 72, 94, 0, 0],
         ecc: [
             RSParameters {
                 bs: 68,
-- 
2.43.0


From 0de3d58131e9ab6bb721f0ba2000fb03ef6b630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 2/7] fix: read the last data codeword of long blocks from its
 own place

Only the long blocks have that codeword, so it is interleaved over the long
blocks only. It was read as if the short blocks had one as well, which put one
error into each long block before any damage to the symbol.
---
 src/decode.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 98866f3..20c785c 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -358,9 +358,14 @@ fn codestream_ecc(meta: &MetaData, ds: RawData) -> DeQRResult<CorrectedDataStrea
         let dst = &mut out.data[dst_offset..(dst_offset + ecc.bs)];
         let num_ec = ecc.bs - ecc.dw;
         #[allow(clippy::needless_range_loop)]
-        for j in 0..ecc.dw {
+        for j in 0..sb_ecc.dw {
             dst[j] = ds.data[j * bc + i];
         }
+        // The last data word of the long blocks is stored without gaps for the
+        // short blocks, which do not have that word
+        if i >= sb_ecc.ns {
+            dst[sb_ecc.dw] = ds.data[sb_ecc.dw * bc + i - sb_ecc.ns];
+        }
         for j in 0..num_ec {
             dst[ecc.dw + j] = ds.data[ecc_offset + j * bc + i];
         }
-- 
2.43.0


From ac726400d23aadc35ef687d2fab80f6fa97d9971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 3/7] fix: do not accept format information with more than 3
 corrected bits

The locator polynomial of an uncorrectable word can still lead to some other
codeword far away. Accepting it kept the second, possibly intact, copy of the
format information from being tried.
---
 src/decode.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 20c785c..9213528 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -662,7 +662,11 @@ fn reserved_cell(version: Version, i: usize, j: usize) -> bool {
     }
 }
 
-fn correct_format(mut word: u16) -> DeQRResult<u16> {
+fn correct_format(word: u16) -> DeQRResult<u16> {
+    /* The code has distance 7, more than 3 wrong bits can't be corrected */
+    const MAX_ERRORS: u32 = 3;
+    let mut corrected = word;
+
     /* Evaluate U (received codeword) at each of alpha_1 .. alpha_6
      * to get S_1 .. S_6 (but we index them from 0).
      */
@@ -672,14 +676,17 @@ fn correct_format(mut word: u16) -> DeQRResult<u16> {
         /* Now, find the roots of the polynomial */
         for i in 0..15 {
             if poly_eval(&sigma, GF16::GENERATOR.pow(15 - i)) == GF16::ZERO {
-                word ^= 1 << i;
+                corrected ^= 1 << i;
             }
         }
 
         // Double CHECK syndromes
-        format_syndromes(word).map_err(|_| DeQRError::FormatEcc)?;
+        format_syndromes(corrected).map_err(|_| DeQRError::FormatEcc)?;
+        if (corrected ^ word).count_ones() > MAX_ERRORS {
+            return Err(DeQRError::FormatEcc);
+        }
     }
-    Ok(word)
+    Ok(corrected)
 }
 
 fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
-- 
2.43.0


From 606d4a9540a3c6ad31e494991d3dfca3cf5e5a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 4/7] fix: check the size of a grid before reading its format
 information

Decoding a grid smaller than a QR code read cells outside the grid and
panicked instead of returning InvalidVersion.
---
 src/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 9213528..000cd4d 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -690,6 +690,8 @@ fn correct_format(word: u16) -> DeQRResult<u16> {
 }
 
 fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
+    // Too small grids do not even have the cells for the format information
+    let version = Version::from_size(code.size())?;
     let mut format = 0;
 
     // Try first location
@@ -716,7 +718,6 @@ fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
     let fdata = verified_format >> 10;
     let ecc_level = fdata >> 3;
     let mask = fdata & 7;
-    let version = Version::from_size(code.size())?;
 
     Ok(MetaData {
         version,
-- 
2.43.0


From 7ad25e1f42bd0eea6d03f51b067c8831d06dded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:20 +0000
Subject: [PATCH 5/7] fix: do not read pixels of an image without columns

---
 src/detect.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/detect.rs b/src/detect.rs
index 216f8e0..1e465e0 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -38,6 +38,10 @@ where
 {
     let mut res = Vec::new();
 
+    if img.width() == 0 {
+        return res;
+    }
+
     for y in 0..img.height() {
         let mut finder = LineScanner::new(img.get_pixel_at(0, y));
         for x in 1..img.width() {
-- 
2.43.0


From 9d127c073f6eb4984e29d11ab36df001a2ea657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:07 +0000
Subject: [PATCH 6/7] fix: do not overflow when multiplying pixel coordinates
 of big images

Products of two pixel coordinates do not fit into an i32 once an image gets
big or very wide, and finding the corners or the alignment pattern even
multiplies three of them: that panicked in debug builds and led to wrong
corners in release builds.
---
 src/detect.rs        | 42 ++++++++++++++++++++++--------------------
 src/geometry.rs      | 36 ++++++++++++++++++++++++++++--------
 src/identify/grid.rs | 39 +++++++++++++++++++--------------------
 3 files changed, 69 insertions(+), 48 deletions(-)

diff --git a/src/detect.rs b/src/detect.rs
index 1e465e0..f4b593a 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -1,6 +1,6 @@
 use crate::prepare::{AreaFiller, ImageBuffer, PixelColor};
 use crate::{
-    geometry::Perspective,
+    geometry::{cross, dot, Perspective},
     identify::Point,
     prepare::{ColoredRegion, PreparedImage, Row},
 };
@@ -278,7 +278,7 @@ where
 struct FirstCornerFinder {
     initial: Point,
     best: Point,
-    score: i32,
+    score: i64,
 }
 
 impl FirstCornerFinder {
@@ -297,9 +297,9 @@ impl FirstCornerFinder {
 
 impl AreaFiller for FirstCornerFinder {
     fn update(&mut self, row: Row) {
-        let dy = (row.y as i32) - self.initial.y;
-        let l_dx = (row.left as i32) - self.initial.x;
-        let r_dx = (row.right as i32) - self.initial.x;
+        let dy = (row.y as i64) - i64::from(self.initial.y);
+        let l_dx = (row.left as i64) - i64::from(self.initial.x);
+        let r_dx = (row.right as i64) - i64::from(self.initial.x);
 
         let l_dist = l_dx * l_dx + dy * dy;
         let r_dist = r_dx * r_dx + dy * dy;
@@ -334,7 +334,7 @@ impl AreaFiller for FirstCornerFinder {
 struct AllCornerFinder {
     baseline: Point,
     best: [Point; 4],
-    scores: [i32; 4],
+    scores: [i64; 4],
 }
 
 impl AllCornerFinder {
@@ -344,8 +344,8 @@ impl AllCornerFinder {
             y: corner.y - initial.y,
         };
 
-        let parallel_score = initial.x * baseline.x + initial.y * baseline.y;
-        let orthogonal_score = -initial.x * baseline.y + initial.y * baseline.x;
+        let parallel_score = dot(&initial, &baseline);
+        let orthogonal_score = cross(&baseline, &initial);
 
         AllCornerFinder {
             baseline,
@@ -366,29 +366,31 @@ impl AllCornerFinder {
 
 impl AreaFiller for AllCornerFinder {
     fn update(&mut self, row: Row) {
-        let l_par_score = (row.left as i32) * self.baseline.x + (row.y as i32) * self.baseline.y;
-        let l_ort_score = -(row.left as i32) * self.baseline.y + (row.y as i32) * self.baseline.x;
+        let left = Point {
+            x: row.left as i32,
+            y: row.y as i32,
+        };
+        let l_par_score = dot(&left, &self.baseline);
+        let l_ort_score = cross(&self.baseline, &left);
         let l_scores = [l_par_score, l_ort_score, -l_par_score, -l_ort_score];
 
-        let r_par_score = (row.right as i32) * self.baseline.x + (row.y as i32) * self.baseline.y;
-        let r_ort_score = -(row.right as i32) * self.baseline.y + (row.y as i32) * self.baseline.x;
+        let right = Point {
+            x: row.right as i32,
+            y: row.y as i32,
+        };
+        let r_par_score = dot(&right, &self.baseline);
+        let r_ort_score = cross(&self.baseline, &right);
         let r_scores = [r_par_score, r_ort_score, -r_par_score, -r_ort_score];
 
         for j in 0..4 {
             if l_scores[j] > self.scores[j] {
                 self.scores[j] = l_scores[j];
-                self.best[j] = Point {
-                    x: row.left as i32,
-                    y: row.y as i32,
-                }
+                self.best[j] = left;
             }
 
             if r_scores[j] > self.scores[j] {
                 self.scores[j] = r_scores[j];
-                self.best[j] = Point {
-                    x: row.right as i32,
-                    y: row.y as i32,
-                }
+                self.best[j] = right;
             }
         }
     }
diff --git a/src/geometry.rs b/src/geometry.rs
index 94d89ae..197b9f8 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -83,16 +83,36 @@ impl Perspective {
     }
 }
 
+/// Dot product of two vectors
+///
+/// The products of pixel coordinates of a big image do not fit into an `i32`
+pub fn dot(a: &Point, b: &Point) -> i64 {
+    i64::from(a.x) * i64::from(b.x) + i64::from(a.y) * i64::from(b.y)
+}
+
+/// Cross product of two vectors, the signed area of the parallelogram they span
+pub fn cross(a: &Point, b: &Point) -> i64 {
+    i64::from(a.x) * i64::from(b.y) - i64::from(a.y) * i64::from(b.x)
+}
+
+/// The vector from one point to another
+pub fn vector(from: &Point, to: &Point) -> Point {
+    Point {
+        x: to.x - from.x,
+        y: to.y - from.y,
+    }
+}
+
 pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<Point> {
     /* (a, b) is perpendicular to line p */
-    let a = -(p1.y - p0.y);
-    let b = p1.x - p0.x;
+    let a = -i64::from(p1.y - p0.y);
+    let b = i64::from(p1.x - p0.x);
     /* (c, d) is perpendicular to line q */
-    let c = -(q1.y - q0.y);
-    let d = q1.x - q0.x;
+    let c = -i64::from(q1.y - q0.y);
+    let d = i64::from(q1.x - q0.x);
     /* e and f are dot products of the respective vectors with p and q */
-    let e = a * p1.x + b * p1.y;
-    let f = c * q1.x + d * q1.y;
+    let e = a * i64::from(p1.x) + b * i64::from(p1.y);
+    let f = c * i64::from(q1.x) + d * i64::from(q1.y);
     /* Now we need to solve:
      *     [a b] [rx]   [e]
      *     [c d] [ry] = [f]
@@ -106,8 +126,8 @@ pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<
         None
     } else {
         Some(Point {
-            x: (d * e - b * f) / det,
-            y: (-c * e + a * f) / det,
+            x: i32::try_from((d * e - b * f) / det).ok()?,
+            y: i32::try_from((-c * e + a * f) / det).ok()?,
         })
     }
 }
diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 805e261..9ad410a 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -47,7 +47,7 @@ impl SkewedGridLocation {
         };
 
         /* Make sure A-B-C is clockwise */
-        if (group.1.center.x - h0.x) * -hd.y + (group.1.center.y - h0.y) * hd.x > 0 {
+        if geometry::cross(&hd, &geometry::vector(&h0, &group.1.center)) > 0 {
             mem::swap(&mut group.0, &mut group.2);
             hd.x = -hd.x;
             hd.y = -hd.y
@@ -80,7 +80,7 @@ impl SkewedGridLocation {
         if grid_size > 21 {
             /* Try to find the actual location of the alignment pattern. */
             align = find_alignment_pattern(img, align, &group.0, &group.2)?;
-            let score = -hd.y * align.x + hd.x * align.y;
+            let score = geometry::cross(&hd, &align);
             let finder = LeftMostFinder {
                 line_p: hd,
                 best: align,
@@ -169,7 +169,7 @@ fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
         .corners
         .iter()
         .enumerate()
-        .min_by_key(|(_, a)| (a.x - h0.x) * (-hd.y) + (a.y - h0.y) * hd.x)
+        .min_by_key(|(_, a)| geometry::cross(hd, &geometry::vector(h0, a)))
         .expect("corners cannot be empty");
 
     /* Rotate the capstone */
@@ -244,9 +244,11 @@ where
     let a = c0.c.map(u, v + 1.0);
     let (u, v) = c2.c.unmap(&align_seed);
     let c = c2.c.map(u + 1.0, v);
-    let size_estimate = ((a.x - align_seed.x) * -(c.y - align_seed.y)
-        + (a.y - align_seed.y) * (c.x - align_seed.x))
-        .unsigned_abs() as usize;
+    let size_estimate = geometry::cross(
+        &geometry::vector(&align_seed, &a),
+        &geometry::vector(&align_seed, &c),
+    )
+    .unsigned_abs() as usize;
 
     /* Spiral outwards from the estimate point until we find something
      * roughly the right size. Don't look too far from the estimate
@@ -292,24 +294,21 @@ where
 struct LeftMostFinder {
     line_p: Point,
     best: Point,
-    score: i32,
+    score: i64,
 }
 
 impl AreaFiller for LeftMostFinder {
     fn update(&mut self, row: Row) {
-        let left_d = -self.line_p.y * (row.left as i32) + self.line_p.x * row.y as i32;
-        let right_d = -self.line_p.y * (row.right as i32) + self.line_p.x * row.y as i32;
-
-        if left_d < self.score {
-            self.score = left_d;
-            self.best.x = row.left as i32;
-            self.best.y = row.y as i32;
-        }
-
-        if right_d < self.score {
-            self.score = right_d;
-            self.best.x = row.right as i32;
-            self.best.y = row.y as i32;
+        for x in [row.left, row.right] {
+            let point = Point {
+                x: x as i32,
+                y: row.y as i32,
+            };
+            let d = geometry::cross(&self.line_p, &point);
+            if d < self.score {
+                self.score = d;
+                self.best = point;
+            }
         }
     }
 }
-- 
2.43.0


From 068a5e15ffa38caa2d7d3d7f09339cc4428211c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:18 +0000
Subject: [PATCH 7/7] fix: do not panic or hang on capstones with a degenerate
 perspective

Random or hostile images contain capstone look-alikes whose corners are no
sensible rectangle. Mapping points close to the horizon of their perspective,
rotating their corners or finding no timing pattern between them ran into
asserts. Points far outside of the image made the timing scan and the search
for the alignment pattern run (nearly) forever.
---
 src/geometry.rs      | 22 +++++++++++-----------
 src/identify/grid.rs | 34 +++++++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 197b9f8..0e58507 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -1,5 +1,8 @@
 use crate::identify::Point;
 
+/// Limit for coordinates of mapped points, far outside of any image
+const MAX_COORDINATE: f64 = (1 << 29) as f64;
+
 #[derive(Debug, PartialEq, Clone)]
 pub struct Perspective(pub [f64; 8]);
 
@@ -49,16 +52,11 @@ impl Perspective {
         let x = (self.0[0] * u + self.0[1] * v + self.0[2]) / den;
         let y = (self.0[3] * u + self.0[4] * v + self.0[5]) / den;
 
-        let x = x.round();
-        let y = y.round();
-
-        assert!(x <= i32::MAX as f64);
-        assert!(x >= i32::MIN as f64);
-        assert!(y <= i32::MAX as f64);
-        assert!(y >= i32::MIN as f64);
+        // Points on or close to the horizon are mapped to infinity. Limit them to
+        // coordinates whose differences still fit into an `i32`
         Point {
-            x: x as i32,
-            y: y as i32,
+            x: x.round().clamp(-MAX_COORDINATE, MAX_COORDINATE) as i32,
+            y: y.round().clamp(-MAX_COORDINATE, MAX_COORDINATE) as i32,
         }
     }
 
@@ -125,9 +123,11 @@ pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<
     if det == 0 {
         None
     } else {
+        // Almost parallel lines meet far outside of any image
+        let coordinate = |v: i64| (v.abs() <= MAX_COORDINATE as i64).then_some(v as i32);
         Some(Point {
-            x: i32::try_from((d * e - b * f) / det).ok()?,
-            y: i32::try_from((-c * e + a * f) / det).ok()?,
+            x: coordinate((d * e - b * f) / det)?,
+            y: coordinate((-c * e + a * f) / det)?,
         })
     }
 }
diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 9ad410a..3985b52 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -56,14 +56,14 @@ impl SkewedGridLocation {
         /* Rotate each capstone so that corner 0 is top-left with respect
          * to the grid.
          */
-        rotate_capstone(&mut group.0, &h0, &hd);
-        rotate_capstone(&mut group.1, &h0, &hd);
-        rotate_capstone(&mut group.2, &h0, &hd);
+        rotate_capstone(&mut group.0, &h0, &hd)?;
+        rotate_capstone(&mut group.1, &h0, &hd)?;
+        rotate_capstone(&mut group.2, &h0, &hd)?;
 
         /* Check the timing pattern. This doesn't require a perspective
          * transform.
          */
-        let grid_size = measure_timing_pattern(img, &group);
+        let grid_size = measure_timing_pattern(img, &group)?;
 
         /* Make an estimate based for the alignment pattern based on extending
          * lines from capstones A and C.
@@ -164,7 +164,7 @@ where
     Some(jiggle_perspective(img, initial, grid_size))
 }
 
-fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
+fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) -> Option<()> {
     let (best_idx, _) = cap
         .corners
         .iter()
@@ -174,8 +174,8 @@ fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
 
     /* Rotate the capstone */
     cap.corners.rotate_left(best_idx);
-    cap.c = geometry::Perspective::create(&cap.corners, 7.0, 7.0)
-        .expect("rotated perspective can't fail");
+    cap.c = geometry::Perspective::create(&cap.corners, 7.0, 7.0)?;
+    Some(())
 }
 
 //* Try the measure the timing pattern for a given QR code. This does
@@ -187,7 +187,7 @@ fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
 // * which is nearest the centre of the code. Using these points, we do
 // * a horizontal and a vertical timing scan.
 // */
-fn measure_timing_pattern<S>(img: &PreparedImage<S>, caps: &CapStoneGroup) -> usize
+fn measure_timing_pattern<S>(img: &PreparedImage<S>, caps: &CapStoneGroup) -> Option<usize>
 where
     S: ImageBuffer,
 {
@@ -203,10 +203,12 @@ where
     let scan = cmp::max(hscan, vscan);
 
     /* Choose the nearest allowable grid size */
-    assert!(scan >= 1);
+    if scan < 1 {
+        return None;
+    }
     let size = scan + 13;
     let ver = (size as f64 - 15.0).floor() as usize / 4;
-    ver * 4 + 17
+    Some(ver * 4 + 17)
 }
 
 fn timing_scan<S>(img: &PreparedImage<S>, p0: &Point, p1: &Point) -> usize
@@ -215,7 +217,12 @@ where
 {
     let mut count = 0;
     let mut previous = None;
-    for p in geometry::BresenhamScan::new(p0, p1) {
+    // There is nothing to scan outside of the image
+    let limit = |p: &Point| Point {
+        x: p.x.clamp(0, img.width() as i32 - 1),
+        y: p.y.clamp(0, img.height() as i32 - 1),
+    };
+    for p in geometry::BresenhamScan::new(&limit(p0), &limit(p1)) {
         let pixel = img.get_pixel_at_point(p);
         if let Some(previous) = previous {
             if previous != pixel {
@@ -250,6 +257,11 @@ where
     )
     .unsigned_abs() as usize;
 
+    // No region can have that size, so do not even start to look for it
+    if size_estimate / 2 > img.width() * img.height() {
+        return None;
+    }
+
     /* Spiral outwards from the estimate point until we find something
      * roughly the right size. Don't look too far from the estimate
      * point.
-- 
2.43.0

