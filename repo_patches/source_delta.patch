From 896577045d67aee5ceceb8f3a240ff150f0aa083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 01/21] fix: reject i32 coordinates that do not fit instead of
 truncating them

---
 src/sqrid/pos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/pos.rs b/src/sqrid/pos.rs
index edc548d..9e27cdc 100644
--- a/src/sqrid/pos.rs
+++ b/src/sqrid/pos.rs
@@ -233,7 +233,9 @@ impl<const XMAX: u16, const YMAX: u16> convert::TryFrom<&(i32, i32)> for Pos<XMA
     type Error = Error;
     #[inline]
     fn try_from(xy: &(i32, i32)) -> Result<Self, Self::Error> {
-        Pos::new(xy.0 as u16, xy.1 as u16)
+        let x = u16::try_from(xy.0).map_err(|_| Error::OutOfBounds)?;
+        let y = u16::try_from(xy.1).map_err(|_| Error::OutOfBounds)?;
+        Pos::new(x, y)
     }
 }
 
-- 
2.43.0


From a385367cc9832bdbef520cfdc9c578c90ec5e370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 02/21] fix: yield the last position of ranges that end in the
 bottom row

---
 src/sqrid/postrait.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 27d61a6..c2808ee 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -517,8 +517,10 @@ impl<P: PosT> Iterator for PosTIterRange<P> {
                 if p.x() < self.topleft.x() {
                     pos = P::new(self.topleft.x(), p.y()).ok();
                 } else if p.x() > self.botright.x() {
-                    let y = p.y().inc()?;
-                    pos = P::new(self.topleft.x(), y).ok();
+                    pos = p
+                        .y()
+                        .inc()
+                        .and_then(|y| P::new(self.topleft.x(), y).ok());
                 }
             }
             self.value = pos.filter(|p| p.y() <= self.botright.y());
-- 
2.43.0


From 01d71070451033584c55759f2acfad07d2eee406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 03/21] fix: rotate the inner rings of gridbools with even
 sides

---
 src/sqrid/gridbool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/gridbool.rs b/src/sqrid/gridbool.rs
index e5f1557..eb9b484 100644
--- a/src/sqrid/gridbool.rs
+++ b/src/sqrid/gridbool.rs
@@ -220,7 +220,7 @@ impl<P: PosT, const WORDS: usize> Gridbool<P, WORDS> {
 impl<const XYMAX: u16, const WORDS: usize> Gridbool<Pos<XYMAX, XYMAX>, WORDS> {
     /// Rotate all elements 90 degrees clockwise
     pub fn rotate_cw(&mut self) {
-        for y in 0..XYMAX / 2 {
+        for y in 0..XYMAX.div_ceil(2) {
             for x in y..XYMAX - y {
                 let pos0 = Pos::<XYMAX, XYMAX>::try_from((x, y)).unwrap();
                 let pos1 = pos0.rotate_cw();
@@ -241,7 +241,7 @@ impl<const XYMAX: u16, const WORDS: usize> Gridbool<Pos<XYMAX, XYMAX>, WORDS> {
     }
     /// Rotate all elements 90 degrees counterclockwise
     pub fn rotate_cc(&mut self) {
-        for y in 0..XYMAX / 2 {
+        for y in 0..XYMAX.div_ceil(2) {
             for x in y..XYMAX - y {
                 let pos0 = Pos::<XYMAX, XYMAX>::try_from((x, y)).unwrap();
                 let pos1 = pos0.rotate_cw();
-- 
2.43.0


From 86f57fbcd9d9f8cd5d852cefe70dd412789958e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 04/21] fix: keep unused gridbool bits clear so that equal
 gridbools compare equal

---
 src/sqrid/gridbool.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/gridbool.rs b/src/sqrid/gridbool.rs
index eb9b484..5877e86 100644
--- a/src/sqrid/gridbool.rs
+++ b/src/sqrid/gridbool.rs
@@ -87,7 +87,19 @@ impl<P: PosT, const WORDS: usize> Gridbool<P, WORDS> {
         } else {
             Self::WORD_FALSE
         };
-        Gridbool([v; WORDS], std::marker::PhantomData)
+        let mut words = [v; WORDS];
+        // Keep the bits that don't correspond to a position always
+        // clear, so that derived traits can compare the words:
+        let size = P::WIDTH * P::HEIGHT;
+        if size % 32 != 0 {
+            words[size / 32] &= !(Self::WORD_TRUE >> (size % 32));
+        }
+        let mut i = size.div_ceil(32);
+        while i < WORDS {
+            words[i] = Self::WORD_FALSE;
+            i += 1;
+        }
+        Gridbool(words, std::marker::PhantomData)
     }
 
     #[inline]
-- 
2.43.0


From 1446a9b7cac421c9d50c6ccc4f2ff0fcfab3f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 05/21] fix: ignore superseded frontier entries in uniform-cost
 search

---
 src/sqrid/ucs.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/ucs.rs b/src/sqrid/ucs.rs
index 6fafec4..f1888ee 100644
--- a/src/sqrid/ucs.rs
+++ b/src/sqrid/ucs.rs
@@ -117,8 +117,12 @@ where
 {
     type Item = (P, Dir);
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some((_, mov)) = self.frontier.pop() {
+        while let Some((Reverse(poscost), mov)) = self.frontier.pop() {
             let pos = mov.0;
+            if poscost > *self.cost.get(&pos) {
+                // A cheaper way to reach this position was already yielded
+                continue;
+            }
             for dir in Dir::iter::<D>() {
                 if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
                     let newcost = self.cost.get(&pos) + costincr;
@@ -129,10 +133,9 @@ where
                     }
                 }
             }
-            Some(mov)
-        } else {
-            None
+            return Some(mov);
         }
+        None
     }
 }
 
-- 
2.43.0


From 8d4b006a1eff0d10bcc61364b4944950e609724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 06/21] fix: do not wrap around when adding up large costs in
 uniform-cost search

---
 src/sqrid/ucs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/ucs.rs b/src/sqrid/ucs.rs
index f1888ee..9b9ed11 100644
--- a/src/sqrid/ucs.rs
+++ b/src/sqrid/ucs.rs
@@ -125,7 +125,7 @@ where
             }
             for dir in Dir::iter::<D>() {
                 if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
-                    let newcost = self.cost.get(&pos) + costincr;
+                    let newcost = self.cost.get(&pos).saturating_add(costincr);
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
                         let priority = Reverse(newcost);
-- 
2.43.0


From 07ba67822ab1b9fe7f14a58512b0b7b2add1e3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 07/21] fix: use an admissible A* heuristic when diagonals are
 allowed

---
 src/sqrid/astar.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index e0e1292..4ff0a9c 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -97,6 +97,17 @@ impl<F, MapPosUsize, P: PosT, const D: bool, const WORDS: usize, const SIZE: usi
         it.cost.set(*orig, 0);
         it
     }
+
+    /// Lower bound for the number of steps from `pos` to the destination
+    fn heuristic(&self, pos: &P) -> usize {
+        let distance = pos.manhattan(&self.dest);
+        if D {
+            // A diagonal step covers a manhattan distance of 2
+            distance.div_ceil(2)
+        } else {
+            distance
+        }
+    }
 }
 
 impl<F, MapPosUsize, P: PosT, const D: bool, const WORDS: usize, const SIZE: usize> Iterator
@@ -116,7 +127,7 @@ where
                 if let Some(next_pos) = (self.go)(pos, dir) {
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
-                        let priority = Reverse(newcost + next_pos.manhattan(&self.dest));
+                        let priority = Reverse(newcost + self.heuristic(&next_pos));
                         self.frontier.push((priority, (next_pos, -dir)));
                     }
                 }
-- 
2.43.0


From 2ac3a93c2cb9c16f1dd8d6d9bdb1d2c4d2ef94dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 08/21] fix: ignore superseded frontier entries in A* search

---
 src/sqrid/astar.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index 4ff0a9c..cf4384e 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -120,8 +120,12 @@ where
 {
     type Item = (P, Dir);
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some((_, mov)) = self.frontier.pop() {
+        while let Some((Reverse(estimate), mov)) = self.frontier.pop() {
             let pos = mov.0;
+            if estimate > self.cost.get(&pos) + self.heuristic(&pos) {
+                // A shorter way to reach this position was already yielded
+                continue;
+            }
             for dir in Dir::iter::<D>() {
                 let newcost = self.cost.get(&pos) + 1;
                 if let Some(next_pos) = (self.go)(pos, dir) {
@@ -132,10 +136,9 @@ where
                     }
                 }
             }
-            Some(mov)
-        } else {
-            None
+            return Some(mov);
         }
+        None
     }
 }
 
-- 
2.43.0


From 9473494a86ca68747952012c08dbb6ca4c5f97d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 09/21] fix: use the grid size as the limit of the came-from
 loop detection

---
 src/sqrid/mappos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index ee94def..e8e233b 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -112,7 +112,7 @@ where
         return Err(Error::DestinationUnreachable);
     }
     // Maximum iterations is the number of coordinates
-    let mut maxiter = P::width() * P::width() + 1;
+    let mut maxiter = P::width() * P::height() + 1;
     while &pos != orig {
         let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;
         ret.push_front(-dir);
-- 
2.43.0


From 77e583389143b1f53f0a847c2e770aab39151e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 10/21] fix: actually check the grid SIZE argument at compile
 time

---
 src/sqrid/grid.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index 6073151..d02e01e 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -79,6 +79,7 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
     where
         T: Copy,
     {
+        let _ = Self::_ASSERTS;
         Grid([item; SIZE], std::marker::PhantomData)
     }
 
@@ -239,6 +240,7 @@ impl<T, const W: u16, const SIZE: usize> Grid<T, Pos<W, W>, SIZE> {
 
 impl<T: Default, P: PosT, const SIZE: usize> Default for Grid<T, P, SIZE> {
     fn default() -> Self {
+        let _ = Self::_ASSERTS;
         Self(
             std::array::from_fn(|_| (T::default())),
             std::marker::PhantomData,
@@ -264,6 +266,7 @@ impl<T: Default, P: PosT, const SIZE: usize> TryFrom<Vec<Vec<T>>> for Grid<T, P,
     type Error = Error;
     #[inline]
     fn try_from(mut vec: Vec<Vec<T>>) -> Result<Self, Self::Error> {
+        let _ = Self::_ASSERTS;
         if vec.len() > P::height() || vec.iter().any(|v| v.len() > P::width()) {
             return Err(Error::OutOfBounds);
         }
-- 
2.43.0


From 273834077bbe257e3cebc76536c05231e25fb5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 11/21] fix: count both ends in WIDTH and HEIGHT of integer
 tuples

---
 src/sqrid/postrait.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index c2808ee..1ec2237 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -589,8 +589,10 @@ macro_rules! postrait_integer_impl {
         impl PosT for ($xtype, $ytype) {
             type Xtype = $xtype;
             type Ytype = $ytype;
-            const WIDTH: usize = { <$xtype>::MAX as isize - <$xtype>::MIN as isize } as usize;
-            const HEIGHT: usize = { <$ytype>::MAX as isize - <$ytype>::MIN as isize } as usize;
+            const WIDTH: usize = 
+                ({ <$xtype>::MAX as isize - <$xtype>::MIN as isize } as usize).saturating_add(1);
+            const HEIGHT: usize = 
+                ({ <$ytype>::MAX as isize - <$ytype>::MIN as isize } as usize).saturating_add(1);
             fn new_(xy: ($xtype, $ytype)) -> Self {
                 xy
             }
-- 
2.43.0


From 9d34ac2036ce0320a2f85d9f86f9d8df71957c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 12/21] fix: do not truncate coordinates in extend_from_vecvec

---
 src/sqrid/grid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index d02e01e..116e6a3 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -192,7 +192,7 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
     pub fn extend_from_vecvec(&mut self, v: Vec<Vec<T>>) -> Result<(), Error> {
         for (y, line) in v.into_iter().enumerate() {
             for (x, c) in line.into_iter().enumerate() {
-                let p = P::new(x as u16, y as u16)?;
+                let p = P::new(x, y)?;
                 self[p] = c;
             }
         }
-- 
2.43.0


From 01f536285f5c16c0d79b502dd3f379d4b274af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 13/21] fix: start line and column iterators at the minimum
 coordinate

---
 src/sqrid/postrait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 1ec2237..15afda3 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -343,7 +343,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        PosTIterInX::<Self>(Some(Self::new_((x, Default::default()))))
+        PosTIterInX::<Self>(Some(Self::new_((x, Self::Ytype::MIN))))
     }
 
     /// Return an iterator that returns all positions in a line.
@@ -351,7 +351,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        PosTIterInY::<Self>(Some(Self::new_((Default::default(), y))))
+        PosTIterInY::<Self>(Some(Self::new_((Self::Xtype::MIN, y))))
     }
 
     /// Calculate a top-left and a bottom-right Pos's that contains all iterated points.
-- 
2.43.0


From 0070905885c6c78a3682cd6c939dc1077f23638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 14/21] fix: accept the origin as the goal of a breadth-first
 search

---
 src/sqrid/bf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sqrid/bf.rs b/src/sqrid/bf.rs
index a982bb4..ed105e0 100644
--- a/src/sqrid/bf.rs
+++ b/src/sqrid/bf.rs
@@ -194,6 +194,10 @@ where
     P: Copy,
 {
     let mut from = MapPosDir::default();
+    if found(*orig) {
+        from.set(*orig, Some(Dir::default()));
+        return Ok((*orig, from));
+    }
     for (pos, dir) in bf_iter::<GoFn, MySetPos, P, D, WORDS, SIZE>(go, orig).flatten() {
         from.set(pos, Some(dir));
         if found(pos) {
-- 
2.43.0


From 7d02f5a74e023c26b4890e1a16508249640f7185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 15/21] fix: never yield the origin again in breadth-first
 iteration

---
 src/sqrid/bf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/bf.rs b/src/sqrid/bf.rs
index ed105e0..43f9048 100644
--- a/src/sqrid/bf.rs
+++ b/src/sqrid/bf.rs
@@ -135,6 +135,7 @@ where
             return None;
         }
         for &(pos, _) in &front {
+            self.visited.insert(pos);
             for dir in Dir::iter::<D>() {
                 if let Some(next_pos) = (self.go)(pos, dir) {
                     if self.visited.contains(&next_pos) {
@@ -144,7 +145,6 @@ where
                     self.visited.insert(next_pos);
                 }
             }
-            self.visited.insert(pos);
         }
         Some(front)
     }
-- 
2.43.0


From 0c22c449bbac31f8b39b1657244208c5669603ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 16/21] fix: return the next cardinal direction of diagonals

---
 src/sqrid/dir.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/dir.rs b/src/sqrid/dir.rs
index a9ca60f..d473726 100644
--- a/src/sqrid/dir.rs
+++ b/src/sqrid/dir.rs
@@ -161,17 +161,18 @@ impl Dir {
     /// This function takes a generic const argument `D` that
     /// indicates if diagonals should be considered or not. If
     /// considered, the last `Dir` is [`Dir::NW`], otherwise it's
-    /// [`Dir::S`].
+    /// [`Dir::W`].
     #[inline]
     pub const fn next<const D: bool>(&self) -> Option<Self> {
         // PartialEq is no const, but this is:
         let index = *self as usize;
-        if (D && index == 7) || (!D && index == 6) {
+        if (D && index == 7) || (!D && index >= 6) {
             None
         } else if D {
-            Some(Dir::ALL8[(*self as usize) + 1])
+            Some(Dir::ALL8[index + 1])
         } else {
-            Some(Dir::ALL8[(*self as usize) + 2])
+            // Skip the diagonals, even if `self` is one
+            Some(Dir::ALL8[(index / 2 + 1) * 2])
         }
     }
 
-- 
2.43.0


From acbb355736903f8297fd82f580e7d234449973d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 17/21] fix: do not overflow the dimensions of wide integer
 tuples

---
 src/sqrid/mappos.rs   |  2 +-
 src/sqrid/postrait.rs | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index e8e233b..e22e1e8 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -112,7 +112,7 @@ where
         return Err(Error::DestinationUnreachable);
     }
     // Maximum iterations is the number of coordinates
-    let mut maxiter = P::width() * P::height() + 1;
+    let mut maxiter = P::WIDTH.saturating_mul(P::HEIGHT).saturating_add(1);
     while &pos != orig {
         let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;
         ret.push_front(-dir);
diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 15afda3..b874f45 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -114,19 +114,23 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     /// Return the width (x) supported by the position type
     #[inline]
     fn width() -> usize {
-        into_or_panic!(Self::Xtype::MAX) + 1
+        Self::Xtype::MAX
+            .try_into()
+            .map_or(usize::MAX, |max: usize| max.saturating_add(1))
     }
 
     /// Return the height (y) supported by the position type
     #[inline]
     fn height() -> usize {
-        into_or_panic!(Self::Ytype::MAX) + 1
+        Self::Ytype::MAX
+            .try_into()
+            .map_or(usize::MAX, |max: usize| max.saturating_add(1))
     }
 
     /// Return the total dimension supported by the position type
     #[inline]
     fn dimensions() -> usize {
-        Self::width() * Self::height()
+        Self::width().saturating_mul(Self::height())
     }
 
     /// First coordinate, top left, origin
-- 
2.43.0


From a032d27387010d0ac59fcea17319c64292a28c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 18/21] fix: exact size hints for position iterators

---
 src/sqrid/postrait.rs | 78 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 64 insertions(+), 14 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index b874f45..689f907 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -425,6 +425,39 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     }
 }
 
+/* Helpers for the iterators' size_hint */
+
+/// Number of values in the range `lo..=hi`; `None` if we can't tell
+fn span<T: BoundedInt>(lo: T, hi: T) -> Option<usize> {
+    let diff: usize = hi.checked_sub(lo)?.try_into().ok()?;
+    diff.checked_add(1)
+}
+
+/// Number of values left in an iteration over `lo..=hi`, with `next`
+/// as the next value
+fn size_hint_of<T: BoundedInt>(next: Option<T>, hi: T) -> (usize, Option<usize>) {
+    let size = match next {
+        Some(next) => span(next, hi),
+        None => Some(0),
+    };
+    (size.unwrap_or(0), size)
+}
+
+/// Number of values from the line and cell of `first` to the line and
+/// cell of `last`, both included, when the cells are in `lo..=hi`
+fn span_lines<L: BoundedInt, C: BoundedInt>(
+    first: (L, C),
+    last: (L, C),
+    lo: C,
+    hi: C,
+) -> Option<usize> {
+    let lines_before = span(first.0, last.0)? - 1;
+    lines_before
+        .checked_mul(span(lo, hi)?)?
+        .checked_add(span(lo, last.1)?)?
+        .checked_sub(span(lo, first.1)? - 1)
+}
+
 /* PosTIter */
 
 /// Iterator for positions
@@ -465,8 +498,22 @@ impl<const XFIRST: bool, P: PosT> Iterator for PosTIter<XFIRST, P> {
         old
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::dimensions();
-        (size, Some(size))
+        let size = match (self.cur, self.end) {
+            (Some(cur), Some(end)) if XFIRST => span_lines(
+                (cur.y(), cur.x()),
+                (end.y(), end.x()),
+                P::Xtype::MIN,
+                P::Xtype::MAX,
+            ),
+            (Some(cur), Some(end)) => span_lines(
+                (cur.x(), cur.y()),
+                (end.x(), end.y()),
+                P::Ytype::MIN,
+                P::Ytype::MAX,
+            ),
+            _ => Some(0),
+        };
+        (size.unwrap_or(0), size)
     }
 }
 
@@ -521,10 +568,7 @@ impl<P: PosT> Iterator for PosTIterRange<P> {
                 if p.x() < self.topleft.x() {
                     pos = P::new(self.topleft.x(), p.y()).ok();
                 } else if p.x() > self.botright.x() {
-                    pos = p
-                        .y()
-                        .inc()
-                        .and_then(|y| P::new(self.topleft.x(), y).ok());
+                    pos = p.y().inc().and_then(|y| P::new(self.topleft.x(), y).ok());
                 }
             }
             self.value = pos.filter(|p| p.y() <= self.botright.y());
@@ -534,8 +578,16 @@ impl<P: PosT> Iterator for PosTIterRange<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::width() * P::height();
-        (size, Some(size))
+        let size = match self.value {
+            Some(pos) => span_lines(
+                (pos.y(), pos.x()),
+                (self.botright.y(), self.botright.x()),
+                self.topleft.x(),
+                self.botright.x(),
+            ),
+            None => Some(0),
+        };
+        (size.unwrap_or(0), size)
     }
 }
 
@@ -558,8 +610,7 @@ impl<P: PosT> Iterator for PosTIterInX<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::height();
-        (size, Some(size))
+        size_hint_of(self.0.map(|pos| pos.y()), P::Ytype::MAX)
     }
 }
 
@@ -581,8 +632,7 @@ impl<P: PosT> Iterator for PosTIterInY<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::width();
-        (size, Some(size))
+        size_hint_of(self.0.map(|pos| pos.x()), P::Xtype::MAX)
     }
 }
 
@@ -593,9 +643,9 @@ macro_rules! postrait_integer_impl {
         impl PosT for ($xtype, $ytype) {
             type Xtype = $xtype;
             type Ytype = $ytype;
-            const WIDTH: usize = 
+            const WIDTH: usize =
                 ({ <$xtype>::MAX as isize - <$xtype>::MIN as isize } as usize).saturating_add(1);
-            const HEIGHT: usize = 
+            const HEIGHT: usize =
                 ({ <$ytype>::MAX as isize - <$ytype>::MIN as isize } as usize).saturating_add(1);
             fn new_(xy: ($xtype, $ytype)) -> Self {
                 xy
-- 
2.43.0


From 52e0221f6e14a23685666e17ee02a2e17d0d1a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 19/21] fix: bounds-check Grid accesses by position

---
 src/sqrid/grid.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index 116e6a3..4d7676c 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -129,20 +129,22 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
 
     /// Get a reference to an element of the grid.
     ///
-    /// We use get_unchecked internally, because we guarantee the
-    /// validity of the Pos index on construction.
+    /// Panics if the provided position is not inside the grid, which
+    /// can only happen with positions that bypassed validation (via
+    /// the public tuple fields, for instance).
     #[inline]
     pub fn get(&self, pos: &P) -> &T {
-        unsafe { self.0.get_unchecked(pos.to_usize()) }
+        &self.0[pos.to_usize()]
     }
 
     /// Get a mut reference to an element of the grid.
     ///
-    /// We use get_unchecked internally, because we guarantee the
-    /// validity of the Pos index on construction.
+    /// Panics if the provided position is not inside the grid, which
+    /// can only happen with positions that bypassed validation (via
+    /// the public tuple fields, for instance).
     #[inline]
     pub fn get_mut(&mut self, pos: &P) -> &mut T {
-        unsafe { self.0.get_unchecked_mut(pos.to_usize()) }
+        &mut self.0[pos.to_usize()]
     }
 
     /// Returns an iterator over the grid values
-- 
2.43.0


From 2b792808a71d49322079300cf44810853bfdf046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 20/21] fix: path reconstruction must not preallocate by
 distance

With integer tuples as positions, the manhattan distance between origin
and destination can be far larger than any path (or not even fit its
type): reserving twice that much panics with a capacity overflow, also
when the result should be an error.
---
 src/sqrid/mappos.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index e22e1e8..7af9ac4 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -105,8 +105,7 @@ where
     P: std::ops::Add<Dir, Output = Result<P, Error>>,
     MapPosDir: MapPos<Option<Dir>, P, WORDS, SIZE>,
 {
-    let distance = orig.manhattan(dest);
-    let mut ret = collections::VecDeque::<Dir>::with_capacity(2 * distance);
+    let mut ret = collections::VecDeque::<Dir>::new();
     let mut pos = *dest;
     if map.get(&pos).is_none() {
         return Err(Error::DestinationUnreachable);
-- 
2.43.0


From 5d283f444bfa9028a7f8cd5ad600a547a62564c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 21/21] fix: detect came-from loops without walking the whole
 position space

With integer tuples as positions there are up to 2^256 positions; the
limit of one step per position is never reached, and the path under
construction uses up all memory first. Remember a visited position
instead: a loop always comes back to it.
---
 src/sqrid/mappos.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index 7af9ac4..ebfa9da 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -110,18 +110,24 @@ where
     if map.get(&pos).is_none() {
         return Err(Error::DestinationUnreachable);
     }
-    // Maximum iterations is the number of coordinates
-    let mut maxiter = P::WIDTH.saturating_mul(P::HEIGHT).saturating_add(1);
+    // Loops are found by comparing with a position that was visited
+    // before, which is replaced at increasing intervals
+    let mut visited = pos;
+    let mut interval = 1usize;
+    let mut steps = 0usize;
     while &pos != orig {
         let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;
         ret.push_front(-dir);
         pos = (pos + dir).or(Err(Error::InvalidMovement))?;
-        maxiter -= 1;
-        if maxiter == 0 {
-            // We have iterated more than the total coordinates,
-            // there's definitely a loop:
+        if pos == visited {
             return Err(Error::Loop);
         }
+        steps += 1;
+        if steps == interval {
+            visited = pos;
+            interval *= 2;
+            steps = 0;
+        }
     }
     Ok(Vec::from(ret))
 }
-- 
2.43.0

