From fc2aaa01f5c487932706d7dd4569d3184b6edb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 1/7] fix: bops: link output chains by winding where several
 meet at a vertex

A point could only be recorded as the end of a single chain.  If more
than two output edges meet at a vertex (eg. two polygons touching at a
corner) edges of unrelated chains were linked to each other, which
panics in debug builds, and otherwise may return rings with holes
outside their exterior.
---
 src/bops/rings.rs | 46 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/bops/rings.rs b/src/bops/rings.rs
index 74a3d63..08f2580 100644
--- a/src/bops/rings.rs
+++ b/src/bops/rings.rs
@@ -1,6 +1,7 @@
 use geo::{Coordinate, GeoFloat, GeoNum, LineString, winding_order::{WindingOrder, Winding}};
 use itertools::Either;
 use log::{trace, debug};
+use smallvec::SmallVec;
 use std::collections::{BTreeMap, VecDeque};
 
 use crate::{line_or_point::LineOrPoint, SweepPoint, utils::winding_inverse};
@@ -8,7 +9,9 @@ use crate::{line_or_point::LineOrPoint, SweepPoint, utils::winding_inverse};
 #[derive(Debug, Clone)]
 pub struct Rings<T: GeoNum> {
     chains: Vec<Chain<T>>,
-    end_points: BTreeMap<SweepPoint<T>, Link>,
+    // More than one chain may end at a point: eg., if two output
+    // rings touch at a vertex.
+    end_points: BTreeMap<SweepPoint<T>, SmallVec<[Link; 2]>>,
 }
 
 impl<T: GeoNum> Default for Rings<T> {
@@ -96,8 +99,8 @@ impl<T: GeoFloat> Rings<T> {
         let right = geom.second();
 
         let (le, re) = (
-            self.end_points.get(&left).copied(),
-            self.end_points.get(&right).copied(),
+            self.take_end_point(left, winding.clone()),
+            self.take_end_point(right, winding_inverse(winding.clone())),
         );
 
         match (le, re) {
@@ -105,14 +108,14 @@ impl<T: GeoFloat> Rings<T> {
                 // New chain.
                 let idx = self.chains.len();
                 self.chains.push(Chain::new(left, right, winding));
-                self.end_points.insert(
+                self.add_end_point(
                     left,
                     Link {
                         idx,
                         to_front: true,
                     },
                 );
-                self.end_points.insert(
+                self.add_end_point(
                     right,
                     Link {
                         idx,
@@ -124,15 +127,13 @@ impl<T: GeoFloat> Rings<T> {
             (None, Some(i)) => {
                 // right matched against of chains[i]
                 self.push_link(i, left, winding_inverse(winding));
-                self.end_points.remove(&right).unwrap();
-                self.end_points.insert(left, i);
+                self.add_end_point(left, i);
                 trace!("\tadded to {i:?}: {left:?}");
             }
             (Some(i), None) => {
                 // left matched against of chains[i]
                 self.push_link(i, right, winding);
-                self.end_points.remove(&left).unwrap();
-                self.end_points.insert(right, i);
+                self.add_end_point(right, i);
                 trace!("\tadded to {i:?}: {right:?}");
 
             }
@@ -141,13 +142,36 @@ impl<T: GeoFloat> Rings<T> {
                 // need to add to the end_points tree, nor
                 // push_link.  Only need to connect the two chains.
                 self.link_chains(i, j, winding);
-                self.end_points.remove(&left).unwrap();
-                self.end_points.remove(&right).unwrap();
                 trace!("\tconnected chains {i:?} and {j:?}");
             }
         }
     }
 
+    fn add_end_point(&mut self, pt: SweepPoint<T>, link: Link) {
+        self.end_points.entry(pt).or_default().push(link);
+    }
+
+    /// Remove, and return a chain ending at `pt` that can be continued
+    /// by an edge leaving `pt` with the given `winding`.
+    fn take_end_point(&mut self, pt: SweepPoint<T>, winding: WindingOrder) -> Option<Link> {
+        let links = self.end_points.get_mut(&pt)?;
+        let chains = &self.chains;
+        let pos = links.iter().position(|l| {
+            let chain_winding = chains[l.idx].winding.clone();
+            winding
+                == if l.to_front {
+                    winding_inverse(chain_winding)
+                } else {
+                    chain_winding
+                }
+        })?;
+        let link = links.remove(pos);
+        if links.is_empty() {
+            self.end_points.remove(&pt);
+        }
+        Some(link)
+    }
+
     fn push_link(&mut self, l: Link, pt: SweepPoint<T>, winding: WindingOrder) {
         if l.to_front {
             self.chains[l.idx].push_front(pt);
-- 
2.43.0


From 417aaab6760e6859fc7e2ab35f550cb0c911e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 2/7] fix: splay: do not drop the tree recursively

The tree may be as deep as its size (eg. after inserting in order), so
dropping / clearing it, or dropping a partially consumed iterator,
overflowed the stack and aborted the process.
---
 src/splay/tree.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/splay/tree.rs b/src/splay/tree.rs
index 0901467..52eca44 100644
--- a/src/splay/tree.rs
+++ b/src/splay/tree.rs
@@ -34,8 +34,12 @@ where
     }
 
     pub fn clear(&mut self) {
-        self.root_mut().take();
+        let iter = IntoIter {
+            cur: self.root_mut().take(),
+            remaining: self.size,
+        };
         self.size = 0;
+        drop(iter);
     }
 
     pub fn contains(&self, key: &K) -> bool {
@@ -390,6 +394,14 @@ impl<K, V> DoubleEndedIterator for IntoIter<K, V> {
 
 impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
 
+/// Drop the remaining nodes one by one. The tree can be as deep as the
+/// number of nodes, and dropping it recursively may overflow the stack.
+impl<K, V> Drop for IntoIter<K, V> {
+    fn drop(&mut self) {
+        while self.next().is_some() {}
+    }
+}
+
 /// Performs a top-down splay operation on a tree rooted at `node`. This will
 /// modify the pointer to contain the new root of the tree once the splay
 /// operation is done. When finished, if `key` is in the tree, it will be at the
-- 
2.43.0


From 6d07f9a947b3a48bca9f46802bb084ff1b0ff583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:35 +0000
Subject: [PATCH 3/7] fix: monotone: never yield trapezoids with top below
 bottom

Rounding in the interpolation of the other chain could place the top
slightly below the bottom near a vertex.  This failed the assertions in
Trapz::area, and MonoPoly::new via cross_area.
---
 src/monotone/mono_poly.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/monotone/mono_poly.rs b/src/monotone/mono_poly.rs
index 0643181..2875541 100644
--- a/src/monotone/mono_poly.rs
+++ b/src/monotone/mono_poly.rs
@@ -254,13 +254,17 @@ impl<'a, T: GeoFloat> Scanner<'a, T> {
                 (new_top, bot[self.bot_idx], Ordering::Less, self.curr.x)
             }
         };
+        // The interpolated values may be off by rounding errors. Ensure that
+        // the top is never below the bottom, as is the case with the exact
+        // values; vertices are retained as is.
         if until < new_x {
+            let bot_y = interpolate(bot[self.bot_idx], new_bot, until);
             Some((
                 None,
                 Trip {
                     x: until,
-                    top: interpolate(top[self.top_idx], new_top, until),
-                    bot: interpolate(bot[self.bot_idx], new_bot, until),
+                    top: interpolate(top[self.top_idx], new_top, until).max(bot_y),
+                    bot: bot_y,
                 },
             ))
         } else {
@@ -270,7 +274,7 @@ impl<'a, T: GeoFloat> Scanner<'a, T> {
                     Trip {
                         x: new_top.x,
                         top: new_top.y,
-                        bot: interpolate(bot[self.bot_idx], new_bot, new_top.x),
+                        bot: interpolate(bot[self.bot_idx], new_bot, new_top.x).min(new_top.y),
                     },
                 )),
                 Ordering::Equal => Some((
@@ -285,7 +289,7 @@ impl<'a, T: GeoFloat> Scanner<'a, T> {
                     Some(ord),
                     Trip {
                         x: new_bot.x,
-                        top: interpolate(top[self.top_idx], new_top, new_bot.x),
+                        top: interpolate(top[self.top_idx], new_top, new_bot.x).max(new_bot.y),
                         bot: new_bot.y,
                     },
                 )),
-- 
2.43.0


From c661f8caebfb3f625a04dd734be794c02564d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 4/7] fix: crossings: do not reserve memory for the upper bound
 of size_hint

Iterators may report any upper bound (eg. usize::MAX), which made
collecting them panic with a capacity overflow.
---
 src/crossings.rs       | 7 +++----
 src/crossings/sweep.rs | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/crossings.rs b/src/crossings.rs
index 7ba6453..db0a0ef 100644
--- a/src/crossings.rs
+++ b/src/crossings.rs
@@ -168,10 +168,9 @@ where
 {
     fn from_iter<T: IntoIterator<Item = C>>(iter: T) -> Self {
         let iter = iter.into_iter();
-        let size = {
-            let (min_size, max_size) = iter.size_hint();
-            max_size.unwrap_or(min_size)
-        };
+        // The upper bound may be arbitrarily large, and must not be used to
+        // reserve memory.
+        let (size, _) = iter.size_hint();
         let sweep = Sweep::new(iter);
         let segments = Vec::with_capacity(4 * size);
         Self { sweep, segments }
diff --git a/src/crossings/sweep.rs b/src/crossings/sweep.rs
index 6878e98..2ba97d0 100644
--- a/src/crossings/sweep.rs
+++ b/src/crossings/sweep.rs
@@ -252,10 +252,9 @@ where
 {
     pub fn new<I: IntoIterator<Item = C>>(iter: I) -> Self {
         let iter = iter.into_iter();
-        let size = {
-            let (min_size, max_size) = iter.size_hint();
-            max_size.unwrap_or(min_size)
-        };
+        // The upper bound may be arbitrarily large, and must not be used to
+        // reserve memory.
+        let (size, _) = iter.size_hint();
 
         let mut sweep = Sweep {
             segments: Slab::with_capacity(16 * size).into(),
-- 
2.43.0


From 6073764393b7a6fb0ae3e5d0b03f832eca502a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 5/7] fix: bops: sort the segments at a sweep point stably

---
 src/bops/op.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bops/op.rs b/src/bops/op.rs
index 1f2064d..7dab141 100644
--- a/src/bops/op.rs
+++ b/src/bops/op.rs
@@ -74,7 +74,10 @@ impl<T: Float> Op<T> {
                     }
                 })
             }
-            iter.intersections_mut().sort_unstable_by(compare_crossings);
+            // The sort must be stable: of overlapping segments, the first one
+            // reported is the active one, and has to stay first for
+            // `prev_active` below.
+            iter.intersections_mut().sort_by(compare_crossings);
 
             // Process all end-segments.
             let mut idx = 0;
-- 
2.43.0


From 9a6b5e87dd24253724ccae92ab37827a724cd10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:17 +0000
Subject: [PATCH 6/7] fix: bops: pair the output edges at a vertex by angle

Linking by winding alone lets rings cross where six or more
output edges meet at a vertex.
---
 src/bops/rings.rs | 150 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 109 insertions(+), 41 deletions(-)

diff --git a/src/bops/rings.rs b/src/bops/rings.rs
index 08f2580..961e2a1 100644
--- a/src/bops/rings.rs
+++ b/src/bops/rings.rs
@@ -1,29 +1,39 @@
-use geo::{Coordinate, GeoFloat, GeoNum, LineString, winding_order::{WindingOrder, Winding}};
+use geo::{
+    kernels::{Kernel, Orientation},
+    winding_order::{Winding, WindingOrder},
+    Coordinate, GeoFloat, GeoNum, LineString,
+};
 use itertools::Either;
 use log::{trace, debug};
-use smallvec::SmallVec;
-use std::collections::{BTreeMap, VecDeque};
+use std::{
+    cmp::Ordering,
+    collections::{BTreeMap, VecDeque},
+};
 
 use crate::{line_or_point::LineOrPoint, SweepPoint, utils::winding_inverse};
 
 #[derive(Debug, Clone)]
 pub struct Rings<T: GeoNum> {
     chains: Vec<Chain<T>>,
-    // More than one chain may end at a point: eg., if two output
-    // rings touch at a vertex.
-    end_points: BTreeMap<SweepPoint<T>, SmallVec<[Link; 2]>>,
+    // Edges to be linked, along with their winding.
+    edges: Vec<(LineOrPoint<T>, WindingOrder)>,
+    // Ends of chains yet to be linked.
+    end_points: BTreeMap<EdgeEnd, Link>,
 }
 
 impl<T: GeoNum> Default for Rings<T> {
     fn default() -> Self {
         Self {
             chains: Default::default(),
+            edges: Default::default(),
             end_points: Default::default(),
         }
     }
 }
 impl<T: GeoFloat> Rings<T> {
     pub fn finish(mut self) -> Vec<Ring<T>> {
+        self.link_edges();
+
         let mut output = vec![];
         let mut curr_chain_idx = self.chains.len();
         trace!("finalizing {n} chains", n = curr_chain_idx);
@@ -95,28 +105,104 @@ impl<T: GeoFloat> Rings<T> {
 
     pub fn add_edge(&mut self, geom: LineOrPoint<T>, winding: WindingOrder) {
         trace!("Rings.add_edge: {geom:?} {winding:?}");
+        self.edges.push((geom, winding));
+    }
+
+    /// Construct the chains from the edges.
+    fn link_edges(&mut self) {
+        let mates = self.mates();
+        for idx in 0..self.edges.len() {
+            let (geom, winding) = self.edges[idx].clone();
+            self.link_edge(idx, geom, winding, &mates);
+        }
+    }
+
+    /// Pairs up the ends of the edges at each vertex.
+    ///
+    /// Any number of edges may end at a vertex: eg., if output rings touch
+    /// there. The edges are paired around the filled sectors at the vertex, so
+    /// that the rings do not cross each other.
+    fn mates(&self) -> BTreeMap<EdgeEnd, EdgeEnd> {
+        let mut vertices: BTreeMap<SweepPoint<T>, Vec<EdgeEnd>> = BTreeMap::new();
+        for (idx, (geom, _)) in self.edges.iter().enumerate() {
+            for &at_left in &[true, false] {
+                let pt = if at_left { geom.first() } else { geom.second() };
+                vertices.entry(pt).or_default().push(EdgeEnd { idx, at_left });
+            }
+        }
+
+        let mut mates = BTreeMap::new();
+        for (pt, mut ends) in vertices {
+            let other = |end: &EdgeEnd| {
+                let (geom, _) = &self.edges[end.idx];
+                if end.at_left { geom.second() } else { geom.first() }.coord()
+            };
+            // Is the sector counter-clockwise of this edge filled?
+            let is_filled = |end: &EdgeEnd| {
+                (self.edges[end.idx].1 == WindingOrder::CounterClockwise) == end.at_left
+            };
+
+            // Counter-clockwise, starting from straight down.
+            ends.sort_by(|a, b| {
+                b.at_left.cmp(&a.at_left).then_with(|| {
+                    match T::Ker::orient2d(pt.coord(), other(a), other(b)) {
+                        Orientation::CounterClockwise => Ordering::Less,
+                        Orientation::Clockwise => Ordering::Greater,
+                        Orientation::Collinear => Ordering::Equal,
+                    }
+                })
+            });
+            let start = ends.iter().position(is_filled).unwrap_or(0);
+            ends.rotate_left(start);
+
+            let mut pending: Vec<EdgeEnd> = vec![];
+            for end in ends {
+                match pending.last() {
+                    Some(last) if is_filled(last) != is_filled(&end) => {
+                        let last = pending.pop().unwrap();
+                        mates.insert(last, end);
+                        mates.insert(end, last);
+                    }
+                    _ => pending.push(end),
+                }
+            }
+        }
+        mates
+    }
+
+    fn link_edge(
+        &mut self,
+        idx: usize,
+        geom: LineOrPoint<T>,
+        winding: WindingOrder,
+        mates: &BTreeMap<EdgeEnd, EdgeEnd>,
+    ) {
         let left = geom.first();
         let right = geom.second();
+        let left_end = EdgeEnd { idx, at_left: true };
+        let right_end = EdgeEnd { idx, at_left: false };
 
-        let (le, re) = (
-            self.take_end_point(left, winding.clone()),
-            self.take_end_point(right, winding_inverse(winding.clone())),
-        );
+        let mut take_end_point = |end| {
+            mates
+                .get(&end)
+                .and_then(|mate| self.end_points.remove(mate))
+        };
+        let (le, re) = (take_end_point(left_end), take_end_point(right_end));
 
         match (le, re) {
             (None, None) => {
                 // New chain.
                 let idx = self.chains.len();
                 self.chains.push(Chain::new(left, right, winding));
-                self.add_end_point(
-                    left,
+                self.end_points.insert(
+                    left_end,
                     Link {
                         idx,
                         to_front: true,
                     },
                 );
-                self.add_end_point(
-                    right,
+                self.end_points.insert(
+                    right_end,
                     Link {
                         idx,
                         to_front: false,
@@ -127,13 +213,13 @@ impl<T: GeoFloat> Rings<T> {
             (None, Some(i)) => {
                 // right matched against of chains[i]
                 self.push_link(i, left, winding_inverse(winding));
-                self.add_end_point(left, i);
+                self.end_points.insert(left_end, i);
                 trace!("\tadded to {i:?}: {left:?}");
             }
             (Some(i), None) => {
                 // left matched against of chains[i]
                 self.push_link(i, right, winding);
-                self.add_end_point(right, i);
+                self.end_points.insert(right_end, i);
                 trace!("\tadded to {i:?}: {right:?}");
 
             }
@@ -147,31 +233,6 @@ impl<T: GeoFloat> Rings<T> {
         }
     }
 
-    fn add_end_point(&mut self, pt: SweepPoint<T>, link: Link) {
-        self.end_points.entry(pt).or_default().push(link);
-    }
-
-    /// Remove, and return a chain ending at `pt` that can be continued
-    /// by an edge leaving `pt` with the given `winding`.
-    fn take_end_point(&mut self, pt: SweepPoint<T>, winding: WindingOrder) -> Option<Link> {
-        let links = self.end_points.get_mut(&pt)?;
-        let chains = &self.chains;
-        let pos = links.iter().position(|l| {
-            let chain_winding = chains[l.idx].winding.clone();
-            winding
-                == if l.to_front {
-                    winding_inverse(chain_winding)
-                } else {
-                    chain_winding
-                }
-        })?;
-        let link = links.remove(pos);
-        if links.is_empty() {
-            self.end_points.remove(&pt);
-        }
-        Some(link)
-    }
-
     fn push_link(&mut self, l: Link, pt: SweepPoint<T>, winding: WindingOrder) {
         if l.to_front {
             self.chains[l.idx].push_front(pt);
@@ -275,6 +336,13 @@ impl<T: GeoNum> Chain<T> {
     }
 }
 
+/// An end point of an edge.
+#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+struct EdgeEnd {
+    idx: usize,
+    at_left: bool,
+}
+
 #[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord)]
 struct Link {
     idx: usize,
-- 
2.43.0


From 187256d96de0dcbdbb396c1edfd1815120c3de9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 7/7] fix: Intersections: do not pair a segment with itself or
 repeat a pair

Where an intersection point is computed beyond the (lexicographically) last
point of a nearly vertical segment, the segments leading back to that point are
swept in the opposite direction, and were taken for continuing ones.
---
 src/crossings.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/crossings.rs b/src/crossings.rs
index db0a0ef..d2e868d 100644
--- a/src/crossings.rs
+++ b/src/crossings.rs
@@ -100,6 +100,21 @@ pub struct Crossing<C: Crossable> {
     pub(crate) key: usize,
 }
 
+impl<C: Crossable> Crossing<C> {
+    /// Whether the input continues along this segment, as seen from the
+    /// intersection point.
+    ///
+    /// This is `at_left`, except where, due to finite precision, a point of
+    /// intersection was computed beyond the (lexicographically) last point of
+    /// the input. The segments that lead back from there to that last point
+    /// are swept in the opposite direction.
+    fn is_continued(&self) -> bool {
+        let input = LineOrPoint::from(self.crossable.line());
+        let is_reversed = input.is_line() && self.line.first() >= input.second();
+        self.at_left != is_reversed
+    }
+}
+
 /// Iterator that yields all crossings.
 ///
 /// Yields all end points, intersections and overlaps of a set of
@@ -283,7 +298,7 @@ where
             debug_assert_eq!(si.at_left, sj.at_left);
             si.at_left && (si.first_segment || sj.first_segment)
         } else {
-            (!si.at_left || si.first_segment) && (!sj.at_left || sj.first_segment)
+            (!si.is_continued() || si.first_segment) && (!sj.is_continued() || sj.first_segment)
         };
 
         if should_compute {
-- 
2.43.0

