From 7590a6680dd7aeb0ef022549e0f215200741d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:23 +0000
Subject: [PATCH 01/16] fix: normalize raw intervals to their canonical form

An open or half-open interval with a single point normalized to Closed(p, p)
and one without points to a reversed Closed, so equal intervals compared
unequal and empty ones iterated a bogus point.
---
 src/normalize.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index dd0cdaf..7a43368 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -77,24 +77,24 @@ pub trait Normalize {
 // }
 
 /// Specialization for [`Finite`] intervals.
-impl<T> Normalize for RawInterval<T> where T: Finite {
+impl<T> Normalize for RawInterval<T> where T: Finite + Ord {
     fn normalize(&mut self) {
         use RawInterval::*;
         *self = match std::mem::replace(self, Empty) {
             Empty           => Empty,
             Point(p)        => Point(p),
             Open(l, r)      => match (l.succ(), r.pred()) {
-                (Some(l), Some(r)) => Closed(l, r),
+                (Some(l), Some(r)) => Self::closed(l, r),
                 _                  => Empty,
             },
-            LeftOpen(l, r)  => l.succ().map_or(Empty, |l| Closed(l, r)),
-            RightOpen(l, r) => r.pred().map_or(Empty, |r| Closed(l, r)),
-            Closed(l, r)    => Closed(l, r),
-            UpTo(r)         => r.pred().map_or(Empty, |r| Closed(T::MINIMUM, r)),
-            UpFrom(l)       => l.succ().map_or(Empty, |l| Closed(l, T::MAXIMUM)),
-            To(p)           => Closed(T::MINIMUM, p),
-            From(p)         => Closed(p, T::MAXIMUM),
-            Full            => Closed(T::MINIMUM, T::MAXIMUM),
+            LeftOpen(l, r)  => l.succ().map_or(Empty, |l| Self::closed(l, r)),
+            RightOpen(l, r) => r.pred().map_or(Empty, |r| Self::closed(l, r)),
+            Closed(l, r)    => Self::closed(l, r),
+            UpTo(r)         => r.pred().map_or(Empty, |r| Self::closed(T::MINIMUM, r)),
+            UpFrom(l)       => l.succ().map_or(Empty, |l| Self::closed(l, T::MAXIMUM)),
+            To(p)           => Self::closed(T::MINIMUM, p),
+            From(p)         => Self::closed(p, T::MAXIMUM),
+            Full            => Self::closed(T::MINIMUM, T::MAXIMUM),
         }
     }
 
-- 
2.43.0


From 755dcf555e884ab75225cdd3aaa00447c113bd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 02/16] fix: denormalize To and From outward

To(p) contains p, so its open form ends at the successor of p (and From(p)
begins at the predecessor); stepping the other way dropped points.
---
 src/normalize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 7a43368..db5bfa7 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -125,8 +125,8 @@ impl<T> Normalize for RawInterval<T> where T: Finite + Ord {
             },
             UpTo(r)         => UpTo(r),
             UpFrom(l)       => UpFrom(l),
-            To(p)           => p.pred().map_or(Empty, |r| UpTo(r)),
-            From(p)         => p.succ().map_or(Empty, |l| UpFrom(l)),
+            To(p)           => p.succ().map_or(Full, |r| UpTo(r)),
+            From(p)         => p.pred().map_or(Full, |l| UpFrom(l)),
             Full            => Full,
         }
     }
-- 
2.43.0


From 9f0f83a9ce08fda990d5530d3d66d210eff1eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 03/16] fix: subtract from tine trees in place without losing
 pieces

minus_in_place inserted the wrong tines (or reached unreachable! and panicked)
when the subtracted interval met point or excluded-point tines, and Tine::minus
kept the wrong side of an excluded point.
---
 src/tine.rs      |   6 +-
 src/tine_tree.rs | 168 +++++++----------------------------------------
 2 files changed, 28 insertions(+), 146 deletions(-)

diff --git a/src/tine.rs b/src/tine.rs
index a4db9d1..34d6966 100644
--- a/src/tine.rs
+++ b/src/tine.rs
@@ -226,6 +226,7 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Lower(_),          &Lower(_))          => None,
 
             (Lower(Include(l)), &Point(Include(_))) => Some(Lower(Exclude(l))),
+            (Lower(Exclude(l)), &Point(Include(_))) => Some(Lower(Exclude(l))),
             (Lower(_),          &Point(_))          => None,
 
             (Lower(Include(l)), &Upper(Include(_))) => Some(Lower(Exclude(l))),
@@ -238,10 +239,10 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Point(Include(_)), &Upper(Include(_))) => None,
             (Point(Include(l)), _)                  => Some(Point(Include(l))),
 
-            (Point(Exclude(l)), &Lower(_))          => Some(Lower(Exclude(l))),
+            (Point(Exclude(l)), &Lower(_))          => Some(Upper(Exclude(l))),
             (Point(Exclude(l)), &Point(Include(_))) => Some(Point(Exclude(l))),
             (Point(Exclude(_)), &Point(Exclude(_))) => None,
-            (Point(Exclude(l)), &Upper(_))          => Some(Upper(Exclude(l))),
+            (Point(Exclude(l)), &Upper(_))          => Some(Lower(Exclude(l))),
 
             (Upper(Include(l)), &Lower(Include(_))) => Some(Upper(Exclude(l))),
             (Upper(Include(l)), &Lower(Exclude(_))) => Some(Upper(Include(l))),
@@ -249,6 +250,7 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Upper(Exclude(l)), &Lower(Exclude(_))) => Some(Upper(Exclude(l))),
 
             (Upper(Include(l)), &Point(Include(_))) => Some(Upper(Exclude(l))),
+            (Upper(Exclude(l)), &Point(Include(_))) => Some(Upper(Exclude(l))),
             (Upper(_),          &Point(_))          => None,
 
             (Upper(Include(l)), &Upper(Exclude(_))) => Some(Point(Include(l))),
diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index adc129b..654e590 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -631,81 +631,29 @@ impl<T> TineTree<T> where T: Ord + Clone {
     fn minus_point_interval(&mut self, p: Tine<T>) {
         let mut ts = self.exterior_split_for_point_interval(&p);
 
-        let p = if ts[1].is_some() {
-            if let Some(merged) = ts[1]
-                .take()
-                .and_then(|pt| pt.minus(&p)) 
-            {
-                merged
-            } else {
-                // If the point annhilates, then we've already joined two
-                // intervals by removing the Point(Exclude(_)) from the tree in
-                // minus_split_tree_point. So nothing else needs to happen.
-                return;
-            }
-        } else {
-            p
-        };
-        
         // We need to detect whether the point is inside or outside an interval.
-        // To do this, we look at the tines before and after the interval.
+        // To do this, we look at the tine before the point.
         let open_before = ts[0]
             .as_ref()
             .is_some_and(Tine::is_lower_bound);
-        let closed_after = ts[2]
-            .as_ref()
-            .is_some_and(Tine::is_upper_bound);
 
-        // Insert tine into the tree, ignoring it if it is wrapped by a
-        // surrounding interval.
-        // NOTE: We cannot have a Point(Exclude) here, because those will never
-        // result from an interval-tine conversion.
-        match (open_before, closed_after) {
-            (true,  true)  => {
-                // (   )
-                //   |
-                self.0.insert(p.invert());
-            },
-            (true,  false) => {
-                // ( )   ( )
-                //   |
-                debug_assert!(p.is_upper_bound());
-                self.0.insert(p);
-            },
-            (false, true)  => {
-                // ( )   ( )
-                //       |
-                debug_assert!(p.is_lower_bound());
-                self.0.insert(p);
-            },
-            (false, false) => {
-                // ( )   ( )
-                //     |
-                // Do nothing.
-            },
-        }
+        // Merge the tine if it overlaps. Otherwise, a tine is only needed when
+        // the point is wrapped by a surrounding interval.
+        let merged = match ts[1].take() {
+            Some(tine)          => tine.minus(&p),
+            None if open_before => Some(p.invert()),
+            None                => None,
+        };
+
+        if let Some(p) = merged { self.0.insert(p); }
     }
 
 
     /// Internal implementation of `minus_in_place`, handling the proper
     /// interval case.
-    #[allow(clippy::items_after_statements)]
     fn minus_proper_interval(&mut self, l: Tine<T>, u: Tine<T>) {
         let mut ts = self.exterior_split_for_proper_interval(&l, &u);
 
-        // Merge tines if overlap
-        let merged_l = if ts[1].is_some() {
-            ts[1].take().and_then(|lower| lower.minus(&l))
-        } else {
-            Some(l)
-        };
-
-        let merged_u = if ts[2].is_some() {
-            ts[2].take().and_then(|upper| upper.minus(&u))
-        } else {
-            Some(u)
-        };
-
         // We need to detect whether the interval is inside or outside an 
         // existing interval. To do this, we look at the tines before and after
         // the interval.
@@ -715,91 +663,23 @@ impl<T> TineTree<T> where T: Ord + Clone {
         let closed_after = ts[3]
             .as_ref()
             .is_some_and(Tine::is_upper_bound);
-        
-        // Insert tines into the tree, ignoring them if the are not wrapped by a
-        // surounding interval.
-        use Bound::*;
-        use Tine::*;
-        match (open_before, merged_l, merged_u, closed_after) {
-            (true,  Some(l), Some(u), true)  => {
-                // ( ) ( )
-                //  (   )
-                //     O R
-                // ( ) ( )
-                //   ( )
-                self.0.insert(if l.is_upper_bound() {l} else {l.invert()});
-                self.0.insert(if u.is_lower_bound() {u} else {u.invert()});
-            },
-            (true,  Some(l), upper,   false)  => {
-                // ( )
-                //  ( )
-                //     O R
-                // ( )
-                //   ( )
-                //     O R
-                // (   )
-                //   ( )
-                //     O R
-                // (   ]
-                //   ( )
-                //     O R
-                self.0.insert(if l.is_upper_bound() {l} else {l.invert()});
-                if let Some(Point(Include(p))) = upper {
-                    self.0.insert(Point(Include(p)));
-                }
-            },
-            (false, lower,   Some(u), true)   => {
-                //  ( )
-                // ( )
-                //     O R
-                //   ( )
-                // ( )
-                //     O R
-                // (   )
-                // ( )
-                //     O R
-                // [   )
-                // ( )
-                self.0.insert(if u.is_lower_bound() {u} else {u.invert()});
-                if let Some(Point(Include(p))) = lower {
-                    self.0.insert(Point(Include(p)));
-                }
-            },
-            (false, Some(l), Some(u), false)  => {
-                //  ( )
-                // (   )
-                //     O R
-                // [ ]
-                // ( )
-                if l.is_point_include() { self.0.insert(l); }
-                if u.is_point_include() { self.0.insert(u); }
-            },
 
-            (false, Some(l), None,    false)  => {
-                // [ )
-                // ( )
-                //     O R
-                //   |
-                // ( ]
-                if l.is_point_include() { self.0.insert(l); }
-            },
+        // Merge tines if overlap. Otherwise, a tine is only needed when it is
+        // wrapped by a surrounding interval.
+        let merged_l = match ts[1].take() {
+            Some(lower)         => lower.minus(&l),
+            None if open_before => Some(l.invert()),
+            None                => None,
+        };
 
-            (false, None,    Some(u), false)  => {
-                // ( ]
-                // ( )
-                //     O R
-                // |
-                // [ )
-                if u.is_point_include() { self.0.insert(u); }
-            },
+        let merged_u = match ts[2].take() {
+            Some(upper)          => upper.minus(&u),
+            None if closed_after => Some(u.invert()),
+            None                 => None,
+        };
 
-            (false, None,    None,    false)  => {
-                // ( )
-                // ( )
-                // Do nothing.
-            },
-            _ => unreachable!("invalid bounds for minus interval"),
-        }
+        if let Some(l) = merged_l { self.0.insert(l); }
+        if let Some(u) = merged_u { self.0.insert(u); }
     }
 
     /// Splits the tine tree into three sections for an interval-like Tine to
-- 
2.43.0


From fc236551d3371576f40841f160127f5dff61b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 04/16] fix: intersect tine trees in place only within
 surrounding intervals

intersect_in_place inserted a bound when the other bound was wrapped by an
interval, or panicked, in many combinations of surrounding and inner tines.
---
 src/tine_tree.rs | 93 +++++++++---------------------------------------
 1 file changed, 17 insertions(+), 76 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 654e590..966e6b4 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -323,31 +323,9 @@ impl<T> TineTree<T> where T: Ord + Clone {
     fn intersect_proper_interval(&mut self, l: Tine<T>, u: Tine<T>) {
         let mut ts = self.interior_split_for_proper_interval(&l, &u);
 
-        // Merge tines if overlap or use given ones. We should only have `None`
-        // in the case of a intersection annhiliation.
-        let merged_l = if ts[2].is_some() {
-            ts[2].take().and_then(|lower| lower.intersect(&l))
-        } else {
-            Some(l)
-        };
-
-        let merged_u = if ts[3].is_some() {
-            ts[3].take().and_then(|upper| upper.intersect(&u))
-        } else {
-            Some(u)
-        };
-        
-        // Ensure inner tines have the correct bounds.
-        debug_assert!(merged_l
-            .as_ref()
-            .map_or(true, Tine::is_lower_bound));
-        debug_assert!(merged_u
-            .as_ref()
-            .map_or(true, Tine::is_upper_bound));
-
-        
-        // We need to detect whether the point is inside or outside an interval.
-        // To do this, we look at the tines inside and outside the interval.
+        // We need to detect whether the bounds are inside or outside an
+        // existing interval. To do this, we look at the tines before and after
+        // the interval.
         let open_before = ts[0]
             .as_ref()
             .is_some_and(Tine::is_lower_bound);
@@ -355,59 +333,22 @@ impl<T> TineTree<T> where T: Ord + Clone {
             .as_ref()
             .is_some_and(Tine::is_upper_bound);
 
-        let in_l = ts[1]
-            .as_ref()
-            .is_some_and(Tine::is_upper_bound);
-        let in_r = ts[4]
-            .as_ref()
-            .is_some_and(Tine::is_lower_bound);
+        // Merge tines if overlap. Otherwise, the given tine is only needed when
+        // it is wrapped by a surrounding interval.
+        let merged_l = match ts[2].take() {
+            Some(lower)         => lower.intersect(&l),
+            None if open_before => Some(l),
+            None                => None,
+        };
 
+        let merged_u = match ts[3].take() {
+            Some(upper)          => upper.intersect(&u),
+            None if closed_after => Some(u),
+            None                 => None,
+        };
 
-        // Insert tines into the tree, ignoring them if the are not wrapped by a
-        // surrounding interval, or not wrapping a surrounding interval.
-        match (open_before, merged_l, in_l, in_r, merged_u, closed_after) {
-            (_,     Some(l), true,  true,  Some(u), _   )  |
-            (_,     Some(l), false, false, Some(u), _   )  => {
-                // (   ) (   )
-                //   (     )
-                //     O R
-                // (     )
-                //   ( )
-                //     O R
-                // (     )
-                // (  )
-                //     O R
-                // (     )
-                //    (  )
-                self.0.insert(l);
-                self.0.insert(u);
-            },
-            (true, Some(l),  true,  false, _,       false) => {
-                // (   )
-                //   (   )
-                //     O R
-                // (   ) ( )
-                //   (   )
-                self.0.insert(l);
-            },
-            (false, _,       false, true,  Some(u), true)  => {
-                //   (   )
-                // (   )
-                //     O R
-                // ( ) (   )
-                //   (   )
-                self.0.insert(u);
-            },
-            (false, _,       false, false, _,       false) => {
-                // )     (
-                // (     )
-                //     O R
-                //   ( )
-                // (     )
-                /* Do nothing. */
-            },
-            _ => unreachable!("invalid bounds for intersection interval"),
-        }
+        if let Some(l) = merged_l { self.0.insert(l); }
+        if let Some(u) = merged_u { self.0.insert(u); }
     }
 
     /// Unions the given interval with the contents of the tree.
-- 
2.43.0


From 57c347eaf5992e5206246b207dd1808d56b21727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:17 +0000
Subject: [PATCH 05/16] fix: intersect tine trees without skipping intervals

The merge dropped the other tree's current interval whenever it did not overlap
and never revisited one that spans several intervals, losing points.
---
 src/tine_tree.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 966e6b4..531bb1e 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -181,23 +181,19 @@ impl<T> TineTree<T> where T: Ord + Clone {
     #[must_use]
     pub fn intersect(&self, other: &Self) -> Self {
         let mut intersection = Self::new();
-        let self_intervals = self.interval_iter();
+        let mut self_intervals = self.interval_iter();
         let mut other_intervals = other.interval_iter();
+        let mut self_next = self_intervals.next();
+        let mut other_next = other_intervals.next();
 
-        for self_interval in self_intervals {
-            'segment: loop {
-                if let Some(other_interval) = other_intervals.next() {
-                    let i = self_interval.intersect(&other_interval);
-                    if i.is_empty() {
-                        // Nothing else overlaps in this segment.
-                        break 'segment;
-                    }
+        while let (Some(a), Some(b)) = (&self_next, &other_next) {
+            intersection.union_in_place(&a.intersect(b));
 
-                    intersection.union_in_place(&i);
-                } else {
-                    // Nothing else overlaps anywhere.
-                    return intersection;
-                }
+            // Nothing else overlaps the interval which ends first.
+            if a.upper_bound().map(Tine::Upper) < b.upper_bound().map(Tine::Upper) {
+                self_next = self_intervals.next();
+            } else {
+                other_next = other_intervals.next();
             }
         }
         intersection
-- 
2.43.0


From d8809325975a92213f7770ac940442852cc4ec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:39 +0000
Subject: [PATCH 06/16] fix: iterate tine trees correctly from the back

next_back saved a shared excluded point on the wrong side, and a shared point
taken from the other end was handed out again.
---
 src/tine_tree.rs | 72 +++++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 531bb1e..e4b801b 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -850,13 +850,17 @@ impl<T> Iterator for IntoIter<T> where T: Ord + Clone {
                     // Next tine must be a lower bound of an interval.
                     debug_assert!(lower.is_lower_bound());
 
-                    let upper = self.inner.next()
-                        .or_else(|| self.saved_upper.take())
-                        .expect("interval is not partial");
-
-                    if upper.is_point_exclude() {
-                        self.saved_lower = Some(upper.clone());
-                    }
+                    let upper = if let Some(upper) = self.inner.next() {
+                        if upper.is_point_exclude() {
+                            self.saved_lower = Some(upper.clone());
+                        }
+                        upper
+                    } else {
+                        // The other end has already used the upper side.
+                        self.saved_upper
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be an upper bound.
                     debug_assert!(upper.is_upper_bound());
@@ -886,13 +890,17 @@ impl<T> DoubleEndedIterator for IntoIter<T>
                     // Next tine must be an upper bound of an interval.
                     debug_assert!(upper.is_upper_bound());
 
-                    let lower = self.inner.next_back()
-                        .or_else(|| self.saved_lower.take())
-                        .expect("interval is not partial");
-
-                    if lower.is_point_exclude() {
-                        self.saved_lower = Some(lower.clone());
-                    }
+                    let lower = if let Some(lower) = self.inner.next_back() {
+                        if lower.is_point_exclude() {
+                            self.saved_upper = Some(lower.clone());
+                        }
+                        lower
+                    } else {
+                        // The other end has already used the lower side.
+                        self.saved_lower
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be a lower bound.
                     debug_assert!(lower.is_lower_bound());
@@ -939,13 +947,17 @@ impl<'t, T> Iterator for Iter<'t, T>
                     // Next tine must be a lower bound of an interval.
                     debug_assert!(lower.is_lower_bound());
 
-                    let upper = self.tine_iter.next().cloned()
-                        .or_else(|| self.saved_upper.take())
-                        .expect("interval is not partial");
-
-                    if upper.is_point_exclude() {
-                        self.saved_lower = Some(upper.clone());
-                    }
+                    let upper = if let Some(upper) = self.tine_iter.next().cloned() {
+                        if upper.is_point_exclude() {
+                            self.saved_lower = Some(upper.clone());
+                        }
+                        upper
+                    } else {
+                        // The other end has already used the upper side.
+                        self.saved_upper
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be an upper bound.
                     debug_assert!(upper.is_upper_bound());
@@ -976,13 +988,17 @@ impl<'t, T> DoubleEndedIterator for Iter<'t, T>
                     // Next tine must be an upper bound of an interval.
                     debug_assert!(upper.is_upper_bound());
 
-                    let lower = self.tine_iter.next_back().cloned()
-                        .or_else(|| self.saved_lower.take())
-                        .expect("interval is not partial");
-
-                    if lower.is_point_exclude() {
-                        self.saved_lower = Some(lower.clone());
-                    }
+                    let lower = if let Some(lower) = self.tine_iter.next_back().cloned() {
+                        if lower.is_point_exclude() {
+                            self.saved_upper = Some(lower.clone());
+                        }
+                        lower
+                    } else {
+                        // The other end has already used the lower side.
+                        self.saved_lower
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be a lower bound.
                     debug_assert!(lower.is_lower_bound());
-- 
2.43.0


From 48d6f04f74ccae7a600801b77f9ced353ca60fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 07/16] fix: keep front and back apart when iterating selection
 points

Both ends of Iter and IntoIter consumed one shared interval, so mixing next and
next_back delivered points out of order.
---
 src/selection.rs | 57 +++++++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index 9368290..2b4106d 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -873,7 +873,8 @@ impl<T> Selection<T>
     pub fn iter(&self) -> Iter<'_, T> {
         Iter {
             intervals: self.0.interval_iter(),
-            current: Interval::empty().iter(),
+            front: Interval::empty().iter(),
+            back: Interval::empty().iter(),
         }
     }
 }
@@ -887,7 +888,8 @@ impl<T> IntoIterator for Selection<T>
     fn into_iter(self) -> Self::IntoIter {
         IntoIter {
             intervals: self.0.into_iter(),
-            current: Interval::empty().iter(),
+            front: Interval::empty().iter(),
+            back: Interval::empty().iter(),
         }
     }
 }
@@ -901,7 +903,8 @@ impl<'a, T> IntoIterator for &'a Selection<T>
     fn into_iter(self) -> Self::IntoIter {
         Iter {
             intervals: self.0.interval_iter(),
-            current: Interval::empty().iter(),
+            front: Interval::empty().iter(),
+            back: Interval::empty().iter(),
         }
     }
 }
@@ -1056,8 +1059,10 @@ pub struct IntoIter<T>
 {
     /// The interval iterator of the `TineTree`.
     intervals: crate::tine_tree::IntoIter<T>,
-    /// The current interval.
-    current: crate::interval::Iter<T>,
+    /// The interval being consumed from the front.
+    front: crate::interval::Iter<T>,
+    /// The interval being consumed from the back.
+    back: crate::interval::Iter<T>,
 }
 
 impl<T> Iterator for IntoIter<T>
@@ -1066,20 +1071,21 @@ impl<T> Iterator for IntoIter<T>
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(next) = self.current.next() {
+        if let Some(next) = self.front.next() {
             return Some(next);
         }
 
-        self.current = match self.intervals
+        self.front = match self.intervals
             .next()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            // Only the interval opened by the other end is left.
+            None           => return self.back.next(),
         };
 
-        self.current.next()
+        self.front.next()
     }
 }
 
@@ -1087,20 +1093,21 @@ impl<T> DoubleEndedIterator for IntoIter<T>
     where T: Ord + Clone + Finite,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if let Some(next_back) = self.current.next_back() {
+        if let Some(next_back) = self.back.next_back() {
             return Some(next_back);
         }
 
-        self.current = match self.intervals
+        self.back = match self.intervals
             .next_back()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            // Only the interval opened by the other end is left.
+            None           => return self.front.next_back(),
         };
 
-        self.current.next_back()
+        self.back.next_back()
     }
 }
 
@@ -1118,8 +1125,10 @@ pub struct Iter<'t, T>
 {
     /// The interval iterator of the `TineTree`.
     intervals: crate::tine_tree::Iter<'t, T>,
-    /// The current interval.
-    current: crate::interval::Iter<T>,
+    /// The interval being consumed from the front.
+    front: crate::interval::Iter<T>,
+    /// The interval being consumed from the back.
+    back: crate::interval::Iter<T>,
 }
 
 impl<'t, T> Iterator for Iter<'t, T>
@@ -1128,20 +1137,21 @@ impl<'t, T> Iterator for Iter<'t, T>
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(next) = self.current.next() {
+        if let Some(next) = self.front.next() {
             return Some(next);
         }
 
-        self.current = match self.intervals
+        self.front = match self.intervals
             .next()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            // Only the interval opened by the other end is left.
+            None           => return self.back.next(),
         };
 
-        self.current.next()
+        self.front.next()
     }
 }
 
@@ -1149,20 +1159,21 @@ impl<'t, T> DoubleEndedIterator for Iter<'t, T>
     where T: Ord + Clone + Finite,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if let Some(next_back) = self.current.next_back() {
+        if let Some(next_back) = self.back.next_back() {
             return Some(next_back);
         }
 
-        self.current = match self.intervals
+        self.back = match self.intervals
             .next_back()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            // Only the interval opened by the other end is left.
+            None           => return self.front.next_back(),
         };
 
-        self.current.next_back()
+        self.back.next_back()
     }
 }
 
-- 
2.43.0


From 2e61c402d28901261cce32da09eef69cdfd4f31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 08/16] fix: keep selections denormalized through set
 operations

Complement, intersection and difference left the tree in a form that depends on
how it was reached: equal selections compared unequal, pieces without points
made empty selections non-empty and intersects() true for adjacent intervals.
---
 src/selection.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index 2b4106d..7190e48 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -111,6 +111,14 @@ impl<T> Selection<T>
         Interval::full().into()
     }
 
+    /// Constructs a `Selection` from the result of a `TineTree` operation.
+    ///
+    /// Intervals cut out of denormalized ones are not denormalized themselves,
+    /// and may be empty or adjacent once they are normalized.
+    fn from_tree(tree: TineTree<T>) -> Self {
+        tree.into_iter().map(Interval::from).collect()
+    }
+
     // Bound accessors
     ////////////////////////////////////////////////////////////////////////////
 
@@ -500,7 +508,7 @@ impl<T> Selection<T>
     #[must_use]
     pub fn intersects(&self, other: &Self) -> bool {
         // TODO: Make generic?
-        !self.0.intersect(&other.0).is_empty()
+        !self.intersect(other).is_empty()
     }
 
     // Symmetric set operations
@@ -552,7 +560,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn complement(&self) -> Self {
-        Self(self.0.complement())
+        Self::from_tree(self.0.complement())
     }
 
     /// Returns the `Selection` containing all points in both the given
@@ -595,7 +603,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn intersect(&self, other: &Self) -> Self {
-        Self(self.0.intersect(&other.0))
+        Self::from_tree(self.0.intersect(&other.0))
     }
 
     /// Returns the `Selection` containing all points in either of the given
@@ -662,7 +670,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn minus(&self, other: &Self) -> Self {
-        Self(self.0.minus(&other.0))
+        Self::from_tree(self.0.minus(&other.0))
     }
 
     /// Returns the smallest `Interval` containing all of the points in the 
@@ -759,7 +767,7 @@ impl<T> Selection<T>
     /// # }
     /// ```
     pub fn intersect_in_place(&mut self, interval: Interval<T>) {
-        self.0.intersect_in_place(&interval.0.denormalized());
+        *self = self.intersect(&interval.into());
     }
 
     /// Adds all of the points in the given `Interval` to the `Selection`.
@@ -845,7 +853,7 @@ impl<T> Selection<T>
     /// # }
     /// ```
     pub fn minus_in_place(&mut self, interval: Interval<T>) {
-        self.0.minus_in_place(&interval.0.denormalized());
+        *self = self.minus(&interval.into());
     }
 
     ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 0784ac95638ecdcad0a22564d8917b406d6382e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 09/16] fix: take the closure of a selection over its own
 points

The closure of the denormalized tree includes the points next to the selection.
---
 src/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/selection.rs b/src/selection.rs
index 7190e48..7cd6c0c 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -720,7 +720,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn closure(&self) -> Interval<T> {
-        Interval(self.0.closure().normalized())
+        self.enclose().closure()
     }
 
     // In-place operations
-- 
2.43.0


From de9af425f337f87387391314cb9804616ce68bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 10/16] fix: enclose_all folds from the empty interval

Starting at Full made every enclosure the full interval.
---
 src/raw_interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index f0d71c1..768a693 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -392,7 +392,7 @@ impl<T> RawInterval<T> where T: Ord + Clone {
     pub fn enclose_all<I>(intervals: I) -> Self
         where I: Iterator<Item=Self>
     {
-        intervals.fold(Self::Full, |acc, i| acc.enclose(&i))
+        intervals.fold(Self::Empty, |acc, i| acc.enclose(&i))
     }
 
     /// Returns the intersection of all of the given intervals.
-- 
2.43.0


From 6f6748032e6593124d3257a8f19d68f4a89f7b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 11/16] fix: leave tine trees intact when an element operation
 panics

The in-place operations took the tree apart before comparing and cloning
elements, so a panic there left a partial tree that panics on later use.
---
 src/tine_tree.rs | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index e4b801b..7b2095b 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -187,7 +187,7 @@ impl<T> TineTree<T> where T: Ord + Clone {
         let mut other_next = other_intervals.next();
 
         while let (Some(a), Some(b)) = (&self_next, &other_next) {
-            intersection.union_in_place(&a.intersect(b));
+            intersection.union_interval(&a.intersect(b));
 
             // Nothing else overlaps the interval which ends first.
             if a.upper_bound().map(Tine::Upper) < b.upper_bound().map(Tine::Upper) {
@@ -205,7 +205,7 @@ impl<T> TineTree<T> where T: Ord + Clone {
     pub fn union(&self, other: &Self) -> Self {
         let mut union = self.clone();
         for interval in other.interval_iter() {
-            union.union_in_place(&interval);
+            union.union_interval(&interval);
         }
         union
     }
@@ -216,7 +216,7 @@ impl<T> TineTree<T> where T: Ord + Clone {
     pub fn minus(&self, other: &Self) -> Self {
         let mut minus = self.clone();
         for interval in other.interval_iter() {
-            minus.minus_in_place(&interval);
+            minus.minus_interval(&interval);
         }
         minus
     }
@@ -273,7 +273,17 @@ impl<T> TineTree<T> where T: Ord + Clone {
     ////////////////////////////////////////////////////////////////////////////
 
     /// Intersects the given interval with the contents of the tree.
+    ///
+    /// If an operation on `T` panics, the tree is left as it was.
     pub fn intersect_in_place(&mut self, interval: &RawInterval<T>) {
+        let mut res = self.clone();
+        res.intersect_interval(interval);
+        *self = res;
+    }
+
+    /// Internal implementation of `intersect_in_place`. May leave the tree partial
+    /// if an operation on `T` panics.
+    fn intersect_interval(&mut self, interval: &RawInterval<T>) {
         use Bound::*;
         use Tine::*;
 
@@ -348,7 +358,17 @@ impl<T> TineTree<T> where T: Ord + Clone {
     }
 
     /// Unions the given interval with the contents of the tree.
+    ///
+    /// If an operation on `T` panics, the tree is left as it was.
     pub fn union_in_place(&mut self, interval: &RawInterval<T>) {
+        let mut res = self.clone();
+        res.union_interval(interval);
+        *self = res;
+    }
+
+    /// Internal implementation of `union_in_place`. May leave the tree partial
+    /// if an operation on `T` panics.
+    fn union_interval(&mut self, interval: &RawInterval<T>) {
         // Early exit if we're unioning a full interval.
         if interval.is_full() {
             *self = Self::from_raw_interval(RawInterval::Full);
@@ -546,7 +566,17 @@ impl<T> TineTree<T> where T: Ord + Clone {
     }
 
     /// Minuses the given interval from the contents of the tree.
+    ///
+    /// If an operation on `T` panics, the tree is left as it was.
     pub fn minus_in_place(&mut self, interval: &RawInterval<T>) {
+        let mut res = self.clone();
+        res.minus_interval(interval);
+        *self = res;
+    }
+
+    /// Internal implementation of `minus_in_place`. May leave the tree partial
+    /// if an operation on `T` panics.
+    fn minus_interval(&mut self, interval: &RawInterval<T>) {
         // Early exit if we're minusing an empty interval or are empty.
         if self.0.is_empty() || interval.is_empty() {return};
 
@@ -783,7 +813,7 @@ impl<T, I> From<I> for TineTree<T>
     fn from(iter: I) -> Self {
         let mut tine_tree = Self::new();
         for interval in iter {
-            tine_tree.union_in_place(&interval);
+            tine_tree.union_interval(&interval);
         }
         tine_tree
     }
@@ -797,7 +827,7 @@ impl<T> FromIterator<RawInterval<T>> for TineTree<T>
     {
         let mut tine_tree = Self::new();
         for interval in iter {
-            tine_tree.union_in_place(&interval);
+            tine_tree.union_interval(&interval);
         }
         tine_tree
     }
-- 
2.43.0


From 6bb839f9206cb9a5b9e2958b0822a722c9f7710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:07 +0000
Subject: [PATCH 12/16] fix: parse only whole interval texts

Anything beginning with the empty set, or around an infinite bound, was ignored,
so damaged or run-together texts parsed as an interval.
---
 src/raw_interval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index 768a693..3273850 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -462,14 +462,14 @@ impl<T> FromStr for RawInterval<T> where T: Ord + FromStr {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         use RawInterval::*;
         // Parse empty interval.
-        if s.starts_with("Ø") { return Ok(Empty); }
+        if s == "Ø" { return Ok(Empty); }
         // Parse point interval.
         if let Ok(p) = T::from_str(s) { return Ok(Point(p)); }
 
         let (x, y) = s.split_once(',')
             .ok_or(IntervalParseError::InvalidInterval)?;
 
-        let lb = if x.starts_with("(-∞") { 
+        let lb = if x == "(-∞" { 
             Bound::Infinite
         } else if let Some(res) = x.strip_prefix('(') {
             Bound::Exclude(T::from_str(res)
@@ -481,7 +481,7 @@ impl<T> FromStr for RawInterval<T> where T: Ord + FromStr {
             return Err(IntervalParseError::InvalidInterval);
         };
 
-        let ub = if y.ends_with("∞)") { 
+        let ub = if y == "∞)" { 
             Bound::Infinite
         } else if y.ends_with(')') {
             let end = y.len() - 1;
-- 
2.43.0


From 72e0c210cc63faaa74afdd18311bc9a982575984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:13 +0000
Subject: [PATCH 13/16] fix: normalize deserialized intervals

The derived Deserialize took any raw interval as an Interval, so hand-edited or
damaged data made one that panics when it is iterated.
---
 src/interval.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index dc00dbc..f8faa3e 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -19,6 +19,7 @@ use crate::raw_interval::RawInterval;
 
 // External library imports.
 #[cfg(feature="serde")] use serde::Deserialize;
+#[cfg(feature="serde")] use serde::Deserializer;
 #[cfg(feature="serde")] use serde::Serialize;
 
 // Standard library imports.
@@ -45,7 +46,7 @@ use std::ops::Sub;
 /// [`Finite`]: ../normalize/trait.Finite.html
 #[repr(transparent)]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
-#[cfg_attr(feature="serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature="serde", derive(Serialize))]
 #[cfg_attr(feature="serde", serde(transparent))]
 pub struct Interval<T>(pub (crate) RawInterval<T>);
 
@@ -1705,6 +1706,20 @@ impl<T> From<RawInterval<T>> for Interval<T>
     }
 }
 
+// The interval must be normalized however it was stored.
+#[cfg(feature="serde")]
+impl<'de, T> Deserialize<'de> for Interval<T>
+    where
+        T: Ord + Clone + Deserialize<'de>,
+        RawInterval<T>: Normalize,
+{
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where D: Deserializer<'de>
+    {
+        RawInterval::deserialize(deserializer).map(Self::from)
+    }
+}
+
 // NOTE: Conflicts with From<RangeFull> convertion.
 impl<T> From<T> for Interval<T> 
     where
-- 
2.43.0


From 6d8f1343999c77d57a8c704525afd598d7fa00aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:13 +0000
Subject: [PATCH 14/16] fix: validate deserialized tine trees and selections

The derived Deserialize accepted tines that do not form complete intervals, or
panicked on them; iterating such a tree panicked.
---
 src/selection.rs | 19 ++++++++++++++++---
 src/tine_tree.rs | 46 +++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 59 insertions(+), 6 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index 7cd6c0c..62e09dc 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -21,6 +21,7 @@ use crate::tine_tree::TineTree;
 
 // External library imports.
 #[cfg(feature="serde")] use serde::Deserialize;
+#[cfg(feature="serde")] use serde::Deserializer;
 #[cfg(feature="serde")] use serde::Serialize;
 
 // Standard library imports.
@@ -35,10 +36,8 @@ use std::iter::FusedIterator;
 /// A possibly noncontiguous collection of `Interval`s of the type `T`.
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 #[repr(transparent)]
-#[cfg_attr(feature="serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature="serde", derive(Serialize))]
 #[cfg_attr(feature="serde", serde(transparent))]
-#[cfg_attr(feature="serde", 
-    serde(bound="for<'a> T: Ord + Serialize + Deserialize<'a> + Clone + 'a"))]
 pub struct Selection<T>(TineTree<T>);
 
 impl<T> Default for Selection<T> 
@@ -930,6 +929,20 @@ impl<T> Extend<Interval<T>> for Selection<T>
     }
 }
 
+// The intervals must be denormalized however they were stored.
+#[cfg(feature="serde")]
+impl<'de, T> Deserialize<'de> for Selection<T>
+    where
+        T: Ord + Clone + Deserialize<'de>,
+        RawInterval<T>: Normalize,
+{
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where D: Deserializer<'de>
+    {
+        TineTree::deserialize(deserializer).map(Self::from_tree)
+    }
+}
+
 impl<T> From<Interval<T>> for Selection<T>
     where
         T: Ord + Clone,
diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 7b2095b..af9f02b 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -19,6 +19,8 @@ use crate::tine::Tine;
 
 // External library imports.
 #[cfg(feature="serde")] use serde::Deserialize;
+#[cfg(feature="serde")] use serde::Deserializer;
+#[cfg(feature="serde")] use serde::de::Error as _;
 #[cfg(feature="serde")] use serde::Serialize;
 use few::Few;
 
@@ -45,10 +47,8 @@ use std::iter::FromIterator;
 ///
 #[repr(transparent)]
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
-#[cfg_attr(feature="serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature="serde", derive(Serialize))]
 #[cfg_attr(feature="serde", serde(transparent))]
-#[cfg_attr(feature="serde", 
-    serde(bound="for<'a> T: Ord + Serialize + Deserialize<'a> + Clone + 'a"))]
 pub struct TineTree<T>(BTreeSet<Tine<T>>);
 
 impl<T> TineTree<T> where T: Ord + Clone {
@@ -805,6 +805,46 @@ impl<T> From<RawInterval<T>> for TineTree<T> where T: Ord + Clone {
     }
 }
 
+// The stored tines are not trusted, because every operation relies on them
+// forming complete intervals.
+#[cfg(feature="serde")]
+impl<'de, T> Deserialize<'de> for TineTree<T>
+    where T: Ord + Clone + Deserialize<'de>
+{
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where D: Deserializer<'de>
+    {
+        use Bound::*;
+        use Tine::*;
+
+        let tines: Vec<Tine<T>> = Vec::deserialize(deserializer)?;
+
+        // Bounds must open and close intervals in turn.
+        let mut open = false;
+        for tine in &tines {
+            open = match (tine, open) {
+                (Lower(_),          false) => true,
+                (Upper(_),          true)  => false,
+                (Point(Include(_)), false) => false,
+                (Point(Exclude(_)), true)  => true,
+                _ => return Err(D::Error::custom("unpaired interval bound")),
+            };
+        }
+        if open {
+            return Err(D::Error::custom("unpaired interval bound"));
+        }
+
+        // Bounds must be in ascending order.
+        if tines.windows(2).any(|pair| pair[0] >= pair[1]) {
+            return Err(D::Error::custom("unordered interval bounds"));
+        }
+
+        let mut tree = Self::new();
+        tree.0.extend(tines);
+        Ok(tree)
+    }
+}
+
 impl<T, I> From<I> for TineTree<T>
     where
         T: Ord + Clone,
-- 
2.43.0


From b82c11619d974b38ab4b8de71b175409723eecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:01 +0000
Subject: [PATCH 15/16] fix: keep tine trees whole when an element comparison
 unwinds from a split

---
 src/tine_tree.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index af9f02b..821cea4 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -679,8 +679,8 @@ impl<T> TineTree<T> where T: Ord + Clone {
         res[3] = self.0.take(upper);
         
         // Get before and after points and drop anything not in the center.
-        let mut center = self.0.split_off(lower);
-        let right_side = center.split_off(upper);
+        let mut center = split_off(&mut self.0, lower);
+        let right_side = split_off(&mut center, upper);
 
         {
             let mut backward = self.0.iter();
@@ -724,7 +724,7 @@ impl<T> TineTree<T> where T: Ord + Clone {
         res[1] = self.0.take(tine);
 
         // Get before and after points.
-        let mut right_side = self.0.split_off(tine);
+        let mut right_side = split_off(&mut self.0, tine);
         res[0] = self.0.iter().next_back().cloned();
         res[2] = right_side.iter().next().cloned();
 
@@ -759,13 +759,13 @@ impl<T> TineTree<T> where T: Ord + Clone {
         res[2] = self.0.take(upper);
 
         // Get before and after points and drop anything in the center.
-        let mut center = self.0.split_off(lower);
+        let mut center = split_off(&mut self.0, lower);
         {
             let mut backward = self.0.iter();
             res[0] = backward.next_back().cloned();
         }
 
-        let mut right_side = center.split_off(upper);
+        let mut right_side = split_off(&mut center, upper);
         {
             let mut forward = right_side.iter();
             res[3] = forward.next().cloned();
@@ -790,6 +790,22 @@ impl<T> TineTree<T> where T: Ord + Clone {
     }
 }
 
+/// Splits the tines at the given tine, leaving those before it in place and 
+/// returning those at or after it.
+///
+/// Unlike `BTreeSet::split_off`, which leaves a broken set behind if comparing
+/// tines panics while it moves them, every comparison is done on a whole set.
+fn split_off<T>(tines: &mut BTreeSet<Tine<T>>, tine: &Tine<T>)
+    -> BTreeSet<Tine<T>>
+    where T: Ord + Clone
+{
+    let mut right_side = BTreeSet::new();
+    while tines.last().map_or(false, |last| last >= tine) {
+        right_side.extend(tines.pop_last());
+    }
+    right_side
+}
+
 impl<T> Default for TineTree<T> where T: Ord + Clone {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 9b36d3f4f40d78cf3543fe76542d7b5a0f4efefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 16/16] fix: join every interval the next one touches in
 RawInterval::union_all

---
 src/raw_interval.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index 3273850..953017e 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -414,20 +414,17 @@ impl<T> RawInterval<T> where T: Ord + Clone {
         // Get first interval.
         if let Some(start) = it.next() {
             // Fold over remaining intervals.
-            it.fold(vec![start], |mut prev, next| {
+            it.fold(vec![start], |prev, next| {
                 // Early exit for full interval.
                 if next == Self::Full {
                     return vec![Self::Full];
                 }
-                let mut append = true;
-                for item in &mut prev {
-                    if item.intersects(&next) || item .is_adjacent_to(&next) {
-                        *item = item.enclose(&next);
-                        append = false;
-                        break;
-                    }
-                }
-                if append {prev.push(next);}
+                // The next interval may join any number of previous ones.
+                let (joined, mut prev): (Vec<_>, Vec<_>) = prev
+                    .into_iter()
+                    .partition(|item| item.intersects(&next)
+                        || item.is_adjacent_to(&next));
+                prev.push(joined.iter().fold(next, |acc, i| acc.enclose(i)));
                 prev
             })
         } else {
-- 
2.43.0

