From 1d06e22d45b109c810fec2cb781c8716a936e76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 1/5] fix: euclidean rect-rect distance is the positive gap
 when one axis overlaps

---
 src/geom/euclidean/math.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/geom/euclidean/math.rs b/src/geom/euclidean/math.rs
index d395e7c..f74c7d5 100644
--- a/src/geom/euclidean/math.rs
+++ b/src/geom/euclidean/math.rs
@@ -13,10 +13,11 @@ where
     match (overlap_x, overlap_y) {
         // If there is any overlap, then the distance is zero
         (true, true) => T::zero(),
-        // When x overlaps, distance is the smallest y-difference,
-        // and similarly for y-overlaps
-        (true, false) => (r1.min().y - r2.max().y).min(r2.min().y - r1.max().y),
-        (false, true) => (r1.min().x - r2.max().x).min(r2.min().x - r1.max().x),
+        // When x overlaps, distance is the gap between the facing y-edges, and
+        // similarly for y-overlaps. Exactly one of the two differences is the
+        // (positive) gap, the other is negative, so take the larger one
+        (true, false) => (r1.min().y - r2.max().y).max(r2.min().y - r1.max().y),
+        (false, true) => (r1.min().x - r2.max().x).max(r2.min().x - r1.max().x),
         // When neither overlaps, take the distance from closest corners
         (false, false) => {
             let (x1, x2) = if r1.max().x < r2.min().x {
-- 
2.43.0


From cc04ca90fb442377b2ad735131b5acb8a93c40e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 2/5] fix: knn with k = 0 returns no neighbors

---
 src/quadtrees/knn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quadtrees/knn.rs b/src/quadtrees/knn.rs
index c221608..edbb1d9 100644
--- a/src/quadtrees/knn.rs
+++ b/src/quadtrees/knn.rs
@@ -26,6 +26,11 @@ where
         return Err(Error::OutOfBounds);
     }
 
+    // Nothing can be returned if no neighbors are asked for
+    if k == 0 {
+        return Ok(vec![]);
+    }
+
     // We work on a tuple that contains the distance plus an enum
     // containing either a child or a node, and start by seeding the root
     let mut work_stack = vec![(NodeType::Node(root), root_d)];
-- 
2.43.0


From 84742bbbc683bb0b9d07a06cc770b86c37c31b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 3/5] fix: find_r searches nodes at exactly the current radius

---
 src/quadtrees/bounds/mod.rs | 2 +-
 src/quadtrees/point/mod.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadtrees/bounds/mod.rs b/src/quadtrees/bounds/mod.rs
index 699e9ef..ad02e27 100644
--- a/src/quadtrees/bounds/mod.rs
+++ b/src/quadtrees/bounds/mod.rs
@@ -148,7 +148,7 @@ where
             // No need to check the children if the bounds are too far,
             // checking bounds is cheaper then checking each child
             let bounds_dist = cmp.dist_bbox(node.bounds())?;
-            if bounds_dist >= min_dist {
+            if bounds_dist > min_dist {
                 continue;
             }
 
diff --git a/src/quadtrees/point/mod.rs b/src/quadtrees/point/mod.rs
index 79f7c7a..2e92591 100644
--- a/src/quadtrees/point/mod.rs
+++ b/src/quadtrees/point/mod.rs
@@ -180,7 +180,7 @@ where
             // processed - skip processing if the edge of the node is further
             // than the current
             let bounds_dist = cmp.dist_bbox(node.bounds())?;
-            if bounds_dist >= min_dist {
+            if bounds_dist > min_dist {
                 continue;
             }
 
-- 
2.43.0


From 4d83da3bdd285bbdd2e5c6ec8a0f18682766e0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 4/5] fix: haversine distance from a LineString to a Point is
 supported

---
 src/geom/spherical/dist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geom/spherical/dist.rs b/src/geom/spherical/dist.rs
index 77d7399..86bcdb3 100644
--- a/src/geom/spherical/dist.rs
+++ b/src/geom/spherical/dist.rs
@@ -70,7 +70,7 @@ where
 {
     fn dist_haversine(&self, rhs: &GeometryRef<T>) -> Result<T, Error> {
         match rhs {
-            GeometryRef::Point(_) => Err(Error::InvalidDistance),
+            GeometryRef::Point(d) => Ok(dist_pt_linestring(d, self)),
             GeometryRef::Line(_) => Err(Error::InvalidDistance),
             GeometryRef::LineString(_) => Err(Error::InvalidDistance),
             GeometryRef::Polygon(_) => Err(Error::InvalidDistance),
-- 
2.43.0


From aff534d97bd71a32a70dc81ffe3087dff6ff6826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:16 +0000
Subject: [PATCH 5/5] fix: sorted() does not recurse once per visited node

---
 src/quadtrees/sorted.rs | 80 +++++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 39 deletions(-)

diff --git a/src/quadtrees/sorted.rs b/src/quadtrees/sorted.rs
index c11ed7c..17298c9 100644
--- a/src/quadtrees/sorted.rs
+++ b/src/quadtrees/sorted.rs
@@ -25,58 +25,60 @@ where
     type Item = (&'a D, T);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // 1. Sort the stack in distance-descending order
-        //    Only do this if the is_sorted flag is false
-        if !self.is_sorted {
-            self.stack.sort_unstable_by(|(_, d1), (_, d2)| {
-                d2.partial_cmp(d1)
-                    .expect("Unreachable, NaN distances already removed.")
-            });
-        }
-
-        // 2. Return early if the stack is empty
-        let (item, d) = self.stack.pop()?;
+        loop {
+            // 1. Sort the stack in distance-descending order
+            //    Only do this if the is_sorted flag is false
+            if !self.is_sorted {
+                self.stack.sort_unstable_by(|(_, d1), (_, d2)| {
+                    d2.partial_cmp(d1)
+                        .expect("Unreachable, NaN distances already removed.")
+                });
+            }
 
-        // Now process the rest in a match
-        match item {
-            // 2. Process any children at the top of the stack
-            //    No need to re-sort as no pushing
-            NodeType::Child(child) => Some((child, d)),
+            // 2. Return early if the stack is empty
+            let (item, d) = self.stack.pop()?;
 
-            // 3. Push sub-nodes and children onto the stack
-            //    Set the flag to re-sort because new items hve been added
-            //    Then recurse because we have not returned anything
-            NodeType::Node(node) => {
-                for child in node.children() {
-                    if let Some(d) = self
-                        .cmp
-                        .dist_geom(&child.as_geom())
-                        .ok()
-                        .and_then(|d| d.is_finite().then_some(d))
-                    {
-                        self.stack.push((NodeType::Child(child), d));
-                    }
-                }
+            // Now process the rest in a match
+            match item {
+                // 2. Process any children at the top of the stack
+                //    No need to re-sort as no pushing
+                NodeType::Child(child) => return Some((child, d)),
 
-                if let Some(nodes) = node.nodes() {
-                    for sub_node in nodes.iter() {
+                // 3. Push sub-nodes and children onto the stack
+                //    Set the flag to re-sort because new items hve been added
+                //    Then go around again because we have not returned anything, in a
+                //    loop as the number of nodes in a row is not bounded by the depth
+                NodeType::Node(node) => {
+                    for child in node.children() {
                         if let Some(d) = self
                             .cmp
-                            .dist_bbox(sub_node.bounds())
+                            .dist_geom(&child.as_geom())
                             .ok()
                             .and_then(|d| d.is_finite().then_some(d))
                         {
-                            self.stack.push((NodeType::Node(sub_node), d));
+                            self.stack.push((NodeType::Child(child), d));
                         }
                     }
+
+                    if let Some(nodes) = node.nodes() {
+                        for sub_node in nodes.iter() {
+                            if let Some(d) = self
+                                .cmp
+                                .dist_bbox(sub_node.bounds())
+                                .ok()
+                                .and_then(|d| d.is_finite().then_some(d))
+                            {
+                                self.stack.push((NodeType::Node(sub_node), d));
+                            }
+                        }
+                    }
+
+                    self.is_sorted = false;
                 }
 
-                self.is_sorted = false;
-                self.next()
+                // This is PhantomData
+                NodeType::_NumType(_) => unreachable!(),
             }
-
-            // This is PhantomData
-            NodeType::_NumType(_) => unreachable!(),
         }
     }
 }
-- 
2.43.0

