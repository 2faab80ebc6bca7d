From abb98638eaf05c910645f8b918ad70eea859603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 1/7] fix: roll faces back to their zone when a split metric is
 infinite

Otherwise the faces refer to a zone that does not list them and the following split
fails in unlink_from_zone (any mesh that is flat along the last axis).
---
 crysgsu/gsu/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 17c7aa2..49b2542 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -917,6 +917,8 @@ class Grid:
 
         # Prevent empty zone.
         if (zlc == 0) or (zrc == 0):
+            for f in zone.Faces:
+                f.Zone = zone
             return math.inf
 
         # Metric.
-- 
2.43.0


From dbfed512423a59f3c32d12c32e8ca8a0449a4db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 2/7] fix: keep a zone whole when no axis splits it

The zone has already been replaced by its children, so removing it again failed.
---
 crysgsu/gsu/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 49b2542..de37a69 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -976,8 +976,9 @@ class Grid:
 
         if min_metric is math.inf:
             print('Warning : bad metrics to split zone {0}'.format(zone.Name))
-            # Replace to the end.
-            self.Zones.remove(zone)
+            # Put the zone to the end in place of its children.
+            self.Zones.remove(zl)
+            self.Zones.remove(zr)
             self.Zones.append(zone)
             return
 
-- 
2.43.0


From 4042318b335c9c873db91bf3c501ad5fdb74852c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 3/7] fix: refer to ZonesAdjacencyMatrix through its module in
 print_info

---
 crysgsu/gsu/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index de37a69..897e22a 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -150,7 +150,7 @@ class Grid:
               '{2} faces, {3} zones'.format(len(self.Nodes), ec, fc, zc))
 
         # Zones adjacency matrix.
-        zam = ZonesAdjacencyMatrix(self.Edges, self.Zones)
+        zam = gsu.ZonesAdjacencyMatrix(self.Edges, self.Zones)
 
         # Edges statistics.
         if is_print_edges_statistics:
-- 
2.43.0


From 5621f52612cd58343434e2d538630b950fdf2d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 4/7] fix: look an edge up by its very nodes, not by their
 coordinates

With merging off, different nodes of a zone may share coordinates; find_edge took
an edge to such a twin for the wanted one and linked the face to it.
---
 crysgsu/gsu/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 897e22a..8d2ded8 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -358,7 +358,8 @@ class Grid:
         """
 
         for edge in node_a.Edges:
-            if node_b in edge.Nodes:
+            # Compare by identity: unmerged nodes may share coordinates.
+            if any(n is node_b for n in edge.Nodes):
                 return edge
 
         return None
-- 
2.43.0


From f81a1cf4499f47c746836f11ec28b6ee675f298b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 5/7] fix: keep global identifiers dense when an edge is
 collapsed

The freed identifiers were given to the last items of the lists, which need not be
the ones with the largest identifiers (and may be among the deleted ones' successors).
---
 crysgsu/gsu/grid.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 8d2ded8..52432c8 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1565,6 +1565,24 @@ class Grid:
 
     # ----------------------------------------------------------------------------------------------
 
+    @staticmethod
+    def reuse_gloids(items, free_gloids):
+        """
+        Give global identifiers of deleted items to items which identifiers are out of range now.
+
+        :param items: items left (nodes, edges or faces)
+        :param free_gloids: global identifiers of deleted items
+        """
+
+        count = len(items)
+        free_gloids = [gloid for gloid in free_gloids if gloid < count]
+
+        for item in items:
+            if item.GloId >= count:
+                item.GloId = free_gloids.pop()
+
+    # ----------------------------------------------------------------------------------------------
+
     def collapse_edge(self, edge):
         """
 
@@ -1620,12 +1638,9 @@ class Grid:
             n2.replacing_node(n1)
             self.del_node(n2)
 
-            self.Faces[-1].GloId = f1.GloId
-            self.Faces[-2].GloId = f2.GloId
-            self.Edges[-1].GloId = edge.GloId
-            self.Edges[-2].GloId = e1.GloId
-            self.Edges[-3].GloId = e2.GloId
-            self.Nodes[-1].GloId = n2.GloId
+            Grid.reuse_gloids(self.Faces, [f1.GloId, f2.GloId])
+            Grid.reuse_gloids(self.Edges, [edge.GloId, e1.GloId, e2.GloId])
+            Grid.reuse_gloids(self.Nodes, [n2.GloId])
 
             return True
         else:
-- 
2.43.0


From 2122e4f5c140961bc97183a97b07edaf6af21e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 6/7] fix: unlink a deleted node from every zone that lists it

The node was removed only from the zone of its first face, which fails when that
zone does not list it and leaves stale entries in the other zones.
---
 crysgsu/gsu/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crysgsu/gsu/grid.py b/crysgsu/gsu/grid.py
index 52432c8..e30bd64 100644
--- a/crysgsu/gsu/grid.py
+++ b/crysgsu/gsu/grid.py
@@ -1246,7 +1246,9 @@ class Grid:
             for face in node.Faces:
                 if node in face.Nodes:
                     face.Nodes.remove(node)
-        node.Faces[0].Zone.Nodes.remove(node)
+        for z in self.Zones:
+            if node in z.Nodes:
+                z.Nodes.remove(node)
         self.Nodes.remove(node)
         self.RoundedCoordsBag.remove(node.RoundedCoords)
 
-- 
2.43.0


From d4eb826a651a2a0127e37020dae311138e1167ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:40 +0000
Subject: [PATCH 7/7] fix: no drag on a droplet that moves together with the
 air

---
 crysgsu/drops.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crysgsu/drops.py b/crysgsu/drops.py
index e4bd951..7b36155 100644
--- a/crysgsu/drops.py
+++ b/crysgsu/drops.py
@@ -94,7 +94,10 @@ class Space:
         # Reynolds number and C_d.
         vsm = (v - v_air).mod()
         re = vsm * d / air_vis
-        if re <= 350.0:
+        if re == 0.0:
+            # The droplet moves together with the air, there is no drag.
+            cd = 0.0
+        elif re <= 350.0:
             cd = (24.0 / re) * (1.0 + 0.166 * math.pow(re, 0.33))
         else:
             cd = 0.178 * math.pow(re, 0.217)
-- 
2.43.0

