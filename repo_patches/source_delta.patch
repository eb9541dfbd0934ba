From 2e869b20fcd093961cf987091cacc711ba425a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 01/17] fix: grow the heap's entry list when popped slots
 exhaust it

---
 src/Heap.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Heap.cpp b/src/Heap.cpp
index d2ebea6..e57fd8b 100644
--- a/src/Heap.cpp
+++ b/src/Heap.cpp
@@ -48,6 +48,14 @@ namespace slsm
         errno = 0;
         slsm_check(heapLength < maxLength, "push: Heap is full!");
 
+        // Popped entries still occupy the list, so it can outgrow the heap.
+        if (listLength == address.size())
+        {
+            address.resize(listLength + 1);
+            distance.resize(listLength + 1);
+            backPointer.resize(listLength + 1);
+        }
+
         // Add entry to the heap.
         heap[heapLength]        = listLength;
         address[listLength]     = address_;
-- 
2.43.0


From 7be1a8ca57970d7376a4c3a67c351f4bd73108bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:57 +0000
Subject: [PATCH 02/17] fix: clear stale mine flags when the narrow band is
 rebuilt

---
 src/LevelSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index f61f8bb..4dbeaa3 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -650,6 +650,7 @@ namespace slsm
         {
             // Flag node as inactive.
             mesh.nodes[i].isActive = false;
+            mesh.nodes[i].isMine = false;
 
             /* Check that the node isn't in a masked region. If it's not, then check
                whether it lies on the domain boundary, and if it does then check that
-- 
2.43.0


From ff031ef038ea5ddc1682b3e1331a646300b62b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 03/17] fix: check the mesh size before allocating the default
 holes

---
 src/LevelSet.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 4dbeaa3..3647058 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -502,7 +502,7 @@ namespace slsm
         unsigned int nHoles = n1 + n2;
 
         // Initialise a vector of holes.
-        std::vector<Hole> holes(nHoles);
+        std::vector<Hole> holes;
 
         // Hole separations.
         double dx, dy;
@@ -510,6 +510,9 @@ namespace slsm
         // Check that mesh is large enough.
         slsm_check(((nx > 2) && (ny > 2)), "Mesh is too small for Swiss cheese initialisation.");
 
+        // The hole counts are only meaningful once the mesh is known to be large enough.
+        holes.resize(nHoles);
+
         // Initialise hole separations.
         dx = ((double) mesh.width / (2 * nx));
         dy = ((double) mesh.height / (2 * ny));
-- 
2.43.0


From d74a7cabfcacba7bebae537338297d1ed98266ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:19 +0000
Subject: [PATCH 04/17] fix: do not truncate the left-of-line test to an
 integer

---
 src/LevelSet.cpp | 2 +-
 src/LevelSet.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 3647058..586b68a 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -1336,7 +1336,7 @@ namespace slsm
         else return true;
     }
 
-    int LevelSet::isLeftOfLine(const Coord& vertex1, const Coord& vertex2, const Coord& point) const
+    double LevelSet::isLeftOfLine(const Coord& vertex1, const Coord& vertex2, const Coord& point) const
     {
         return ((vertex2.x - vertex1.x) * (point.y - vertex1.y)
             - (point.x -  vertex1.x) * (vertex2.y - vertex1.y));
diff --git a/src/LevelSet.h b/src/LevelSet.h
index 38a5d82..3bd73d8 100644
--- a/src/LevelSet.h
+++ b/src/LevelSet.h
@@ -394,7 +394,7 @@ namespace slsm
                 = 0 if the point is on the line,
                 < 0 if right of the line.
          */
-        int isLeftOfLine(const Coord&, const Coord&, const Coord&) const;
+        double isLeftOfLine(const Coord&, const Coord&, const Coord&) const;
 
         //! Calculate the material area for an element cut by the boundary.
         /*! \param element
-- 
2.43.0


From a679d366e48498b51d5b9ada69cfa0cc8b5c155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 05/17] fix: make room for the four boundary segments an
 element can have

An element whose four nodes all lie on the zero contour gets a boundary
segment along each of its edges, but the lookup held two.
---
 src/Mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 88b1845..5e5ea45 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -29,7 +29,7 @@ namespace slsm
     Element::Element() :
         area(0),
         nodes(4, 0),
-        boundarySegments(2, 0)
+        boundarySegments(4, 0)
     {
     }
 
-- 
2.43.0


From 6200cfb7c658b4468dc55de5de19845765452a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:01 +0000
Subject: [PATCH 06/17] fix: let a boundary point belong to more than two
 segments

Where parts of the boundary touch in a point, computePointLengths wrote
past the end of the point's segment and neighbour lists.
---
 src/Boundary.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 372c46d..d5e0d93 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -889,18 +889,28 @@ namespace slsm
             points[segments[i].end].length += 0.5 * segments[i].length;
 
             // Update point to segment lookup for start point.
+            // (A point belongs to more than two segments where parts of the boundary touch.)
+            if (points[segments[i].start].nSegments == points[segments[i].start].segments.size())
+                points[segments[i].start].segments.resize(points[segments[i].start].nSegments + 1);
             points[segments[i].start].segments[points[segments[i].start].nSegments] = i;
             points[segments[i].start].nSegments++;
 
             // Update point to segment lookup for end point.
+            // (A point belongs to more than two segments where parts of the boundary touch.)
+            if (points[segments[i].end].nSegments == points[segments[i].end].segments.size())
+                points[segments[i].end].segments.resize(points[segments[i].end].nSegments + 1);
             points[segments[i].end].segments[points[segments[i].end].nSegments] = i;
             points[segments[i].end].nSegments++;
 
             // Update nearest neighbours for the start point.
+            if (points[segments[i].start].nNeighbours == points[segments[i].start].neighbours.size())
+                points[segments[i].start].neighbours.resize(points[segments[i].start].nNeighbours + 1);
             points[segments[i].start].neighbours[points[segments[i].start].nNeighbours] = segments[i].end;
             points[segments[i].start].nNeighbours++;
 
             // Update nearest neighbours for the end point.
+            if (points[segments[i].end].nNeighbours == points[segments[i].end].neighbours.size())
+                points[segments[i].end].neighbours.resize(points[segments[i].end].nNeighbours + 1);
             points[segments[i].end].neighbours[points[segments[i].end].nNeighbours] = segments[i].start;
             points[segments[i].end].nNeighbours++;
         }
-- 
2.43.0


From eb35a838950da571b07b237b51c1791d82705550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:03 +0000
Subject: [PATCH 07/17] fix: don't use unset boundary nodes for elements
 without a diagonal

On a fixed domain the contour can leave an element through an edge that
isn't discretised, leaving fewer than two boundary nodes to join.
---
 src/Boundary.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index d5e0d93..60e966b 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -459,6 +459,9 @@ namespace slsm
                         }
                     }
 
+                    // The contour leaves the element through an edge that isn't discretised.
+                    if (nCut < 2) continue;
+
                     // Create boundary segment.
                     BoundarySegment segment;
                     segment.element = i;
-- 
2.43.0


From 2f1af084f0af36b8371685ef3fd9c038c0970623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 08/17] fix: treat a saddle element with zero centre value
 consistently

The element is flagged CENTRE_OUTSIDE when the nodal sum is zero, but with
node 0 outside its segments were those of an element with centre inside.
---
 src/Boundary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boundary.cpp b/src/Boundary.cpp
index 60e966b..746f374 100644
--- a/src/Boundary.cpp
+++ b/src/Boundary.cpp
@@ -357,7 +357,7 @@ namespace slsm
                     NodeStatus::NodeStatus status = levelSet.mesh.nodes[node].status;
 
                     if (((status & NodeStatus::INSIDE) && (lsfSum > 0))  ||
-                        ((status & NodeStatus::OUTSIDE) && (lsfSum < 0)))
+                        ((status & NodeStatus::OUTSIDE) && (lsfSum <= 0)))
                     {
                         segment.start = boundaryPoints[0];
                         segment.end = boundaryPoints[1];
-- 
2.43.0


From b5bba3666344f89216ccb6f4777d84a416b69f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:59 +0000
Subject: [PATCH 09/17] fix: reset the stored normal variate when the generator
 is reseeded

---
 src/MersenneTwister.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MersenneTwister.h b/src/MersenneTwister.h
index 7fadc83..01627ad 100644
--- a/src/MersenneTwister.h
+++ b/src/MersenneTwister.h
@@ -120,6 +120,10 @@ namespace slsm
         {
             seed = seed_;
             generator.seed(seed);
+
+            // Discard any variate that the distributions have stored.
+            default_uniform_real_distribution.reset();
+            default_normal_distribution.reset();
         }
 
     private:
-- 
2.43.0


From 0cdb4e4d5102efeee243497721c15fe574186db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:10 +0000
Subject: [PATCH 10/17] fix: FastMarchingMethod must not combine distances from
 opposite sides in one stencil

---
 src/FastMarchingMethod.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 049bf73..726801d 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -466,6 +466,9 @@ namespace slsm
                             // Store distance.
                             dist1 = (*signedDistance)[n1];
 
+                            // Any second neighbour found so far lies on the other side.
+                            dist2 = maxDouble;
+
                             // Second neighbour in same direction.
                             unsigned int n2 = mesh.nodes[n1].neighbours[index];
 
-- 
2.43.0


From 27d806d59ed9a9aa82c6846a2d56417060a850c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:10 +0000
Subject: [PATCH 11/17] fix: FastMarchingMethod flips the sign of nodes closer
 than machine epsilon

---
 src/FastMarchingMethod.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FastMarchingMethod.cpp b/src/FastMarchingMethod.cpp
index 726801d..6eed394 100644
--- a/src/FastMarchingMethod.cpp
+++ b/src/FastMarchingMethod.cpp
@@ -610,7 +610,7 @@ namespace slsm
         // Use previous estimate.
         else return (*signedDistance)[node];
 
-        if (signedDistanceCopy[node] > doubleEpsilon) return r0;
+        if (signedDistanceCopy[node] > 0) return r0;
         else return r1;
     }
 }
-- 
2.43.0


From 3f92cffd2bf66f15dbf8e89e729c844e6a534b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:40 +0000
Subject: [PATCH 12/17] fix: normalise boundary velocities mapped to nodes
 outside of the narrow band

---
 src/LevelSet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 586b68a..2f6541e 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -788,11 +788,11 @@ namespace slsm
             }
         }
 
-        // Compute interpolated velocity.
-        for (unsigned int i=0;i<nNarrowBand;i++)
+        // Compute interpolated velocity. Nodes outside of the narrow band are
+        // included, since their velocities can be extended to those within it.
+        for (unsigned int i=0;i<mesh.nNodes;i++)
         {
-            unsigned int node = narrowBand[i];
-            if (velocity[node]) velocity[node] /= weight[node];
+            if (velocity[i]) velocity[i] /= weight[i];
         }
     }
 
-- 
2.43.0


From f90c8a3789560480cc166d630598cb11edf61c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:02 +0000
Subject: [PATCH 13/17] fix: LevelSet::isClockwise is not a strict weak
 ordering

std::sort requires an irreflexive, transitive comparator. isClockwise returned
true for equal points and contradicted itself for points below the centre,
which is undefined behaviour (libstdc++ can read past the vertices).
---
 src/LevelSet.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/LevelSet.cpp b/src/LevelSet.cpp
index 2f6541e..59c855d 100644
--- a/src/LevelSet.cpp
+++ b/src/LevelSet.cpp
@@ -1436,19 +1436,13 @@ namespace slsm
             return true;
 
         if ((point1.x - centre.x) == 0 && (point2.x - centre.x) == 0)
-        {
-            if ((point1.y - centre.y) >= 0 || (point2.y - centre.y) >= 0)
-                return (point1.y > point2.y) ? false : true;
-
-            return (point2.y > point1.y) ? false : true;
-        }
+            return (point1.y < point2.y);
 
         // Compute the cross product of the vectors (centre --> point1) x (centre --> point2).
         double det = (point1.x - centre.x) * (point2.y - centre.y)
                    - (point2.x - centre.x) * (point1.y - centre.y);
 
-        if (det < 0) return false;
-        else return true;
+        if (det != 0) return (det > 0);
 
         // Points are on the same line from the centre, check which point is
         // closer to the centre.
@@ -1459,7 +1453,7 @@ namespace slsm
         double d2 = (point2.x - centre.x) * (point2.x - centre.x)
                   + (point2.y - centre.y) * (point2.y - centre.y);
 
-        return (d1 > d2) ? false : true;
+        return (d1 < d2);
     }
 
     double LevelSet::polygonArea(std::vector<Coord>& vertices, const unsigned int& nVertices, const Coord& centre) const
-- 
2.43.0


From c6fece21f7b365f84538d5ef98ce9c61a2a62498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:34 +0000
Subject: [PATCH 14/17] fix: numbered saveLevelSetVTK ignores the velocity and
 gradient options

---
 src/InputOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 27a77ae..927d91e 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -45,7 +45,7 @@ namespace slsm
         if (!outputDirectory.empty()) fileName << outputDirectory << "/";
         fileName << "level-set_" << num.str() << ".vtk";
 
-        saveLevelSetVTK(fileName.str(), levelSet);
+        saveLevelSetVTK(fileName.str(), levelSet, isVelocity, isGradient);
     }
 
     void InputOutput::saveLevelSetVTK(const std::string& fileName,
-- 
2.43.0


From bff5d2c23a90bc79d13c2c10810bd77cad663b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:34 +0000
Subject: [PATCH 15/17] fix: loadLevelSetTXT writes past the end of the signed
 distance vector

---
 src/InputOutput.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/InputOutput.cpp b/src/InputOutput.cpp
index 927d91e..f9627bd 100644
--- a/src/InputOutput.cpp
+++ b/src/InputOutput.cpp
@@ -225,7 +225,7 @@ namespace slsm
             double tmp;
             unsigned int node = 0;
 
-            while (inputFile >> tmp >> tmp >> levelSet.signedDistance[node] >> tmp >> tmp)
+            while (node < levelSet.mesh.nNodes && inputFile >> tmp >> tmp >> levelSet.signedDistance[node] >> tmp >> tmp)
                 node++;
         }
 
@@ -235,7 +235,7 @@ namespace slsm
             double tmp;
             unsigned int node = 0;
 
-            while (inputFile >> levelSet.signedDistance[node] >> tmp >> tmp)
+            while (node < levelSet.mesh.nNodes && inputFile >> levelSet.signedDistance[node] >> tmp >> tmp)
                 node++;
         }
 
-- 
2.43.0


From dcea20203986055129a956c4be95e86856d2eaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:34 +0000
Subject: [PATCH 16/17] fix: gradients of the active functions are stored at
 their original index, past the end of the vector

---
 src/Optimise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index eb1a653..c75ac09 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -711,7 +711,7 @@ namespace slsm
                     // Scale factor.
                     double scaleFactor = scaleFactors[index] * scaleFactors[j];
 
-                    gradient[k] += (boundaryPoints[i].sensitivities[indexMap[index]]
+                    gradient[j] += (boundaryPoints[i].sensitivities[indexMap[index]]
                                  *  boundaryPoints[i].sensitivities[k]
                                  *  boundaryPoints[i].length
                                  *  scaleFactor);
-- 
2.43.0


From 42e250c42746a9e06bb40c34d7ec7bc572997ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:34 +0000
Subject: [PATCH 17/17] fix: remapping of the lambda values reads one entry
 past the end of the index map

---
 src/Optimise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimise.cpp b/src/Optimise.cpp
index c75ac09..791f38c 100644
--- a/src/Optimise.cpp
+++ b/src/Optimise.cpp
@@ -288,7 +288,7 @@ namespace slsm
             {
                 // Copy the lambda values back into position.
                 // Loop backwards to avoid overwriting data.
-                for (unsigned int i=nConstraints+1;i>0;i--)
+                for (unsigned int i=nConstraints;i>0;i--)
                     lambdas[indexMap[i]] = lambdas[i];
             }
         }
-- 
2.43.0

