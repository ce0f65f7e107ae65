From 1b8ed2bbe38cd7476b04600a7929ed9828e0762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 1/6] fix: give every tract its own tract builder

All tracts of a sky map shared one builder, whose patch geometry was
overwritten each time another tract was made, so patches and indices of a
tract depended on which tract was generated last.
---
 python/lsst/skymap/tractInfo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/lsst/skymap/tractInfo.py b/python/lsst/skymap/tractInfo.py
index ddde703..e5bfa07 100755
--- a/python/lsst/skymap/tractInfo.py
+++ b/python/lsst/skymap/tractInfo.py
@@ -22,6 +22,8 @@
 
 __all__ = ["TractInfo"]
 
+import copy
+
 import numpy as np
 from deprecated.sphinx import deprecated
 
@@ -89,7 +91,9 @@ class TractInfo:
         self._ctrCoord = ctrCoord
         self._vertexCoordList = tuple(vertexCoordList)
         self._tractOverlap = tractOverlap
-        self._tractBuilder = tractBuilder
+        # The builder holds the patch geometry of this tract, so it must not be
+        # shared with other tracts.
+        self._tractBuilder = copy.copy(tractBuilder)
         self._innerBoxCorners = innerBoxCorners
 
         minBBox = self._minimumBoundingBox(wcs)
-- 
2.43.0


From 56574c26188c5b1ed77f51467eaf1b8b299f21fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 2/6] fix: unpack bands by their index, not their position in
 the mapping

---
 python/lsst/skymap/packers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 3b17326..9b0a6ea 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -177,7 +177,7 @@ class SkyMapDimensionPacker(DimensionPacker):
         self._n_bands = n_bands
         self._n_tracts = n_tracts
         self._n_patches = n_patches
-        self._bands_list = None
+        self._bands_by_index = None
 
     @classmethod
     def make_config_field(
@@ -269,8 +269,8 @@ class SkyMapDimensionPacker(DimensionPacker):
         d = {"skymap": self.fixed["skymap"]}
         if self._n_bands:
             index, packedId = divmod(packedId, (self._n_tracts * self._n_patches))
-            if self._bands_list is None:
-                self._bands_list = list(self._bands)
-            d["band"] = self._bands_list[index]
+            if self._bands_by_index is None:
+                self._bands_by_index = {i: b for b, i in self._bands.items()}
+            d["band"] = self._bands_by_index[index]
         d["tract"], d["patch"] = divmod(packedId, self._n_patches)
         return DataCoordinate.standardize(d, dimensions=self.dimensions)
-- 
2.43.0


From 1041ebaa28c8a8d4003b3e3640f73d8d6598300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 3/6] fix: accept scalar degrees in
 RingsSkyMap.findTractIdArray

---
 python/lsst/skymap/ringsSkyMap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/lsst/skymap/ringsSkyMap.py b/python/lsst/skymap/ringsSkyMap.py
index 9f9cdbf..1da72e6 100644
--- a/python/lsst/skymap/ringsSkyMap.py
+++ b/python/lsst/skymap/ringsSkyMap.py
@@ -261,8 +261,8 @@ class RingsSkyMap(CachingSkyMap):
 
     def findTractIdArray(self, ra, dec, degrees=False):
         if degrees:
-            _ra = np.deg2rad(ra)
-            _dec = np.deg2rad(dec)
+            _ra = np.atleast_1d(np.deg2rad(ra))
+            _dec = np.atleast_1d(np.deg2rad(dec))
         else:
             _ra = np.atleast_1d(ra)
             _dec = np.atleast_1d(dec)
-- 
2.43.0


From 656ffd9493bd1c4777c803f4581572c667fedb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 4/6] fix: let RingsSkyMap.findAllTracts find all tracts that
 include a coordinate

Looking only at the 3x3 nearest tracts misses tracts near the poles and
wherever the overlap is larger than half a ring. With version 0 the north
pole tract could also be listed twice.
---
 python/lsst/skymap/ringsSkyMap.py | 68 +++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 17 deletions(-)

diff --git a/python/lsst/skymap/ringsSkyMap.py b/python/lsst/skymap/ringsSkyMap.py
index 1da72e6..9cb9e2a 100644
--- a/python/lsst/skymap/ringsSkyMap.py
+++ b/python/lsst/skymap/ringsSkyMap.py
@@ -307,6 +307,41 @@ class RingsSkyMap(CachingSkyMap):
 
         return indexes
 
+    def _candidateTractNums(self, coord, ringNum, reach):
+        """Find the tracts of a ring that are near enough to a coordinate that
+        they may include it.
+
+        Parameters
+        ----------
+        coord : `lsst.geom.SpherePoint`
+            ICRS sky coordinate to search for.
+        ringNum : `int`
+            Ring number; must not be one of the polar caps.
+        reach : `float`
+            Largest distance from its center that a tract includes (radians).
+
+        Returns
+        -------
+        tractNums : `list` of `int`
+            Tract numbers within the ring.
+        """
+        dec = coord.getLatitude().asRadians()
+        ringDec = self._ringSize*(ringNum + 1) - 0.5*math.pi
+        num = self._ringNums[ringNum]
+        # Haversine formula, solved for the difference in RA.
+        excess = math.sin(0.5*reach)**2 - math.sin(0.5*(dec - ringDec))**2
+        if excess < 0:
+            return []
+        scale = math.cos(dec)*math.cos(ringDec)
+        if excess >= scale:
+            return list(range(num))
+        deltaTract = 2*math.asin(math.sqrt(excess/scale))*num/(2*math.pi)
+        center = (coord.getLongitude() - self._raStart).wrap().asRadians()*num/(2*math.pi)
+        start, stop = math.ceil(center - deltaTract), math.floor(center + deltaTract) + 1
+        if stop - start >= num:
+            return list(range(num))
+        return [t % num for t in range(start, stop)]
+
     def findAllTracts(self, coord):
         """Find all tracts which include the specified coord.
 
@@ -320,28 +355,27 @@ class RingsSkyMap(CachingSkyMap):
         tractList : `list` of `TractInfo`
             The tracts which include the specified coord.
         """
-        ringNum = self._decToRingNum(coord.getLatitude())
+        # All tracts have the same size, so none reaches farther from its
+        # center than the corners of the first one; allow an extra patch
+        # because rounding may add one.
+        tract = self[0]
+        reach = max(tract.getCtrCoord().separation(v).asRadians() for v in tract.getVertexList())
+        reach += (max(tract.getPatchInnerDimensions()[i] for i in range(2)) + 1)*(
+            self.config.pixelScale*geom.arcseconds).asRadians()
+        if not reach < math.pi:  # Also if the corners are not on the sky
+            reach = math.pi
 
         tractList = list()
-        # ringNum denotes the closest ring to the specified coord
-        # I will check adjacent rings which may include the specified coord
-        for r in [ringNum - 1, ringNum, ringNum + 1]:
-            if r < 0 or r >= self.config.numRings:
-                # Poles will be checked explicitly outside this loop
-                continue
-            tractNum = self._raToTractNum(coord.getLongitude(), r)
-            # Adjacent tracts will also be checked.
-            for t in [tractNum - 1, tractNum, tractNum + 1]:
-                # Wrap over raStart
-                if t < 0:
-                    t = t + self._ringNums[r]
-                elif t > self._ringNums[r] - 1:
-                    t = t - self._ringNums[r]
-
+        for r in range(self.config.numRings):
+            # Poles will be checked explicitly outside this loop
+            for t in self._candidateTractNums(coord, r, reach):
                 extra = 0
                 if self._version == 0 and t == 0 and r != 0:
                     # Account for off-by-one error in getRingIndices
-                    # Note that this means that tract 1 gets duplicated.
+                    # Note that this means that tract 1 gets duplicated,
+                    # and that the first tract of the last ring is missing.
+                    if r == self.config.numRings - 1:
+                        continue
                     extra = 1
 
                 index = sum(self._ringNums[:r + extra], t + 1)  # Allow 1 for south pole
-- 
2.43.0


From 98c7cf905e2dd0f11d149638e440b68972845e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 5/6] fix: raise IndexError for out of range cell indices, as
 documented

---
 python/lsst/skymap/patchInfo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/lsst/skymap/patchInfo.py b/python/lsst/skymap/patchInfo.py
index ba80d2a..dd9231c 100755
--- a/python/lsst/skymap/patchInfo.py
+++ b/python/lsst/skymap/patchInfo.py
@@ -308,6 +308,8 @@ class PatchInfo:
         else:
             _index = Index2D(*index)
         nx, ny = self.getNumCells()
+        if (not 0 <= _index.x < nx) or (not 0 <= _index.y < ny):
+            raise IndexError("Cell index %s is not in range [0-%d, 0-%d]" % (_index, nx - 1, ny - 1))
         return nx*_index.y + _index.x
 
     def getCellIndexPair(self, sequentialIndex):
@@ -330,6 +332,8 @@ class PatchInfo:
             raise IndexError("Patch does not contain cells.")
 
         nx, ny = self.getNumCells()
+        if not 0 <= sequentialIndex < nx*ny:
+            raise IndexError("Cell index %s is not in range [0-%d]" % (sequentialIndex, nx*ny - 1))
         x = sequentialIndex % nx
         y = sequentialIndex // nx
         return Index2D(x=x, y=y)
-- 
2.43.0


From cca982536e71769f52f158b97a41972ad23c61d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:42 +0000
Subject: [PATCH 6/6] fix: findPatchList: ignore what is far off the tract

Positions close to the horizon of a tract's projection have pixel positions
beyond the range of Box2I, so findPatchList (and findTractPatchList) raised
OverflowError for them. Clip the box to the neighbourhood of the tract first.
---
 python/lsst/skymap/tractInfo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/lsst/skymap/tractInfo.py b/python/lsst/skymap/tractInfo.py
index e5bfa07..85caff1 100755
--- a/python/lsst/skymap/tractInfo.py
+++ b/python/lsst/skymap/tractInfo.py
@@ -259,6 +259,11 @@ class TractInfo:
                 # cannot be computed.
                 continue
             box2D.include(pixelPos)
+        # Pixel positions far off the tract may be too large for a Box2I; only
+        # what is within a patch border of the tract matters.
+        nearby = geom.Box2I(self._bbox)
+        nearby.grow(self.getPatchBorder() + 1)
+        box2D.clip(geom.Box2D(nearby))
         bbox = geom.Box2I(box2D)
         bbox.grow(self.getPatchBorder())
         bbox.clip(self._bbox)
-- 
2.43.0

