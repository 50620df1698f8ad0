From d12ac3cf4a1b12ba7ff900ff095d508a51b9b691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:26 +0000
Subject: [PATCH 01/38] fix: multiply the Pn/Sn refraction arc by the ray
 parameter to get its time

---
 taupy/SeismicPhase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index be6d4d3..c59cac4 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -681,7 +681,8 @@ class SeismicPhase(object):
                                self.maxDiffraction * math.pi / 180 * self.minRayParam
         elif "Pn" in self.name or "Sn" in self.name:
             self.dist[1] = self.dist[0] + self.maxRefraction * math.pi / 180
-            self.time[1] = self.time[0] + self.maxRefraction * math.pi / 180
+            self.time[1] = self.time[0] + \
+                self.maxRefraction * math.pi / 180 * self.minRayParam
         elif self.maxRayParamIndex == self.minRayParamIndex:
             self.dist[1] = self.dist[0]
             self.time[1] = self.time[0]
-- 
2.43.0


From 5b5078d436225142c4bf9ab2d696f1aad7b5b7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 02/38] fix: sample the slowness at the source depth when
 splitting a branch

The slowness at the source was never added to the (decreasing) list of ray
parameters, so phases leaving the source started at a ray that cannot leave
it: distance ranges were wrong near horizontal take-off, and asin() failed
there.
---
 taupy/TauBranch.py | 11 +-----
 taupy/TauModel.py  | 93 ++++++++++++++++------------------------------
 2 files changed, 32 insertions(+), 72 deletions(-)

diff --git a/taupy/TauBranch.py b/taupy/TauBranch.py
index 16cc6ae..32f5131 100644
--- a/taupy/TauBranch.py
+++ b/taupy/TauBranch.py
@@ -109,16 +109,7 @@ class TauBranch(object):
                 or botSLayer.botDepth != self.botDepth:
             raise TauModelError(
                 "TauBranch depths not compatible with slowness sampling.")
-        td = TimeDist(rayParam, 0, 0)
-        if topSLayer.botP >= rayParam and topSLayer.topP >= rayParam:
-            for i in range(botLayerNum + 1):
-                if sMod.getSlownessLayer(i, self.isPWave).botP < rayParam:
-                    # So we don't sum below the turning depth.
-                    break
-                else:
-                    temptd = sMod.layerTimeDist(rayParam, i, self.isPWave)
-                    td.distRadian += temptd.distRadian
-                    td.time += temptd.time
+        td = self.calcTimeDist(sMod, topLayerNum, botLayerNum, rayParam)
         self.shiftBranch(index)
         self.dist[index] = td.distRadian
         self.time[index] = td.time
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 0acbdab..132d65b 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -227,13 +227,11 @@ class TauModel(object):
             if tb.topDepth == depth or tb.botDepth == depth:
                 return deepcopy(self)
         # Depth is not a branch boundary, so must modify the tau model.
-        indexP = -1
-        PWaveRayParam = -1
-        indexS = -1
-        SWaveRayParam = -1
         outSMod = self.sMod
-        outRayParams = deepcopy(self.rayParams)  # necessary?
-        oldRayParams = self.rayParams
+        outRayParams = self.rayParams[:]
+        # New ray parameters and their indices in outRayParams, in the order
+        # in which they are inserted.
+        newSamples = []
         # Do S wave first since the S ray param is > P ray param.
         for isPWave in [False, True]:
             splitInfo = outSMod.splitLayer(depth, isPWave)
@@ -242,65 +240,36 @@ class TauModel(object):
                 # Split the slowness layers containing depth into two layers
                 # each.
                 newRayParam = splitInfo.rayParam
-                # Insert the new ray parameters into the rayParams array.
-                for index, trp, brp in zip(count(), oldRayParams[:-1],
-                                           oldRayParams[1:]):
-                    if trp < newRayParam < brp:
-                        outRayParams = oldRayParams[:index]
-                        outRayParams.append(newRayParam)
-                        outRayParams = outRayParams + oldRayParams[index:]
-                        if isPWave:
-                            indexP = index
-                            PWaveRayParam = newRayParam
-                        else:
-                            indexS = index
-                            SWaveRayParam = newRayParam
+                # Insert the new ray parameters into the rayParams array,
+                # which is in decreasing order.
+                for index, trp, brp in zip(count(1), outRayParams[:-1],
+                                           outRayParams[1:]):
+                    if trp > newRayParam > brp:
+                        outRayParams.insert(index, newRayParam)
+                        newSamples.append((newRayParam, index))
                         break
-        # Now add a sample to each branch above the depth, split the branch
-        # containing the depth, and add a sample to each deeper branch.
+        # Add the new ray parameter(s) from splitting the S and/or P wave
+        # slowness layer to both the P and S wave tau branches. The branches
+        # are copied first: they belong to the surface source model.
+        oldTauBranches = deepcopy(self.tauBranches)
+        for newRayParam, index in newSamples:
+            for pOrS in range(2):
+                for tb in oldTauBranches[pOrS]:
+                    tb.insert(newRayParam, outSMod, index)
+        # Now split the branch containing the depth.
         branchToSplit = self.findBranch(depth)
-        newTauBranches = [[TauBranch() for j in range(
-            len(self.tauBranches[0]) + 1)] for i in range(2)]
-        for i in range(branchToSplit):
-            newTauBranches[0][i] = self.tauBranches[0][i]
-            newTauBranches[1][i] = self.tauBranches[1][i]
-            # Add the new ray parameter(s) from splitting the S and/or P
-            # wave slowness layer to both the P and S wave tau branches (if
-            # splitting occurred).
-            if indexS != -1:
-                newTauBranches[0][i].insert(SWaveRayParam, outSMod, indexS)
-                newTauBranches[1][i].insert(SWaveRayParam, outSMod, indexS)
-            if indexP != -1:
-                newTauBranches[0][i].insert(PWaveRayParam, outSMod, indexP)
-                newTauBranches[1][i].insert(PWaveRayParam, outSMod, indexP)
+        newTauBranches = [[], []]
         for pOrS in range(2):
-            newTauBranches[pOrS][branchToSplit] = TauBranch(
-                self.tauBranches[pOrS][branchToSplit].topDepth, depth,
-                pOrS == 0)
-            newTauBranches[pOrS][branchToSplit].createBranch(
-                outSMod, self.tauBranches[pOrS][branchToSplit].maxRayParam,
-                outRayParams)
-            newTauBranches[pOrS][branchToSplit + 1] = \
-                self.tauBranches[pOrS][branchToSplit].difference(
-                    newTauBranches[pOrS][branchToSplit],
-                    indexP, indexS, outSMod,
-                    newTauBranches[pOrS][branchToSplit].minRayParam,
-                    outRayParams)
-        for i in range(branchToSplit + 1, len(self.tauBranches[0])):
-            for pOrS in range(2):
-                newTauBranches[pOrS][i + 1] = self.tauBranches[pOrS][i]
-            if indexS != -1:
-                # Add the new ray parameter from splitting the S wave
-                # slownes layer to both the P and S wave tau branches.
-                for pOrS in range(2):
-                    newTauBranches[pOrS][i + 1].insert(SWaveRayParam, outSMod,
-                                                       indexS)
-            if indexP != -1:
-                # Add the new ray parameter from splitting the P wave
-                # slownes layer to both the P and S wave tau branches.
-                for pOrS in range(2):
-                    newTauBranches[pOrS][i + 1].insert(PWaveRayParam, outSMod,
-                                                       indexS)
+            tb = oldTauBranches[pOrS][branchToSplit]
+            topBranch = TauBranch(tb.topDepth, depth, pOrS == 0)
+            topBranch.createBranch(outSMod, tb.maxRayParam, outRayParams)
+            # The samples have already been added to tb, so there are no new
+            # ones for the difference to take into account.
+            botBranch = tb.difference(topBranch, -1, -1, outSMod,
+                                      topBranch.minRayParam, outRayParams)
+            newTauBranches[pOrS] = (
+                oldTauBranches[pOrS][:branchToSplit] + [topBranch, botBranch]
+                + oldTauBranches[pOrS][branchToSplit + 1:])
         # We have split a branch so possibly sourceBranch, mohoBranch,
         # cmbBranch and iocbBranch are off by 1.
         outSourceBranch = self.sourceBranch
-- 
2.43.0


From a4ca40be1cc67984006ea334c0cbd246cdf91883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 03/38] fix: split every slowness layer that contains a new
 slowness sample

Inserting while enumerating a copy put the layers at the wrong index once the
sample occurred in more than one layer (e.g. mantle and inner core), which
left a slowness model with layers missing.
---
 taupy/SlownessModel.py | 66 ++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 44 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index b8a4750..0fe5061 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1322,25 +1322,15 @@ class SlownessModel(object):
             p = sLayer.evaluateAtBullen(depth, self.radiusOfEarth)
             topLayer = SlownessLayer(sLayer.topP, sLayer.topDepth, p, depth)
             botLayer = SlownessLayer(p, depth, sLayer.botP, sLayer.botDepth)
-            outLayers = deepcopy(self.PLayers) \
-                if isPWave else deepcopy(self.SLayers)
-            # or del outLayers[layerNum] - which is faster?
-            outLayers.pop(layerNum)
-            outLayers.insert(layerNum, botLayer)
-            outLayers.insert(layerNum, topLayer)
-            # Fix critical layers since we added a slowness layer.
+            # The new slowness sample has to be a layer boundary wherever it
+            # occurs, for both wave types.
             outCriticalDepths = deepcopy(self.criticalDepths)
-            self.fixCriticalDepths(outCriticalDepths, layerNum, isPWave)
-            if isPWave:
-                outPLayers = outLayers
-                outSLayers = self.fixOtherLayers(self.SLayers, p, sLayer,
-                                                 topLayer, botLayer,
-                                                 outCriticalDepths, False)
-            else:
-                outPLayers = self.fixOtherLayers(self.PLayers, p, sLayer,
-                                                 topLayer, botLayer,
-                                                 outCriticalDepths, True)
-                outSLayers = outLayers
+            outPLayers = self.fixOtherLayers(self.PLayers, p, sLayer,
+                                             topLayer, botLayer,
+                                             outCriticalDepths, True)
+            outSLayers = self.fixOtherLayers(self.SLayers, p, sLayer,
+                                             topLayer, botLayer,
+                                             outCriticalDepths, False)
             out = deepcopy(self)
             out.criticalDepths = outCriticalDepths
             out.PLayers = outPLayers
@@ -1362,35 +1352,23 @@ class SlownessModel(object):
 
     def fixOtherLayers(self, otherLayers, p, changedLayer, newTopLayer,
                        newBotLayer, criticalDepths, isPWave):
-        out = deepcopy(otherLayers)
-        # Make sure to keep sampling consistent. If in a fluid, both wave
-        # types will share a single slowness layer.
-        try:
-            otherIndex = otherLayers.index(changedLayer)
-            del out[otherIndex]
-            out.insert(otherIndex, newBotLayer)
-            out.insert(otherIndex, newTopLayer)
-        except ValueError:
-            # This will be raised by index if changedLayer can't be found,
-            # but must not break program flow. I.e. that's ok, no error
-            # should be raised, the try clause can be seen like an if.
-            pass
-        for otherLayerNum, sLayer in enumerate(out[:]):
-            if (sLayer.topP - p) * (p - sLayer.botP) > 0:
-                # Found a slowness layer with the other wave type that
-                # contains the new slowness sample.
+        out = []
+        for sLayer in otherLayers:
+            if sLayer == changedLayer:
+                # In a fluid, both wave types share a single slowness layer.
+                topLayer, botLayer = newTopLayer, newBotLayer
+            elif (sLayer.topP - p) * (p - sLayer.botP) > 0:
+                # Found another slowness layer that contains the new slowness
+                # sample.
                 topLayer = SlownessLayer(
                     sLayer.topP, sLayer.topDepth, p,
                     sLayer.bullenDepthFor(p, self.radiusOfEarth))
                 botLayer = SlownessLayer(p, topLayer.botDepth, sLayer.botP,
                                          sLayer.botDepth)
-                del out[otherLayerNum]
-                out.insert(otherLayerNum, botLayer)
-                out.insert(otherLayerNum, topLayer)
-                # Fix critical layers since we have added a slowness layer.
-                self.fixCriticalDepths(criticalDepths, otherLayerNum,
-                                       not isPWave)
-                # Skip next layer as it was just added: achieved by slicing
-                # the list iterator.
-
+            else:
+                out.append(sLayer)
+                continue
+            # Fix critical layers since we have added a slowness layer.
+            self.fixCriticalDepths(criticalDepths, len(out), isPWave)
+            out += [topLayer, botLayer]
         return out
-- 
2.43.0


From bbed90dc60561952f4e95d1edfffc706566f1797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 04/38] fix: keep the sine of near horizontal ray angles within
 its domain

---
 taupy/SeismicPhase.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index c59cac4..828e461 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -1046,13 +1046,15 @@ class SeismicPhase(object):
                 # Fake negative velocity so angle is negative in case of
                 # upgoing ray.
                 takeoffVelocity = -1 * vMod.evaluateAbove(sourceDepth, name[0])
-            takeoffAngle = (180 / math.pi) * math.asin(
-                takeoffVelocity * arrivalRayParam / (self.tMod.radiusOfEarth -
-                                                     self.sourceDepth))
+            # The slowness samples are only interpolated, so the sine can
+            # exceed 1 by a tiny amount for horizontal rays.
+            takeoffAngle = (180 / math.pi) * math.asin(max(-1, min(
+                1, takeoffVelocity * arrivalRayParam /
+                (self.tMod.radiusOfEarth - self.sourceDepth))))
             lastLeg = self.legs[-2][0]  # very last item is "END"
-            incidentAngle = (180 / math.pi) * math.asin(
-                vMod.evaluateBelow(0, lastLeg) * arrivalRayParam /
-                self.tMod.radiusOfEarth)
+            incidentAngle = (180 / math.pi) * math.asin(min(
+                1, vMod.evaluateBelow(0, lastLeg) * arrivalRayParam /
+                self.tMod.radiusOfEarth))
         return Arrival(self, arrivalTime, searchDist, arrivalRayParam, rayNum,
                        name, puristName, sourceDepth, takeoffAngle,
                        incidentAngle)
-- 
2.43.0


From c3f78412aef6831ea5a56ab57a3eec3a5d36236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 05/38] fix: give each depth corrected model its own list of
 non-discontinuity depths

---
 taupy/TauModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 132d65b..9f227c8 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -28,7 +28,7 @@ class TauModel(object):
     # noDisconDepths contains source depth and reflections and phase
     # conversions are not allowed at this branch boundary. If the source
     # happens to fall on a real discontinuity then then it is not
-    # included.
+    # included. Never modified in place, see splitBranch().
     noDisconDepths = []
 
     def __init__(self, sMod, spherical=True, debug=False):
@@ -294,7 +294,7 @@ class TauModel(object):
         tMod.sMod = outSMod
         tMod.rayParams = outRayParams
         tMod.tauBranches = newTauBranches
-        tMod.noDisconDepths.append(depth)
+        tMod.noDisconDepths = self.noDisconDepths + [depth]
         if not tMod.validate():
             raise TauModelError("SplitBranch validation failed!")
         return tMod
-- 
2.43.0


From 5feb6ae1a46d1ebef97c669514725a90f2115985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 06/38] fix: put the centre of the Earth in the bottom-most
 branch

---
 taupy/TauModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 9f227c8..03594c3 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -309,7 +309,7 @@ class TauModel(object):
                 return i
         # Check to see if depth is centre of the Earth.
         if self.tauBranches[0][len(self.tauBranches[0]) - 1].botDepth == depth:
-            return len(self.tauBranches) - 1
+            return len(self.tauBranches[0]) - 1
         else:
             raise TauModelError("No TauBranch contains this depth.")
 
-- 
2.43.0


From 0d54643c5d222bfc41623f30af22378c1014497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:57 +0000
Subject: [PATCH 07/38] fix: do not modify the shared model for a source close
 to a layer boundary

splitLayer() moved the boundary in the model it was called on, and the branch
next to a discontinuity could not be split at all.
---
 taupy/SlownessModel.py | 6 +++---
 taupy/TauModel.py      | 6 ++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 0fe5061..66922ac 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -11,7 +11,7 @@ from taupy.VelocityLayer import VelocityLayer
 from taupy.SlownessLayer import SlownessLayer, create_from_vlayer
 from taupy.helper_classes import DepthRange, CriticalDepth, TimeDist, \
     SlownessModelError, SplitLayerInfo
-from copy import deepcopy
+from copy import copy, deepcopy
 
 
 class SlownessModel(object):
@@ -1299,7 +1299,7 @@ class SlownessModel(object):
             outLayers[layerNum - 1] = SlownessLayer(sLayer.topP,
                                                     sLayer.topDepth,
                                                     sLayer.botP, depth)
-            out = self
+            out = copy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
             out.SLayers = outLayers if isPWave else self.SLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
@@ -1313,7 +1313,7 @@ class SlownessModel(object):
             outLayers[layerNum + 1] = SlownessLayer(sLayer.topP, depth,
                                                     sLayer.botP,
                                                     sLayer.botDepth)
-            out = self
+            out = copy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
             out.SLayers = outLayers if isPWave else self.SLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 03594c3..9ecaa30 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -201,6 +201,12 @@ class TauModel(object):
         if depth > self.radiusOfEarth:
             raise TauModelError("Can't depth correct to a source deeper than "
                                 "the radius of the Earth.")
+        # Branches cannot be split right next to one of their boundaries, so
+        # a source that is really close to one is put onto it.
+        for tb in self.tauBranches[0]:
+            for boundary in (tb.topDepth, tb.botDepth):
+                if abs(boundary - depth) < 0.000001:
+                    depth = boundary
         depthCorrected = self.loadFromDepthCache(depth)
         if depthCorrected is None:
             depthCorrected = self.splitBranch(depth)
-- 
2.43.0


From e13b5fc2da5cf9d763033ad7b9aabfe7e5deb8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 08/38] fix: let get_pierce_points() and get_ray_paths() run

TauP_Pierce and TauP_Path still used the constructor TauP_Time had before it
was changed to take a loaded model.
---
 taupy/TauP_Path.py   | 16 +++++-----------
 taupy/TauP_Pierce.py | 14 ++++----------
 taupy/tau.py         | 10 ++++------
 3 files changed, 13 insertions(+), 27 deletions(-)

diff --git a/taupy/TauP_Path.py b/taupy/TauP_Path.py
index 2f73df3..252ffbf 100755
--- a/taupy/TauP_Path.py
+++ b/taupy/TauP_Path.py
@@ -15,19 +15,13 @@ class TauP_Path(TauP_Pierce):
     Calcualate the ray paths for each phase, using TauP_Pierce and TauP_Time.
     """
 
-    def __init__(self,
-                 phaseList=None, modelName="iasp91", depth=0, degrees=None,
-                 coordinate_list=None, taup_model_path=None):
-        TauP_Pierce.__init__(self, coordinate_list=coordinate_list,
-                             taup_model_path=taup_model_path)
-        phaseList = phaseList if phaseList is not None else []
+    def __init__(self, taupy_model, phaseList=None, depth=0, degrees=None,
+                 coordinate_list=None):
+        # The conversion to float is important (somehow).
+        TauP_Pierce.__init__(self, taupy_model, phaseList, float(depth),
+                             degrees, coordinate_list)
         self.maxPathTime = 1e300
         self.maxPathInc = 1
-        self.phaseList = phaseList
-        self.modelName = modelName
-        # This type conversion is important (somehow).
-        self.depth = float(depth)
-        self.degrees = degrees
 
     def calculate(self, degrees):
         """
diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index 5a881be..a5714e5 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -14,21 +14,15 @@ class TauP_Pierce(TauP_Time):
     relating to the different arrivals.
     """
 
-    def __init__(self,
-                 phaseList=None, modelName="iasp91", depth=0, degrees=None,
-                 coordinate_list=None, taup_model_path=None):
-        phaseList = phaseList if phaseList is not None else []
-        TauP_Time.__init__(self, coordinate_list=coordinate_list,
-                           taup_model_path=taup_model_path)
+    def __init__(self, taupy_model, phaseList=None, depth=0, degrees=None,
+                 coordinate_list=None):
+        TauP_Time.__init__(self, taupy_model, phaseList, depth, degrees,
+                           coordinate_list)
         self.onlyTurnPoints = False
         self.onlyRevPoints = False
         self.onlyUnderPoints = False
         self.onlyAddPoints = False
         self.addDepth = []
-        self.phaseList = phaseList
-        self.modelName = modelName
-        self.depth = depth
-        self.degrees = degrees
 
     def depthCorrect(self, depth):
         """
diff --git a/taupy/tau.py b/taupy/tau.py
index 6a80947..1731b59 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -105,9 +105,8 @@ class TauPyModel(object):
                           phase_list=None, coordinate_list=None,
                           print_output=False):
         phase_list = phase_list if phase_list is not None else ["ttall"]
-        pp = TauP_Pierce(phase_list, self.model.sMod.vMod.modelName,
-                         source_depth_in_km, distance_in_degree,
-                         coordinate_list, self.taup_model_path)
+        pp = TauP_Pierce(self.model, phase_list, source_depth_in_km,
+                         distance_in_degree, coordinate_list)
         pp.run(print_output)
         if print_output:
             return
@@ -117,9 +116,8 @@ class TauPyModel(object):
                       phase_list=None, coordinate_list=None,
                       print_output=False):
         phase_list = phase_list if phase_list is not None else ["ttall"]
-        rp = TauP_Path(phase_list, self.model.sMod.vMod.modelName,
-                       source_depth_in_km, distance_in_degree,
-                       coordinate_list, self.taup_model_path)
+        rp = TauP_Path(self.model, phase_list, source_depth_in_km,
+                       distance_in_degree, coordinate_list)
         rp.run(print_output)
         if print_output:
             return
-- 
2.43.0


From 380edc459710b3784991565e3486090a70f69dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:27 +0000
Subject: [PATCH 09/38] fix: compute pierce and path points in
 Arrival.getPierce() and getPath()

---
 taupy/Arrival.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/taupy/Arrival.py b/taupy/Arrival.py
index ff2d0e7..38407ae 100644
--- a/taupy/Arrival.py
+++ b/taupy/Arrival.py
@@ -53,7 +53,7 @@ class Arrival:
         Returns pierce points as TimeDist objects.
         """
         if not self.pierce:
-            self.pierce == self.phase.calcPierce(self).getPierce()
+            self.phase.calcPierceFromArrival(self)
         return self.pierce
 
     def getPath(self):
@@ -61,7 +61,7 @@ class Arrival:
         Returns pierce points as TimeDist objects.
         """
         if not self.path:
-            self.path == self.phase.calcPath(self).getPath()
+            self.phase.calcPathFromArrival(self)
         return self.path
 
     def getModuloDistDeg(self):
-- 
2.43.0


From 6a53eea6a57c223725c7a8c57e66727ffcdb9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 10/38] fix: return arrivals in the same order in every process

Phases were put through a set, so their order (and with it the order of
simultaneous arrivals, and of all pierce and path results) depended on the
hash seed of the process.
---
 taupy/TauP_Path.py   | 1 +
 taupy/TauP_Pierce.py | 1 +
 taupy/TauP_Time.py   | 9 ++++++---
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/taupy/TauP_Path.py b/taupy/TauP_Path.py
index 252ffbf..bb65e9e 100755
--- a/taupy/TauP_Path.py
+++ b/taupy/TauP_Path.py
@@ -42,6 +42,7 @@ class TauP_Path(TauP_Pierce):
         for phase in self.phases:
             phaseArrivals = phase.calcPath(degrees)
             self.arrivals += phaseArrivals
+        self.sortArrivals()
 
     def printResult(self):
         radiusOfEarth = self.tModDepth.radiusOfEarth
diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index a5714e5..fcfc5e0 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -80,6 +80,7 @@ class TauP_Pierce(TauP_Time):
         for phase in self.phases:
             phaseArrivals = phase.calcPierce(degrees)
             self.arrivals += phaseArrivals
+        self.sortArrivals()
 
     def printResult(self):
         for currArrival in self.arrivals:
diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index cc3e204..750a675 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -235,9 +235,12 @@ def parsePhaseList(phaseList):
     phaseNames = []
     for phaseName in phaseList:
         phaseNames += getPhaseNames(phaseName)
-    # Remove duplicates:
-    phaseNames = list(set(phaseNames))
-    return phaseNames
+    # Remove duplicates, but keep the order:
+    uniqueNames = []
+    for phaseName in phaseNames:
+        if phaseName not in uniqueNames:
+            uniqueNames.append(phaseName)
+    return uniqueNames
 
 
 def getPhaseNames(phaseName):
-- 
2.43.0


From b86a8b041908910274e657131902c65209585848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 11/38] fix: parse reflections and conversions at named and
 numbered depths

The test for P and S was always true, so ^, v and digits were never looked
at, and the last digit of a depth was dropped.
---
 taupy/SeismicPhase.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 828e461..4af991f 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -126,7 +126,7 @@ class SeismicPhase(object):
             # Find out if the next leg represents a phase conversion or
             # reflection depth.
             if currLeg.startswith("v") or currLeg.startswith("^"):
-                disconBranch = closestBranchToDepth(tMod, currLeg[1])
+                disconBranch = closestBranchToDepth(tMod, currLeg[1:])
                 legDepth = tMod.tauBranches[0][disconBranch].topDepth
                 puristName += currLeg[0]
                 puristName += str(legDepth)
@@ -251,7 +251,7 @@ class SeismicPhase(object):
                         "p and s must always be upgoing and cannot come "
                         "immediately before a top-sided reflection.")
                 elif nextLeg.startswith("^"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if self.currBranch >= disconBranch:
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
@@ -290,7 +290,7 @@ class SeismicPhase(object):
                     self.addToBranch(tMod, self.currBranch, 0, isPWave,
                                      self.REFLECTTOP)
                 elif nextLeg.startswith("v"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if self.currBranch <= disconBranch - 1:
                         self.addToBranch(tMod, self.currBranch,
                                          disconBranch - 1, isPWave,
@@ -301,7 +301,7 @@ class SeismicPhase(object):
                             "{nextLeg} when currBranch > disconBranch".format(
                                 **locals()))
                 elif nextLeg.startswith("^"):
-                    disconBranch = closestBranchToDepth(tMod, nextLeg[1])
+                    disconBranch = closestBranchToDepth(tMod, nextLeg[1:])
                     if prevLeg == "K":
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
@@ -314,9 +314,8 @@ class SeismicPhase(object):
                         self.addToBranch(tMod, self.currBranch, disconBranch,
                                          isPWave, self.REFLECTTOP)
                     elif ((prevLeg.startswith("v") and
-                                   disconBranch < closestBranchToDepth(tMod,
-                                                                       prevLeg[
-                                                                           1])
+                                   disconBranch < closestBranchToDepth(
+                                       tMod, prevLeg[1:])
                            or (prevLeg == "m" and
                                        disconBranch < tMod.mohoBranch)
                            or (prevLeg == "c" and
@@ -488,8 +487,8 @@ class SeismicPhase(object):
                     self.addToBranch(tMod, self.currBranch, tMod.iocbBranch,
                                      isPWave, self.TRANSUP)
             elif (any(currLeg == p for p in ("m", "c", "i"))
-                  or currLeg.startswith == "^"
-                  or currLeg.startswith == "v" or isLegDepth):
+                  or currLeg.startswith("^")
+                  or currLeg.startswith("v") or isLegDepth):
                 pass
             else:
                 raise TauModelError(
@@ -1111,7 +1110,7 @@ def legPuller(name):
                                         "m", "c")):
                 legs.append(nchar)
                 offset += 1
-            elif nchar == "P" or "S":
+            elif nchar == "P" or nchar == "S":
                 # Now it gets complicated, first see if the next char is
                 # part of a different leg or if it's the end.
                 if (offset + 1 == len(name) or
@@ -1139,14 +1138,15 @@ def legPuller(name):
             elif nchar == "^" or nchar == "v":
                 # Top side or bottom side reflections, check for standard
                 # boundaries and then check for numerical ones.
-                if any(name[offset + 1] == c for c in ("m", "c", "i")):
+                nextChar = name[offset + 1:offset + 2]
+                if any(nextChar == c for c in ("m", "c", "i")):
                     legs.append(name[offset:offset + 2])
                     offset += 2
-                elif name[offset + 1].isdigit() or name[offset + 1] == ".":
+                elif nextChar.isdigit() or nextChar == ".":
                     numString = name[offset]
                     offset += 1
-                    while name[offset + 1].isdigit() or name[
-                                offset + 1] == ".":
+                    while offset < len(name) and (name[offset].isdigit()
+                                                  or name[offset] == "."):
                         numString += name[offset]
                         offset += 1
                     legs.append(numString)
@@ -1154,9 +1154,9 @@ def legPuller(name):
                     raise TauModelError("Invalid phase name {nchar} in {name}."
                                         .format(**locals()))
             elif nchar.isdigit() or nchar == ".":
-                numString = name[offset]
-                offset += 1
-                while name[offset + 1].isdigit() or name[offset + 1] == ".":
+                numString = ""
+                while offset < len(name) and (name[offset].isdigit()
+                                              or name[offset] == "."):
                     numString += name[offset]
                     offset += 1
                 legs.append(numString)
-- 
2.43.0


From 3779c1032a9e36e38fb0998c62522ab2b488a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 12/38] fix: let surface wave phases (e.g. 3.5kmps) be computed

They have no ray parameter range, which must not be looked at first.
---
 taupy/SeismicPhase.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 4af991f..aa55017 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -587,15 +587,6 @@ class SeismicPhase(object):
 
     def sumBranches(self, tMod):
         """Sum the appropriate branches for this phase."""
-        if self.maxRayParam < 0 or self.minRayParam > self.maxRayParam:
-            # Phase has no arrivals, possibly due to source depth.
-            self.rayParams = []
-            self.minRayParam = -1
-            self.maxRayParam = -1
-            self.dist = []
-            self.time = []
-            self.maxDistance = -1
-            return
         # Special case for surface waves.
         if self.name.endswith("kmps"):
             self.dist = [0, 0]
@@ -610,6 +601,15 @@ class SeismicPhase(object):
             self.maxDistance = 2 * math.pi
             self.downGoing.append(True)
             return
+        if self.maxRayParam < 0 or self.minRayParam > self.maxRayParam:
+            # Phase has no arrivals, possibly due to source depth.
+            self.rayParams = []
+            self.minRayParam = -1
+            self.maxRayParam = -1
+            self.dist = []
+            self.time = []
+            self.maxDistance = -1
+            return
         # Find the ray parameter index that corresponds to the minRayParam
         # and maxRayParam.
         for i, rp in enumerate(tMod.rayParams):
-- 
2.43.0


From 8a77ebbb4f922331c074b50eef26fb4236532fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 13/38] fix: do not return the same ray twice at a distance of
 0 degrees

---
 taupy/SeismicPhase.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index aa55017..b59a31f 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -769,8 +769,8 @@ class SeismicPhase(object):
         # less than the maximum distance for this phase. This ensures that
         # we get the time for phases that accumulate more than 180 degrees
         # of distance, for instance PKKKKP might wrap all of the way around.
-        # A special case exists at 180, so we skip the second case if
-        # tempDeg==180.
+        # Special cases exist at 180 and 0, where both distances are also
+        # found by the first case, so we skip the second case there.
         n = 0
         while n * 2 * math.pi + radDist <= self.maxDistance:
             # Look for arrivals that are radDist + 2nPi, i.e. rays that have
@@ -795,7 +795,7 @@ class SeismicPhase(object):
             # Look for arrivals that are 2(n+1)Pi-radDist, i.e. rays that
             # have done more than one half lap plus some number of whole laps.
             searchDist = (n + 1) * 2 * math.pi - radDist
-            if tempDeg != 180:
+            if tempDeg != 180 and tempDeg != 0:
                 for rayNum in range(len(self.dist) - 1):
                     if searchDist == self.dist[rayNum + 1] \
                             and rayNum + 1 != len(self.dist) - 1:
-- 
2.43.0


From 77a1515ed4d5d1456bc24bfd0da0d57a9a96277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:50 +0000
Subject: [PATCH 14/38] fix: use the radius of the velocity model instead of
 6371 km

---
 taupy/SlownessModel.py | 24 ++++++++++++++++--------
 taupy/TauModel.py      |  2 +-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 66922ac..c72a9d0 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -184,8 +184,10 @@ class SlownessModel(object):
             currVLayer.topSVelocity, currVLayer.topSVelocity,
             currVLayer.topDensity, currVLayer.topDensity, currVLayer.topQp,
             currVLayer.topQp, currVLayer.topQs, currVLayer.topQs)
-        currSLayer = create_from_vlayer(currVLayer, self.SWAVE)
-        currPLayer = create_from_vlayer(currVLayer, self.PWAVE)
+        currSLayer = create_from_vlayer(currVLayer, self.SWAVE,
+                                        self.radiusOfEarth)
+        currPLayer = create_from_vlayer(currVLayer, self.PWAVE,
+                                        self.radiusOfEarth)
         # We know that the top is always a critical slowness so add 0
         self.criticalDepths.append(CriticalDepth(0, 0, 0, 0))
         # Check to see if starting in fluid zone.
@@ -222,7 +224,8 @@ class SlownessModel(object):
                 self.fluidLayerDepths.append(fluidZone)
 
             currPLayer = create_from_vlayer(currVLayer,
-                                            self.PWAVE)
+                                            self.PWAVE,
+                                            self.radiusOfEarth)
             # If we are in a fluid zone ( S velocity = 0.0 ) or if we are below
             # the outer core and allowInnerCoreS=false then use the P velocity
             # structure to look for critical points.
@@ -231,7 +234,8 @@ class SlownessModel(object):
                 currSLayer = currPLayer
             else:
                 currSLayer = create_from_vlayer(currVLayer,
-                                                self.SWAVE)
+                                                self.SWAVE,
+                                                self.radiusOfEarth)
 
             if prevSLayer.botP != currSLayer.topP \
                     or prevPLayer.botP != currPLayer.topP:
@@ -592,7 +596,8 @@ class SlownessModel(object):
                     prevVLayer.botDepth, prevVLayer.botPVelocity,
                     origVLayer.topPVelocity, topSVel, botSVel)
                 currPLayer = create_from_vlayer(currVLayer,
-                                                self.PWAVE)
+                                                self.PWAVE,
+                                                self.radiusOfEarth)
                 self.PLayers.append(currPLayer)
                 if (prevVLayer.botSVelocity == 0
                     and origVLayer.topSVelocity == 0) \
@@ -601,10 +606,12 @@ class SlownessModel(object):
                     currSLayer = currPLayer
                 else:
                     currSLayer = create_from_vlayer(currVLayer,
-                                                    self.SWAVE)
+                                                    self.SWAVE,
+                                                    self.radiusOfEarth)
                 self.SLayers.append(currSLayer)
             currPLayer = create_from_vlayer(origVLayer,
-                                            self.PWAVE)
+                                            self.PWAVE,
+                                            self.radiusOfEarth)
             self.PLayers.append(currPLayer)
             if self.depthInFluid(origVLayer.topDepth) or (
                     self.allowInnerCoreS is False
@@ -612,7 +619,8 @@ class SlownessModel(object):
                 currSLayer = currPLayer
             else:
                 currSLayer = create_from_vlayer(origVLayer,
-                                                self.SWAVE)
+                                                self.SWAVE,
+                                                self.radiusOfEarth)
             self.SLayers.append(currSLayer)
         # Make sure that all high slowness layers are sampled exactly
         # at their bottom
diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 9ecaa30..5815e65 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -33,7 +33,7 @@ class TauModel(object):
 
     def __init__(self, sMod, spherical=True, debug=False):
         self.debug = debug
-        self.radiusOfEarth = 6371.0
+        self.radiusOfEarth = sMod.radiusOfEarth
         # True if this is a spherical slowness model. False if flat.
         self.spherical = spherical
         # Ray parameters used to construct the tau branches. This may only be
-- 
2.43.0


From 57b114f722148682dae559a387aa3445d46d949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 15/38] fix: keep the cosine of the great circle distance
 within its domain

---
 taupy/TauP_Time.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index 750a675..0246fd0 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -348,9 +348,12 @@ def great_circle_dist(stn, event):
     lonA = stn[1]
     latB = event[0]
     lonB = event[1]
-    return rtod * math.acos(math.sin(latA * dtor) * math.sin(latB * dtor)
-                            + math.cos(latA * dtor) * math.cos(latB * dtor)
-                            * math.cos((lonB - lonA) * dtor))
+    cosDist = (math.sin(latA * dtor) * math.sin(latB * dtor)
+               + math.cos(latA * dtor) * math.cos(latB * dtor)
+               * math.cos((lonB - lonA) * dtor))
+    # Rounding can move this outside the domain of the arc cosine if the points
+    # coincide or are antipodal.
+    return rtod * math.acos(max(-1, min(1, cosDist)))
 
 if __name__ == '__main__':
     # Replace the Java main method, which is a static (i.e. class) method
-- 
2.43.0


From 781843e987bd0e7cf6e3544193926758ca24b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 16/38] fix: skip blank lines and comment lines in velocity
 model files

---
 taupy/VelocityModel.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/taupy/VelocityModel.py b/taupy/VelocityModel.py
index 4f205a4..f458f56 100755
--- a/taupy/VelocityModel.py
+++ b/taupy/VelocityModel.py
@@ -332,11 +332,11 @@ class VelocityModel(object):
             # but less elegant)
             f.readline()
             f.readline()
+            # Lines that hold nothing but a comment are skipped.
+            rows = [line for line in (l.partition('#')[0].strip() for l in f)
+                    if line]
             # Read the first line to provide initial top values.
-            line = f.readline()
-            line = line.partition('#')[0]
-            line = line.rstrip()  # or just .strip()?'
-            columns = line.split()
+            columns = rows[0].split()
             topDepth = float(columns[0])
             topPVel = float(columns[1])
             topSVel = float(columns[2])
@@ -350,10 +350,7 @@ class VelocityModel(object):
             topDensity = float(columns[3])
 
                 # Iterate over the rest of the file.
-            for line in f:
-                line = line.partition('#')[0]
-                # needs the other comment options
-                line = line.rstrip()  # or just .strip()?'
+            for line in rows[1:]:
                 columns = line.split()
                 botDepth = float(columns[0])
                 botPVel = float(columns[1])
-- 
2.43.0


From 6f1e939cfc317f224e1b3cea53ce5614fcad3b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 17/38] fix: use all phases if the phase list is empty

---
 taupy/tau.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/taupy/tau.py b/taupy/tau.py
index 1731b59..70f8bab 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -93,7 +93,8 @@ class TauPyModel(object):
         # Accessing the arrivals not just by list indices but by phase name
         # might be useful, but also difficult: several arrivals can have the
         # same phase.
-        phase_list = phase_list if phase_list is not None else ["ttall"]
+        phase_list = (list(phase_list) if phase_list is not None else []) \
+            or ["ttall"]
         tt = TauP_Time(self.model, phase_list, source_depth_in_km,
                        distance_in_degree, coordinate_list)
         tt.run(print_output)
@@ -104,7 +105,8 @@ class TauPyModel(object):
     def get_pierce_points(self, source_depth_in_km, distance_in_degree=None,
                           phase_list=None, coordinate_list=None,
                           print_output=False):
-        phase_list = phase_list if phase_list is not None else ["ttall"]
+        phase_list = (list(phase_list) if phase_list is not None else []) \
+            or ["ttall"]
         pp = TauP_Pierce(self.model, phase_list, source_depth_in_km,
                          distance_in_degree, coordinate_list)
         pp.run(print_output)
@@ -115,7 +117,8 @@ class TauPyModel(object):
     def get_ray_paths(self, source_depth_in_km, distance_in_degree=None,
                       phase_list=None, coordinate_list=None,
                       print_output=False):
-        phase_list = phase_list if phase_list is not None else ["ttall"]
+        phase_list = (list(phase_list) if phase_list is not None else []) \
+            or ["ttall"]
         rp = TauP_Path(self.model, phase_list, source_depth_in_km,
                        distance_in_degree, coordinate_list)
         rp.run(print_output)
-- 
2.43.0


From 25a8f21537dfb7fd87fcf62a47219c43668e679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 18/38] fix: write a model to a file name without a directory

---
 taupy/TauP_Create.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/taupy/TauP_Create.py b/taupy/TauP_Create.py
index c2a90a6..217ff21 100644
--- a/taupy/TauP_Create.py
+++ b/taupy/TauP_Create.py
@@ -120,8 +120,9 @@ class TauP_Create(object):
             if self.debug:
                 print("Done calculating Tau branches.")
 
-            if not os.path.exists(os.path.dirname(self.output_filename)):
-                os.makedirs(os.path.dirname(self.output_filename))
+            output_dir = os.path.dirname(self.output_filename)
+            if output_dir and not os.path.exists(output_dir):
+                os.makedirs(output_dir)
             self.tMod.writeModel(self.output_filename)
             if self.debug:
                 print("Done Saving " + self.output_filename)
-- 
2.43.0


From 95f0da907e1abe5eee590e293938758401272f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 19/38] fix: load a custom model whose file name equals that of
 an internal model

---
 taupy/TauModelLoader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/taupy/TauModelLoader.py b/taupy/TauModelLoader.py
index d6dcffe..42317bd 100644
--- a/taupy/TauModelLoader.py
+++ b/taupy/TauModelLoader.py
@@ -17,7 +17,8 @@ def load(model_name):
     """
     #
     filename = _get_model_filename(model_name)
-    if not os.path.exists(filename):
+    # The path of a custom model can end in the name of an internal one.
+    if os.path.dirname(model_name) or not os.path.exists(filename):
         filename = model_name
 
     with open(filename, 'rb') as f:
-- 
2.43.0


From 9f4003d298ea03d680a77e65090f4e9f84f8f563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 20/38] fix: do not use P slownesses for S waves if the source
 is close to a layer boundary

---
 taupy/SlownessModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index c72a9d0..f451506 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1309,7 +1309,7 @@ class SlownessModel(object):
                                                     sLayer.botP, depth)
             out = copy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
-            out.SLayers = outLayers if isPWave else self.SLayers
+            out.SLayers = self.SLayers if isPWave else outLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
         elif abs(depth - sLayer.botDepth) < 0.000001:
             # As above.
@@ -1323,7 +1323,7 @@ class SlownessModel(object):
                                                     sLayer.botDepth)
             out = copy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
-            out.SLayers = outLayers if isPWave else self.SLayers
+            out.SLayers = self.SLayers if isPWave else outLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
         else:
             # Must split properly.
-- 
2.43.0


From 689db55e578b4b95f08d0eefaaa0a10fde6e8be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 21/38] fix: shadow zones of phases with legs that do not turn
 above the low velocity zone

---
 taupy/SeismicPhase.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index b59a31f..1708788 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -721,27 +721,31 @@ class SeismicPhase(object):
                         newtime = deepcopy(self.time[:hszIndex])
                         newrayParams = deepcopy(self.rayParams[:hszIndex])
                         newrayParams.append(hszi.rayParam)
-                        # Sum the branches with an appropriate multiplier.
+                        # Sum the branches, without those that are below the
+                        # top of the high slowness zone in the legs that turn
+                        # there.
                         newdist.append(0)
                         newtime.append(0)
-                        for tb, tbs, taub, taubs in zip(timesBranches[0],
-                                                        timesBranches[1],
-                                                        tMod.tauBranches[0],
-                                                        tMod.tauBranches[1]):
-                            if tb != 0 and taub.topDepth < hszi.topDepth:
-                                newdist[hszIndex] += tb * taub.dist[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
-                                newtime[hszIndex] += tb * taub.time[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
-                            if tbs != 0 and taubs.topDepth < hszi.topDepth:
-                                newdist[hszIndex] += tbs * taubs.dist[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
-                                newtime[hszIndex] += tbs * taubs.time[
-                                    self.maxRayParamIndex + hszIndex -
-                                    indexOffset]
+                        turnsAtTop = False
+                        for legNum, (branchSeq, waveType, downGoing) \
+                                in enumerate(zip(self.branchSeq, self.waveType,
+                                                 self.downGoing)):
+                            if downGoing and not (
+                                    legNum > 0 and self.downGoing[legNum - 1]
+                                    and self.waveType[legNum - 1] == waveType):
+                                # Start of a downgoing leg.
+                                turnsAtTop = (waveType == isPwave
+                                              and branchSeq < branchNum)
+                            if turnsAtTop and waveType == isPwave \
+                                    and branchSeq >= branchNum:
+                                continue
+                            taub = tMod.getTauBranch(branchSeq, waveType)
+                            newdist[hszIndex] += taub.dist[
+                                self.maxRayParamIndex + hszIndex -
+                                indexOffset]
+                            newtime[hszIndex] += taub.time[
+                                self.maxRayParamIndex + hszIndex -
+                                indexOffset]
                         newdist += self.dist[hszIndex:]
                         newtime += self.time[hszIndex:]
                         newrayParams += self.rayParams[hszIndex:]
-- 
2.43.0


From 1e09c2a09023a83a32bef64760b88acd757a8f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 22/38] fix: no arrivals for conversions below the source of an
 upgoing leg

---
 taupy/SeismicPhase.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 1708788..82a4ced 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -272,6 +272,12 @@ class SeismicPhase(object):
                                          and not nextLeg == "K" else self.REFLECTTOP))
                 elif isNextLegDepth:
                     disconBranch = closestBranchToDepth(tMod, nextLeg)
+                    if disconBranch > self.currBranch:
+                        # Discontinuity is below the current location, but we
+                        # have an upgoing ray, so this is an illegal ray for
+                        # this source depth.
+                        self.maxRayParam = -1
+                        return
                     self.addToBranch(tMod, self.currBranch, disconBranch,
                                      isPWave, self.TRANSUP)
                 else:
-- 
2.43.0


From 171244ac5c86a82abbeee21229b492fe1ef6c4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:01 +0000
Subject: [PATCH 23/38] fix: put the segments of head and diffracted waves into
 pierce points and paths

The path of Pn lacked the segment along the Moho, and the pierce points of
phases like PnS got one at every other crossing of the Moho, too.
---
 taupy/SeismicPhase.py | 87 ++++++++++++++-----------------------------
 1 file changed, 27 insertions(+), 60 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 82a4ced..2308da6 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -100,6 +100,9 @@ class SeismicPhase(object):
         # This allows a check to make sure the path is correct. Used in
         # addToBranch() and parseName().
         self.legAction = []
+        # Indices into branchSeq of the branches after which the phase
+        # refracts along the moho or diffracts along the cmb.
+        self.headLegs = []
         # True if the current leg of the phase is down going. This allows a
         # check to make sure the path is correct.
         # Used in addToBranch() and parseName().
@@ -402,6 +405,7 @@ class SeismicPhase(object):
                         self.addToBranch(tMod, self.currBranch,
                                          tMod.cmbBranch - 1, isPWave,
                                          self.TURN)
+                        self.headLegs.append(len(self.branchSeq) - 1)
                         self.maxRayParam = self.minRayParam
                         if nextLeg == "END" or nextLeg.startswith("P") \
                                 or nextLeg.startswith("S"):
@@ -437,6 +441,7 @@ class SeismicPhase(object):
                             self.addToBranch(tMod, self.currBranch,
                                              tMod.mohoBranch, isPWave,
                                              self.TURN)
+                            self.headLegs.append(len(self.branchSeq) - 1)
                             self.addToBranch(tMod, self.currBranch,
                                              tMod.mohoBranch, isPWave,
                                              self.TRANSUP)
@@ -870,9 +875,8 @@ class SeismicPhase(object):
         # so the pierce point when the ray leaves branch i is stored in i + 1.
         # Use linear interpolation between rays that we know.
         assert len(self.branchSeq) == len(self.waveType) == len(self.downGoing)
-        for branchNum, isPWave, isDownGoing in zip(self.branchSeq,
-                                                   self.waveType,
-                                                   self.downGoing):
+        for legNum, branchNum, isPWave, isDownGoing in zip(
+                count(), self.branchSeq, self.waveType, self.downGoing):
             # Save the turning depths for the ray parameter for both P and
             # S waves. This way we get the depth correct for any rays that
             # turn within a layer. We have to do this on a per branch basis
@@ -916,9 +920,14 @@ class SeismicPhase(object):
             if abs(prevBranchTime - branchTime) > 1e-10:
                 pierce.append(TimeDist(distRayParam, branchTime, branchDist,
                                        branchDepth))
-        if any(x in self.name for x in ["Pdiff", "Pn", "Sdiff", "Sn"]):
-            pierce = self.handleHeadOrDiffractedWave(currArrival, pierce)
-        elif "kmps" in self.name:
+            if legNum in self.headLegs:
+                # The ray leaves the moho or the cmb again.
+                headTD = self.headOrDiffractedSegment(currArrival)
+                branchTime += headTD.time
+                branchDist += headTD.distRadian
+                pierce.append(TimeDist(distRayParam, branchTime, branchDist,
+                                       headTD.depth))
+        if "kmps" in self.name:
             pierce.append(TimeDist(distRayParam, currArrival.time,
                                    currArrival.dist, 0))
         currArrival.pierce = pierce
@@ -957,28 +966,8 @@ class SeismicPhase(object):
                         raise RuntimeError("Path is backtracking, "
                                            "this is impossible.")
             # Special case for head and diffracted waves:
-            if(branchNum == self.tMod.cmbBranch - 1
-               and i < len(self.branchSeq) - 1
-               and self.branchSeq[i + 1] == self.tMod.cmbBranch - 1
-               and ("Pdiff" in self.name or "Sdiff" in self.name)):
-                diffTD = [TimeDist(currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0])
-                                   * currArrival.rayParam,
-                                   currArrival.dist - self.dist[0],
-                                   self.tMod.cmbDepth)]
-                pathList.append(diffTD)
-            elif(branchNum == self.tMod.mohoBranch - 1
-                 and i < len(self.branchSeq) - 1
-                 and self.branchSeq[i + 1] == self.tMod.mohoBranch - 1
-                 and ("Pn" in self.name or "Sn" in self.name)):
-                # Can't have both Pn and Sn in a wave, so one of these is 0.
-                numFound = max(self.name.count("Pn"), self.name.count("Sn"))
-                headTD = [TimeDist(currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0]) / numFound
-                                   * currArrival.rayParam,
-                                   (currArrival.dist - self.dist[0])/numFound,
-                                   self.tMod.mohoDepth)]
-                pathList.append(headTD)
+            if i in self.headLegs:
+                pathList.append([self.headOrDiffractedSegment(currArrival)])
         if "kmps" in self.name:
             # kmps phases have no branches, so need to end them at the arrival
             # distance.
@@ -996,42 +985,20 @@ class SeismicPhase(object):
                 currArrival.path.append(deepcopy(cumulative))
         return currArrival
 
-    def handleHeadOrDiffractedWave(self, currArrival, orig):
+    def headOrDiffractedSegment(self, currArrival):
         """
-        Here we worry about the special case for head and diffracted
-        waves. It is assumed that a phase can be a diffracted wave or a
-        head wave, but not both. Nor can it be a head wave or diffracted
-        wave for both P and S.
+        One of the segments along the moho or the cmb of a head wave or a
+        diffracted wave. It is assumed that a phase can be a diffracted wave
+        or a head wave, but not both. All of its segments have the same length.
         """
-        for ps in ["Pn", "Sn", "Pdiff", "Sdiff"]:
-            if ps in self.name:
-                phaseSeg = ps
-                break
+        if "Pdiff" in self.name or "Sdiff" in self.name:
+            headDepth = self.tMod.cmbDepth
         else:
-            raise TauModelError("No head/diff segment in" + str(self.name))
-        if phaseSeg in ["Pn", "Sn"]:
             headDepth = self.tMod.mohoDepth
-        else:
-            headDepth = self.tMod.cmbDepth
-        numFound = self.name.count(phaseSeg)
-        refractDist = currArrival.dist - self.dist[0]
-        refractTime = refractDist * currArrival.rayParam
-        out = []
-        j = 0
-        for td in orig:
-            # This is a little weird as we are not checking where we are in
-            # the phase name, but simply if the depth matches. This likely
-            # works in most cases, but may not for head/diffracted waves that
-            # undergo a phase change, if that type of phase can even exist.
-            out.append(TimeDist(td.p, td.time + j * refractTime / numFound,
-                                td.distRadian + j * refractDist / numFound,
-                                td.depth))
-            if td.depth == headDepth:
-                j += 1
-                out.append(TimeDist(td.p, td.time + j * refractTime / numFound,
-                                    td.distRadian + j * refractDist / numFound,
-                                    td.depth))
-        return out
+        refractDist = (currArrival.dist - self.dist[0]) / len(self.headLegs)
+        return TimeDist(currArrival.rayParam,
+                        refractDist * currArrival.rayParam, refractDist,
+                        headDepth)
 
     def linearInterpArrival(self, searchDist, rayNum, name, puristName,
                             sourceDepth):
-- 
2.43.0


From 48d72affe3a296cb29bc829732a1efcffced542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 24/38] fix: pierce points of surface wave phases

---
 taupy/SeismicPhase.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 2308da6..222eddf 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -610,7 +610,6 @@ class SeismicPhase(object):
             self.rayParams[1] = self.rayParams[0]
             self.minDistance = 0
             self.maxDistance = 2 * math.pi
-            self.downGoing.append(True)
             return
         if self.maxRayParam < 0 or self.minRayParam > self.maxRayParam:
             # Phase has no arrivals, possibly due to source depth.
-- 
2.43.0


From b8dff92eb0edb50692405613e9b0d7d15d73c668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:15 +0000
Subject: [PATCH 25/38] fix: shadow zones of phases with several high slowness
 zones

The sample at the top of a high slowness zone was taken from a wrong ray
parameter if a shadow zone had been added for the other wave type before, and
was missing if no ray turns below the zone.
---
 taupy/SeismicPhase.py | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 222eddf..bcb11d6 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -695,8 +695,6 @@ class SeismicPhase(object):
         elif self.maxRayParamIndex == self.minRayParamIndex:
             self.dist[1] = self.dist[0]
             self.time[1] = self.time[0]
-        self.minDistance = min(self.dist)
-        self.maxDistance = max(self.dist)
         # Now check to see if our ray parameter range includes any ray
         # parameters that are associated with high slowness zones. If so,
         # then we will need to insert a "shadow zone" into our time and
@@ -705,9 +703,8 @@ class SeismicPhase(object):
             hsz = tMod.sMod.highSlownessLayerDepthsP \
                 if isPwave \
                 else tMod.sMod.highSlownessLayerDepthsS
-            indexOffset = 0
             for hszi in hsz:
-                if self.maxRayParam > hszi.rayParam > self.minRayParam:
+                if self.maxRayParam > hszi.rayParam >= self.minRayParam:
                     # There is a high slowness zone within our ray parameter
                     # range so might need to add a shadow zone. Need to
                     # check if the current wave type is part of the phase at
@@ -727,15 +724,11 @@ class SeismicPhase(object):
                             break
                     if foundOverlap:
                         hszIndex = self.rayParams.index(hszi.rayParam)
-                        newdist = deepcopy(self.dist[:hszIndex])
-                        newtime = deepcopy(self.time[:hszIndex])
-                        newrayParams = deepcopy(self.rayParams[:hszIndex])
-                        newrayParams.append(hszi.rayParam)
+                        tModIndex = tMod.rayParams.index(hszi.rayParam)
                         # Sum the branches, without those that are below the
                         # top of the high slowness zone in the legs that turn
                         # there.
-                        newdist.append(0)
-                        newtime.append(0)
+                        topdist, toptime = 0, 0
                         turnsAtTop = False
                         for legNum, (branchSeq, waveType, downGoing) \
                                 in enumerate(zip(self.branchSeq, self.waveType,
@@ -750,19 +743,19 @@ class SeismicPhase(object):
                                     and branchSeq >= branchNum:
                                 continue
                             taub = tMod.getTauBranch(branchSeq, waveType)
-                            newdist[hszIndex] += taub.dist[
-                                self.maxRayParamIndex + hszIndex -
-                                indexOffset]
-                            newtime[hszIndex] += taub.time[
-                                self.maxRayParamIndex + hszIndex -
-                                indexOffset]
-                        newdist += self.dist[hszIndex:]
-                        newtime += self.time[hszIndex:]
-                        newrayParams += self.rayParams[hszIndex:]
-                        indexOffset += 1
-                        self.dist = newdist
-                        self.time = newtime
-                        self.rayParams = newrayParams
+                            topdist += taub.dist[tModIndex]
+                            toptime += taub.time[tModIndex]
+                        if hszi.rayParam > self.minRayParam:
+                            self.dist.insert(hszIndex, topdist)
+                            self.time.insert(hszIndex, toptime)
+                            self.rayParams.insert(hszIndex, hszi.rayParam)
+                        else:
+                            # No ray turns below the high slowness zone, so
+                            # this is the last one.
+                            self.dist[hszIndex] = topdist
+                            self.time[hszIndex] = toptime
+        self.minDistance = min(self.dist)
+        self.maxDistance = max(self.dist)
 
     def calcTime(self, degrees):
         """
-- 
2.43.0


From 7c7e8cff90e745b9290b04687f4141279be43cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:59 +0000
Subject: [PATCH 26/38] fix: pierce points of rays that turn right above a high
 slowness zone

The branches below the zone were interpolated with the sample of the ray that
just passes through it. Also take the samples of the last ray parameter
interval for the ray that is exactly at its end.
---
 taupy/SeismicPhase.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index bcb11d6..91ccbdb 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -103,6 +103,10 @@ class SeismicPhase(object):
         # Indices into branchSeq of the branches after which the phase
         # refracts along the moho or diffracts along the cmb.
         self.headLegs = []
+        # For each ray parameter the indices into branchSeq of the branches
+        # that this ray does not reach as it turns at the top of a high
+        # slowness zone above them, if it is at the edge of a shadow zone.
+        self.skippedLegs = []
         # True if the current leg of the phase is down going. This allows a
         # check to make sure the path is correct.
         # Used in addToBranch() and parseName().
@@ -699,6 +703,7 @@ class SeismicPhase(object):
         # parameters that are associated with high slowness zones. If so,
         # then we will need to insert a "shadow zone" into our time and
         # distance arrays. It is represented by a repeated ray parameter.
+        self.skippedLegs = [[] for rp in self.rayParams]
         for isPwave in [True, False]:
             hsz = tMod.sMod.highSlownessLayerDepthsP \
                 if isPwave \
@@ -729,6 +734,7 @@ class SeismicPhase(object):
                         # top of the high slowness zone in the legs that turn
                         # there.
                         topdist, toptime = 0, 0
+                        skippedLegs = []
                         turnsAtTop = False
                         for legNum, (branchSeq, waveType, downGoing) \
                                 in enumerate(zip(self.branchSeq, self.waveType,
@@ -741,6 +747,7 @@ class SeismicPhase(object):
                                               and branchSeq < branchNum)
                             if turnsAtTop and waveType == isPwave \
                                     and branchSeq >= branchNum:
+                                skippedLegs.append(legNum)
                                 continue
                             taub = tMod.getTauBranch(branchSeq, waveType)
                             topdist += taub.dist[tModIndex]
@@ -749,11 +756,13 @@ class SeismicPhase(object):
                             self.dist.insert(hszIndex, topdist)
                             self.time.insert(hszIndex, toptime)
                             self.rayParams.insert(hszIndex, hszi.rayParam)
+                            self.skippedLegs.insert(hszIndex, skippedLegs)
                         else:
                             # No ray turns below the high slowness zone, so
                             # this is the last one.
                             self.dist[hszIndex] = topdist
                             self.time[hszIndex] = toptime
+                            self.skippedLegs[hszIndex] = skippedLegs
         self.minDistance = min(self.dist)
         self.maxDistance = max(self.dist)
 
@@ -840,20 +849,20 @@ class SeismicPhase(object):
         arrival is the same as the input argument but now has the pierce
         points filled in.
         """
-        # Find the ray parameter index that corresponds to the arrival ray
-        # parameter in the TauModel, ie it is between rayNum and rayNum+1,
-        # We know that it must be <tMod.rayParams.length-1 since the last
-        # ray parameter sample is 0 in a spherical model.
+        # Here we use ray parameter and dist info stored within the
+        # SeismicPhase so we can use currArrival.rayParamIndex, which
+        # may not correspond to rayNum (for tMod.rayParams).
+        rayParamA = self.rayParams[currArrival.rayParamIndex]
+        # Find the index of this ray parameter in the TauModel, the one of the
+        # arrival is between rayNum and rayNum+1. We know that it must be
+        # <tMod.rayParams.length-1 since the last ray parameter sample is 0
+        # in a spherical model.
         rayNum = 0
         for i, rp in enumerate(self.tMod.rayParams[:-1]):
-            if rp >= currArrival.rayParam:
+            if rp >= rayParamA:
                 rayNum = i
             else:
                 break
-        # Here we use ray parameter and dist info stored within the
-        # SeismicPhase so we can use currArrival.rayParamIndex, which
-        # may not correspond to rayNum (for tMod.rayParams).
-        rayParamA = self.rayParams[currArrival.rayParamIndex]
         rayParamB = self.rayParams[currArrival.rayParamIndex + 1]
         distA = self.dist[currArrival.rayParamIndex]
         distB = self.dist[currArrival.rayParamIndex + 1]
@@ -898,8 +907,11 @@ class SeismicPhase(object):
             else:
                 distA = tauBranch.dist[rayNum]
                 timeA = tauBranch.time[rayNum]
-                distB = tauBranch.dist[rayNum + 1]
-                timeB = tauBranch.time[rayNum + 1]
+                if legNum in self.skippedLegs[currArrival.rayParamIndex + 1]:
+                    distB, timeB = 0, 0
+                else:
+                    distB = tauBranch.dist[rayNum + 1]
+                    timeB = tauBranch.time[rayNum + 1]
             branchDist += distRatio * (distB - distA) + distA
             prevBranchTime = branchTime
             branchTime += distRatio * (timeB - timeA) + timeA
-- 
2.43.0


From e3e1cd1b1e3128b60ddec9147d233ab1f88f3959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 27/38] fix: whether Pdiff and Sdiff exist does not depend on
 the first leg of the phase

Phases like sPdiff checked for a high slowness zone of S waves above the CMB,
and diffracted waves were not recognised as impossible with such a zone.
---
 taupy/SeismicPhase.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 91ccbdb..9786651 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -676,9 +676,12 @@ class SeismicPhase(object):
                     self.dist[i - self.maxRayParamIndex] += tbs * taubs.dist[i]
                     self.time[i - self.maxRayParamIndex] += tbs * taubs.time[i]
         if "Sdiff" in self.name or "Pdiff" in self.name:
-            if tMod.sMod.depthInHighSlowness(tMod.cmbDepth - 1e-10,
-                                             self.minRayParam,
-                                             self.name[0] == "P"):
+            # If there is a high slowness zone at the CMB, then the deepest ray
+            # turns above it.
+            cmbVelocity = tMod.sMod.vMod.evaluateAbove(
+                tMod.cmbDepth, "P" if "Pdiff" in self.name else "S")
+            if (tMod.radiusOfEarth - tMod.cmbDepth) / cmbVelocity \
+                    > self.minRayParam * (1 + 1e-9):
                 # No diffraction if there is a high slowness zone at the CMB.
                 self.minRayParam = -1
                 self.maxRayParam = -1
-- 
2.43.0


From a2eed7e3c47c6700529ebf81570c228eb0e73af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 28/38] fix: sample the slowness of a source on a slowness
 layer boundary in all layers

---
 taupy/SlownessModel.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index f451506..5d3ca27 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1294,8 +1294,13 @@ class SlownessModel(object):
         sLayer = self.getSlownessLayer(layerNum, isPWave)
         if sLayer.topDepth == depth or sLayer.botDepth == depth:
             # Depth is already on a slowness layer boundary so no need to
-            # split any slowness layers.
-            return SplitLayerInfo(self, False, False, 0)
+            # split this slowness layer. Not all of the slownesses at the
+            # boundaries within the mantle are samples of the core, though.
+            p = sLayer.topP if sLayer.topDepth == depth else sLayer.botP
+            if not any((layer.topP - p) * (p - layer.botP) > 0
+                       for layer in self.PLayers + self.SLayers):
+                return SplitLayerInfo(self, False, False, 0)
+            newLayers = (None, None, None)
         elif abs(sLayer.topDepth - depth) < 0.000001:
             # Check for very thin layers, just move the layer to hit the
             # boundary.
@@ -1328,22 +1333,21 @@ class SlownessModel(object):
         else:
             # Must split properly.
             p = sLayer.evaluateAtBullen(depth, self.radiusOfEarth)
-            topLayer = SlownessLayer(sLayer.topP, sLayer.topDepth, p, depth)
-            botLayer = SlownessLayer(p, depth, sLayer.botP, sLayer.botDepth)
-            # The new slowness sample has to be a layer boundary wherever it
-            # occurs, for both wave types.
-            outCriticalDepths = deepcopy(self.criticalDepths)
-            outPLayers = self.fixOtherLayers(self.PLayers, p, sLayer,
-                                             topLayer, botLayer,
-                                             outCriticalDepths, True)
-            outSLayers = self.fixOtherLayers(self.SLayers, p, sLayer,
-                                             topLayer, botLayer,
-                                             outCriticalDepths, False)
-            out = deepcopy(self)
-            out.criticalDepths = outCriticalDepths
-            out.PLayers = outPLayers
-            out.SLayers = outSLayers
-            return SplitLayerInfo(out, True, False, p)
+            newLayers = (sLayer,
+                         SlownessLayer(sLayer.topP, sLayer.topDepth, p, depth),
+                         SlownessLayer(p, depth, sLayer.botP, sLayer.botDepth))
+        # The new slowness sample has to be a layer boundary wherever it
+        # occurs, for both wave types.
+        outCriticalDepths = deepcopy(self.criticalDepths)
+        outPLayers = self.fixOtherLayers(
+            self.PLayers, p, *newLayers, outCriticalDepths, True)
+        outSLayers = self.fixOtherLayers(
+            self.SLayers, p, *newLayers, outCriticalDepths, False)
+        out = deepcopy(self)
+        out.criticalDepths = outCriticalDepths
+        out.PLayers = outPLayers
+        out.SLayers = outSLayers
+        return SplitLayerInfo(out, True, False, p)
 
     @staticmethod
     def fixCriticalDepths(criticalDepths, layerNum, isPWave):
-- 
2.43.0


From d64547f2d976d95ac5378baa47c2343716d14a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:03 +0000
Subject: [PATCH 29/38] fix: reduce huge and infinite distances without looping
 over every lap

---
 taupy/SeismicPhase.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 9786651..6daf1cf 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -776,10 +776,8 @@ class SeismicPhase(object):
         :return arrivals:
         """
         # Degrees must be positive and between 0 and 180
-        tempDeg = abs(degrees)
-        # Don't just use modulo, as 180 would be equal to 0.
-        while tempDeg > 360:
-            tempDeg -= 360
+        # Subtracting laps one by one would not end for huge distances.
+        tempDeg = math.fmod(abs(degrees), 360)
         if tempDeg > 180:
             tempDeg = 360 - tempDeg
         radDist = tempDeg * math.pi / 180
-- 
2.43.0


From cdcce53cdbb8bfa59035580c59d796a07aabe1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:26 +0000
Subject: [PATCH 30/38] fix: let create_taup_model() create a model

---
 taupy/tau.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/taupy/tau.py b/taupy/tau.py
index 70f8bab..c2c4b9b 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -130,11 +130,16 @@ class TauPyModel(object):
 def create_taup_model(model_name, output_dir, input_dir):
     """
     Create a .taup model from a .tvel file.
-    :param model_name:
-    :param output_dir:
+    :param model_name: The model name or the name of its .tvel file.
+    :param output_dir: Where to write the .taup model.
+    :param input_dir: Where the .tvel file is.
     """
     if "." in model_name:
         model_file_name = model_name
     else:
         model_file_name = model_name + ".tvel"
-    TauP_Create.main(model_file_name, output_dir, input_dir)
+    output_file_name = os.path.splitext(model_file_name)[0] + ".taup"
+    create = TauP_Create(os.path.join(input_dir, model_file_name),
+                         os.path.join(output_dir, output_file_name))
+    create.loadVMod()
+    create.run()
-- 
2.43.0


From 6100b5f130995ec8db9f93826546a52318bbd05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:06 +0000
Subject: [PATCH 31/38] fix: do not lose rays that convert where they would be
 totally reflected

---
 taupy/SeismicPhase.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index 6daf1cf..cb73ec7 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -251,6 +251,12 @@ class SeismicPhase(object):
             if len(self.branchSeq) > 0 and isPWavePrev != isPWave:
                 self.phaseConversion(tMod, int(self.branchSeq[-1]),
                                      self.endAction, isPWavePrev)
+            # Only now is it known as which wave the ray goes on below.
+            if len(self.branchSeq) > 0 and self.endAction == self.TRANSDOWN \
+                    and not (isLegDepth or currLeg == "m"):
+                self.maxRayParam = min(
+                    self.maxRayParam,
+                    tMod.getTauBranch(self.currBranch, isPWave).maxRayParam)
             # Deal with p and s case first.
             if currLeg == "p" or currLeg == "s" or currLeg == "k":
                 if nextLeg.startswith("v"):
@@ -539,7 +545,7 @@ class SeismicPhase(object):
         elif endAction == self.TRANSDOWN:
             self.maxRayParam = min(
                 self.maxRayParam,
-                tMod.getTauBranch(fromBranch, isPtoS).minRayParam,
+                tMod.getTauBranch(fromBranch, isPtoS).minTurnRayParam,
                 tMod.getTauBranch(fromBranch + 1, not isPtoS).maxRayParam)
         else:
             raise TauModelError("Illegal endAction = {}".format(endAction))
@@ -581,7 +587,7 @@ class SeismicPhase(object):
             isDownGoing = True
             self.maxRayParam = min(
                 self.maxRayParam,
-                tMod.getTauBranch(endBranch, isPWave).minRayParam)
+                tMod.getTauBranch(endBranch, isPWave).minTurnRayParam)
         else:
             raise TauModelError("Illegal endAction: {}".format(endAction))
         if isDownGoing:
-- 
2.43.0


From 196a19a354ee8752e3abf35043a9bb2e542a7d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:35 +0000
Subject: [PATCH 32/38] fix: skip malformed phase names instead of failing

Names that do not end at the surface (Pc, P^m), depths and surface wave
velocities that are not positive numbers raised ValueError or TauPException
and lost the arrivals of all the other phases, or gave negative times.
---
 taupy/SeismicPhase.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index cb73ec7..cea69f5 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -1065,7 +1065,11 @@ def closestBranchToDepth(tMod, depthString):
     # Non-standard boundary, given by a number: must look for it.
     disconBranch = -1
     disconMax = 1e300
-    disconDepth = float(depthString)
+    try:
+        disconDepth = float(depthString)
+    except ValueError:
+        raise TauModelError("Invalid depth {} in the phase name.".format(
+            depthString))
     for i, tBranch in enumerate(tMod.tauBranches[0]):
         if (abs(disconDepth - tBranch.topDepth) < disconMax and not
         any(ndc == tBranch.topDepth for ndc in tMod.noDisconDepths)):
@@ -1089,6 +1093,13 @@ def legPuller(name):
     legs = []
     # Special case for surface wave velocity.
     if name.endswith("kmps"):
+        try:
+            velocity = float(name[:-4])
+        except ValueError:
+            velocity = 0
+        if not 0 < velocity < float("inf"):
+            raise TauModelError("Invalid surface wave velocity in {}.".format(
+                name))
         legs.append(name)
     else:
         while offset < len(name):
@@ -1151,6 +1162,10 @@ def legPuller(name):
             else:
                 raise TauModelError(
                     "Invalid phase name {nchar} in {name}.".format(**locals()))
+    # Only the waves of the crust and the mantle get to the surface.
+    if not name.endswith("kmps") and not (legs and legs[-1][0] in "PSps"):
+        raise TauModelError("Invalid phase name: {} does not end at the "
+                            "surface.".format(name))
     legs.append("END")
     # phaseValidate(legs)
     return legs
-- 
2.43.0


From ddbedbed821f19d2d5f9f005df26422954142533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 33/38] fix: print only the turning, reversal or underside
 points if asked for them

---
 taupy/TauP_Pierce.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index fcfc5e0..d3f3225 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -112,6 +112,7 @@ class TauP_Pierce(TauP_Time):
                           currArrival.pierce[j].depth,
                           currArrival.pierce[j].time))
                     # Optional (only if used in calc?) coords output to follow.
+                prevDepth = capd
 
     def getCommentLine(self, currArrival):
         outName = currArrival.name
-- 
2.43.0


From adaec857418c97436a0786cb930aebb46497c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 34/38] fix: do not answer for a made-up distance if a
 coordinate is not a number

---
 taupy/TauP_Time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index 0246fd0..32c71fe 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -352,8 +352,8 @@ def great_circle_dist(stn, event):
                + math.cos(latA * dtor) * math.cos(latB * dtor)
                * math.cos((lonB - lonA) * dtor))
     # Rounding can move this outside the domain of the arc cosine if the points
-    # coincide or are antipodal.
-    return rtod * math.acos(max(-1, min(1, cosDist)))
+    # coincide or are antipodal. The order of the arguments keeps NaN.
+    return rtod * math.acos(max(min(cosDist, 1), -1))
 
 if __name__ == '__main__':
     # Replace the Java main method, which is a static (i.e. class) method
-- 
2.43.0


From c9e7394c061ff3ff627f6bf6929808b677daea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 35/38] fix: sample the P slownesses at the critical depths in
 the fluid core, too

---
 taupy/SlownessModel.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index 5d3ca27..d6a053f 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -652,6 +652,15 @@ class SlownessModel(object):
                 self.addSlowness(topP, self.SWAVE)
             botP = layer.botP
             self.addSlowness(botP, self.SWAVE)
+        # The rays of all waves are sampled alike, also the ones that S waves
+        # have in a fluid only: the P slownesses at the critical depths have
+        # to be sampled there as well.
+        critical = set(cd.depth for cd in self.criticalDepths)
+        for layer in self.PLayers[:]:
+            if layer.topDepth in critical:
+                self.addSlowness(layer.topP, self.PWAVE)
+            if layer.botDepth in critical:
+                self.addSlowness(layer.botP, self.PWAVE)
         botP = -1
         for layer in self.SLayers:
             topP = layer.topP
-- 
2.43.0


From 902336c94fa3d0edc386ef4adbc49f474c4db0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 36/38] fix: keep the depth of a split within its slowness
 layer

---
 taupy/SlownessModel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index d6a053f..e0b1101 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -793,6 +793,10 @@ class SlownessModel(object):
                         (sLayer.botDepth - sLayer.topDepth)
                     botDepth = self.interpolate(p, topVelocity,
                                                 sLayer.topDepth, slope)
+                    # The slownesses of the layer may be so close to each
+                    # other that rounding puts the new depth outside of it.
+                    botDepth = min(max(botDepth, sLayer.topDepth),
+                                   sLayer.botDepth)
                 botLayer = SlownessLayer(p, botDepth, sLayer.botP,
                                          sLayer.botDepth)
                 topLayer = SlownessLayer(sLayer.topP, sLayer.topDepth, p,
-- 
2.43.0


From 753bbdaf5e540274beee4053ed0d74a6688e3ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 37/38] fix: integer depths of pierce points are depths, not
 numbers of layers

---
 taupy/SeismicPhase.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index cea69f5..ac5ed76 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -897,15 +897,13 @@ class SeismicPhase(object):
             else:
                 if (isPWave or self.tMod.sMod.depthInFluid((
                             tauBranch.topDepth + tauBranch.botDepth) / 2)):
-                    turnDepth = self.tMod.sMod.findDepth(distRayParam,
-                                                         tauBranch.topDepth,
-                                                         tauBranch.botDepth,
-                                                         True)
+                    turnDepth = self.tMod.sMod.findDepth_from_depths(
+                        distRayParam, tauBranch.topDepth, tauBranch.botDepth,
+                        True)
                 else:
-                    turnDepth = self.tMod.sMod.findDepth(distRayParam,
-                                                         tauBranch.topDepth,
-                                                         tauBranch.botDepth,
-                                                         isPWave)
+                    turnDepth = self.tMod.sMod.findDepth_from_depths(
+                        distRayParam, tauBranch.topDepth, tauBranch.botDepth,
+                        isPWave)
             if any(x in self.name for x in ["Pdiff", "Pn", "Sdiff", "Sn"]):
                 # Head waves and diffracted waves are a special case.
                 distA = tauBranch.dist[rayNum]
-- 
2.43.0


From 81e4970096d3845cadbc76b3ebcbbb4ee858b10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:35 +0000
Subject: [PATCH 38/38] fix: shadow zones of rays from a source at a
 discontinuity above a high slowness zone

---
 taupy/SeismicPhase.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/taupy/SeismicPhase.py b/taupy/SeismicPhase.py
index ac5ed76..3a4bf85 100644
--- a/taupy/SeismicPhase.py
+++ b/taupy/SeismicPhase.py
@@ -731,9 +731,10 @@ class SeismicPhase(object):
                         if (self.branchSeq[legNum] == branchNum
                             and self.waveType[legNum] == isPwave
                             and self.downGoing[legNum] is True
-                            and self.branchSeq[legNum - 1] == branchNum - 1
-                            and self.waveType[legNum - 1] == isPwave
-                            and self.downGoing[legNum - 1] is True):
+                            and (legNum == 0
+                                 or self.branchSeq[legNum - 1] == branchNum - 1
+                                 and self.waveType[legNum - 1] == isPwave
+                                 and self.downGoing[legNum - 1] is True)):
                             foundOverlap = True
                             break
                     if foundOverlap:
@@ -751,9 +752,12 @@ class SeismicPhase(object):
                             if downGoing and not (
                                     legNum > 0 and self.downGoing[legNum - 1]
                                     and self.waveType[legNum - 1] == waveType):
-                                # Start of a downgoing leg.
-                                turnsAtTop = (waveType == isPwave
-                                              and branchSeq < branchNum)
+                                # Start of a downgoing leg. The source may be
+                                # right at the top of the high slowness zone.
+                                turnsAtTop = (waveType == isPwave and (
+                                    branchSeq < branchNum
+                                    or legNum == 0
+                                    and branchSeq == branchNum))
                             if turnsAtTop and waveType == isPwave \
                                     and branchSeq >= branchNum:
                                 skippedLegs.append(legNum)
-- 
2.43.0

