From 9fd304dcb93d455a9873035e368ad63206c9243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 01/13] fix: depth correction no longer records source depths
 in every model

splitBranch appended to the class attribute TauModel.noDisconDepths, so the
source depths of all earlier queries, on any model, kept influencing which
discontinuity a phase with a numeric depth refers to.
---
 taupy/TauModel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 0acbdab..698c144 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -325,7 +325,8 @@ class TauModel(object):
         tMod.sMod = outSMod
         tMod.rayParams = outRayParams
         tMod.tauBranches = newTauBranches
-        tMod.noDisconDepths.append(depth)
+        # A new list: the attribute may still be the one shared by the class.
+        tMod.noDisconDepths = self.noDisconDepths + [depth]
         if not tMod.validate():
             raise TauModelError("SplitBranch validation failed!")
         return tMod
-- 
2.43.0


From e744519a75ae9ed4f093622e8d8baed5c0de125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:16 +0000
Subject: [PATCH 02/13] fix: splitting a slowness layer near its boundary
 leaves the model alone

For a depth within 1e-6 km of a layer boundary splitLayer moved the boundary
in the model that is shared by all later queries, and replaced the S layers by
the P layers.
---
 taupy/SlownessModel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/taupy/SlownessModel.py b/taupy/SlownessModel.py
index b8a4750..4cf39d4 100644
--- a/taupy/SlownessModel.py
+++ b/taupy/SlownessModel.py
@@ -1299,9 +1299,9 @@ class SlownessModel(object):
             outLayers[layerNum - 1] = SlownessLayer(sLayer.topP,
                                                     sLayer.topDepth,
                                                     sLayer.botP, depth)
-            out = self
+            out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
-            out.SLayers = outLayers if isPWave else self.SLayers
+            out.SLayers = self.SLayers if isPWave else outLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
         elif abs(depth - sLayer.botDepth) < 0.000001:
             # As above.
@@ -1313,9 +1313,9 @@ class SlownessModel(object):
             outLayers[layerNum + 1] = SlownessLayer(sLayer.topP, depth,
                                                     sLayer.botP,
                                                     sLayer.botDepth)
-            out = self
+            out = deepcopy(self)
             out.PLayers = outLayers if isPWave else self.PLayers
-            out.SLayers = outLayers if isPWave else self.SLayers
+            out.SLayers = self.SLayers if isPWave else outLayers
             return SplitLayerInfo(out, False, True, sLayer.botP)
         else:
             # Must split properly.
-- 
2.43.0


From 2dafbead39aaf948909dccc2d07f667fba690ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:30 +0000
Subject: [PATCH 03/13] fix: order of arrivals no longer depends on the hash
 seed

parsePhaseList removed duplicates through a set, so the order of simultaneous
arrivals (and of pierce points and paths, which are not sorted) changed from
one process to the next.
---
 taupy/TauP_Time.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index cc3e204..c9c0e95 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -235,8 +235,9 @@ def parsePhaseList(phaseList):
     phaseNames = []
     for phaseName in phaseList:
         phaseNames += getPhaseNames(phaseName)
-    # Remove duplicates:
-    phaseNames = list(set(phaseNames))
+    # Remove duplicates, keeping the order so that the result does not depend
+    # on the hash seed of the process:
+    phaseNames = sorted(set(phaseNames), key=phaseNames.index)
     return phaseNames
 
 
-- 
2.43.0


From b1a1d753de1d976933cdc5c137bdfa20dfbe04a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:30 +0000
Subject: [PATCH 04/13] fix: get_pierce_points and get_ray_paths work on the
 loaded model

Both failed with an AttributeError on every call: TauP_Pierce and TauP_Path
still used the constructor TauP_Time had before models were passed in.
---
 taupy/TauP_Path.py   | 10 ++++------
 taupy/TauP_Pierce.py |  9 +++------
 taupy/tau.py         | 10 ++++------
 3 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/taupy/TauP_Path.py b/taupy/TauP_Path.py
index 2f73df3..95ef6b1 100755
--- a/taupy/TauP_Path.py
+++ b/taupy/TauP_Path.py
@@ -15,16 +15,14 @@ class TauP_Path(TauP_Pierce):
     Calcualate the ray paths for each phase, using TauP_Pierce and TauP_Time.
     """
 
-    def __init__(self,
-                 phaseList=None, modelName="iasp91", depth=0, degrees=None,
-                 coordinate_list=None, taup_model_path=None):
-        TauP_Pierce.__init__(self, coordinate_list=coordinate_list,
-                             taup_model_path=taup_model_path)
+    def __init__(self, taupy_model, phaseList=None, depth=0,
+                 degrees=None, coordinate_list=None):
+        TauP_Pierce.__init__(self, taupy_model,
+                             coordinate_list=coordinate_list)
         phaseList = phaseList if phaseList is not None else []
         self.maxPathTime = 1e300
         self.maxPathInc = 1
         self.phaseList = phaseList
-        self.modelName = modelName
         # This type conversion is important (somehow).
         self.depth = float(depth)
         self.degrees = degrees
diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index 5a881be..3658f0d 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -14,19 +14,16 @@ class TauP_Pierce(TauP_Time):
     relating to the different arrivals.
     """
 
-    def __init__(self,
-                 phaseList=None, modelName="iasp91", depth=0, degrees=None,
-                 coordinate_list=None, taup_model_path=None):
+    def __init__(self, taupy_model, phaseList=None, depth=0,
+                 degrees=None, coordinate_list=None):
         phaseList = phaseList if phaseList is not None else []
-        TauP_Time.__init__(self, coordinate_list=coordinate_list,
-                           taup_model_path=taup_model_path)
+        TauP_Time.__init__(self, taupy_model, coordinate_list=coordinate_list)
         self.onlyTurnPoints = False
         self.onlyRevPoints = False
         self.onlyUnderPoints = False
         self.onlyAddPoints = False
         self.addDepth = []
         self.phaseList = phaseList
-        self.modelName = modelName
         self.depth = depth
         self.degrees = degrees
 
diff --git a/taupy/tau.py b/taupy/tau.py
index 6a80947..1731b59 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -105,9 +105,8 @@ class TauPyModel(object):
                           phase_list=None, coordinate_list=None,
                           print_output=False):
         phase_list = phase_list if phase_list is not None else ["ttall"]
-        pp = TauP_Pierce(phase_list, self.model.sMod.vMod.modelName,
-                         source_depth_in_km, distance_in_degree,
-                         coordinate_list, self.taup_model_path)
+        pp = TauP_Pierce(self.model, phase_list, source_depth_in_km,
+                         distance_in_degree, coordinate_list)
         pp.run(print_output)
         if print_output:
             return
@@ -117,9 +116,8 @@ class TauPyModel(object):
                       phase_list=None, coordinate_list=None,
                       print_output=False):
         phase_list = phase_list if phase_list is not None else ["ttall"]
-        rp = TauP_Path(phase_list, self.model.sMod.vMod.modelName,
-                       source_depth_in_km, distance_in_degree,
-                       coordinate_list, self.taup_model_path)
+        rp = TauP_Path(self.model, phase_list, source_depth_in_km,
+                       distance_in_degree, coordinate_list)
         rp.run(print_output)
         if print_output:
             return
-- 
2.43.0


From e9d091291df63f100b863854e168fe0213e3da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:30 +0000
Subject: [PATCH 05/13] fix: Arrival.getPierce and Arrival.getPath compute what
 they return

They passed the arrival where a distance is expected and compared instead of
assigning, so every call failed with a TypeError.
---
 taupy/Arrival.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/taupy/Arrival.py b/taupy/Arrival.py
index ff2d0e7..51b7778 100644
--- a/taupy/Arrival.py
+++ b/taupy/Arrival.py
@@ -53,7 +53,7 @@ class Arrival:
         Returns pierce points as TimeDist objects.
         """
         if not self.pierce:
-            self.pierce == self.phase.calcPierce(self).getPierce()
+            self.pierce = self.phase.calcPierceFromArrival(self).pierce
         return self.pierce
 
     def getPath(self):
@@ -61,7 +61,7 @@ class Arrival:
         Returns pierce points as TimeDist objects.
         """
         if not self.path:
-            self.path == self.phase.calcPath(self).getPath()
+            self.path = self.phase.calcPathFromArrival(self).path
         return self.path
 
     def getModuloDistDeg(self):
-- 
2.43.0


From a5aee70f20575f5244cdbe0461d46a5c4fcf0a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 06/13] fix: a TauP_Pierce or TauP_Path object survives a
 failed depth correction

If the depth correction raised, the object kept no corrected model and possibly
the split one as its original, so that every later run on it failed.
---
 taupy/TauP_Pierce.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index 3658f0d..c52b424 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -38,7 +38,7 @@ class TauP_Pierce(TauP_Time):
         # First check if tModDepth is correct as it is. Check to make sure
         # source depth is the same, and then check to make sure each addDepth
         # is in the model.
-        if self.tModDepth.sourceDepth == depth:
+        if self.tModDepth is not None and self.tModDepth.sourceDepth == depth:
             if self.addDepth:
                 branchDepths = self.tModDepth.getBranchDepths()
                 for addDepth in self.addDepth:
@@ -59,11 +59,13 @@ class TauP_Pierce(TauP_Time):
             TauP_Time.depthCorrect(self, depth)
         else:
             self.tModDepth = None
-            if self.addDepth is not None:
-                for addDepth in self.addDepth:
-                    self.tMod = self.tMod.splitBranch(addDepth)
-            TauP_Time.depthCorrect(self, depth)
-            self.tMod = tModOrig
+            try:
+                if self.addDepth is not None:
+                    for addDepth in self.addDepth:
+                        self.tMod = self.tMod.splitBranch(addDepth)
+                TauP_Time.depthCorrect(self, depth)
+            finally:
+                self.tMod = tModOrig
 
     def calculate(self, degrees):
         """
-- 
2.43.0


From 19af966d1cc9901d6c0c192441bee8153a819c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 07/13] fix: an empty phase list replaces the phases of an
 earlier run

recalcPhases only set the new phases within the loop over the phase names, so
a TauP_Time object reused without phases still returned the old arrivals.
---
 taupy/TauP_Time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index c9c0e95..1239a3d 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -116,7 +116,7 @@ class TauP_Time(object):
                 except TauModelError:
                     print("Error with this phase, skipping it: " +
                           str(tempPhaseName))
-            self.phases = newPhases
+        self.phases = newPhases
 
     def calculate(self, degrees):
         """Calls the actual calculations of the arrival times."""
-- 
2.43.0


From 55bbdc698f3cf28a9bfe8fd54449dbc3a7b06692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 08/13] fix: saving a model never leaves a damaged file under
 its name

The model was written in place: a crash, a full disk or an error during the
save destroyed the previous model and left a truncated one to be loaded next.
---
 taupy/TauModel.py |  3 ++-
 taupy/utils.py    | 21 +++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/taupy/TauModel.py b/taupy/TauModel.py
index 698c144..a8bca03 100644
--- a/taupy/TauModel.py
+++ b/taupy/TauModel.py
@@ -6,6 +6,7 @@ from future.builtins import *
 
 from taupy.helper_classes import SlownessModelError, TauModelError
 from taupy.TauBranch import TauBranch
+from taupy.utils import atomic_open
 from itertools import count
 from math import pi
 import pickle
@@ -162,7 +163,7 @@ class TauModel(object):
             raise TauModelError("TauModel.calcTauIncFrom: Validation failed!")
 
     def writeModel(self, outfile):
-        with open(outfile, 'w+b') as f:
+        with atomic_open(outfile) as f:
             pickle.dump(self, f, protocol=-1)
 
     def __str__(self):
diff --git a/taupy/utils.py b/taupy/utils.py
index 5ece3d0..6b0e0f2 100755
--- a/taupy/utils.py
+++ b/taupy/utils.py
@@ -7,9 +7,11 @@ from __future__ import (absolute_import, division, print_function,
                         unicode_literals)
 from future.builtins import *
 
+from contextlib import contextmanager
 import inspect
 import os
 import sys
+import uuid
 
 
 ROOT = os.path.dirname(os.path.abspath(inspect.getfile(
@@ -23,3 +25,22 @@ def _get_model_filename(model_name):
         model_dir, model_name +
         ("__py%i%i__tvel" % sys.version_info[:2]) + os.path.extsep + "pickle")
     return filename
+
+
+@contextmanager
+def atomic_open(filename):
+    """
+    Open a binary file for writing that replaces filename once it has been
+    written completely. If that fails, an existing file stays as it was.
+    """
+    filename = os.path.realpath(filename)
+    temp_filename = "%s.%s.tmp" % (filename, uuid.uuid4().hex)
+    try:
+        with open(temp_filename, 'w+b') as f:
+            yield f
+            f.flush()
+            os.fsync(f.fileno())
+        getattr(os, 'replace', os.rename)(temp_filename, filename)
+    finally:
+        if os.path.exists(temp_filename):
+            os.remove(temp_filename)
-- 
2.43.0


From e587b886817f0401ef2c07996dca51029fab9c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 09/13] fix: a model is saved even if its directory is created
 concurrently

The check for the output directory raced with other builders, whose model was
then lost, and a file name without a directory could not be written at all.
---
 taupy/TauP_Create.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/taupy/TauP_Create.py b/taupy/TauP_Create.py
index c2a90a6..ced5140 100644
--- a/taupy/TauP_Create.py
+++ b/taupy/TauP_Create.py
@@ -120,8 +120,14 @@ class TauP_Create(object):
             if self.debug:
                 print("Done calculating Tau branches.")
 
-            if not os.path.exists(os.path.dirname(self.output_filename)):
-                os.makedirs(os.path.dirname(self.output_filename))
+            output_dir = os.path.dirname(self.output_filename)
+            if output_dir and not os.path.exists(output_dir):
+                try:
+                    os.makedirs(output_dir)
+                except OSError:
+                    # Another process may have created it in the meantime.
+                    if not os.path.isdir(output_dir):
+                        raise
             self.tMod.writeModel(self.output_filename)
             if self.debug:
                 print("Done Saving " + self.output_filename)
-- 
2.43.0


From 7ae02b57087f1c23845232758b15e12344f15ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:18 +0000
Subject: [PATCH 10/13] fix: create_taup_model creates the model

It called TauP_Create.main, which does not exist.
---
 taupy/tau.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/taupy/tau.py b/taupy/tau.py
index 1731b59..7bb698d 100644
--- a/taupy/tau.py
+++ b/taupy/tau.py
@@ -127,11 +127,17 @@ class TauPyModel(object):
 def create_taup_model(model_name, output_dir, input_dir):
     """
     Create a .taup model from a .tvel file.
-    :param model_name:
-    :param output_dir:
+    :param model_name: The model name, with or without ".tvel".
+    :param output_dir: Directory the .taup model is written to.
+    :param input_dir: Directory of the .tvel file.
     """
     if "." in model_name:
         model_file_name = model_name
     else:
         model_file_name = model_name + ".tvel"
-    TauP_Create.main(model_file_name, output_dir, input_dir)
+    output_file_name = os.path.splitext(model_file_name)[0] + ".taup"
+    mod_create = TauP_Create(
+        input_filename=os.path.join(input_dir, model_file_name),
+        output_filename=os.path.join(output_dir, output_file_name))
+    mod_create.loadVMod()
+    mod_create.run()
-- 
2.43.0


From 9da3562e2971610d81cdb92b5f479a27171ea8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 11/13] fix: depths added to a TauP_Pierce object are dropped
 when removed

---
 taupy/TauP_Pierce.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/taupy/TauP_Pierce.py b/taupy/TauP_Pierce.py
index c52b424..04ef70c 100755
--- a/taupy/TauP_Pierce.py
+++ b/taupy/TauP_Pierce.py
@@ -23,6 +23,8 @@ class TauP_Pierce(TauP_Time):
         self.onlyUnderPoints = False
         self.onlyAddPoints = False
         self.addDepth = []
+        # The additional depths at which tModDepth has been split.
+        self.splitDepth = []
         self.phaseList = phaseList
         self.depth = depth
         self.degrees = degrees
@@ -34,7 +36,9 @@ class TauP_Pierce(TauP_Time):
         :return:
         """
         tModOrig = self.tMod
-        mustRecalc = False
+        addDepths = list(self.addDepth) if self.addDepth is not None else []
+        # Depths that were added earlier may not be wanted any more.
+        mustRecalc = addDepths != self.splitDepth
         # First check if tModDepth is correct as it is. Check to make sure
         # source depth is the same, and then check to make sure each addDepth
         # is in the model.
@@ -64,6 +68,7 @@ class TauP_Pierce(TauP_Time):
                     for addDepth in self.addDepth:
                         self.tMod = self.tMod.splitBranch(addDepth)
                 TauP_Time.depthCorrect(self, depth)
+                self.splitDepth = addDepths
             finally:
                 self.tMod = tModOrig
 
-- 
2.43.0


From bd4c1f403cc4c00bf64ed1f39953a1e5bd563e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:06 +0000
Subject: [PATCH 12/13] fix: new coordinates of a calculator object are not
 ignored

---
 taupy/TauP_Path.py | 1 -
 taupy/TauP_Time.py | 9 +++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/taupy/TauP_Path.py b/taupy/TauP_Path.py
index 95ef6b1..b961b41 100755
--- a/taupy/TauP_Path.py
+++ b/taupy/TauP_Path.py
@@ -42,7 +42,6 @@ class TauP_Path(TauP_Pierce):
         calling the calcPath method of the SeismicPhase class. The results
         are then in self.arrivals.
         """
-        self.degrees = degrees
         for phase in self.phases:
             phaseArrivals = phase.calcPath(degrees)
             self.arrivals += phaseArrivals
diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index 1239a3d..6e773d6 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -65,12 +65,14 @@ class TauP_Time(object):
                 self.eventLon)):
             # Enough information has been given on the command line, just do
             #  simple calculation.
-            if self.degrees is None:
+            degrees = self.degrees
+            if degrees is None:
+                # Not kept, the coordinates may change before the next run.
                 stn = (self.stationLat, self.stationLon)
                 event = (self.eventLat, self.eventLon)
-                self.degrees = great_circle_dist(stn, event)
+                degrees = great_circle_dist(stn, event)
             self.depthCorrect(self.depth)
-            self.calculate(self.degrees)
+            self.calculate(degrees)
             if printOutput:
                 self.printResult()
         else:
@@ -137,7 +139,6 @@ class TauP_Time(object):
         Calls the calcTime method of SeismicPhase to calculate arrival
         times for every phase, each sorted by time.
         """
-        self.degrees = degrees
         self.arrivals = []
         for phase in self.phases:
             phaseArrivals = phase.calcTime(degrees)
-- 
2.43.0


From 029acacba85c971cd67e3011ccb4e27e55bfd9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:06 +0000
Subject: [PATCH 13/13] fix: a calculator object drops the relative arrival of
 an earlier run

---
 taupy/TauP_Time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/taupy/TauP_Time.py b/taupy/TauP_Time.py
index 6e773d6..7c98f11 100755
--- a/taupy/TauP_Time.py
+++ b/taupy/TauP_Time.py
@@ -122,6 +122,8 @@ class TauP_Time(object):
 
     def calculate(self, degrees):
         """Calls the actual calculations of the arrival times."""
+        # Not the one of an earlier run.
+        self.relativeArrival = None
         self.depthCorrect(self.sourceDepth)
         # Called before, but depthCorrect might have changed the phases.
         self.recalcPhases()
-- 
2.43.0

