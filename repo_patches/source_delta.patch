From 9219a6f7041193fea5344171dabd8460b22fbd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:49 +0000
Subject: [PATCH 001/105] fix: evaluate the last step of poly3 geometries

Poly3::EvaluateDSLocal stepped along u in 10 m steps while u < length, so
any ds beyond the last multiple of 10 m was mapped to that multiple: the
end of every poly3 geometry collapsed to a single point.
---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 23ceb30..f472069 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -1072,7 +1072,7 @@ void Poly3::EvaluateDSLocal(double ds, double& u, double& v) const
     else if (ds > SMALL_NUMBER)
     {
         double distTmp = 0;
-        for (double uTmp = 0; uTmp < length_; uTmp += steplen)
+        for (double uTmp = 0; uTmp < length_ + steplen; uTmp += steplen)  // last step may reach beyond the end, interpolated below
         {
             double vTmp  = poly3_.Evaluate(uTmp);
             double delta = sqrt((uTmp - u) * (uTmp - u) + (vTmp - v) * (vTmp - v));
-- 
2.43.0


From 7abbf143c995c2ea6a32bb896bd51837fd215d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:49 +0000
Subject: [PATCH 002/105] fix: reset superelevation slope on roads without
 superelevation

Road::UpdateRollByS left the slope of the previously visited road in
place, so the pitch of a position depended on where it had been before.
---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index f472069..370fa3d 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -3509,7 +3509,8 @@ bool Road::UpdateRollByS(double s, double* roadSuperElevationPrim, double* roll,
     }
     else
     {
-        *roll = 0.0;
+        *roll                   = 0.0;
+        *roadSuperElevationPrim = 0.0;
     }
 
     return false;
-- 
2.43.0


From ef2e315a798d70961fc50308a8146143e3746a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:23 +0000
Subject: [PATCH 003/105] fix: use unsigned distance to pitched and banked
 roads in the closest road search

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 370fa3d..ada8871 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -9173,7 +9173,7 @@ Position::XYZ2TrackPos(double x3, double y3, double z3, int mode, bool connected
                 else
                 {
                     // road is pitched and banked - we need to consider normal not perpendicular to 2D projection of segment
-                    distTmp = PointToLineDistance3DSigned(x3, y3, z3, v[l2].p.x(), v[l2].p.y(), v[l2].z, v[l1].p.x(), v[l1].p.y(), v[l1].z);
+                    distTmp = fabs(PointToLineDistance3DSigned(x3, y3, z3, v[l2].p.x(), v[l2].p.y(), v[l2].z, v[l1].p.x(), v[l1].p.y(), v[l1].z));
                 }
 
                 // Find closest point of the two
-- 
2.43.0


From eaeda8edf390a5aaf0a67924f59a213d088fa5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:40 +0000
Subject: [PATCH 004/105] fix: distance from point to line of no extension is
 the distance to the point

---
 EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp b/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
index 9ee53e6..9b24192 100644
--- a/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
+++ b/EnvironmentSimulator/Modules/CommonMini/CommonMini.cpp
@@ -655,8 +655,8 @@ double PointToLineDistance3DSigned(double px, double py, double pz, double lx0,
     // Compute the magnitude of the direction vector
     double lineMagnitude = std::sqrt(dx * dx + dy * dy + dz * dz);
 
-    // Calculate the signed distance
-    double distance = crossMagnitude / (lineMagnitude > SMALL_NUMBER ? lineMagnitude : SMALL_NUMBER);
+    // Calculate the signed distance, in case of no line extension use distance to the point
+    double distance = lineMagnitude > SMALL_NUMBER ? crossMagnitude / lineMagnitude : std::sqrt(px0 * px0 + py0 * py0 + pz0 * pz0);
 
     // Determine the sign of the distance using the cross product in the XY plane
     double crossProduct = GetCrossProduct2D(dx, dy, px0, py0);
-- 
2.43.0


From c9c1488be65a44866a50364b276e4c56d44f2a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:47 +0000
Subject: [PATCH 005/105] fix: fill in road id of reported road signs

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp     | 1 +
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 4252cf2..4371c9c 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2501,6 +2501,7 @@ extern "C"
                     road_sign->y           = pos.GetY();
                     road_sign->z           = pos.GetZ();
                     road_sign->h           = pos.GetH();
+                    road_sign->roadId      = road_id;
                     road_sign->s           = pos.GetS();
                     road_sign->t           = pos.GetT();
                     road_sign->orientation = s->GetOrientation() == roadmanager::Signal::Orientation::NEGATIVE ? -1 : 1;
diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 1a0d8cd..d4244fb 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -982,6 +982,7 @@ extern "C"
                 road_sign->y           = pos.GetY();
                 road_sign->z           = pos.GetZ();
                 road_sign->h           = pos.GetH();
+                road_sign->roadId      = road_id;
                 road_sign->s           = pos.GetS();
                 road_sign->t           = pos.GetT();
                 road_sign->orientation = s->GetOrientation() == roadmanager::Signal::Orientation::NEGATIVE ? -1 : 1;
-- 
2.43.0


From b92ca9608271f0227b8277cff150fa828ebf9bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:47 +0000
Subject: [PATCH 006/105] fix: RM_GetOptionValue returned the first value ever
 asked for

---
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index d4244fb..7729101 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -1109,7 +1109,8 @@ extern "C"
         {
             return 0;
         }
-        static std::string val = SE_Env::Inst().GetOptions().GetOptionValue(name);
+        static std::string val;
+        val = SE_Env::Inst().GetOptions().GetOptionValue(name);
         return val.c_str();
     }
 
-- 
2.43.0


From faea852ca2b0c7f1002c8ffe4cfc398055dc13cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:19 +0000
Subject: [PATCH 007/105] fix: count connecting ramps among drivable lanes in
 RM library

---
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 7729101..9a50e24 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -431,12 +431,12 @@ extern "C"
 
     RM_DLL_API int RM_GetRoadNumberOfDrivableLanes(id_t roadId, double s)
     {
-        return RM_GetRoadNumberOfLanes(roadId, s, 1966594);
+        return RM_GetRoadNumberOfLanes(roadId, s, roadmanager::Lane::LaneType::LANE_TYPE_ANY_DRIVING);
     }
 
     RM_DLL_API int RM_GetDrivableLaneIdByIndex(id_t roadId, int laneIndex, double s, int* lane_id)
     {
-        return RM_GetLaneIdByIndex(roadId, laneIndex, s, 1966594, lane_id);
+        return RM_GetLaneIdByIndex(roadId, laneIndex, s, roadmanager::Lane::LaneType::LANE_TYPE_ANY_DRIVING, lane_id);
     }
 
     RM_DLL_API int RM_GetNumberOfRoadsOverlapping(int handle)
-- 
2.43.0


From d4cbd504c717b3017bdf886072edb8aba7fe4399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:19 +0000
Subject: [PATCH 008/105] fix: report road sign length as specified in
 OpenDRIVE

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp     | 2 +-
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 4371c9c..338723d 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2506,7 +2506,7 @@ extern "C"
                     road_sign->t           = pos.GetT();
                     road_sign->orientation = s->GetOrientation() == roadmanager::Signal::Orientation::NEGATIVE ? -1 : 1;
                     road_sign->z_offset    = s->GetZOffset();
-                    road_sign->length      = s->GetLength();
+                    road_sign->length      = s->GetDepth();
                     road_sign->height      = s->GetHeight();
                     road_sign->width       = s->GetWidth();
 
diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 9a50e24..317a798 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -987,7 +987,7 @@ extern "C"
                 road_sign->t           = pos.GetT();
                 road_sign->orientation = s->GetOrientation() == roadmanager::Signal::Orientation::NEGATIVE ? -1 : 1;
                 road_sign->z_offset    = s->GetZOffset();
-                road_sign->length      = s->GetLength();
+                road_sign->length      = s->GetDepth();
                 road_sign->height      = s->GetHeight();
                 road_sign->width       = s->GetWidth();
 
-- 
2.43.0


From dd0361f154eb0e639da4ab3909a84cb4e6a3febb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:28 +0000
Subject: [PATCH 009/105] fix: no access of validity records of non-existing
 road signs

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp     | 4 ++--
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 338723d..23df52a 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2527,7 +2527,7 @@ extern "C"
             if (road != nullptr)
             {
                 roadmanager::Signal *s = road->GetSignal(index);
-                return static_cast<unsigned int>(s->validity_.size());
+                return s != nullptr ? static_cast<unsigned int>(s->validity_.size()) : 0;
             }
         }
 
@@ -2542,7 +2542,7 @@ extern "C"
             if (road != NULL)
             {
                 roadmanager::Signal *s = road->GetSignal(signIndex);
-                if (validityIndex < s->validity_.size())
+                if (s != nullptr && validityIndex < s->validity_.size())
                 {
                     validity->fromLane = s->validity_[validityIndex].fromLane_;
                     validity->toLane   = s->validity_[validityIndex].toLane_;
diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 317a798..50cb892 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -1011,7 +1011,7 @@ extern "C"
             if (road != NULL)
             {
                 roadmanager::Signal* s = road->GetSignal(index);
-                return static_cast<int>(s->validity_.size());
+                return s != nullptr ? static_cast<int>(s->validity_.size()) : 0;
             }
         }
 
@@ -1026,7 +1026,7 @@ extern "C"
             if (road != NULL)
             {
                 roadmanager::Signal* s = road->GetSignal(signIndex);
-                if (validityIndex < s->validity_.size())
+                if (s != nullptr && validityIndex < s->validity_.size())
                 {
                     validity->fromLane = s->validity_[validityIndex].fromLane_;
                     validity->toLane   = s->validity_[validityIndex].toLane_;
-- 
2.43.0


From ada76307b8251091a04b794def4d462046bef5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:41 +0000
Subject: [PATCH 010/105] fix: reject negative position handles in RM library

---
 .../Libraries/esminiRMLib/esminiRMLib.cpp     | 35 ++++++++++---------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 50cb892..316203f 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -465,7 +465,7 @@ extern "C"
 
     RM_DLL_API int RM_SetLanePosition(int handle, id_t roadId, int laneId, double laneOffset, double s, bool align)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -506,7 +506,7 @@ extern "C"
 
     RM_DLL_API int RM_SetRoadPosition(int handle, id_t roadId, double s, double t, bool align)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -547,7 +547,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldPosition(int handle, double x, double y, double z, double h, double p, double r)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -572,7 +572,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldXYHPosition(int handle, double x, double y, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -590,7 +590,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldXYZHPosition(int handle, double x, double y, double z, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -608,7 +608,7 @@ extern "C"
 
     RM_DLL_API int RM_SetWorldPositionMode(int handle, double x, double y, double z, double h, double p, double r, int mode)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -648,7 +648,7 @@ extern "C"
 
     RM_DLL_API int RM_SetH(int handle, double h)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -677,7 +677,7 @@ extern "C"
 
     RM_DLL_API int RM_SetHMode(int handle, double h, int mode)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -704,7 +704,7 @@ extern "C"
 
     RM_DLL_API int RM_SetRoadId(int handle, id_t roadId)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -729,7 +729,7 @@ extern "C"
 
     RM_DLL_API int RM_SetS(int handle, double s)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -747,7 +747,7 @@ extern "C"
 
     RM_DLL_API int RM_SetSnapLaneTypes(int handle, int laneTypes)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -766,7 +766,7 @@ extern "C"
 
     RM_DLL_API int RM_PositionMoveForward(int handle, double dist, double junctionSelectorAngle)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -786,7 +786,7 @@ extern "C"
 
     RM_DLL_API int RM_GetPositionData(int handle, RM_PositionData* data)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -811,7 +811,7 @@ extern "C"
 
     RM_DLL_API int RM_GetLaneInfo(int handle, double lookahead_distance, RM_RoadLaneInfo* data, int lookAheadMode, bool inRoadDrivingDirection)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -821,7 +821,7 @@ extern "C"
 
     RM_DLL_API double RM_GetSpeedLimit(int handle)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -831,7 +831,7 @@ extern "C"
 
     RM_DLL_API int RM_GetProbeInfo(int handle, double lookahead_distance, RM_RoadProbeInfo* data, int lookAheadMode, bool inRoadDrivingDirection)
     {
-        if (odrManager == nullptr || handle >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handle < 0 || handle >= static_cast<int>(position.size()))
         {
             return -1;
         }
@@ -919,7 +919,8 @@ extern "C"
 
     RM_DLL_API int RM_SubtractAFromB(int handleA, int handleB, RM_PositionDiff* pos_diff)
     {
-        if (odrManager == nullptr || handleA >= static_cast<int>(position.size()) || handleB >= static_cast<int>(position.size()))
+        if (odrManager == nullptr || handleA < 0 || handleA >= static_cast<int>(position.size()) || handleB < 0 ||
+            handleB >= static_cast<int>(position.size()))
         {
             return -1;
         }
-- 
2.43.0


From 5bb5bab96bf478ed89d2c54bfd3e4ef5ff1da2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:41 +0000
Subject: [PATCH 011/105] fix: RM_InitWithString closes any previous session,
 as RM_Init does

---
 EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 316203f..3599501 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -130,6 +130,11 @@ extern "C"
 
     RM_DLL_API int RM_InitWithString(const char* odrAsXMLString)
     {
+        if (odrManager)
+        {
+            RM_Close();
+        }
+
         if (!roadmanager::Position::LoadOpenDriveFromXMLString(odrAsXMLString))
         {
             LOG_ERROR("Failed to load ODR {}", odrAsXMLString);
-- 
2.43.0


From 21238664101448778d8937bf90d8fb80ad4cd64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:28 +0000
Subject: [PATCH 012/105] fix: follow lane links to the road end when a move
 leaves the road

MoveAlongS jumped to the last (first) lane section but kept the lane index
of the section it started in, and evaluated the junction heading at the
start of the move.
---
 .../Modules/RoadManager/RoadManager.cpp              | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index ada8871..e0444bc 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -10402,27 +10402,27 @@ Position::ReturnCode Position::MoveAlongS(double            ds,
     {
         if (s_ + ds_road > GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLength())
         {
-            // beyond end of road, ensure last lane section
-            lane_section_idx_ = road->GetNumberOfLaneSections() - 1;
-
             // Calculate remaining s-value once we moved to the connected road
             ds_road = s_ + ds_road - GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLength();
             link    = GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLink(SUCCESSOR);
 
             // register s-value at end of the road, to be used in case of bad connection
             s_stop = GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLength();
+
+            // beyond end of road, follow the lane to the last lane section
+            SetLanePos(track_id_, lane_id_, s_stop, offset_);
         }
         else if (s_ + ds_road < 0)
         {
-            // beyond start of road, ensure first lane section
-            lane_section_idx_ = 0;
-
             // Calculate remaining s-value once we moved to the connected road
             ds_road = s_ + ds_road;
             link    = GetOpenDrive()->GetRoadByIdx(track_idx_)->GetLink(PREDECESSOR);
 
             // register s-value at end of the road, to be used in case of bad connection
             s_stop = 0;
+
+            // beyond start of road, follow the lane to the first lane section
+            SetLanePos(track_id_, lane_id_, s_stop, offset_);
         }
         else  // New position is within current track (road)
         {
-- 
2.43.0


From 6be2ad675604f04797c40ccff883563bc494f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:45 +0000
Subject: [PATCH 013/105] fix: tell road links from junction links in direct
 junctions

A road whose id equals the junction's id was taken for the junction when the
contact point of the counter connection was determined.
---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index e0444bc..48c5a06 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6640,11 +6640,13 @@ int OpenDrive::CheckJunctionConnection(Junction* junction, Connection* connectio
                     // Find out contact point for original incoming road
                     ContactPointType new_contact_point = ContactPointType::CONTACT_POINT_UNDEFINED;
                     if (connection->GetIncomingRoad()->GetLink(LinkType::SUCCESSOR) &&
+                        connection->GetIncomingRoad()->GetLink(LinkType::SUCCESSOR)->GetElementType() == RoadLink::ELEMENT_TYPE_JUNCTION &&
                         connection->GetIncomingRoad()->GetLink(LinkType::SUCCESSOR)->GetElementId() == junction->GetId())
                     {
                         new_contact_point = ContactPointType::CONTACT_POINT_END;
                     }
                     else if (connection->GetIncomingRoad()->GetLink(LinkType::PREDECESSOR) &&
+                             connection->GetIncomingRoad()->GetLink(LinkType::PREDECESSOR)->GetElementType() == RoadLink::ELEMENT_TYPE_JUNCTION &&
                              connection->GetIncomingRoad()->GetLink(LinkType::PREDECESSOR)->GetElementId() == junction->GetId())
                     {
                         new_contact_point = ContactPointType::CONTACT_POINT_START;
-- 
2.43.0


From 18a799c008c32bfbe9cad2cb6af6ecdd21b31fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:19 +0000
Subject: [PATCH 014/105] fix: sign of the distance to another road when
 heading against the driving direction

The direction of the path already considers the heading; flipping once more
reported objects ahead as behind, unlike on the same road.
---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 48c5a06..d385718 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6366,12 +6366,6 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
 
     dist = direction_ * tmpDist;
 
-    // Also take intial heading of the start position into consideration for the sign of the distance
-    if (startPos_->GetHRelativeDrivingDirection() > M_PI_2 && startPos_->GetHRelativeDrivingDirection() < 3 * M_PI_2)
-    {
-        dist *= -1;
-    }
-
     return found ? 0 : -1;
 }
 
-- 
2.43.0


From 28585c53e7a16a4df56e0f8f61e4b0621b846771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:37 +0000
Subject: [PATCH 015/105] fix: road path search starts from the start lane in
 both directions

The lane at the start of the road, found for the backward search, was used as
starting point for the forward search.
---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index d385718..661c4f6 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6163,11 +6163,11 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
 
             if (contact_point == ContactPointType::CONTACT_POINT_END)
             {
-                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(pivotLaneId, startPos_->GetS(), -1.0);
+                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(startPos_->GetLaneId(), startPos_->GetS(), -1.0);
             }
             else if (contact_point == ContactPointType::CONTACT_POINT_START)
             {
-                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(pivotLaneId, startPos_->GetS(), 0);
+                pivotLaneId = pivotRoad->GetConnectedLaneIdAtS(startPos_->GetLaneId(), startPos_->GetS(), 0);
             }
             else
             {
-- 
2.43.0


From 0aba64390414f732143bc7fafa63a1368c074017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:24 +0000
Subject: [PATCH 016/105] fix: follow lane links only for lane sections passed
 on the way to the target s

Road::GetConnectedLaneIdAtS applied the link of the section holding the target
position as well.
---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 661c4f6..a0056a0 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -3148,25 +3148,24 @@ int Road::GetConnectedLaneIdAtS(int lane_id, double s_start, double s_target) co
         if (lsec != nullptr)
         {
             int    lane_id_tmp = lane_id;
-            double s           = s_start;
             if (s_target > s_start - SMALL_NUMBER)
             {
-                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j < GetNumberOfLaneSections() - 1 && s < s_target; j++)
+                for (unsigned int j = lsec_idx;
+                     lane_id_tmp != 0 && j < GetNumberOfLaneSections() - 1 && GetLaneSectionByIdx(j + 1)->GetS() < s_target;
+                     j++)
                 {
                     // find connecting lane id
                     lsec        = GetLaneSectionByIdx(j);
                     lane_id_tmp = lsec->GetConnectingLaneId(lane_id_tmp, LinkType::SUCCESSOR);
-                    s           = lsec->GetS();
                 }
             }
             else
             {
-                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j > 0 && s > s_target; j--)
+                for (unsigned int j = lsec_idx; lane_id_tmp != 0 && j > 0 && GetLaneSectionByIdx(j)->GetS() > s_target; j--)
                 {
                     // find connecting lane id
                     lsec        = GetLaneSectionByIdx(j);
                     lane_id_tmp = lsec->GetConnectingLaneId(lane_id_tmp, LinkType::PREDECESSOR);
-                    s           = lsec->GetS();
                 }
             }
             connected_lane_id = lane_id_tmp;
-- 
2.43.0


From 929487769deec9d2f979742009e4a584bf442659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:01 +0000
Subject: [PATCH 017/105] fix: road path search returns the shortest path to
 the target position

The search stopped at the first entry to the target road although another one
may be closer to the target position, added up the distance for each junction
connection leading there, and shortened nodes without updating their origin.
---
 .../Modules/RoadManager/RoadManager.cpp       | 78 ++++++++++---------
 1 file changed, 42 insertions(+), 36 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index a0056a0..00ddf2a 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6062,32 +6062,15 @@ bool RoadPath::CheckRoad(Road* checkRoad, RoadPath::PathNode* srcNode, Road* fro
         }
     }
 
-    // Check if next node is already among unvisited
-    size_t i;
-    for (i = 0; i < unvisited_.size(); i++)
-    {
-        if (unvisited_[i]->link == nextLink)
-        {
-            // Consider it, i.e. calc distance and potentially store it (if less than old)
-            if (srcNode->dist + checkRoad->GetLength() < unvisited_[i]->dist)
-            {
-                unvisited_[i]->dist = srcNode->dist + checkRoad->GetLength();
-            }
-        }
-    }
-
-    if (i == unvisited_.size())
-    {
-        // link not visited before, add it
-        PathNode* pNode     = new PathNode;
-        pNode->dist         = srcNode->dist + checkRoad->GetLength();
-        pNode->link         = nextLink;
-        pNode->fromRoad     = checkRoad;
-        pNode->fromLaneId   = nextLaneId;
-        pNode->previous     = srcNode;
-        pNode->contactPoint = contact_point;
-        unvisited_.push_back(pNode);
-    }
+    // link not visited before, add it
+    PathNode* pNode     = new PathNode;
+    pNode->dist         = srcNode->dist + checkRoad->GetLength();
+    pNode->link         = nextLink;
+    pNode->fromRoad     = checkRoad;
+    pNode->fromLaneId   = nextLaneId;
+    pNode->previous     = srcNode;
+    pNode->contactPoint = contact_point;
+    unvisited_.push_back(pNode);
 
     return true;
 }
@@ -6102,8 +6085,10 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
     Road*      pivotRoad   = startRoad;
     int        pivotLaneId = startPos_->GetLaneId();
     Road*      nextRoad;
-    bool       found   = false;
-    double     tmpDist = 0;
+    bool       found     = false;
+    PathNode*  foundNode = nullptr;
+    double     foundDist = LARGE_NUMBER;
+    double     tmpDist   = 0;
     size_t     i;
 
     // This method will find and measure the length of the shortest path
@@ -6224,10 +6209,8 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
         return -1;
     }
 
-    for (i = 0; i < 100 && !found && unvisited_.size() > 0 && tmpDist < maxDist; i++)
+    for (i = 0; i < 100 && unvisited_.size() > 0 && tmpDist < maxDist; i++)
     {
-        found = false;
-
         // Find unvisited PathNode with shortest distance
         double minDist  = LARGE_NUMBER;
         idx_t  minIndex = 0;
@@ -6240,6 +6223,11 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
             }
         }
 
+        if (found && minDist > foundDist - SMALL_NUMBER)
+        {
+            break;  // no remaining node can lead to a shorter path
+        }
+
         link        = unvisited_[minIndex]->link;
         tmpDist     = unvisited_[minIndex]->dist;
         pivotRoad   = unvisited_[minIndex]->fromRoad;
@@ -6257,15 +6245,21 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
             if (nextRoad == targetRoad)
             {
                 // Special case: On same road, distance is equal to delta s, direction considered
+                double targetDist = tmpDist;
                 if (link->GetContactPointType() == ContactPointType::CONTACT_POINT_START)
                 {
-                    tmpDist += targetPos_->GetS();
+                    targetDist += targetPos_->GetS();
                 }
                 else
                 {
-                    tmpDist += nextRoad->GetLength() - targetPos_->GetS();
+                    targetDist += nextRoad->GetLength() - targetPos_->GetS();
                 }
 
+                if (!found || targetDist < foundDist)
+                {
+                    foundDist = targetDist;
+                    foundNode = unvisited_[minIndex];
+                }
                 found = true;
             }
             else
@@ -6292,16 +6286,17 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
                 if (nextRoad == targetRoad)  // target road reached
                 {
                     ContactPointType contact_point = ContactPointType::CONTACT_POINT_UNDEFINED;
+                    double           targetDist    = tmpDist;
                     // if (nextRoad->IsSuccessor(pivotRoad, &contact_point) || nextRoad->IsPredecessor(pivotRoad, &contact_point))
-                    if (pivotRoad->IsSuccessor(nextRoad, &contact_point) || pivotRoad->IsPredecessor(nextRoad, &contact_point))
+                    if (pivotRoad->IsDirectlyConnected(nextRoad, link->GetType(), &contact_point))
                     {
                         if (contact_point == ContactPointType::CONTACT_POINT_START)
                         {
-                            tmpDist += targetPos_->GetS();
+                            targetDist += targetPos_->GetS();
                         }
                         else if (contact_point == ContactPointType::CONTACT_POINT_END)
                         {
-                            tmpDist += nextRoad->GetLength() - targetPos_->GetS();
+                            targetDist += nextRoad->GetLength() - targetPos_->GetS();
                         }
                         else
                         {
@@ -6314,6 +6309,12 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
                         LOG_ERROR("Failed to check link in junction");
                         return -1;
                     }
+
+                    if (!found || targetDist < foundDist)
+                    {
+                        foundDist = targetDist;
+                        foundNode = unvisited_[minIndex];
+                    }
                     found = true;
                 }
                 else
@@ -6330,6 +6331,11 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
 
     if (found)
     {
+        // let the last visited node be the one leading to the target road
+        tmpDist = foundDist;
+        visited_.erase(std::find(visited_.begin(), visited_.end(), foundNode));
+        visited_.push_back(foundNode);
+
         // Find out whether the path goes forward or backwards from starting position
         if (visited_.size() > 0)
         {
-- 
2.43.0


From 16ee8504b3e8bda217fb388cb9fa263d108bc264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:32 +0000
Subject: [PATCH 018/105] fix: lane and direction difference to a position on
 another road

Position::Delta converted the lane at the road end twice and assumed the wrong
end of the target road as entry.
---
 .../Modules/RoadManager/RoadManager.cpp       | 35 +++++++------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 00ddf2a..0947f4b 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -11729,31 +11729,22 @@ bool Position::Delta(Position* pos_b, PositionDiff& diff, bool bothDirections, d
 
         if (last_node != nullptr)
         {
-            // Find out corresponding lane ID of connected route up to pos B
-            if (last_node->contactPoint == ContactPointType::CONTACT_POINT_START)
+            // Find out at which end of the road of pos B the path arrives
+            ContactPointType entry = last_node->link->GetContactPointType();
+            if (last_node->link->GetElementType() == RoadLink::ELEMENT_TYPE_JUNCTION)
             {
-                // move to end of the last road in the path leading to the road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectedLaneIdAtS(last_node->fromLaneId, -1.0, 0.0);
-                // find out the connecting lane at beginning of road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, adjustedLaneIdA, pos_b->GetTrackId());
-                // move to the s location of pos B to find out the lane ID there (possibly another lane section)
-                adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, 0.0, pos_b->GetS());
-
-                // Check relative heading
-                pos_a_forward = true;  // We come in at the start of the road, so we are aligned with the road direction
+                last_node->fromRoad->IsDirectlyConnected(road_B, last_node->link->GetType(), &entry);
             }
-            else
-            {
-                // move to start of the last road in the path leading to the road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectedLaneIdAtS(last_node->fromLaneId, 0.0, -1.0);
-                // find out the connecting lane at start of road of pos B
-                adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, adjustedLaneIdA, pos_b->GetTrackId());
-                // move to the s location of pos B to find out the lane ID there (possibly another lane section)
-                adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA, -1.0, pos_b->GetS());
 
-                // Check relative heading
-                pos_a_forward = false;  // We come in at the end of the road, so we are aligned against the road direction
-            }
+            // Find out corresponding lane ID of connected route up to pos B, first the connecting lane at that end of the road of pos B
+            adjustedLaneIdA = last_node->fromRoad->GetConnectingLaneId(last_node->link, last_node->fromLaneId, pos_b->GetTrackId());
+            // move to the s location of pos B to find out the lane ID there (possibly another lane section)
+            adjustedLaneIdA = road_B->GetConnectedLaneIdAtS(adjustedLaneIdA,
+                                                            entry == ContactPointType::CONTACT_POINT_START ? 0.0 : -1.0,
+                                                            pos_b->GetS());
+
+            // Check relative heading, aligned with the road direction if we come in at the start of the road
+            pos_a_forward = entry == ContactPointType::CONTACT_POINT_START;
         }
         // If the relative direction of the two positions is the same, we are driving in the same direction unless the detected path is reversed, then
         // we have to invert the dDirection
-- 
2.43.0


From 8396c7832214be25304dcca553b1fc41e546009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:46 +0000
Subject: [PATCH 019/105] fix: road path search tells road links from junction
 links in direct junctions

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 0947f4b..a792559 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6003,14 +6003,18 @@ bool RoadPath::CheckRoad(Road* checkRoad, RoadPath::PathNode* srcNode, Road* fro
         Junction* junction = Position::GetOpenDrive()->GetJunctionById(srcNode->link->GetElementId());
         if (junction && junction->GetType() == Junction::JunctionType::DIRECT)
         {
-            if (checkRoad->GetLink(LinkType::SUCCESSOR) && checkRoad->GetLink(LinkType::SUCCESSOR)->GetElementId() == junction->GetId())
+            if (checkRoad->GetLink(LinkType::SUCCESSOR) &&
+                checkRoad->GetLink(LinkType::SUCCESSOR)->GetElementType() == RoadLink::ElementType::ELEMENT_TYPE_JUNCTION &&
+                checkRoad->GetLink(LinkType::SUCCESSOR)->GetElementId() == junction->GetId())
             {
                 // Node link is a direct junction. The pivot road (fromRoad) is successor
                 // to the checked road. Hence next link is in the other end, predecessor.
                 nextLink      = checkRoad->GetLink(LinkType::PREDECESSOR);
                 contact_point = ContactPointType::CONTACT_POINT_START;
             }
-            else if (checkRoad->GetLink(LinkType::PREDECESSOR) && checkRoad->GetLink(LinkType::PREDECESSOR)->GetElementId() == junction->GetId())
+            else if (checkRoad->GetLink(LinkType::PREDECESSOR) &&
+                     checkRoad->GetLink(LinkType::PREDECESSOR)->GetElementType() == RoadLink::ElementType::ELEMENT_TYPE_JUNCTION &&
+                     checkRoad->GetLink(LinkType::PREDECESSOR)->GetElementId() == junction->GetId())
             {
                 // Node link is a direct junction. The pivot road (fromRoad) is predecessor
                 // to the checked road. Hence next link is in the other end, successor.
-- 
2.43.0


From b6044a6137adc44e560f9e27cf56530e470f1f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:21 +0000
Subject: [PATCH 020/105] fix: keep declared distance of speed action over
 repeated executions

The distance was replaced by the calculated duration at start, which was then
taken for the distance when the action was executed again.
---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp | 13 +++++++++++++
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 45944a7..ed0c005 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1202,6 +1202,8 @@ void LongSpeedAction::Start(double simTime)
         double v1   = target_->GetValue();
         double dist = transition_.GetParamTargetVal();
 
+        transition_distance_ = dist;
+
         if (abs(v1 - v0) < SMALL_NUMBER)
         {
             // no change
@@ -1786,6 +1788,17 @@ void LongSpeedProfileAction::AddSpeedSegment(double t, double v, double k, doubl
     segment_.push_back({t, v, k, j});
 }
 
+void LongSpeedAction::Reset(State state)
+{
+    if (transition_.dimension_ == DynamicsDimension::DISTANCE && transition_distance_ > -SMALL_NUMBER)
+    {
+        // restore the declared distance, it was replaced by duration at start
+        transition_.SetParamTargetVal(transition_distance_);
+    }
+
+    OSCPrivateAction::Reset(state);
+}
+
 void LongSpeedAction::ReplaceObjectRefs(Object* obj1, Object* obj2)
 {
     if (object_ == obj1)
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 0752537..793b676 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -260,6 +260,7 @@ namespace scenarioengine
 
         std::shared_ptr<Target> target_;
         bool                    target_speed_reached_;
+        double                  transition_distance_ = -1.0;  // declared distance, negative until first start
 
         LongSpeedAction(StoryBoardElement* parent)
             : OSCPrivateAction(OSCPrivateAction::ActionType::LONG_SPEED, parent, static_cast<unsigned int>(ControlDomainMasks::DOMAIN_MASK_LONG)),
@@ -277,6 +278,7 @@ namespace scenarioengine
             target_               = action.target_;
             transition_           = action.transition_;
             target_speed_reached_ = action.target_speed_reached_;
+            transition_distance_  = action.transition_distance_;
         }
 
         OSCPrivateAction* Copy()
@@ -292,6 +294,7 @@ namespace scenarioengine
 
         void Start(double simTime);
         void Step(double simTime, double dt);
+        void Reset(State state = State::INIT) override;
 
         void print()
         {
-- 
2.43.0


From 22b2f457b7a36260a8af5d1b5098bb21bf082321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:58 +0000
Subject: [PATCH 021/105] fix: lane offset action does not set objects in
 motion

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index ed0c005..348ce7c 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -1138,7 +1138,8 @@ void LatLaneOffsetAction::Step(double simTime, double dt)
                                                       angle);
     }
 
-    object_->dirty_.SetBits(Object::DirtyBit::LATERAL);
+    // indicate that speed is not affected, prevent it from being derived from the lateral motion (e.g. of standing objects)
+    object_->dirty_.SetBits(Object::DirtyBit::LATERAL | Object::DirtyBit::SPEED);
 
     transition_.Step(dt);
 }
-- 
2.43.0


From db11f1ffb862bda1b553fd751ca017dc4cf251dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:57 +0000
Subject: [PATCH 022/105] fix: evaluate all conditions of a condition group
 every step

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp  | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 66d483a..4316a77 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -326,12 +326,9 @@ bool ConditionGroup::Evaluate(double sim_time)
     for (size_t i = 0; i < condition_.size(); i++)
     {
         // AND operator, all must be true
-        if (result == true || condition_[i]->delay_ > 0.0)
-        {
-            // When at least one condition in the group is false,
-            // only conditions with timer needs to be evaluated
-            result &= condition_[i]->Evaluate(sim_time);
-        }
+        // Evaluate all conditions, also when the result is known to be false, since edges, delays and
+        // storyboard element transitions refer to the evaluation of the previous step
+        result &= condition_[i]->Evaluate(sim_time);
     }
 
     return result;
-- 
2.43.0


From b9bbbef1066a6b2e03256989b3edc8b51e4e1b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:57 +0000
Subject: [PATCH 023/105] fix: evaluate conditions per triggering entity for
 rule all

---
 .../OSCTypeDefs/OSCCondition.cpp              | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 4316a77..4ec5868 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -766,11 +766,11 @@ bool TrigByTimeHeadway::CheckCondition(double sim_time)
             {
                 triggered_by_entities_.push_back(trigObj);
             }
+        }
 
-            if (EvalDone(result, triggering_entity_rule_))
-            {
-                break;
-            }
+        if (EvalDone(result, triggering_entity_rule_))
+        {
+            break;
         }
     }
 
@@ -844,11 +844,11 @@ bool TrigByTimeToCollision::CheckCondition(double sim_time)
             {
                 triggered_by_entities_.push_back(trigObj);
             }
+        }
 
-            if (EvalDone(result, triggering_entity_rule_))
-            {
-                break;
-            }
+        if (EvalDone(result, triggering_entity_rule_))
+        {
+            break;
         }
     }
 
@@ -878,6 +878,7 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
 
     for (size_t i = 0; i < triggering_entities_.entity_.size(); i++)
     {
+        result          = false;
         Object* trigObj = triggering_entities_.entity_[i].object_;
         if (!trigObj->IsActive())
         {
@@ -1056,6 +1057,7 @@ bool TrigByCollision::CheckCondition(double sim_time)
 
     for (size_t i = 0; i < triggering_entities_.entity_.size(); i++)
     {
+        result          = false;
         Object* trigObj = triggering_entities_.entity_[i].object_;
         if (!trigObj->IsActive())
         {
@@ -1198,6 +1200,8 @@ bool TrigByEndOfRoad::CheckCondition(double sim_time)
             continue;
         }
 
+        result = false;
+
         if (triggering_entities_.entity_[i].object_->IsEndOfRoad())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetEndOfRoadTimestamp();
@@ -1241,6 +1245,8 @@ bool TrigByStandStill::CheckCondition(double sim_time)
             continue;
         }
 
+        current_duration_ = 0;
+
         if (triggering_entities_.entity_[i].object_->IsStandStill())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetStandStillTimestamp();
@@ -1282,6 +1288,8 @@ bool TrigByOffRoad::CheckCondition(double sim_time)
             continue;
         }
 
+        current_duration_ = 0;
+
         if (triggering_entities_.entity_[i].object_->IsOffRoad())
         {
             current_duration_ = sim_time - triggering_entities_.entity_[i].object_->GetOffRoadTimestamp();
-- 
2.43.0


From 2d27cc1b60b3a0121de408faa8191d9a30847f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:58 +0000
Subject: [PATCH 024/105] fix: reach position condition compares wrapped
 orientation angles

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 4ec5868..9c7c418 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -898,8 +898,9 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
             // Check for any orientation condition
             if (checkOrientation_)
             {
-                if (abs(trigObj->pos_.GetH() - pos->GetH()) < angularTolerance_ && abs(trigObj->pos_.GetP() - pos->GetP()) < angularTolerance_ &&
-                    abs(trigObj->pos_.GetR() - pos->GetR()) < angularTolerance_)
+                if (GetAbsAngleDifference(trigObj->pos_.GetH(), pos->GetH()) < angularTolerance_ &&
+                    GetAbsAngleDifference(trigObj->pos_.GetP(), pos->GetP()) < angularTolerance_ &&
+                    GetAbsAngleDifference(trigObj->pos_.GetR(), pos->GetR()) < angularTolerance_)
                 {
                     result = true;
                 }
-- 
2.43.0


From ab3fc75f6e8485b7723e0453b8e11407a333162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:58 +0000
Subject: [PATCH 025/105] fix: reach position condition log info with no
 triggering entity

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 9c7c418..6737043 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -931,7 +931,7 @@ bool TrigByReachPosition::CheckCondition(double sim_time)
 
 std::string TrigByReachPosition::GetAdditionalLogInfo()
 {
-    if (checkOrientation_)
+    if (checkOrientation_ && !triggered_by_entities_.empty())
     {
         return fmt::format("distance {:.2f} < tolerance ({:.2f}), orientation [{:.2f}, {:.2f}, {:.2f}] (tolerance {:.2f}), edge: {}",
                            dist_,
-- 
2.43.0


From 54d20c1b407030cc01aec41b12158c81f2df31c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:58 +0000
Subject: [PATCH 026/105] fix: storyboard element state condition keeps latest
 state over reset

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 6737043..6ae9723 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -580,6 +580,11 @@ std::string TrigByState::CondElementState2Str(CondElementState state)
 
 void TrigByState::Reset()
 {
+    if (!state_change_.empty())
+    {
+        // keep track of the current state
+        latest_state_change_ = state_change_.back();
+    }
     state_change_.clear();
     OSCCondition::Reset();
 }
-- 
2.43.0


From 06ae7f70323746df5813193c4e831236b6ce9bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:58 +0000
Subject: [PATCH 027/105] fix: TTC sign when triggering entity stands still

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp          | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index cd9c1df..3a282af 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1375,6 +1375,11 @@ int Object::TimeToCollision(Object*                           target,
         // target standing still, consider only speed of triggering entity
         rel_speed = this->GetSpeed();
     }
+    else if (fabs(this->GetSpeed()) < SMALL_NUMBER)
+    {
+        // triggering entity standing still, consider only velocity of target, along the heading of triggering entity
+        rel_speed = -(target->pos_.GetVelX() * cos(pos_.GetH()) + target->pos_.GetVelY() * sin(pos_.GetH()));
+    }
     else
     {
         double rel_vel[2] = {0.0, 0.0};
-- 
2.43.0


From f8f8c6d2769a5a0a04b5b3116feb11fbf0f3e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:52 +0000
Subject: [PATCH 028/105] fix: free space distance in road coordinates keeps
 heading of object at all corners

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 3a282af..f292066 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -827,7 +827,7 @@ int Object::FreeSpaceDistancePointRoadLane(double x, double y, double* latDist,
     // Map XY point to road coordinates, but consider only roads reachable from point
     Position pointPos = pos_;
     pointPos.SetRoute(0);  // don't mess with the route of the original position object
-    if (static_cast<int>(pointPos.XYZ2TrackPos(x, y, 0, true)) < 0)
+    if (static_cast<int>(pointPos.XYZ2TrackPos(x, y, 0, roadmanager::Position::PosMode::UNDEFINED, true)) < 0)
     {
         return -1;
     }
@@ -849,6 +849,9 @@ int Object::FreeSpaceDistancePointRoadLane(double x, double y, double* latDist,
             return -1;
         }
 
+        // the heading is the one of the object, also when the vertex is on another road than the reference point
+        pos[j].SetHeading(vertices[j][2]);
+
         if (pos[j].Delta(&pointPos, posDiff) == false)
         {
             return -1;
@@ -974,6 +977,9 @@ int Object::FreeSpaceDistanceObjectRoadLane(Object* target, PositionDiff* posDif
             {
                 return -1;
             }
+
+            // the heading is the one of the object, also when the vertex is on another road than the reference point
+            pos[i][j].SetHeading(vertices[i][j][2]);
         }
     }
 
-- 
2.43.0


From b6a6a41cba356ca5b8d6f2dc61a0a96ba90074a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:52 +0000
Subject: [PATCH 029/105] fix: free space distance in road coordinates zero
 when one bounding box spans over the other

---
 .../ScenarioEngine/SourceFiles/Entities.cpp   | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index f292066..051f9ee 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1029,17 +1029,19 @@ int Object::FreeSpaceDistanceObjectRoadLane(Object* target, PositionDiff* posDif
     posDiff->dt = minDT;
 
     // Check for overlap
-    for (int i = 0; i < 4; i++)  // for each ds
+    for (int i = 0; i < 4; i++)  // for each vertex of first BB
     {
-        if (!((SIGN(ds[i][0]) == SIGN(ds[i][1])) && (SIGN(ds[i][0]) == SIGN(ds[i][2])) && (SIGN(ds[i][0]) == SIGN(ds[i][3]))))
+        for (int j = 0; j < 4; j++)  // for each vertex of second BB
         {
-            // Overlap
-            posDiff->ds = 0.0;
-        }
-        if (!((SIGN(dt[i][0]) == SIGN(dt[i][1])) && (SIGN(dt[i][0]) == SIGN(dt[i][2])) && (SIGN(dt[i][0]) == SIGN(dt[i][3]))))
-        {
-            // Overlap
-            posDiff->dt = 0.0;
+            if (SIGN(ds[i][j]) != SIGN(ds[0][0]))
+            {
+                // Overlap, including the case of one BB spanning over the other
+                posDiff->ds = 0.0;
+            }
+            if (SIGN(dt[i][j]) != SIGN(dt[0][0]))
+            {
+                posDiff->dt = 0.0;
+            }
         }
     }
 
-- 
2.43.0


From 00ad3d38c81f5d7cf5f737d15c0181e9ad27e2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:38 +0000
Subject: [PATCH 030/105] fix: free space distance to vehicles with trailers

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 051f9ee..b8928b0 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -1082,7 +1082,7 @@ int Object::Distance(Object*                           target,
             {
                 pivot_obj = pivot_obj->TowVehicle();
             }
-            while (target_obj->TowVehicle())
+            while (target_front_obj->TowVehicle())
             {
                 target_front_obj = target_front_obj->TowVehicle();
             }
@@ -1139,7 +1139,7 @@ int Object::Distance(Object*                           target,
             {
                 pivot_obj = pivot_obj->TowVehicle();
             }
-            while (target_obj->TowVehicle())
+            while (target_front_obj->TowVehicle())
             {
                 target_front_obj = target_front_obj->TowVehicle();
             }
@@ -1154,7 +1154,7 @@ int Object::Distance(Object*                           target,
                        ((relDistType == RelativeDistanceType::REL_DIST_LATERAL && fabs(candidate_info.pos_diff.dt) > 0.0) ||
                         (relDistType == RelativeDistanceType::REL_DIST_LONGITUDINAL && fabs(candidate_info.pos_diff.ds) > 0.0)))
                 {
-                    int return_value = pivot_obj->FreeSpaceDistanceObjectRoadLane(target, &pos_diff, cs);
+                    int return_value = pivot_obj->FreeSpaceDistanceObjectRoadLane(target_obj, &pos_diff, cs);
                     if (return_value == 0)
                     {
                         if ((relDistType == RelativeDistanceType::REL_DIST_LATERAL && fabs(pos_diff.dt) < fabs(candidate_info.pos_diff.dt)) ||
-- 
2.43.0


From d6c226f391f78601c030e83bb73f4df587cd3e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:54 +0000
Subject: [PATCH 031/105] fix: angular acceleration is the plain difference of
 heading rates

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
index aa17dbc..d371547 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
@@ -691,7 +691,7 @@ void ScenarioEngine::prepareGroundTruth(double dt)
                 if (!obj->dirty_.Check(Object::DirtyBit::ANGULAR_ACC))
                 {
                     // If not already reported, calculate angular acceleration
-                    obj->SetAngularAcc(GetAngleDifference(heading_rate_new, obj->state_old.h_rate) / dt, 0.0, 0.0);
+                    obj->SetAngularAcc((heading_rate_new - obj->state_old.h_rate) / dt, 0.0, 0.0);
                 }
 
                 if (obj->type_ == Object::Type::VEHICLE)
-- 
2.43.0


From 2dc5a838c1d9df77ffa76360eb039ad5f7deef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:04 +0000
Subject: [PATCH 032/105] fix: clothoid trajectories respect start time

---
 .../Modules/RoadManager/RoadManager.cpp             | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index a792559..fd7c80b 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -13471,6 +13471,11 @@ int ClothoidSplineShape::Evaluate(double p, TrajectoryParamType ptype, TrajVerte
             // Transform time parameter value into a s value
             p = s + (t / duration) * segment->length_;
         }
+        else if (p < GetStartTime())
+        {
+            // not started yet, stay at start of trajectory
+            p = 0.0;
+        }
         else
         {
             LOG_WARN("ClothoidSplineShape::Evaluate Requested time {:.2f} outside range [{:.2f}, {:.2f}]", p, GetStartTime(), GetEndTime());
@@ -14152,9 +14157,13 @@ int ClothoidShape::Evaluate(double p, TrajectoryParamType ptype, TrajVertex& pos
     {
         if (p >= t_start_ && p <= t_end_)
         {
-            double t = p - t_start_;
             // Transform time parameter value into a s value
-            p = GetLength() * (t - t_start_) / (t_end_ - t_start_);
+            p = GetLength() * (p - t_start_) / (t_end_ - t_start_);
+        }
+        else if (p < t_start_)
+        {
+            // not started yet, stay at start of trajectory
+            p = 0.0;
         }
         else
         {
-- 
2.43.0


From 6779ef9f5fecd408a81f093a886b71e1113d3638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:04 +0000
Subject: [PATCH 033/105] fix: end of clothoid trajectories at full length

---
 .../Modules/RoadManager/RoadManager.cpp          | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index fd7c80b..418ace2 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -13579,7 +13579,7 @@ void ClothoidSplineShape::CalculatePolyLine()
 {
     // Create polyline placeholder representation
     double       stepLen = 1.0;
-    unsigned int steps   = static_cast<unsigned int>(length_ / stepLen);
+    unsigned int steps   = MAX(1u, static_cast<unsigned int>(length_ / stepLen));
     pline_.Reset(true);
     pline_.interpolation_mode_ = PolyLineBase::InterpolationMode::INTERPOLATE_SEGMENT;
     TrajVertex v;
@@ -13597,7 +13597,7 @@ void ClothoidSplineShape::CalculatePolyLine()
     {
         if (i < steps)
         {
-            if (i * stepLen > length_sum + segments_[j].length_ - SMALL_NUMBER)
+            while (j < segments_.size() - 1 && i * stepLen > length_sum + segments_[j].length_ - SMALL_NUMBER)
             {
                 // step segment
                 length_sum += segments_[j].length_;
@@ -13608,7 +13608,7 @@ void ClothoidSplineShape::CalculatePolyLine()
         else
         {
             // Add endpoint of last clothoid
-            EvaluateInternal(length_ - length_sum, static_cast<unsigned int>(segments_.size() - 1), v);
+            EvaluateInternal(segments_.back().length_, static_cast<unsigned int>(segments_.size() - 1), v);
         }
 
         // Resolve road coordinates to get elevation at point since the clothoid only provides 2D
@@ -13617,8 +13617,8 @@ void ClothoidSplineShape::CalculatePolyLine()
         v.z      = pos.GetZ();
         v.h_true = v.h;
 
-        v.param = v.s = i * stepLen;
-        v.time        = segments_.front().time_ + (i * stepLen / length_) * segments_.back().time_;
+        v.param = v.s = i < steps ? i * stepLen : length_;
+        v.time        = segments_.front().time_ + (v.s / length_) * GetDuration();
 
         pline_.AddVertex(v);
     }
@@ -14078,7 +14078,7 @@ void ClothoidShape::CalculatePolyLine()
 {
     // Create polyline representation
     double       stepLen = 1.0;
-    unsigned int steps   = static_cast<unsigned int>(spiral_.GetLength() / stepLen);
+    unsigned int steps   = MAX(1u, static_cast<unsigned int>(spiral_.GetLength() / stepLen));
     pline_.Reset(true);
     pline_.interpolation_mode_ = PolyLineBase::InterpolationMode::INTERPOLATE_SEGMENT;
     pline_.vertex_.reserve(steps);
@@ -14128,8 +14128,8 @@ void ClothoidShape::CalculatePolyLine()
                 }
             }
         }
-        v.param = v.s = i * stepLen;
-        v.time        = t_start_ + (i * stepLen / spiral_.GetLength()) * t_end_;
+        v.param = v.s = i < steps ? i * stepLen : spiral_.GetLength();
+        v.time        = t_start_ + (v.s / spiral_.GetLength()) * (t_end_ - t_start_);
         pline_.AddVertex(v);
     }
 
-- 
2.43.0


From 8b1f3a72bcd975de1b836ad3ca0598f68254a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:04 +0000
Subject: [PATCH 034/105] fix: keep polyline vertices turning clockwise on the
 spot

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 418ace2..8fe8e48 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -12985,7 +12985,7 @@ bool PolyLineShape::VerticesUnique(const Vertex& a, const Vertex& b, double dist
     }
 
     if ((PointDistance2D(a.pos_->GetX(), a.pos_->GetY(), b.pos_->GetX(), b.pos_->GetY()) < dist_threshold + SMALL_NUMBER) &&
-        (GetAngleDifference(a.pos_->GetH(), b.pos_->GetH()) < heading_threshold + SMALL_NUMBER))
+        (GetAbsAngleDifference(a.pos_->GetH(), b.pos_->GetH()) < heading_threshold + SMALL_NUMBER))
     {
         return false;
     }
-- 
2.43.0


From 9a40575ecab1861b8afff303477c2324cd5a4d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:04 +0000
Subject: [PATCH 035/105] fix: remaining time after end of trajectory is
 simulation time

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 348ce7c..f09923c 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -539,7 +539,7 @@ void FollowTrajectoryAction::Step(double simTime, double dt)
         {
             // Move the remaning distance along road at current lane offset
             double remaningTime = time_ + timeOffset - (traj_->GetStartTime() + traj_->GetDuration());
-            remaningDistance    = remaningTime * object_->speed_;
+            remaningDistance    = MIN(dt, remaningTime / MAX(timing_scale_, SMALL_NUMBER)) * object_->speed_;
         }
 
         // Move the remainder of distance along the current heading
-- 
2.43.0


From 2581a339cc03ca83641a3a5f713a1e06c22bec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 036/105] fix: copied clothoid spline keeps its end time

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 8fe8e48..ce049eb 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -13657,6 +13657,7 @@ Shape* ClothoidSplineShape::Copy()
         shape->AddSegment(s.posStart_, s.curvStart_, s.curvEnd_, s.length_, s.h_offset_, s.time_);
     }
     shape->spirals_ = spirals_;
+    shape->time_end_ = time_end_;
     shape->CalculatePolyLine();
     return shape;
 }
-- 
2.43.0


From 993d89843f42635009bb8701453399b45779a78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:24 +0000
Subject: [PATCH 037/105] fix: stand still between repeated trajectory vertices
 in following mode follow

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index ce049eb..22053eb 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -13261,8 +13261,9 @@ void PolyLineShape::CalculatePolyLine()
                 }
                 else
                 {
-                    // no movement, set speed and to zero
-                    speed = 0.0;
+                    // no movement, set speed to zero throughout the segment
+                    speed                       = 0.0;
+                    pline_.vertex_[i - 1].speed = 0.0;
                 }
                 pline_.vertex_[i - 1].acc = acc;
                 pline_.vertex_[i].speed   = speed;
-- 
2.43.0


From 4e7acd4f201795bc2a42e2bb2bdf43c30655d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:59 +0000
Subject: [PATCH 038/105] fix: collision option applies to its own run only

---
 EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp | 9 ++++++++-
 EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index a758284..d9a7178 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -81,6 +81,12 @@ ScenarioPlayer::ScenarioPlayer(int argc, char* argv[])
 
 ScenarioPlayer::~ScenarioPlayer()
 {
+    if (collision_detection_by_option_)
+    {
+        // the option applies to this run only
+        SE_Env::Inst().SetCollisionDetection(false);
+    }
+
     if (launch_server)
     {
         StopServer();
@@ -1813,9 +1819,10 @@ int ScenarioPlayer::Init()
         LOG_INFO("Generated seed {}", SE_Env::Inst().GetRand().GetSeed());
     }
 
-    if (opt.GetOptionSet("collision"))
+    if (opt.GetOptionSet("collision") && !SE_Env::Inst().GetCollisionDetection())
     {
         SE_Env::Inst().SetCollisionDetection(true);
+        collision_detection_by_option_ = true;
     }
 
     if (opt.GetOptionSet("plot"))
diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp
index 3b0f5bd..ed9bd0f 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.hpp
@@ -287,6 +287,7 @@ namespace scenarioengine
         Dat::DatWriter              dat_writer_;
 
     private:
+        bool        collision_detection_by_option_ = false;
         double       trail_dt;
         SE_Thread    thread;
         SE_Mutex     mutex;
-- 
2.43.0


From 237119f6c79b1de93c839a9095b331d7021dacce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:48 +0000
Subject: [PATCH 039/105] fix: initialize previous vertical position and
 velocity of objects

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index b8928b0..d88fa71 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -52,8 +52,10 @@ Object::Object(Type type)
 
     state_old.pos_x  = 0;
     state_old.pos_y  = 0;
+    state_old.pos_z  = 0;
     state_old.vel_x  = 0;
     state_old.vel_y  = 0;
+    state_old.vel_z  = 0;
     state_old.h      = 0;
     state_old.h_rate = 0;
 
-- 
2.43.0


From ca8ad94d4e997af105f747a34d4486516828f9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:48 +0000
Subject: [PATCH 040/105] fix: recording does not inherit storyboard state
 changes of previous run

---
 .../Modules/ScenarioEngine/SourceFiles/Storyboard.hpp            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Storyboard.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Storyboard.hpp
index 5f9ee7e..822b6bd 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Storyboard.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Storyboard.hpp
@@ -239,6 +239,7 @@ namespace scenarioengine
         StoryBoard() : StoryBoardElement(StoryBoardElement::ElementType::STORY_BOARD, nullptr)
         {
             SetName("storyBoard");  // don't need name for root level
+            ClearStateChanges();    // don't inherit unreported changes from any previous run
         }
         ~StoryBoard()
         {
-- 
2.43.0


From 9ed8547114a1b7978d9e2415280156d604ab3cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:17 +0000
Subject: [PATCH 041/105] fix: relative clearance condition without lane range

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
index 6ae9723..50a34ed 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.cpp
@@ -1630,7 +1630,8 @@ bool TrigByRelativeClearance::CheckCondition(double sim_time)
         }
 
         Object* refObject_;
-        result = false;
+        result   = false;
+        objFound = false;
 
         // First check all entities within lane range
         for (size_t j = 0; j < storyBoard_->entities_->object_.size(); j++)
@@ -1694,7 +1695,7 @@ bool TrigByRelativeClearance::CheckCondition(double sim_time)
             for (unsigned int j = 0; j < road->GetNumberOfDrivingLanes(entityObject->pos_.GetS()); j++)
             {
                 int lane_id = road->GetDrivingLaneByIdx(entityObject->pos_.GetS(), j)->GetId();
-                if (IS_IN_SPAN(lane_id, entityObject->pos_.GetLaneId() + from_, entityObject->pos_.GetLaneId() + to_) &&  // lane is within range
+                if (IS_IN_SPAN(lane_id - entityObject->pos_.GetLaneId(), from_, to_) &&  // lane is within range
                     ((oppositeLanes_ == true) ||  // consider any lane when opposite lane flag is false
                      (oppositeLanes_ == false &&
                       SIGN(lane_id) == SIGN(entityObject->pos_.GetLaneId()))))  // consider only same direction when opposite lane flag is false
-- 
2.43.0


From 4f5e8855f9dd2ce4a8ee1365bf18c496caa7040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:26 +0000
Subject: [PATCH 042/105] fix: Rel2Abs controller only copies actions it can
 predict

---
 .../Modules/Controllers/ControllerRel2Abs.cpp                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerRel2Abs.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerRel2Abs.cpp
index 3f703cb..014a7dc 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerRel2Abs.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerRel2Abs.cpp
@@ -175,11 +175,11 @@ void ControllerRel2Abs::Step(double timeStep)
 
                 for (unsigned int j = 0; j < activeActions.size(); j++)
                 {
-                    OSCPrivateAction* action_copy = activeActions[j]->Copy();
-                    action_copy->object_          = entities_->object_[i];
                     if (std::find(std::begin(action_whitelist), std::end(action_whitelist), activeActions[j]->action_type_) !=
                         std::end(action_whitelist))
                     {
+                        OSCPrivateAction* action_copy = activeActions[j]->Copy();
+                        action_copy->object_          = entities_->object_[i];
                         activeActionsCopies.push_back(static_cast<OSCAction*>(action_copy));
                     }
                 }
-- 
2.43.0


From e44c30a8f202db4c74b4b73f9c8c027f10a86ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:26 +0000
Subject: [PATCH 043/105] fix: limit number of objects in sensor hit list

---
 .../Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
index 501ee3f..321e3cb 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
@@ -61,7 +61,7 @@ void ObjectSensor::Update()
 {
     nObj_ = 0;
 
-    for (size_t i = 0; i < entities_->object_.size(); i++)
+    for (size_t i = 0; i < entities_->object_.size() && nObj_ < maxObj_; i++)
     {
         Object *obj = entities_->object_[i];
         if (obj == host_ || obj->IsGhost())
-- 
2.43.0


From 51b5b51f33f0bb94de1a3d71c3802af639916681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:15 +0000
Subject: [PATCH 044/105] fix: copied synchronize action keeps its steady state

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index 793b676..a7fce2c 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -906,19 +906,19 @@ namespace scenarioengine
             lastMasterDist_         = LARGE_NUMBER;
             tolerance_              = SYNCH_DISTANCE_TOLERANCE;
             tolerance_master_       = SYNCH_DISTANCE_TOLERANCE;
+            steadyState_.type_      = action.steadyState_.type_;
             if (steadyState_.type_ == SteadyStateType::STEADY_STATE_DIST)
             {
                 steadyState_.dist_ = action.steadyState_.dist_;
             }
             else if (steadyState_.type_ == SteadyStateType::STEADY_STATE_TIME)
             {
-                steadyState_.dist_ = action.steadyState_.time_;
+                steadyState_.time_ = action.steadyState_.time_;
             }
             else if (steadyState_.type_ == SteadyStateType::STEADY_STATE_POS)
             {
                 steadyState_.pos_ = action.steadyState_.pos_;
             }
-            steadyState_.type_ = action.steadyState_.type_;
         }
 
         ~SynchronizeAction();
-- 
2.43.0


From 6d4b2b53373ee6bf782fb59bd21f10cdbaecd927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:42 +0000
Subject: [PATCH 045/105] fix: controllers assigned during the scenario know
 the player

---
 EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index d9a7178..824d6d9 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -1258,7 +1258,11 @@ void ScenarioPlayer::InitControllersPostPlayer()
 {
     if (!scenarioEngine->GetDisableControllersFlag())
     {
-        //  Create relation between controllers and player
+        // Create relation between controllers and player, including controllers to be assigned later on by actions
+        for (auto ctrl : scenarioEngine->GetScenarioReader()->controller_)
+        {
+            ctrl->SetPlayer(this);
+        }
         for (size_t i = 0; i < scenarioEngine->entities_.object_.size(); i++)
         {
             if (scenarioEngine->entities_.object_[i]->controllers_.size() > 0)
-- 
2.43.0


From 5cf584714a8f9ca3e374c4b30e4f88ec1a523927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:42 +0000
Subject: [PATCH 046/105] fix: sensor field of view considers on what side the
 object is

---
 .../ScenarioEngine/SourceFiles/IdealSensor.cpp     | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
index 321e3cb..a49b9a4 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/IdealSensor.cpp
@@ -78,12 +78,6 @@ void ObjectSensor::Update()
 
         // Check whether object is within field of view
 
-        // find out angle between heading vector and line to object
-        double hx = 1.0;
-        double hy = 0.0;
-        double hx2, hy2;
-        RotateVec2D(hx, hy, host_->pos_.GetH(), hx2, hy2);
-
         double sensor_pos_x, sensor_pos_y;
         RotateVec2D(pos_.x, pos_.y, host_->pos_.GetH(), sensor_pos_x, sensor_pos_y);
         pos_.x_global = host_->pos_.GetX() + sensor_pos_x;
@@ -102,12 +96,8 @@ void ObjectSensor::Update()
             continue;
         }
 
-        double xon, yon;
-        NormalizeVec2D(xo, yo, xon, yon);
-
-        // Find angle to object
-        double angle     = acos(GetDotProduct2D(hx2, hy2, xon, yon));
-        double rel_angle = GetAbsAngleDifference(angle, pos_.h);
+        // Find angle between sensor heading and line to object
+        double rel_angle = GetAbsAngleDifference(GetAngleOfVector(xo, yo), GetAngleSum(host_->pos_.GetH(), pos_.h));
         if (rel_angle < fovH_ / 2)
         {
             hitList_[nObj_].obj_ = obj;
-- 
2.43.0


From 60076e9d42fb808eb73feb9baa814cc261c9d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:04 +0000
Subject: [PATCH 047/105] fix: ignore injected actions for unknown objects,
 delete all completed ones

---
 .../Modules/PlayerBase/PlayerServer.cpp              | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
index 8975547..f5e9458 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
@@ -48,6 +48,13 @@ namespace scenarioengine
 
     int PlayerServer::AddAction(OSCAction *action)
     {
+        if (action->GetBaseType() == OSCAction::BaseType::PRIVATE && static_cast<OSCPrivateAction *>(action)->object_ == nullptr)
+        {
+            LOG_ERROR("Can't inject action {}, object not found", action->GetName());
+            delete action;
+            return -1;
+        }
+
         LOG_INFO("Adding action {}", action->GetName());
 
         // abort any action of same type and object
@@ -88,12 +95,15 @@ namespace scenarioengine
 
     void PlayerServer::Step()
     {
-        for (size_t i = 0; i < action_.size(); i++)
+        for (size_t i = 0; i < action_.size();)
         {
             if (action_[i]->GetCurrentState() == OSCAction::State::COMPLETE)
             {
                 LOG_INFO("Injected action {} finished", action_[i]->GetName().c_str());
                 DeleteAction(static_cast<unsigned int>(i));
+            }
+            else
+            {
                 i++;
             }
         }
-- 
2.43.0


From d6b1a31fd152b558b2ccc5992d032ab9b09f6db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:04 +0000
Subject: [PATCH 048/105] fix: check arguments of wheel and light state
 requests

---
 .../Libraries/esminiLib/esminiLib.cpp               | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 23df52a..5fb17a1 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -161,6 +161,7 @@ static void copyWheelDataFromScenarioObject(SE_WheelData *wheeldata, const scena
         wheeldata->z                    = wd.z;
         wheeldata->h                    = wd.h;
         wheeldata->p                    = wd.p;
+        wheeldata->wheel_radius         = wd.wheel_radius;
         wheeldata->friction_coefficient = wd.friction_coefficient;
         wheeldata->axle                 = wd.axle;
         wheeldata->index                = wd.index;
@@ -1475,7 +1476,8 @@ extern "C"
 
         Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
 
-        if (obj == nullptr)
+        if (obj == nullptr || static_cast<int>(light_type) < 0 ||
+            static_cast<int>(light_type) >= static_cast<int>(Object::VehicleLightType::VEHICLE_LIGHT_SIZE))
         {
             return -1;
         }
@@ -2155,9 +2157,9 @@ extern "C"
 
     SE_DLL_API int SE_GetObjectNumberOfWheels(int object_id)
     {
-        Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+        Object *obj = nullptr;
 
-        if (obj != nullptr && obj->GetType() == Object::Type::VEHICLE)
+        if (getObjectById(object_id, obj) == 0 && obj != nullptr && obj->GetType() == Object::Type::VEHICLE)
         {
             return static_cast<int>(static_cast<Vehicle *>(obj)->GetWheelData().size());
         }
@@ -2167,9 +2169,10 @@ extern "C"
 
     SE_DLL_API int SE_GetObjectWheelData(int object_id, int wheel_index, SE_WheelData *wheeldata)
     {
-        Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+        Object *obj = nullptr;
 
-        if (wheel_index >= 0 && obj != nullptr && obj->GetType() == Object::Type::VEHICLE)
+        if (wheel_index >= 0 && getObjectById(object_id, obj) == 0 && obj != nullptr && obj->GetType() == Object::Type::VEHICLE &&
+            static_cast<size_t>(wheel_index) < static_cast<Vehicle *>(obj)->GetWheelData().size())
         {
             copyWheelDataFromScenarioObject(wheeldata, static_cast<Vehicle &>(*obj), static_cast<unsigned int>(wheel_index));
             return 0;
-- 
2.43.0


From 35d8b59eb4db4a12440b913f221298b83cb0cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:27 +0000
Subject: [PATCH 049/105] fix: Rel2Abs controller replaces an action once

---
 .../Modules/Controllers/ControllerRel2Abs.cpp | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerRel2Abs.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerRel2Abs.cpp
index 014a7dc..eba75df 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerRel2Abs.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerRel2Abs.cpp
@@ -389,17 +389,19 @@ void ControllerRel2Abs::Step(double timeStep)
                     target_abs->value_                          = currentSpeed;
                     lsa->target_.reset(target_abs);
                     // get lda's event and add lsa action to it
-                    std::vector<Event*> events = lda->object_->getEvents();
-                    for (size_t j = 0; j < events.size(); j++)
+                    std::vector<Event*> events   = lda->object_->getEvents();
+                    bool                replaced = false;
+                    for (size_t j = 0; j < events.size() && !replaced; j++)
                     {
                         // Ensure it's correct event
-                        for (size_t k = 0; k < events[j]->action_.size(); k++)
+                        for (size_t k = 0; k < events[j]->action_.size() && !replaced; k++)
                         {
                             if (activeActions[i] == events[j]->action_[k])
                             {
                                 events[j]->action_.push_back(static_cast<OSCAction*>(lsa));
                                 activeActions.erase(activeActions.begin() + i);
                                 activeActions.push_back(lsa);
+                                replaced = true;
                             }
                         }
                     }
@@ -499,17 +501,19 @@ void ControllerRel2Abs::Step(double timeStep)
                             lsa->target_.reset(target_abs);
 
                             // get sa's event and add lsa action to it
-                            std::vector<Event*> events = sa->object_->getEvents();
-                            for (size_t j = 0; j < events.size(); j++)
+                            std::vector<Event*> events   = sa->object_->getEvents();
+                            bool                replaced = false;
+                            for (size_t j = 0; j < events.size() && !replaced; j++)
                             {
                                 // Find correct event
-                                for (size_t k = 0; k < events[j]->action_.size(); k++)
+                                for (size_t k = 0; k < events[j]->action_.size() && !replaced; k++)
                                 {
                                     if (activeActions[i] == events[j]->action_[k])
                                     {
                                         events[j]->action_.push_back(static_cast<OSCAction*>(lsa));
                                         activeActions.erase(activeActions.begin() + i);
                                         activeActions.push_back(lsa);
+                                        replaced = true;
                                     }
                                 }
                             }
@@ -546,17 +550,19 @@ void ControllerRel2Abs::Step(double timeStep)
                         lsa->target_.reset(target_abs);
 
                         // get sa's event and add lsa action to it
-                        std::vector<Event*> events = sa->object_->getEvents();
-                        for (size_t j = 0; j < events.size(); j++)
+                        std::vector<Event*> events   = sa->object_->getEvents();
+                        bool                replaced = false;
+                        for (size_t j = 0; j < events.size() && !replaced; j++)
                         {
                             // Ensure it's correct event
-                            for (size_t k = 0; k < events[j]->action_.size(); k++)
+                            for (size_t k = 0; k < events[j]->action_.size() && !replaced; k++)
                             {
                                 if (activeActions[i] == events[j]->action_[k])
                                 {
                                     events[j]->action_.push_back(static_cast<OSCAction*>(lsa));
                                     activeActions.erase(activeActions.begin() + i);
                                     activeActions.push_back(lsa);
+                                    replaced = true;
                                 }
                             }
                         }
-- 
2.43.0


From 9b9e4429a192ded04218a2897c4cca5f57f2d945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:08 +0000
Subject: [PATCH 050/105] fix: follow route controller does not look beyond the
 last waypoint

---
 .../Modules/Controllers/ControllerFollowRoute.cpp              | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerFollowRoute.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerFollowRoute.cpp
index f90d9b6..c694ecc 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerFollowRoute.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerFollowRoute.cpp
@@ -210,7 +210,8 @@ void ControllerFollowRoute::CalculateWaypoints()
     unsigned int j = 0;
     for (auto &scwp : object_->pos_.GetRoute()->all_waypoints_)
     {
-        if (scwp.GetTrackId() == object_->pos_.GetRoute()->scenario_waypoints_[j].GetTrackId())
+        if (j < object_->pos_.GetRoute()->scenario_waypoints_.size() &&
+            scwp.GetTrackId() == object_->pos_.GetRoute()->scenario_waypoints_[j].GetTrackId())
         {
             // j represents the index of the next scenario waypoint corresponding to the pivot detailed waypoint
             j++;
-- 
2.43.0


From ec9f82e4e90ad710034436fb95ca01e0aca3ebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:07 +0000
Subject: [PATCH 051/105] fix: lateral distance action does not use an
 undefined distance when no path is found

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index f09923c..471164f 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -2080,6 +2080,8 @@ void LatDistanceAction::GetDesiredRoadPos(const double distance_error, roadmanag
 
 void LatDistanceAction::GetDistanceError(roadmanager::Position& pos1, roadmanager::Position& pos2, double& distance_error)
 {
+    distance_error = 0.0;
+
     // Find out current distance
     if (roadmanager::CoordinateSystem::CS_ROAD != cs_ && roadmanager::CoordinateSystem::CS_ENTITY != cs_)
     {
@@ -2099,7 +2101,6 @@ void LatDistanceAction::GetDistanceError(roadmanager::Position& pos1, roadmanage
     }
 
     bool facing_forward = IsAngleForward(object_->pos_.GetHRelative());
-    distance_error      = 0.0;
 
     // Both cars facing same direction, either along the driving direction or against it
     if ((facing_forward && pos_diff.dDirection) || (!facing_forward && !pos_diff.dDirection))
-- 
2.43.0


From 001f37348c37660f5ebbf6120e8da4af78c6a52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:41 +0000
Subject: [PATCH 052/105] fix: route does not move beyond its last waypoint

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 22053eb..b138327 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -15142,9 +15142,9 @@ Position::ReturnCode Route::SetPathS(double s, double* remaining_dist, bool upda
         double ds = s - wp->GetRouteWaypointS();
 
         // check if delta s reaches beyond the road of wp(i)
-        if ((waypoint_idx_ < minimal_waypoints_.size() - 1 &&
-             (wp->GetRouteWaypointDir() == 1 && wp->GetS() + ds > road->GetLength() + SMALL_NUMBER)) ||
-            (wp->GetRouteWaypointDir() == -1 && wp->GetS() < ds + SMALL_NUMBER))
+        if (waypoint_idx_ < minimal_waypoints_.size() - 1 &&
+            ((wp->GetRouteWaypointDir() == 1 && wp->GetS() + ds > road->GetLength() + SMALL_NUMBER) ||
+             (wp->GetRouteWaypointDir() == -1 && wp->GetS() < ds + SMALL_NUMBER)))
         {
             // move to next road
             const Position& next_wp   = minimal_waypoints_[waypoint_idx_ + 1];
-- 
2.43.0


From 3f6b8fd470e8bf21d10ed3f7fa983c7e9996bd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:44 +0000
Subject: [PATCH 053/105] fix: name of parameter or variable with index out of
 range is 0 instead of an abort

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 5fb17a1..044e562 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -800,6 +800,11 @@ extern "C"
             return 0;
         }
 
+        if (index < 0 || index >= player->GetNumberOfParameters())
+        {
+            return 0;
+        }
+
         returnString = player->GetParameterName(index, (OSCParameterDeclarations::ParameterType *)type);
 
         return returnString.c_str();
@@ -824,6 +829,11 @@ extern "C"
             return 0;
         }
 
+        if (index < 0 || index >= player->GetNumberOfVariables())
+        {
+            return 0;
+        }
+
         returnString = player->GetVariableName(index, (OSCParameterDeclarations::ParameterType *)type);
 
         return returnString.c_str();
-- 
2.43.0


From 0b61cc13dd06166347b1de9c837c1737c16650cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:44 +0000
Subject: [PATCH 054/105] fix: SE_ObjectHasGhost reports unknown object as
 documented

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 044e562..f5bfb86 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1949,7 +1949,7 @@ extern "C"
         Object *obj = nullptr;
         if (getObjectById(object_id, obj) == -1)
         {
-            return 0;
+            return -1;
         }
 
         return obj->GetGhost() == nullptr ? 0 : 1;
-- 
2.43.0


From c250a30bd832240c20f975c8275f6af4525dc59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:44 +0000
Subject: [PATCH 055/105] fix: natural driver off road has no adjacent lanes

---
 .../Modules/Controllers/ControllerNaturalDriver.cpp          | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerNaturalDriver.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerNaturalDriver.cpp
index 921d34e..0dcbaa7 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerNaturalDriver.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerNaturalDriver.cpp
@@ -547,10 +547,9 @@ bool ControllerNaturalDriver::AdjacentLanesAvailable()
     id_t road_id = object_->pos_.GetTrackId();
     auto road    = object_->pos_.GetRoadById(road_id);
 
-    auto ls                      = road->GetLaneSectionByS(current_s);
-    auto driving_lanes_available = ls->GetNumberOfDrivingLanesSide(current_lane);
+    auto ls = road != nullptr ? road->GetLaneSectionByS(current_s) : nullptr;
 
-    if (driving_lanes_available <= 1)
+    if (ls == nullptr || ls->GetNumberOfDrivingLanesSide(current_lane) <= 1)
     {
         // no additional lanes available in current direction
         lane_ids_available_[0] = 0;
-- 
2.43.0


From ec81b47fa2963297e0e0c8934be9c5034d4c026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:44 +0000
Subject: [PATCH 056/105] fix: distance of undefined type is refused

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
index d371547..b11f914 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioEngine.cpp
@@ -1282,6 +1282,11 @@ int ScenarioEngine::GetDistance(Object*                           object_1,
     uint64_t key     = GenerateKey(object_1->GetId(), object_2->GetId());
     uint64_t rev_key = GenerateKey(object_2->GetId(), object_1->GetId());
 
+    if (dist_type <= roadmanager::RelativeDistanceType::REL_DIST_UNDEFINED || dist_type >= roadmanager::RelativeDistanceType::ENUM_SIZE)
+    {
+        return -1;
+    }
+
     if (!object_1->IsActive() || !object_2->IsActive())
     {
         object_distance_map_.erase(key);
-- 
2.43.0


From a2a229b18cd62f8135aa38cea1c9042ed15f8905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:39 +0000
Subject: [PATCH 057/105] fix: object deleted by SE_DeleteObject is not
 referred to by conditions, actions and controllers after being freed

---
 .../Libraries/esminiLib/esminiLib.cpp                | 12 ++++++------
 .../ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp   | 10 +++++++++-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index f5bfb86..ce00d23 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -177,7 +177,7 @@ static int getObjectById(int object_id, Object *&obj)
     else
     {
         obj = player->scenarioEngine->entities_.GetObjectById(object_id);
-        if (obj == nullptr)
+        if (obj == nullptr || !obj->IsActive())
         {
             LOG_ERROR("Invalid object_id ({})", object_id);
             return -1;
@@ -1196,14 +1196,14 @@ extern "C"
 
         if (player != nullptr)
         {
-            for (auto &ctrl : obj->controllers_)
+            std::vector<Controller *> controllers = obj->controllers_;
+            for (auto ctrl : controllers)
             {
                 obj->UnassignController(ctrl);
-                ctrl->UnlinkObject();
-                player->scenarioEngine->scenarioReader->RemoveController(ctrl);
             }
-            player->scenarioEngine->entities_.removeObject(object_id);
-            return 0;
+
+            // conditions, actions and other objects can refer to the object, hence keep it inactive until end of scenario
+            return player->scenarioEngine->entities_.deactivateObject(obj);
         }
 
         return -1;
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
index 8de1d88..857bcce 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
@@ -797,6 +797,13 @@ int SwarmTrafficAction::despawn(double simTime)
     {
         Object* vehicle = entities_->GetObjectById(infoPtr->vehicleID);
 
+        if (vehicle == nullptr || !vehicle->IsActive())
+        {
+            // removed by someone else
+            infoPtr = spawnedV.erase(infoPtr);
+            continue;
+        }
+
         if (vehicle->IsOffRoad() || vehicle->IsEndOfRoad())
         {
             deleteVehicle = true;
@@ -827,7 +834,8 @@ int SwarmTrafficAction::despawn(double simTime)
 
         if (deleteVehicle)
         {
-            for (auto ctrl : vehicle->controllers_)
+            std::vector<Controller*> controllers = vehicle->controllers_;
+            for (auto ctrl : controllers)
             {
                 vehicle->UnassignController(ctrl);
                 ctrl->UnlinkObject();
-- 
2.43.0


From 7da92540c9a59fdd0f5b1c7f2e6f17e715c8a18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:55 +0000
Subject: [PATCH 058/105] fix: lane id of a position without road is not forced

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index b138327..cdec40a 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -9929,6 +9929,10 @@ void Position::ForceLaneId(int lane_id)
     }
     // find out lateral distance between current and target lane
     Road* road = GetRoadById(GetTrackId());
+    if (road == nullptr)
+    {
+        return;
+    }
 
     double lat_dist = road->GetLaneSectionByIdx(lane_section_idx_)->GetOffsetBetweenLanes(lane_id_, lane_id, GetS());
 
-- 
2.43.0


From f140ee44476787ef25b3d4b2b940ef84bc31dd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:27 +0000
Subject: [PATCH 059/105] fix: relative position of an entity without road does
 not access the road

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index cdec40a..9abd1f5 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -10367,7 +10367,7 @@ Position::ReturnCode Position::MoveAlongS(double            ds,
     }
     else if (mode == MoveDirectionMode::LANE_DIRECTION)
     {
-        if (road->GetRule() == Road::RoadRule::LEFT_HAND_TRAFFIC)
+        if (road != nullptr && road->GetRule() == Road::RoadRule::LEFT_HAND_TRAFFIC)
         {
             ds_road = ds_road * SIGN(GetLaneId());
         }
-- 
2.43.0


From 73ef11297f5e697310cabf5ce77d6f3daec47ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:49 +0000
Subject: [PATCH 060/105] fix: swarm vehicle is not freed while an injected
 action refers to it

---
 EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp     | 5 +++++
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp   | 5 +++--
 .../Modules/ScenarioEngine/SourceFiles/Entities.hpp          | 1 +
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
index f5e9458..4af20e5 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
@@ -72,6 +72,11 @@ namespace scenarioengine
             }
         }
 
+        if (action->GetBaseType() == OSCAction::BaseType::PRIVATE)
+        {
+            static_cast<OSCPrivateAction *>(action)->object_->injectedAction_ = true;
+        }
+
         action_.push_back(action);
 
         counter_++;
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
index 857bcce..892c3cb 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
@@ -850,9 +850,10 @@ int SwarmTrafficAction::despawn(double simTime)
                 {
                     trailer = static_cast<Vehicle*>(v->TrailerVehicle());
 
-                    if (v->objectEvents_.size() > 0 || v->initActions_.size() > 0)
+                    if (v->objectEvents_.size() > 0 || v->initActions_.size() > 0 || v->injectedAction_)
                     {
                         entities_->deactivateObject(v);
+                        trailer = nullptr;  // any trailers are deactivated as well
                     }
                     else
                     {
@@ -866,7 +867,7 @@ int SwarmTrafficAction::despawn(double simTime)
 
             if (vehicle)
             {
-                if (vehicle->objectEvents_.size() > 0 || vehicle->initActions_.size() > 0)
+                if (vehicle->objectEvents_.size() > 0 || vehicle->initActions_.size() > 0 || vehicle->injectedAction_)
                 {
                     entities_->deactivateObject(vehicle);
                 }
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
index 69196ae..d19e0e4 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
@@ -298,6 +298,7 @@ namespace scenarioengine
         // Rel2abs Controller addition
         std::vector<Event*>            objectEvents_;  // Events that contains privateactions applied to this object
         std::vector<OSCPrivateAction*> initActions_;   // initActions that is being or has been applied to this object
+        bool                           injectedAction_ = false;  // an action has been injected for this object
 
         DampedSpring pitch_spring_;
         DampedSpring roll_spring_;
-- 
2.43.0


From 61bfd1819ea20369c1ef5ad826047c52640f1a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:57 +0000
Subject: [PATCH 061/105] fix: looming controller does not follow a missing
 lane link

---
 .../Modules/Controllers/ControllerLooming.cpp    | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerLooming.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerLooming.cpp
index 93b039f..a6aca68 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerLooming.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerLooming.cpp
@@ -161,8 +161,15 @@ void ControllerLooming::Step(double timeStep)
                     }
                     else
                     {
-                        lane = lsec->GetLaneById(
-                            lane->GetLink(direction_prev == 1 ? roadmanager::LinkType::SUCCESSOR : roadmanager::LinkType::PREDECESSOR)->GetId());
+                        roadmanager::LaneLink* link =
+                            lane->GetLink(direction_prev == 1 ? roadmanager::LinkType::SUCCESSOR : roadmanager::LinkType::PREDECESSOR);
+                        if (link == nullptr)
+                        {
+                            LOG_WARN("Unexpected missing lane link");
+                            return;
+                        }
+
+                        lane = lsec->GetLaneById(link->GetId());
                     }
                 }
                 else if (road_counter > 0)
@@ -178,6 +185,11 @@ void ControllerLooming::Step(double timeStep)
 
                     lane = lsec->GetLaneById(link->GetId());
                 }
+                if (lane == nullptr)
+                {
+                    LOG_WARN("Unexpected missing lane");
+                    return;
+                }
                 std::vector<roadmanager::PointStruct> osi_points = lane->GetOSIPoints()->GetPoints();
 
                 double dist_left = -1.0;  // the distance from ego vehicle to the closest found tangent point
-- 
2.43.0


From 4beeb7dec67f391a23d79f335d8c608dec63040f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:25 +0000
Subject: [PATCH 062/105] fix: repeated teleport action does not leak the route
 of its position

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 471164f..b9b2893 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -2430,6 +2430,11 @@ void TeleportAction::Start(double simTime)
         }
 
         // consider any assigned route for relative positions
+        if (object_->pos_.route_ != nullptr && position_.route_ != nullptr)
+        {
+            delete position_.route_;
+            position_.route_ = nullptr;
+        }
         position_.CopyRoute(object_->pos_);
 
         // do the relocation
-- 
2.43.0


From 29faa3d160758ef502192949a3d0b7e040fcc48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:25 +0000
Subject: [PATCH 063/105] fix: signal controllers do not remain when another
 road network is loaded

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 9abd1f5..4bb4fc5 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -3677,6 +3677,8 @@ void OpenDrive::Clear()
     }
     junction_.clear();
 
+    controller_.clear();
+
     SetSpeedUnit(SpeedUnit::UNDEFINED);
 
     geo_offset_.hdg_                = 0.0;
-- 
2.43.0


From 7b07a0c706e679467dcc20750be281f18d35beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:27 +0000
Subject: [PATCH 064/105] fix: swarm vehicle is not freed while a sensor refers
 to it

---
 EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp      | 2 +-
 EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp        | 1 +
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp    | 4 ++--
 .../Modules/ScenarioEngine/SourceFiles/Entities.hpp           | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
index 4af20e5..88b92e4 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/PlayerServer.cpp
@@ -74,7 +74,7 @@ namespace scenarioengine
 
         if (action->GetBaseType() == OSCAction::BaseType::PRIVATE)
         {
-            static_cast<OSCPrivateAction *>(action)->object_->injectedAction_ = true;
+            static_cast<OSCPrivateAction *>(action)->object_->referred_ = true;
         }
 
         action_.push_back(action);
diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index 824d6d9..5d39ffa 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -1292,6 +1292,7 @@ int ScenarioPlayer::AddObjectSensor(Object* obj,
         return -1;
     }
 
+    obj->referred_ = true;
     sensor.push_back(new ObjectSensor(&scenarioEngine->entities_, obj, pos_x, pos_y, pos_z, heading, near_dist, far_dist, fovH, maxObj));
 
 #ifdef _USE_OSG
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
index 892c3cb..28ba1ff 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCGlobalAction.cpp
@@ -850,7 +850,7 @@ int SwarmTrafficAction::despawn(double simTime)
                 {
                     trailer = static_cast<Vehicle*>(v->TrailerVehicle());
 
-                    if (v->objectEvents_.size() > 0 || v->initActions_.size() > 0 || v->injectedAction_)
+                    if (v->objectEvents_.size() > 0 || v->initActions_.size() > 0 || v->referred_)
                     {
                         entities_->deactivateObject(v);
                         trailer = nullptr;  // any trailers are deactivated as well
@@ -867,7 +867,7 @@ int SwarmTrafficAction::despawn(double simTime)
 
             if (vehicle)
             {
-                if (vehicle->objectEvents_.size() > 0 || vehicle->initActions_.size() > 0 || vehicle->injectedAction_)
+                if (vehicle->objectEvents_.size() > 0 || vehicle->initActions_.size() > 0 || vehicle->referred_)
                 {
                     entities_->deactivateObject(vehicle);
                 }
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
index d19e0e4..096b3f5 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.hpp
@@ -298,7 +298,7 @@ namespace scenarioengine
         // Rel2abs Controller addition
         std::vector<Event*>            objectEvents_;  // Events that contains privateactions applied to this object
         std::vector<OSCPrivateAction*> initActions_;   // initActions that is being or has been applied to this object
-        bool                           injectedAction_ = false;  // an action has been injected for this object
+        bool                           referred_ = false;  // injected action or sensor refers to this object
 
         DampedSpring pitch_spring_;
         DampedSpring roll_spring_;
-- 
2.43.0


From 132e55656968fdb740de53be727625c4ec79f9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:24 +0000
Subject: [PATCH 065/105] fix: controller is deactivated before its object is
 unlinked

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index d88fa71..52a11ec 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -139,8 +139,8 @@ void Object::UnassignController(Controller* controller)
         std::find_if(controllers_.begin(), controllers_.end(), [&controller](const Controller* ctrl) { return ctrl == controller; });
     if (itr != controllers_.end())
     {
-        controller->UnlinkObject();
         controller->Deactivate();
+        controller->UnlinkObject();
     }
     controllers_.erase(std::remove(controllers_.begin(), controllers_.end(), controller), controllers_.end());
 }
-- 
2.43.0


From 175ed79d7b8ef4a5de56a58ec6f2abbc11e005e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:39 +0000
Subject: [PATCH 066/105] fix: follow route controller does not access road
 when off road

---
 .../Modules/Controllers/ControllerFollowRoute.cpp          | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerFollowRoute.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerFollowRoute.cpp
index c694ecc..f04bc91 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerFollowRoute.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerFollowRoute.cpp
@@ -104,6 +104,13 @@ void ControllerFollowRoute::Step(double timeStep)
         return;
     }
 
+    if (odr_->GetRoadById(object_->pos_.GetTrackId()) == nullptr)
+    {
+        // off road, nothing to follow
+        Controller::Step(timeStep);
+        return;
+    }
+
     roadmanager::Position vehiclePos   = object_->pos_;
     roadmanager::Position nextWaypoint = waypoints_[static_cast<unsigned int>(currentWaypointIndex_)];
 
-- 
2.43.0


From 691b44ee1d886fd85156dcdc56634b590b14c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:43 +0000
Subject: [PATCH 067/105] fix: ALKS controller refused by a non vehicle object
 is not activated

---
 .../Modules/Controllers/ControllerALKS_R157SM.cpp            | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Modules/Controllers/ControllerALKS_R157SM.cpp b/EnvironmentSimulator/Modules/Controllers/ControllerALKS_R157SM.cpp
index b3fda2b..7f2bd68 100644
--- a/EnvironmentSimulator/Modules/Controllers/ControllerALKS_R157SM.cpp
+++ b/EnvironmentSimulator/Modules/Controllers/ControllerALKS_R157SM.cpp
@@ -266,6 +266,11 @@ void ControllerALKS_R157SM::LinkObject(Object* object)
 
 int ControllerALKS_R157SM::Activate(const ControlActivationMode (&mode)[static_cast<unsigned int>(ControlDomains::COUNT)])
 {
+    if (object_ == nullptr)
+    {
+        return -1;
+    }
+
     if (model_)
     {
         model_->set_speed_ = object_->GetSpeed();
-- 
2.43.0


From b8b12f063c15e3aee5fbb66d90427256b2c09911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:56 +0000
Subject: [PATCH 068/105] fix: state of a deleted object is not reported

---
 .../Libraries/esminiLib/esminiLib.cpp         | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index ce00d23..d277209 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -168,6 +168,12 @@ static void copyWheelDataFromScenarioObject(SE_WheelData *wheeldata, const scena
     }
 }
 
+static Object *getActiveObjectById(int object_id)
+{
+    Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+    return obj != nullptr && obj->IsActive() ? obj : nullptr;  // exclude deleted objects
+}
+
 static int getObjectById(int object_id, Object *&obj)
 {
     if (player == nullptr)
@@ -1466,7 +1472,7 @@ extern "C"
             return -1;
         }
 
-        Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+        Object *obj = getActiveObjectById(object_id);
 
         if (obj != nullptr)
         {
@@ -1484,7 +1490,7 @@ extern "C"
             return -1;
         }
 
-        Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+        Object *obj = getActiveObjectById(object_id);
 
         if (obj == nullptr || static_cast<int>(light_type) < 0 ||
             static_cast<int>(light_type) >= static_cast<int>(Object::VehicleLightType::VEHICLE_LIGHT_SIZE))
@@ -1512,7 +1518,7 @@ extern "C"
     {
         if (player != nullptr)
         {
-            Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+            Object *obj = getActiveObjectById(object_id);
             if (obj == nullptr)
             {
                 return -1;
@@ -2039,7 +2045,7 @@ extern "C"
     {
         if (player != nullptr)
         {
-            Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+            Object *obj = getActiveObjectById(object_id);
             if (obj != nullptr)
             {
                 return obj->odometer_;
@@ -2053,7 +2059,7 @@ extern "C"
     {
         if (player != nullptr)
         {
-            Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+            Object *obj = getActiveObjectById(object_id);
             if (obj != nullptr)
             {
                 return obj->pos_.GetAcc();
@@ -2069,7 +2075,7 @@ extern "C"
         {
             return -1;
         }
-        Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+        Object *obj = getActiveObjectById(object_id);
         if (obj == nullptr)
         {
             return -1;
@@ -2088,7 +2094,7 @@ extern "C"
             return -1;
         }
 
-        Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+        Object *obj = getActiveObjectById(object_id);
         if (obj == nullptr)
         {
             return -1;
@@ -2106,7 +2112,7 @@ extern "C"
             return -1;
         }
 
-        Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+        Object *obj = getActiveObjectById(object_id);
         if (obj == nullptr)
         {
             return -1;
@@ -2121,7 +2127,7 @@ extern "C"
     {
         if (player != nullptr)
         {
-            Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+            Object *obj = getActiveObjectById(object_id);
             if (obj != nullptr && (acc_x != nullptr || acc_y != nullptr || acc_z != nullptr))
             {
                 if (acc_x != nullptr)
@@ -2147,7 +2153,7 @@ extern "C"
     {
         if (player != nullptr)
         {
-            Object *obj = player->scenarioEngine->entities_.GetObjectById(object_id);
+            Object *obj = getActiveObjectById(object_id);
             if (obj != nullptr && (acc_lat != nullptr || acc_long != nullptr))
             {
                 if (acc_lat != nullptr)
-- 
2.43.0


From d9ba152fb99ae63befbb6a2e06306b1e25375156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:56 +0000
Subject: [PATCH 069/105] fix: reported lateral lane position considers the
 lane id

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index d277209..ecace02 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1300,14 +1300,13 @@ extern "C"
 
     SE_DLL_API int SE_ReportObjectLateralLanePosition(int object_id, int laneId, double laneOffset)
     {
-        (void)laneId;
         Object *obj = nullptr;
         if (getObjectById(object_id, obj) == -1)
         {
             return -1;
         }
 
-        obj->pos_.SetLanePos(obj->pos_.GetTrackId(), obj->pos_.GetLaneId(), obj->pos_.GetS(), laneOffset);
+        obj->pos_.SetLanePos(obj->pos_.GetTrackId(), laneId, obj->pos_.GetS(), laneOffset);
         obj->dirty_.SetBits(Object::DirtyBit::LONGITUDINAL | Object::DirtyBit::LATERAL);
 
         return 0;
-- 
2.43.0


From 40ce88e64fee9de7f982e90e4297166bcf1298a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:57 +0000
Subject: [PATCH 070/105] fix: lane snap and lock settings accept any object
 id, not only those below the number of objects

---
 .../Libraries/esminiLib/esminiLib.cpp         | 20 +++----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index ecace02..d69dcf7 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1393,15 +1393,8 @@ extern "C"
             return -1;
         }
 
-        if (object_id >= 0 && object_id < static_cast<int>(player->scenarioEngine->entities_.object_.size()))
-        {
-            obj->pos_.SetSnapLaneTypes(laneTypes);
-            obj->dirty_.SetBits(Object::DirtyBit::LANE_TYPE_SNAP_MASK);
-        }
-        else
-        {
-            return -1;
-        }
+        obj->pos_.SetSnapLaneTypes(laneTypes);
+        obj->dirty_.SetBits(Object::DirtyBit::LANE_TYPE_SNAP_MASK);
 
         return 0;
     }
@@ -1414,14 +1407,7 @@ extern "C"
             return -1;
         }
 
-        if (object_id >= 0 && object_id < static_cast<int>(player->scenarioEngine->entities_.object_.size()))
-        {
-            obj->pos_.SetLockOnLane(mode);
-        }
-        else
-        {
-            return -1;
-        }
+        obj->pos_.SetLockOnLane(mode);
 
         return 0;
     }
-- 
2.43.0


From 4fb43d0a90b8e0b22955612a22390b7bc94d44f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:57 +0000
Subject: [PATCH 071/105] fix: object added without name is named by its id

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index d69dcf7..182d69c 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -1151,7 +1151,7 @@ extern "C"
                 object->category_    = object_category;
                 object->role_        = static_cast<scenarioengine::Object::Role>(object_role);
                 object->boundingbox_ = bb;
-                object->name_        = (object_name == nullptr) ? "obj_" + std::to_string(object->id_) : object_name;
+                object->name_        = (object_name == nullptr) ? "" : object_name;
 
                 if (model_3d != nullptr && strlen(model_3d) > 0)
                 {
@@ -1178,6 +1178,10 @@ extern "C"
                 }
 
                 player->scenarioEngine->entities_.addObject(object, true);
+                if (object_name == nullptr)
+                {
+                    object->name_ = "obj_" + std::to_string(object->id_);
+                }
             }
             else
             {
-- 
2.43.0


From 67253f661b53ddc949585be7e84e4b6cf40b5a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:12 +0000
Subject: [PATCH 072/105] fix: cut off or inconsistent packet sizes of a
 recording are recognized

---
 .../SourceFiles/PacketHandler.cpp             | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.cpp
index e4e2444..9bb91ce 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/PacketHandler.cpp
@@ -538,6 +538,12 @@ bool Dat::DatReader::ReadFile(Dat::PacketHeader& header)
         return false;
     }
 
+    if (static_cast<std::streamoff>(header.data_size) > static_cast<std::streamoff>(file_size_ - file_.tellg()))
+    {
+        LOG_ERROR("Packet id {} is cut off, ignoring rest of file", header.id);
+        return false;
+    }
+
     return true;
 }
 
@@ -559,9 +565,20 @@ std::string Dat::DatReader::ReadStringPacket(const Dat::PacketGeneric& pkt)
     const char*  ptr = pkt.data.data();
     unsigned int size;
 
+    if (pkt.data.size() < sizeof(size))
+    {
+        return "";
+    }
+
     memcpy(&size, ptr, sizeof(size));
     ptr += sizeof(size);
 
+    if (size > pkt.data.size() - sizeof(size))
+    {
+        LOG_ERROR("String exceeds its packet, id {}", pkt.header.id);
+        return "";
+    }
+
     return std::string(ptr, size);
 }
 
@@ -572,6 +589,12 @@ int Dat::DatReader::ReadStringPacket(std::string& str)
     {
         return -1;
     }
+
+    if (static_cast<std::streamoff>(size) > static_cast<std::streamoff>(file_size_ - file_.tellg()))
+    {
+        return -1;
+    }
+
     str.resize(size);
     if (!file_.read(str.data(), size))
     {
-- 
2.43.0


From 5ed57b0b16ce85678ef16cb2176d3c344c66d8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:42 +0000
Subject: [PATCH 073/105] fix: incomplete recording does not crash the replay

---
 .../Applications/replayer/Replay.cpp          | 70 +++++++++++++++++++
 .../Applications/replayer/Replay.hpp          |  7 +-
 2 files changed, 74 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Applications/replayer/Replay.cpp b/EnvironmentSimulator/Applications/replayer/Replay.cpp
index 8e9698e..e67d56e 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.cpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.cpp
@@ -51,9 +51,12 @@ Replay::Replay(std::string filename, bool quiet) : time_(0.0), quiet_(quiet), in
     if (ret != 0)
     {
         LOG_ERROR("Failed to parse packets from file: {}", filename);
+        RemoveIncompleteObjects();
         return;
     }
 
+    RemoveIncompleteObjects();
+
     if (!eos_received_)
     {
         stopTime_ = timestamps_.back();
@@ -165,9 +168,12 @@ Replay::Replay(const std::string directory, const std::string scenario, std::str
     if (ret != 0)
     {
         LOG_ERROR("Failed to parse packets on merged .dat files");
+        RemoveIncompleteObjects();
         return;
     }
 
+    RemoveIncompleteObjects();
+
     if (!eos_received_)
     {
         stopTime_ = timestamps_.back();
@@ -292,6 +298,12 @@ bool Replay::ExtractPacketsAsSlices(bool dt_in_slice, size_t scenario_idx)
         LOG_DEBUG("Read packet id={}, size={}", header.id, header.data_size);
         auto packet = dat_reader_->CreateGenericPacket(header);
 
+        if (current_slice == nullptr && packet.header.id != static_cast<id_t>(Dat::PacketId::TIMESTAMP))
+        {
+            LOG_WARN("Ignoring packet id={} preceding the first timestamp", header.id);
+            continue;
+        }
+
         double timestamp = prev_timestamp;
         if (packet.header.id == static_cast<id_t>(Dat::PacketId::TIMESTAMP))
         {
@@ -377,6 +389,34 @@ bool Replay::ExtractPacketsAsSlices(bool dt_in_slice, size_t scenario_idx)
     return has_restart;
 }
 
+// true for packets not describing a property of the current object
+static bool IsGlobalPacket(id_t id)
+{
+    switch (static_cast<Dat::PacketId>(id))
+    {
+        case Dat::PacketId::TIMESTAMP:
+        case Dat::PacketId::OBJ_ID:
+        case Dat::PacketId::DT:
+        case Dat::PacketId::END_OF_SCENARIO:
+        case Dat::PacketId::TRAFFIC_LIGHT:
+        case Dat::PacketId::ELEM_STATE_CHANGE:
+        case Dat::PacketId::ENVIRONMENT:
+            return true;
+        default:
+            return false;
+    }
+}
+
+// true if all properties every object needs are present
+static bool IsComplete(const PropertyTimeline& t)
+{
+    return !(t.obj_type_.values.empty() || t.obj_category_.values.empty() || t.ctrl_type_.values.empty() || t.name_.values.empty() ||
+             t.speed_.values.empty() || t.wheel_angle_.values.empty() || t.wheel_rot_.values.empty() || t.bounding_box_.values.empty() ||
+             t.scale_mode_.values.empty() || t.visibility_mask_.values.empty() || t.active_.values.empty() || t.pose_.values.empty() ||
+             t.lane_id_.values.empty() || t.pos_offset_.values.empty() || t.pos_t_.values.empty() || t.pos_s_.values.empty() ||
+             t.odometer_.values.empty());
+}
+
 int Replay::ParsePackets()
 {
     // Now parse packets
@@ -384,6 +424,12 @@ int Replay::ParsePackets()
     {
         for (const auto& gp : generic_packets_[i])
         {
+            if (current_object_timeline_ == nullptr && !IsGlobalPacket(gp.header.id))
+            {
+                LOG_WARN("Ignoring packet id={} not related to any object", gp.header.id);
+                continue;
+            }
+
             switch (gp.header.id)
             {
                 case static_cast<id_t>(Dat::PacketId::TIMESTAMP):
@@ -752,6 +798,13 @@ int Replay::ParsePackets()
                         return -1;
                     }
 
+                    if (current_object_id_ < 0 || light_state.light_type < 0 ||
+                        light_state.light_type >= static_cast<int>(Object::VehicleLightType::VEHICLE_LIGHT_SIZE))
+                    {
+                        LOG_WARN("Ignoring light state of type {} for object {}", light_state.light_type, current_object_id_);
+                        break;
+                    }
+
                     current_object_timeline_->light_state_[light_state.light_type].values.emplace_back(timestamp_, light_state);
 
                     if (static_cast<size_t>(current_object_id_) >= lightstate_entities_.size())
@@ -786,6 +839,23 @@ int Replay::ParsePackets()
     return 0;
 }
 
+void Replay::RemoveIncompleteObjects()
+{
+    // Objects at the end of a cut off recording might lack some properties
+    for (auto it = objects_timeline_.begin(); it != objects_timeline_.end();)
+    {
+        if (!IsComplete(it->second))
+        {
+            LOG_WARN("Ignoring object {}, recording is incomplete", it->first);
+            it = objects_timeline_.erase(it);
+        }
+        else
+        {
+            ++it;
+        }
+    }
+}
+
 void Replay::FlattenSlices(bool add_ghost_restart)
 {
     generic_packets_.emplace_back();
diff --git a/EnvironmentSimulator/Applications/replayer/Replay.hpp b/EnvironmentSimulator/Applications/replayer/Replay.hpp
index 0ff4bc9..8907c16 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.hpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.hpp
@@ -412,6 +412,7 @@ namespace scenarioengine
 
         void           UpdateGhostsTimelineAfterRestart(size_t idx);
         int            ParsePackets();
+        void           RemoveIncompleteObjects();
         std::string    BuildElementStateChange(const std::string& element_state);
         void           FillInTimestamps();
         void           FillEmptyTimestamps(const double start, const double end, const double dt, std::vector<double>& v);
@@ -494,9 +495,9 @@ namespace scenarioengine
         std::unique_ptr<Dat::DatReader>              dat_reader_;
         std::unique_ptr<Dat::DatWriter>              dat_writer_;
         double                                       timestamp_ = 0.0;
-        int                                          current_object_id_;
-        int                                          ghost_controller_id_;
-        scenarioengine::PropertyTimeline*            current_object_timeline_;
+        int                                          current_object_id_       = -1;
+        int                                          ghost_controller_id_     = -1;
+        scenarioengine::PropertyTimeline*            current_object_timeline_ = nullptr;
         std::vector<std::vector<Dat::PacketGeneric>> generic_packets_ = {};
         std::vector<PacketSlice>                     packet_slices_   = {};
         std::vector<std::vector<PacketSlice>>        ghost_restarts_;
-- 
2.43.0


From 77e87e517b27412e8b027e32d01e03e2b8f2cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:02 +0000
Subject: [PATCH 074/105] fix: time steps of a recording are restored also when
 the step size varies

---
 .../Applications/replayer/Replay.cpp          | 62 +++++++++++++++++--
 1 file changed, 58 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Applications/replayer/Replay.cpp b/EnvironmentSimulator/Applications/replayer/Replay.cpp
index e67d56e..f55b580 100644
--- a/EnvironmentSimulator/Applications/replayer/Replay.cpp
+++ b/EnvironmentSimulator/Applications/replayer/Replay.cpp
@@ -386,6 +386,17 @@ bool Replay::ExtractPacketsAsSlices(bool dt_in_slice, size_t scenario_idx)
         prev_timestamp = timestamp;
     }
 
+    // A final timestamp without any content is the remains of a cut off recording, the size of that step is unknown
+    if (!eos_received_ && !packet_slices_.empty() && packet_slices_.back().packets.size() == 1 &&
+        packet_slices_.back().timestamp > SMALL_NUMBER)
+    {
+        if (!timestamps_.empty() && NEAR_NUMBERS(timestamps_.back(), packet_slices_.back().timestamp))
+        {
+            timestamps_.pop_back();
+        }
+        packet_slices_.pop_back();
+    }
+
     return has_restart;
 }
 
@@ -946,16 +957,59 @@ Dat::DatHeader Replay::ParseDatHeader(const std::string& filename)
 
 void Replay::FillInTimestamps()
 {
+    if (timestamps_.empty() || dts_.values.empty())
+    {
+        return;
+    }
+
     double              curr_time = timestamps_.front();
     std::vector<double> filled    = {curr_time};
 
-    // Fixed timestep entire scenario
-    if (dts_.values.size() == 1)
+    bool in_order = std::is_sorted(dts_.values.begin(), dts_.values.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
+
+    // Timestamps are registered only when something changes, e.g. the timestep. Fill the gaps.
+    if (in_order)
     {
         double current_dt = dts_.values.front().second;
-        FillEmptyTimestamps(curr_time, timestamps_.back(), current_dt, filled);
+        size_t j          = 0;
+        for (size_t i = 1; i < timestamps_.size(); i++)
+        {
+            const double next_timestamp = timestamps_[i];
+            double       gap_end        = next_timestamp;
+
+            // dt is registered at the end of the first step it applies to, any preceding steps had the previous dt
+            for (; j < dts_.values.size() && dts_.values[j].first < next_timestamp + SMALL_NUMBER; j++)
+            {
+                if (dts_.values[j].first > curr_time + SMALL_NUMBER)
+                {
+                    gap_end = next_timestamp - dts_.values[j].second;
+                    break;
+                }
+                current_dt = dts_.values[j].second;
+            }
+
+            if (gap_end > curr_time + SMALL_NUMBER)
+            {
+                FillEmptyTimestamps(curr_time, gap_end, current_dt, filled);
+            }
+
+            if (gap_end < next_timestamp)
+            {
+                current_dt = dts_.values[j++].second;
+                filled.emplace_back(next_timestamp);
+            }
+            else if (filled.back() > next_timestamp - 0.5 * current_dt)
+            {
+                filled.back() = next_timestamp;
+            }
+            else
+            {
+                filled.emplace_back(next_timestamp);
+            }
+            curr_time = next_timestamp;
+        }
     }
-    // Mixed timesteps in the scenario
+    // Mixed timesteps in the scenario, including restarts
     else
     {
         size_t i = 0;
-- 
2.43.0


From 54797c60d71ab20a3bc618368a2f127c0d998474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:23 +0000
Subject: [PATCH 075/105] fix: controller assigned to an object deleted before
 is linked or not activated

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp  | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index b9b2893..b7dfa1e 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -744,7 +744,17 @@ void AssignControllerAction::Start(double simTime)
             object_->AssignController(controller_);
         }
 
-        if (controller_)
+        if (controller_->GetLinkedObject() == nullptr && object_ != nullptr && object_->IsActive())
+        {
+            // object was deleted and added again, restore the link
+            controller_->LinkObject(object_);
+        }
+
+        if (controller_->GetLinkedObject() == nullptr)
+        {
+            LOG_WARN("Controller {} not linked to any active object, not activated", controller_->GetName());
+        }
+        else
         {
             if (!controller_->Active())
             {
-- 
2.43.0


From 86bbe49a4f3ed0877f1d2686f2a3df32fd3526b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:23 +0000
Subject: [PATCH 076/105] fix: lateral distance action at standstill keeps
 position finite and heading

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp    | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index b7dfa1e..5607d73 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -2331,7 +2331,8 @@ void LatDistanceAction::Step(double simTime, double dt)
                     acceleration_ = CLAMP(acceleration_ + delta_accel, -dynamics_.max_acceleration_, dynamics_.max_acceleration_);
 
                     // Subtract small number to maintain some longitudinal velocity, avoid driving in wrong direction if lat speed is capped
-                    lat_vel_ = ABS_LIMIT(lat_vel_ + acceleration_ * dt, (std::min(dynamics_.max_speed_, object_->GetSpeed()) - SMALL_NUMBER));
+                    lat_vel_ =
+                        ABS_LIMIT(lat_vel_ + acceleration_ * dt, MAX(0.0, std::min(dynamics_.max_speed_, object_->GetSpeed()) - SMALL_NUMBER));
 
                     if (!continuous_ && std::abs(distance_error) < LATERAL_DISTANCE_THRESHOLD)
                     {
@@ -2343,7 +2344,7 @@ void LatDistanceAction::Step(double simTime, double dt)
                 else
                 {
                     // Subtract small number to maintain some longitudinal velocity, avoid driving in wrong direction if lat speed is capped
-                    lat_vel_ = SIGN(distance_error) * (std::min(dynamics_.max_speed_, object_->GetSpeed()) - SMALL_NUMBER);
+                    lat_vel_ = SIGN(distance_error) * MAX(0.0, std::min(dynamics_.max_speed_, object_->GetSpeed()) - SMALL_NUMBER);
 
                     double d_offset  = lat_vel_ * dt;
                     double new_error = distance_error - d_offset;
@@ -2367,7 +2368,10 @@ void LatDistanceAction::Step(double simTime, double dt)
                                          object_->pos_.GetS(),
                                          object_->pos_.GetOffset() + lat_vel_ * dt);
 
-                object_->pos_.SetHeading(atan2(object_->pos_.GetY() - old_y_, object_->pos_.GetX() - old_x_));
+                if (GetLengthOfVector2D(object_->pos_.GetX() - old_x_, object_->pos_.GetY() - old_y_) > SMALL_NUMBER)
+                {
+                    object_->pos_.SetHeading(atan2(object_->pos_.GetY() - old_y_, object_->pos_.GetX() - old_x_));
+                }
 
                 object_->SetSpeed(object_->GetSpeed());
                 object_->dirty_.SetBits(Object::DirtyBit::LONGITUDINAL | Object::DirtyBit::LATERAL | Object::DirtyBit::SPEED);
-- 
2.43.0


From 6393b80c49057b49692155914e37fadadea08719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:30 +0000
Subject: [PATCH 077/105] fix: collision check considers bounding box center
 offset

---
 .../Modules/ScenarioEngine/SourceFiles/Entities.cpp           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
index 52a11ec..b4d3c44 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Entities.cpp
@@ -425,7 +425,9 @@ bool Object::CollisionAndRelativeDistLatLong(Object* target, double* distLat, do
     double dist           = fabs(this->pos_.getRelativeDistance(target->pos_.GetX(), target->pos_.GetY(), x, y));
     double max_length     = this->boundingbox_.dimensions_.length_ + target->boundingbox_.dimensions_.length_;
     double max_width      = this->boundingbox_.dimensions_.width_ + target->boundingbox_.dimensions_.width_;
-    double dist_threshold = sqrt(max_length * max_length + max_width * max_width);
+    double max_offset     = GetLengthOfVector2D(this->boundingbox_.center_.x_, this->boundingbox_.center_.y_) +
+                        GetLengthOfVector2D(target->boundingbox_.center_.x_, target->boundingbox_.center_.y_);
+    double dist_threshold = sqrt(max_length * max_length + max_width * max_width) + max_offset;
 
     if (dist > dist_threshold && distLong == nullptr && distLat == nullptr)
     {
-- 
2.43.0


From 0ac41b656ed7d9e3f64f670a5cfdecf05a02e63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:27 +0000
Subject: [PATCH 078/105] fix: evaluate numbers in scientific notation in
 expressions

---
 externals/expr/expr.h | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/externals/expr/expr.h b/externals/expr/expr.h
index 50281fa..d1f18d5 100644
--- a/externals/expr/expr.h
+++ b/externals/expr/expr.h
@@ -251,6 +251,7 @@ static enum expr_type expr_op(const char *s, size_t len, int unary) {
 
 static double expr_parse_number(const char *s, size_t len) {
   double num = 0;
+  int exponent = 0;
   unsigned int frac = 0;
   unsigned int digits = 0;
   for (unsigned int i = 0; i < len; i++) {
@@ -264,10 +265,33 @@ static double expr_parse_number(const char *s, size_t len) {
         frac++;
       }
       num = num * 10 + (s[i] - '0');
+    } else if ((s[i] == 'e' || s[i] == 'E') && digits > 0 && i + 1 < len) {
+      unsigned int j = i + 1;
+      int negative = s[j] == '-';
+      if ((s[j] == '+' || s[j] == '-') && j + 1 < len) {
+        j++;
+      }
+      for (; j < len; j++) {
+        if (!isdigit(s[j])) {
+          return NAN;
+        }
+        if (exponent < 1000) {
+          exponent = exponent * 10 + (s[j] - '0');
+        }
+      }
+      if (negative) {
+        exponent = -exponent;
+      }
+      break;
     } else {
       return NAN;
     }
   }
+  if (exponent != 0) {
+    exponent -= frac > 1 ? (int)frac - 1 : 0;
+    num = exponent < 0 ? num / pow(10.0, -exponent) : num * pow(10.0, exponent);
+    frac = 0;
+  }
   while (frac > 1) {
     num = num / 10;
     frac--;
@@ -503,6 +527,18 @@ static int expr_next_token(const char *s, size_t len, int *flags) {
       i++;
       c = s[i];
     }
+    if (i < len && (c == 'e' || c == 'E')) {
+      unsigned int j = i + 1;
+      if (j < len && (s[j] == '+' || s[j] == '-')) {
+        j++;
+      }
+      if (j < len && isdigit(s[j])) { // exponent
+        while (j < len && isdigit(s[j])) {
+          j++;
+        }
+        i = j;
+      }
+    }
     return i;
   } else if (isfirstvarchr(c)) {
     if ((*flags & EXPR_TWORD) == 0) {
-- 
2.43.0


From 5fd29c799428c2c768a05fbc131e7aaf8a7be326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:51 +0000
Subject: [PATCH 079/105] fix: resolve logical operators and truth values in
 expressions by complete words

---
 .../ScenarioEngine/SourceFiles/Parameters.cpp | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index 6b487e9..f4b68b6 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -397,12 +397,21 @@ std::string Parameters::ResolveParametersInString(std::string str)
     return str;
 }
 
-static void ReplaceStringInPlace(std::string& subject, const std::string& search, const std::string& replace)
+// Replace all occurrences of a complete word, i.e. not being part of a longer word
+static void ReplaceWordInPlace(std::string& subject, const std::string& word, const std::string& replace)
 {
+    auto is_word_char = [](char c) { return isalnum(static_cast<unsigned char>(c)) || c == '_'; };
+
     size_t pos = 0;
-    while ((pos = subject.find(search, pos)) != std::string::npos)
+    while ((pos = subject.find(word, pos)) != std::string::npos)
     {
-        subject.replace(pos, search.length(), replace);
+        size_t end = pos + word.length();
+        if ((pos > 0 && is_word_char(subject[pos - 1])) || (end < subject.length() && is_word_char(subject[end])))
+        {
+            pos = end;
+            continue;
+        }
+        subject.replace(pos, word.length(), replace);
         pos += replace.length();
     }
 }
@@ -439,12 +448,18 @@ std::string Parameters::ReadAttribute(pugi::xml_node node, std::string attribute
                     expr = ResolveParametersInString(expr);  // replace parameters by their values
 
                     // Convert from OpenSCENARIO 1.1 operator names to expr op names
-                    ReplaceStringInPlace(expr, "not ", "!");
-                    ReplaceStringInPlace(expr, "not(", "!(");
-                    ReplaceStringInPlace(expr, "and ", "&& ");
-                    ReplaceStringInPlace(expr, "or ", "|| ");
-                    ReplaceStringInPlace(expr, "true ", "1 ");
-                    ReplaceStringInPlace(expr, "false ", "0 ");
+                    if (expr != "true" && expr != "false")  // keep plain truth value as is
+                    {
+                        ReplaceWordInPlace(expr, "not", "!");
+                        for (size_t pos = 0; (pos = expr.find("! ", pos)) != std::string::npos;)
+                        {
+                            expr.erase(pos + 1, 1);  // operand is expected to follow directly on the operator
+                        }
+                        ReplaceWordInPlace(expr, "and", "&&");
+                        ReplaceWordInPlace(expr, "or", "||");
+                        ReplaceWordInPlace(expr, "true", "1");
+                        ReplaceWordInPlace(expr, "false", "0");
+                    }
 
                     ExprReturnStruct rs = eval_expr(expr.c_str());
                     if (rs.type == EXPR_RETURN_UNDEFINED && isnan(rs._double))
-- 
2.43.0


From f7a71f970fdce4af637a9c7c89ad8ff66ea1c82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:51 +0000
Subject: [PATCH 080/105] fix: boolean parameter given by an expression gets
 the truth value of its result

---
 .../ScenarioEngine/SourceFiles/Parameters.cpp       | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index f4b68b6..8757768 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -564,7 +564,18 @@ void Parameters::parseParameterDeclarations(pugi::xml_node declarationsNode, OSC
                 LOG_WARN("INFO: bool type should renamed into boolean - accepting bool this time.");
             }
 
-            param.type        = OSCParameterDeclarations::ParameterType::PARAM_TYPE_BOOL;
+            param.type = OSCParameterDeclarations::ParameterType::PARAM_TYPE_BOOL;
+
+            if (!strncmp(pdChild.attribute("value").value(), "${", 2))
+            {
+                // expressions evaluate to a number
+                char*  end   = nullptr;
+                double value = std::strtod(param.value._string.c_str(), &end);
+                if (end != param.value._string.c_str())
+                {
+                    param.value._string = value != 0.0 ? "true" : "false";
+                }
+            }
             param.value._bool = param.value._string == "true" ? true : false;
         }
         else if (type_str == "string")
-- 
2.43.0


From bdfac791f6197e5e3156aab523986a79ba493f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:20 +0000
Subject: [PATCH 081/105] fix: parameter declarations of stories, maneuvers,
 catalog entries and environments are limited to their scope

---
 .../Modules/ScenarioEngine/SourceFiles/Parameters.cpp     | 3 +--
 .../Modules/ScenarioEngine/SourceFiles/Parameters.hpp     | 2 +-
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp | 8 ++++++++
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index 8757768..ba2ebdf 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -19,7 +19,6 @@ using namespace scenarioengine;
 
 void Parameters::addParameterDeclarations(pugi::xml_node xml_node)
 {
-    paramDeclarationsSize_.push(static_cast<int>(parameterDeclarations_.Parameter.size()));
     parseParameterDeclarations(xml_node, &parameterDeclarations_);
 }
 
@@ -594,7 +593,7 @@ void Parameters::parseParameterDeclarations(pugi::xml_node declarationsNode, OSC
         auto pos = std::find_if(pd->Parameter.begin(), pd->Parameter.end(), [&param](const auto& p) { return p.name == param.name; });
         if (pos != pd->Parameter.end())
         {
-            if (pos->dirty)
+            if (pos->dirty && paramDeclarationsSize_.empty())  // global declaration, keep the modified value
             {
                 LOG_WARN("Parameter value {} updated from {} to {}", pos->name, param.value._string, pos->value._string);
                 continue;
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.hpp
index 8b6ccb1..8c19280 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.hpp
@@ -41,7 +41,7 @@ namespace scenarioengine
         int                                        setParameter(std::string name, std::string value);
         void                                       addParameterDeclarations(pugi::xml_node xml_node);
         void                                       CreateRestorePoint();
-        void                                       RestoreParameterDeclarations();  // To what it was before addParameterDeclarations
+        void                                       RestoreParameterDeclarations();  // To what it was at last CreateRestorePoint
 
         int         GetNumberOfParameters();
         const char* GetParameterName(int index, OSCParameterDeclarations::ParameterType* type);
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index cf2667f..e8a853b 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -5220,6 +5220,8 @@ void ScenarioReader::parseOSCManeuver(Maneuver *maneuver, pugi::xml_node maneuve
 {
     maneuver->SetName(parameters.ReadAttribute(maneuverNode, "name"));
 
+    parameters.CreateRestorePoint();
+
     for (pugi::xml_node maneuverChild = maneuverNode.first_child(); maneuverChild; maneuverChild = maneuverChild.next_sibling())
     {
         std::string maneuverChildName(maneuverChild.name());
@@ -5365,6 +5367,8 @@ void ScenarioReader::parseOSCManeuver(Maneuver *maneuver, pugi::xml_node maneuve
             maneuver->event_.push_back(event);
         }
     }
+
+    parameters.RestoreParameterDeclarations();
 }
 
 int ScenarioReader::parseStoryBoard(StoryBoard &storyBoard)
@@ -5564,6 +5568,8 @@ static void SelectCloudState(scenarioengine::CloudState &state, const std::strin
 
 void ScenarioReader::parseOSCEnvironment(const pugi::xml_node &xml_node, OSCEnvironment &env)
 {
+    parameters.CreateRestorePoint();
+
     for (pugi::xml_node envChild : xml_node.children())
     {
         std::string envChildName(envChild.name());
@@ -5761,4 +5767,6 @@ void ScenarioReader::parseOSCEnvironment(const pugi::xml_node &xml_node, OSCEnvi
             LOG_WARN("Not valid environment attribute name:{}", envChildName);
         }
     }
+
+    parameters.RestoreParameterDeclarations();
 }
-- 
2.43.0


From 3afa186664d6a2e78f27ab33e595b1d0c408a9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:32 +0000
Subject: [PATCH 082/105] fix: road path search tolerates links to missing
 roads

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 4bb4fc5..7b1519f 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -6248,7 +6248,11 @@ int RoadPath::Calculate(double& dist, bool bothDirections, double maxDist)
             // only one edge (road)
             nextRoad = odr->GetRoadById(link->GetElementId());
 
-            if (nextRoad == targetRoad)
+            if (nextRoad == nullptr)
+            {
+                LOG_ERROR("Failed to lookup road with id {}", link->GetElementId());
+            }
+            else if (nextRoad == targetRoad)
             {
                 // Special case: On same road, distance is equal to delta s, direction considered
                 double targetDist = tmpDist;
-- 
2.43.0


From f26a8e01154105179d69ca7f3f517af146d33c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:32 +0000
Subject: [PATCH 083/105] fix: refuse speed action without target

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index e8a853b..780bfc2 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -2812,6 +2812,10 @@ OSCPrivateAction *ScenarioReader::parseOSCPrivateAction(pugi::xml_node actionNod
                             }
                         }
                     }
+                    if (action_speed->target_ == nullptr)
+                    {
+                        LOG_ERROR_AND_QUIT("SpeedAction target missing or not supported");
+                    }
                     action = action_speed;
                 }
                 else if (longitudinalChild.name() == std::string("SpeedProfileAction"))  // v1.2
-- 
2.43.0


From ca765ae226b358dbb93eb2cebd3c69ea774cd3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:50 +0000
Subject: [PATCH 084/105] fix: refuse by-entity condition without entity
 condition, default triggering entities rule

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.hpp       | 2 +-
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp     | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.hpp
index 6c97710..a9baa18 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCCondition.hpp
@@ -194,7 +194,7 @@ namespace scenarioengine
             ANGLE
         } EntityConditionType;
 
-        TriggeringEntitiesRule triggering_entity_rule_;
+        TriggeringEntitiesRule triggering_entity_rule_ = TriggeringEntitiesRule::ANY;
         TriggeringEntities     triggering_entities_;
         EntityConditionType    type_;
         std::vector<Object*>   triggered_by_entities_;
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index 780bfc2..56cbc41 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -5059,6 +5059,10 @@ OSCCondition *ScenarioReader::parseOSCCondition(pugi::xml_node conditionNode)
             pugi::xml_node triggering_entities = conditionChild.child("TriggeringEntities");
             if (triggering_entities != NULL)
             {
+                if (condition == nullptr || condition->base_type_ != OSCCondition::ConditionType::BY_ENTITY)
+                {
+                    throw std::runtime_error("Missing EntityCondition");
+                }
                 TrigByEntity *trigger = static_cast<TrigByEntity *>(condition);
 
                 std::string trig_ent_rule = parameters.ReadAttribute(triggering_entities, "triggeringEntitiesRule");
-- 
2.43.0


From 909e6077f6908ac49e66f3ff778991cacb21e5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:50 +0000
Subject: [PATCH 085/105] fix: refuse swarm traffic action without central
 object

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index 56cbc41..a6ce875 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -2438,7 +2438,13 @@ OSCGlobalAction *ScenarioReader::parseOSCGlobalAction(pugi::xml_node actionNode,
                     LOG_WARN("Warning: Missing swarm CentralObject!");
                 }
 
-                trafficSwarmAction->SetCentralObject(entities_->GetObjectByName(parameters.ReadAttribute(childNode, "entityRef")));
+                Object *central_object = entities_->GetObjectByName(parameters.ReadAttribute(childNode, "entityRef"));
+                if (central_object == nullptr)
+                {
+                    delete trafficSwarmAction;
+                    throw std::runtime_error("Failed to find swarm central object");
+                }
+                trafficSwarmAction->SetCentralObject(central_object);
                 // childNode = trafficChild.child("")
 
                 std::string radius, numberOfVehicles, velocity;
-- 
2.43.0


From 8f0eda4441abf664d87cbf39e517d29484fe2e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:50 +0000
Subject: [PATCH 086/105] fix: actors by condition, not supported, are not
 registered without object

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index a6ce875..7ddd6a2 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -5455,9 +5455,11 @@ int ScenarioReader::parseStoryBoard(StoryBoard &storyBoard)
                                                                      parameters.ReadAttribute(actorsChild, "entityRef"));
                                         }
                                     }
-                                    else if (actorsChildName == "ByCondition")
+                                    else
                                     {
-                                        LOG_WARN("Actor by condition - not implemented");
+                                        LOG_WARN("Actor by {} - not implemented", actorsChildName);
+                                        delete actor;
+                                        continue;
                                     }
                                     mGroup->actor_.push_back(actor);
                                 }
-- 
2.43.0


From b525a810c75d89a8e1fd38de97c9a2537c5f4c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:50 +0000
Subject: [PATCH 087/105] fix: log messages with braces are not taken as format

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp        | 4 ++--
 EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp        | 2 +-
 .../Modules/ScenarioEngine/SourceFiles/Parameters.cpp         | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 182d69c..2385332 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -446,7 +446,7 @@ static int InitScenario()
     }
     catch (const std::exception &e)
     {
-        LOG_ERROR(e.what());
+        LOG_ERROR("{}", e.what());
         resetScenario();
         return -1;
     }
@@ -1931,7 +1931,7 @@ extern "C"
 
     SE_DLL_API void SE_LogMessage(const char *message)
     {
-        LOG_INFO(message);
+        LOG_INFO("{}", message);
     }
 
     SE_DLL_API void SE_CloseLogFile()
diff --git a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
index 5d39ffa..aeb9bbe 100644
--- a/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
+++ b/EnvironmentSimulator/Modules/PlayerBase/playerbase.cpp
@@ -1878,7 +1878,7 @@ int ScenarioPlayer::Init()
     }
     catch (std::exception& e)
     {
-        LOG_ERROR(std::string("Exception: ").append(e.what()));
+        LOG_ERROR("Exception: {}", e.what());
         return -1;
     }
 
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
index ba2ebdf..dfc2e51 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/Parameters.cpp
@@ -480,7 +480,7 @@ std::string Parameters::ReadAttribute(pugi::xml_node node, std::string attribute
                 }
                 else
                 {
-                    LOG_ERROR_AND_QUIT("Expression syntax error: {}, missing end '}'", attr.value());
+                    LOG_ERROR_AND_QUIT("Expression syntax error: {}, missing end '}}'", attr.value());
                 }
             }
             else
-- 
2.43.0


From d3f15348e3ff3fac400d0a3ff1938915ef62fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:07 +0000
Subject: [PATCH 088/105] fix: damaged parameter distributions are refused
 instead of looping forever or terminating the process

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 10 +++++++++-
 .../OSCTypeDefs/OSCParameterDistribution.cpp           |  5 +++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 2385332..7ddf569 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -562,7 +562,15 @@ extern "C"
 
     SE_DLL_API int SE_SetParameterDistribution(const char *filename)
     {
-        return OSCParameterDistribution::Inst().Load(filename);
+        try
+        {
+            return OSCParameterDistribution::Inst().Load(filename);
+        }
+        catch (const std::exception &e)
+        {
+            LOG_ERROR("{}", e.what());
+            return -1;
+        }
     }
 
     SE_DLL_API void SE_ResetParameterDistribution()
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp
index ee87ee5..b44a296 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCParameterDistribution.cpp
@@ -221,6 +221,11 @@ int OSCParameterDistribution::Load(std::string filename)
                         LOG_ERROR("Distribution range invalid range {:.2f}..{:.2f}", lower_limit, upper_limit);
                         return -1;
                     }
+                    if (!(step_width > SMALL_NUMBER))
+                    {
+                        LOG_ERROR("Distribution range invalid step width {}", step_width);
+                        return -1;
+                    }
                     for (double v = lower_limit; v < upper_limit + SMALL_NUMBER; v += step_width)
                     {
                         entry.value                                   = std::to_string(v);
-- 
2.43.0


From a5751757ce2b53c7d35d1faa8496a287de92656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:55 +0000
Subject: [PATCH 089/105] fix: lane section without center lane gets one
 instead of causing null pointer accesses

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 7b1519f..46e067a 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -4720,6 +4720,12 @@ bool OpenDrive::ParseOpenDriveXML(const pugi::xml_document& doc)
                         }
                     }
 
+                    if (lane_section->GetLaneById(0) == nullptr)
+                    {
+                        LOG_ERROR("Center lane missing in lane section at s={:.2f} of road {}, adding it", s, r->GetId());
+                        lane_section->AddLane(new Lane(0, Lane::LANE_TYPE_NONE));
+                    }
+
                     if (lane_section->GetNumberOfLanes() > 0)
                     {
                         if (last_road_lane_right_id < 0)
-- 
2.43.0


From 7e096abc1ddad88f0a54b5fd3cfda111103670e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 090/105] fix: referenced trailer without coupler is not
 deleted twice

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index 7ddd6a2..0f61ca7 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -852,7 +852,10 @@ Vehicle *ScenarioReader::parseOSCVehicle(pugi::xml_node vehicleNode)
                 {
                     if (trailer->trailer_coupler_ == nullptr)
                     {
-                        delete trailer;
+                        if (object == nullptr)
+                        {
+                            delete trailer;  // created here, i.e. not a reference to an already registered entity
+                        }
                         LOG_ERROR_AND_QUIT("Error: Trailer vehicle {} has no coupler", vehicle->GetName());
                     }
                     else
-- 
2.43.0


From a8482ce25fbde110a2adce701876a9b5fda341ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 091/105] fix: refuse follow trajectory action without
 trajectory

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index 0f61ca7..2de6a00 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -3527,6 +3527,11 @@ OSCPrivateAction *ScenarioReader::parseOSCPrivateAction(pugi::xml_node actionNod
                         }
                     }
 
+                    if (action_follow_trajectory->traj_ == nullptr || action_follow_trajectory->traj_->shape_ == nullptr)
+                    {
+                        throw std::runtime_error("FollowTrajectoryAction: Trajectory missing or empty");
+                    }
+
                     // Check that trajectory has time duration
                     if (action_follow_trajectory->timing_domain_ != FollowTrajectoryAction::TimingDomain::NONE &&
                         action_follow_trajectory->traj_->GetDuration() < SMALL_NUMBER)
-- 
2.43.0


From 8c895f9629c32d384691cc097d459fa5e663d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:03 +0000
Subject: [PATCH 092/105] fix: RM_Init and RM_InitWithString return an error
 for refused road networks

---
 .../Libraries/esminiRMLib/esminiRMLib.cpp     | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
index 3599501..50a032e 100644
--- a/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp
@@ -118,9 +118,17 @@ extern "C"
         // Harmonize parsing and printing of floating point numbers. I.e. 1.57e+4 == 15700.0 not 15,700.0 or 1 or 1.57
         std::setlocale(LC_ALL, "C.UTF-8");
 
-        if (!roadmanager::Position::LoadOpenDrive(odrFilename))
+        try
         {
-            LOG_ERROR("Failed to load ODR {}", odrFilename);
+            if (!roadmanager::Position::LoadOpenDrive(odrFilename))
+            {
+                LOG_ERROR("Failed to load ODR {}", odrFilename);
+                return -1;
+            }
+        }
+        catch (const std::exception& e)
+        {
+            LOG_ERROR("Failed to load ODR {}: {}", odrFilename, e.what());
             return -1;
         }
         odrManager = roadmanager::Position::GetOpenDrive();
@@ -135,9 +143,17 @@ extern "C"
             RM_Close();
         }
 
-        if (!roadmanager::Position::LoadOpenDriveFromXMLString(odrAsXMLString))
+        try
+        {
+            if (!roadmanager::Position::LoadOpenDriveFromXMLString(odrAsXMLString))
+            {
+                LOG_ERROR("Failed to load ODR {}", odrAsXMLString);
+                return -1;
+            }
+        }
+        catch (const std::exception& e)
         {
-            LOG_ERROR("Failed to load ODR {}", odrAsXMLString);
+            LOG_ERROR("Failed to load ODR from XML string: {}", e.what());
             return -1;
         }
         odrManager = roadmanager::Position::GetOpenDrive();
-- 
2.43.0


From a03256714aac2329a732bc5fcdaef1932214503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:22 +0000
Subject: [PATCH 093/105] fix: trajectory shape is initialised

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp
index 55cce73..1dad920 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.hpp
@@ -5681,7 +5681,7 @@ namespace roadmanager
     class RMTrajectory
     {
     public:
-        RMTrajectory() : closed_(false)
+        RMTrajectory() : shape_(nullptr), closed_(false)
         {
         }
 
-- 
2.43.0


From 06900cc6bcefdc27e00affb6169467ed1ad53b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:22 +0000
Subject: [PATCH 094/105] fix: refuse roads with lane sections at negative,
 undefined or decreasing s

---
 .../Modules/RoadManager/RoadManager.cpp                | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 46e067a..f68ee9e 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -4088,6 +4088,16 @@ bool OpenDrive::ParseOpenDriveXML(const pugi::xml_document& doc)
                                  r->GetLength());
                         s = r->GetLength();
                     }
+                    double s_previous =
+                        r->GetNumberOfLaneSections() > 0 ? r->GetLaneSectionByIdx(r->GetNumberOfLaneSections() - 1)->GetS() : 0.0;
+                    if (!(s >= s_previous))
+                    {
+                        LOG_ERROR_AND_QUIT("Lane section {} of road {} starts at s={:.2f}, expected at least {:.2f}",
+                                           r->GetNumberOfLaneSections(),
+                                           r->GetIdStr(),
+                                           s,
+                                           s_previous);
+                    }
                     LaneSection* lane_section = new LaneSection(s);
                     r->AddLaneSection(lane_section);
 
-- 
2.43.0


From 3afdfd96f6fa1d9af5e6da6c711e185dbd60dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:32 +0000
Subject: [PATCH 095/105] fix: negative and huge road ids in positions are
 refused without undefined conversion

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index 2de6a00..68b7c11 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -1839,7 +1839,8 @@ static id_t ResolveRoadIdFromStr(std::string road_id_str)
 
     if (!std::isnan(road_id_as_double))
     {
-        if (NEAR_NUMBERS(road_id_as_double, static_cast<id_t>(road_id_as_double)))
+        if (road_id_as_double > -1.0 && road_id_as_double < static_cast<double>(ID_UNDEFINED) &&
+            NEAR_NUMBERS(road_id_as_double, static_cast<id_t>(road_id_as_double)))
         {
             // road id is identified as an integer
             road_id = static_cast<id_t>(road_id_as_double);
-- 
2.43.0


From 111087942ba0de105c54aca00ea3d5f115e1da6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:53 +0000
Subject: [PATCH 096/105] fix: no endless search of road mark points in lane
 sections without length

---
 EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index f68ee9e..68d6810 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -8259,6 +8259,11 @@ void OpenDrive::SetRoadMarkOSIPoints()
                 lsec_end = road->GetLaneSectionByIdx(j + 1)->GetS();
             }
 
+            if (lsec_end - lsec->GetS() < SMALL_NUMBER)
+            {
+                continue;  // no room for road marks
+            }
+
             // Looping through each lane
             number_of_lanes = lsec->GetNumberOfLanes();
             for (unsigned int k = 0; k < number_of_lanes; k++)
-- 
2.43.0


From 63f73d08d1bc947ea8d539479ab93c82ea85a396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:48 +0000
Subject: [PATCH 097/105] fix: object callbacks registered for one scenario
 were called in the following ones

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 7ddf569..6cc1d85 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -82,6 +82,7 @@ static void resetScenario(void)
     // Reset (global) callbacks
     OSCCondition::conditionCallback        = nullptr;
     StoryBoardElement::stateChangeCallback = nullptr;
+    objCallback.clear();
 
     time_stamp = 0;
 }
-- 
2.43.0


From 43fac9e1fb477545662aae656665de745472aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:48 +0000
Subject: [PATCH 098/105] fix: several callbacks for the same object were each
 called several times, with each other's user data

---
 .../Libraries/esminiLib/esminiLib.cpp           | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 6cc1d85..273376b 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2450,13 +2450,14 @@ extern "C"
 
     void objCallbackFn(scenarioengine::Object *obj, void *my_data)
     {
+        (void)my_data;
         for (size_t i = 0; i < objCallback.size(); i++)
         {
             if (objCallback[i].id == obj->GetId())
             {
                 SE_ScenarioObjectState se_state;
                 copyStateFromScenarioObject(&se_state, *obj);
-                objCallback[i].func(&se_state, my_data);
+                objCallback[i].func(&se_state, objCallback[i].data);
             }
         }
     }
@@ -2466,9 +2467,19 @@ extern "C"
         SE_ObjCallback cb;
         cb.id   = object_id;
         cb.func = fnPtr;
-        cb.data = nullptr;
+        cb.data = user_data;
+
+        // one registration in the player per object, it serves all callbacks of that object
+        bool registered = false;
+        for (const SE_ObjCallback &other : objCallback)
+        {
+            registered |= other.id == object_id;
+        }
         objCallback.push_back(cb);
-        player->RegisterObjCallback(object_id, objCallbackFn, user_data);
+        if (!registered)
+        {
+            player->RegisterObjCallback(object_id, objCallbackFn, nullptr);
+        }
     }
 
     SE_DLL_API void SE_RegisterConditionCallback(void (*fnPtr)(const char *name, double timestamp))
-- 
2.43.0


From 73fb0f7f13928ed2214d0a85279a6a0b29e209a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:38 +0000
Subject: [PATCH 099/105] fix: registering an object callback without a
 scenario crashed

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 273376b..78c5d6f 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -2464,6 +2464,11 @@ extern "C"
 
     SE_DLL_API void SE_RegisterObjectCallback(int object_id, void (*fnPtr)(SE_ScenarioObjectState *, void *), void *user_data)
     {
+        if (player == nullptr)
+        {
+            return;
+        }
+
         SE_ObjCallback cb;
         cb.id   = object_id;
         cb.func = fnPtr;
-- 
2.43.0


From da8397688da6783076197c01debb4a6cd2ab8b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:40 +0000
Subject: [PATCH 100/105] fix: querying a route point outside driving lanes
 crashed

---
 EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
index 78c5d6f..8fa79e0 100644
--- a/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
+++ b/EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp
@@ -3139,6 +3139,8 @@ extern "C"
         }
 
         roadmanager::Road *road = player->odr_manager->GetRoadById(route->all_waypoints_[route_index].GetTrackId());
+        roadmanager::Lane *lane =
+            road ? road->GetDrivingLaneById(route->all_waypoints_[route_index].GetS(), route->all_waypoints_[route_index].GetLaneId()) : nullptr;
 
         routeinfo->x          = route->all_waypoints_[route_index].GetX();
         routeinfo->y          = route->all_waypoints_[route_index].GetY();
@@ -3147,8 +3149,7 @@ extern "C"
         routeinfo->roadId     = route->all_waypoints_[route_index].GetTrackId();
         routeinfo->junctionId = route->all_waypoints_[route_index].GetJunctionId();
         routeinfo->laneId     = route->all_waypoints_[route_index].GetLaneId();
-        routeinfo->osiLaneId  = static_cast<int>(
-            road->GetDrivingLaneById(route->all_waypoints_[route_index].GetS(), route->all_waypoints_[route_index].GetLaneId())->GetGlobalId());
+        routeinfo->osiLaneId  = lane ? static_cast<int>(lane->GetGlobalId()) : -1;
         routeinfo->laneOffset = route->all_waypoints_[route_index].GetOffset();
         routeinfo->s          = route->all_waypoints_[route_index].GetS();
         routeinfo->t          = route->all_waypoints_[route_index].GetT();
-- 
2.43.0


From bf8de726978c0ad742c38b78948ada706370242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:47 +0000
Subject: [PATCH 101/105] fix: lateral coordinate of route positions was
 truncated to an integer

---
 .../Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
index 68b7c11..1390ab0 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/SourceFiles/ScenarioReader.cpp
@@ -2181,7 +2181,7 @@ OSCPosition *ScenarioReader::parseOSCPosition(pugi::xml_node positionNode, OSCPo
                     else if (rPositionChildName == "FromRoadCoordinates")
                     {
                         double s = strtod(parameters.ReadAttribute(rPositionChild, "pathS"));
-                        int    t = strtoi(parameters.ReadAttribute(rPositionChild, "t"));
+                        double t = strtod(parameters.ReadAttribute(rPositionChild, "t"));
 
                         if (orientation)
                         {
-- 
2.43.0


From e15b0ef823eedfd57e535550633955b8d44e09ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:08 +0000
Subject: [PATCH 102/105] fix: intermediate waypoints of routes got the
 distance of the shortest connection in any direction, and a lane of the other
 end of the road

---
 .../Modules/RoadManager/RoadManager.cpp       | 32 +++++++------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
index 68d6810..ab7c1c1 100644
--- a/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
+++ b/EnvironmentSimulator/Modules/RoadManager/RoadManager.cpp
@@ -14736,30 +14736,22 @@ int Route::AddWaypoint(Position& position)
             if (nodes.size() > 1)
             {
                 // Add internal waypoints, one for each road along the path
-                double length_mid_acc_ = length_;
                 for (unsigned int i = static_cast<unsigned int>(nodes.size() - 1); i >= 1; i--)
                 {
                     // Find out lane ID of the connecting road and add the waypoint at 1/3 of the road length
-                    Position connected_pos;
-                    connected_pos.SetLanePos(nodes[i - 1]->fromRoad->GetId(), nodes[i - 1]->fromLaneId, 0.0, 0.0);
-                    connected_pos
-                        .MoveAlongS(nodes[i - 1]->fromRoad->GetLength() * 0.33, 0.0, 0.0, false, Position::MoveDirectionMode::ROAD_DIRECTION, false);
+                    // The path node refers to the end of the road where the path leaves it
+                    const RoadPath::PathNode* node        = nodes[i - 1];
+                    const double              road_length = node->fromRoad->GetLength();
+                    const double              s_mid       = road_length * 0.33;
+                    const bool                at_end      = node->contactPoint == ContactPointType::CONTACT_POINT_END;
 
-                    double mid_dist = 0.0;
-                    if (all_waypoints_.back().Distance(&connected_pos,
-                                                       CoordinateSystem::CS_ROAD,
-                                                       RelativeDistanceType::REL_DIST_LONGITUDINAL,
-                                                       mid_dist,
-                                                       LARGE_NUMBER) == 0)
-                    {
-                        length_mid_acc_ += fabs(mid_dist);
-                        connected_pos.SetRouteWaypointS(length_mid_acc_);
-                        AddWaypointInternal(connected_pos, false, retval == 0);
-                    }
-                    else
-                    {
-                        LOG_ERROR_AND_QUIT("Invalid waypoint roadId {}", position.GetTrackId());
-                    }
+                    Position connected_pos;
+                    connected_pos.SetLanePos(node->fromRoad->GetId(),
+                                             node->fromRoad->GetConnectedLaneIdAtS(node->fromLaneId, at_end ? -1.0 : 0.0, s_mid),
+                                             s_mid,
+                                             0.0);
+                    connected_pos.SetRouteWaypointS(length_ + node->dist - (at_end ? road_length - s_mid : s_mid));
+                    AddWaypointInternal(connected_pos, false, retval == 0);
                 }
             }
 
-- 
2.43.0


From 878e658da21e07e47df0e3457b38732baafbab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:28 +0000
Subject: [PATCH 103/105] fix: lateral distance action executed again added the
 vehicle widths once more, or changed side

---
 .../OSCTypeDefs/OSCPrivateAction.cpp          | 23 +++++++++++--------
 .../OSCTypeDefs/OSCPrivateAction.hpp          |  1 +
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index 5607d73..f955e76 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -2010,33 +2010,36 @@ void LatDistanceAction::Start(double simTime)
     double ego_width    = object_->boundingbox_.dimensions_.width_;
     double target_width = target_object_->boundingbox_.dimensions_.width_;
 
+    // start from declared value each time, action may be executed several times
+    target_distance_ = distance_;
+
     if (cs_ == roadmanager::CoordinateSystem::CS_ENTITY)
     {
         if (freespace_)
         {
-            distance_ += (ego_width + target_width) / 2.0;
+            target_distance_ += (ego_width + target_width) / 2.0;
         }
-        distance_ *= displacement_ == DisplacementType::RIGHT_TO_REFERENCED_ENTITY ? -1 : 1;
+        target_distance_ *= displacement_ == DisplacementType::RIGHT_TO_REFERENCED_ENTITY ? -1 : 1;
     }
     else if (cs_ == roadmanager::CoordinateSystem::CS_ROAD)
     {
         if (displacement_ == DisplacementType::LEFT_TO_REFERENCED_ENTITY)
         {
             // We want to be on the left side of the target object
-            distance_ = -abs(distance_);
-            sign_     = -1.0;
+            target_distance_ = -abs(distance_);
+            sign_            = -1.0;
         }
         else if (displacement_ == DisplacementType::RIGHT_TO_REFERENCED_ENTITY)
         {
             // We want to be on the right side of the target object
-            distance_ = abs(distance_);
-            sign_     = 1.0;
+            target_distance_ = abs(distance_);
+            sign_            = 1.0;
         }
 
         if (freespace_)
         {
             // We only take the width of the cars into account if we are in freespace mode
-            distance_ += sign_ * (ego_width + target_width) / 2.0;
+            target_distance_ += sign_ * (ego_width + target_width) / 2.0;
         }
     }
 
@@ -2115,11 +2118,11 @@ void LatDistanceAction::GetDistanceError(roadmanager::Position& pos1, roadmanage
     // Both cars facing same direction, either along the driving direction or against it
     if ((facing_forward && pos_diff.dDirection) || (!facing_forward && !pos_diff.dDirection))
     {
-        distance_error = -(pos_diff.dt + distance_);
+        distance_error = -(pos_diff.dt + target_distance_);
     }
     else  // The cars are facing opposite directions
     {
-        distance_error = -(pos_diff.dt - distance_);
+        distance_error = -(pos_diff.dt - target_distance_);
     }
 }
 
@@ -2141,7 +2144,7 @@ void LatDistanceAction::Step(double simTime, double dt)
         double step_len             = object_->GetSpeed() * dt;
 
         RotateVec2D(1.0, 0.0, target_object_->pos_.GetH(), target_obj_x_axis[0], target_obj_x_axis[1]);
-        RotateVec2D(0.0, distance_, target_object_->pos_.GetH(), target_obj_offset[0], target_obj_offset[1]);
+        RotateVec2D(0.0, target_distance_, target_object_->pos_.GetH(), target_obj_offset[0], target_obj_offset[1]);
 
         // calculate target position, i.e. aiming point
         ProjectPointOnLine2D(object_->pos_.GetX(),
diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
index a7fce2c..ddddde3 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.hpp
@@ -623,6 +623,7 @@ namespace scenarioengine
         double       old_x_;
         double       old_y_;
         double       sign_;
+        double       target_distance_ = 0.0;  // signed, and including vehicle widths if freespace
     };
 
     class LatLaneChangeAction : public OSCPrivateAction
-- 
2.43.0


From ebaa00e22615649e7273c38698e100ed26cff999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:28 +0000
Subject: [PATCH 104/105] fix: lateral distance action in entity coordinates
 never ended when not continuous

---
 .../Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index f955e76..a7f62cd 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -2261,6 +2261,12 @@ void LatDistanceAction::Step(double simTime, double dt)
             }
         }
         object_->dirty_.SetBits(Object::DirtyBit::LATERAL | Object::DirtyBit::LONGITUDINAL | Object::DirtyBit::SPEED);
+
+        if (!continuous_ && dist < LATERAL_DISTANCE_THRESHOLD)
+        {
+            // Reached requested distance, quit action
+            OSCAction::End();
+        }
     }
     else if (cs_ == roadmanager::CoordinateSystem::CS_ROAD)
     {
-- 
2.43.0


From a72e84c25cbbab23a0b8746faae2897da909baa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:28 +0000
Subject: [PATCH 105/105] fix: lateral distance action moved to the wrong side
 when entering a road of opposite direction

---
 .../ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp        | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
index a7f62cd..2fe77c2 100644
--- a/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
+++ b/EnvironmentSimulator/Modules/ScenarioEngine/OSCTypeDefs/OSCPrivateAction.cpp
@@ -2371,7 +2371,14 @@ void LatDistanceAction::Step(double simTime, double dt)
 
                 double long_vel = sqrt(pow(object_->GetSpeed(), 2) - pow(lat_vel_, 2));
 
+                bool along_road = IsAngleForward(object_->pos_.GetHRelative());
                 object_->MoveAlongS(long_vel * dt);
+                if (IsAngleForward(object_->pos_.GetHRelative()) != along_road)
+                {
+                    // Entered a road of opposite direction, lateral axis is flipped
+                    lat_vel_      = -lat_vel_;
+                    acceleration_ = -acceleration_;
+                }
                 object_->pos_.SetLanePos(object_->pos_.GetTrackId(),
                                          object_->pos_.GetLaneId(),
                                          object_->pos_.GetS(),
-- 
2.43.0

