From 0726a22f53ebe486808340d2c3afde0933323841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 01/49] fix: report crossing of axis-parallel segments in
 CheckIntersection

---
 src/geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry.cpp b/src/geometry.cpp
index 259ff3c..f67315d 100644
--- a/src/geometry.cpp
+++ b/src/geometry.cpp
@@ -145,7 +145,7 @@ bool CheckIntersection(double ax, double ay,
   {
     if (a > b) std::swap(a, b);
     if (c > d) std::swap(c, d);
-    return std::max(a,c) < std::min(b,d);
+    return std::max(a,c) <= std::min(b,d);
   };
   return boundBoxCheck(ax, bx, cx, dx) &&
          boundBoxCheck(ay, by, cy, dy) &&
-- 
2.43.0


From c66d86eaf27cbbae52c4e7d1b79f9e7d6b859bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 02/49] fix: keep triangulating the other levels when one level
 has no triangles

---
 src/knn/knn_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index 1c40fc6..ae5ed61 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -54,8 +54,8 @@ std::map<LevelId, std::vector<RefPointsTriangle>> triangulate(const std::shared_
       std::vector<Triangle> triangles = TriangulateVertices(vertices, maxedge);
       if (triangles.empty())
       {
-        // triangulation failed!
-        return levelTriangles;
+        // triangulation failed, this level has no triangles!
+        continue;
       }
 #ifdef DEBUG_OUTPUT_TRIANGULATION
       std::ofstream debugOs;
-- 
2.43.0


From 5d0c0699d11817966c2dbc431acdbee8cae7e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 03/49] fix: compare measured and database signal magnitudes in
 non-differential KNN mode

---
 src/knn/knn_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index ae5ed61..a237045 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -254,7 +254,7 @@ std::map<ReferencePointId, double> calcRpWeightsKnn(
       {
         double apW = trWeights[it1->txId];
         rpNormalize[rpId] += apW;
-        double weight = std::max(fabs(it1->rssiDatabase + it1->rssiMeasured) * apW, MIN_RP_WEIGHT);
+        double weight = std::max(fabs(fabs(it1->rssiDatabase) - fabs(it1->rssiMeasured)) * apW, MIN_RP_WEIGHT);
         rpWeights[rpId] += weight;
       }
     }
-- 
2.43.0


From 2fe4fea013ce0f7eaacbd414b71a282fc5116cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 04/49] fix: select the k heaviest reference points instead of
 none

---
 src/knn/knn_utils.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index a237045..58c532e 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -354,8 +354,7 @@ XYPoint calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
                                      size_t k)
 {
   k = std::min(k, rpToWeight.size());
-  std::vector<std::pair<ReferencePointId, double>> kHeaviestPoints;
-  kHeaviestPoints.reserve(k);
+  std::vector<std::pair<ReferencePointId, double>> kHeaviestPoints(k);
   std::partial_sort_copy(
       rpToWeight.begin(), rpToWeight.end(),
       kHeaviestPoints.begin(), kHeaviestPoints.end(),
-- 
2.43.0


From d0e443791e786ae6e4c37019ccdc44065d233feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 05/49] fix: report no solution instead of the origin when no
 reference point matches

---
 src/knn/knn_utils.cpp                             | 13 +++++--------
 src/knn/knn_utils.h                               |  6 ++++--
 src/position_estimator/position_estimator_knn.cpp | 11 +++++++++--
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index 58c532e..4d6e5e6 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -307,7 +307,7 @@ static double getTriangleWeight(const RefPointsTriangle& triangle,
   return w1 + w2 + w3;
 }
 
-XYPoint calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
+boost::optional<XYPoint> calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
                                const Radiomap& radiomap,
                                const std::map<ReferencePointId, double>& rpWeights)
 {
@@ -327,16 +327,14 @@ XYPoint calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
 
   if (norm < std::numeric_limits<double>::epsilon())
   {
-    //TODO send error code
-    return XYPoint(0.0, 0.0);
+    return boost::none;
   }
 
   if (!radiomap.hasReferencePoint(maxWeightTriangle->rp1) ||
       !radiomap.hasReferencePoint(maxWeightTriangle->rp2) ||
       !radiomap.hasReferencePoint(maxWeightTriangle->rp3))
   {
-    //TODO send error code
-    return XYPoint(0.0, 0.0);
+    return boost::none;
   }
 
   ReferencePoint<XYPoint> rp1 = radiomap.getReferencePoint(maxWeightTriangle->rp1);
@@ -349,7 +347,7 @@ XYPoint calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
   return XYPoint(x, y);
 }
 
-XYPoint calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
+boost::optional<XYPoint> calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
                                      const std::map<ReferencePointId, double>& rpToWeight,
                                      size_t k)
 {
@@ -379,8 +377,7 @@ XYPoint calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
 
   if (norm < std::numeric_limits<double>::epsilon())
   {
-    //TODO check if norm can be zero and process error
-    return XYPoint(0.0, 0.0);
+    return boost::none;
   }
 
   x /= norm;
diff --git a/src/knn/knn_utils.h b/src/knn/knn_utils.h
index 89c4c22..33bcb46 100644
--- a/src/knn/knn_utils.h
+++ b/src/knn/knn_utils.h
@@ -14,6 +14,8 @@
 
 #include <set>
 
+#include <boost/optional.hpp>
+
 #include "../triangulation.h"
 
 namespace navigine {
@@ -48,11 +50,11 @@ std::map<ReferencePointId, double> calcRpWeightsKnn(
   const RadioMeasurementsData& msr,
   bool useDiffMode = true);
 
-XYPoint calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
+boost::optional<XYPoint> calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
                                const Radiomap& rps,
                                const std::map<ReferencePointId, double>& rpToWeight);
 
-XYPoint calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
+boost::optional<XYPoint> calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
                                      const std::map<ReferencePointId, double>& rpToWeight,
                                      size_t k);
 
diff --git a/src/position_estimator/position_estimator_knn.cpp b/src/position_estimator/position_estimator_knn.cpp
index d60a956..6de1765 100644
--- a/src/position_estimator/position_estimator_knn.cpp
+++ b/src/position_estimator/position_estimator_knn.cpp
@@ -69,7 +69,7 @@ Position PositionEstimatorKnn::calculatePosition(
   debugRefPointWeights = weights;
 #endif
 
-  XYPoint p = XYPoint(0.0, 0.0);
+  boost::optional<XYPoint> p;
   if (mUseTriangles)
   {
     if (mLevelTriangles.find(level.id()) == mLevelTriangles.end())
@@ -92,9 +92,16 @@ Position PositionEstimatorKnn::calculatePosition(
     p = calcKHeaviestRefPointsAverage(refPointsMap, rpToWeight, mK);
   }
 
+  if (!p)
+  {
+    // no reference point is similar to the measurements
+    retStatus = NavigationStatus::NO_SOLUTION;
+    return mPosition;
+  }
+
   bool isEmpty = false;
   double precision = 1.0; //TO FIX: calculate position accuracy
-  mPosition = Position(p.x, p.y, level.id(), precision, ts, isEmpty, Provider::INDOOR, 0.0);
+  mPosition = Position(p->x, p->y, level.id(), precision, ts, isEmpty, Provider::INDOOR, 0.0);
   
   return mPosition;
 }
-- 
2.43.0


From fc4b01b8ae8439a742824bf184fb58a6bd95f0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 06/49] fix: do not throw in KNN positioning on a level without
 fingerprints

---
 src/position_estimator/position_estimator_knn.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/position_estimator/position_estimator_knn.cpp b/src/position_estimator/position_estimator_knn.cpp
index 6de1765..59a2693 100644
--- a/src/position_estimator/position_estimator_knn.cpp
+++ b/src/position_estimator/position_estimator_knn.cpp
@@ -48,8 +48,14 @@ Position PositionEstimatorKnn::calculatePosition(
 
   retStatus = NavigationStatus::OK;
 
-  const std::set<TransmitterId>& beaconsIds = mLevelReferenceTransmittersMap.at(level.id());
-  auto validMsr = getWhitelistedMeasurements(beaconsIds, radioMsr);
+  auto beaconsIds = mLevelReferenceTransmittersMap.find(level.id());
+  if (beaconsIds == mLevelReferenceTransmittersMap.end())
+  {
+    retStatus = NavigationStatus::NO_RPS;
+    return mPosition;
+  }
+
+  auto validMsr = getWhitelistedMeasurements(beaconsIds->second, radioMsr);
   if (validMsr.size() < mMinMsrNumForPositionCalculation)
   {
     retStatus = NavigationStatus::NO_SOLUTION;
-- 
2.43.0


From fca7a378a50cf78c9e018d7e2d4a983207bc94c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 07/49] fix: barometer must not block the first detected level

---
 src/level_estimator/barometer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/level_estimator/barometer.cpp b/src/level_estimator/barometer.cpp
index 7d04b15..f0c67d9 100644
--- a/src/level_estimator/barometer.cpp
+++ b/src/level_estimator/barometer.cpp
@@ -83,7 +83,8 @@ void Barometer::updateBuffers(const SensorMeasurement& sensorMsr)
 void Barometer::updateLevel(LevelId levelId)
 {
   if ((mNewMeasurements.size() > SIZE_OF_CHUNK)
-          && (mStoredMeasurements.size() >= SIZE_OF_CHUNK))
+          && (mStoredMeasurements.size() >= SIZE_OF_CHUNK)
+          && mLastKnownLevel.isValid())
   {
     if (mLastKnownLevel != levelId)
     {
-- 
2.43.0


From 77218bd241c402b5e2814162e30d32dff6aa7e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 08/49] fix: solve linear systems with a zero column pair in
 the Givens elimination

---
 src/position_postprocessor/polynomial_fit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/position_postprocessor/polynomial_fit.cpp b/src/position_postprocessor/polynomial_fit.cpp
index c65eb33..c4f7d2d 100644
--- a/src/position_postprocessor/polynomial_fit.cpp
+++ b/src/position_postprocessor/polynomial_fit.cpp
@@ -166,6 +166,8 @@ void solveLinearSystem(const std::vector <double>& A, const std::vector <double>
     cosphi = E[k * (n + 1) + k];
     sinphi = E[j * (n + 1) + k];
     norm = sqrt(cosphi * cosphi + sinphi * sinphi);
+    if (norm == 0.0) // nothing to eliminate
+      continue;
     cosphi /= norm;
     sinphi /= norm;
     for (i = k; i < n + 1; ++i)
-- 
2.43.0


From 1619091708969330adbadffdb74490b3c101b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 09/49] fix: polynomial fit must not drop points that repeat
 the last value

---
 src/position_postprocessor/polynomial_fit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/position_postprocessor/polynomial_fit.cpp b/src/position_postprocessor/polynomial_fit.cpp
index c4f7d2d..198b1bf 100644
--- a/src/position_postprocessor/polynomial_fit.cpp
+++ b/src/position_postprocessor/polynomial_fit.cpp
@@ -24,7 +24,7 @@ void PolynomialFit::addSequencePoint(double x, double y)
     if (mY.empty())
         mCoeff.assign(mPower + 1, 0.);
 
-    if (mY.empty() || mY.back() != y)
+    if (mX.empty() || mX.back() < x)
     {
         mY.push_back(y);
         mX.push_back(x);
-- 
2.43.0


From da9c07d2092c4daee35e8e667437b6ae18347fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 10/49] fix: do not accept satellite fixes less accurate than
 the configured maximum

---
 src/position_estimator/position_estimator_outdoor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index aba6627..af4fc74 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -101,6 +101,9 @@ Position PositionEstimatorOutdoor::calculatePosition(
     mSigmaFilter.clear(); //If there is indoor solution then clear sigma filter GNSS buffer.
   }
 
+  if (gpsPos.deviation > mMaxGpsDeviation)
+    gpsPos = GpsPosition(); //The fix is too inaccurate to be accepted
+
   if (gpsPos.isEmpty)
   {
     double timeSinceLastGpsPosition = (ts - mLastGpsPosition.ts) / 1000.0;
-- 
2.43.0


From b44416cf98482d7fd8bfe2e2ea9bdede99924f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 11/49] fix: initialise measurement fields so that no unset
 sensor or satellite data is used

---
 include/navigine/navigation-core/navigation_input.h | 13 +++++++------
 src/measurements/measurement_preprocessor.cpp       |  1 +
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/navigine/navigation-core/navigation_input.h b/include/navigine/navigation-core/navigation_input.h
index 3859486..da65cca 100644
--- a/include/navigine/navigation-core/navigation_input.h
+++ b/include/navigine/navigation-core/navigation_input.h
@@ -22,7 +22,7 @@ template <typename MeasurementData>
 struct MeasurementDataWithTimeStamp
 {
   MeasurementData data;
-  long long ts;
+  long long ts = 0;
 };
 
 struct RadioMeasurementData
@@ -35,7 +35,7 @@ struct RadioMeasurementData
     WIFI_RTT
   };
 
-  Type type;
+  Type type = Type::WIFI;
   TransmitterId id;
   double rssi = 0;
   double power = 0;
@@ -51,17 +51,18 @@ struct SensorMeasurementData
     GYROSCOPE,
     BAROMETER,
     LOCATION,
-    ORIENTATION
+    ORIENTATION,
+    NONE // no sensor reading
   };
 
-  Type       type;
+  Type       type = Type::NONE;
   Vector3d   values;
 };
 
 struct NmeaMeasurementData
 {
-  int sentenceNumber;
-  int satellitesNumber;
+  int sentenceNumber = 0;
+  int satellitesNumber = 0;
 };
 
 using RadioMeasurementsData = std::vector<RadioMeasurementData>;
diff --git a/src/measurements/measurement_preprocessor.cpp b/src/measurements/measurement_preprocessor.cpp
index 1129dc1..84a92be 100644
--- a/src/measurements/measurement_preprocessor.cpp
+++ b/src/measurements/measurement_preprocessor.cpp
@@ -85,6 +85,7 @@ MeasurementsPreprocessor::MeasurementsPreprocessor(
   , mUseWifi(checkUseWifi(navProps))
   , mUseBle(checkUseBle(navProps))
   , mIsTracking(navProps.commonSettings.useTracking)
+  , mLastSignalTs(0)
   , mRadiosBuffer(createRadioMeasurementBuffer(navProps))
   , mCurrentTs(0)
 { }
-- 
2.43.0


From dd864a061974cab65da3ae1c3e9c8ad1fd7ee162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:57 +0000
Subject: [PATCH 12/49] fix: use a sensor reading once instead of with every
 following message

---
 src/measurements/measurement_preprocessor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/measurements/measurement_preprocessor.cpp b/src/measurements/measurement_preprocessor.cpp
index 84a92be..b6860e3 100644
--- a/src/measurements/measurement_preprocessor.cpp
+++ b/src/measurements/measurement_preprocessor.cpp
@@ -93,6 +93,8 @@ MeasurementsPreprocessor::MeasurementsPreprocessor(
 void MeasurementsPreprocessor::updateMeasurements(const Measurement& navMsg)
 {
   mCurrentTs = navMsg.ts;
+  mSensor = SensorMeasurement(); // a sensor reading belongs to its own message only
+  mSensor.ts = navMsg.ts;
   boost::apply_visitor(*this, navMsg.data);
 }
 
-- 
2.43.0


From ffa50f538c4cb61e047345752282a33355c26d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 13/49] fix: a repeated position must not be averaged again as
 a new measurement

---
 src/position_postprocessor/position_postprocessor.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index 0fc7a76..6a181c8 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -49,18 +49,25 @@ PositionPostprocessor::~PositionPostprocessor()
     delete mPositionSmoother;
 }
 
+// Estimators repeat their last position between measurements, it must not be counted as a new one
+static bool isRepeated(const Position& pos, const Position& lastPos)
+{
+  return !lastPos.isEmpty && pos.ts == lastPos.ts && pos.x == lastPos.x && pos.y == lastPos.y
+    && pos.levelId == lastPos.levelId && pos.deviationM == lastPos.deviationM;
+}
+
 void PositionPostprocessor::fillIndoorOutdoorPositionStates(
   const Position& indoorPos, 
   const Position& outdoorPos)
 {
-  if (!indoorPos.isEmpty)
+  if (!indoorPos.isEmpty && !isRepeated(indoorPos, mIndoorPos))
   {
     double priorIndoorDev = mIndoorPos.isEmpty ? mPriorDev : std::min(mPriorDev, mIndoorDev + mMotionSpeed * (indoorPos.ts - mIndoorPos.ts) / 1000.0);
     mIndoorPos = indoorPos;
     mIndoorDev = (priorIndoorDev + indoorPos.deviationM) / 2.0;
   }
 
-  if (!outdoorPos.isEmpty)
+  if (!outdoorPos.isEmpty && !isRepeated(outdoorPos, mOutdoorPos))
   {
     double priorOutdoorDev = mOutdoorPos.isEmpty ? mPriorDev : std::min(mPriorDev, mOutdoorDev + mMotionSpeed * (outdoorPos.ts - mOutdoorPos.ts) / 1000.0);
     mOutdoorDev = (priorOutdoorDev + outdoorPos.deviationM) / 2.0;
-- 
2.43.0


From db0cbad58293aa8ab95a5d55b5c77775e436f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 14/49] fix: least-squares smoothing must not advance when
 there is no newer position

---
 src/position_postprocessor/position_smoother_lstsq.cpp | 8 ++++++++
 src/position_postprocessor/position_smoother_lstsq.h   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/position_postprocessor/position_smoother_lstsq.cpp b/src/position_postprocessor/position_smoother_lstsq.cpp
index 981171e..9e02bea 100644
--- a/src/position_postprocessor/position_smoother_lstsq.cpp
+++ b/src/position_postprocessor/position_smoother_lstsq.cpp
@@ -21,9 +21,14 @@ Position PositionSmootherLstsq::smoothPosition(Position pos, const Level& level)
   {
     mStartTime = pos.ts;
     mWasCalled = true;
+    mPosition = pos;
     return pos;
   }
 
+  // Nothing new since the last call
+  if (pos.ts <= mPosition.ts)
+    return mPosition;
+
   double t = (pos.ts - mStartTime) / 1000.0;
   mPolyFitX.addSequencePoint(t, pos.x);
   mPolyFitY.addSequencePoint(t, pos.y);
@@ -36,6 +41,7 @@ Position PositionSmootherLstsq::smoothPosition(Position pos, const Level& level)
     mPolyFitX.clear();
     mPolyFitY.clear();
     mStartTime = pos.ts;
+    mPosition = pos;
     return pos;
   }
 
@@ -45,6 +51,7 @@ Position PositionSmootherLstsq::smoothPosition(Position pos, const Level& level)
     pos.y = ys;
   }
 
+  mPosition = pos;
   return pos;
 }
 
@@ -53,6 +60,7 @@ void PositionSmootherLstsq::reset(Position pos)
   mPolyFitX.clear();
   mPolyFitY.clear();
   mStartTime = pos.ts;
+  mPosition = Position();
 }
 
 } } // namespace navigine::navigation_core
diff --git a/src/position_postprocessor/position_smoother_lstsq.h b/src/position_postprocessor/position_smoother_lstsq.h
index 7310b86..3fedeb0 100644
--- a/src/position_postprocessor/position_smoother_lstsq.h
+++ b/src/position_postprocessor/position_smoother_lstsq.h
@@ -23,6 +23,7 @@ class PositionSmootherLstsq: public PositionSmoother
     PolynomialFit mPolyFitX;
     PolynomialFit mPolyFitY;
     long long mStartTime;
+    Position mPosition;
 };
 
 } } // namespace navigine::navigation_core
-- 
2.43.0


From 34fcda4a2a6a77040f326dce8962090eeb656abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 15/49] fix: round output coordinates instead of flooring them,
 a kept position crept with every message

---
 src/position_postprocessor/position_postprocessor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index 6a181c8..a6e86f9 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -241,8 +241,8 @@ Position PositionPostprocessor::getProcessedPosition(const Position& fusedPositi
   mLastOutPosition.y = std::min(std::max(mLastOutPosition.y, minCorner.y()), maxCorner.y());
 
   // Rounding coordinates to 0.01
-  mLastOutPosition.x = std::floor(mLastOutPosition.x * 100) / 100;
-  mLastOutPosition.y = std::floor(mLastOutPosition.y * 100) / 100;
+  mLastOutPosition.x = std::round(mLastOutPosition.x * 100) / 100;
+  mLastOutPosition.y = std::round(mLastOutPosition.y * 100) / 100;
 
   return mLastOutPosition;
 }
-- 
2.43.0


From bab000e02a2cd45168daae216152dd9ed6b25e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 16/49] fix: report satellite and fused positions with their
 own radius, not with the indoor one

---
 src/position_postprocessor/position_postprocessor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index a6e86f9..424b5c8 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -216,7 +216,8 @@ Position PositionPostprocessor::getProcessedPosition(const Position& fusedPositi
   {
     mLastOutPosition = result;
     mLastOutPosition.ts = ts;
-    mLastOutPosition.deviationM = mIndoorPos.deviationM;
+    if (mLastOutPosition.provider == Provider::INDOOR)
+      mLastOutPosition.deviationM = mIndoorPos.deviationM;
   }
 
 
-- 
2.43.0


From 71e3c8334184203c23f72143263637e51fff6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 17/49] fix: convert the azimuth to the east-based convention
 also when no level is detected

---
 src/navigation_client_impl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/navigation_client_impl.cpp b/src/navigation_client_impl.cpp
index aee6263..9389ebf 100644
--- a/src/navigation_client_impl.cpp
+++ b/src/navigation_client_impl.cpp
@@ -104,9 +104,6 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
       if (!motionInfo.isAzimuthValid) {
         motionInfo.azimuth = - (fusedPos.heading - M_PI_2); // convert from ENU to NED
       }
-
-      if (mUseEnuAzimuth)
-        motionInfo.azimuth = -motionInfo.azimuth + M_PI_2; // convert from NED to ENU
     }
     else if (!outdoorPos.isEmpty)
     {
@@ -117,6 +114,9 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
       retStatus = NavigationStatus::NO_LEVEL;
     }
 
+    if (mUseEnuAzimuth)
+      motionInfo.azimuth = -motionInfo.azimuth + M_PI_2; // convert from NED to ENU
+
     // Filling navigationSate for Debug
     auto navigationState = mPositionEstimatorIndoor->getParticleFilterState();
     navigationState.setStepCounter(motionInfo.stepCounter);
-- 
2.43.0


From f4fd932eed6a26496e45b046b986c457a39f5661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 18/49] fix: post-process a position with the level it belongs
 to, not with the detected one

---
 src/navigation_client_impl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/navigation_client_impl.cpp b/src/navigation_client_impl.cpp
index 9389ebf..fadd95d 100644
--- a/src/navigation_client_impl.cpp
+++ b/src/navigation_client_impl.cpp
@@ -100,7 +100,9 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
       if (!fusedPos.isEmpty)
         mPrevFusedPosHeading = fusedPos.heading;
 
-      mPosition = mPositionPostprocessor->getProcessedPosition(fusedPos, curTs, motionInfo, level);
+      // the fused position may be on another level than the detected one
+      const Level& positionLevel = fusedPos.isEmpty ? level : mLevelIndex->level(fusedPos.levelId);
+      mPosition = mPositionPostprocessor->getProcessedPosition(fusedPos, curTs, motionInfo, positionLevel);
       if (!motionInfo.isAzimuthValid) {
         motionInfo.azimuth = - (fusedPos.heading - M_PI_2); // convert from ENU to NED
       }
-- 
2.43.0


From f51b5236d593c02e88349de8f9dd3f87123aee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 19/49] fix: a position kept in stop mode must not be projected
 onto another level

---
 src/position_postprocessor/position_postprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index 424b5c8..619452b 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -209,7 +209,7 @@ Position PositionPostprocessor::getProcessedPosition(const Position& fusedPositi
     }
     else
     {
-      mLastOutPosition.ts = ts;
+      return mLastOutPosition; // kept as it was reported, its level may differ from the given one
     }
   }
   else
-- 
2.43.0


From 52732a6a5666e7be78984209cb09b51d706953de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 20/49] fix: in stop mode the first position has no predecessor
 it could be too far from

---
 src/position_postprocessor/position_postprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index 619452b..033a6e9 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -196,7 +196,7 @@ Position PositionPostprocessor::getProcessedPosition(const Position& fusedPositi
   //TODO be very carefull when use stops and gps simultaneously
   bool lastStepWasTooLongAgo = (mLastStepTs > 0) && (ts - mLastStepTs >= mStopDetectionTimeMs);
   double dist = GetDist(mLastOutPosition.x, mLastOutPosition.y, result.x, result.y);
-  bool newPositionIsNotTooFar = dist < mStopsDistThresholdM;
+  bool newPositionIsNotTooFar = mLastOutPosition.isEmpty || dist < mStopsDistThresholdM;
 
   mLastOutPosition.ts = ts;
   if (mUseStops && lastStepWasTooLongAgo)
-- 
2.43.0


From ab4f1729eec6c717987974b0982a54ae45e6d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 21/49] fix: remember the last motion time, the no-action
 timeout and stop detection missed it

---
 src/sensor_fusion/sensor_fusion.cpp | 3 ++-
 src/sensor_fusion/sensor_fusion.h   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sensor_fusion/sensor_fusion.cpp b/src/sensor_fusion/sensor_fusion.cpp
index a419761..517d95e 100644
--- a/src/sensor_fusion/sensor_fusion.cpp
+++ b/src/sensor_fusion/sensor_fusion.cpp
@@ -44,10 +44,11 @@ MotionInfo SensorFusion::calculateDisplacement(const SensorMeasurement& msr, lon
     motionInfo.distance     = std::accumulate(steps.begin(), steps.end(), 0.0,
                                 [](double sum, const Step& s) { return sum + s.len; });
     motionInfo.distance    *= mStepMultiplier;
-    motionInfo.lastMotionTs = tsMs;
+    mLastMotionTs           = tsMs;
     mStepCounter           += steps.size();
     motionInfo.stepCounter  = mStepCounter;
   }
+  motionInfo.lastMotionTs = mLastMotionTs;
 
   return motionInfo;
 }
diff --git a/src/sensor_fusion/sensor_fusion.h b/src/sensor_fusion/sensor_fusion.h
index 9cc56b2..128ffbc 100644
--- a/src/sensor_fusion/sensor_fusion.h
+++ b/src/sensor_fusion/sensor_fusion.h
@@ -31,6 +31,7 @@ private:
   ComplementaryFilter mComplFilter;
   Pedometer mPedometer;
   int mStepCounter = 0;
+  long long mLastMotionTs = 0;
   double mPrevHeading = 0.0;
 };
 
-- 
2.43.0


From 6fd1febbd898de760e30a1309359c91cf5987fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 22/49] fix: zone positioning needs no level settings: use the
 defaults where a level has none

---
 src/position_estimator/position_estimator_zone.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/position_estimator/position_estimator_zone.cpp b/src/position_estimator/position_estimator_zone.cpp
index 1931e25..050d8c3 100644
--- a/src/position_estimator/position_estimator_zone.cpp
+++ b/src/position_estimator/position_estimator_zone.cpp
@@ -17,8 +17,10 @@ PositionEstimatorZone::PositionEstimatorZone(
 {
   for (const Level& level: levelCollector->levels())
   {
-    mLogModelParameterA[level.id()] = navProps.levelsSettings.at(level.id()).normalModeA;
-    mLogModelParameterB[level.id()] = navProps.levelsSettings.at(level.id()).normalModeB;
+    const auto settingsIt = navProps.levelsSettings.find(level.id());
+    const LevelSettings levelSettings = settingsIt != navProps.levelsSettings.end() ? settingsIt->second : LevelSettings();
+    mLogModelParameterA[level.id()] = levelSettings.normalModeA;
+    mLogModelParameterB[level.id()] = levelSettings.normalModeB;
   }
 }
 
-- 
2.43.0


From a80ee41cf8b5c26b65fdc1405d70be9125067ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 23/49] fix: standalone trilateration starts every calculation
 from zero coordinates

---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index e6d2ede..0783be2 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -173,6 +173,9 @@ void Trilateration::printXyToFile( char* filename ) const
 
 int Trilateration::calculateTrilaterationCoordinates()
 {
+  // don't accumulate the result of the previous calculation
+  mXY.assign( 2, 0.0 );
+
   double normalizeCoefficient = 0.0;
   //take revert values, because lower is the distance, greater the weight gets
   for (unsigned int i = 0; i < mBeaconMeas.size(); i++)
-- 
2.43.0


From e8388ba00fb3f7aa3360c13cca007153cad8a831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 24/49] fix: standalone trilateration uses the averaged
 distance of duplicate measurements

---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index 0783be2..c15a6c1 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -267,6 +267,7 @@ int Trilateration::deleteDuplicateMeasurements( vector<BeaconMeas>& beaconMeas )
     distance /= (std::max)(nOfMeasFromSameAp, 1);
      
     itBeaconMeas->setRssi( rssi );
+    itBeaconMeas->setDistance( distance );
   }
 
   if (beaconMeas.size() < 3)
-- 
2.43.0


From 790f32e07ca34297e1f225dc8f73a92a1c58a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 25/49] fix: standalone trilateration needs three beacons known
 to the map

---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index c15a6c1..483fe6d 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -65,7 +65,7 @@ int Trilateration::calculateCoordinates()
   //filter out beacons that are not in the map
   filterUnknownBeacons (mBeaconMeas, mLocationBeacons);
 
-  if (mBeaconMeas.size () == 0 )
+  if (mBeaconMeas.size () < 3 )
   {
     printf("The number of visible beacon = %ld \n",
               mBeaconMeas.size ());
-- 
2.43.0


From 412792e6c535b68a831a4a8930158fc9d6dab34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:20 +0000
Subject: [PATCH 26/49] fix: standalone preprocessor keeps the first signal and
 those simultaneous with an extraction

---
 .../position_estimation/src/measurement_preprocessor.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp b/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp
index 2262004..0f830e3 100644
--- a/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp
+++ b/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp
@@ -94,7 +94,7 @@ void RadioMeasurementBuffer::addMeasurements(long long messageTs, const std::vec
     radioMsr.rssi = msr.rssi;
 
     // check if it is a fresh measurement
-    if (radioMsr.ts > mLastExtractionTs)
+    if (radioMsr.ts >= mLastExtractionTs)
       mMeasurements.push_back(radioMsr);
 
     mCurrentTs = std::max(radioMsr.ts, mCurrentTs);
-- 
2.43.0


From b803e5a8330154558a3685c5daec0129aca4ee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 27/49] fix: standalone nearest transmitter position has the
 time of its latest signal

---
 .../position_estimation/src/measurement_preprocessor.cpp    | 6 ++++++
 .../src/nearest_transmitter_estimator.cpp                   | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp b/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp
index 0f830e3..ffa82fe 100644
--- a/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp
+++ b/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp
@@ -148,6 +148,12 @@ std::vector<RadioMeasurement> RadioMeasurementBuffer::extractMeasurements()
     RadioMeasurement radioMsr = *sameIdFirst;
     radioMsr.rssi = averRssi;
     radioMsr.distance = averDistance;
+    // the average is as recent as the latest of its measurements
+    radioMsr.ts = std::max_element(sameIdFirst, sameIdLast,
+                                   [](const RadioMeasurement& lhs, const RadioMeasurement& rhs)
+                                   {
+                                     return lhs.ts < rhs.ts;
+                                   })->ts;
     measurements.push_back(radioMsr);
     sameIdFirst = sameIdLast;
   }
diff --git a/standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp b/standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp
index 7379dba..5eebf58 100644
--- a/standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp
+++ b/standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp
@@ -47,7 +47,9 @@ Position NearestTransmitterPositionEstimator::calculatePosition(const RadioMeasu
     position.y = t.y;
     position.precision = std::sqrt(std::exp((A - nearestTxRssi) / B)) + 1.0;
     position.isEmpty = false;
-    position.ts = radioMeasurements.back().ts;
+    // measurements are not ordered by time
+    for (const RadioMeasurement& msr: radioMeasurements)
+      position.ts = std::max(position.ts, msr.ts);
     return m_smoother.smoothPosition(position);
   }
 }
-- 
2.43.0


From c52d9db71cd9640685fd002147138b95adeaa137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:13 +0000
Subject: [PATCH 28/49] fix: height above a transmitter is computed from both
 horizontal components

---
 src/trilateration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trilateration.cpp b/src/trilateration.cpp
index f55ee26..5bff23c 100644
--- a/src/trilateration.cpp
+++ b/src/trilateration.cpp
@@ -104,7 +104,7 @@ boost::optional<double> Trilateration::calculateAltitude(const Level& level, con
     for (const auto& msr : radioMsrs)
     {
       Transmitter<XYZPoint> tx = level.transmitter(msr.id);
-      double deltaZ = std::sqrt(pow(msr.distance, 2) - pow((x - tx.point.x), 2 - pow((y - tx.point.y), 2)));
+      double deltaZ = std::sqrt(pow(msr.distance, 2) - pow((x - tx.point.x), 2) - pow((y - tx.point.y), 2));
       if (!std::isnan(deltaZ))
       {
         nanFlag = false;
-- 
2.43.0


From 8ed86e68965f1ce931492366b9addc03c4af077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:41 +0000
Subject: [PATCH 29/49] fix: altitude does not depend on the order of equally
 distant transmitters

---
 src/trilateration.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trilateration.cpp b/src/trilateration.cpp
index 5bff23c..5ecbe17 100644
--- a/src/trilateration.cpp
+++ b/src/trilateration.cpp
@@ -18,7 +18,10 @@ RadioMeasurementsData getIntersectedMeasurements(const Level &level, const Radio
     std::sort(newMsr.begin(), newMsr.end(),
               [](const RadioMeasurementData& lhs, const RadioMeasurementData& rhs)
               {
-                return lhs.distance < rhs.distance;
+                // among equal distances the order must not depend on the input
+                return lhs.distance != rhs.distance
+                  ? lhs.distance < rhs.distance
+                  : lhs.id < rhs.id;
               });
 
     // Method for determining the Access Point that fails
-- 
2.43.0


From 8d839e17ece39f790a1ec79c4855c6ad3a3c396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 30/49] fix: ignore empty inner rings instead of indexing their
 invalid envelopes

---
 src/level_geometry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/level_geometry.cpp b/src/level_geometry.cpp
index e7603bd..b733249 100644
--- a/src/level_geometry.cpp
+++ b/src/level_geometry.cpp
@@ -11,7 +11,8 @@ LevelGeometry::LevelGeometry(const Multipolygon& allowedArea, const Box& box)
 {
   for (const auto& polygon : mAllowedArea)
     for (const auto& inner : polygon.inners())
-      mInnerBarriers.push_back(inner);
+      if (!inner.empty()) // an empty ring has no envelope to index
+        mInnerBarriers.push_back(inner);
 
   std::vector<BoxIdx> boxIndices;
   for (std::size_t i = 0; i < mInnerBarriers.size(); i++)
-- 
2.43.0


From 50962b17a9c6950b68c481bf215a27e3d94edc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 31/49] fix: normalise any angle in constant time, a huge
 azimuth hung navigation

---
 src/sensor_fusion/complementary_filter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sensor_fusion/complementary_filter.cpp b/src/sensor_fusion/complementary_filter.cpp
index b0f74c5..b78a5e0 100644
--- a/src/sensor_fusion/complementary_filter.cpp
+++ b/src/sensor_fusion/complementary_filter.cpp
@@ -17,9 +17,9 @@ static const double LPF_TIME_CONSTANT_SEC   = 1.0;
 
 double to_minus_Pi_Pi(double x)
 {
-  while ( x >= M_PI ) x -= 2 * M_PI;
-  while ( x < -M_PI ) x += 2 * M_PI;
-  return x;
+  // takes constant time for any value
+  x = std::remainder(x, 2 * M_PI);
+  return x < M_PI ? x : x - 2 * M_PI;
 }
 
 Quaternion updateQuaternion(const Quaternion& q, const Vector3d& v)
-- 
2.43.0


From 2d127510a7daad8b82d54c15b5210488b1657621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 32/49] fix: polynomial fit keeps its newest point with a
 negative interval instead of emptying past the end

---
 src/position_postprocessor/polynomial_fit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/position_postprocessor/polynomial_fit.cpp b/src/position_postprocessor/polynomial_fit.cpp
index 198b1bf..97e9c1c 100644
--- a/src/position_postprocessor/polynomial_fit.cpp
+++ b/src/position_postprocessor/polynomial_fit.cpp
@@ -36,7 +36,7 @@ void PolynomialFit::addSequencePoint(double x, double y)
 
 void PolynomialFit::removeOldPoints()
 {
-    while ((mX.back() - mX.front()) > mTimeInterval)
+    while (mX.size() > 1 && (mX.back() - mX.front()) > mTimeInterval)
     {
         mX.pop_front();
         mY.pop_front();
-- 
2.43.0


From 2e155c70cfecf3cc08e0a1c84c7f8edd4124a559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:06 +0000
Subject: [PATCH 33/49] fix: no altitude from overflowing coordinates, their
 decomposition crashed

---
 src/trilateration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trilateration.cpp b/src/trilateration.cpp
index 5ecbe17..729a1c4 100644
--- a/src/trilateration.cpp
+++ b/src/trilateration.cpp
@@ -98,6 +98,10 @@ boost::optional<double> Trilateration::calculateAltitude(const Level& level, con
       b(row) = (pow(r1, 2) - pow(r2, 2) + (pow((x2 - x1), 2) + pow((y2 - y1), 2) + pow((z2 - z1), 2))) / 2;
       row++;
     }
+    // the decomposition is undefined for values that overflowed
+    if (!m.allFinite() || !b.allFinite())
+      return boost::none;
+
     Eigen::Vector3d rawLocation = m.bdcSvd(Eigen::ComputeThinU|Eigen::ComputeThinV).solve(b);
     double x = rawLocation[0] + x1;
     double y = rawLocation[1] + y1;
-- 
2.43.0


From 1f24069bdf025556ee601fbfb4b5db3664da37a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:35 +0000
Subject: [PATCH 34/49] fix: sigma filter with a zero window removed points
 from an empty buffer

---
 src/position_estimator/position_estimator_outdoor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/position_estimator/position_estimator_outdoor.h b/src/position_estimator/position_estimator_outdoor.h
index 3461cb7..34ee4f6 100644
--- a/src/position_estimator/position_estimator_outdoor.h
+++ b/src/position_estimator/position_estimator_outdoor.h
@@ -49,7 +49,7 @@ class SigmaFilter
     SigmaFilter(
       const unsigned int& sigmaWindow,
       const double& sigmaDelta)
-      : mSigmaWindow(sigmaWindow)
+      : mSigmaWindow(sigmaWindow > 0 ? sigmaWindow : 1) // at least one point to compare with
       , mSigmaDelta(sigmaDelta)
     {}
 
-- 
2.43.0


From 59122f98c4df1a306b36feeaa04fc9116a8ffe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:06 +0000
Subject: [PATCH 35/49] fix: comment lines of a log are no measurements

---
 tools/verification/helpers.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 73ebe23..af73942 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -15,6 +15,7 @@
 using namespace navigine::navigation_core;
 
 static double const GRAPH_SAME_POINTS_GEO_DIST = 0.1;
+static int const COMMENT_MESSAGE_TYPE = 900;
 
 namespace nlohmann {
 
@@ -325,6 +326,8 @@ std::vector<Measurement> GetNavMessages(const std::string& jsonFile)
   while (std::getline(infile, line))
   {
     auto j = nlohmann::json::parse(line);
+    if (j.at("type") == COMMENT_MESSAGE_TYPE)
+      continue;
     inputs.emplace_back(j.get<Measurement>());
   }
   return inputs;
-- 
2.43.0


From 972af8b5edb0089af101cb6623883f75fbc329b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:06 +0000
Subject: [PATCH 36/49] fix: eddystone measurements of a log are read as
 eddystone

---
 tools/verification/helpers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index af73942..ec6d242 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -23,6 +23,7 @@ NLOHMANN_JSON_SERIALIZE_ENUM(navigine::navigation_core::RadioMeasurementData::Ty
   {navigine::navigation_core::RadioMeasurementData::Type::WIFI, 201},
   {navigine::navigation_core::RadioMeasurementData::Type::BEACON, 203},
   {navigine::navigation_core::RadioMeasurementData::Type::BLUETOOTH, 202},
+  {navigine::navigation_core::RadioMeasurementData::Type::EDDYSTONE, 204},
   {navigine::navigation_core::RadioMeasurementData::Type::WIFI_RTT, 205}
 })
 
-- 
2.43.0


From 123eeb21cab3bb25d63ae2caab3b4650494fe036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:06 +0000
Subject: [PATCH 37/49] fix: power and deviation of radio measurements are read
 from the log

---
 tools/verification/helpers.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index ec6d242..f10ef0b 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -87,6 +87,12 @@ static void from_json(const nlohmann::json& j, RadioMeasurementData& radioMsr)
 
   if (j.count("distance"))
     j.at("distance").get_to(radioMsr.distance);
+
+  if (j.count("power"))
+    j.at("power").get_to(radioMsr.power);
+
+  if (j.count("stddev"))
+    j.at("stddev").get_to(radioMsr.stddev);
 }
 
 static void from_json(const nlohmann::json& j, NmeaMeasurementData& nmeaMsr)
-- 
2.43.0


From 46aacefb3de76a793b8c1e8eb748a12d287c2398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:06 +0000
Subject: [PATCH 38/49] fix: the Use_altitude setting is read from the settings
 file

---
 tools/verification/helpers.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index f10ef0b..5d85658 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -232,6 +232,8 @@ static void from_json(const nlohmann::json& j, CommonSettings& commonSettings)
       else if (key == "Use_ab_filter")
         j.at(key).get_to(commonSettings.useAbFilter);
 
+      else if (key == "Use_altitude")
+        j.at(key).get_to(commonSettings.useAltitude);
       else if (key == "Use_gps")
         j.at(key).get_to(commonSettings.useGps);
       else if (key == "Use_instant_gps_position")
-- 
2.43.0


From 3cb4b225d9fc0d31ca0eae8626d574412738dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:06 +0000
Subject: [PATCH 39/49] fix: K_neighbors and Fuse_gps_border settings are read
 by their documented names

---
 tools/verification/helpers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 5d85658..a62e47a 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -197,7 +197,7 @@ static void from_json(const nlohmann::json& j, CommonSettings& commonSettings)
       else if (key == "Use_uniform_sampling")
         j.at(key).get_to(commonSettings.useUniformSampling);
 
-      else if (key == "K")
+      else if (key == "K" || key == "K_neighbors")
         j.at(key).get_to(commonSettings.kNeighbors);
       else if (key == "Use_triangles")
         j.at(key).get_to(commonSettings.useTriangles);
@@ -259,7 +259,7 @@ static void from_json(const nlohmann::json& j, CommonSettings& commonSettings)
         j.at(key).get_to(commonSettings.minGpsDeviation);
       else if (key == "Maximum_to_accept_gps_measurement")
         j.at(key).get_to(commonSettings.maxGpsDeviation);
-      else if (key == "Fuse_gps_border_m")
+      else if (key == "Fuse_gps_border_m" || key == "Fuse_gps_border")
         j.at(key).get_to(commonSettings.fuseGpsBorderM);
       else if (key == "Position_old_for_fusing_sec")
         j.at(key).get_to(commonSettings.positionIsTooOldSec);
-- 
2.43.0


From dfa497881a02d942f5d9e348db425a8871b29b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:57 +0000
Subject: [PATCH 40/49] fix: a corner of the route graph is read as one vertex

---
 tools/verification/helpers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index a62e47a..9239125 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -448,8 +448,9 @@ std::pair<LevelId, Graph<GeoPoint>> parseGraph(const nlohmann::json& j)
     int v1 = it.first;
     std::set<int> adjacentVertexes = it.second;
     GeoPoint p1 = vertexMap[v1];
-    Graph<GeoPoint>::Vertex vertex1 = graph.addVertex(p1);
-    addedVertices.insert({v1, vertex1});
+    if (addedVertices.find(v1) == addedVertices.end())
+      addedVertices.insert({v1, graph.addVertex(p1)});
+    Graph<GeoPoint>::Vertex vertex1 = addedVertices[v1];
     for (int v2: adjacentVertexes)
     {
       if (addedVertices.find(v2) == addedVertices.end())
-- 
2.43.0


From ccc6c3339a04ee3c34d68a0f169d7fe9793f8002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:03 +0000
Subject: [PATCH 41/49] fix: particle likelihoods on a level without
 fingerprints

---
 src/likelihood/likelihood_radiomap.cpp | 23 +++++++++++++++--------
 src/likelihood/likelihood_radiomap.h   |  4 ++++
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/likelihood/likelihood_radiomap.cpp b/src/likelihood/likelihood_radiomap.cpp
index 87f1fca..1be6096 100644
--- a/src/likelihood/likelihood_radiomap.cpp
+++ b/src/likelihood/likelihood_radiomap.cpp
@@ -28,11 +28,21 @@ LikelihoodRadiomap::LikelihoodRadiomap(
   mLevelsRadiomaps = getLevelsRadiomaps(levelCollector);
 }
 
+RadioMeasurementsData LikelihoodRadiomap::getKnownMeasurements(
+  const Level& level,
+  const RadioMeasurementsData& radioMsr) const
+{
+  // a level without fingerprints knows no transmitter
+  auto txIds = mLevelReferenceTransmittersMap.find(level.id());
+  if (txIds == mLevelReferenceTransmittersMap.end())
+    return RadioMeasurementsData();
+  return getWhitelistedMeasurements(txIds->second, radioMsr);
+}
+
 bool LikelihoodRadiomap::hasSufficientMeasurementsForUpdate(const Level& level,
     const RadioMeasurementsData& radioMsr) const
 {
-  const std::set<TransmitterId>& txIds = mLevelReferenceTransmittersMap.at(level.id());
-  auto validMsr = getWhitelistedMeasurements(txIds, radioMsr);
+  auto validMsr = getKnownMeasurements(level, radioMsr);
   return validMsr.size() >= mMinMsrNumForPositionCalculation;
 }
 
@@ -40,8 +50,7 @@ bool LikelihoodRadiomap::hasSufficientMeasurementsForMutation(
   const Level& level,
   const RadioMeasurementsData& radioMsr) const
 {
-  const std::set<TransmitterId>& txIds = mLevelReferenceTransmittersMap.at(level.id());
-  auto validMsr = getWhitelistedMeasurements(txIds, radioMsr);
+  auto validMsr = getKnownMeasurements(level, radioMsr);
   return validMsr.size() >= mMinMsrNumForMutation;
 }
 
@@ -58,8 +67,7 @@ std::vector<double> LikelihoodRadiomap::calculateWeights(const Level& level,
     const RadioMeasurementsData& radioMsr,
     const std::vector<XYParticle>& particles)
 {
-  const std::set<TransmitterId>& txIds = mLevelReferenceTransmittersMap.at(level.id());
-  auto validMsr = getWhitelistedMeasurements(txIds, radioMsr);
+  auto validMsr = getKnownMeasurements(level, radioMsr);
   std::vector<double> weightsMult(particles.size(), 1.0 / particles.size());
 
   if (validMsr.size() < mMinMsrNumForPositionCalculation)
@@ -146,8 +154,7 @@ void LikelihoodRadiomap::doPreliminaryCalculations(
     const Level& level,
     const RadioMeasurementsData& radioMsr)
 {
-  const std::set<TransmitterId>& txIds = mLevelReferenceTransmittersMap.at(level.id());
-  auto validMsr = getWhitelistedMeasurements(txIds, radioMsr);
+  auto validMsr = getKnownMeasurements(level, radioMsr);
 
   if (validMsr.size() >= mMinMsrNumForPositionCalculation)
   {
diff --git a/src/likelihood/likelihood_radiomap.h b/src/likelihood/likelihood_radiomap.h
index 071baea..6f13648 100644
--- a/src/likelihood/likelihood_radiomap.h
+++ b/src/likelihood/likelihood_radiomap.h
@@ -60,6 +60,10 @@ class LikelihoodRadiomap : public Likelihood
   #endif
 
   private:
+    RadioMeasurementsData getKnownMeasurements(
+      const Level& level,
+      const RadioMeasurementsData& radioMsr) const;
+
     boost::optional<XYPoint> calculateRadiomapPoint(
       const LevelId& levelId,
       const Radiomap& radiomap,
-- 
2.43.0


From ebba601a9ce8f0b975425377a1d7e5fe3a4e593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:36 +0000
Subject: [PATCH 42/49] fix: indoor and satellite positions of different levels
 are fused in one coordinate system

---
 src/navigation_client_impl.cpp                |  2 +-
 .../position_postprocessor.cpp                | 24 +++++++++++++++----
 .../position_postprocessor.h                  |  5 +++-
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/navigation_client_impl.cpp b/src/navigation_client_impl.cpp
index fadd95d..3659cc8 100644
--- a/src/navigation_client_impl.cpp
+++ b/src/navigation_client_impl.cpp
@@ -22,7 +22,7 @@ NavigationClientImpl::NavigationClientImpl(
   , mPositionEstimatorIndoor(createPostitionEstimator(levelCollector, navProps))
   , mMsrPreprocessor(std::make_unique<MeasurementsPreprocessor>(levelCollector, navProps))
   , mPositionEstimatorOutdoor(std::make_unique<PositionEstimatorOutdoor>(levelCollector, navProps))
-  , mPositionPostprocessor(std::make_unique<PositionPostprocessor>(navProps))
+  , mPositionPostprocessor(std::make_unique<PositionPostprocessor>(levelCollector, navProps))
   , mSensorFusion(std::make_unique<SensorFusion>(navProps))
   , mFlagIndoorPos(false)
   , mPrevFusedPosHeading(boost::none)
diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index 033a6e9..e18dbe2 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -7,8 +7,11 @@
 namespace navigine {
 namespace navigation_core {
 
-PositionPostprocessor::PositionPostprocessor(const NavigationSettings& navProps)
-  : mUseSmoothing(navProps.commonSettings.useSmoothing)
+PositionPostprocessor::PositionPostprocessor(
+  const std::shared_ptr<LevelCollector>& levelCollector,
+  const NavigationSettings& navProps)
+  : mLevelIndex(levelCollector)
+  , mUseSmoothing(navProps.commonSettings.useSmoothing)
   , mUseStops(navProps.commonSettings.useStops)
   , mUseInstantGpsPosition(navProps.commonSettings.useInstantGpsPosition)
   , mUseGps(navProps.commonSettings.useGps)
@@ -75,6 +78,16 @@ void PositionPostprocessor::fillIndoorOutdoorPositionStates(
   }
 }
 
+// Local coordinates of different levels have different origins
+XYPoint PositionPostprocessor::getPointOnLevel(const Position& pos, const LevelId& levelId) const
+{
+  if (pos.levelId == levelId || !mLevelIndex->hasLevel(pos.levelId) || !mLevelIndex->hasLevel(levelId))
+    return XYPoint(pos.x, pos.y);
+
+  const GeoPoint geoPoint = localToGps(XYPoint(pos.x, pos.y), mLevelIndex->level(pos.levelId).bindingPoint());
+  return gpsToLocal(geoPoint, mLevelIndex->level(levelId).bindingPoint());
+}
+
 Position PositionPostprocessor::fusePositions(
   long long curTs, 
   const Position& indoorPos, 
@@ -108,15 +121,16 @@ Position PositionPostprocessor::fusePositions(
   double indoorDev = mMotionSpeed * indoorPositionDelay + mIndoorDev;
   double outdoorDev = mMotionSpeed * outdoorPositionDelay + mOutdoorDev;
 
-  double positionsDist = GetDist(mIndoorPos.x, mIndoorPos.y, mOutdoorPos.x, mOutdoorPos.y);
+  const XYPoint outdoorPoint = getPointOnLevel(mOutdoorPos, mIndoorPos.levelId);
+  double positionsDist = GetDist(mIndoorPos.x, mIndoorPos.y, outdoorPoint.x, outdoorPoint.y);
   double accuracyDist = mIndoorPos.deviationM + mOutdoorPos.deviationM + mFuseGpsBorderM;
 
   if (mFuseGps && (accuracyDist > positionsDist))
   {
     Position fusedPos = mIndoorPos;
     fusedPos.ts = std::max(mIndoorPos.ts, mOutdoorPos.ts);
-    fusedPos.x = (mIndoorPos.x * outdoorDev + mOutdoorPos.x * indoorDev) / (outdoorDev + indoorDev);
-    fusedPos.y = (mIndoorPos.y * outdoorDev + mOutdoorPos.y * indoorDev) / (outdoorDev + indoorDev);
+    fusedPos.x = (mIndoorPos.x * outdoorDev + outdoorPoint.x * indoorDev) / (outdoorDev + indoorDev);
+    fusedPos.y = (mIndoorPos.y * outdoorDev + outdoorPoint.y * indoorDev) / (outdoorDev + indoorDev);
     fusedPos.deviationM = std::min(indoorDev, outdoorDev);
     fusedPos.provider = Provider::FUSED;
     return fusedPos;
diff --git a/src/position_postprocessor/position_postprocessor.h b/src/position_postprocessor/position_postprocessor.h
index da24183..94df54a 100644
--- a/src/position_postprocessor/position_postprocessor.h
+++ b/src/position_postprocessor/position_postprocessor.h
@@ -4,6 +4,7 @@
 #include <navigine/navigation-core/motion_info.h>
 #include <navigine/navigation-core/navigation_settings.h>
 #include <navigine/navigation-core/level.h>
+#include <navigine/navigation-core/level_collector.h>
 
 #include "../position.h"
 #include "navigation_time_smoother.h"
@@ -16,7 +17,7 @@ class PositionPostprocessor
 {
   public:
     ~PositionPostprocessor();
-    PositionPostprocessor(const NavigationSettings& navProps);
+    PositionPostprocessor(const std::shared_ptr<LevelCollector>& levelCollector, const NavigationSettings& navProps);
 
     Position getProcessedPosition(const Position& fusedPos,
       long long ts, const MotionInfo& motionInfo,
@@ -29,7 +30,9 @@ class PositionPostprocessor
 
   private:
     bool isInsideMap(const Position& pos, const Level& level);
+    XYPoint getPointOnLevel(const Position& pos, const LevelId& levelId) const;
 
+    const std::shared_ptr<LevelCollector> mLevelIndex;
     const bool mUseSmoothing;
     const bool mUseStops;
     const bool mUseInstantGpsPosition;
-- 
2.43.0


From cdc0580a5e81787ab168d342c90e02424042713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:36 +0000
Subject: [PATCH 43/49] fix: the distance to the position held in stop mode is
 measured in one coordinate system

---
 src/position_postprocessor/position_postprocessor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index e18dbe2..61a57be 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -209,7 +209,8 @@ Position PositionPostprocessor::getProcessedPosition(const Position& fusedPositi
   //TODO check if pedometer is available before using steps!
   //TODO be very carefull when use stops and gps simultaneously
   bool lastStepWasTooLongAgo = (mLastStepTs > 0) && (ts - mLastStepTs >= mStopDetectionTimeMs);
-  double dist = GetDist(mLastOutPosition.x, mLastOutPosition.y, result.x, result.y);
+  const XYPoint lastOutPoint = getPointOnLevel(mLastOutPosition, result.levelId);
+  double dist = GetDist(lastOutPoint.x, lastOutPoint.y, result.x, result.y);
   bool newPositionIsNotTooFar = mLastOutPosition.isEmpty || dist < mStopsDistThresholdM;
 
   mLastOutPosition.ts = ts;
-- 
2.43.0


From d04ab7f5a8fd4468fcc1fa0bee1f4a9b53d3a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 44/49] fix: the sigma filter compares satellite fixes of
 different levels in one coordinate system

---
 .../position_estimator_outdoor.cpp               | 16 +++++++++++-----
 .../position_estimator_outdoor.h                 |  4 ++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index af4fc74..c68b7c7 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -9,13 +9,19 @@
 namespace navigine {
 namespace navigation_core {
 
-bool SigmaFilter::add(const XYPoint& point)
+bool SigmaFilter::add(const GeoPoint& geoPoint, const GeoPoint& bindingPoint)
 {
+  // Preceding fixes may belong to other levels, compare all of them in one coordinate system
+  const XYPoint point = gpsToLocal(geoPoint, bindingPoint);
+  std::vector<XYPoint> points;
+  for (auto const& pnt : mGNSSbuffer)
+    points.push_back(gpsToLocal(pnt, bindingPoint));
+
   bool pntValid = false;
   if (mGNSSbuffer.size() == mSigmaWindow) {
     double sumX = 0;
     double sumY = 0;
-    for (auto const& pnt : mGNSSbuffer)
+    for (auto const& pnt : points)
     {
       sumX += pnt.x;
       sumY += pnt.y;
@@ -25,7 +31,7 @@ bool SigmaFilter::add(const XYPoint& point)
 
     double accumX = 0.0;
     double accumY = 0.0;
-    std::for_each(std::begin(mGNSSbuffer), std::end(mGNSSbuffer), [&](auto const d) {
+    std::for_each(std::begin(points), std::end(points), [&](auto const d) {
         accumX += (d.x - meanX) * (d.x - meanX);
         accumY += (d.y - meanY) * (d.y - meanY);
     });
@@ -39,7 +45,7 @@ bool SigmaFilter::add(const XYPoint& point)
 
     mGNSSbuffer.pop_front();
   }
-  mGNSSbuffer.push_back(point);
+  mGNSSbuffer.push_back(geoPoint);
   return pntValid;
 }
 
@@ -134,7 +140,7 @@ Position PositionEstimatorOutdoor::calculatePosition(
       bool isValid = true;
       if (outPos.ts != mLastGpsPosition.ts)
       {
-        if (mUseSigmaFilter && !mSigmaFilter.add(point))
+        if (mUseSigmaFilter && !mSigmaFilter.add(GeoPoint(gpsPos.latitude, gpsPos.longitude), level.bindingPoint()))
           isValid = false;
       }
 
diff --git a/src/position_estimator/position_estimator_outdoor.h b/src/position_estimator/position_estimator_outdoor.h
index 34ee4f6..2f9eedb 100644
--- a/src/position_estimator/position_estimator_outdoor.h
+++ b/src/position_estimator/position_estimator_outdoor.h
@@ -53,13 +53,13 @@ class SigmaFilter
       , mSigmaDelta(sigmaDelta)
     {}
 
-    bool add(const XYPoint& point);
+    bool add(const GeoPoint& geoPoint, const GeoPoint& bindingPoint);
     void clear();
 
   private:
     const unsigned int mSigmaWindow;
     const double mSigmaDelta;
-    std::deque<XYPoint> mGNSSbuffer;
+    std::deque<GeoPoint> mGNSSbuffer;
 };
 
 class PositionEstimatorOutdoor
-- 
2.43.0


From 0b64ded5eab3d32f87a5717defce6fa612540828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 45/49] fix: smoothing restarts when the level changes while
 the reported position is held

---
 src/position_postprocessor/position_postprocessor.cpp | 3 ++-
 src/position_postprocessor/position_postprocessor.h   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index 61a57be..fc07b2c 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -198,8 +198,9 @@ Position PositionPostprocessor::getProcessedPosition(const Position& fusedPositi
 
   if (mUseSmoothing)
   {
-    if (mLastOutPosition.levelId != result.levelId)
+    if (mSmoothedLevelId != result.levelId) // the last output may have been held on another level
       mPositionSmoother->reset(result);
+    mSmoothedLevelId = result.levelId;
     result = mPositionSmoother->smoothPosition(result, level);
   }
 
diff --git a/src/position_postprocessor/position_postprocessor.h b/src/position_postprocessor/position_postprocessor.h
index 94df54a..37da1a9 100644
--- a/src/position_postprocessor/position_postprocessor.h
+++ b/src/position_postprocessor/position_postprocessor.h
@@ -63,6 +63,7 @@ class PositionPostprocessor
     Position mIndoorPos;
     Position mOutdoorPos;
     Position mLastOutPosition;
+    LevelId mSmoothedLevelId;
 
     long long mLastExtractionTs = -1;
     long long mLastStepTs = -1;
-- 
2.43.0


From b9f1c7b6c1c37cc8d1be9a0113ef2647541b0778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 46/49] fix: multiplying a quaternion in place by itself read
 operands already overwritten

---
 src/sensor_fusion/quaternion.cpp                      | 11 ++++++-----
 .../complementary_filter/src/quaternion.cpp           | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/sensor_fusion/quaternion.cpp b/src/sensor_fusion/quaternion.cpp
index 34e6b8a..e2fd20a 100644
--- a/src/sensor_fusion/quaternion.cpp
+++ b/src/sensor_fusion/quaternion.cpp
@@ -80,11 +80,12 @@ Quaternion& Quaternion::operator*=(const double& scale)
 
 Quaternion& Quaternion::operator*=(const Quaternion& other)
 {
-  double qw = w, qx = x, qy = y, qz = z;
-  this->w = qw*other.w - qx*other.x - qy*other.y - qz*other.z;
-  this->x = qw*other.x + qx*other.w + qy*other.z - qz*other.y;
-  this->y = qw*other.y - qx*other.z + qy*other.w + qz*other.x;
-  this->z = qw*other.z + qx*other.y - qy*other.x + qz*other.w;
+  const double qw = w, qx = x, qy = y, qz = z;
+  const double ow = other.w, ox = other.x, oy = other.y, oz = other.z;
+  this->w = qw*ow - qx*ox - qy*oy - qz*oz;
+  this->x = qw*ox + qx*ow + qy*oz - qz*oy;
+  this->y = qw*oy - qx*oz + qy*ow + qz*ox;
+  this->z = qw*oz + qx*oy - qy*ox + qz*ow;
   return *this;
 }
 
diff --git a/standalone_algorithms/complementary_filter/src/quaternion.cpp b/standalone_algorithms/complementary_filter/src/quaternion.cpp
index 5451f5b..b83c53d 100644
--- a/standalone_algorithms/complementary_filter/src/quaternion.cpp
+++ b/standalone_algorithms/complementary_filter/src/quaternion.cpp
@@ -73,11 +73,12 @@ Quaternion& Quaternion::operator*=(const double& scale)
 
 Quaternion& Quaternion::operator*=(const Quaternion& other)
 {
-  double qw = w, qx = x, qy = y, qz = z;
-  this->w = qw*other.w - qx*other.x - qy*other.y - qz*other.z;
-  this->x = qw*other.x + qx*other.w + qy*other.z - qz*other.y;
-  this->y = qw*other.y - qx*other.z + qy*other.w + qz*other.x;
-  this->z = qw*other.z + qx*other.y - qy*other.x + qz*other.w;
+  const double qw = w, qx = x, qy = y, qz = z;
+  const double ow = other.w, ox = other.x, oy = other.y, oz = other.z;
+  this->w = qw*ow - qx*ox - qy*oy - qz*oz;
+  this->x = qw*ox + qx*ow + qy*oz - qz*oy;
+  this->y = qw*oy - qx*oz + qy*ow + qz*ox;
+  this->z = qw*oz + qx*oy - qy*ox + qz*ow;
   return *this;
 }
 
-- 
2.43.0


From 39cc12035a580bb0e1deed7d8906ea7340c59766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:26 +0000
Subject: [PATCH 47/49] fix: a new navigation state had no defined heading,
 step length or step counter

---
 include/navigine/navigation-core/navigation_state.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/navigine/navigation-core/navigation_state.h b/include/navigine/navigation-core/navigation_state.h
index ab90ba2..82eca90 100644
--- a/include/navigine/navigation-core/navigation_state.h
+++ b/include/navigine/navigation-core/navigation_state.h
@@ -60,9 +60,9 @@ class NavigationState
     RadioMeasurementsData        mMeasurements;
     std::vector<XYParticle>  mLikelihoodMapPoints;
     std::vector<double>      mLikelihoodMapWeights;
-    double                   mHeading;
-    double                   mStepLen;
-    int                      mStepCounter;
+    double                   mHeading = 0;
+    double                   mStepLen = 0;
+    int                      mStepCounter = 0;
     XYPoint                  mIndoorPosition;
     XYPoint                  mOutdoorPosition;
 };
-- 
2.43.0


From 74d943b15122611ef2bc8c457d65918fe3651b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:33 +0000
Subject: [PATCH 48/49] fix: a reference point named like an auxiliary vertex
 of the triangulation lost its triangles

---
 src/triangulation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triangulation.h b/src/triangulation.h
index 05f91f9..8e379b5 100644
--- a/src/triangulation.h
+++ b/src/triangulation.h
@@ -16,8 +16,8 @@ struct TriangleVertex
   TriangleVertex(double x_, double y_, ReferencePointId id_):
     x(x_), y(y_), id(id_) { }
 
-  bool operator==(const TriangleVertex& v)const { return id == v.id; }
-  bool operator!=(const TriangleVertex& v)const { return id != v.id; }
+  bool operator==(const TriangleVertex& v)const { return id == v.id && x == v.x && y == v.y; }
+  bool operator!=(const TriangleVertex& v)const { return !(*this == v); }
   bool operator< (const TriangleVertex& v)const { return x < v.x || (x == v.x && y < v.y); }
   bool operator> (const TriangleVertex& v)const { return x > v.x || (x == v.x && y > v.y); }
   bool operator<=(const TriangleVertex& v)const { return !(*this > v); }
-- 
2.43.0


From 8ceb03c3303d723574a36b45af96b65b023eca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:25 +0000
Subject: [PATCH 49/49] fix: the distance to a transmitter ranged and scanned
 in one window counted the scans, which have none

---
 src/measurements/measurement_preprocessor.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/measurements/measurement_preprocessor.cpp b/src/measurements/measurement_preprocessor.cpp
index b6860e3..845f701 100644
--- a/src/measurements/measurement_preprocessor.cpp
+++ b/src/measurements/measurement_preprocessor.cpp
@@ -292,15 +292,25 @@ RadioMeasurementsData RadioMeasurementBuffer::extractMeasurements(long long last
 
     double averRssi = sumRssi / nSignals;
 
+    // only ranging measurements carry a distance: if there are any, the other signals don't take part in it
+    const auto isRanging = [](const RadioMeasurement& m)
+    {
+      return m.data.type == RadioMeasurementData::Type::WIFI_RTT;
+    };
+    const bool hasRanging = std::any_of(sameIdFirst, sameIdLast, isRanging);
+    double nDistances = hasRanging ? std::count_if(sameIdFirst, sameIdLast, isRanging) : nSignals;
+
     double sumDistances = std::accumulate(sameIdFirst, sameIdLast, 0.0,
-                                          [](double sum, const RadioMeasurement& m)
+                                          [&](double sum, const RadioMeasurement& m)
                                           {
-                                            return sum + m.data.distance;
+                                            return hasRanging && !isRanging(m) ? sum : sum + m.data.distance;
                                           });
 
-    double averDistance = sumDistances / nSignals;
+    double averDistance = sumDistances / nDistances;
 
     RadioMeasurement radioMsr = *sameIdFirst;
+    if (hasRanging)
+      radioMsr.data.type = RadioMeasurementData::Type::WIFI_RTT;
     radioMsr.data.rssi = averRssi;
     radioMsr.data.distance = averDistance;
     measurements.push_back(radioMsr.data);
-- 
2.43.0

