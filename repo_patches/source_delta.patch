From 3b4043118894786506db4f6c33a88266d8f9c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 01/47] fix: consume each sensor sample once, and none before
 one has arrived

Every message of any kind re-fed the last sensor sample (initially an
uninitialised one) to the pedometer, the complementary filter, the barometer
and the GPS estimator, which re-stamped the same GPS fix for ever. The last
signal time and the NMEA counters were also read uninitialised.
---
 src/level_estimator/barometer.cpp                  |  8 ++++----
 src/level_estimator/barometer.h                    |  5 +++--
 src/level_estimator/level_estimator.cpp            |  2 +-
 src/level_estimator/level_estimator.h              |  2 +-
 src/measurements/measurement_preprocessor.cpp      |  6 +++---
 src/measurements/measurement_preprocessor.h        |  8 ++++----
 src/navigation_client_impl.cpp                     |  2 +-
 .../position_estimator_outdoor.cpp                 | 12 ++++++------
 .../position_estimator_outdoor.h                   |  5 +++--
 src/sensor_fusion/sensor_fusion.cpp                | 14 +++++++++-----
 src/sensor_fusion/sensor_fusion.h                  |  3 ++-
 11 files changed, 37 insertions(+), 30 deletions(-)

diff --git a/src/level_estimator/barometer.cpp b/src/level_estimator/barometer.cpp
index 7d04b15..c0a0cc8 100644
--- a/src/level_estimator/barometer.cpp
+++ b/src/level_estimator/barometer.cpp
@@ -41,7 +41,7 @@ static double calcMean(const std::deque<double>& measurements)
 // - the floor is changed only if the vertical displacement is more than distance between floors (i.e. 3m)
 LevelId Barometer::checkLevelChange(
   const LevelId& levelId,
-  const SensorMeasurement& sensorMsr)
+  const boost::optional<SensorMeasurement>& sensorMsr)
 {
   if (!mIsInitialized)
   {
@@ -54,7 +54,7 @@ LevelId Barometer::checkLevelChange(
   return mLastKnownLevel;
 }
 
-void Barometer::updateBuffers(const SensorMeasurement& sensorMsr)
+void Barometer::updateBuffers(const boost::optional<SensorMeasurement>& sensorMsr)
 {
 #ifdef DEBUG_OUTPUT_BAROMETER
   std::ofstream debugOutputFile;
@@ -64,7 +64,7 @@ void Barometer::updateBuffers(const SensorMeasurement& sensorMsr)
   debugOutputFile.close();
 #endif
 
-  if (sensorMsr.data.type == SensorMeasurementData::Type::BAROMETER)
+  if (sensorMsr.is_initialized() && sensorMsr->data.type == SensorMeasurementData::Type::BAROMETER)
   {
     if (mStoredMeasurements.size() > SIZE_OF_CHUNK)
       mStoredMeasurements.pop_front();
@@ -75,7 +75,7 @@ void Barometer::updateBuffers(const SensorMeasurement& sensorMsr)
       mNewMeasurements.pop_front();
     }
 
-    mNewMeasurements.push_back(sensorMsr.data.values.x);
+    mNewMeasurements.push_back(sensorMsr->data.values.x);
   }
 }
 
diff --git a/src/level_estimator/barometer.h b/src/level_estimator/barometer.h
index fb90a2b..ffc19e4 100644
--- a/src/level_estimator/barometer.h
+++ b/src/level_estimator/barometer.h
@@ -10,6 +10,7 @@
 #include <navigine/navigation-core/navigation_input.h>
 
 #include <deque>
+#include <boost/optional.hpp>
 #include <navigine/navigation-core/level.h>
 
 #include "../measurement_types.h"
@@ -23,10 +24,10 @@ class Barometer
     Barometer() : mIsInitialized ( false ), mLastKnownLevel ( LevelId("")) {}
     LevelId checkLevelChange(
       const LevelId &levelId,
-      const SensorMeasurement& sensorMsr);
+      const boost::optional<SensorMeasurement>& sensorMsr);
 
   private:
-    void updateBuffers(const SensorMeasurement& sensorMsr);
+    void updateBuffers(const boost::optional<SensorMeasurement>& sensorMsr);
     void updateLevel(LevelId levelId);
 
     std::deque<double> mNewMeasurements = {};
diff --git a/src/level_estimator/level_estimator.cpp b/src/level_estimator/level_estimator.cpp
index e10f0d9..ae8c767 100644
--- a/src/level_estimator/level_estimator.cpp
+++ b/src/level_estimator/level_estimator.cpp
@@ -22,7 +22,7 @@ LevelEstimator::LevelEstimator(const NavigationSettings& navProps)
  */
 LevelId LevelEstimator::calculateLevel(
   const RadioMeasurementsData& radioMsr,
-  const SensorMeasurement& sensorMsr)
+  const boost::optional<SensorMeasurement>& sensorMsr)
 {
   LevelId detectedLevelId = detectCurrentLevel(radioMsr);
   LevelId levelIdWithHistory = mHistory.detectLevelUsingHistory(detectedLevelId);
diff --git a/src/level_estimator/level_estimator.h b/src/level_estimator/level_estimator.h
index 2be6fac..274e4d1 100644
--- a/src/level_estimator/level_estimator.h
+++ b/src/level_estimator/level_estimator.h
@@ -26,7 +26,7 @@ class LevelEstimator
     virtual ~LevelEstimator() {}
     LevelId calculateLevel(
       const RadioMeasurementsData& radioMsr,
-      const SensorMeasurement& sensorMsr);
+      const boost::optional<SensorMeasurement>& sensorMsr);
 
   protected:
     virtual LevelId detectCurrentLevel(const RadioMeasurementsData& radioMsr) = 0;
diff --git a/src/measurements/measurement_preprocessor.cpp b/src/measurements/measurement_preprocessor.cpp
index 1129dc1..d03c5cc 100644
--- a/src/measurements/measurement_preprocessor.cpp
+++ b/src/measurements/measurement_preprocessor.cpp
@@ -92,6 +92,7 @@ MeasurementsPreprocessor::MeasurementsPreprocessor(
 void MeasurementsPreprocessor::updateMeasurements(const Measurement& navMsg)
 {
   mCurrentTs = navMsg.ts;
+  mSensor = boost::none;
   boost::apply_visitor(*this, navMsg.data);
 }
 
@@ -111,8 +112,7 @@ void MeasurementsPreprocessor::operator()(const RadioMeasurementData& measuremen
 
 void MeasurementsPreprocessor::operator()(const SensorMeasurementData& measurement)
 {
-  mSensor.data = measurement;
-  mSensor.ts = mCurrentTs;
+  mSensor = SensorMeasurement{measurement, mCurrentTs};
 }
 
 void MeasurementsPreprocessor::operator()(const NmeaMeasurementData& measurement)
@@ -337,7 +337,7 @@ RadioMeasurementsData RadioMeasurementBuffer::extractMeasurements(long long last
   return measurements;
 }
 
-SensorMeasurement MeasurementsPreprocessor::getValidSensor() const
+boost::optional<SensorMeasurement> MeasurementsPreprocessor::getValidSensor() const
 {
   return mSensor;
 }
diff --git a/src/measurements/measurement_preprocessor.h b/src/measurements/measurement_preprocessor.h
index bdb58f6..6bcc310 100644
--- a/src/measurements/measurement_preprocessor.h
+++ b/src/measurements/measurement_preprocessor.h
@@ -57,7 +57,7 @@ class MeasurementsPreprocessor: public boost::static_visitor<>
     long long getCurrentTs() const;
     long long getLastSignalTs() const;
     RadioMeasurementsData extractRadioMeasurements(long long lastStepTime);
-    SensorMeasurement getValidSensor() const;
+    boost::optional<SensorMeasurement> getValidSensor() const;
     NmeaMeasurement getCurrentNmea() const;
 
     void operator()(const RadioMeasurementData& measurement);
@@ -83,13 +83,13 @@ class MeasurementsPreprocessor: public boost::static_visitor<>
     const bool mUseWifi;
     const bool mUseBle;
     const bool mIsTracking;
-    long long mLastSignalTs;
+    long long mLastSignalTs = 0;
 
     RadioMeasurementBuffer mRadiosBuffer;
     long long mCurrentTs;
 
-    SensorMeasurement mSensor;
-    NmeaMeasurement mNmea;
+    boost::optional<SensorMeasurement> mSensor; // set only while its own message is processed
+    NmeaMeasurement mNmea = {};
 };
 
 } } // namespace navigine::navigation_core
diff --git a/src/navigation_client_impl.cpp b/src/navigation_client_impl.cpp
index aee6263..6c9389e 100644
--- a/src/navigation_client_impl.cpp
+++ b/src/navigation_client_impl.cpp
@@ -55,7 +55,7 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
     mMsrPreprocessor->updateMeasurements(navInput);
     const long long curTs = mMsrPreprocessor->getCurrentTs();
     const long long lastSignalTs = mMsrPreprocessor->getLastSignalTs();
-    const SensorMeasurement sensorMsr = mMsrPreprocessor->getValidSensor();
+    const boost::optional<SensorMeasurement> sensorMsr = mMsrPreprocessor->getValidSensor();
     const NmeaMeasurement nmeaMsr = mMsrPreprocessor->getCurrentNmea();
     MotionInfo motionInfo = mSensorFusion->calculateDisplacement(sensorMsr, curTs);
     const auto radioMsr = mMsrPreprocessor->extractRadioMeasurements(motionInfo.lastMotionTs);
diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index aba6627..385b9ff 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -61,14 +61,14 @@ PositionEstimatorOutdoor::PositionEstimatorOutdoor(
   , mMaxGpsDeviation(navProps.commonSettings.maxGpsDeviation)
 { }
 
-GpsPosition PositionEstimatorOutdoor::extractGpsPosition(long long ts, const SensorMeasurement& sensorMsr)
+GpsPosition PositionEstimatorOutdoor::extractGpsPosition(long long ts, const boost::optional<SensorMeasurement>& sensorMsr)
 {
 
-  if (sensorMsr.data.type == SensorMeasurementData::Type::LOCATION)
+  if (sensorMsr.is_initialized() && sensorMsr->data.type == SensorMeasurementData::Type::LOCATION)
   {
-    double lat = sensorMsr.data.values.x;
-    double lng = sensorMsr.data.values.y;
-    double dev = std::max(sensorMsr.data.values.z, mMinGpsDeviation);
+    double lat = sensorMsr->data.values.x;
+    double lng = sensorMsr->data.values.y;
+    double dev = std::max(sensorMsr->data.values.z, mMinGpsDeviation);
     GpsPosition pos = GpsPosition(lat, lng, dev, ts);
     return pos;
   }
@@ -89,7 +89,7 @@ int PositionEstimatorOutdoor::extractNumberOfSatellites(const NmeaMeasurement& n
 
 Position PositionEstimatorOutdoor::calculatePosition(
   long long ts,
-  const SensorMeasurement& sensorEntry,
+  const boost::optional<SensorMeasurement>& sensorEntry,
   const NmeaMeasurement& nmeaEntry,
   const bool flagIndoorPos)
 {
diff --git a/src/position_estimator/position_estimator_outdoor.h b/src/position_estimator/position_estimator_outdoor.h
index 3461cb7..c23980b 100644
--- a/src/position_estimator/position_estimator_outdoor.h
+++ b/src/position_estimator/position_estimator_outdoor.h
@@ -12,6 +12,7 @@
 #include <navigine/navigation-core/navigation_settings.h>
 #include <navigine/navigation-core/level_collector.h>
 #include <deque>
+#include <boost/optional.hpp>
 
 #include "../position.h"
 #include "../measurement_types.h"
@@ -71,12 +72,12 @@ public:
 
   Position calculatePosition(
     long long ts,
-    const SensorMeasurement& sensorMsr,
+    const boost::optional<SensorMeasurement>& sensorMsr,
     const NmeaMeasurement& nmeaMsr,
     const bool flagIndoorPos);
 
   private:
-    GpsPosition extractGpsPosition(long long ts, const SensorMeasurement& sensorEntry);
+    GpsPosition extractGpsPosition(long long ts, const boost::optional<SensorMeasurement>& sensorEntry);
     int extractNumberOfSatellites(const NmeaMeasurement& nmeaEntry);
     Position mLastGpsPosition;
 
diff --git a/src/sensor_fusion/sensor_fusion.cpp b/src/sensor_fusion/sensor_fusion.cpp
index a419761..a879ddd 100644
--- a/src/sensor_fusion/sensor_fusion.cpp
+++ b/src/sensor_fusion/sensor_fusion.cpp
@@ -14,12 +14,16 @@ SensorFusion::SensorFusion(const NavigationSettings& navProps)
 {
 }
 
-MotionInfo SensorFusion::calculateDisplacement(const SensorMeasurement& msr, long long tsMs)
+MotionInfo SensorFusion::calculateDisplacement(const boost::optional<SensorMeasurement>& msr, long long tsMs)
 {
-  mPedometer.update(msr);
-  std::deque<Step> steps = mPedometer.calculateSteps();
-  
-  mComplFilter.update(msr);
+  std::deque<Step> steps;
+  if (msr.is_initialized())
+  {
+    mPedometer.update(msr.get());
+    steps = mPedometer.calculateSteps();
+
+    mComplFilter.update(msr.get());
+  }
 
   MotionInfo motionInfo;
   motionInfo.heading = -mComplFilter.getFusedAzimuth(); // the counter-clockwise rotation needed
diff --git a/src/sensor_fusion/sensor_fusion.h b/src/sensor_fusion/sensor_fusion.h
index 9cc56b2..1ee8620 100644
--- a/src/sensor_fusion/sensor_fusion.h
+++ b/src/sensor_fusion/sensor_fusion.h
@@ -12,6 +12,7 @@
 #include <navigine/navigation-core/navigation_settings.h>
 
 #include <vector>
+#include <boost/optional.hpp>
 
 #include "complementary_filter.h"
 #include "pedometer.h"
@@ -23,7 +24,7 @@ class SensorFusion
 {
 public:
   SensorFusion(const NavigationSettings& navProps);
-  MotionInfo calculateDisplacement(const SensorMeasurement& msr, long long tsMs);
+  MotionInfo calculateDisplacement(const boost::optional<SensorMeasurement>& msr, long long tsMs);
 
 private:
   const bool mUseCalcAzimuth;
-- 
2.43.0


From 94edcdbd1236129efaa954f5715c192a94623215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 02/47] fix: keep the step counter and the last motion time
 between steps

Both were zero in every message that did not itself complete a step, so the
reported counter dropped back to zero and the no-action timeout never fired.
---
 src/sensor_fusion/sensor_fusion.cpp | 5 +++--
 src/sensor_fusion/sensor_fusion.h   | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sensor_fusion/sensor_fusion.cpp b/src/sensor_fusion/sensor_fusion.cpp
index a879ddd..12ae688 100644
--- a/src/sensor_fusion/sensor_fusion.cpp
+++ b/src/sensor_fusion/sensor_fusion.cpp
@@ -48,10 +48,11 @@ MotionInfo SensorFusion::calculateDisplacement(const boost::optional<SensorMeasu
     motionInfo.distance     = std::accumulate(steps.begin(), steps.end(), 0.0,
                                 [](double sum, const Step& s) { return sum + s.len; });
     motionInfo.distance    *= mStepMultiplier;
-    motionInfo.lastMotionTs = tsMs;
+    mLastMotionTs           = tsMs;
     mStepCounter           += steps.size();
-    motionInfo.stepCounter  = mStepCounter;
   }
+  motionInfo.lastMotionTs = mLastMotionTs;
+  motionInfo.stepCounter  = mStepCounter;
 
   return motionInfo;
 }
diff --git a/src/sensor_fusion/sensor_fusion.h b/src/sensor_fusion/sensor_fusion.h
index 1ee8620..6bde96a 100644
--- a/src/sensor_fusion/sensor_fusion.h
+++ b/src/sensor_fusion/sensor_fusion.h
@@ -32,6 +32,7 @@ private:
   ComplementaryFilter mComplFilter;
   Pedometer mPedometer;
   int mStepCounter = 0;
+  long long mLastMotionTs = 0;
   double mPrevHeading = 0.0;
 };
 
-- 
2.43.0


From de9fcb9b8c2b6e0184edc881e0119115d6d880b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 03/47] fix: do not report the last position as OK once no
 level and no GPS is known

---
 src/navigation_client_impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/navigation_client_impl.cpp b/src/navigation_client_impl.cpp
index 6c9389e..65fc10d 100644
--- a/src/navigation_client_impl.cpp
+++ b/src/navigation_client_impl.cpp
@@ -114,6 +114,7 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
     }
     else
     {
+      mPosition = Position();
       retStatus = NavigationStatus::NO_LEVEL;
     }
 
-- 
2.43.0


From 3ae2a2423afa24704840e40541dab200a83e35f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 04/47] fix: wrap angles in bounded time, also infinite and
 huge ones

An orientation sample holding a huge or infinite azimuth made navigate() spin
for ever in the angle-wrapping loop.
---
 src/sensor_fusion/complementary_filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sensor_fusion/complementary_filter.cpp b/src/sensor_fusion/complementary_filter.cpp
index b0f74c5..b48ff2f 100644
--- a/src/sensor_fusion/complementary_filter.cpp
+++ b/src/sensor_fusion/complementary_filter.cpp
@@ -4,6 +4,8 @@
  *
  */
 
+#include <cmath>
+
 #include <navigine/navigation-core/navigation_input.h>
 #include <navigine/navigation-core/navigation_settings.h>
 #include "complementary_filter.h"
@@ -17,6 +19,9 @@ static const double LPF_TIME_CONSTANT_SEC   = 1.0;
 
 double to_minus_Pi_Pi(double x)
 {
+  if (!std::isfinite(x))
+    return 0.0;
+  x = std::fmod(x, 2 * M_PI);
   while ( x >= M_PI ) x -= 2 * M_PI;
   while ( x < -M_PI ) x += 2 * M_PI;
   return x;
-- 
2.43.0


From e4b3b3688526dfce4664acfda87a6d6a839b95f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 05/47] fix: ignore measurements that hold NaN or infinite
 values

One such sample poisoned the orientation filter, the pedometer and the position
smoothers for the rest of the session.
---
 src/measurements/measurement_preprocessor.cpp | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/measurements/measurement_preprocessor.cpp b/src/measurements/measurement_preprocessor.cpp
index d03c5cc..caa9dba 100644
--- a/src/measurements/measurement_preprocessor.cpp
+++ b/src/measurements/measurement_preprocessor.cpp
@@ -5,6 +5,7 @@
  */
 
 #include <algorithm>
+#include <cmath>
 #include <numeric>
 
 #include "measurement_preprocessor.h"
@@ -70,6 +71,19 @@ RadioMeasurementBuffer createRadioMeasurementBuffer(
   return RadioMeasurementBuffer(keepRadioTimeMs, sigWindowShift, stopDetectTime, rssiBias, useStops);
 }
 
+bool isFinite(const RadioMeasurementData& measurement)
+{
+  return std::isfinite(measurement.rssi) && std::isfinite(measurement.power) && std::isfinite(measurement.distance);
+}
+
+bool isFinite(const SensorMeasurementData& measurement)
+{
+  const Vector3d& v = measurement.values;
+  const bool isScalar = measurement.type == SensorMeasurementData::Type::BAROMETER
+                     || measurement.type == SensorMeasurementData::Type::ORIENTATION;
+  return std::isfinite(v.x) && (isScalar || (std::isfinite(v.y) && std::isfinite(v.z)));
+}
+
 }
 
 MeasurementsPreprocessor::MeasurementsPreprocessor(
@@ -112,7 +126,8 @@ void MeasurementsPreprocessor::operator()(const RadioMeasurementData& measuremen
 
 void MeasurementsPreprocessor::operator()(const SensorMeasurementData& measurement)
 {
-  mSensor = SensorMeasurement{measurement, mCurrentTs};
+  if (isFinite(measurement))
+    mSensor = SensorMeasurement{measurement, mCurrentTs};
 }
 
 void MeasurementsPreprocessor::operator()(const NmeaMeasurementData& measurement)
@@ -170,6 +185,9 @@ long long MeasurementsPreprocessor::getLastSignalTs() const
 boost::optional<RadioMeasurementData> MeasurementsPreprocessor::getValidSignalEntry(
   const RadioMeasurementData& entry) const
 {
+  if (!isFinite(entry))
+    return boost::none;
+
   bool isTransmitterValid = mUseUnknownTxs
     || (mLevelIndex->findLevelByTransmitterId(entry.id).is_initialized()
       && isTransmitterSupported(entry.id));
-- 
2.43.0


From dfaa505b0b02894fd34e1d49deb131810e25dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 06/47] fix: average the k heaviest reference points instead of
 none of them

partial_sort_copy was given an empty (only reserved) range, so without triangles
every KNN position was the origin of the level.
---
 src/knn/knn_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index 1c40fc6..72a2c03 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -355,7 +355,7 @@ XYPoint calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
 {
   k = std::min(k, rpToWeight.size());
   std::vector<std::pair<ReferencePointId, double>> kHeaviestPoints;
-  kHeaviestPoints.reserve(k);
+  kHeaviestPoints.resize(k);
   std::partial_sort_copy(
       rpToWeight.begin(), rpToWeight.end(),
       kHeaviestPoints.begin(), kHeaviestPoints.end(),
-- 
2.43.0


From 2f6b53567098c9f4fbcfb9f0ae44949faa9d27f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 07/47] fix: report no solution when no reference point matches
 the signals

KNN returned the corner of the level's box as a good position when no reference
point saw enough of the measured transmitters.
---
 src/knn/knn_utils.cpp                             | 13 +++++--------
 src/knn/knn_utils.h                               |  5 +++--
 src/position_estimator/position_estimator_knn.cpp | 10 ++++++++--
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index 72a2c03..cf3ba2a 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -307,7 +307,7 @@ static double getTriangleWeight(const RefPointsTriangle& triangle,
   return w1 + w2 + w3;
 }
 
-XYPoint calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
+boost::optional<XYPoint> calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
                                const Radiomap& radiomap,
                                const std::map<ReferencePointId, double>& rpWeights)
 {
@@ -327,16 +327,14 @@ XYPoint calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
 
   if (norm < std::numeric_limits<double>::epsilon())
   {
-    //TODO send error code
-    return XYPoint(0.0, 0.0);
+    return boost::none;
   }
 
   if (!radiomap.hasReferencePoint(maxWeightTriangle->rp1) ||
       !radiomap.hasReferencePoint(maxWeightTriangle->rp2) ||
       !radiomap.hasReferencePoint(maxWeightTriangle->rp3))
   {
-    //TODO send error code
-    return XYPoint(0.0, 0.0);
+    return boost::none;
   }
 
   ReferencePoint<XYPoint> rp1 = radiomap.getReferencePoint(maxWeightTriangle->rp1);
@@ -349,7 +347,7 @@ XYPoint calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
   return XYPoint(x, y);
 }
 
-XYPoint calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
+boost::optional<XYPoint> calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
                                      const std::map<ReferencePointId, double>& rpToWeight,
                                      size_t k)
 {
@@ -380,8 +378,7 @@ XYPoint calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
 
   if (norm < std::numeric_limits<double>::epsilon())
   {
-    //TODO check if norm can be zero and process error
-    return XYPoint(0.0, 0.0);
+    return boost::none;
   }
 
   x /= norm;
diff --git a/src/knn/knn_utils.h b/src/knn/knn_utils.h
index 89c4c22..805cabd 100644
--- a/src/knn/knn_utils.h
+++ b/src/knn/knn_utils.h
@@ -13,6 +13,7 @@
 #include <navigine/navigation-core/level_collector.h>
 
 #include <set>
+#include <boost/optional.hpp>
 
 #include "../triangulation.h"
 
@@ -48,11 +49,11 @@ std::map<ReferencePointId, double> calcRpWeightsKnn(
   const RadioMeasurementsData& msr,
   bool useDiffMode = true);
 
-XYPoint calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
+boost::optional<XYPoint> calcPositionInTriangle(const std::vector<RefPointsTriangle>& triangles,
                                const Radiomap& rps,
                                const std::map<ReferencePointId, double>& rpToWeight);
 
-XYPoint calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
+boost::optional<XYPoint> calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
                                      const std::map<ReferencePointId, double>& rpToWeight,
                                      size_t k);
 
diff --git a/src/position_estimator/position_estimator_knn.cpp b/src/position_estimator/position_estimator_knn.cpp
index d60a956..9111d9a 100644
--- a/src/position_estimator/position_estimator_knn.cpp
+++ b/src/position_estimator/position_estimator_knn.cpp
@@ -69,7 +69,7 @@ Position PositionEstimatorKnn::calculatePosition(
   debugRefPointWeights = weights;
 #endif
 
-  XYPoint p = XYPoint(0.0, 0.0);
+  boost::optional<XYPoint> p;
   if (mUseTriangles)
   {
     if (mLevelTriangles.find(level.id()) == mLevelTriangles.end())
@@ -92,9 +92,15 @@ Position PositionEstimatorKnn::calculatePosition(
     p = calcKHeaviestRefPointsAverage(refPointsMap, rpToWeight, mK);
   }
 
+  if (!p.is_initialized())
+  {
+    retStatus = NavigationStatus::NO_SOLUTION;
+    return mPosition;
+  }
+
   bool isEmpty = false;
   double precision = 1.0; //TO FIX: calculate position accuracy
-  mPosition = Position(p.x, p.y, level.id(), precision, ts, isEmpty, Provider::INDOOR, 0.0);
+  mPosition = Position(p->x, p->y, level.id(), precision, ts, isEmpty, Provider::INDOOR, 0.0);
   
   return mPosition;
 }
-- 
2.43.0


From b0c9d7f54277fff862bb29b0e6b72abcfca51f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 08/47] fix: compare signal levels by magnitude in plain KNN
 mode

With a radiomap of negative means, as the GeoJSON loader gives, the worst
matching reference points got the largest weights.
---
 src/knn/knn_utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index cf3ba2a..5a2755f 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -254,7 +254,9 @@ std::map<ReferencePointId, double> calcRpWeightsKnn(
       {
         double apW = trWeights[it1->txId];
         rpNormalize[rpId] += apW;
-        double weight = std::max(fabs(it1->rssiDatabase + it1->rssiMeasured) * apW, MIN_RP_WEIGHT);
+        // the radiomap may hold signal levels with either sign, see LevelEstimatorRadiomap::calcWeight()
+        double difference = fabs(fabs(it1->rssiDatabase) - fabs(it1->rssiMeasured));
+        double weight = std::max(difference * apW, MIN_RP_WEIGHT);
         rpWeights[rpId] += weight;
       }
     }
-- 
2.43.0


From 4d445a2dba426a100342df49808ea90b35e9cf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 09/47] fix: a level that cannot be triangulated must not
 disable the levels after it

---
 src/knn/knn_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index 5a2755f..453620f 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -55,7 +55,7 @@ std::map<LevelId, std::vector<RefPointsTriangle>> triangulate(const std::shared_
       if (triangles.empty())
       {
         // triangulation failed!
-        return levelTriangles;
+        continue;
       }
 #ifdef DEBUG_OUTPUT_TRIANGULATION
       std::ofstream debugOs;
-- 
2.43.0


From 1e771d80ffcdd5196a0a6615a0cadbe257ebb3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 10/47] fix: do not use GPS fixes worse than the maximum
 accepted deviation

---
 src/position_estimator/position_estimator_outdoor.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index 385b9ff..420a9a5 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -96,11 +96,15 @@ Position PositionEstimatorOutdoor::calculatePosition(
   GpsPosition gpsPos = extractGpsPosition(ts, sensorEntry);
   int totalNumSats = extractNumberOfSatellites(nmeaEntry);
 
-  if (flagIndoorPos || (gpsPos.deviation > mMaxGpsDeviation))
+  const bool isGpsTooInaccurate = gpsPos.deviation > mMaxGpsDeviation;
+  if (flagIndoorPos || isGpsTooInaccurate)
   {
     mSigmaFilter.clear(); //If there is indoor solution then clear sigma filter GNSS buffer.
   }
 
+  if (isGpsTooInaccurate)
+    gpsPos = GpsPosition();
+
   if (gpsPos.isEmpty)
   {
     double timeSinceLastGpsPosition = (ts - mLastGpsPosition.ts) / 1000.0;
-- 
2.43.0


From 8f2fabb45a12e3fff126ad12bc5dc0be553a6487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 11/47] fix: no pop from an empty buffer when the sigma filter
 window is zero

---
 src/position_estimator/position_estimator_outdoor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index 420a9a5..99d968f 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -11,6 +11,9 @@ namespace navigation_core {
 
 bool SigmaFilter::add(const XYPoint& point)
 {
+  if (mSigmaWindow == 0)
+    return true; // nothing to compare with
+
   bool pntValid = false;
   if (mGNSSbuffer.size() == mSigmaWindow) {
     double sumX = 0;
-- 
2.43.0


From c3d478f3d6988b0a94d040b6e86de3475979ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 12/47] fix: while standing still, hold only a position that
 exists on this level

Without any output yet, or after a change of level, the stop branch held the
empty position or the coordinates of another level.
---
 src/position_postprocessor/position_postprocessor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index 0fc7a76..a646334 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -192,7 +192,8 @@ Position PositionPostprocessor::getProcessedPosition(const Position& fusedPositi
   bool newPositionIsNotTooFar = dist < mStopsDistThresholdM;
 
   mLastOutPosition.ts = ts;
-  if (mUseStops && lastStepWasTooLongAgo)
+  bool hasPositionToHold = !mLastOutPosition.isEmpty && mLastOutPosition.levelId == result.levelId;
+  if (mUseStops && lastStepWasTooLongAgo && hasPositionToHold)
   {
     if ((ts - mLastExtractionTs > mStopUpdateTimeMs) && newPositionIsNotTooFar)
     {
-- 
2.43.0


From a842e4259b8361e7f8c6c374d9b7f16100fa025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 13/47] fix: report the accuracy of the chosen position, not of
 the indoor one

GNSS and fused positions were reported with the indoor deviation, zero when there
has been no indoor position at all.
---
 src/position_postprocessor/position_postprocessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index a646334..a0a218a 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -210,7 +210,7 @@ Position PositionPostprocessor::getProcessedPosition(const Position& fusedPositi
   {
     mLastOutPosition = result;
     mLastOutPosition.ts = ts;
-    mLastOutPosition.deviationM = mIndoorPos.deviationM;
+    mLastOutPosition.deviationM = fusedPosition.deviationM;
   }
 
 
-- 
2.43.0


From 47a2196ff12a333a7162b576619c94afc7341f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 14/47] fix: never mix the coordinates of different levels

Each level has an origin of its own, but a GPS position of the first level that
covers it, or a position left from the previous level, was blended with, and
fitted into the box of, the current one.
---
 src/navigation_client_impl.cpp                | 24 +++++++++++++++++--
 .../position_postprocessor.cpp                |  2 +-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/navigation_client_impl.cpp b/src/navigation_client_impl.cpp
index 65fc10d..c2827d2 100644
--- a/src/navigation_client_impl.cpp
+++ b/src/navigation_client_impl.cpp
@@ -11,6 +11,21 @@
 namespace navigine {
 namespace navigation_core {
 
+namespace {
+
+// GPS knows nothing of levels: express its position in the coordinates of the given level
+Position moveToLevel(const Position& pos, const Level& from, const Level& to)
+{
+  const XYPoint point = gpsToLocal(localToGps(XYPoint(pos.x, pos.y), from.bindingPoint()), to.bindingPoint());
+  Position result = pos;
+  result.x = point.x;
+  result.y = point.y;
+  result.levelId = to.id();
+  return result;
+}
+
+}
+
 NavigationClientImpl::NavigationClientImpl(
     const std::shared_ptr<LevelCollector>& levelCollector,
     const NavigationSettings& navProps)  
@@ -83,7 +98,12 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
       if (!indoorPos.isEmpty)
         mFlagIndoorPos = true;
 
-      const Position fusedPos = mPositionPostprocessor->fusePositions(curTs, indoorPos, outdoorPos, retStatus);
+      const Position outdoorLevelPos = outdoorPos.isEmpty || outdoorPos.levelId == levelId
+                                     ? outdoorPos
+                                     : moveToLevel(outdoorPos, mLevelIndex->level(outdoorPos.levelId), level);
+      const Position fusedPos = mPositionPostprocessor->fusePositions(curTs, indoorPos, outdoorLevelPos, retStatus);
+      // the last known indoor or outdoor position can still be on the previous level
+      const Level& fusedLevel = fusedPos.isEmpty ? level : mLevelIndex->level(fusedPos.levelId);
 
       if (!fusedPos.isEmpty && mPrevFusedPosHeading.is_initialized() && (fusedPos.heading != mPrevFusedPosHeading.get()))
       {
@@ -100,7 +120,7 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
       if (!fusedPos.isEmpty)
         mPrevFusedPosHeading = fusedPos.heading;
 
-      mPosition = mPositionPostprocessor->getProcessedPosition(fusedPos, curTs, motionInfo, level);
+      mPosition = mPositionPostprocessor->getProcessedPosition(fusedPos, curTs, motionInfo, fusedLevel);
       if (!motionInfo.isAzimuthValid) {
         motionInfo.azimuth = - (fusedPos.heading - M_PI_2); // convert from ENU to NED
       }
diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index a0a218a..ca63dff 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -104,7 +104,7 @@ Position PositionPostprocessor::fusePositions(
   double positionsDist = GetDist(mIndoorPos.x, mIndoorPos.y, mOutdoorPos.x, mOutdoorPos.y);
   double accuracyDist = mIndoorPos.deviationM + mOutdoorPos.deviationM + mFuseGpsBorderM;
 
-  if (mFuseGps && (accuracyDist > positionsDist))
+  if (mFuseGps && mIndoorPos.levelId == mOutdoorPos.levelId && (accuracyDist > positionsDist))
   {
     Position fusedPos = mIndoorPos;
     fusedPos.ts = std::max(mIndoorPos.ts, mOutdoorPos.ts);
-- 
2.43.0


From cc26b690cff8cad4a2c137a8a67c9ea3340519f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 15/47] fix: a singular fit must not poison the least-squares
 smoother for good

---
 src/position_postprocessor/polynomial_fit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/position_postprocessor/polynomial_fit.cpp b/src/position_postprocessor/polynomial_fit.cpp
index c65eb33..7e3a8f3 100644
--- a/src/position_postprocessor/polynomial_fit.cpp
+++ b/src/position_postprocessor/polynomial_fit.cpp
@@ -68,7 +68,8 @@ double PolynomialFit::predict(double x)
     out = getLeastSquaresSolution(x);
     out = out * slnCoef + mLastOutput * (1.0 - slnCoef);
   }
-  mLastOutput = out;
+  if (std::isfinite(out))
+    mLastOutput = out;
   return out;
 }
 
-- 
2.43.0


From 32e9e1beb319a765a6f55519e36fd494b0df7e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 16/47] fix: add a level completely or not at all when memory
 runs out

When the index insertion failed the level was already listed but could not be
looked up, and the next navigate() that detected it threw.
---
 src/level_collector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/level_collector.cpp b/src/level_collector.cpp
index 9bb5431..6d9dcd7 100644
--- a/src/level_collector.cpp
+++ b/src/level_collector.cpp
@@ -172,8 +172,9 @@ void LevelCollector::addGeoLevel(const GeoLevel& geoLevel)
   level.setReferencePoints(getRefPointsInLocalCoordinates(binding, geoLevel.referencePoints));
   level.setGraph(getGraphInLocalCoordinates(binding, geoLevel.graph));
 
+  mLevels.reserve(mLevels.size() + 1); // so that nothing fails between the two insertions
+  mLevelsIndices.insert({levelId, mLevels.size()});
   mLevels.push_back(std::move(level));
-  mLevelsIndices.insert({levelId, mLevels.size() - 1});
 }
 
 } } // namespace navigine::navigation_core
-- 
2.43.0


From a74d9ef8924c1cc1d83cabe3787b57449b037b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 17/47] fix: load Eddystone measurements as Eddystone, not as
 Wi-Fi

---
 tools/verification/helpers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 73ebe23..2a8da4b 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -22,6 +22,7 @@ NLOHMANN_JSON_SERIALIZE_ENUM(navigine::navigation_core::RadioMeasurementData::Ty
   {navigine::navigation_core::RadioMeasurementData::Type::WIFI, 201},
   {navigine::navigation_core::RadioMeasurementData::Type::BEACON, 203},
   {navigine::navigation_core::RadioMeasurementData::Type::BLUETOOTH, 202},
+  {navigine::navigation_core::RadioMeasurementData::Type::EDDYSTONE, 204},
   {navigine::navigation_core::RadioMeasurementData::Type::WIFI_RTT, 205}
 })
 
-- 
2.43.0


From d1ee2b2f9cb058af476de181aa553a7bbf450f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 18/47] fix: skip log lines that are torn or of an unknown type

A line torn by a crash of the recorder made the whole log unreadable, and a line
of an unknown type became a radio measurement with an uninitialised type.
---
 tools/verification/helpers.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 2a8da4b..86f0e87 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -5,6 +5,7 @@
 #include <iostream>
 #include <fstream>
 #include <sstream>
+#include <stdexcept>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -106,7 +107,7 @@ static void from_json(const nlohmann::json& j, Measurement& msr)
   else if (msrType == 300)
     msr.data = j.get<NmeaMeasurementData>();
   else
-    std::cerr << "Unknown measurement." << std::endl;
+    throw std::runtime_error("Unknown measurement type " + std::to_string(msrType));
 }
 
 static void from_json(const nlohmann::json& j, CommonSettings& commonSettings)
@@ -325,8 +326,15 @@ std::vector<Measurement> GetNavMessages(const std::string& jsonFile)
   std::string line;
   while (std::getline(infile, line))
   {
-    auto j = nlohmann::json::parse(line);
-    inputs.emplace_back(j.get<Measurement>());
+    try
+    {
+      auto j = nlohmann::json::parse(line);
+      inputs.emplace_back(j.get<Measurement>());
+    }
+    catch (const std::exception& e)
+    {
+      std::cerr << "GetNavMessages: skipping line: " << e.what() << std::endl;
+    }
   }
   return inputs;
 }
-- 
2.43.0


From eb4c369196ef3bdeb6034d45554b47caa777aa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 19/47] fix: one malformed setting must not reset all the
 settings after it

---
 tools/verification/helpers.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 86f0e87..166c13c 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -117,9 +117,9 @@ static void from_json(const nlohmann::json& j, CommonSettings& commonSettings)
   {
     keys.push_back(el.key());
   }
-  try 
+  for (const auto& key : keys)
   {
-    for (const auto& key : keys)
+    try
     {
       if (key == "Use_algorithm")
         j.at(key).get_to(commonSettings.useAlgorithm);
@@ -280,11 +280,11 @@ static void from_json(const nlohmann::json& j, CommonSettings& commonSettings)
       else
         std::cerr << "unknown setting: " << key << '\n';
     }
-  } 
-  catch (json::exception& e) 
-  {
-    std::cerr << "parsing json " << j << " following exception occurred" << '\n'
-              << "message: " << e.what() << '\n';
+    catch (json::exception& e)
+    {
+      std::cerr << "parsing json " << j << " following exception occurred" << '\n'
+                << "message: " << e.what() << '\n';
+    }
   }
 }
   
@@ -295,9 +295,9 @@ static void from_json(const nlohmann::json& j, LevelSettings& levelSettings)
   {
     keys.push_back(el.key());
   }
-  try
+  for (const auto& key : keys)
   {
-    for (const auto& key : keys)
+    try
     {
       if (key == "A")
         j.at(key).get_to(levelSettings.normalModeA);
@@ -306,11 +306,11 @@ static void from_json(const nlohmann::json& j, LevelSettings& levelSettings)
       else
         std::cerr << "unknown setting: " << key << '\n';
     }
-  }
-  catch (json::exception& e) 
-  {
-    std::cerr << "parsing json " << j << " following exception occurred" << '\n'
-              << "message: " << e.what() << '\n';
+    catch (json::exception& e)
+    {
+      std::cerr << "parsing json " << j << " following exception occurred" << '\n'
+                << "message: " << e.what() << '\n';
+    }
   }
 }
 } // nlohmann
-- 
2.43.0


From 91d9c82b558803a5f5fce89e9db8544dec5f22a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 20/47] fix: report a map file that cannot be opened instead of
 throwing

---
 tools/verification/helpers.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 166c13c..0c32829 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -610,6 +610,13 @@ GeoLevels ParseGeojson(const std::string& jsonFile, int& errorCode)
 {
   errorCode = 0;
   std::ifstream is(jsonFile);
+  if (!is.good())
+  {
+    std::cout << "ParseGeojson ERROR: CAN NOT READ FILE " << jsonFile << " !!!" << std::endl;
+    errorCode = ERROR_OPEN_FILE;
+    return GeoLevels();
+  }
+
   nlohmann::json j = nlohmann::json::parse(is);
 
   std::map<LevelId, std::list<Polygon>> levels;
-- 
2.43.0


From 9a95cd1ed655f818dee70199f41a84005e380e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 21/47] fix: trilateration must not add the previous result to
 the new one

---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index e6d2ede..500f04c 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -173,6 +173,7 @@ void Trilateration::printXyToFile( char* filename ) const
 
 int Trilateration::calculateTrilaterationCoordinates()
 {
+  mXY.assign( 2, 0.0 );
   double normalizeCoefficient = 0.0;
   //take revert values, because lower is the distance, greater the weight gets
   for (unsigned int i = 0; i < mBeaconMeas.size(); i++)
-- 
2.43.0


From dc4c5179dc7cf7fc499e08e98d985d78c5e0ffb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 22/47] fix: trilateration must use the averaged distance of
 repeated measurements

The average was computed and dropped: the distance of whichever measurement came
first after an unstable sort was used.
---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index 500f04c..891ad14 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -265,6 +265,7 @@ int Trilateration::deleteDuplicateMeasurements( vector<BeaconMeas>& beaconMeas )
     distance /= (std::max)(nOfMeasFromSameAp, 1);
      
     itBeaconMeas->setRssi( rssi );
+    itBeaconMeas->setDistance( distance );
   }
 
   if (beaconMeas.size() < 3)
-- 
2.43.0


From 3f230a780f1cd10b7874cc5bda1e1852d6884ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 23/47] fix: trilateration at zero distance from a beacon must
 not give NaN

---
 .../trilateteration/src/trilateration.cpp                  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index 891ad14..b8e7938 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -174,10 +174,11 @@ void Trilateration::printXyToFile( char* filename ) const
 int Trilateration::calculateTrilaterationCoordinates()
 {
   mXY.assign( 2, 0.0 );
+  const double minDistance = 1e-6; // a beacon at zero distance takes all the weight
   double normalizeCoefficient = 0.0;
   //take revert values, because lower is the distance, greater the weight gets
   for (unsigned int i = 0; i < mBeaconMeas.size(); i++)
-    normalizeCoefficient += 1.0 / fabs( mBeaconMeas[ i ].getDistance() );
+    normalizeCoefficient += 1.0 / (std::max)( fabs( mBeaconMeas[ i ].getDistance() ), minDistance );
 
   vector <double> weight( mBeaconMeas.size(), 0.0 );
 
@@ -190,8 +191,8 @@ int Trilateration::calculateTrilaterationCoordinates()
       return ERROR_IN_TRILATER;
     }
     // calculate probability of being at beacons x,y coordinates
-    weight[ i ] += 1.0 / (fabs( mBeaconMeas[ i ].getDistance() *
-      normalizeCoefficient ));
+    weight[ i ] += 1.0 / ((std::max)( fabs( mBeaconMeas[ i ].getDistance() ), minDistance ) *
+      normalizeCoefficient);
 
     double beaconX = 0, beaconY = 0.;
     beaconX = mBeaconMeas[ i ].getBeaconPtr()->getX();
-- 
2.43.0


From ce507746d2804e779e91356e4f004ea48cb9e218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 24/47] fix: stamp a position with the newest measurement it
 was made from

It took the time stamp of the weakest transmitter's first sample, so a newer
solution often looked older than the previous one and the smoother dropped it.
---
 .../position_estimation/src/measurement_preprocessor.cpp     | 5 +++++
 .../src/nearest_transmitter_estimator.cpp                    | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp b/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp
index 2262004..6eda885 100644
--- a/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp
+++ b/standalone_algorithms/position_estimation/src/measurement_preprocessor.cpp
@@ -146,6 +146,11 @@ std::vector<RadioMeasurement> RadioMeasurementBuffer::extractMeasurements()
     double averDistance = sumDistances / nSignals;
 
     RadioMeasurement radioMsr = *sameIdFirst;
+    radioMsr.ts = std::max_element(sameIdFirst, sameIdLast,
+                                   [](const RadioMeasurement& lhs, const RadioMeasurement& rhs)
+                                   {
+                                     return lhs.ts < rhs.ts;
+                                   })->ts;
     radioMsr.rssi = averRssi;
     radioMsr.distance = averDistance;
     measurements.push_back(radioMsr);
diff --git a/standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp b/standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp
index 7379dba..cb16bb5 100644
--- a/standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp
+++ b/standalone_algorithms/position_estimation/src/nearest_transmitter_estimator.cpp
@@ -47,7 +47,8 @@ Position NearestTransmitterPositionEstimator::calculatePosition(const RadioMeasu
     position.y = t.y;
     position.precision = std::sqrt(std::exp((A - nearestTxRssi) / B)) + 1.0;
     position.isEmpty = false;
-    position.ts = radioMeasurements.back().ts;
+    position.ts = std::max_element(radioMeasurements.begin(), radioMeasurements.end(),
+        [](const RadioMeasurement& msr1, const RadioMeasurement& msr2) {return msr1.ts < msr2.ts; })->ts;
     return m_smoother.smoothPosition(position);
   }
 }
-- 
2.43.0


From 7ff2ce6c237e0f7bb6966e3671a964d542d03af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 25/47] fix: error outputs and states must not hold
 uninitialised values

---
 include/navigine/navigation-core/navigation_output.h | 8 ++++----
 include/navigine/navigation-core/navigation_state.h  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/navigine/navigation-core/navigation_output.h b/include/navigine/navigation-core/navigation_output.h
index 17edabe..c8d1839 100644
--- a/include/navigine/navigation-core/navigation_output.h
+++ b/include/navigine/navigation-core/navigation_output.h
@@ -24,15 +24,15 @@ enum class Provider { GNSS, INDOOR, FUSED, NONE };
 
 struct NavigationOutput
 {
-  NavigationStatus status;
+  NavigationStatus status = NavigationStatus::NAVIGATION_ERROR;
 
   LevelId posLevel;       // Level identifier
   double posLatitude = 0.0;
   double posLongitude = 0.0;
   double posAltitude = 0.0;
-  double posR;           // Output radius (meters)
-  double posOrientation; // Output orientation in radians (clockwise)
-  Provider provider;
+  double posR = 0.0;           // Output radius (meters)
+  double posOrientation = 0.0; // Output orientation in radians (clockwise)
+  Provider provider = Provider::NONE;
 };
 
 } } // namespace navigine::navigation_core
diff --git a/include/navigine/navigation-core/navigation_state.h b/include/navigine/navigation-core/navigation_state.h
index ab90ba2..b12a31a 100644
--- a/include/navigine/navigation-core/navigation_state.h
+++ b/include/navigine/navigation-core/navigation_state.h
@@ -60,9 +60,9 @@ class NavigationState
     RadioMeasurementsData        mMeasurements;
     std::vector<XYParticle>  mLikelihoodMapPoints;
     std::vector<double>      mLikelihoodMapWeights;
-    double                   mHeading;
-    double                   mStepLen;
-    int                      mStepCounter;
+    double                   mHeading = 0.0;
+    double                   mStepLen = 0.0;
+    int                      mStepCounter = 0;
     XYPoint                  mIndoorPosition;
     XYPoint                  mOutdoorPosition;
 };
-- 
2.43.0


From edf9368b0a370b510f1dd2fee3569da754784a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 26/47] fix: a huge gyroscope value must not destroy the
 attitude for good

---
 src/sensor_fusion/complementary_filter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sensor_fusion/complementary_filter.cpp b/src/sensor_fusion/complementary_filter.cpp
index b48ff2f..a60600c 100644
--- a/src/sensor_fusion/complementary_filter.cpp
+++ b/src/sensor_fusion/complementary_filter.cpp
@@ -30,8 +30,10 @@ double to_minus_Pi_Pi(double x)
 Quaternion updateQuaternion(const Quaternion& q, const Vector3d& v)
 {
   Quaternion qDot = q * Quaternion(v) * 0.5;
-  Quaternion qOut = q + qDot;
-  return qOut.normalized();
+  Quaternion qOut = (q + qDot).normalized();
+  // a rotation too large to compute must not destroy the attitude for good
+  const double norm = qOut.w * qOut.w + qOut.x * qOut.x + qOut.y * qOut.y + qOut.z * qOut.z;
+  return norm > 0.5 ? qOut : q;
 }
  
 SensorMeasurement lowPassFilter(const SensorMeasurement& prevMsr, const SensorMeasurement& currMsr)
-- 
2.43.0


From abaeb539e0a39bf1560cdd02eb2e385ed1a257e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 27/47] fix: bad samples must not destroy the standalone
 filter's attitude for good

---
 .../complementary_filter/src/complementary_filter.cpp  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/standalone_algorithms/complementary_filter/src/complementary_filter.cpp b/standalone_algorithms/complementary_filter/src/complementary_filter.cpp
index 3fc0d15..b556afb 100644
--- a/standalone_algorithms/complementary_filter/src/complementary_filter.cpp
+++ b/standalone_algorithms/complementary_filter/src/complementary_filter.cpp
@@ -17,8 +17,10 @@ double to_minus_Pi_Pi(double x)
 Quaternion updateQuaternion(const Quaternion& q, const Vector3d& v)
 {
   Quaternion qDot = q * Quaternion(v) * 0.5;
-  Quaternion qOut = q + qDot;
-  return qOut.normalized();
+  Quaternion qOut = (q + qDot).normalized();
+  // a rotation too large to compute must not destroy the attitude for good
+  const double norm = qOut.w * qOut.w + qOut.x * qOut.x + qOut.y * qOut.y + qOut.z * qOut.z;
+  return norm > 0.5 ? qOut : q;
 }
  
 SensorMeasurement lowPassFilter(const SensorMeasurement& prevMsr, const SensorMeasurement& currMsr)
@@ -65,7 +67,9 @@ double ComplementaryFilter::getDeviceAzimuth() const
 /** measurements time must be in ascending order! */
 void ComplementaryFilter::update(const SensorMeasurement& msr)
 {
- 
+  if (!std::isfinite(msr.values.x) || !std::isfinite(msr.values.y) || !std::isfinite(msr.values.z))
+    return;
+
   if(msr.type == SensorMeasurement::Type::ACCELEROMETER)
   {
     mAccelLowPassed = lowPassFilter(mAccelLowPassed, msr);
-- 
2.43.0


From dfba6f0587aae09654cc3229d5fcff2961fed143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 28/47] fix: steps must not depend on how the samples are cut
 into updates

---
 .../pedometer/include/pedometer.h                  |  3 ++-
 standalone_algorithms/pedometer/src/pedometer.cpp  | 14 +++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/standalone_algorithms/pedometer/include/pedometer.h b/standalone_algorithms/pedometer/include/pedometer.h
index 9501d03..b96c653 100644
--- a/standalone_algorithms/pedometer/include/pedometer.h
+++ b/standalone_algorithms/pedometer/include/pedometer.h
@@ -44,7 +44,8 @@ public:
 
 private:
   Magnitude calculateFilteredAccMagnitudes() const;
-  double calculateStepLength(long long timeIntervalMs, std::deque<Magnitude>::const_iterator rightBorderIt);
+  double calculateStepLength(long long timeIntervalMs, std::deque<Magnitude>::const_iterator firstIt,
+                             std::deque<Magnitude>::const_iterator rightBorderIt);
 
   //we use deque in order to fast delete measurements of the array when we got new ones
   std::deque<SensorMeasurement> mAccelMeasurements;     // Array for saving acceleration measurements
diff --git a/standalone_algorithms/pedometer/src/pedometer.cpp b/standalone_algorithms/pedometer/src/pedometer.cpp
index 9624911..8940ae2 100644
--- a/standalone_algorithms/pedometer/src/pedometer.cpp
+++ b/standalone_algorithms/pedometer/src/pedometer.cpp
@@ -94,8 +94,15 @@ std::deque<Step> Pedometer::calculateSteps()
   averageStepTime /= nSteps;
   double timeBetweenSteps = std::max(1.0 * MIN_TIME_BETWEEN_STEPS_MS, 0.6 * averageStepTime);
 
+  size_t first = 0;
   for (size_t i = mMagnitudeSize; i < mFilteredAccMagnitudes.size(); i++)
   {
+    // use only the magnitudes that would still be there had this sample come in an update of its own
+    while (mFilteredAccMagnitudes[i-1].ts - mFilteredAccMagnitudes[first].ts > 2 * UPDATE_TIME_INTERVAL_MS)
+      first++;
+    if (i - first < 3)
+      continue;
+
     Magnitude curAcc  = mFilteredAccMagnitudes[i];
     Magnitude prevAcc = mFilteredAccMagnitudes[i-1];
     
@@ -112,7 +119,7 @@ std::deque<Step> Pedometer::calculateSteps()
 
     if (mIsStep)
     {
-      double stepLength = calculateStepLength(UPDATE_TIME_INTERVAL_MS, mFilteredAccMagnitudes.begin()+i);
+      double stepLength = calculateStepLength(UPDATE_TIME_INTERVAL_MS, mFilteredAccMagnitudes.begin()+first, mFilteredAccMagnitudes.begin()+i);
       if (mPossibleStepTs - mStepTime < MAX_STEP_TIME)
           mTimes.push_back(mPossibleStepTs - mStepTime);
 
@@ -131,11 +138,12 @@ std::deque<Step> Pedometer::calculateSteps()
   return steps;
 }
 
-double Pedometer::calculateStepLength(long long timeIntervalMs, std::deque<Magnitude>::const_iterator rightBorderIt)
+double Pedometer::calculateStepLength(long long timeIntervalMs, std::deque<Magnitude>::const_iterator firstIt,
+                                      std::deque<Magnitude>::const_iterator rightBorderIt)
 {
   std::deque<Magnitude>::const_iterator leftBorderIt = rightBorderIt;
   while (rightBorderIt->ts - leftBorderIt->ts <= timeIntervalMs &&
-         leftBorderIt != mFilteredAccMagnitudes.begin() )
+         leftBorderIt != firstIt)
     leftBorderIt--;
 
   double maxMagn      = std::max_element(leftBorderIt, rightBorderIt,
-- 
2.43.0


From fc2374190d656a0e9a81bf9f68646af1852a7697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 29/47] fix: a repeated position must not freeze the
 least-squares smoother's window

---
 src/position_postprocessor/polynomial_fit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/position_postprocessor/polynomial_fit.cpp b/src/position_postprocessor/polynomial_fit.cpp
index 7e3a8f3..eea9916 100644
--- a/src/position_postprocessor/polynomial_fit.cpp
+++ b/src/position_postprocessor/polynomial_fit.cpp
@@ -24,7 +24,7 @@ void PolynomialFit::addSequencePoint(double x, double y)
     if (mY.empty())
         mCoeff.assign(mPower + 1, 0.);
 
-    if (mY.empty() || mY.back() != y)
+    if (mX.empty() || mX.back() != x)
     {
         mY.push_back(y);
         mX.push_back(x);
-- 
2.43.0


From 06d52fe19fe9515c11b2939514692510cdbc8bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 30/47] fix: a clock that jumps back must not make the accuracy
 negative

---
 src/position_postprocessor/position_postprocessor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/position_postprocessor/position_postprocessor.cpp b/src/position_postprocessor/position_postprocessor.cpp
index ca63dff..3ad9507 100644
--- a/src/position_postprocessor/position_postprocessor.cpp
+++ b/src/position_postprocessor/position_postprocessor.cpp
@@ -55,14 +55,14 @@ void PositionPostprocessor::fillIndoorOutdoorPositionStates(
 {
   if (!indoorPos.isEmpty)
   {
-    double priorIndoorDev = mIndoorPos.isEmpty ? mPriorDev : std::min(mPriorDev, mIndoorDev + mMotionSpeed * (indoorPos.ts - mIndoorPos.ts) / 1000.0);
+    double priorIndoorDev = mIndoorPos.isEmpty ? mPriorDev : std::min(mPriorDev, mIndoorDev + mMotionSpeed * std::max(0LL, indoorPos.ts - mIndoorPos.ts) / 1000.0);
     mIndoorPos = indoorPos;
     mIndoorDev = (priorIndoorDev + indoorPos.deviationM) / 2.0;
   }
 
   if (!outdoorPos.isEmpty)
   {
-    double priorOutdoorDev = mOutdoorPos.isEmpty ? mPriorDev : std::min(mPriorDev, mOutdoorDev + mMotionSpeed * (outdoorPos.ts - mOutdoorPos.ts) / 1000.0);
+    double priorOutdoorDev = mOutdoorPos.isEmpty ? mPriorDev : std::min(mPriorDev, mOutdoorDev + mMotionSpeed * std::max(0LL, outdoorPos.ts - mOutdoorPos.ts) / 1000.0);
     mOutdoorDev = (priorOutdoorDev + outdoorPos.deviationM) / 2.0;
     mOutdoorPos = outdoorPos;
   }
-- 
2.43.0


From a1834b30857461ef6cb2e2376c6e05fd7d785a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 31/47] fix: ignore radio values no device can measure, they
 overflow to NaN positions

---
 src/measurements/measurement_preprocessor.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/measurements/measurement_preprocessor.cpp b/src/measurements/measurement_preprocessor.cpp
index caa9dba..0597a32 100644
--- a/src/measurements/measurement_preprocessor.cpp
+++ b/src/measurements/measurement_preprocessor.cpp
@@ -71,9 +71,15 @@ RadioMeasurementBuffer createRadioMeasurementBuffer(
   return RadioMeasurementBuffer(keepRadioTimeMs, sigWindowShift, stopDetectTime, rssiBias, useStops);
 }
 
-bool isFinite(const RadioMeasurementData& measurement)
+// values no device can measure overflow in the position estimators
+const double MAX_SIGNAL_LEVEL_DBM = 1000.0;
+const double MAX_SIGNAL_DISTANCE_M = 1e6;
+
+bool isPlausible(const RadioMeasurementData& measurement)
 {
-  return std::isfinite(measurement.rssi) && std::isfinite(measurement.power) && std::isfinite(measurement.distance);
+  return std::fabs(measurement.rssi)     <= MAX_SIGNAL_LEVEL_DBM
+      && std::fabs(measurement.power)    <= MAX_SIGNAL_LEVEL_DBM
+      && std::fabs(measurement.distance) <= MAX_SIGNAL_DISTANCE_M;
 }
 
 bool isFinite(const SensorMeasurementData& measurement)
@@ -185,7 +191,7 @@ long long MeasurementsPreprocessor::getLastSignalTs() const
 boost::optional<RadioMeasurementData> MeasurementsPreprocessor::getValidSignalEntry(
   const RadioMeasurementData& entry) const
 {
-  if (!isFinite(entry))
+  if (!isPlausible(entry))
     return boost::none;
 
   bool isTransmitterValid = mUseUnknownTxs
-- 
2.43.0


From 8d1d83c59ef5a8b5e271278002f3a9ac5f5f2ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:49 +0000
Subject: [PATCH 32/47] fix: ignore a GPS location that is not on Earth

---
 src/position_estimator/position_estimator_outdoor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index 99d968f..89ce27a 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -71,6 +71,8 @@ GpsPosition PositionEstimatorOutdoor::extractGpsPosition(long long ts, const boo
   {
     double lat = sensorMsr->data.values.x;
     double lng = sensorMsr->data.values.y;
+    if (std::fabs(lat) > 90.0 || std::fabs(lng) > 360.0)
+      return GpsPosition(); // not a place on Earth
     double dev = std::max(sensorMsr->data.values.z, mMinGpsDeviation);
     GpsPosition pos = GpsPosition(lat, lng, dev, ts);
     return pos;
-- 
2.43.0


From 124403cdf1ae2bd26b3dde2723162bbb02431d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 33/47] fix: a failed allocation must not leave the
 least-squares window with an x but no y

---
 src/position_postprocessor/polynomial_fit.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/position_postprocessor/polynomial_fit.cpp b/src/position_postprocessor/polynomial_fit.cpp
index eea9916..c40effb 100644
--- a/src/position_postprocessor/polynomial_fit.cpp
+++ b/src/position_postprocessor/polynomial_fit.cpp
@@ -26,8 +26,16 @@ void PolynomialFit::addSequencePoint(double x, double y)
 
     if (mX.empty() || mX.back() != x)
     {
-        mY.push_back(y);
         mX.push_back(x);
+        try
+        {
+            mY.push_back(y);
+        }
+        catch (...)
+        {
+            mX.pop_back(); // both or none
+            throw;
+        }
         removeOldPoints();
         if ((int)mY.size() > mPower)
             getLeastSquaresCoeff();
-- 
2.43.0


From 968db0ed8236cde48dc731212445c53b0f6ba4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 34/47] fix: ignore a GPS location whose accuracy is beyond the
 size of the Earth

---
 src/position_estimator/position_estimator_outdoor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index 89ce27a..c9dca77 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -9,6 +9,8 @@
 namespace navigine {
 namespace navigation_core {
 
+static const double MAX_GPS_ACCURACY_M = 1e7;
+
 bool SigmaFilter::add(const XYPoint& point)
 {
   if (mSigmaWindow == 0)
@@ -73,6 +75,8 @@ GpsPosition PositionEstimatorOutdoor::extractGpsPosition(long long ts, const boo
     double lng = sensorMsr->data.values.y;
     if (std::fabs(lat) > 90.0 || std::fabs(lng) > 360.0)
       return GpsPosition(); // not a place on Earth
+    if (sensorMsr->data.values.z > MAX_GPS_ACCURACY_M)
+      return GpsPosition(); // overflows when it is used as a weight
     double dev = std::max(sensorMsr->data.values.z, mMinGpsDeviation);
     GpsPosition pos = GpsPosition(lat, lng, dev, ts);
     return pos;
-- 
2.43.0


From c1bb82f22134c582bfd4c7f50bdd67d9e6893af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 35/47] fix: a satellites-only position must follow the
 configured azimuth convention

---
 src/navigation_client_impl.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/navigation_client_impl.cpp b/src/navigation_client_impl.cpp
index c2827d2..1310a75 100644
--- a/src/navigation_client_impl.cpp
+++ b/src/navigation_client_impl.cpp
@@ -124,13 +124,13 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
       if (!motionInfo.isAzimuthValid) {
         motionInfo.azimuth = - (fusedPos.heading - M_PI_2); // convert from ENU to NED
       }
-
-      if (mUseEnuAzimuth)
-        motionInfo.azimuth = -motionInfo.azimuth + M_PI_2; // convert from NED to ENU
     }
     else if (!outdoorPos.isEmpty)
     {
       mPosition = outdoorPos;
+      if (!motionInfo.isAzimuthValid) {
+        motionInfo.azimuth = - (outdoorPos.heading - M_PI_2); // convert from ENU to NED
+      }
     }
     else
     {
@@ -138,6 +138,9 @@ std::vector<NavigationOutput> NavigationClientImpl::navigate(const std::vector<M
       retStatus = NavigationStatus::NO_LEVEL;
     }
 
+    if (mUseEnuAzimuth)
+      motionInfo.azimuth = -motionInfo.azimuth + M_PI_2; // convert from NED to ENU
+
     // Filling navigationSate for Debug
     auto navigationState = mPositionEstimatorIndoor->getParticleFilterState();
     navigationState.setStepCounter(motionInfo.stepCounter);
-- 
2.43.0


From 733231725d5b4b2609ec7f39a4a8c3f2373db5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 36/47] fix: a sensor record without three values must not be
 loaded as zeros

---
 tools/verification/helpers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 0c32829..f7bc67d 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -70,8 +70,9 @@ static void from_json(const nlohmann::json& j, SensorMeasurementData& sensorMsr)
   j.at("type").get_to(sensorMsr.type);
   std::vector<double> values;
   j.at("values").get_to(values);
-  if (values.size() == 3)
-    sensorMsr.values = Vector3d(values.at(0), values.at(1), values.at(2));
+  if (values.size() != 3)
+    throw std::runtime_error("Wrong number of sensor values " + std::to_string(values.size()));
+  sensorMsr.values = Vector3d(values.at(0), values.at(1), values.at(2));
 }
 
 static void from_json(const nlohmann::json& j, RadioMeasurementData& radioMsr)
-- 
2.43.0


From b1b10c825023f6d5cdffb9783cb800eed79d3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 37/47] fix: load each graph vertex once, not once more per
 neighbour

---
 tools/verification/helpers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index f7bc67d..69b2265 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -446,8 +446,9 @@ std::pair<LevelId, Graph<GeoPoint>> parseGraph(const nlohmann::json& j)
     int v1 = it.first;
     std::set<int> adjacentVertexes = it.second;
     GeoPoint p1 = vertexMap[v1];
-    Graph<GeoPoint>::Vertex vertex1 = graph.addVertex(p1);
-    addedVertices.insert({v1, vertex1});
+    if (addedVertices.find(v1) == addedVertices.end())
+      addedVertices.insert({v1, graph.addVertex(p1)});
+    Graph<GeoPoint>::Vertex vertex1 = addedVertices[v1];
     for (int v2: adjacentVertexes)
     {
       if (addedVertices.find(v2) == addedVertices.end())
-- 
2.43.0


From fe2a7e5377440eece9ec96b4702b762f7579216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 38/47] fix: a graph edge without two points must be reported,
 not abort or be read out of bounds

---
 tools/verification/helpers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 69b2265..e39e919 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -424,7 +424,8 @@ std::pair<LevelId, Graph<GeoPoint>> parseGraph(const nlohmann::json& j)
   std::map<int, std::set<int>> adjset;
   for (std::vector<GeoPoint>& edge: edgesPoints)
   {
-    assert(edge.size() == 2);
+    if (edge.size() != 2)
+      throw std::runtime_error("Graph edge must have two points");
     GeoPoint p1 = edge[0];
     int v1 = getVertex(p1, vertexMap);
     GeoPoint p2 = edge[1];
-- 
2.43.0


From 61ab5711e60bced42707e8d0106aba133c62d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 39/47] fix: no read out of bounds when a level has an empty
 list of settings

---
 tools/verification/helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index e39e919..40265d3 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -734,7 +734,7 @@ NavigationSettings CreateSettingsFromJson(
   for (const auto& levelSettingsJson: levelsSettingsJson)
   {
     std::string levelId = levelSettingsJson.at("level");
-    navigationSettings.levelsSettings[LevelId(levelId)] = levelSettingsJson.at("settings")[0].get<LevelSettings>();
+    navigationSettings.levelsSettings[LevelId(levelId)] = levelSettingsJson.at("settings").at(0).get<LevelSettings>();
   }
   navigationSettings.commonSettings = j.at("common_settings")[0].get<CommonSettings>();
 
-- 
2.43.0


From bc93bda900201f3ca4e5b0493ee33d67765d8787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 40/47] fix: samples of several updates must not be lost before
 steps are calculated

---
 standalone_algorithms/pedometer/include/pedometer.h | 2 +-
 standalone_algorithms/pedometer/src/pedometer.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/standalone_algorithms/pedometer/include/pedometer.h b/standalone_algorithms/pedometer/include/pedometer.h
index b96c653..07cc19d 100644
--- a/standalone_algorithms/pedometer/include/pedometer.h
+++ b/standalone_algorithms/pedometer/include/pedometer.h
@@ -52,7 +52,7 @@ private:
   std::deque<Magnitude>         mFilteredAccMagnitudes; // Array for saving filtered acceleration magnitudes
   std::deque<long long>         mTimes;                 // Array for saving step durations
  
-  std::size_t mMagnitudeSize  =  0;
+  std::size_t mMagnitudeSize  =  1;                      // The first magnitude not yet checked for a step
   long long   mPossibleStepTs = -1;                     // The time when step possibly occurred (sec in unix)
   long long   mStepTime       = -1;                     // The time when previous step possibly occured (sec in unix)
   bool        mIsStep         = false;                  // We use this variable to mark possible step
diff --git a/standalone_algorithms/pedometer/src/pedometer.cpp b/standalone_algorithms/pedometer/src/pedometer.cpp
index 8940ae2..b896468 100644
--- a/standalone_algorithms/pedometer/src/pedometer.cpp
+++ b/standalone_algorithms/pedometer/src/pedometer.cpp
@@ -22,8 +22,6 @@ namespace {
 
 void Pedometer::update(const std::vector<SensorMeasurement>& msrs)
 {
-  mMagnitudeSize = (std::max)(mFilteredAccMagnitudes.size(), size_t(1));
-
   for (auto msr: msrs)
   {
     mAccelMeasurements.push_back(msr);
@@ -132,6 +130,8 @@ std::deque<Step> Pedometer::calculateSteps()
   while(mFilteredAccMagnitudes.back().ts - mFilteredAccMagnitudes.front().ts > 2 * UPDATE_TIME_INTERVAL_MS)
     mFilteredAccMagnitudes.pop_front();
 
+  mMagnitudeSize = mFilteredAccMagnitudes.size();
+
   while (mTimes.size() > MAXIMUM_NUMBER_OF_STEPS) 
     mTimes.pop_front();  
 
-- 
2.43.0


From 78c7730eb9845c5779276479e5f820df0d4910b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 41/47] fix: a distance that is not a finite number must be
 reported, not give a NaN position

---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index b8e7938..e44cf55 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -10,6 +10,7 @@
 #endif
 
 #include <algorithm>
+#include <cmath>
 
 #include "trilateration.h"
 
@@ -231,7 +232,7 @@ int Trilateration::deleteDuplicateMeasurements( vector<BeaconMeas>& beaconMeas )
     {
       nOfMeasFromSameAp++;
 
-      if ( it->getDistance() < 0)
+      if ( !std::isfinite( it->getDistance() ) || it->getDistance() < 0)
       {
         printf( "beacon id = %s distance = %lf < 0\n", 
                 it->getBeaconId(), it->getDistance() );
-- 
2.43.0


From 6c55c839d3661fdf997590ad7ba1165caa9cf5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 42/47] fix: a trilateration round must not consume the
 measurements of the next one

---
 .../trilateteration/src/trilateration.cpp             | 11 +++++++++++
 .../trilateteration/src/trilateration.h               |  1 +
 2 files changed, 12 insertions(+)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index e44cf55..dbd4a9e 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -54,6 +54,17 @@ void Trilateration::fillLocationBeacons( std::vector <Beacon>& beaconsOnFloor )
 
 
 int Trilateration::calculateCoordinates()
+{
+  // the calculation averages and filters the measurements: keep them as they
+  // were received for the next one, which may use other location beacons
+  const std::vector<BeaconMeas> receivedMeas = mBeaconMeas;
+  const int errorCode = processMeasurements();
+  mBeaconMeas = receivedMeas;
+  return errorCode;
+}
+
+
+int Trilateration::processMeasurements()
 {
   int errorCode = deleteDuplicateMeasurements( Trilateration::mBeaconMeas );
 
diff --git a/standalone_algorithms/trilateteration/src/trilateration.h b/standalone_algorithms/trilateteration/src/trilateration.h
index 1cd986e..b863ffd 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.h
+++ b/standalone_algorithms/trilateteration/src/trilateration.h
@@ -68,6 +68,7 @@ class Trilateration
     
     std::string              mErrorMessage;         //descriptive error message
 
+    int processMeasurements( );                     //average, filter and calculate coordinates
     int calculateTrilaterationCoordinates( );       //calculate coordinates (when data is prepared)
 
     int deleteDuplicateMeasurements (std::vector<BeaconMeas>& BeaconMeasurements );
-- 
2.43.0


From 43e6571f265a2b82f1d3e9d88e4701b1a05aaf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:07 +0000
Subject: [PATCH 43/47] fix: the height above a beacon must follow from the
 horizontal distance to it

---
 src/trilateration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trilateration.cpp b/src/trilateration.cpp
index f55ee26..5bff23c 100644
--- a/src/trilateration.cpp
+++ b/src/trilateration.cpp
@@ -104,7 +104,7 @@ boost::optional<double> Trilateration::calculateAltitude(const Level& level, con
     for (const auto& msr : radioMsrs)
     {
       Transmitter<XYZPoint> tx = level.transmitter(msr.id);
-      double deltaZ = std::sqrt(pow(msr.distance, 2) - pow((x - tx.point.x), 2 - pow((y - tx.point.y), 2)));
+      double deltaZ = std::sqrt(pow(msr.distance, 2) - pow((x - tx.point.x), 2) - pow((y - tx.point.y), 2));
       if (!std::isnan(deltaZ))
       {
         nanFlag = false;
-- 
2.43.0


From eedbf2bc0c35ad27dae213e387f1477e1ff243cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:04 +0000
Subject: [PATCH 44/47] fix: the device's azimuth must grow old while all
 sensors are silent

Its age was measured with the time of the last sensor sample, so once all
sensors stalled it counted as fresh for ever.
---
 src/sensor_fusion/complementary_filter.cpp | 4 ++--
 src/sensor_fusion/complementary_filter.h   | 2 +-
 src/sensor_fusion/sensor_fusion.cpp        | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sensor_fusion/complementary_filter.cpp b/src/sensor_fusion/complementary_filter.cpp
index a60600c..7b51659 100644
--- a/src/sensor_fusion/complementary_filter.cpp
+++ b/src/sensor_fusion/complementary_filter.cpp
@@ -118,9 +118,9 @@ void ComplementaryFilter::update(const SensorMeasurement& msr)
   return;
 }
 
-bool ComplementaryFilter::isDeviceAzimuthOutdated() const
+bool ComplementaryFilter::isDeviceAzimuthOutdated(long long currentTs) const
 {
-  double dt = static_cast<double>(mCurrentTs - mLastDeviceAzimuthTs) / 1000.0;
+  double dt = static_cast<double>(currentTs - mLastDeviceAzimuthTs) / 1000.0;
   if (dt > mDeviceAzimuthLifetimeSeconds || mLastDeviceAzimuthTs == -1)
     return true;
   else
diff --git a/src/sensor_fusion/complementary_filter.h b/src/sensor_fusion/complementary_filter.h
index 855450a..b9a116a 100644
--- a/src/sensor_fusion/complementary_filter.h
+++ b/src/sensor_fusion/complementary_filter.h
@@ -49,7 +49,7 @@ class ComplementaryFilter
     double      getGyroHeading() const;
     Orientation getFusedOrientation() const;
     void        update(const SensorMeasurement& msr);
-    bool        isDeviceAzimuthOutdated() const;
+    bool        isDeviceAzimuthOutdated(long long currentTs) const;
   
   private:
     void   updateUsingGyroscope     (const SensorMeasurement& gyro);
diff --git a/src/sensor_fusion/sensor_fusion.cpp b/src/sensor_fusion/sensor_fusion.cpp
index 12ae688..27eaf94 100644
--- a/src/sensor_fusion/sensor_fusion.cpp
+++ b/src/sensor_fusion/sensor_fusion.cpp
@@ -33,7 +33,7 @@ MotionInfo SensorFusion::calculateDisplacement(const boost::optional<SensorMeasu
     motionInfo.azimuth = mComplFilter.getMagneticAzimuth();
     motionInfo.isAzimuthValid = true;
   }
-  else if (!mComplFilter.isDeviceAzimuthOutdated())
+  else if (!mComplFilter.isDeviceAzimuthOutdated(tsMs))
   {
     motionInfo.azimuth = mComplFilter.getDeviceAzimuth();
     motionInfo.isAzimuthValid = true;
-- 
2.43.0


From ba3830e833e7075e835989743c562e5c2067fe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:04 +0000
Subject: [PATCH 45/47] fix: the first detected level needs no change of
 pressure

With enough pressure samples collected before the first radio signal there is
no previous level to keep, and navigation stayed without one until the
pressure changed by two metres of height.
---
 src/level_estimator/barometer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/level_estimator/barometer.cpp b/src/level_estimator/barometer.cpp
index c0a0cc8..4574d82 100644
--- a/src/level_estimator/barometer.cpp
+++ b/src/level_estimator/barometer.cpp
@@ -85,7 +85,11 @@ void Barometer::updateLevel(LevelId levelId)
   if ((mNewMeasurements.size() > SIZE_OF_CHUNK)
           && (mStoredMeasurements.size() >= SIZE_OF_CHUNK))
   {
-    if (mLastKnownLevel != levelId)
+    if (mLastKnownLevel.value.empty())
+    {
+      mLastKnownLevel = levelId; // the first known level needs no change of pressure
+    }
+    else if (mLastKnownLevel != levelId)
     {
       double curMean = calcMean(mNewMeasurements);
       double lastMean = calcMean(mStoredMeasurements);
-- 
2.43.0


From 5ae18a3df19cfc5a13b3e7444ba57e7618b3d64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:41 +0000
Subject: [PATCH 46/47] fix: a level is not announced when copying its
 identifier runs out of memory

---
 src/level_collector.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/level_collector.cpp b/src/level_collector.cpp
index 6d9dcd7..9fe3e24 100644
--- a/src/level_collector.cpp
+++ b/src/level_collector.cpp
@@ -172,9 +172,16 @@ void LevelCollector::addGeoLevel(const GeoLevel& geoLevel)
   level.setReferencePoints(getRefPointsInLocalCoordinates(binding, geoLevel.referencePoints));
   level.setGraph(getGraphInLocalCoordinates(binding, geoLevel.graph));
 
-  mLevels.reserve(mLevels.size() + 1); // so that nothing fails between the two insertions
-  mLevelsIndices.insert({levelId, mLevels.size()});
   mLevels.push_back(std::move(level));
+  try
+  {
+    mLevelsIndices.insert({levelId, mLevels.size() - 1});
+  }
+  catch (...)
+  {
+    mLevels.pop_back(); // so that the level is added completely or not at all
+    throw;
+  }
 }
 
 } } // namespace navigine::navigation_core
-- 
2.43.0


From 70a6d7a8c0e63bedebb7dd2c2308842e1a20e0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:08 +0000
Subject: [PATCH 47/47] fix: the trilateration's error message grew with every
 calculation that failed

---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index dbd4a9e..8ef1a49 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -418,7 +418,7 @@ void Trilateration::solveLinearSystem( vector<double> matrixA,
 
 void Trilateration::setErrorMessage(const char* errorMsg )
 {
-  Trilateration::mErrorMessage += errorMsg;
+  Trilateration::mErrorMessage = errorMsg;
 }
 
 
-- 
2.43.0

