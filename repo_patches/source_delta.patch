From 3a22a3ebc12cce2260dbf597023ccc4f69d60549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 01/34] fix: reject impossible calendar dates (e.g. 30
 February) when parsing dates

---
 core/src/base/UtilsDateTime.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/base/UtilsDateTime.cpp b/core/src/base/UtilsDateTime.cpp
index 00faf2f..8ed5215 100644
--- a/core/src/base/UtilsDateTime.cpp
+++ b/core/src/base/UtilsDateTime.cpp
@@ -126,6 +126,9 @@ static bool ParseExact(const std::string& s, const char* fmt, std::chrono::sys_t
         auto parsed_sec = static_cast<int>(tm.tm_sec);
 
         auto ymd = std::chrono::year{parsed_year} / std::chrono::month{parsed_month} / std::chrono::day{parsed_day};
+        if (!ymd.ok()) {
+            return false;
+        }
         auto days = std::chrono::sys_days{ymd};
         auto tp = std::chrono::time_point_cast<std::chrono::seconds>(days) + std::chrono::hours{parsed_hour} +
                   std::chrono::minutes{parsed_min} + std::chrono::seconds{parsed_sec};
@@ -152,6 +155,9 @@ static bool ParseDateOnly(const std::string& s, const char* fmt, std::chrono::sy
         auto parsed_day = static_cast<unsigned>(tm.tm_mday);       // tm_mday is 1-based
 
         auto ymd = std::chrono::year{parsed_year} / std::chrono::month{parsed_month} / std::chrono::day{parsed_day};
+        if (!ymd.ok()) {
+            return false;
+        }
         out = std::chrono::sys_days{ymd};
         return true;
     } catch (...) {
-- 
2.43.0


From a9461e405991a0667ae58cdfe393747f1506dc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 02/34] fix: compute the simulation dates from the start so
 that no sub-daily step is lost

---
 core/src/base/TimeMachine.cpp | 20 +++++++++++++++++---
 core/src/base/TimeMachine.h   |  1 +
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/core/src/base/TimeMachine.cpp b/core/src/base/TimeMachine.cpp
index 4e3e0d1..b24038c 100644
--- a/core/src/base/TimeMachine.cpp
+++ b/core/src/base/TimeMachine.cpp
@@ -1,9 +1,18 @@
 #include "TimeMachine.h"
 
+#include "TimeConstants.h"
+
+namespace {
+// Dates are whole seconds; sub-daily time steps are not exactly representable as fractions of a day, so dates are
+// compared with a tolerance of half a second.
+constexpr double DATE_TOLERANCE = 0.5 / SECONDS_PER_DAY_D;
+}  // namespace
+
 TimeMachine::TimeMachine()
     : _date(0),
       _start(0),
       _end(0),
+      _stepIndex(0),
       _timeStep(0),
       _timeStepUnit(TimeUnit::Day),
       _timeStepInDays(0),
@@ -14,6 +23,7 @@ void TimeMachine::Initialize(double start, double end, int timeStep, TimeUnit ti
     _date = start;
     _start = start;
     _end = end;
+    _stepIndex = 0;
     _timeStep = timeStep;
     _timeStepUnit = timeStepUnit;
     UpdateTimeStepInDays();
@@ -23,6 +33,7 @@ void TimeMachine::Initialize(const TimerSettings& settings) {
     _start = ParseDate(settings.start, guess);
     _end = ParseDate(settings.end, guess);
     _date = _start;
+    _stepIndex = 0;
     _timeStep = settings.timeStep;
 
     if (settings.timeStepUnit == "day") {
@@ -40,15 +51,18 @@ void TimeMachine::Initialize(const TimerSettings& settings) {
 
 void TimeMachine::Reset() {
     _date = _start;
+    _stepIndex = 0;
 }
 
 bool TimeMachine::IsOver() const {
-    return _date > _end;
+    return _date > _end + DATE_TOLERANCE;
 }
 
 void TimeMachine::IncrementTime() {
     assert(_timeStepInDays > 0);
-    _date += _timeStepInDays;
+    // Computed from the start to avoid accumulating rounding errors.
+    _stepIndex++;
+    _date = _start + _stepIndex * _timeStepInDays;
 
     if (_parametersUpdater) {
         _parametersUpdater->DateUpdate(_date);
@@ -60,7 +74,7 @@ void TimeMachine::IncrementTime() {
 
 int TimeMachine::GetTimeStepCount() const {
     assert(_timeStepInDays > 0);
-    return static_cast<int>(1 + (_end - _start) / _timeStepInDays);
+    return static_cast<int>(1 + (_end - _start + DATE_TOLERANCE) / _timeStepInDays);
 }
 
 void TimeMachine::UpdateTimeStepInDays() {
diff --git a/core/src/base/TimeMachine.h b/core/src/base/TimeMachine.h
index 3673196..ba21f9b 100644
--- a/core/src/base/TimeMachine.h
+++ b/core/src/base/TimeMachine.h
@@ -134,6 +134,7 @@ class TimeMachine {
     double _date;
     double _start;
     double _end;
+    int _stepIndex;
     int _timeStep;
     TimeUnit _timeStepUnit;
     double _timeStepInDays;
-- 
2.43.0


From a980a63d718efe8ecb089eeffad23bcde1f050f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 03/34] fix: reject unknown brick types instead of
 dereferencing a null brick

---
 core/src/base/ModelBuilder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 7084646..f508acc 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -111,6 +111,10 @@ void ModelBuilder::CreateSubBasinComponents(SettingsModel& modelSettings) {
         const BrickSettings& brickSettings = modelSettings.GetSubBasinBrickSettings(iBrick);
 
         auto brickPtr = Brick::Factory(brickSettings);
+        if (!brickPtr) {
+            throw ModelConfigError(
+                std::format("The type '{}' of the brick '{}' is not recognized.", brickSettings.type, brickSettings.name));
+        }
         Brick* brick = brickPtr.get();
         brick->SetName(brickSettings.name);
         brick->SetParameters(brickSettings);
@@ -209,6 +213,10 @@ void ModelBuilder::CreateHydroUnitBrick(SettingsModel& modelSettings, HydroUnit*
     const BrickSettings& brickSettings = modelSettings.GetHydroUnitBrickSettings(iBrick);
 
     auto brickPtr = std::unique_ptr<Brick>(Brick::Factory(brickSettings));
+    if (!brickPtr) {
+        throw ModelConfigError(
+            std::format("The type '{}' of the brick '{}' is not recognized.", brickSettings.type, brickSettings.name));
+    }
     Brick* brick = brickPtr.get();
     brick->SetName(brickSettings.name);
     brick->SetParameters(brickSettings);
-- 
2.43.0


From 053310ddcfe46426350d46f6447047d537ea0b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 04/34] fix: position sub-daily and multi-step forcing series
 on the requested date

---
 core/src/base/TimeSeriesData.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/core/src/base/TimeSeriesData.cpp b/core/src/base/TimeSeriesData.cpp
index 42b7ee5..eb3c671 100644
--- a/core/src/base/TimeSeriesData.cpp
+++ b/core/src/base/TimeSeriesData.cpp
@@ -1,7 +1,16 @@
 #include "TimeSeriesData.h"
 
+#include <cmath>
 #include <utility>
 
+#include "TimeConstants.h"
+
+namespace {
+// Dates are whole seconds; sub-daily dates are not exactly representable as fractions of a day, so dates are compared
+// with a tolerance of half a second.
+constexpr double DATE_TOLERANCE = 0.5 / SECONDS_PER_DAY_D;
+}  // namespace
+
 /*
  * TimeSeriesData
  */
@@ -39,7 +48,7 @@ TimeSeriesDataRegular::TimeSeriesDataRegular(double start, double end, int timeS
 
 bool TimeSeriesDataRegular::SetValues(vecDouble values) {
     double calcEnd = IncrementDateBy(_start, _timeStep * static_cast<int>(values.size() - 1), _timeStepUnit);
-    if (calcEnd != _end) {
+    if (std::abs(calcEnd - _end) > DATE_TOLERANCE) {
         LogError("The size of the time series data does not match the time properties.");
         LogError("End of the data ({}) != end of the dates ({}).", calcEnd, _end);
         return false;
@@ -67,26 +76,26 @@ double TimeSeriesDataRegular::GetSum() {
 }
 
 bool TimeSeriesDataRegular::SetCursorToDate(double date) {
-    if (date < _start) {
+    if (date < _start - DATE_TOLERANCE) {
         LogError("The desired date is before the data starting date.");
         return false;
     }
-    if (date > _end) {
+    if (date > _end + DATE_TOLERANCE) {
         LogError("The desired date is after the data ending date.");
         return false;
     }
 
-    double dt = date - _start;
+    double dt = date - _start + DATE_TOLERANCE;
 
     switch (_timeStepUnit) {
         case TimeUnit::Day:
-            _cursor = static_cast<int>(dt);
+            _cursor = static_cast<int>(dt / _timeStep);
             break;
         case TimeUnit::Hour:
-            _cursor = static_cast<int>(dt) * 24;
+            _cursor = static_cast<int>(dt * 24 / _timeStep);
             break;
         case TimeUnit::Minute:
-            _cursor = static_cast<int>(dt) * 1440;
+            _cursor = static_cast<int>(dt * 1440 / _timeStep);
             break;
         default:
             throw NotImplemented(std::format("TimeSeriesDataRegular::SetCursorToDate - Time unit {} not supported",
-- 
2.43.0


From 730112c3d2a9183fc25a8d17c374737665265246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 05/34] fix: reject forcing series whose time step differs from
 the model time step

---
 core/src/base/ModelHydro.cpp            | 11 +++++++++++
 core/src/base/TimeSeries.h              |  7 +++++++
 core/src/base/TimeSeriesData.cpp        |  8 ++++++++
 core/src/base/TimeSeriesData.h          | 17 +++++++++++++++++
 core/src/base/TimeSeriesDistributed.cpp |  5 +++++
 core/src/base/TimeSeriesDistributed.h   |  5 +++++
 core/src/base/TimeSeriesUniform.cpp     |  5 +++++
 core/src/base/TimeSeriesUniform.h       |  5 +++++
 8 files changed, 63 insertions(+)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 369a304..f0d064e 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -1,11 +1,13 @@
 ﻿#include "ModelHydro.h"
 
 #include <algorithm>
+#include <cmath>
 #include <memory>
 #include <stdexcept>
 
 #include "Includes.h"
 #include "ModelBuilder.h"
+#include "TimeConstants.h"
 
 ModelHydro::ModelHydro(SubBasin* subBasin)
     : _subBasin(subBasin) {
@@ -286,6 +288,15 @@ bool ModelHydro::AddTimeSeries(std::unique_ptr<TimeSeries> timeSeries) {
         return false;
     }
 
+    // The forcing advances by one value per simulation time step.
+    double dataTimeStep = timeSeries->GetTimeStepInDays();
+    double modelTimeStep = *_timer.GetTimeStepPointer();
+    if (dataTimeStep > 0 && std::abs(dataTimeStep - modelTimeStep) > 0.5 / SECONDS_PER_DAY_D) {
+        LogError("The time step of the data ({} d) differs from the time step of the model ({} d).", dataTimeStep,
+                 modelTimeStep);
+        return false;
+    }
+
     _timeSeries.push_back(std::move(timeSeries));
 
     return true;
diff --git a/core/src/base/TimeSeries.h b/core/src/base/TimeSeries.h
index a5c7384..47fe01f 100644
--- a/core/src/base/TimeSeries.h
+++ b/core/src/base/TimeSeries.h
@@ -69,6 +69,13 @@ class TimeSeries {
      */
     [[nodiscard]] virtual double GetEnd() const = 0;
 
+    /**
+     * Get the time step of the time series.
+     *
+     * @return the time step in days (0 if the time step is not constant).
+     */
+    [[nodiscard]] virtual double GetTimeStepInDays() const = 0;
+
     /**
      * Get the sum of the time series data for the provided basin settings.
      *
diff --git a/core/src/base/TimeSeriesData.cpp b/core/src/base/TimeSeriesData.cpp
index eb3c671..b643f33 100644
--- a/core/src/base/TimeSeriesData.cpp
+++ b/core/src/base/TimeSeriesData.cpp
@@ -123,6 +123,10 @@ double TimeSeriesDataRegular::GetEnd() const {
     return _end;
 }
 
+double TimeSeriesDataRegular::GetTimeStepInDays() const {
+    return IncrementDateBy(0, _timeStep, _timeStepUnit);
+}
+
 bool TimeSeriesDataRegular::IsValid() const {
     // Check that values have been set
     if (_values.empty()) {
@@ -203,6 +207,10 @@ double TimeSeriesDataIrregular::GetEnd() const {
     return _dates[_dates.size() - 1];
 }
 
+double TimeSeriesDataIrregular::GetTimeStepInDays() const {
+    return 0;
+}
+
 bool TimeSeriesDataIrregular::IsValid() const {
     // Check that dates have been set
     if (_dates.empty()) {
diff --git a/core/src/base/TimeSeriesData.h b/core/src/base/TimeSeriesData.h
index a33cafe..28dedc3 100644
--- a/core/src/base/TimeSeriesData.h
+++ b/core/src/base/TimeSeriesData.h
@@ -68,6 +68,13 @@ class TimeSeriesData {
      */
     [[nodiscard]] virtual double GetEnd() const = 0;
 
+    /**
+     * Get the time step of the time series data.
+     *
+     * @return the time step in days (0 if the time step is not constant).
+     */
+    [[nodiscard]] virtual double GetTimeStepInDays() const = 0;
+
     /**
      * Check if the time series data is valid.
      * Verifies that the data has values and date range is set correctly.
@@ -135,6 +142,11 @@ class TimeSeriesDataRegular : public TimeSeriesData {
      */
     double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeriesData::GetTimeStepInDays()
+     */
+    double GetTimeStepInDays() const override;
+
     /**
      * @copydoc TimeSeriesData::IsValid()
      */
@@ -198,6 +210,11 @@ class TimeSeriesDataIrregular : public TimeSeriesData {
      */
     double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeriesData::GetTimeStepInDays()
+     */
+    double GetTimeStepInDays() const override;
+
     /**
      * @copydoc TimeSeriesData::IsValid()
      */
diff --git a/core/src/base/TimeSeriesDistributed.cpp b/core/src/base/TimeSeriesDistributed.cpp
index a3c3bd9..af58464 100644
--- a/core/src/base/TimeSeriesDistributed.cpp
+++ b/core/src/base/TimeSeriesDistributed.cpp
@@ -41,6 +41,11 @@ double TimeSeriesDistributed::GetEnd() const {
     return _data[0]->GetEnd();
 }
 
+double TimeSeriesDistributed::GetTimeStepInDays() const {
+    assert(!_data.empty());
+    return _data[0]->GetTimeStepInDays();
+}
+
 double TimeSeriesDistributed::GetTotal(const SettingsBasin* basinSettings) {
     double total = 0;
     double areaTotal = basinSettings->GetTotalArea();
diff --git a/core/src/base/TimeSeriesDistributed.h b/core/src/base/TimeSeriesDistributed.h
index b457871..040527c 100644
--- a/core/src/base/TimeSeriesDistributed.h
+++ b/core/src/base/TimeSeriesDistributed.h
@@ -47,6 +47,11 @@ class TimeSeriesDistributed : public TimeSeries {
      */
     [[nodiscard]] double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeries::GetTimeStepInDays()
+     */
+    [[nodiscard]] double GetTimeStepInDays() const override;
+
     /**
      * @copydoc TimeSeries::GetTotal()
      */
diff --git a/core/src/base/TimeSeriesUniform.cpp b/core/src/base/TimeSeriesUniform.cpp
index a4b884c..5f8f220 100644
--- a/core/src/base/TimeSeriesUniform.cpp
+++ b/core/src/base/TimeSeriesUniform.cpp
@@ -34,6 +34,11 @@ double TimeSeriesUniform::GetEnd() const {
     return _data->GetEnd();
 }
 
+double TimeSeriesUniform::GetTimeStepInDays() const {
+    assert(_data);
+    return _data->GetTimeStepInDays();
+}
+
 double TimeSeriesUniform::GetTotal(const SettingsBasin*) {
     throw NotImplemented("TimeSeriesUniform::GetTotal - Not yet implemented");
 }
diff --git a/core/src/base/TimeSeriesUniform.h b/core/src/base/TimeSeriesUniform.h
index 8126e99..61eed61 100644
--- a/core/src/base/TimeSeriesUniform.h
+++ b/core/src/base/TimeSeriesUniform.h
@@ -49,6 +49,11 @@ class TimeSeriesUniform : public TimeSeries {
      */
     [[nodiscard]] double GetEnd() const override;
 
+    /**
+     * @copydoc TimeSeries::GetTimeStepInDays()
+     */
+    [[nodiscard]] double GetTimeStepInDays() const override;
+
     /**
      * @copydoc TimeSeries::GetTotal()
      */
-- 
2.43.0


From f5ff59d0e5a0dff1edfba295f77d62b3b0257cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 06/34] fix: compare the forcing period with the modelling
 period to the second

---
 core/src/base/ModelHydro.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index f0d064e..9520e94 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -278,12 +278,15 @@ bool ModelHydro::AddTimeSeries(std::unique_ptr<TimeSeries> timeSeries) {
         }
     }
 
-    if (timeSeries->GetStart() > _timer.GetStart()) {
+    // Dates are whole seconds; sub-daily dates are not exactly representable as fractions of a day.
+    const double dateTolerance = 0.5 / SECONDS_PER_DAY_D;
+
+    if (timeSeries->GetStart() > _timer.GetStart() + dateTolerance) {
         LogError("The data starts after the beginning of the modelling period.");
         return false;
     }
 
-    if (timeSeries->GetEnd() < _timer.GetEnd()) {
+    if (timeSeries->GetEnd() < _timer.GetEnd() - dateTolerance) {
         LogError("The data ends before the end of the modelling period.");
         return false;
     }
@@ -291,7 +294,7 @@ bool ModelHydro::AddTimeSeries(std::unique_ptr<TimeSeries> timeSeries) {
     // The forcing advances by one value per simulation time step.
     double dataTimeStep = timeSeries->GetTimeStepInDays();
     double modelTimeStep = *_timer.GetTimeStepPointer();
-    if (dataTimeStep > 0 && std::abs(dataTimeStep - modelTimeStep) > 0.5 / SECONDS_PER_DAY_D) {
+    if (dataTimeStep > 0 && std::abs(dataTimeStep - modelTimeStep) > dateTolerance) {
         LogError("The time step of the data ({} d) differs from the time step of the model ({} d).", dataTimeStep,
                  modelTimeStep);
         return false;
-- 
2.43.0


From c42b5bdfaf2bd928f353dca71ad2da80d5d56d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 07/34] fix: count the water from directly computed bricks in
 the constraints of solved stores

The flux from a land cover or surface component into a solved store was seen by the
store constraints as a (already zeroed) rate, so that its water could exceed the store
capacity and could not leave during the step.
---
 core/src/base/ModelBuilder.cpp         | 3 ++-
 core/src/containers/WaterContainer.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index f508acc..8c119da 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -543,7 +543,8 @@ void ModelBuilder::BuildHydroUnitBricksFluxes(SettingsModel& modelSettings, Hydr
                     if (toSubBasin) {
                         flux->SetFractionUnitArea(unit->GetArea() / _subBasin->GetArea());
                         flux->SetAsStatic();
-                    } else if (output.isStatic) {
+                    } else if (output.isStatic || (!brick->NeedsSolver() && targetBrick->NeedsSolver())) {
+                        // The amount leaving a brick computed directly is already booked when the solver runs.
                         flux->SetAsStatic();
                     }
 
diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 5599f4d..02a3bdf 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -156,7 +156,7 @@ void WaterContainer::ApplyConstraints(double timeStep) {
                     "WaterContainer::ApplyConstraints - Overflow exists but has no change rate pointer");
             }
             // Check that it is not only due to forcing
-            if (content + inputsStatic > *_capacity) {
+            if (content + inputsStatic > *_capacity + PRECISION) {
                 throw ModelConfigError(
                     "Forcing is coming directly into a brick with limited capacity and no overflow.");
             }
-- 
2.43.0


From 2de8cce631ad0873312b812514d50e49775262d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 08/34] fix: do not count the inputs twice when limiting the
 outflows of directly computed bricks

---
 core/src/base/Processor.cpp            | 2 +-
 core/src/containers/IceContainer.cpp   | 4 ++--
 core/src/containers/IceContainer.h     | 2 +-
 core/src/containers/WaterContainer.cpp | 8 ++++++--
 core/src/containers/WaterContainer.h   | 3 ++-
 5 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index bb83db0..507cf01 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -308,7 +308,7 @@ void Processor::ApplyDirectChanges(Brick* brick, int& ptIndex, double timeStepIn
         }
 
         // Apply constraints for the current brick (e.g. maximum capacity or avoid negative values)
-        process->GetWaterContainer()->ApplyConstraints(timeStepInDays);
+        process->GetWaterContainer()->ApplyConstraints(timeStepInDays, true);
 
         // Apply changes
         for (int j = 0; j < rates.size(); ++j) {
diff --git a/core/src/containers/IceContainer.cpp b/core/src/containers/IceContainer.cpp
index 8b6de7d..d71ea85 100644
--- a/core/src/containers/IceContainer.cpp
+++ b/core/src/containers/IceContainer.cpp
@@ -7,7 +7,7 @@ IceContainer::IceContainer(Brick* brick)
       _noMeltWhenSnowCover(false),
       _relatedSnowpack(nullptr) {}
 
-void IceContainer::ApplyConstraints(double timeStep) {
+void IceContainer::ApplyConstraints(double timeStep, bool inputsBooked) {
     if (_noMeltWhenSnowCover) {
         if (_relatedSnowpack == nullptr) {
             throw ModelConfigError("No snowpack provided for the glacier melt limitation.");
@@ -16,7 +16,7 @@ void IceContainer::ApplyConstraints(double timeStep) {
             SetOutgoingRatesToZero();
         }
     }
-    WaterContainer::ApplyConstraints(timeStep);
+    WaterContainer::ApplyConstraints(timeStep, inputsBooked);
 }
 
 bool IceContainer::ContentAccessible() const {
diff --git a/core/src/containers/IceContainer.h b/core/src/containers/IceContainer.h
index 543a8aa..16c56f0 100644
--- a/core/src/containers/IceContainer.h
+++ b/core/src/containers/IceContainer.h
@@ -14,7 +14,7 @@ class IceContainer : public WaterContainer {
     /**
      * @copydoc WaterContainer::ApplyConstraints()
      */
-    void ApplyConstraints(double timeStep) override;
+    void ApplyConstraints(double timeStep, bool inputsBooked = false) override;
 
     /**
      * Set the option to not melt when snow cover is present.
diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 02a3bdf..7af5aa1 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -52,7 +52,7 @@ void WaterContainer::AddAmountToStaticContentChange(double change) {
     _contentChangeStatic += change;
 }
 
-void WaterContainer::ApplyConstraints(double timeStep) {
+void WaterContainer::ApplyConstraints(double timeStep, bool inputsBooked) {
     if (_infiniteStorage) return;
 
     // Change rates are quantities per unit time: the content update integrates them over the
@@ -95,6 +95,10 @@ void WaterContainer::ApplyConstraints(double timeStep) {
     double inputs = 0;
     double inputsStatic = 0;
     for (auto& input : _inputs) {
+        if (inputsBooked) {
+            // The inputs are already part of the content changes.
+            break;
+        }
         if (input->IsInstantaneous()) {
             inputsStatic += dynamic_cast<FluxToBrickInstantaneous*>(input)->GetRealAmount();
             continue;
@@ -119,7 +123,7 @@ void WaterContainer::ApplyConstraints(double timeStep) {
     }
 
     double change = inputs - outputs;
-    double content = GetContentWithDynamicChanges();
+    double content = inputsBooked ? GetContentWithChanges() : GetContentWithDynamicChanges();
 
     // Avoid negative content (unless the container is allowed to go negative, e.g. a bottomless
     // routing store whose level can be negative).
diff --git a/core/src/containers/WaterContainer.h b/core/src/containers/WaterContainer.h
index 36bec2d..60d81da 100644
--- a/core/src/containers/WaterContainer.h
+++ b/core/src/containers/WaterContainer.h
@@ -52,8 +52,9 @@ class WaterContainer {
      * Apply the constraints to the water container.
      *
      * @param timeStep time step [s]
+     * @param inputsBooked true if the incoming fluxes are already part of the content changes
      */
-    virtual void ApplyConstraints(double timeStep);
+    virtual void ApplyConstraints(double timeStep, bool inputsBooked = false);
 
     /**
      * Set the outgoing rates to zero.
-- 
2.43.0


From 3cb77848cfabc069214e0893515cda7a95d861e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 09/34] fix: add the excess to the overflow instead of
 replacing it when the constraints are swept again

---
 core/src/containers/WaterContainer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 7af5aa1..326ba4e 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -153,7 +153,8 @@ void WaterContainer::ApplyConstraints(double timeStep, bool inputsBooked) {
             // If it has an overflow, use it
             if (HasOverflow()) {
                 if (_overflow->GetOutputFlux(0)->GetChangeRatePointer() != nullptr) {
-                    *(_overflow->GetOutputFlux(0)->GetChangeRatePointer()) = diff;
+                    // The current overflow rate is already part of the outputs.
+                    *(_overflow->GetOutputFlux(0)->GetChangeRatePointer()) += diff;
                     return;
                 }
                 throw ShouldNotHappen(
-- 
2.43.0


From c6002f06cf17d739c41c598d83201f6e5d4fa6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 10/34] fix: account for laterally transported snow in the step
 in which it moves

---
 core/src/base/Processor.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index 507cf01..e011e07 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -2,6 +2,7 @@
 
 #include "FluxToBrick.h"
 #include "ModelHydro.h"
+#include "Snowpack.h"
 #include "SubBasin.h"
 
 Processor::Processor()
@@ -263,6 +264,17 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
         }
     }
 
+    // Snow transported to a hydro unit that was already processed belongs to this time step.
+    for (int iUnit = 0; iUnit < hydroUnitCount; ++iUnit) {
+        HydroUnit* unit = basin->GetHydroUnit(iUnit);
+        for (int iBrick = 0; iBrick < unit->GetBrickCount(); ++iBrick) {
+            auto snowpack = dynamic_cast<Snowpack*>(unit->GetBrick(iBrick));
+            if (snowpack != nullptr) {
+                snowpack->GetSnowContainer()->Finalize();
+            }
+        }
+    }
+
     // Process the bricks that need a solver
     if (!_solver->Solve(timeStepInDays)) {
         return false;
-- 
2.43.0


From adb894c70325eec03b7cbcc009df4ecd85bbac6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 11/34] fix: reset the processes of the snowpacks (e.g. cold
 content, snow density) with the model

---
 core/src/bricks/Snowpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/bricks/Snowpack.cpp b/core/src/bricks/Snowpack.cpp
index bd305ab..c24dec1 100644
--- a/core/src/bricks/Snowpack.cpp
+++ b/core/src/bricks/Snowpack.cpp
@@ -7,7 +7,7 @@ Snowpack::Snowpack()
 }
 
 void Snowpack::Reset() {
-    _water->Reset();
+    Brick::Reset();
     _snow->Reset();
 }
 
-- 
2.43.0


From 4da3b6fc239f8fd0629e8af4af7f485d08c04e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 12/34] fix: include the memory of the processes (unit
 hydrographs, routing stores, cold content) in the saved initial state

---
 core/src/bricks/Brick.cpp                      |  3 +++
 core/src/bricks/Snowpack.cpp                   |  2 +-
 core/src/processes/Process.cpp                 |  4 ++++
 core/src/processes/Process.h                   |  5 +++++
 .../ProcessLateralSnowRedistributionFrey.cpp   |  9 +++++++--
 .../ProcessLateralSnowRedistributionFrey.h     |  9 +++++++++
 core/src/processes/ProcessMeltCemaNeige.cpp    |  6 +++++-
 core/src/processes/ProcessMeltCemaNeige.h      |  7 +++++++
 core/src/processes/ProcessRoutingGR4J.cpp      | 15 +++++++++++----
 core/src/processes/ProcessRoutingGR4J.h        | 11 +++++++++++
 core/src/processes/ProcessRoutingGR6J.cpp      | 18 +++++++++++++-----
 core/src/processes/ProcessRoutingGR6J.h        | 12 ++++++++++++
 core/src/processes/ProcessRoutingHBV.cpp       | 12 +++++++++---
 core/src/processes/ProcessRoutingHBV.h         | 10 ++++++++++
 14 files changed, 107 insertions(+), 16 deletions(-)

diff --git a/core/src/bricks/Brick.cpp b/core/src/bricks/Brick.cpp
index f916bbb..8929368 100644
--- a/core/src/bricks/Brick.cpp
+++ b/core/src/bricks/Brick.cpp
@@ -53,6 +53,9 @@ void Brick::Reset() {
 
 void Brick::SaveAsInitialState() {
     _water->SaveAsInitialState();
+    for (const auto& process : _processes) {
+        process->SaveAsInitialState();
+    }
 }
 
 bool Brick::IsValid(bool checkProcesses) const {
diff --git a/core/src/bricks/Snowpack.cpp b/core/src/bricks/Snowpack.cpp
index c24dec1..16e6722 100644
--- a/core/src/bricks/Snowpack.cpp
+++ b/core/src/bricks/Snowpack.cpp
@@ -12,7 +12,7 @@ void Snowpack::Reset() {
 }
 
 void Snowpack::SaveAsInitialState() {
-    _water->SaveAsInitialState();
+    Brick::SaveAsInitialState();
     _snow->SaveAsInitialState();
 }
 
diff --git a/core/src/processes/Process.cpp b/core/src/processes/Process.cpp
index d2f847a..d0afe6f 100644
--- a/core/src/processes/Process.cpp
+++ b/core/src/processes/Process.cpp
@@ -448,6 +448,10 @@ void Process::Reset() {
     }
 }
 
+void Process::SaveAsInitialState() {
+    // Nothing to do...
+}
+
 void Process::SetHydroUnitProperties(HydroUnit*, Brick*) {
     // Nothing to do...
 }
diff --git a/core/src/processes/Process.h b/core/src/processes/Process.h
index ac51a00..a7731f1 100644
--- a/core/src/processes/Process.h
+++ b/core/src/processes/Process.h
@@ -42,6 +42,11 @@ class Process {
      */
     virtual void Reset();
 
+    /**
+     * Save the internal state of the process (if any) as the initial state to restore on reset.
+     */
+    virtual void SaveAsInitialState();
+
     /**
      * Check that everything is correctly defined.
      *
diff --git a/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp b/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
index a7d9dfe..11c7b4e 100644
--- a/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
+++ b/core/src/processes/ProcessLateralSnowRedistributionFrey.cpp
@@ -92,8 +92,13 @@ void ProcessLateralSnowRedistributionFrey::AttachForcing(Forcing* forcing) {
 
 void ProcessLateralSnowRedistributionFrey::Reset() {
     ProcessLateral::Reset();
-    _density = constants::snowDensity;
-    _prevSwe = 0.0;
+    _density = _initialDensity;
+    _prevSwe = _initialPrevSwe;
+}
+
+void ProcessLateralSnowRedistributionFrey::SaveAsInitialState() {
+    _initialDensity = _density;
+    _initialPrevSwe = _prevSwe;
 }
 
 double ProcessLateralSnowRedistributionFrey::ComputeFreshSnowDensity() const {
diff --git a/core/src/processes/ProcessLateralSnowRedistributionFrey.h b/core/src/processes/ProcessLateralSnowRedistributionFrey.h
index ab27121..8a21f36 100644
--- a/core/src/processes/ProcessLateralSnowRedistributionFrey.h
+++ b/core/src/processes/ProcessLateralSnowRedistributionFrey.h
@@ -80,6 +80,11 @@ class ProcessLateralSnowRedistributionFrey : public ProcessLateral {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * @copydoc Process::Finalize()
      */
@@ -139,6 +144,10 @@ class ProcessLateralSnowRedistributionFrey : public ProcessLateral {
      * @return the corrected rate.
      */
     double AvoidUnrealisticAccumulation(double rate, Flux* flux);
+
+    // Saved initial state
+    double _initialDensity = constants::snowDensity;
+    double _initialPrevSwe = 0.0;
 };
 
 #endif  // HYDROBRICKS_PROCESS_LATERAL_SNOW_REDISTRIBUTION_FREY_H
diff --git a/core/src/processes/ProcessMeltCemaNeige.cpp b/core/src/processes/ProcessMeltCemaNeige.cpp
index 4984a8a..9a7bc31 100644
--- a/core/src/processes/ProcessMeltCemaNeige.cpp
+++ b/core/src/processes/ProcessMeltCemaNeige.cpp
@@ -57,7 +57,11 @@ void ProcessMeltCemaNeige::AttachForcing(Forcing* forcing) {
 
 void ProcessMeltCemaNeige::Reset() {
     ProcessMelt::Reset();
-    _coldContent = 0.0;
+    _coldContent = _initialColdContent;
+}
+
+void ProcessMeltCemaNeige::SaveAsInitialState() {
+    _initialColdContent = _coldContent;
 }
 
 const vecDouble& ProcessMeltCemaNeige::GetRates() {
diff --git a/core/src/processes/ProcessMeltCemaNeige.h b/core/src/processes/ProcessMeltCemaNeige.h
index 038438a..195e2cf 100644
--- a/core/src/processes/ProcessMeltCemaNeige.h
+++ b/core/src/processes/ProcessMeltCemaNeige.h
@@ -57,6 +57,11 @@ class ProcessMeltCemaNeige : public ProcessMelt {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
   protected:
     Forcing* _temperature;            // non-owning reference
     const float* _degreeDayFactor;    // Kf [mm/°C/d]
@@ -70,6 +75,8 @@ class ProcessMeltCemaNeige : public ProcessMelt {
      * @copydoc Process::GetRates()
      */
     const vecDouble& GetRates() override;
+
+    double _initialColdContent = 0.0;  // Saved initial state
 };
 
 #endif  // HYDROBRICKS_PROCESS_MELT_CEMANEIGE_H
diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index d6ad324..66ddb2c 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -35,13 +35,20 @@ void ProcessRoutingGR4J::SetParameters(const ProcessSettings& processSettings) {
 
 void ProcessRoutingGR4J::Reset() {
     ProcessOutflow::Reset();
+    _stuh1 = _initialStuh1;
+    _stuh2 = _initialStuh2;
     _recomputeUH();
-    std::fill(_stuh1.begin(), _stuh1.end(), 0.0);
-    std::fill(_stuh2.begin(), _stuh2.end(), 0.0);
-    _r = 0.0;
+    _r = _initialR;
     _qr = 0.0;
     _qd = 0.0;
-    _processStorage = 0.0;
+    _processStorage = _initialProcessStorage;
+}
+
+void ProcessRoutingGR4J::SaveAsInitialState() {
+    _initialStuh1 = _stuh1;
+    _initialStuh2 = _stuh2;
+    _initialR = _r;
+    _initialProcessStorage = _processStorage;
 }
 
 double* ProcessRoutingGR4J::GetValuePointer(std::string_view name) {
diff --git a/core/src/processes/ProcessRoutingGR4J.h b/core/src/processes/ProcessRoutingGR4J.h
index 0e7f1f6..75b5fb9 100644
--- a/core/src/processes/ProcessRoutingGR4J.h
+++ b/core/src/processes/ProcessRoutingGR4J.h
@@ -44,6 +44,11 @@ class ProcessRoutingGR4J : public ProcessOutflow {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * Advance UH buffers and routing store once per timestep.
      */
@@ -92,6 +97,12 @@ class ProcessRoutingGR4J : public ProcessOutflow {
 
     static double _sh1(double t, double x4);
     static double _sh2(double t, double x4);
+
+    // Saved initial state
+    vecDouble _initialStuh1;
+    vecDouble _initialStuh2;
+    double _initialR = 0.0;
+    double _initialProcessStorage = 0.0;
 };
 
 #endif  // HYDROBRICKS_PROCESS_ROUTING_GR4J_H
diff --git a/core/src/processes/ProcessRoutingGR6J.cpp b/core/src/processes/ProcessRoutingGR6J.cpp
index fc8094e..dd0d900 100644
--- a/core/src/processes/ProcessRoutingGR6J.cpp
+++ b/core/src/processes/ProcessRoutingGR6J.cpp
@@ -51,15 +51,23 @@ void ProcessRoutingGR6J::SetParameters(const ProcessSettings& processSettings) {
 
 void ProcessRoutingGR6J::Reset() {
     ProcessOutflow::Reset();
+    _stuh1 = _initialStuh1;
+    _stuh2 = _initialStuh2;
     _recomputeUH();
-    std::fill(_stuh1.begin(), _stuh1.end(), 0.0);
-    std::fill(_stuh2.begin(), _stuh2.end(), 0.0);
-    _r = 0.0;
-    _rexp = 0.0;
+    _r = _initialR;
+    _rexp = _initialRexp;
     _qr = 0.0;
     _qrexp = 0.0;
     _qd = 0.0;
-    _processStorage = 0.0;
+    _processStorage = _initialProcessStorage;
+}
+
+void ProcessRoutingGR6J::SaveAsInitialState() {
+    _initialStuh1 = _stuh1;
+    _initialStuh2 = _stuh2;
+    _initialR = _r;
+    _initialRexp = _rexp;
+    _initialProcessStorage = _processStorage;
 }
 
 double* ProcessRoutingGR6J::GetValuePointer(std::string_view name) {
diff --git a/core/src/processes/ProcessRoutingGR6J.h b/core/src/processes/ProcessRoutingGR6J.h
index 27408cd..4f37fad 100644
--- a/core/src/processes/ProcessRoutingGR6J.h
+++ b/core/src/processes/ProcessRoutingGR6J.h
@@ -49,6 +49,11 @@ class ProcessRoutingGR6J : public ProcessOutflow {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * Advance UH buffers and both routing stores once per timestep.
      */
@@ -106,6 +111,13 @@ class ProcessRoutingGR6J : public ProcessOutflow {
      * Recompute UH ordinates and resize buffers based on current X4.
      */
     void _recomputeUH();
+
+    // Saved initial state
+    vecDouble _initialStuh1;
+    vecDouble _initialStuh2;
+    double _initialR = 0.0;
+    double _initialRexp = 0.0;
+    double _initialProcessStorage = 0.0;
 };
 
 #endif  // HYDROBRICKS_PROCESS_ROUTING_GR6J_H
diff --git a/core/src/processes/ProcessRoutingHBV.cpp b/core/src/processes/ProcessRoutingHBV.cpp
index be457f4..d18d56a 100644
--- a/core/src/processes/ProcessRoutingHBV.cpp
+++ b/core/src/processes/ProcessRoutingHBV.cpp
@@ -40,10 +40,16 @@ void ProcessRoutingHBV::SetParameters(const ProcessSettings& processSettings) {
 
 void ProcessRoutingHBV::Reset() {
     ProcessOutflow::Reset();
+    _stuh = _initialStuh;
     _recomputeUH();
-    std::fill(_stuh.begin(), _stuh.end(), 0.0);
-    _previousContent = 0.0;
-    _processStorage = 0.0;
+    _previousContent = _initialPreviousContent;
+    _processStorage = _initialProcessStorage;
+}
+
+void ProcessRoutingHBV::SaveAsInitialState() {
+    _initialStuh = _stuh;
+    _initialPreviousContent = _previousContent;
+    _initialProcessStorage = _processStorage;
 }
 
 double* ProcessRoutingHBV::GetValuePointer(std::string_view name) {
diff --git a/core/src/processes/ProcessRoutingHBV.h b/core/src/processes/ProcessRoutingHBV.h
index df1d0ac..73baed6 100644
--- a/core/src/processes/ProcessRoutingHBV.h
+++ b/core/src/processes/ProcessRoutingHBV.h
@@ -54,6 +54,11 @@ class ProcessRoutingHBV : public ProcessOutflow {
      */
     void Reset() override;
 
+    /**
+     * @copydoc Process::SaveAsInitialState()
+     */
+    void SaveAsInitialState() override;
+
     /**
      * Advance the delivery schedule once per timestep, using the committed amounts.
      */
@@ -107,6 +112,11 @@ class ProcessRoutingHBV : public ProcessOutflow {
      * Cumulative triangular weighting function.
      */
     static double _cumulativeWeight(double t, double maxbas);
+
+    // Saved initial state
+    vecDouble _initialStuh;
+    double _initialPreviousContent = 0.0;
+    double _initialProcessStorage = 0.0;
 };
 
 #endif  // HYDROBRICKS_PROCESS_ROUTING_HBV_H
-- 
2.43.0


From 2aa193104dbef289c18c6f2a0a91688e64f4ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 13/34] fix: limit the stores of the sub-basin with the current
 inflow from the units instead of that of the previous step

---
 core/src/base/ModelBuilder.cpp         | 4 ++--
 core/src/containers/WaterContainer.cpp | 2 +-
 core/src/fluxes/Flux.h                 | 9 +++++++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 8c119da..96230e5 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -542,8 +542,8 @@ void ModelBuilder::BuildHydroUnitBricksFluxes(SettingsModel& modelSettings, Hydr
 
                     if (toSubBasin) {
                         flux->SetFractionUnitArea(unit->GetArea() / _subBasin->GetArea());
-                        flux->SetAsStatic();
-                    } else if (output.isStatic || (!brick->NeedsSolver() && targetBrick->NeedsSolver())) {
+                    }
+                    if (output.isStatic || (!brick->NeedsSolver() && (toSubBasin || targetBrick->NeedsSolver()))) {
                         // The amount leaving a brick computed directly is already booked when the solver runs.
                         flux->SetAsStatic();
                     }
diff --git a/core/src/containers/WaterContainer.cpp b/core/src/containers/WaterContainer.cpp
index 326ba4e..2effc6b 100644
--- a/core/src/containers/WaterContainer.cpp
+++ b/core/src/containers/WaterContainer.cpp
@@ -119,7 +119,7 @@ void WaterContainer::ApplyConstraints(double timeStep, bool inputsBooked) {
         }
         assert(GreaterThanOrEqual(*changeRate, 0, EPSILON_D));
         incomingRates.push_back(changeRate);
-        inputs += *changeRate;
+        inputs += *changeRate * input->GetFractionTotal();
     }
 
     double change = inputs - outputs;
diff --git a/core/src/fluxes/Flux.h b/core/src/fluxes/Flux.h
index e6af389..e7a871f 100644
--- a/core/src/fluxes/Flux.h
+++ b/core/src/fluxes/Flux.h
@@ -145,6 +145,15 @@ class Flux {
         UpdateFractionTotal();
     }
 
+    /**
+     * Get the fraction of the amount leaving the source that reaches the target (area weighting).
+     *
+     * @return the fraction total.
+     */
+    [[nodiscard]] double GetFractionTotal() const {
+        return _fractionTotal;
+    }
+
     /**
      * Update the fraction total.
      */
-- 
2.43.0


From c270a728935adb048738b17c57ae7821096a6e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:14 +0000
Subject: [PATCH 14/34] fix: apply the recursive actions once per occurrence of
 their date, whatever the time step

---
 core/src/actions/Action.cpp         | 27 ++++++++++++++++++---------
 core/src/actions/Action.h           |  3 +++
 core/src/actions/ActionsManager.cpp | 21 +++++++++++++++++----
 3 files changed, 38 insertions(+), 13 deletions(-)

diff --git a/core/src/actions/Action.cpp b/core/src/actions/Action.cpp
index 5478ce4..b0040a5 100644
--- a/core/src/actions/Action.cpp
+++ b/core/src/actions/Action.cpp
@@ -5,7 +5,10 @@
 Action::Action()
     : _manager(nullptr),
       _cursor(0),
-      _recursive(false) {}
+      _recursive(false),
+      _lastRecursiveYear(0),
+      _lastRecursiveMonth(0),
+      _lastRecursiveDay(0) {}
 
 bool Action::Init() {
     return true;
@@ -13,13 +16,16 @@ bool Action::Init() {
 
 void Action::ResetCursor() {
     _cursor = 0;
+    _lastRecursiveYear = 0;
+    _lastRecursiveMonth = 0;
+    _lastRecursiveDay = 0;
 }
 
 void Action::AddRecursiveDate(int month, int day) {
     // Check that the month is valid.
     if (month < 1 || month > 12) {
-        month = 1;
         LogError("Invalid month: {}", month);
+        month = 1;
     }
 
     // Check that the day is valid for the given month.
@@ -40,17 +46,20 @@ bool Action::Apply(double) {
 }
 
 bool Action::ApplyIfRecursive(const Time date) {
-    for (int month : _recursiveMonths) {
-        if (month != date.month) {
+    for (size_t i = 0; i < _recursiveMonths.size(); ++i) {
+        if (_recursiveMonths[i] != date.month || _recursiveDays[i] != date.day) {
             continue;
         }
-        for (int day : _recursiveDays) {
-            if (day != date.day) {
-                continue;
-            }
 
-            return Apply();
+        // Apply only once per occurrence, even if several time steps fall on that day.
+        if (_lastRecursiveYear == date.year && _lastRecursiveMonth == date.month && _lastRecursiveDay == date.day) {
+            return true;
         }
+        _lastRecursiveYear = date.year;
+        _lastRecursiveMonth = date.month;
+        _lastRecursiveDay = date.day;
+
+        return Apply();
     }
 
     return true;
diff --git a/core/src/actions/Action.h b/core/src/actions/Action.h
index fae9114..04d3882 100644
--- a/core/src/actions/Action.h
+++ b/core/src/actions/Action.h
@@ -137,6 +137,9 @@ class Action {
     bool _recursive;
     vecInt _recursiveMonths;
     vecInt _recursiveDays;
+    int _lastRecursiveYear;   // day of the last application (recursive actions), 0 if none
+    int _lastRecursiveMonth;
+    int _lastRecursiveDay;
 };
 
 #endif  // HYDROBRICKS_ACTION_H
diff --git a/core/src/actions/ActionsManager.cpp b/core/src/actions/ActionsManager.cpp
index e39a969..a48b340 100644
--- a/core/src/actions/ActionsManager.cpp
+++ b/core/src/actions/ActionsManager.cpp
@@ -3,8 +3,15 @@
 #include "Action.h"
 #include "ModelHydro.h"
 #include "SubBasin.h"
+#include "TimeConstants.h"
 #include "Utils.h"
 
+namespace {
+// Dates are whole seconds; sub-daily time steps are not exactly representable as fractions of a day, so dates are
+// compared with a tolerance of half a second.
+constexpr double DATE_TOLERANCE = 0.5 / SECONDS_PER_DAY_D;
+}  // namespace
+
 ActionsManager::ActionsManager()
     : _model(nullptr),
       _cursorManager(0) {}
@@ -80,10 +87,16 @@ int ActionsManager::GetSporadicActionItemCount() const {
 void ActionsManager::DateUpdate(double date) {
     // Recursive actions
     if (!_recursiveActionIndices.empty()) {
-        Time dateStruct = GetTimeStructFromMJD(date);
-        for (int actionIndex : _recursiveActionIndices) {
-            if (!_actions[actionIndex]->ApplyIfRecursive(dateStruct)) {
-                throw RuntimeError("Application of a recursive action failed.");
+        // Consider every day covered by the time step, as it can be longer than a day.
+        const double timeStep = _model ? *_model->GetTimeMachine()->GetTimeStepPointer() : 0;
+        const double day = std::floor(date + DATE_TOLERANCE);
+        double coveredDay = std::min(day, std::floor(date - timeStep + DATE_TOLERANCE) + 1);
+        for (; coveredDay <= day; ++coveredDay) {
+            Time dateStruct = GetTimeStructFromMJD(coveredDay);
+            for (int actionIndex : _recursiveActionIndices) {
+                if (!_actions[actionIndex]->ApplyIfRecursive(dateStruct)) {
+                    throw RuntimeError("Application of a recursive action failed.");
+                }
             }
         }
     }
-- 
2.43.0


From 8753eed0d33971f3ae9c5b580a3141ed5f5a1488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:25 +0000
Subject: [PATCH 15/34] fix: compare the dates of sporadic actions with a
 tolerance for inexact sub-daily dates

---
 core/src/actions/ActionsManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/actions/ActionsManager.cpp b/core/src/actions/ActionsManager.cpp
index a48b340..de774e4 100644
--- a/core/src/actions/ActionsManager.cpp
+++ b/core/src/actions/ActionsManager.cpp
@@ -107,7 +107,7 @@ void ActionsManager::DateUpdate(double date) {
 
     // Sporadic actions
     assert(_sporadicActionDates.size() == _sporadicActionIndices.size());
-    while (_sporadicActionDates.size() > _cursorManager && _sporadicActionDates[_cursorManager] <= date) {
+    while (_sporadicActionDates.size() > _cursorManager && _sporadicActionDates[_cursorManager] <= date + DATE_TOLERANCE) {
         if (!_actions[_sporadicActionIndices[_cursorManager]]->Apply(date)) {
             throw RuntimeError("Application of a sporadic action failed.");
         }
-- 
2.43.0


From 82898638fd07206e99492e3848c4cccda9493b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 16/34] fix: keep the initial fractions in step with the
 fractions corrected on validation

---
 core/src/bricks/LandCover.h    | 9 +++++++++
 core/src/spatial/HydroUnit.cpp | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/core/src/bricks/LandCover.h b/core/src/bricks/LandCover.h
index fb97ae6..c76bdeb 100644
--- a/core/src/bricks/LandCover.h
+++ b/core/src/bricks/LandCover.h
@@ -69,6 +69,15 @@ class LandCover : public Brick {
         _initialAreaFraction = value;
     }
 
+    /**
+     * Get the initial area fraction (the extent restored on every reset).
+     *
+     * @return the initial area fraction.
+     */
+    [[nodiscard]] double GetInitialAreaFraction() const {
+        return _initialAreaFraction;
+    }
+
     /**
      * Restore the area fraction to the initial extent without touching the stored
      * content (used after the spin-up phase, where the warmed-up states are kept but
diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 4ac2c6d..2cf60e2 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -314,6 +314,8 @@ bool HydroUnit::IsValid(bool checkProcesses) const {
             for (auto brick : _landCoverBricks) {
                 if (brick->GetAreaFraction() > diff) {
                     brick->SetAreaFraction(brick->GetAreaFraction() - diff);
+                    // Also fix the extent restored on reset, so that a rerun uses the same extents.
+                    brick->SetInitialAreaFraction(brick->GetInitialAreaFraction() - diff);
                     break;
                 }
             }
-- 
2.43.0


From a1e55f5b132dd6be9b877890bb8c68e2102c2a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 17/34] fix: refused cover changes leave the extents untouched;
 NaN refused, rounding accepted

---
 core/src/actions/Action.cpp    |  2 +-
 core/src/spatial/HydroUnit.cpp | 23 +++++++++++++++--------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/core/src/actions/Action.cpp b/core/src/actions/Action.cpp
index b0040a5..61f470f 100644
--- a/core/src/actions/Action.cpp
+++ b/core/src/actions/Action.cpp
@@ -89,7 +89,7 @@ double Action::CheckLandCoverAreaFraction(const string& name, int id, double fra
     }
 
     // If the fraction is not in the range [0, 1], raise an error.
-    if ((fraction < 0) || (fraction > 1)) {
+    if (!(fraction >= 0 && fraction <= 1)) {
         LogError("The given fraction ({}) for '{}' is not in the allowed range [0 .. 1]", fraction, name);
         LogError("The unit area is {}, and the land cover area to assign is {}.", unitArea, lcArea);
         LogError("Failed to set the '{}' area fraction for hydro unit {}.", name, id);
diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 2cf60e2..1e4de07 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -332,7 +332,7 @@ void HydroUnit::Validate() const {
 }
 
 bool HydroUnit::ChangeLandCoverAreaFraction(std::string_view name, double fraction) {
-    if ((fraction < 0) || (fraction > 1)) {
+    if (!(fraction >= 0 && fraction <= 1)) {
         LogError("The given fraction ({}) for '{}' is not in the allowed range [0 .. 1]", fraction, name);
         return false;
     }
@@ -342,6 +342,7 @@ bool HydroUnit::ChangeLandCoverAreaFraction(std::string_view name, double fracti
         return false;
     }
     LandCover* changed = it->second;
+    double oldFraction = changed->GetAreaFraction();
 
     // Conserve the stored water by transferring the content sitting on the land that
     // changes hands between the changed cover and the generic (soil) cover that
@@ -349,25 +350,31 @@ bool HydroUnit::ChangeLandCoverAreaFraction(std::string_view name, double fracti
     // cover to exchange with.
     LandCover* generic = GetGenericLandCover();
     if (generic != nullptr && generic != changed && _landCoverBricks.size() > 1) {
-        double oldFraction = changed->GetAreaFraction();
         double delta = fraction - oldFraction;
         double genericOldFraction = generic->GetAreaFraction();
         double genericNewFraction = genericOldFraction - delta;
 
-        // The generic cover must be able to absorb the change (it cannot go negative).
-        if (LessThan(genericNewFraction, 0, EPSILON_D)) {
+        // The generic cover must be able to absorb the change (it cannot go negative, except for rounding errors).
+        if (LessThan(genericNewFraction, 0, PRECISION)) {
             LogError(
                 "The generic soil (open) land cover (%.20g) is not large enough to compensate "
                 "the area change (%.20g) with error margin (%.20g).",
-                genericOldFraction, delta, EPSILON_D);
+                genericOldFraction, delta, PRECISION);
             return false;
         }
+        genericNewFraction = std::max(0.0, genericNewFraction);
 
         TransferLandCoverContent(changed, oldFraction, fraction, generic, genericOldFraction, genericNewFraction);
     }
 
     changed->SetAreaFraction(fraction);
-    return FixLandCoverFractionsTotal();
+    if (!FixLandCoverFractionsTotal()) {
+        // The change cannot be made: leave the extents as they were.
+        changed->SetAreaFraction(oldFraction);
+        return false;
+    }
+
+    return true;
 }
 
 LandCover* HydroUnit::GetGenericLandCover() const {
@@ -473,12 +480,12 @@ bool HydroUnit::FixLandCoverFractionsTotal() {
             LogError("No generic soil (open) land cover found. Cannot fix the land cover fractions.");
             return false;
         }
-        if (LessThan(ground->GetAreaFraction(), diff, EPSILON_D)) {
+        if (LessThan(ground->GetAreaFraction(), diff, PRECISION)) {
             LogError(
                 "The generic soil (open) land cover (%.20g) is not large enough to compensate "
                 "the area fractions (%.20g) with error margin (%.20g)."
                 "(i.e. the sum of the other land cover fractions is too large).",
-                ground->GetAreaFraction(), diff, EPSILON_D);
+                ground->GetAreaFraction(), diff, PRECISION);
             return false;
         }
         if (ground->GetAreaFraction() - diff > 0) {
-- 
2.43.0


From 218af1f9fba39d0b4fb26559f2ecb9c702b50f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:29 +0000
Subject: [PATCH 18/34] fix: a land cover that vanished delivered the fluxes of
 its last time step forever

---
 core/src/base/Processor.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index e011e07..1fa6efc 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -257,6 +257,13 @@ bool Processor::ProcessTimeStep(double timeStepInDays) {
                 continue;
             }
             if (brick->IsNull()) {
+                // The brick lost its area: do not deliver again the amounts of its last active time step.
+                for (int i = 0; i < brick->GetProcessCount(); ++i) {
+                    auto process = brick->GetProcess(i);
+                    for (int j = 0; j < process->GetOutputFluxCount(); ++j) {
+                        process->GetOutputFlux(j)->Reset();
+                    }
+                }
                 continue;
             }
 
-- 
2.43.0


From bbbbd67b42ef1a0a7925754d8c86121ab98b749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:11 +0000
Subject: [PATCH 19/34] fix: weight the fluxes of surface components with the
 extent of their land cover

---
 core/src/base/ModelBuilder.cpp       | 2 +-
 core/src/bricks/Glacier.cpp          | 1 +
 core/src/bricks/LandCover.cpp        | 7 +++++--
 core/src/bricks/LandCover.h          | 1 +
 core/src/bricks/SurfaceComponent.cpp | 3 +--
 5 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/core/src/base/ModelBuilder.cpp b/core/src/base/ModelBuilder.cpp
index 96230e5..b78aa49 100644
--- a/core/src/base/ModelBuilder.cpp
+++ b/core/src/base/ModelBuilder.cpp
@@ -502,7 +502,7 @@ void ModelBuilder::BuildHydroUnitBricksFluxes(SettingsModel& modelSettings, Hydr
                                     flux->SetAsStatic();
                                 }
                                 flux->SetType(output.fluxType);
-                                flux->NeedsWeighting(true);
+                                // The process weights the flux with the current areas of the giver and the receiver.
                                 targetBrick->AttachFluxIn(flux);
                                 lateralProcess->AttachFluxOutWithWeight(std::move(fluxPtr),
                                                                         lateralConnection->GetFraction());
diff --git a/core/src/bricks/Glacier.cpp b/core/src/bricks/Glacier.cpp
index 1f91945..37db1fb 100644
--- a/core/src/bricks/Glacier.cpp
+++ b/core/src/bricks/Glacier.cpp
@@ -144,6 +144,7 @@ double* Glacier::GetValuePointer(std::string_view name) {
 }
 
 void Glacier::SurfaceComponentAdded(SurfaceComponent* brick) {
+    LandCover::SurfaceComponentAdded(brick);
     if (brick->GetCategory() == BrickCategory::Snowpack) {
         auto snowpack = dynamic_cast<Snowpack*>(brick);
         _ice->SetRelatedSnowpack(snowpack);
diff --git a/core/src/bricks/LandCover.cpp b/core/src/bricks/LandCover.cpp
index ef7c02f..fef059c 100644
--- a/core/src/bricks/LandCover.cpp
+++ b/core/src/bricks/LandCover.cpp
@@ -34,8 +34,11 @@ void LandCover::SetAreaFraction(double value) {
             }
         }
     }
+    for (auto component : _surfaceComponents) {
+        component->SetAreaFraction(component->GetAreaFraction());  // Its fluxes depend on the extent of the cover.
+    }
 }
 
-void LandCover::SurfaceComponentAdded(SurfaceComponent*) {
-    // Nothing to do.
+void LandCover::SurfaceComponentAdded(SurfaceComponent* brick) {
+    _surfaceComponents.push_back(brick);
 }
diff --git a/core/src/bricks/LandCover.h b/core/src/bricks/LandCover.h
index c76bdeb..7d4de95 100644
--- a/core/src/bricks/LandCover.h
+++ b/core/src/bricks/LandCover.h
@@ -111,6 +111,7 @@ class LandCover : public Brick {
   protected:
     double _areaFraction;
     double _initialAreaFraction;
+    vector<SurfaceComponent*> _surfaceComponents;  // non-owning references
 };
 
 #endif  // HYDROBRICKS_BASE_LAND_COVER_H
diff --git a/core/src/bricks/SurfaceComponent.cpp b/core/src/bricks/SurfaceComponent.cpp
index 1c35f28..88ffe55 100644
--- a/core/src/bricks/SurfaceComponent.cpp
+++ b/core/src/bricks/SurfaceComponent.cpp
@@ -16,8 +16,7 @@ void SurfaceComponent::SetAreaFraction(double value) {
         for (int i = 0; i < process->GetOutputFluxCount(); ++i) {
             Flux* output = process->GetOutputFlux(i);
             if (output->NeedsWeighting()) {
-                value *= _parent->GetAreaFraction();
-                output->SetFractionLandCover(value);
+                output->SetFractionLandCover(value * _parent->GetAreaFraction());
             }
         }
     }
-- 
2.43.0


From c8651275a12f0eda5f3cee42d620fae37f2a2580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:48 +0000
Subject: [PATCH 20/34] fix: refuse to run with a forcing that has no data,
 also after the series were removed

---
 core/src/base/Forcing.cpp      |  4 ++++
 core/src/base/Forcing.h        |  5 +++++
 core/src/base/ModelHydro.cpp   | 13 +++++++++++++
 core/src/spatial/HydroUnit.cpp | 11 +++++++++++
 core/src/spatial/HydroUnit.h   | 12 ++++++++++++
 5 files changed, 45 insertions(+)

diff --git a/core/src/base/Forcing.cpp b/core/src/base/Forcing.cpp
index b5a7f85..ab74b4d 100644
--- a/core/src/base/Forcing.cpp
+++ b/core/src/base/Forcing.cpp
@@ -9,6 +9,10 @@ void Forcing::AttachTimeSeriesData(TimeSeriesData* timeSeriesData) {
     _timeSeriesData = timeSeriesData;
 }
 
+void Forcing::DetachTimeSeriesData() {
+    _timeSeriesData = nullptr;
+}
+
 double Forcing::GetValue() const {
     assert(_timeSeriesData);
     if (_hasUpdatedValue) return _updatedValue;
diff --git a/core/src/base/Forcing.h b/core/src/base/Forcing.h
index 9c0fa6c..edef4cf 100644
--- a/core/src/base/Forcing.h
+++ b/core/src/base/Forcing.h
@@ -17,6 +17,11 @@ class Forcing {
      */
     void AttachTimeSeriesData(TimeSeriesData* timeSeriesData);
 
+    /**
+     * Detach the time series data (when the time series are removed from the model).
+     */
+    void DetachTimeSeriesData();
+
     /**
      * Get the type of the forcing.
      *
diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 9520e94..0a24ef2 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -332,6 +332,12 @@ bool ModelHydro::CreateTimeSeries(const string& varName, const axd& time, const
 }
 
 void ModelHydro::ClearTimeSeries() {
+    // The forcings must not keep pointing to the data removed.
+    if (_subBasin) {
+        for (int iUnit = 0; iUnit < _subBasin->GetHydroUnitCount(); ++iUnit) {
+            _subBasin->GetHydroUnit(iUnit)->DetachForcingData();
+        }
+    }
     _timeSeries.clear();  // Automatic cleanup via unique_ptr
 }
 
@@ -360,6 +366,13 @@ bool ModelHydro::AttachTimeSeriesToHydroUnits() {
 }
 
 ModelResult ModelHydro::InitializeTimeSeries() {
+    for (int iUnit = 0; iUnit < _subBasin->GetHydroUnitCount(); ++iUnit) {
+        const HydroUnit* unit = _subBasin->GetHydroUnit(iUnit);
+        if (!unit->HasAllForcingData()) {
+            return std::unexpected(std::format("The hydro unit {} has no data for some of its forcings.", unit->GetId()));
+        }
+    }
+
     for (const auto& timeSeries : _timeSeries) {
         assert(timeSeries);
         if (!timeSeries->SetCursorToDate(_timer.GetDate())) {
diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 1e4de07..82a6ded 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -1,5 +1,6 @@
 #include "HydroUnit.h"
 
+#include <algorithm>
 #include <cmath>
 #include <utility>
 
@@ -193,6 +194,16 @@ void HydroUnit::ResetForcingUpdates() {
     }
 }
 
+bool HydroUnit::HasAllForcingData() const {
+    return std::ranges::all_of(_forcing, [](const auto& forcing) { return forcing->IsValid(); });
+}
+
+void HydroUnit::DetachForcingData() {
+    for (const auto& forcing : _forcing) {
+        forcing->DetachTimeSeriesData();
+    }
+}
+
 Forcing* HydroUnit::GetForcing(VariableType type) const {
     auto it = _forcingMap.find(type);
     if (it != _forcingMap.end()) {
diff --git a/core/src/spatial/HydroUnit.h b/core/src/spatial/HydroUnit.h
index aa6b8b0..c99da8c 100644
--- a/core/src/spatial/HydroUnit.h
+++ b/core/src/spatial/HydroUnit.h
@@ -115,6 +115,18 @@ class HydroUnit {
      */
     [[nodiscard]] Forcing* GetForcing(VariableType type) const;
 
+    /**
+     * Check that time series data is attached to all the forcings of the hydro unit.
+     *
+     * @return true if all the forcings have their data, false otherwise.
+     */
+    [[nodiscard]] bool HasAllForcingData() const;
+
+    /**
+     * Detach the time series data from all the forcings of the hydro unit.
+     */
+    void DetachForcingData();
+
     /**
      * Reset all dynamic forcing overrides set during the current timestep.
      */
-- 
2.43.0


From ceb517933c482910e51782da99096ae76dcd1a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:55 +0000
Subject: [PATCH 21/34] fix: check the period and the time step of the forcing
 data of every unit, not of the first one alone

---
 core/src/base/TimeSeriesDistributed.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/core/src/base/TimeSeriesDistributed.cpp b/core/src/base/TimeSeriesDistributed.cpp
index af58464..8946d2b 100644
--- a/core/src/base/TimeSeriesDistributed.cpp
+++ b/core/src/base/TimeSeriesDistributed.cpp
@@ -1,5 +1,8 @@
 #include "TimeSeriesDistributed.h"
 
+#include <algorithm>
+#include <cmath>
+
 TimeSeriesDistributed::TimeSeriesDistributed(VariableType type)
     : TimeSeries(type) {}
 
@@ -33,12 +36,19 @@ bool TimeSeriesDistributed::AdvanceOneTimeStep() {
 
 double TimeSeriesDistributed::GetStart() const {
     assert(!_data.empty());
-    return _data[0]->GetStart();
+    // The period covered by the data of all the units.
+    double start = _data[0]->GetStart();
+    for (const auto& data : _data) start = std::max(start, data->GetStart());
+
+    return start;
 }
 
 double TimeSeriesDistributed::GetEnd() const {
     assert(!_data.empty());
-    return _data[0]->GetEnd();
+    double end = _data[0]->GetEnd();
+    for (const auto& data : _data) end = std::min(end, data->GetEnd());
+
+    return end;
 }
 
 double TimeSeriesDistributed::GetTimeStepInDays() const {
@@ -102,6 +112,15 @@ bool TimeSeriesDistributed::IsValid() const {
         }
     }
 
+    // Check that all data have the same time step
+    for (size_t i = 1; i < _data.size(); ++i) {
+        if (std::abs(_data[i]->GetTimeStepInDays() - _data[0]->GetTimeStepInDays()) > 1e-9) {
+            LogError("TimeSeriesDistributed: Time step of the data for unit ID {} differs from the others.",
+                     _unitIds[i]);
+            return false;
+        }
+    }
+
     // Check for duplicate unit IDs
     for (size_t i = 0; i < _unitIds.size(); ++i) {
         for (size_t j = i + 1; j < _unitIds.size(); ++j) {
-- 
2.43.0


From f3502e5260bb51ec6dc8f15060b1cbdc9407cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 22/34] fix: read the dates of the forcing data without loss
 and detect any regular time step

---
 core/src/base/TimeSeries.cpp      | 42 ++++++++++++++++++++++---------
 python/src/hydrobricks/forcing.py |  2 +-
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/core/src/base/TimeSeries.cpp b/core/src/base/TimeSeries.cpp
index c5bf0ee..bc88f26 100644
--- a/core/src/base/TimeSeries.cpp
+++ b/core/src/base/TimeSeries.cpp
@@ -22,7 +22,10 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
         int timeLength = file.GetDimLen("time");
 
         // Get time
-        vecFloat time = file.GetVarFloat1D("time", timeLength);
+        vecDouble time = file.GetVarDouble1D("time", timeLength);
+        if (time.size() < 2) {
+            throw InputError("At least two dates are needed in the forcing data.");
+        }
         Time startSt = GetTimeStructFromMJD(time[0]);
         Time endSt = GetTimeStructFromMJD(time[time.size() - 1]);
         double start = GetMJD(startSt.year, startSt.month, startSt.day, startSt.hour, startSt.min);
@@ -64,7 +67,10 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
                 for (int i = 0; i < values.rows(); ++i) {
                     axd valuesUnit = values.row(i);
                     auto forcingData = std::make_unique<TimeSeriesDataRegular>(start, end, timeStep, timeUnit);
-                    forcingData->SetValues(vector<double>(valuesUnit.data(), valuesUnit.data() + valuesUnit.rows()));
+                    if (!forcingData->SetValues(
+                            vector<double>(valuesUnit.data(), valuesUnit.data() + valuesUnit.rows()))) {
+                        throw RuntimeError("Time series creation failed.");
+                    }
                     timeSeries->AddData(std::move(forcingData), ids[i]);
                 }
             } else {
@@ -73,7 +79,9 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
                     // A column of a column-major array is contiguous, so copy it straight into the vector.
                     const double* colStart = values.col(i).data();
                     auto forcingData = std::make_unique<TimeSeriesDataRegular>(start, end, timeStep, timeUnit);
-                    forcingData->SetValues(vecDouble(colStart, colStart + values.rows()));
+                    if (!forcingData->SetValues(vecDouble(colStart, colStart + values.rows()))) {
+                        throw RuntimeError("Time series creation failed.");
+                    }
                     timeSeries->AddData(std::move(forcingData), ids[i]);
                 }
             }
@@ -91,6 +99,10 @@ bool TimeSeries::Parse(const string& path, vector<std::unique_ptr<TimeSeries>>&
 
 std::unique_ptr<TimeSeries> TimeSeries::Create(const string& varName, const axd& time, const axi& ids,
                                                const axxd& data) {
+    if (time.size() < 2) {
+        throw InputError("At least two dates are needed in the forcing data.");
+    }
+
     // Get time
     Time startSt = GetTimeStructFromMJD(time[0]);
     Time endSt = GetTimeStructFromMJD(time[time.size() - 1]);
@@ -157,17 +169,23 @@ VariableType TimeSeries::MatchVariableType(const string& varName) {
 }
 
 void TimeSeries::ExtractTimeStep(double timeStepData, int& timeStep, TimeUnit& timeUnit) {
-    timeStep = 0;
-    timeUnit = TimeUnit::Day;
-    if (timeStepData == 1.0) {
-        timeStep = 1;
-    } else if (timeStepData > 1.0) {
-        timeStep = static_cast<int>(round(timeStepData));
-    } else if (timeStepData < 1.0) {
+    if (!(timeStepData > 0)) {
+        throw InputError(std::format("Invalid time step in the forcing data: {}", timeStepData));
+    }
+
+    // The dates are given with a limited precision; the time step is a whole number of minutes.
+    constexpr int minutesPerHour = 60;
+    constexpr int minutesPerDay = 1440;
+    int minutes = static_cast<int>(round(timeStepData * minutesPerDay));
+    if (minutes % minutesPerDay == 0) {
+        timeStep = minutes / minutesPerDay;
+        timeUnit = TimeUnit::Day;
+    } else if (minutes % minutesPerHour == 0) {
+        timeStep = minutes / minutesPerHour;
         timeUnit = TimeUnit::Hour;
-        timeStep = static_cast<int>(round(timeStepData * 24));
     } else {
-        throw ShouldNotHappen(std::format("TimeSeries::ExtractTimeStep - Invalid time step value: {}", timeStepData));
+        timeStep = minutes;
+        timeUnit = TimeUnit::Minute;
     }
 }
 
diff --git a/python/src/hydrobricks/forcing.py b/python/src/hydrobricks/forcing.py
index 1ebed77..6c13cd9 100644
--- a/python/src/hydrobricks/forcing.py
+++ b/python/src/hydrobricks/forcing.py
@@ -738,7 +738,7 @@ class Forcing:
             var_id = nc.createVariable("id", "int", ("hydro_units",))
             var_id[:] = self.hydro_units["id"]
 
-            var_time = nc.createVariable("time", "float32", ("time",))
+            var_time = nc.createVariable("time", "float64", ("time",))
             var_time[:] = time
             var_time.units = "days since 1858-11-17 00:00:00"
             var_time.comment = "Modified Julian Day Number"
-- 
2.43.0


From cd7a8b577ad7c9a626f818734667d33291aeb2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:54 +0000
Subject: [PATCH 23/34] fix: no ice (and not NaN) where the glacier table
 starts without area

---
 core/src/actions/ActionGlacierEvolutionAreaScaling.cpp | 2 +-
 core/src/actions/ActionGlacierEvolutionDeltaH.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index 119a76f..a33e551 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -59,7 +59,7 @@ bool ActionGlacierEvolutionAreaScaling::Init() {
             LogError("The land cover {} was not found in hydro unit {}", _landCoverName, id);
             return false;
         }
-        double iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
+        double iceWE = NearlyZero(areaRef, PRECISION) ? 0.0 : _tableVolume(0, i) * constants::iceDensity / areaRef;
         brick->UpdateContent(iceWE, ContentType::Ice);
         brick->SetInitialState(iceWE, ContentType::Ice);
     }
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index ea2f6f7..c5cd006 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -61,7 +61,7 @@ bool ActionGlacierEvolutionDeltaH::Init() {
             LogError("The land cover {} was not found in hydro unit {}", _landCoverName, id);
             return false;
         }
-        double iceWE = _tableVolume(0, i) * constants::iceDensity / areaRef;
+        double iceWE = NearlyZero(areaRef, PRECISION) ? 0.0 : _tableVolume(0, i) * constants::iceDensity / areaRef;
         brick->UpdateContent(iceWE, ContentType::Ice);
         brick->SetInitialState(iceWE, ContentType::Ice);
     }
-- 
2.43.0


From 57c1fe3af2f2c35ca3451edba4dfec7d08739efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:54 +0000
Subject: [PATCH 24/34] fix: the glacier extents taken from the table are
 restored by a reset

---
 core/src/actions/ActionGlacierEvolutionAreaScaling.cpp | 2 ++
 core/src/actions/ActionGlacierEvolutionDeltaH.cpp      | 2 ++
 core/src/spatial/HydroUnit.cpp                         | 6 ++++++
 core/src/spatial/HydroUnit.h                           | 5 +++++
 4 files changed, 15 insertions(+)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index a33e551..b9b16ba 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -45,6 +45,8 @@ bool ActionGlacierEvolutionAreaScaling::Init() {
             if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
                 return false;
             }
+            // This is the extent to restore when the model is reset.
+            unit->SaveInitialAreaFractions();
         } else if (!NearlyEqual(areaInModel, areaRef, PRECISION)) {
             LogError(
                 "The glacier area fraction in hydro unit %d does not match the lookup table "
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index c5cd006..4be21a5 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -47,6 +47,8 @@ bool ActionGlacierEvolutionDeltaH::Init() {
             if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
                 return false;
             }
+            // This is the extent to restore when the model is reset.
+            unit->SaveInitialAreaFractions();
         } else if (!NearlyEqual(areaInModel, areaRef, PRECISION)) {
             LogError(
                 "The glacier area fraction in hydro unit %d does not match the lookup table "
diff --git a/core/src/spatial/HydroUnit.cpp b/core/src/spatial/HydroUnit.cpp
index 82a6ded..f272edb 100644
--- a/core/src/spatial/HydroUnit.cpp
+++ b/core/src/spatial/HydroUnit.cpp
@@ -470,6 +470,12 @@ void HydroUnit::TransferLandCoverContent(LandCover* changed, double oldFraction,
     }
 }
 
+void HydroUnit::SaveInitialAreaFractions() {
+    for (auto brick : _landCoverBricks) {
+        brick->SetInitialAreaFraction(brick->GetAreaFraction());
+    }
+}
+
 void HydroUnit::RestoreInitialAreaFractions() {
     for (auto brick : _landCoverBricks) {
         brick->RestoreInitialAreaFraction();
diff --git a/core/src/spatial/HydroUnit.h b/core/src/spatial/HydroUnit.h
index c99da8c..b6de173 100644
--- a/core/src/spatial/HydroUnit.h
+++ b/core/src/spatial/HydroUnit.h
@@ -319,6 +319,11 @@ class HydroUnit {
      */
     bool FixLandCoverFractionsTotal();
 
+    /**
+     * Adopt the current area fractions of all land covers as their initial extents.
+     */
+    void SaveInitialAreaFractions();
+
     /**
      * Restore the area fractions of all land covers to their initial extents without
      * touching the stored contents (used after the spin-up phase).
-- 
2.43.0


From 88c1a1ab1f9c80d9be15cbdffb0b6687ebb2e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:54 +0000
Subject: [PATCH 25/34] fix: glacier extents follow the row of the ice left
 after a reset and without ice

---
 .../ActionGlacierEvolutionAreaScaling.cpp     |  5 ++-
 .../actions/ActionGlacierEvolutionDeltaH.cpp  | 33 ++++++++-----------
 .../actions/ActionGlacierEvolutionDeltaH.h    |  1 -
 3 files changed, 16 insertions(+), 23 deletions(-)

diff --git a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
index b9b16ba..3f4664e 100644
--- a/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
+++ b/core/src/actions/ActionGlacierEvolutionAreaScaling.cpp
@@ -78,9 +78,8 @@ bool ActionGlacierEvolutionAreaScaling::Apply(double) {
     // Get the list of hydro units.
     auto subBasin = _manager->GetModel()->GetSubBasin();
 
-    // Get the percentage of glacier retreat for each row of the table.
+    // The rows of the table are equally spaced in percentage of glacier retreat.
     int nRows = static_cast<int>(_tableArea.rows());
-    double rowPcIncrement = 1.0 / (nRows - 1);
 
     // Change the glacier area for each hydro unit based on the lookup table.
     for (int i = 0; i < _hydroUnitIds.size(); ++i) {
@@ -105,7 +104,7 @@ bool ActionGlacierEvolutionAreaScaling::Apply(double) {
         glacierRetreatPc = std::max(0.0, glacierRetreatPc);
 
         // Get corresponding row in the lookup table.
-        int row = static_cast<int>(glacierRetreatPc / rowPcIncrement);
+        int row = static_cast<int>(glacierRetreatPc * (nRows - 1));
 
         // Update the glacier area.
         double newArea = _tableArea(row, i);
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
index 4be21a5..6cc8e19 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.cpp
@@ -73,9 +73,7 @@ bool ActionGlacierEvolutionDeltaH::Init() {
 
 void ActionGlacierEvolutionDeltaH::Reset() {
     // The glacier extent and ice volume are restored from the model's saved initial
-    // state (Glacier::Reset); only the lookup-table cursor needs resetting so the next
-    // run re-applies the evolution from the initial (full-glacier) row.
-    _lastRow = 0;
+    // state (Glacier::Reset); this action keeps no per-run bookkeeping to reset.
 }
 
 bool ActionGlacierEvolutionDeltaH::Apply(double) {
@@ -101,26 +99,23 @@ bool ActionGlacierEvolutionDeltaH::Apply(double) {
     double glacierRetreatPc = (_initialGlacierWE - glacierWE) / _initialGlacierWE;
     glacierRetreatPc = std::max(0.0, glacierRetreatPc);
 
-    // Get the percentage of glacier retreat for each row of the table.
+    // The rows of the table are equally spaced in percentage of glacier retreat.
     int nRows = static_cast<int>(_tableArea.rows());
-    double rowPcIncrement = 1.0 / (nRows - 1);
 
     // Get corresponding row in the lookup table.
-    int row = static_cast<int>(glacierRetreatPc / rowPcIncrement);
-
-    // Update the glacier area for each hydro unit if the row has changed.
-    if (row != _lastRow) {
-        for (int i = 0; i < _hydroUnitIds.size(); ++i) {
-            int id = _hydroUnitIds[i];
-            HydroUnit* unit = subBasin->GetHydroUnitById(id);
-            double fraction = _tableArea(row, i) / unit->GetArea();
-            fraction = CheckLandCoverAreaFraction(_landCoverName, id, fraction, unit->GetArea(), _tableArea(row, i));
-            assert(fraction >= 0 && fraction <= 1);
-            if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
-                return false;
-            }
+    int row = static_cast<int>(glacierRetreatPc * (nRows - 1));
+
+    // Update the glacier area for each hydro unit. The extents may not be those of the row of the last application, as
+    // they are restored when the model is reset (to those of a saved state, possibly).
+    for (int i = 0; i < _hydroUnitIds.size(); ++i) {
+        int id = _hydroUnitIds[i];
+        HydroUnit* unit = subBasin->GetHydroUnitById(id);
+        double fraction = _tableArea(row, i) / unit->GetArea();
+        fraction = CheckLandCoverAreaFraction(_landCoverName, id, fraction, unit->GetArea(), _tableArea(row, i));
+        assert(fraction >= 0 && fraction <= 1);
+        if (!unit->ChangeLandCoverAreaFraction(_landCoverName, fraction)) {
+            return false;
         }
-        _lastRow = row;
     }
 
     // Update the glacier water equivalent for each hydro unit to spread the glacier ice accordingly.
diff --git a/core/src/actions/ActionGlacierEvolutionDeltaH.h b/core/src/actions/ActionGlacierEvolutionDeltaH.h
index e1cd801..58e83ce 100644
--- a/core/src/actions/ActionGlacierEvolutionDeltaH.h
+++ b/core/src/actions/ActionGlacierEvolutionDeltaH.h
@@ -80,7 +80,6 @@ class ActionGlacierEvolutionDeltaH : public Action {
     }
 
   protected:
-    int _lastRow{0};
     string _landCoverName;
     axi _hydroUnitIds;
     axxd _tableArea;
-- 
2.43.0


From 46e3f7fff16352504062784bb52150e0f7ec8d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 26/34] fix: the total outlet discharge only sums the outlet

Components whose name contains 'outlet' were added to the total (and with it to the water balance).
---
 core/src/base/Logger.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/src/base/Logger.cpp b/core/src/base/Logger.cpp
index 4bf6fb4..731f0d6 100644
--- a/core/src/base/Logger.cpp
+++ b/core/src/base/Logger.cpp
@@ -220,7 +220,15 @@ double Logger::GetTotalHydroUnits(const string& item, bool needsAreaWeighting) c
 }
 
 double Logger::GetTotalOutletDischarge() const {
-    return GetTotalSubBasin("outlet");
+    // Only the outlet itself: the labels of other components may contain its name.
+    double sum = 0;
+    for (auto [label, values] : std::views::zip(_subBasinLabels, _subBasinValues)) {
+        if (label == "outlet") {
+            sum += values.sum();
+        }
+    }
+
+    return sum;
 }
 
 double Logger::GetTotalET() const {
-- 
2.43.0


From 1b1d7177ada925084b42d877b732a8a3ac2d12e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 27/34] fix: a directly computed store does not reserve an
 overflow that does not happen

---
 core/src/base/Processor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/base/Processor.cpp b/core/src/base/Processor.cpp
index 1fa6efc..cd8259b 100644
--- a/core/src/base/Processor.cpp
+++ b/core/src/base/Processor.cpp
@@ -310,6 +310,7 @@ void Processor::ApplyDirectChanges(Brick* brick, int& ptIndex, double timeStepIn
             iRate++;
         }
     }
+    const int endRate = iRate;
 
     iRate = ptIndex;
     for (int i = 0; i < brick->GetProcessCount(); ++i) {
@@ -336,6 +337,11 @@ void Processor::ApplyDirectChanges(Brick* brick, int& ptIndex, double timeStepIn
             iRate++;
             ptIndex++;
         }
+
+        // The overflow assessed along with this process is assessed again with the following ones, on what is left.
+        for (int j = iRate; j < endRate; ++j) {
+            _changeRatesNoSolver(j) = 0;
+        }
     }
 
     brick->Finalize();
-- 
2.43.0


From b622a78f8981a338bfe088eb5de8066695d8e268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:03 +0000
Subject: [PATCH 28/34] fix: the outflow of the rest leaves the other outflows
 their current share with every solver

---
 core/src/processes/ProcessOutflowRest.cpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/core/src/processes/ProcessOutflowRest.cpp b/core/src/processes/ProcessOutflowRest.cpp
index 494d263..eb7ea5a 100644
--- a/core/src/processes/ProcessOutflowRest.cpp
+++ b/core/src/processes/ProcessOutflowRest.cpp
@@ -1,5 +1,7 @@
 #include "ProcessOutflowRest.h"
 
+#include <numeric>
+
 #include "Brick.h"
 #include "WaterContainer.h"
 
@@ -16,23 +18,18 @@ const vecDouble& ProcessOutflowRest::GetRates() {
     Brick* brick = _container->GetParentBrick();
     if (brick != nullptr && brick->NeedsSolver()) {
         // Solver brick: the other processes have not been applied yet, so the content is still full.
-        // Subtract their CURRENT outflow rates (linked change-rate pointers, not the stored amounts)
-        // so that the demands sum to the available content and the split is not distorted by the
-        // container's non-negativity constraint. Note: under multi-stage solvers (Heun, RK4) the
-        // sibling rate seen in corrector stages is one stage stale, since the change-rate pointers
-        // are only (re)linked in the constrained pass; the result stays stable and mass-conserving
-        // (exact on Euler). The mm-vs-rate subtraction follows the dt = 1 convention of this process.
+        // Subtract what they take at the current content, so that the demands sum to the available
+        // content and the split is not distorted by the container's non-negativity constraint. Their
+        // rates are evaluated here, as the rates linked to the fluxes are those of another stage (or of
+        // the previous time step) with most of the solvers. The mm-vs-rate subtraction follows the
+        // dt = 1 convention of this process.
         for (int i = 0; i < brick->GetProcessCount(); ++i) {
             Process* process = brick->GetProcess(i);
-            if (process == this) {
+            if (dynamic_cast<ProcessOutflowRest*>(process) != nullptr) {
                 continue;
             }
-            for (int j = 0; j < process->GetOutputFluxCount(); ++j) {
-                double* rate = process->GetOutputFlux(j)->GetChangeRatePointer();
-                if (rate != nullptr) {
-                    rest -= *rate;
-                }
-            }
+            const vecDouble& rates = process->GetChangeRates();
+            rest -= std::accumulate(rates.begin(), rates.end(), 0.0);
         }
     }
     // Direct brick: the content already reflects the siblings' withdrawals, so take it as-is.
-- 
2.43.0


From 5d12283f2810dcaa66fa3c6ba7c835572175674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:03 +0000
Subject: [PATCH 29/34] fix: the HBV routing takes its base in days with any
 time step

---
 core/src/base/ModelHydro.cpp             | 7 ++++---
 core/src/processes/ProcessRoutingHBV.cpp | 9 +++++++--
 core/src/processes/ProcessRoutingHBV.h   | 4 ++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/core/src/base/ModelHydro.cpp b/core/src/base/ModelHydro.cpp
index 0a24ef2..8da7555 100644
--- a/core/src/base/ModelHydro.cpp
+++ b/core/src/base/ModelHydro.cpp
@@ -39,15 +39,16 @@ ModelResult ModelHydro::Initialize(SettingsModel& modelSettings, SettingsBasin&
             return std::unexpected("Model settings are not valid.");
         }
 
-        ModelBuilder builder(_subBasin, &_timer, &_logger);
-        builder.BuildModelStructure(modelSettings);
-
+        // The processes need the time step when they are built.
         _timer.Initialize(modelSettings.GetTimerSettings());
 
         if (!_timer.IsValid()) {
             return std::unexpected("Timer initialization failed validation.");
         }
 
+        ModelBuilder builder(_subBasin, &_timer, &_logger);
+        builder.BuildModelStructure(modelSettings);
+
         // Convert the spin-up duration into time steps; a spin-up longer than the
         // modelling period degrades to replaying the whole period once.
         double timeStepInDays = *_timer.GetTimeStepPointer();
diff --git a/core/src/processes/ProcessRoutingHBV.cpp b/core/src/processes/ProcessRoutingHBV.cpp
index d18d56a..389d4a1 100644
--- a/core/src/processes/ProcessRoutingHBV.cpp
+++ b/core/src/processes/ProcessRoutingHBV.cpp
@@ -4,6 +4,7 @@
 #include <numeric>
 
 #include "Brick.h"
+#include "TimeMachine.h"
 #include "WaterContainer.h"
 
 ProcessRoutingHBV::ProcessRoutingHBV(WaterContainer* container)
@@ -77,7 +78,9 @@ const vecDouble& ProcessRoutingHBV::GetRates() {
     // previous under-deliveries) plus the same-step share of this timestep's inflow.
     double in = _container->SumIncomingFluxes();
 
-    return StoreRates({std::max(0.0, _stuh[0]) + _uhOrd[0] * in});
+    double timeStep = (_timeMachine != nullptr) ? *_timeMachine->GetTimeStepPointer() : 1.0;
+
+    return StoreRates({(std::max(0.0, _stuh[0]) + _uhOrd[0] * in) / timeStep});
 }
 
 void ProcessRoutingHBV::Finalize() {
@@ -116,7 +119,9 @@ void ProcessRoutingHBV::_recomputeUH() {
         return;
     }
 
-    double maxbas = *_maxbas;
+    // The base is in days, the ordinates are those of the timesteps.
+    double timeStep = (_timeMachine != nullptr) ? *_timeMachine->GetTimeStepPointer() : 1.0;
+    double maxbas = *_maxbas / timeStep;
     if (maxbas < 1.0) {
         maxbas = 1.0;  // shorter than the timestep: pass-through
     }
diff --git a/core/src/processes/ProcessRoutingHBV.h b/core/src/processes/ProcessRoutingHBV.h
index 73baed6..fe9cf41 100644
--- a/core/src/processes/ProcessRoutingHBV.h
+++ b/core/src/processes/ProcessRoutingHBV.h
@@ -12,9 +12,9 @@
  * weighting function of base maxbas [d]:
  *   - cumulative weights C(t) = 2(t/m)^2 for t <= m/2
  *   -                    C(t) = 1 - 2(1 - t/m)^2 for m/2 < t <= m
- *   - ordinates w_j = C(j) - C(j-1), j = 1..ceil(m)
+ *   - ordinates w_j = C(j dt) - C((j-1) dt), j = 1..ceil(m/dt), for a timestep dt [d]
  *
- * With maxbas <= 1 the inflow is passed through within the timestep.
+ * With a maxbas up to the timestep, the inflow is passed through within the timestep.
  *
  * The process maintains a delivery schedule (_stuh): each slot holds the water
  * due to leave that many timesteps from now. GetRates() is read-only (the
-- 
2.43.0


From 4d77eabad27b8097dcbbac3aae224b04d79dc5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:03 +0000
Subject: [PATCH 30/34] fix: the storage of the GR routing leaves out the water
 that has left the unit hydrographs

---
 core/src/processes/ProcessRoutingGR4J.cpp | 5 +++--
 core/src/processes/ProcessRoutingGR6J.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index 66ddb2c..2e59129 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -177,8 +177,9 @@ void ProcessRoutingGR4J::Finalize() {
     _r -= _qr;
     _qd = std::max(0.0, _stuh2[0] + F);
 
-    _processStorage = _r + std::accumulate(_stuh1.begin(), _stuh1.end(), 0.0) +
-                      std::accumulate(_stuh2.begin(), _stuh2.end(), 0.0);
+    // The first amounts of the unit hydrographs have left them in this timestep.
+    _processStorage = _r + std::accumulate(_stuh1.begin() + 1, _stuh1.end(), 0.0) +
+                      std::accumulate(_stuh2.begin() + 1, _stuh2.end(), 0.0);
 }
 
 void ProcessRoutingGR4J::_recomputeUH() {
diff --git a/core/src/processes/ProcessRoutingGR6J.cpp b/core/src/processes/ProcessRoutingGR6J.cpp
index dd0d900..1fc7d9f 100644
--- a/core/src/processes/ProcessRoutingGR6J.cpp
+++ b/core/src/processes/ProcessRoutingGR6J.cpp
@@ -221,8 +221,9 @@ void ProcessRoutingGR6J::Finalize() {
     // Direct branch.
     _qd = std::max(0.0, uh2_out + F);
 
-    _processStorage = _r + _rexp + std::accumulate(_stuh1.begin(), _stuh1.end(), 0.0) +
-                      std::accumulate(_stuh2.begin(), _stuh2.end(), 0.0);
+    // The first amounts of the unit hydrographs have left them in this timestep.
+    _processStorage = _r + _rexp + std::accumulate(_stuh1.begin() + 1, _stuh1.end(), 0.0) +
+                      std::accumulate(_stuh2.begin() + 1, _stuh2.end(), 0.0);
 }
 
 void ProcessRoutingGR6J::_recomputeUH() {
-- 
2.43.0


From 32867aff9da0968c54e3f53e6c840191391b03f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:03 +0000
Subject: [PATCH 31/34] fix: the GR4J exchange enters the routing store once
 per time step with every solver

---
 core/src/processes/ProcessRoutingGR4J.cpp | 10 +++++++---
 core/src/processes/ProcessRoutingGR4J.h   |  3 +++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/src/processes/ProcessRoutingGR4J.cpp b/core/src/processes/ProcessRoutingGR4J.cpp
index 2e59129..f3b5c2a 100644
--- a/core/src/processes/ProcessRoutingGR4J.cpp
+++ b/core/src/processes/ProcessRoutingGR4J.cpp
@@ -41,6 +41,7 @@ void ProcessRoutingGR4J::Reset() {
     _r = _initialR;
     _qr = 0.0;
     _qd = 0.0;
+    _injectedExchange = 0.0;
     _processStorage = _initialProcessStorage;
 }
 
@@ -125,9 +126,10 @@ const vecDouble& ProcessRoutingGR4J::GetRates() {
     if (_timeMachine != nullptr) {
         double exchangeToStore = r_pred - (_r + uh1_out);  // F applied to the routing store (clamped)
         double exchangeToDirect = _qd - uh2_out;           // F applied to the direct branch (clamped)
-        double netExchange = exchangeToStore + exchangeToDirect;
-        if (netExchange != 0.0) {
-            _container->AddAmountToStaticContentChange(netExchange * (*_timeMachine->GetTimeStepPointer()));
+        double netExchange = (exchangeToStore + exchangeToDirect) * (*_timeMachine->GetTimeStepPointer());
+        if (netExchange != _injectedExchange) {
+            _container->AddAmountToStaticContentChange(netExchange - _injectedExchange);
+            _injectedExchange = netExchange;
         }
     }
 
@@ -142,6 +144,8 @@ void ProcessRoutingGR4J::Finalize() {
         return;
     }
 
+    _injectedExchange = 0.0;
+
     double X2 = *_exchangeFactor;
     double X3 = *_routingCapacity;
 
diff --git a/core/src/processes/ProcessRoutingGR4J.h b/core/src/processes/ProcessRoutingGR4J.h
index 75b5fb9..d3c945a 100644
--- a/core/src/processes/ProcessRoutingGR4J.h
+++ b/core/src/processes/ProcessRoutingGR4J.h
@@ -79,6 +79,9 @@ class ProcessRoutingGR4J : public ProcessOutflow {
     double _qr;
     double _qd;
 
+    // Groundwater exchange injected in the container during the current timestep
+    double _injectedExchange = 0.0;
+
     // Cached total process-internal water storage for water balance logging
     double _processStorage;
 
-- 
2.43.0


From aadfa79916696d5bf43b8eae3fb598f5ecbfaa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:32 +0000
Subject: [PATCH 32/34] fix: the HBV routing measures what has left in its own
 depth

---
 core/src/processes/ProcessRoutingHBV.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/processes/ProcessRoutingHBV.cpp b/core/src/processes/ProcessRoutingHBV.cpp
index 389d4a1..3239fe5 100644
--- a/core/src/processes/ProcessRoutingHBV.cpp
+++ b/core/src/processes/ProcessRoutingHBV.cpp
@@ -93,8 +93,9 @@ void ProcessRoutingHBV::Finalize() {
 
     // Water actually delivered to the outlet and actually received this timestep. The
     // applied rate can deviate from the scheduled delivery (solver stage averaging,
-    // rate constraints), so both are measured on the committed amounts.
-    double delivered = *_outputs[0]->GetAmountPointer();
+    // rate constraints), so both are measured on the committed amounts. The amount of
+    // the flux is weighted by the share of the area it comes from.
+    double delivered = *_outputs[0]->GetAmountPointer() / _outputs[0]->GetFractionTotal();
     double content = _container->GetContentWithoutChanges();
     double inflow = content - _previousContent + delivered;
     _previousContent = content;
-- 
2.43.0


From 72407e72f34673654cb06e2035d36186e1bcd5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:44 +0000
Subject: [PATCH 33/34] fix: a request for parameters that cannot be fulfilled
 leaves the settings untouched; parameters of the sub-basin by type

---
 core/src/base/SettingsModel.cpp | 178 +++++++++++++++++---------------
 core/src/base/SettingsModel.h   |  12 ++-
 2 files changed, 100 insertions(+), 90 deletions(-)

diff --git a/core/src/base/SettingsModel.cpp b/core/src/base/SettingsModel.cpp
index 9b73ecd..4096be3 100644
--- a/core/src/base/SettingsModel.cpp
+++ b/core/src/base/SettingsModel.cpp
@@ -921,113 +921,119 @@ vecStr SettingsModel::GetSubBasinGenericLogLabels() const {
 }
 
 bool SettingsModel::SetParameterValue(const string& component, const string& name, float value) {
-    // Check if the parameter should be set for multiple components
-    if (component.find(',') != string::npos) {
-        vecStr components;
-        {
-            std::istringstream _ss(component);
-            string _tok;
-            while (std::getline(_ss, _tok, ',')) {
-                _tok.erase(0, _tok.find_first_not_of(" "));
-                _tok.erase(_tok.find_last_not_of(" ") + 1);
-                if (!_tok.empty()) components.push_back(_tok);
-            }
-        }
-        for (const auto& componentItem : components) {
-            if (!SetParameterValue(componentItem, name, value)) {
-                LogError("Fail to set the parameter '{}' for the component '{}'.", name, componentItem);
-                return false;
-            }
+    // The parameter can be set for multiple components
+    vecStr components;
+    {
+        std::istringstream _ss(component);
+        string _tok;
+        while (std::getline(_ss, _tok, ',')) {
+            _tok.erase(0, _tok.find_first_not_of(" "));
+            _tok.erase(_tok.find_last_not_of(" ") + 1);
+            if (!_tok.empty()) components.push_back(_tok);
         }
-        return true;
     }
 
-    // Apply to every structure variant that contains the component (a parameter may
-    // live in several variants, e.g. the shared subsurface, or in only one, e.g. a
-    // glacier brick present only in the glacier variant).
-    int previousId = _selectedStructure->id;
-    bool foundAny = false;
-    for (auto& modelStructure : _modelStructures) {
-        _selectedStructure = &modelStructure;
-        _selectedBrick = nullptr;
-        _selectedProcess = nullptr;
-        _selectedSplitter = nullptr;
-        if (SetParameterValueInSelectedStructure(component, name, value)) {
-            foundAny = true;
+    // Find all the parameters before changing any, so that a request that cannot be
+    // fulfilled leaves the settings untouched.
+    std::vector<Parameter*> parameters;
+    for (const auto& componentItem : components) {
+        if (!FindParameters(componentItem, name, parameters)) {
+            LogError("Fail to set the parameter '{}' for the component '{}'.", name, componentItem);
+            return false;
         }
     }
-    SelectStructure(previousId);
 
-    if (!foundAny) {
-        LogError("Cannot find the component '{}'.", component);
+    for (auto parameter : parameters) {
+        parameter->SetValue(value);
     }
 
-    return foundAny;
+    return !components.empty();
 }
 
-bool SettingsModel::SetParameterValueInSelectedStructure(const string& component, const string& name, float value) {
-    // Get target object
-    if (SelectHydroUnitBrickIfFound(component) || SelectSubBasinBrickIfFound(component)) {
-        if (BrickHasParameter(name)) {
-            SetBrickParameterValue(name, value);
-        } else {
-            SelectProcessWithParameter(name);
-            SetProcessParameterValue(name, value);
-        }
-        return true;
-    } else if (SelectHydroUnitSplitterIfFound(component) || SelectSubBasinSplitterIfFound(component)) {
-        SetSplitterParameterValue(name, value);
-        return true;
-    } else if (component.find("type:") != string::npos) {
-        string type = component.substr(component.find(':') + 1);
-
-        // 'type:land_cover' is a meta-type matching every land-cover brick (generic
-        // land covers and glaciers), so a parameter can be set for all land covers
-        // at once regardless of their specific type. Otherwise the exact type string
-        // is matched.
-        auto typeMatches = [&type](const string& brickType) {
-            if (brickType == type) {
-                return true;
-            }
-            if (type == "land_cover") {
-                BrickType bt = BrickTypeFromString(brickType);
-                return bt == BrickType::GenericLandCover || bt == BrickType::Glacier;
+bool SettingsModel::FindParameters(const string& component, const string& name, std::vector<Parameter*>& parameters) {
+    auto findIn = [&name](std::vector<Parameter>& candidates) -> Parameter* {
+        for (auto& parameter : candidates) {
+            if (parameter.GetName() == name) {
+                return &parameter;
             }
-            return false;
-        };
-
-        // Set the parameter for all matching bricks - hydro units
-        for (auto& brick : _selectedStructure->hydroUnitBricks) {
-            if (typeMatches(brick.type)) {
-                SelectHydroUnitBrick(brick.name);
-                if (BrickHasParameter(name)) {
-                    SetBrickParameterValue(name, value);
-                } else {
-                    SelectProcessWithParameter(name);
-                    SetProcessParameterValue(name, value);
+        }
+        return nullptr;
+    };
+
+    // The parameter of a brick, or of its first process that has it
+    auto findInBrick = [&findIn](BrickSettings& brick) -> Parameter* {
+        Parameter* parameter = findIn(brick.parameters);
+        for (auto& process : brick.processes) {
+            if (parameter) break;
+            parameter = findIn(process.parameters);
+        }
+        return parameter;
+    };
+
+    // 'type:land_cover' is a meta-type matching every land-cover brick (generic
+    // land covers and glaciers), so a parameter can be set for all land covers
+    // at once regardless of their specific type. Otherwise the exact type string
+    // is matched.
+    const bool byType = component.starts_with("type:");
+    const string type = byType ? component.substr(component.find(':') + 1) : "";
+    auto typeMatches = [&type](const string& brickType) {
+        if (brickType == type) {
+            return true;
+        }
+        if (type == "land_cover") {
+            BrickType bt = BrickTypeFromString(brickType);
+            return bt == BrickType::GenericLandCover || bt == BrickType::Glacier;
+        }
+        return false;
+    };
+
+    // Consider every structure variant that contains the component (a parameter may
+    // live in several variants, e.g. the shared subsurface, or in only one, e.g. a
+    // glacier brick present only in the glacier variant).
+    const size_t countBefore = parameters.size();
+    bool foundComponent = false;
+    for (auto& structure : _modelStructures) {
+        bool foundInStructure = false;
+        for (auto bricks : {&structure.hydroUnitBricks, &structure.subBasinBricks}) {
+            for (auto& brick : *bricks) {
+                if (byType ? !typeMatches(brick.type) : foundInStructure || brick.name != component) {
+                    continue;
+                }
+                foundInStructure = true;
+                if (Parameter* parameter = findInBrick(brick)) {
+                    parameters.push_back(parameter);
+                } else if (byType) {
+                    throw ModelConfigError(std::format("The parameter '{}' was not found for '{}'.", name, brick.name));
                 }
             }
         }
-
-        // Set the parameter for all matching bricks - subbasins
-        for (auto& brick : _selectedStructure->subBasinBricks) {
-            if (typeMatches(brick.type)) {
-                SelectHydroUnitBrick(brick.name);
-                if (BrickHasParameter(name)) {
-                    SetBrickParameterValue(name, value);
-                } else {
-                    SelectProcessWithParameter(name);
-                    SetProcessParameterValue(name, value);
+        for (auto splitters : {&structure.hydroUnitSplitters, &structure.subBasinSplitters}) {
+            for (auto& splitter : *splitters) {
+                if (foundInStructure || splitter.name != component) {
+                    continue;
+                }
+                foundInStructure = true;
+                if (Parameter* parameter = findIn(splitter.parameters)) {
+                    parameters.push_back(parameter);
                 }
             }
         }
+        foundComponent = foundComponent || foundInStructure;
+    }
 
-    } else {
-        // Not found in this structure variant (the caller tries every variant and
-        // logs once if none match).
+    if (byType) {
+        return true;
+    }
+
+    if (!foundComponent) {
+        LogError("Cannot find the component '{}'.", component);
         return false;
     }
 
+    if (parameters.size() == countBefore) {
+        throw ModelConfigError(std::format("The parameter '{}' was not found for '{}'.", name, component));
+    }
+
     return true;
 }
 
diff --git a/core/src/base/SettingsModel.h b/core/src/base/SettingsModel.h
index e72cc7a..8a03b83 100644
--- a/core/src/base/SettingsModel.h
+++ b/core/src/base/SettingsModel.h
@@ -852,11 +852,15 @@ class SettingsModel {
 
   protected:
     /**
-     * Try to set a parameter value within the currently selected structure only.
-     * Returns true if the component was found (or, for a 'type:' component, handled)
-     * in that structure; false otherwise. No logging on miss.
+     * Find a parameter of a component (brick or splitter name, or 'type:' followed by a brick type) in all structures.
+     * Throws if the component does not have the parameter.
+     *
+     * @param component name of the component.
+     * @param name name of the parameter.
+     * @param parameters vector to which the parameters found are added.
+     * @return true if the component was found, false otherwise.
      */
-    bool SetParameterValueInSelectedStructure(const string& component, const string& name, float value);
+    bool FindParameters(const string& component, const string& name, std::vector<Parameter*>& parameters);
 
     bool _logAll;
     bool _recordFractions;
-- 
2.43.0


From d3a840d94400c0f634c400e09705ad0965329cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:44 +0000
Subject: [PATCH 34/34] fix: an infinite glacier can be made finite again by
 its parameter

---
 core/src/bricks/Glacier.cpp          | 4 ++--
 core/src/containers/WaterContainer.h | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/src/bricks/Glacier.cpp b/core/src/bricks/Glacier.cpp
index 37db1fb..d81e757 100644
--- a/core/src/bricks/Glacier.cpp
+++ b/core/src/bricks/Glacier.cpp
@@ -22,8 +22,8 @@ void Glacier::SetParameters(const BrickSettings& brickSettings) {
     Brick::SetParameters(brickSettings);
     if (HasParameter(brickSettings, "infinite_storage")) {
         const float* valPtr = GetParameterValuePointer(brickSettings, "infinite_storage");
-        if (valPtr && !NearlyZero(*valPtr, EPSILON_F)) {
-            _ice->SetAsInfiniteStorage();
+        if (valPtr) {
+            _ice->SetAsInfiniteStorage(!NearlyZero(*valPtr, EPSILON_F));
         }
     }
 
diff --git a/core/src/containers/WaterContainer.h b/core/src/containers/WaterContainer.h
index 60d81da..981f049 100644
--- a/core/src/containers/WaterContainer.h
+++ b/core/src/containers/WaterContainer.h
@@ -115,10 +115,12 @@ class WaterContainer {
     }
 
     /**
-     * Set the water container as an infinite storage.
+     * Set the water container as an infinite storage or not.
+     *
+     * @param infinite true if the storage is infinite.
      */
-    void SetAsInfiniteStorage() {
-        _infiniteStorage = true;
+    void SetAsInfiniteStorage(bool infinite = true) {
+        _infiniteStorage = infinite;
     }
 
     /**
-- 
2.43.0

