From 87425b7c68fce7d37ab032cf90996539961a1800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 01/21] fix: retry a D-Bus fan write that failed

DbusWrite and DbusWritePercent recorded the requested value as written
even when the Set call failed, so every following cycle skipped the
write as redundant and the fan stayed at its old output. Forget the
last value when the call fails, so that the next cycle writes again.
---
 dbus/dbuswrite.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dbus/dbuswrite.cpp b/dbus/dbuswrite.cpp
index 8a87116..e73ee0d 100644
--- a/dbus/dbuswrite.cpp
+++ b/dbus/dbuswrite.cpp
@@ -91,17 +91,21 @@ void DbusWritePercent::write(double value, bool force, int64_t* written)
     {
         // TODO: if we don't use the reply, call_noreply()
         auto resp = writeBus.call(mesg);
+        oldValue = static_cast<int64_t>(ovalue);
     }
     catch (const sdbusplus::exception_t& ex)
     {
         log<level::ERR>("Dbus Call Failure", entry("PATH=%s", path.c_str()),
                         entry("WHAT=%s", ex.what()));
+
+        // The output did not take this value, so do not treat the next
+        // request for it as redundant.
+        oldValue = -1;
     }
 
-    oldValue = static_cast<int64_t>(ovalue);
     if (written)
     {
-        *written = oldValue;
+        *written = static_cast<int64_t>(ovalue);
     }
     return;
 }
@@ -153,17 +157,21 @@ void DbusWrite::write(double value, bool force, int64_t* written)
     {
         // TODO: consider call_noreplly
         auto resp = writeBus.call(mesg);
+        oldValue = static_cast<int64_t>(value);
     }
     catch (const sdbusplus::exception_t& ex)
     {
         log<level::ERR>("Dbus Call Failure", entry("PATH=%s", path.c_str()),
                         entry("WHAT=%s", ex.what()));
+
+        // The output did not take this value, so do not treat the next
+        // request for it as redundant.
+        oldValue = -1;
     }
 
-    oldValue = static_cast<int64_t>(value);
     if (written)
     {
-        *written = oldValue;
+        *written = static_cast<int64_t>(value);
     }
     return;
 }
-- 
2.43.0


From cc5dc1b077a0598193ea5004d7ef7817dc2154c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 02/21] fix: do not take a failed sysfs read for a reading

SysFsRead returned an uninitialised value, freshly timestamped, when the
file could not be opened or read. Return NaN with the time of the last
good read, so that the value is ignored and the sensor times out.
---
 sysfs/sysfsread.cpp | 15 +++++++++++----
 sysfs/sysfsread.hpp |  3 +++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/sysfs/sysfsread.cpp b/sysfs/sysfsread.cpp
index a0e0779..76f97a0 100644
--- a/sysfs/sysfsread.cpp
+++ b/sysfs/sysfsread.cpp
@@ -9,21 +9,28 @@
 #include <cstdint>
 #include <fstream>
 #include <iostream>
+#include <limits>
 
 namespace pid_control
 {
 
 ReadReturn SysFsRead::read(void)
 {
-    int64_t value;
+    int64_t value = 0;
     std::ifstream ifs;
 
     ifs.open(_path);
-    ifs >> value;
+    if (!(ifs >> value))
+    {
+        // There is no reading. Keep the time of the last good one, so that a
+        // sensor which stays unreadable times out.
+        return {std::numeric_limits<double>::quiet_NaN(), _updated};
+    }
     ifs.close();
 
-    ReadReturn r = {static_cast<double>(value),
-                    std::chrono::high_resolution_clock::now()};
+    _updated = std::chrono::high_resolution_clock::now();
+
+    ReadReturn r = {static_cast<double>(value), _updated};
 
     return r;
 }
diff --git a/sysfs/sysfsread.hpp b/sysfs/sysfsread.hpp
index 32ce18e..05d9ec8 100644
--- a/sysfs/sysfsread.hpp
+++ b/sysfs/sysfsread.hpp
@@ -3,6 +3,7 @@
 #include "interfaces.hpp"
 #include "util.hpp"
 
+#include <chrono>
 #include <string>
 
 namespace pid_control
@@ -23,6 +24,8 @@ class SysFsRead : public ReadInterface
 
   private:
     const std::string _path;
+    /* The time of the last successful read. */
+    std::chrono::high_resolution_clock::time_point _updated{};
 };
 
 } // namespace pid_control
-- 
2.43.0


From 4e557f42f2d7d293d8e0f8f58f4facebcc9ffc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 03/21] fix: release the sensors before building them again

A reload built the new sensors while the old ones still existed. With an
external sensor in the configuration its D-Bus object was still
registered, so the build failed with EEXIST and was retried forever: no
control loop ran any more. Drop the old sensors with the old zones.
---
 main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.cpp b/main.cpp
index c924123..b41e604 100644
--- a/main.cpp
+++ b/main.cpp
@@ -121,6 +121,9 @@ void stopControlLoops()
     }
 
     state::zones.clear();
+    // The sensors hold D-Bus objects (external sensors), which the next build
+    // must be able to create again under the same paths.
+    state::mgmr.reset();
     state::isCanceling = false;
 }
 
-- 
2.43.0


From a04948eef0bdd62eec8ab13f2320a6d817681866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 04/21] fix: honour ignoreFailIfHostOff for external sensors

buildSensors() did not pass the setting on to HostSensor.
---
 sensors/builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/builder.cpp b/sensors/builder.cpp
index 640c0ca..7316cd3 100644
--- a/sensors/builder.cpp
+++ b/sensors/builder.cpp
@@ -167,7 +167,7 @@ SensorManager buildSensors(
                  */
                 auto sensor = HostSensor::createTemp(
                     name, info->timeout, hostSensorBus, info->readPath.c_str(),
-                    deferSignals);
+                    deferSignals, info->ignoreFailIfHostOff);
                 mgmr.addSensor(info->type, name, std::move(sensor));
             }
             else
-- 
2.43.0


From 79c1dc5d7c459a952c6f2cf33b172d3e6735cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 05/21] fix: address zones 128 to 255 over IPMI

The zone number was converted to a signed 8-bit integer, so that these
zones' object paths came out with a negative number.
---
 ipmi/dbus_mode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmi/dbus_mode.cpp b/ipmi/dbus_mode.cpp
index 52666c0..eed6651 100644
--- a/ipmi/dbus_mode.cpp
+++ b/ipmi/dbus_mode.cpp
@@ -28,7 +28,7 @@ using Value = std::variant<bool>;
 using PropertyMap = std::map<Property, Value>;
 
 /* The following was copied directly from my manual thread handler. */
-static std::string getControlPath(int8_t zone)
+static std::string getControlPath(uint8_t zone)
 {
     return std::string(objectPath) + std::to_string(zone);
 }
-- 
2.43.0


From cabd076aa6d7faabd8c69647f6c3ffa856fda68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 06/21] fix: time out sensors after the clock was set back

The age of a reading is computed from the wall clock. When that is set
back the age is negative, and a dead sensor was taken for a live one
until the clock caught up, which can take arbitrarily long.
---
 pid/zone.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pid/zone.hpp b/pid/zone.hpp
index d81cd53..1d3ca3a 100644
--- a/pid/zone.hpp
+++ b/pid/zone.hpp
@@ -189,7 +189,9 @@ class DbusPidZone : public ZoneInterface, public ModeObject
                     std::cerr << sensorInput << " sensor get failed\n";
                 }
             }
-            else if (timeout != 0 && duration >= period)
+            // A reading from the future means that the clock was set back:
+            // its age is unknown, so it cannot be taken for a fresh one.
+            else if (timeout != 0 && (duration >= period || duration < 0))
             {
                 markSensorMissing(sensorInput, "Sensor timeout");
 
-- 
2.43.0


From 2b6a4cf43e077b222d94d91799d994c77333de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 07/21] fix: do not lose a host state change at startup

The host state was read when the monitor was constructed, but the signal
match was only added later by startMonitoring(): a change in between was
never noticed. Read the state again once the match is in place.
---
 hoststatemonitor.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hoststatemonitor.hpp b/hoststatemonitor.hpp
index 244f841..9f258d8 100644
--- a/hoststatemonitor.hpp
+++ b/hoststatemonitor.hpp
@@ -82,6 +82,10 @@ inline void HostStateMonitor::startMonitoring()
             [this](sdbusplus::message_t& message) {
                 handleStateChange(message);
             });
+
+        // The state may have changed since it was read and before the match
+        // was in place.
+        getInitialState();
     }
 }
 
-- 
2.43.0


From 09a4cf94138b84057402d1ed9ca677aa3a7f1ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 08/21] fix: notice sensors that are not functional when built

The Functional property was only followed through PropertiesChanged, so
a sensor that was already not functional when swampd started or reloaded
was trusted until the property happened to change.
---
 dbus/dbushelper.cpp           | 16 ++++++++++++++++
 dbus/dbushelper_interface.hpp |  1 +
 dbus/dbuspassive.cpp          |  1 +
 3 files changed, 18 insertions(+)

diff --git a/dbus/dbushelper.cpp b/dbus/dbushelper.cpp
index 53f19bb..95efa66 100644
--- a/dbus/dbushelper.cpp
+++ b/dbus/dbushelper.cpp
@@ -13,6 +13,7 @@
 #include <sdbusplus/exception.hpp>
 #include <xyz/openbmc_project/ObjectMapper/common.hpp>
 #include <xyz/openbmc_project/Sensor/Value/client.hpp>
+#include <xyz/openbmc_project/State/Decorator/OperationalStatus/common.hpp>
 
 #include <cstdint>
 #include <map>
@@ -23,6 +24,8 @@
 
 using ObjectMapper = sdbusplus::common::xyz::openbmc_project::ObjectMapper;
 using SensorValue = sdbusplus::common::xyz::openbmc_project::sensor::Value;
+using StateDecoratorOperationalStatus = sdbusplus::common::xyz::
+    openbmc_project::state::decorator::OperationalStatus;
 
 namespace pid_control
 {
@@ -142,6 +145,19 @@ void DbusHelper::getProperties(const std::string& service,
     }
     prop->available = available;
 
+    bool functional = true;
+    try
+    {
+        getProperty(service, path, StateDecoratorOperationalStatus::interface,
+                    StateDecoratorOperationalStatus::property_names::functional,
+                    functional);
+    }
+    catch (const sdbusplus::exception_t& ex)
+    {
+        // unsupported Functional property, leaving it at 'True'
+    }
+    prop->functional = functional;
+
     return;
 }
 
diff --git a/dbus/dbushelper_interface.hpp b/dbus/dbushelper_interface.hpp
index 2ea6230..a615815 100644
--- a/dbus/dbushelper_interface.hpp
+++ b/dbus/dbushelper_interface.hpp
@@ -14,6 +14,7 @@ struct SensorProperties
     double max = 0.0;
     std::string unit;
     bool available = false;
+    bool functional = true;
     bool unavailableAsFailed = false;
 };
 
diff --git a/dbus/dbuspassive.cpp b/dbus/dbuspassive.cpp
index 016f069..137bce3 100644
--- a/dbus/dbuspassive.cpp
+++ b/dbus/dbuspassive.cpp
@@ -333,6 +333,7 @@ void DbusPassive::initFromSettings(const SensorProperties& settings,
     _max = settings.max * std::pow(10.0, _scale);
     _unavailableAsFailed = settings.unavailableAsFailed;
     setAvailableFromProperty(settings.available);
+    setFunctional(settings.functional);
 
     // Force value to be stored, otherwise member would be uninitialized
     updateValue(settings.value, true);
-- 
2.43.0


From a05d5d9c5b5fbd6df5fa28064e2da733bb96e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:10 +0000
Subject: [PATCH 09/21] fix: track each threshold alarm of a sensor

The critical and warning alarms shared one flag, and PropertiesChanged
only carries the alarms that changed. The deassertion of one alarm, like
the warning when the reading rises above critical or the low alarm in
another signal, cleared the failure while another alarm was still
asserted, and the zone left failsafe mode. Keep the alarms apart.
---
 dbus/dbushelper.cpp           | 77 ++++++++++++++++-------------------
 dbus/dbushelper.hpp           |  3 ++
 dbus/dbushelper_interface.hpp | 24 +++++++++++
 dbus/dbuspassive.cpp          | 59 +++++++++++++++------------
 dbus/dbuspassive.hpp          |  7 +++-
 5 files changed, 99 insertions(+), 71 deletions(-)

diff --git a/dbus/dbushelper.cpp b/dbus/dbushelper.cpp
index 95efa66..0758129 100644
--- a/dbus/dbushelper.cpp
+++ b/dbus/dbushelper.cpp
@@ -164,68 +164,61 @@ void DbusHelper::getProperties(const std::string& service,
 bool DbusHelper::thresholdsAsserted(const std::string& service,
                                     const std::string& path)
 {
-    auto critical = _bus.new_method_call(service.c_str(), path.c_str(),
-                                         propertiesintf, "GetAll");
-    critical.append(SensorThresholdCritical::interface);
-    PropertyMap criticalMap;
+    return getThresholdAlarms(service, path).any();
+}
 
-    try
-    {
-        auto msg = _bus.call(critical);
-        msg.read(criticalMap);
-    }
-    catch (const sdbusplus::exception_t&)
-    {
-        // do nothing, sensors don't have to expose critical thresholds
-        if constexpr (!UNC_FAILSAFE)
+ThresholdAlarms DbusHelper::getThresholdAlarms(const std::string& service,
+                                               const std::string& path)
+{
+    ThresholdAlarms alarms;
+
+    auto getAlarms = [this, &service, &path](const char* interface) {
+        PropertyMap propMap;
+        auto method = _bus.new_method_call(service.c_str(), path.c_str(),
+                                           propertiesintf, "GetAll");
+        method.append(interface);
+        try
         {
-            return false;
+            auto msg = _bus.call(method);
+            msg.read(propMap);
         }
-    }
+        catch (const sdbusplus::exception_t&)
+        {
+            // do nothing, sensors don't have to expose thresholds
+            propMap.clear();
+        }
+        return propMap;
+    };
+
+    PropertyMap criticalMap = getAlarms(SensorThresholdCritical::interface);
 
     auto findCriticalLow = criticalMap.find(
         SensorThresholdCritical::property_names::critical_alarm_low);
-    auto findCriticalHigh = criticalMap.find(
-        SensorThresholdCritical::property_names::critical_alarm_high);
-
-    bool asserted = false;
     if (findCriticalLow != criticalMap.end())
     {
-        asserted = std::get<bool>(findCriticalLow->second);
+        alarms.criticalLow = std::get<bool>(findCriticalLow->second);
     }
 
-    // as we are catching properties changed, a sensor could theoretically jump
-    // from one threshold to the other in one event, so check both thresholds
-    if (!asserted && findCriticalHigh != criticalMap.end())
+    auto findCriticalHigh = criticalMap.find(
+        SensorThresholdCritical::property_names::critical_alarm_high);
+    if (findCriticalHigh != criticalMap.end())
     {
-        asserted = std::get<bool>(findCriticalHigh->second);
+        alarms.criticalHigh = std::get<bool>(findCriticalHigh->second);
     }
-    if (UNC_FAILSAFE && !asserted)
+
+    if constexpr (UNC_FAILSAFE)
     {
-        auto warning = _bus.new_method_call(service.c_str(), path.c_str(),
-                                            propertiesintf, "GetAll");
-        warning.append(SensorThresholdWarning::interface);
-        PropertyMap warningMap;
+        PropertyMap warningMap = getAlarms(SensorThresholdWarning::interface);
 
-        try
-        {
-            auto msg = _bus.call(warning);
-            msg.read(warningMap);
-        }
-        catch (const sdbusplus::exception_t&)
-        {
-            // sensors don't have to expose non-critical thresholds
-            return false;
-        }
         auto findWarningHigh = warningMap.find(
             SensorThresholdWarning::property_names::warning_alarm_high);
-
         if (findWarningHigh != warningMap.end())
         {
-            asserted = std::get<bool>(findWarningHigh->second);
+            alarms.warningHigh = std::get<bool>(findWarningHigh->second);
         }
     }
-    return asserted;
+
+    return alarms;
 }
 
 } // namespace pid_control
diff --git a/dbus/dbushelper.hpp b/dbus/dbushelper.hpp
index 8fac1a2..c0310dc 100644
--- a/dbus/dbushelper.hpp
+++ b/dbus/dbushelper.hpp
@@ -46,6 +46,9 @@ class DbusHelper : public DbusHelperInterface
     bool thresholdsAsserted(const std::string& service,
                             const std::string& path) override;
 
+    ThresholdAlarms getThresholdAlarms(const std::string& service,
+                                       const std::string& path) override;
+
     template <typename T>
     void getProperty(const std::string& service, const std::string& path,
                      const std::string& interface,
diff --git a/dbus/dbushelper_interface.hpp b/dbus/dbushelper_interface.hpp
index a615815..9d4087c 100644
--- a/dbus/dbushelper_interface.hpp
+++ b/dbus/dbushelper_interface.hpp
@@ -18,6 +18,19 @@ struct SensorProperties
     bool unavailableAsFailed = false;
 };
 
+/* The threshold alarms which are a reason for failsafe mode. */
+struct ThresholdAlarms
+{
+    bool criticalLow = false;
+    bool criticalHigh = false;
+    bool warningHigh = false;
+
+    bool any() const
+    {
+        return criticalLow || criticalHigh || warningHigh;
+    }
+};
+
 class DbusHelperInterface
 {
   public:
@@ -51,6 +64,17 @@ class DbusHelperInterface
      */
     virtual bool thresholdsAsserted(const std::string& service,
                                     const std::string& path) = 0;
+
+    /** @brief Get the current state of each threshold alarm
+     *
+     * @param[in] service - The service providing the interface.
+     * @param[in] path - The dbus path.
+     */
+    virtual ThresholdAlarms getThresholdAlarms(const std::string& service,
+                                               const std::string& path)
+    {
+        return {.criticalHigh = thresholdsAsserted(service, path)};
+    }
 };
 
 } // namespace pid_control
diff --git a/dbus/dbuspassive.cpp b/dbus/dbuspassive.cpp
index 137bce3..0abf665 100644
--- a/dbus/dbuspassive.cpp
+++ b/dbus/dbuspassive.cpp
@@ -78,7 +78,7 @@ std::unique_ptr<ReadInterface> DbusPassive::createDbusPassive(
     }
 
     SensorProperties settings;
-    bool failed;
+    ThresholdAlarms alarms;
     bool objectMissing = false;
     std::string service;
 
@@ -110,7 +110,6 @@ std::unique_ptr<ReadInterface> DbusPassive::createDbusPassive(
         objectMissing = true;
         auto sensor = std::make_unique<DbusPassive>(
             bus, type, id, std::move(helper), objectMissing, path, redundancy);
-        failed = true;
         settings.value = std::numeric_limits<double>::quiet_NaN();
         settings.unit = getSensorUnit(type);
         settings.available = false;
@@ -120,7 +119,7 @@ std::unique_ptr<ReadInterface> DbusPassive::createDbusPassive(
             settings.min = 0;
             settings.max = 0;
         }
-        sensor->initFromSettings(settings, true);
+        sensor->initFromSettings(settings, alarms);
         std::cerr << "DbusPassive: Sensor " << path
                   << " is missing from D-Bus, build this sensor as failed\n";
         return sensor;
@@ -132,7 +131,7 @@ std::unique_ptr<ReadInterface> DbusPassive::createDbusPassive(
     try
     {
         sensor->_helper->getProperties(service, path, &settings);
-        failed = sensor->_helper->thresholdsAsserted(service, path);
+        alarms = sensor->_helper->getThresholdAlarms(service, path);
     }
     catch (const std::exception& e)
     {
@@ -147,7 +146,7 @@ std::unique_ptr<ReadInterface> DbusPassive::createDbusPassive(
     }
 
     settings.unavailableAsFailed = info->unavailableAsFailed;
-    sensor->initFromSettings(settings, failed);
+    sensor->initFromSettings(settings, alarms);
 
     return sensor;
 }
@@ -233,8 +232,8 @@ bool DbusPassive::getFailed(void) const
     // but its value bad in some way (determined by sensor type),
     // indicate this sensor has failed,
     // until another value comes in that is no longer bad.
-    // This is different from the overall _failed flag,
-    // which is set and cleared by other causes.
+    // This is different from the threshold alarms,
+    // which are set and cleared by other causes.
     if (_badReading)
     {
         outputFailsafeLogWithSensor(_id, true, _id,
@@ -253,7 +252,7 @@ bool DbusPassive::getFailed(void) const
         return true;
     }
 
-    if (_failed)
+    if (_alarms.any())
     {
         outputFailsafeLogWithSensor(
             _id, true, _id, "The sensor has failed with a critical issue.");
@@ -293,7 +292,7 @@ std::string DbusPassive::getFailReason(void) const
     {
         return "Margin hot";
     }
-    if (_failed)
+    if (_alarms.any())
     {
         return "Sensor threshold asserted";
     }
@@ -310,7 +309,17 @@ std::string DbusPassive::getFailReason(void) const
 
 void DbusPassive::setFailed(bool value)
 {
-    _failed = value;
+    setAlarms({.criticalHigh = value});
+}
+
+void DbusPassive::setAlarms(const ThresholdAlarms& value)
+{
+    _alarms = value;
+}
+
+const ThresholdAlarms& DbusPassive::getAlarms(void) const
+{
+    return _alarms;
 }
 
 void DbusPassive::setFunctional(bool value)
@@ -325,9 +334,9 @@ void DbusPassive::setAvailable(bool value)
 }
 
 void DbusPassive::initFromSettings(const SensorProperties& settings,
-                                   bool failed)
+                                   const ThresholdAlarms& alarms)
 {
-    _failed = failed;
+    setAlarms(alarms);
     _scale = settings.scale;
     _min = settings.min * std::pow(10.0, _scale);
     _max = settings.max * std::pow(10.0, _scale);
@@ -400,7 +409,7 @@ void DbusPassive::updateValue(double value, bool force)
         // Either it indicates margin not calculated properly,
         // or somebody forgot to set the margin-zero setpoint,
         // or the system is really overheating that much.
-        // This is a different condition from _failed
+        // This is a different condition from the alarms
         // and _badReading, so it merits its own flag.
         // The sensor has not failed, the reading is good, but the zone
         // still needs to know that it should go to failsafe mode.
@@ -443,19 +452,18 @@ int handleSensorValue(sdbusplus::message_t& msg, DbusPassive* owner)
             return 0;
         }
 
-        bool asserted = false;
+        // A signal only carries the alarms that changed, the others keep
+        // their state.
+        ThresholdAlarms alarms = owner->getAlarms();
         if (criticalAlarmLow != msgData.end())
         {
-            asserted = std::get<bool>(criticalAlarmLow->second);
+            alarms.criticalLow = std::get<bool>(criticalAlarmLow->second);
         }
-
-        // checking both as in theory you could de-assert one threshold and
-        // assert the other at the same moment
-        if (!asserted && criticalAlarmHigh != msgData.end())
+        if (criticalAlarmHigh != msgData.end())
         {
-            asserted = std::get<bool>(criticalAlarmHigh->second);
+            alarms.criticalHigh = std::get<bool>(criticalAlarmHigh->second);
         }
-        owner->setFailed(asserted);
+        owner->setAlarms(alarms);
     }
     else if (UNC_FAILSAFE && msgSensor == SensorThresholdWarning::interface)
     {
@@ -466,12 +474,9 @@ int handleSensorValue(sdbusplus::message_t& msg, DbusPassive* owner)
             return 0;
         }
 
-        bool asserted = false;
-        if (warningAlarmHigh != msgData.end())
-        {
-            asserted = std::get<bool>(warningAlarmHigh->second);
-        }
-        owner->setFailed(asserted);
+        ThresholdAlarms alarms = owner->getAlarms();
+        alarms.warningHigh = std::get<bool>(warningAlarmHigh->second);
+        owner->setAlarms(alarms);
     }
     else if (msgSensor == StateDecoratorAvailability::interface)
     {
diff --git a/dbus/dbuspassive.hpp b/dbus/dbuspassive.hpp
index 5a3c745..bf1d661 100644
--- a/dbus/dbuspassive.hpp
+++ b/dbus/dbuspassive.hpp
@@ -58,6 +58,8 @@ class DbusPassive : public ReadInterface
     void setValue(double value);
 
     void setFailed(bool value);
+    void setAlarms(const ThresholdAlarms& value);
+    const ThresholdAlarms& getAlarms(void) const;
     void setFunctional(bool value);
     void setAvailable(bool value);
 
@@ -66,7 +68,8 @@ class DbusPassive : public ReadInterface
     double getMax(void);
     double getMin(void);
     void setAvailableFromProperty(bool value);
-    void initFromSettings(const SensorProperties& settings, bool failed);
+    void initFromSettings(const SensorProperties& settings,
+                          const ThresholdAlarms& alarms);
 
   private:
     sdbusplus::match _signal;
@@ -79,7 +82,7 @@ class DbusPassive : public ReadInterface
     double _unscaled = 0;
     double _max = 0;
     double _min = 0;
-    bool _failed = false;
+    ThresholdAlarms _alarms;
     bool _functional = true;
     bool _available = true;
     bool _availableOverridden = false;
-- 
2.43.0


From d6bf55b88786ebd3d69a00cdef5f7b06e64bfda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 10/21] fix: ignore the ceiling of a disabled stepwise loop

A loop that is disabled over D-Bus does not add its setpoint to the
demand of the zone, but a disabled stepwise ceiling still limited the
demand of all other loops.
---
 pid/stepwisecontroller.cpp | 6 +++++-
 pid/zone.hpp               | 2 +-
 pid/zone_interface.hpp     | 5 +++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pid/stepwisecontroller.cpp b/pid/stepwisecontroller.cpp
index e3022b6..d7a47ad 100644
--- a/pid/stepwisecontroller.cpp
+++ b/pid/stepwisecontroller.cpp
@@ -104,7 +104,11 @@ void StepwiseController::outputProc(double value)
 {
     if (getStepwiseInfo().isCeiling)
     {
-        _owner->addRPMCeiling(value);
+        /* a disabled controller does not limit the demand of the others */
+        if (_owner->isPidProcessEnabled(_id))
+        {
+            _owner->addRPMCeiling(value);
+        }
     }
     else
     {
diff --git a/pid/zone.hpp b/pid/zone.hpp
index 1d3ca3a..400ab74 100644
--- a/pid/zone.hpp
+++ b/pid/zone.hpp
@@ -131,7 +131,7 @@ class DbusPidZone : public ZoneInterface, public ModeObject
     void addPidControlProcess(const std::string& name, const std::string& type,
                               double setpoint, sdbusplus::bus_t& bus,
                               const std::string& objPath, bool defer);
-    bool isPidProcessEnabled(const std::string& name);
+    bool isPidProcessEnabled(const std::string& name) override;
 
     void addPidFailSafePercent(const std::vector<std::string>& inputs,
                                double percent);
diff --git a/pid/zone_interface.hpp b/pid/zone_interface.hpp
index 861dde7..717fc70 100644
--- a/pid/zone_interface.hpp
+++ b/pid/zone_interface.hpp
@@ -74,6 +74,11 @@ class ZoneInterface
 
     /** Add a set point value for the Max Set Point computation. */
     virtual void addSetPoint(double setpoint, const std::string& name) = 0;
+    /** Return true unless the named thermal controller is disabled. */
+    virtual bool isPidProcessEnabled([[maybe_unused]] const std::string& name)
+    {
+        return true;
+    }
     /** Clear all set points specified via addSetPoint */
     virtual void clearSetPoints(void) = 0;
 
-- 
2.43.0


From 49e858bc47e27462546a34175a750a0a1117059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 11/21] fix: keep fan redundancy failures per redundancy object

When the collections of two redundancy objects share a fan, the recovery
of one object cleared the failure that the other still reported.
---
 dbus/dbuspassiveredundancy.cpp | 27 +++++++++++++++++----------
 dbus/dbuspassiveredundancy.hpp |  6 ++++++
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/dbus/dbuspassiveredundancy.cpp b/dbus/dbuspassiveredundancy.cpp
index bc88728..11992d5 100644
--- a/dbus/dbuspassiveredundancy.cpp
+++ b/dbus/dbuspassiveredundancy.cpp
@@ -95,17 +95,11 @@ DbusPassiveRedundancy::DbusPassiveRedundancy(sdbusplus::bus_t& bus) :
               }
 
               auto data = std::get<std::vector<std::string>>(collection);
-              if (status.rfind("Failed") != std::string::npos)
+              if (status.rfind("Failed") == std::string::npos)
               {
-                  failed.insert(data.begin(), data.end());
-              }
-              else
-              {
-                  for (const auto& d : data)
-                  {
-                      failed.erase(d);
-                  }
+                  data.clear();
               }
+              setFailures(message.get_path(), data);
           }),
     passiveBus(bus)
 {
@@ -177,11 +171,24 @@ void DbusPassiveRedundancy::populateFailures(void)
             std::vector<std::string> collection =
                 std::get<std::vector<std::string>>(
                     getAll[ControlFanRedundancy::property_names::collection]);
-            failed.insert(collection.begin(), collection.end());
+            setFailures(path, collection);
         }
     }
 }
 
+void DbusPassiveRedundancy::setFailures(
+    const std::string& path, const std::vector<std::string>& collection)
+{
+    // A sensor may be in the collections of several objects, it has failed as
+    // long as any of them reports that.
+    failedByObject[path] = {collection.begin(), collection.end()};
+    failed.clear();
+    for (const auto& [_, sensors] : failedByObject)
+    {
+        failed.insert(sensors.begin(), sensors.end());
+    }
+}
+
 const std::set<std::string>& DbusPassiveRedundancy::getFailed()
 {
     return failed;
diff --git a/dbus/dbuspassiveredundancy.hpp b/dbus/dbuspassiveredundancy.hpp
index c900761..9ee4c3d 100644
--- a/dbus/dbuspassiveredundancy.hpp
+++ b/dbus/dbuspassiveredundancy.hpp
@@ -19,8 +19,10 @@
 #include <sdbusplus/bus.hpp>
 #include <sdbusplus/bus/match.hpp>
 
+#include <map>
 #include <set>
 #include <string>
+#include <vector>
 
 namespace pid_control
 {
@@ -40,8 +42,12 @@ class DbusPassiveRedundancy
 
   private:
     void populateFailures(void);
+    void setFailures(const std::string& path,
+                     const std::vector<std::string>& collection);
 
     sdbusplus::match match;
+    /* the sensors that each redundancy object reports, and all of them */
+    std::map<std::string, std::set<std::string>> failedByObject;
     std::set<std::string> failed;
     sdbusplus::bus_t& passiveBus;
 };
-- 
2.43.0


From 7e8c7f9fd183488df64d87ff825567515599b2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 12/21] fix: keep the present inputs of a stepwise loop

Without HANDLE_MISSING_OBJECT_PATHS a stepwise loop from D-Bus stopped looking
at its Inputs and MissingIsAcceptable lists at the first sensor that is not on
D-Bus, so sensors listed after it were ignored although they are present, or
lost their exemption. Skip only the missing one, as the PID loops do.
---
 dbus/dbusconfiguration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index e7b0ddc..071d50d 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -1095,7 +1095,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                     {
                         if constexpr (!HANDLE_MISSING_OBJECT_PATHS)
                         {
-                            break;
+                            continue;
                         }
                         if (std::find(missingAcceptableSensorNames.begin(),
                                       missingAcceptableSensorNames.end(),
@@ -1178,7 +1178,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                     {
                         if constexpr (!HANDLE_MISSING_OBJECT_PATHS)
                         {
-                            break;
+                            continue;
                         }
                         // When a sensor in the MissingIsAcceptable list is NOT
                         // on DBus and it still reaches here, which contradicts
-- 
2.43.0


From 4de0a39591c18f84790b052ec136e0531002d1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 13/21] fix: keep TempToMargin aligned with the inputs of a
 loop

TempToMargin goes by the position in Inputs, but inputs that are not on D-Bus
were dropped from the list of names (or moved to its front, when built as failed
sensors) before the two lists were combined, so the remaining inputs were
converted with the zero point of another sensor.
---
 dbus/dbusconfiguration.cpp | 53 ++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index 071d50d..fa332a9 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -107,6 +107,21 @@ inline std::string sensorNameToDbusName(const std::string& sensorName)
     return retString;
 }
 
+// TempToMargin goes by the position of the inputs: remove the entries of inputs
+// that were left out (positions in increasing order), so that the remaining
+// inputs keep their own.
+inline void dropMissingInputs(std::vector<double>& tempToMargin,
+                              const std::vector<size_t>& missingInputs)
+{
+    for (auto it = missingInputs.rbegin(); it != missingInputs.rend(); ++it)
+    {
+        if (*it < tempToMargin.size())
+        {
+            tempToMargin.erase(tempToMargin.begin() + *it);
+        }
+    }
+}
+
 std::vector<std::string> getSelectedProfiles(sdbusplus::bus_t& bus)
 {
     std::vector<std::string> ret;
@@ -762,12 +777,19 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                  * Mapping can be many-to-one since an element of Inputs can be
                  * a regex
                  */
+                std::vector<size_t> missingInputs;
                 for (const std::string& sensorName : inputSensorNames)
                 {
                     if constexpr (!HANDLE_MISSING_OBJECT_PATHS)
                     {
+                        auto known = inputSensorInterfaces.size();
                         findSensors(sensors, sensorNameToDbusName(sensorName),
                                     inputSensorInterfaces);
+                        if (inputSensorInterfaces.size() == known)
+                        {
+                            missingInputs.push_back(
+                                known + missingInputs.size());
+                        }
                     }
                     else
                     {
@@ -793,20 +815,13 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                                 std::cerr
                                     << "Pid controller: Missing a missing-unacceptable sensor from D-Bus "
                                     << sensorName << "\n";
-                                std::string inputSensorName =
-                                    sensorNameToDbusName(sensorName);
-                                auto& config = sensorConfig[inputSensorName];
-                                archivedInputSensorNames.push_back(
-                                    inputSensorName);
-                                config.type = pidClass;
-                                config.readPath =
-                                    getSensorPath(config.type, inputSensorName);
-                                config.timeout = 0;
-                                config.ignoreDbusMinMax = true;
-                                config.unavailableAsFailed =
-                                    unavailableAsFailed;
-                                config.ignoreFailIfHostOff =
-                                    ignoreFailIfHostOff;
+                                // Keep its place among the inputs, it will be
+                                // built as a failed sensor.
+                                inputSensorInterfaces.emplace_back(
+                                    getSensorPath(
+                                        pidClass,
+                                        sensorNameToDbusName(sensorName)),
+                                    SensorValue::interface);
                             }
                             else
                             {
@@ -816,6 +831,9 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                                 std::cout
                                     << "Pid controller: Missing a missing-acceptable sensor from D-Bus "
                                     << sensorName << "\n";
+                                missingInputs.push_back(
+                                    inputSensorInterfaces.size() +
+                                    missingInputs.size());
                                 continue;
                             }
                         }
@@ -1012,6 +1030,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                 {
                     inputTempToMargin =
                         std::get<std::vector<double>>(findTempToMargin->second);
+                    dropMissingInputs(inputTempToMargin, missingInputs);
                 }
 
                 std::vector<pid_control::conf::SensorInput> sensorInputs =
@@ -1086,6 +1105,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                 }
 
                 bool sensorFound = false;
+                std::vector<size_t> missingInputs;
                 for (const std::string& sensorName : sensorNames)
                 {
                     std::vector<std::pair<std::string, std::string>>
@@ -1095,6 +1115,8 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                     {
                         if constexpr (!HANDLE_MISSING_OBJECT_PATHS)
                         {
+                            missingInputs.push_back(
+                                inputs.size() + missingInputs.size());
                             continue;
                         }
                         if (std::find(missingAcceptableSensorNames.begin(),
@@ -1134,6 +1156,8 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                             std::cout
                                 << "Stepwise controller: Missing a missing-acceptable sensor from D-Bus "
                                 << sensorName << "\n";
+                            missingInputs.push_back(
+                                inputs.size() + missingInputs.size());
                             continue;
                         }
                     }
@@ -1205,6 +1229,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                 {
                     inputTempToMargin =
                         std::get<std::vector<double>>(findTempToMargin->second);
+                    dropMissingInputs(inputTempToMargin, missingInputs);
                 }
 
                 info.inputs = spliceInputs(inputs, inputTempToMargin,
-- 
2.43.0


From fb9a8c14f4c6a65e92d1c2b84368b81b9afa8a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 14/21] fix: refuse configurations that lack required keys

A missing zone id, minThermalOutput or failsafePercent, or a missing name of a
sensor or loop was looked up with the unchecked operator[] of a const json
value, which is undefined behaviour, instead of failing the build of the
configuration.
---
 pid/buildjson.cpp     | 13 ++++++-------
 sensors/buildjson.cpp |  4 ++--
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index 8925e2e..ed1d9b4 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -195,17 +195,16 @@ std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
     std::map<int64_t, conf::ZoneConfig> zoneConfig;
 
     /* TODO: if zones is empty, that's invalid. */
-    auto zones = data["zones"];
+    auto zones = data.at("zones");
     for (const auto& zone : zones)
     {
         int64_t id;
         conf::PIDConf thisZone;
         conf::ZoneConfig thisZoneConfig;
 
-        /* TODO: using at() throws a specific exception we can catch */
-        id = zone["id"];
-        thisZoneConfig.minThermalOutput = zone["minThermalOutput"];
-        thisZoneConfig.failsafePercent = zone["failsafePercent"];
+        id = zone.at("id");
+        thisZoneConfig.minThermalOutput = zone.at("minThermalOutput");
+        thisZoneConfig.failsafePercent = zone.at("failsafePercent");
 
         getCycleTimeSetting(zone, id, "cycleIntervalTimeMS",
                             thisZoneConfig.cycleTime.cycleIntervalTimeMS);
@@ -220,10 +219,10 @@ std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
         }
         thisZoneConfig.accumulateSetPoint = accumulateSetPoint;
 
-        auto pids = zone["pids"];
+        auto pids = zone.at("pids");
         for (const auto& pid : pids)
         {
-            auto name = pid["name"];
+            auto name = pid.at("name");
             auto item = pid.get<conf::ControllerInfo>();
 
             if (thisZone.find(name) != thisZone.end())
diff --git a/sensors/buildjson.cpp b/sensors/buildjson.cpp
index 23bb201..770647e 100644
--- a/sensors/buildjson.cpp
+++ b/sensors/buildjson.cpp
@@ -104,14 +104,14 @@ void from_json(const json& j, conf::SensorConfig& s)
 std::map<std::string, conf::SensorConfig> buildSensorsFromJson(const json& data)
 {
     std::map<std::string, conf::SensorConfig> config;
-    auto sensors = data["sensors"];
+    auto sensors = data.at("sensors");
 
     /* TODO: If no sensors, this is invalid, and we should except here or during
      * parsing.
      */
     for (const auto& sensor : sensors)
     {
-        config[sensor["name"]] = sensor.get<conf::SensorConfig>();
+        config[sensor.at("name")] = sensor.get<conf::SensorConfig>();
     }
 
     return config;
-- 
2.43.0


From 2725e8711f3c272c1b59bc4a79bbc9b7b023e303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 15/21] fix: use the default for negative cycle intervals

A negative interval was converted to a huge unsigned one, which passes the
check for at least 1 ms, and the loop then ran without ever sleeping.
---
 pid/buildjson.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index ed1d9b4..baa6e27 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -167,7 +167,8 @@ inline void getCycleTimeSetting(const auto& zone, const int id,
     auto findAttributeName = zone.find(attributeName);
     if (findAttributeName != zone.end())
     {
-        uint64_t tmpAttributeValue = 0;
+        // signed, so that a negative setting is not taken for a huge one
+        int64_t tmpAttributeValue = 0;
         findAttributeName->get_to(tmpAttributeValue);
         if (tmpAttributeValue >= 1)
         {
-- 
2.43.0


From aa45cfd9ee081fe29bec0ecd6ebd60ca85cdb2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:39 +0000
Subject: [PATCH 16/21] fix: refuse loops without inputs or with unknown
 sensors

Such a configuration was accepted and failed only while the loops were built
or run: by an exception that was retried every 10 s without an end, by one that
left a timer handler, or by calling a loop that was not created.
---
 main.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/main.cpp b/main.cpp
index b41e604..4014e06 100644
--- a/main.cpp
+++ b/main.cpp
@@ -6,6 +6,7 @@
 #include "buildjson/buildjson.hpp"
 #include "conf.hpp"
 #include "dbus/dbusconfiguration.hpp"
+#include "errors/exception.hpp"
 #include "failsafeloggers/builder.hpp"
 #include "hoststatemonitor.hpp"
 #include "pid/builder.hpp"
@@ -127,6 +128,34 @@ void stopControlLoops()
     state::isCanceling = false;
 }
 
+/* Each control loop needs inputs, and all of them must be known sensors. */
+static void validateInputs(
+    const std::map<std::string, conf::SensorConfig>& sensors,
+    const std::map<int64_t, conf::PIDConf>& zones)
+{
+    for (const auto& [zoneId, pids] : zones)
+    {
+        for (const auto& [name, info] : pids)
+        {
+            if (info.inputs.empty())
+            {
+                throw ConfigurationException(
+                    "Invalid Configuration: no inputs for pid " + name);
+            }
+
+            for (const auto& input : info.inputs)
+            {
+                if (!sensors.contains(input.name))
+                {
+                    throw ConfigurationException(
+                        "Invalid Configuration: unknown sensor " + input.name +
+                        " in the inputs of pid " + name);
+                }
+            }
+        }
+    }
+}
+
 void restartControlLoops()
 {
     stopControlLoops();
@@ -146,6 +175,7 @@ void restartControlLoops()
             sensorConfig = buildSensorsFromJson(jsonData);
             std::tie(zoneConfig, zoneDetailsConfig) =
                 buildPIDsFromJson(jsonData);
+            validateInputs(sensorConfig, zoneConfig);
         }
         catch (const std::exception& e)
         {
-- 
2.43.0


From 6e16ce9eb3fd6a4828bc7526c736139ac6a5c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:39 +0000
Subject: [PATCH 17/21] fix: look at all redundancy objects at startup

When one of them could not be read, those that follow were skipped and their
failures not noticed until they changed.
---
 dbus/dbuspassiveredundancy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dbus/dbuspassiveredundancy.cpp b/dbus/dbuspassiveredundancy.cpp
index 11992d5..3287bf1 100644
--- a/dbus/dbuspassiveredundancy.cpp
+++ b/dbus/dbuspassiveredundancy.cpp
@@ -160,7 +160,7 @@ void DbusPassiveRedundancy::populateFailures(void)
             catch (const sdbusplus::exception_t&)
             {
                 std::cerr << "Populate Failures Mapper Error\n";
-                return;
+                continue;
             }
             std::string status = std::get<std::string>(
                 getAll[ControlFanRedundancy::property_names::status]);
-- 
2.43.0


From 4d769dbe01cae5a519a73e1b2cf189627e012086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 18/21] fix: refuse stepwise readings without outputs

A curve with more readings than outputs made the loop request NaN, which no
comparison honours: above that point the loop asked for nothing at all. The
D-Bus configuration refuses such a curve already.
---
 pid/buildjson.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index baa6e27..767f77d 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -9,11 +9,13 @@
 
 #include <nlohmann/json.hpp>
 
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <iostream>
 #include <limits>
 #include <map>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -153,6 +155,22 @@ void from_json(const json& j, conf::ControllerInfo& c)
             }
         }
 
+        // The curve ends at the first point without a reading. A reading
+        // without an output would make the loop request nothing at all.
+        for (size_t i = 0; i < ec::maxStepwisePoints; i++)
+        {
+            if (i != 0 && std::isnan(c.stepwiseInfo.reading[i]))
+            {
+                break;
+            }
+            if (std::isnan(c.stepwiseInfo.reading[i]) ||
+                std::isnan(c.stepwiseInfo.output[i]))
+            {
+                throw std::runtime_error(
+                    "Stepwise readings and outputs must match");
+            }
+        }
+
         c.stepwiseInfo.positiveHysteresis = positiveHysteresisValue;
         c.stepwiseInfo.negativeHysteresis = negativeHysteresisValue;
     }
-- 
2.43.0


From d2aa6c2ab29bf9003c921be508b8ac0f29ef5366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:02 +0000
Subject: [PATCH 19/21] fix: keep fractions of FailSafePercent

---
 dbus/dbusconfiguration.cpp | 4 ++--
 pid/buildjson.cpp          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index fa332a9..57edc73 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -360,7 +360,7 @@ void populatePidInfo(
                                    getPIDAttribute(base, "SetPoint"));
     }
 
-    int failsafepercent = 0;
+    double failsafepercent = 0;
     auto findFailSafe = base.find("FailSafePercent");
     if (findFailSafe != base.end())
     {
@@ -687,7 +687,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
             details.minThermalOutput = std::visit(VariantToDoubleVisitor(),
                                                   zone.at("MinThermalOutput"));
 
-            int failsafepercent = 0;
+            double failsafepercent = 0;
             auto findFailSafe = zone.find("FailSafePercent");
             if (findFailSafe != zone.end())
             {
diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index 767f77d..c767fb3 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -86,7 +86,7 @@ void from_json(const json& j, conf::ControllerInfo& c)
     }
 
     auto failSafePercent = j.find("FailSafePercent");
-    auto failSafePercentValue = 0;
+    auto failSafePercentValue = 0.0;
     if (failSafePercent != j.end())
     {
         failSafePercent->get_to(failSafePercentValue);
-- 
2.43.0


From 101242bdfaf47284c1436093a378556961a53ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:44 +0000
Subject: [PATCH 20/21] fix: accept a ZoneIndex published as an integer

entity-manager publishes whole numbers as uint64 or int64. Such a ZoneIndex was
ignored and the zone numbered by the order in which it was found, so that its
D-Bus object and IPMI zone id were another zone's.
---
 dbus/dbusconfiguration.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index 57edc73..2de406d 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -657,13 +657,19 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                 continue;
             }
 
-            auto ptrZoneIndex = std::get_if<double>(&(findZoneIndex->second));
-            if (!ptrZoneIndex)
+            // entity-manager publishes whole numbers as integers
+            double zoneIndex = 0;
+            try
+            {
+                zoneIndex = std::visit(VariantToDoubleVisitor(),
+                                       findZoneIndex->second);
+            }
+            catch (const std::invalid_argument&)
             {
                 continue;
             }
 
-            auto desiredIndex = static_cast<int64_t>(*ptrZoneIndex);
+            auto desiredIndex = static_cast<int64_t>(zoneIndex);
             auto grantedIndex = setZoneIndex(name, foundZones, desiredIndex);
             std::cout << "Zone " << name << " is at ZoneIndex " << grantedIndex
                       << "\n";
-- 
2.43.0


From 30192399f19ce8ddce517fc817949e9f7f53a37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:59 +0000
Subject: [PATCH 21/21] fix: write the offline failsafe PWM even when it looks
 redundant

On teardown the OFFLINE_FAILSAFE_PWM build writes the failsafe percentage
to every fan, but DbusWrite skips a value it believes to be the current
one. In manual mode another client drives the fan, so a zone that is taken
down then could leave the fan at that client's value.
---
 pid/fancontroller.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pid/fancontroller.cpp b/pid/fancontroller.cpp
index 288d724..eaac62b 100644
--- a/pid/fancontroller.cpp
+++ b/pid/fancontroller.cpp
@@ -239,9 +239,11 @@ FanController::~FanController()
     for (const auto& it : _inputs)
     {
         auto sensor = _owner->getSensor(it);
-        auto redundantWrite = _owner->getRedundantWrite();
         int64_t rawWritten;
-        sensor->write(percent, redundantWrite, &rawWritten);
+
+        // This is the last write, so do not let it be skipped as redundant:
+        // in manual mode somebody else may have driven the fan since.
+        sensor->write(percent, true, &rawWritten);
 
         // The outputCache will be used later,
         // to store a record of the PWM commanded,
-- 
2.43.0

