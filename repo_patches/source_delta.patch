From 66692cb6283d7636e496ee98445e90a7aad58851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 01/32] fix: keep a sensor failed while any threshold alarm is
 asserted

One alarm being de-asserted cleared the failed state of the sensor even
though another alarm was still asserted (for example critical-high
clearing while warning-high stands, or critical-low being reported
false while critical-high stands). Track the alarms individually.
---
 dbus/dbushelper.cpp           | 84 +++++++++++++++--------------------
 dbus/dbushelper.hpp           |  3 ++
 dbus/dbushelper_interface.hpp | 13 ++++++
 dbus/dbuspassive.cpp          | 42 ++++++++++++------
 dbus/dbuspassive.hpp          |  4 ++
 5 files changed, 84 insertions(+), 62 deletions(-)

diff --git a/dbus/dbushelper.cpp b/dbus/dbushelper.cpp
index 53f19bb..410607b 100644
--- a/dbus/dbushelper.cpp
+++ b/dbus/dbushelper.cpp
@@ -15,7 +15,9 @@
 #include <xyz/openbmc_project/Sensor/Value/client.hpp>
 
 #include <cstdint>
+#include <initializer_list>
 #include <map>
+#include <set>
 #include <stdexcept>
 #include <string>
 #include <variant>
@@ -148,66 +150,52 @@ void DbusHelper::getProperties(const std::string& service,
 bool DbusHelper::thresholdsAsserted(const std::string& service,
                                     const std::string& path)
 {
-    auto critical = _bus.new_method_call(service.c_str(), path.c_str(),
-                                         propertiesintf, "GetAll");
-    critical.append(SensorThresholdCritical::interface);
-    PropertyMap criticalMap;
-
-    try
-    {
-        auto msg = _bus.call(critical);
-        msg.read(criticalMap);
-    }
-    catch (const sdbusplus::exception_t&)
-    {
-        // do nothing, sensors don't have to expose critical thresholds
-        if constexpr (!UNC_FAILSAFE)
-        {
-            return false;
-        }
-    }
-
-    auto findCriticalLow = criticalMap.find(
-        SensorThresholdCritical::property_names::critical_alarm_low);
-    auto findCriticalHigh = criticalMap.find(
-        SensorThresholdCritical::property_names::critical_alarm_high);
+    return !getAssertedAlarms(service, path).empty();
+}
 
-    bool asserted = false;
-    if (findCriticalLow != criticalMap.end())
-    {
-        asserted = std::get<bool>(findCriticalLow->second);
-    }
+std::set<std::string> DbusHelper::getAssertedAlarms(const std::string& service,
+                                                    const std::string& path)
+{
+    std::set<std::string> asserted;
 
-    // as we are catching properties changed, a sensor could theoretically jump
-    // from one threshold to the other in one event, so check both thresholds
-    if (!asserted && findCriticalHigh != criticalMap.end())
-    {
-        asserted = std::get<bool>(findCriticalHigh->second);
-    }
-    if (UNC_FAILSAFE && !asserted)
-    {
-        auto warning = _bus.new_method_call(service.c_str(), path.c_str(),
-                                            propertiesintf, "GetAll");
-        warning.append(SensorThresholdWarning::interface);
-        PropertyMap warningMap;
+    auto addAsserted = [&](const char* interface,
+                           std::initializer_list<const char*> alarms) {
+        auto mesg = _bus.new_method_call(service.c_str(), path.c_str(),
+                                         propertiesintf, "GetAll");
+        mesg.append(interface);
+        PropertyMap propMap;
 
         try
         {
-            auto msg = _bus.call(warning);
-            msg.read(warningMap);
+            auto resp = _bus.call(mesg);
+            resp.read(propMap);
         }
         catch (const sdbusplus::exception_t&)
         {
-            // sensors don't have to expose non-critical thresholds
-            return false;
+            // do nothing, sensors don't have to expose thresholds
+            return;
         }
-        auto findWarningHigh = warningMap.find(
-            SensorThresholdWarning::property_names::warning_alarm_high);
 
-        if (findWarningHigh != warningMap.end())
+        for (const auto& alarm : alarms)
         {
-            asserted = std::get<bool>(findWarningHigh->second);
+            auto found = propMap.find(alarm);
+            if (found != propMap.end() && std::get<bool>(found->second))
+            {
+                asserted.insert(alarm);
+            }
         }
+    };
+
+    // as we are catching properties changed, a sensor could theoretically jump
+    // from one threshold to the other in one event, so check both thresholds
+    addAsserted(SensorThresholdCritical::interface,
+                {SensorThresholdCritical::property_names::critical_alarm_low,
+                 SensorThresholdCritical::property_names::critical_alarm_high});
+    if constexpr (UNC_FAILSAFE)
+    {
+        addAsserted(
+            SensorThresholdWarning::interface,
+            {SensorThresholdWarning::property_names::warning_alarm_high});
     }
     return asserted;
 }
diff --git a/dbus/dbushelper.hpp b/dbus/dbushelper.hpp
index 8fac1a2..e4fb2ed 100644
--- a/dbus/dbushelper.hpp
+++ b/dbus/dbushelper.hpp
@@ -46,6 +46,9 @@ class DbusHelper : public DbusHelperInterface
     bool thresholdsAsserted(const std::string& service,
                             const std::string& path) override;
 
+    std::set<std::string> getAssertedAlarms(const std::string& service,
+                                            const std::string& path) override;
+
     template <typename T>
     void getProperty(const std::string& service, const std::string& path,
                      const std::string& interface,
diff --git a/dbus/dbushelper_interface.hpp b/dbus/dbushelper_interface.hpp
index 2ea6230..4a99f04 100644
--- a/dbus/dbushelper_interface.hpp
+++ b/dbus/dbushelper_interface.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cstdint>
+#include <set>
 #include <string>
 
 namespace pid_control
@@ -50,6 +51,18 @@ class DbusHelperInterface
      */
     virtual bool thresholdsAsserted(const std::string& service,
                                     const std::string& path) = 0;
+
+    /** @brief Get the names of the threshold alarms currently asserted.
+     *
+     * @param[in] service - The service providing the interface.
+     * @param[in] path - The dbus path.
+     */
+    virtual std::set<std::string> getAssertedAlarms(
+        [[maybe_unused]] const std::string& service,
+        [[maybe_unused]] const std::string& path)
+    {
+        return {};
+    }
 };
 
 } // namespace pid_control
diff --git a/dbus/dbuspassive.cpp b/dbus/dbuspassive.cpp
index 016f069..730310f 100644
--- a/dbus/dbuspassive.cpp
+++ b/dbus/dbuspassive.cpp
@@ -133,6 +133,10 @@ std::unique_ptr<ReadInterface> DbusPassive::createDbusPassive(
     {
         sensor->_helper->getProperties(service, path, &settings);
         failed = sensor->_helper->thresholdsAsserted(service, path);
+        if (failed)
+        {
+            sensor->_alarms = sensor->_helper->getAssertedAlarms(service, path);
+        }
     }
     catch (const std::exception& e)
     {
@@ -313,6 +317,21 @@ void DbusPassive::setFailed(bool value)
     _failed = value;
 }
 
+void DbusPassive::setAlarm(const std::string& name, bool asserted)
+{
+    if (asserted)
+    {
+        _alarms.insert(name);
+    }
+    else
+    {
+        _alarms.erase(name);
+    }
+
+    // Remain failed for as long as any of the alarms is asserted
+    setFailed(!_alarms.empty());
+}
+
 void DbusPassive::setFunctional(bool value)
 {
     _functional = value;
@@ -442,19 +461,18 @@ int handleSensorValue(sdbusplus::message_t& msg, DbusPassive* owner)
             return 0;
         }
 
-        bool asserted = false;
+        // checking both as in theory you could de-assert one threshold and
+        // assert the other at the same moment
         if (criticalAlarmLow != msgData.end())
         {
-            asserted = std::get<bool>(criticalAlarmLow->second);
+            owner->setAlarm(criticalAlarmLow->first,
+                            std::get<bool>(criticalAlarmLow->second));
         }
-
-        // checking both as in theory you could de-assert one threshold and
-        // assert the other at the same moment
-        if (!asserted && criticalAlarmHigh != msgData.end())
+        if (criticalAlarmHigh != msgData.end())
         {
-            asserted = std::get<bool>(criticalAlarmHigh->second);
+            owner->setAlarm(criticalAlarmHigh->first,
+                            std::get<bool>(criticalAlarmHigh->second));
         }
-        owner->setFailed(asserted);
     }
     else if (UNC_FAILSAFE && msgSensor == SensorThresholdWarning::interface)
     {
@@ -465,12 +483,8 @@ int handleSensorValue(sdbusplus::message_t& msg, DbusPassive* owner)
             return 0;
         }
 
-        bool asserted = false;
-        if (warningAlarmHigh != msgData.end())
-        {
-            asserted = std::get<bool>(warningAlarmHigh->second);
-        }
-        owner->setFailed(asserted);
+        owner->setAlarm(warningAlarmHigh->first,
+                        std::get<bool>(warningAlarmHigh->second));
     }
     else if (msgSensor == StateDecoratorAvailability::interface)
     {
diff --git a/dbus/dbuspassive.hpp b/dbus/dbuspassive.hpp
index 5a3c745..e4f9dd7 100644
--- a/dbus/dbuspassive.hpp
+++ b/dbus/dbuspassive.hpp
@@ -16,6 +16,7 @@
 #include <cstdint>
 #include <memory>
 #include <mutex>
+#include <set>
 #include <string>
 
 namespace pid_control
@@ -58,6 +59,7 @@ class DbusPassive : public ReadInterface
     void setValue(double value);
 
     void setFailed(bool value);
+    void setAlarm(const std::string& name, bool asserted);
     void setFunctional(bool value);
     void setAvailable(bool value);
 
@@ -80,6 +82,8 @@ class DbusPassive : public ReadInterface
     double _max = 0;
     double _min = 0;
     bool _failed = false;
+    /* The threshold alarms currently asserted. */
+    std::set<std::string> _alarms;
     bool _functional = true;
     bool _available = true;
     bool _availableOverridden = false;
-- 
2.43.0


From a6426e6a3fbfc0d601f8f2e55617c2daceedb760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:16 +0000
Subject: [PATCH 02/32] fix: do not scale readings by infinite sensor limits

A sensor without limits publishes infinite MinValue and MaxValue, which
turned every one of its readings into NaN.
---
 dbus/dbusutil.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dbus/dbusutil.cpp b/dbus/dbusutil.cpp
index ed537c0..ee92763 100644
--- a/dbus/dbusutil.cpp
+++ b/dbus/dbusutil.cpp
@@ -156,7 +156,8 @@ bool validType(const std::string& type)
 
 void scaleSensorReading(const double min, const double max, double& value)
 {
-    if (max <= 0 || max <= min)
+    // An unlimited sensor has infinite limits, which cannot scale a reading
+    if (!std::isfinite(min) || !std::isfinite(max) || max <= 0 || max <= min)
     {
         return;
     }
-- 
2.43.0


From 5923f8332156f1afaf76d3a3e7c630b71bc6c2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 03/32] fix: retry a fan write that failed on D-Bus

A failed Set was remembered as if it had been delivered, so the same
value was considered redundant and never sent again.
---
 dbus/dbuswrite.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dbus/dbuswrite.cpp b/dbus/dbuswrite.cpp
index 8a87116..0f65a5b 100644
--- a/dbus/dbuswrite.cpp
+++ b/dbus/dbuswrite.cpp
@@ -91,6 +91,7 @@ void DbusWritePercent::write(double value, bool force, int64_t* written)
     {
         // TODO: if we don't use the reply, call_noreply()
         auto resp = writeBus.call(mesg);
+        oldValue = static_cast<int64_t>(ovalue);
     }
     catch (const sdbusplus::exception_t& ex)
     {
@@ -98,10 +99,9 @@ void DbusWritePercent::write(double value, bool force, int64_t* written)
                         entry("WHAT=%s", ex.what()));
     }
 
-    oldValue = static_cast<int64_t>(ovalue);
     if (written)
     {
-        *written = oldValue;
+        *written = static_cast<int64_t>(ovalue);
     }
     return;
 }
@@ -153,6 +153,7 @@ void DbusWrite::write(double value, bool force, int64_t* written)
     {
         // TODO: consider call_noreplly
         auto resp = writeBus.call(mesg);
+        oldValue = static_cast<int64_t>(value);
     }
     catch (const sdbusplus::exception_t& ex)
     {
@@ -160,10 +161,9 @@ void DbusWrite::write(double value, bool force, int64_t* written)
                         entry("WHAT=%s", ex.what()));
     }
 
-    oldValue = static_cast<int64_t>(value);
     if (written)
     {
-        *written = oldValue;
+        *written = static_cast<int64_t>(value);
     }
     return;
 }
-- 
2.43.0


From a98b75aa95b73aef3e38d3ac07fc33e5606f80a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 04/32] fix: keep fans failed while any of their redundancy
 groups is

One collection recovering cleared the failure of fans which also belong
to another collection that is still failed. Track the members of each
failed collection.
---
 dbus/dbuspassiveredundancy.cpp | 22 ++++++++++++++++------
 dbus/dbuspassiveredundancy.hpp |  5 +++++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/dbus/dbuspassiveredundancy.cpp b/dbus/dbuspassiveredundancy.cpp
index bc88728..63f1a28 100644
--- a/dbus/dbuspassiveredundancy.cpp
+++ b/dbus/dbuspassiveredundancy.cpp
@@ -25,6 +25,7 @@
 
 #include <array>
 #include <iostream>
+#include <map>
 #include <set>
 #include <string>
 #include <unordered_map>
@@ -97,15 +98,13 @@ DbusPassiveRedundancy::DbusPassiveRedundancy(sdbusplus::bus_t& bus) :
               auto data = std::get<std::vector<std::string>>(collection);
               if (status.rfind("Failed") != std::string::npos)
               {
-                  failed.insert(data.begin(), data.end());
+                  failedCollections[message.get_path()] = data;
               }
               else
               {
-                  for (const auto& d : data)
-                  {
-                      failed.erase(d);
-                  }
+                  failedCollections.erase(message.get_path());
               }
+              updateFailed();
           }),
     passiveBus(bus)
 {
@@ -177,11 +176,22 @@ void DbusPassiveRedundancy::populateFailures(void)
             std::vector<std::string> collection =
                 std::get<std::vector<std::string>>(
                     getAll[ControlFanRedundancy::property_names::collection]);
-            failed.insert(collection.begin(), collection.end());
+            failedCollections[path] = collection;
+            updateFailed();
         }
     }
 }
 
+void DbusPassiveRedundancy::updateFailed(void)
+{
+    // A sensor can be in several collections, and any of them may have failed
+    failed.clear();
+    for (const auto& [_, collection] : failedCollections)
+    {
+        failed.insert(collection.begin(), collection.end());
+    }
+}
+
 const std::set<std::string>& DbusPassiveRedundancy::getFailed()
 {
     return failed;
diff --git a/dbus/dbuspassiveredundancy.hpp b/dbus/dbuspassiveredundancy.hpp
index c900761..f0830a6 100644
--- a/dbus/dbuspassiveredundancy.hpp
+++ b/dbus/dbuspassiveredundancy.hpp
@@ -19,8 +19,10 @@
 #include <sdbusplus/bus.hpp>
 #include <sdbusplus/bus/match.hpp>
 
+#include <map>
 #include <set>
 #include <string>
+#include <vector>
 
 namespace pid_control
 {
@@ -40,8 +42,11 @@ class DbusPassiveRedundancy
 
   private:
     void populateFailures(void);
+    void updateFailed(void);
 
     sdbusplus::match match;
+    /* The members of each failed collection, by the collection's path. */
+    std::map<std::string, std::vector<std::string>> failedCollections;
     std::set<std::string> failed;
     sdbusplus::bus_t& passiveBus;
 };
-- 
2.43.0


From aba50bc2cb830aa98324417fbedd2ad8fee859a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 05/32] fix: reject configurations that lack a required key

operator[] on a constant JSON object asserts (or is undefined) for a key that
does not exist; at() throws an exception callers already handle.
---
 pid/buildjson.cpp     | 13 ++++++-------
 sensors/buildjson.cpp |  4 ++--
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index 8925e2e..ed1d9b4 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -195,17 +195,16 @@ std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
     std::map<int64_t, conf::ZoneConfig> zoneConfig;
 
     /* TODO: if zones is empty, that's invalid. */
-    auto zones = data["zones"];
+    auto zones = data.at("zones");
     for (const auto& zone : zones)
     {
         int64_t id;
         conf::PIDConf thisZone;
         conf::ZoneConfig thisZoneConfig;
 
-        /* TODO: using at() throws a specific exception we can catch */
-        id = zone["id"];
-        thisZoneConfig.minThermalOutput = zone["minThermalOutput"];
-        thisZoneConfig.failsafePercent = zone["failsafePercent"];
+        id = zone.at("id");
+        thisZoneConfig.minThermalOutput = zone.at("minThermalOutput");
+        thisZoneConfig.failsafePercent = zone.at("failsafePercent");
 
         getCycleTimeSetting(zone, id, "cycleIntervalTimeMS",
                             thisZoneConfig.cycleTime.cycleIntervalTimeMS);
@@ -220,10 +219,10 @@ std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>>
         }
         thisZoneConfig.accumulateSetPoint = accumulateSetPoint;
 
-        auto pids = zone["pids"];
+        auto pids = zone.at("pids");
         for (const auto& pid : pids)
         {
-            auto name = pid["name"];
+            auto name = pid.at("name");
             auto item = pid.get<conf::ControllerInfo>();
 
             if (thisZone.find(name) != thisZone.end())
diff --git a/sensors/buildjson.cpp b/sensors/buildjson.cpp
index 23bb201..770647e 100644
--- a/sensors/buildjson.cpp
+++ b/sensors/buildjson.cpp
@@ -104,14 +104,14 @@ void from_json(const json& j, conf::SensorConfig& s)
 std::map<std::string, conf::SensorConfig> buildSensorsFromJson(const json& data)
 {
     std::map<std::string, conf::SensorConfig> config;
-    auto sensors = data["sensors"];
+    auto sensors = data.at("sensors");
 
     /* TODO: If no sensors, this is invalid, and we should except here or during
      * parsing.
      */
     for (const auto& sensor : sensors)
     {
-        config[sensor["name"]] = sensor.get<conf::SensorConfig>();
+        config[sensor.at("name")] = sensor.get<conf::SensorConfig>();
     }
 
     return config;
-- 
2.43.0


From 95a317cb3c925feb2605b710ce02f00fd956712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 06/32] fix: use the default for a negative cycle time

A negative value wrapped to a huge unsigned one and passed the validity check.
---
 pid/buildjson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index ed1d9b4..049ed61 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -167,7 +167,7 @@ inline void getCycleTimeSetting(const auto& zone, const int id,
     auto findAttributeName = zone.find(attributeName);
     if (findAttributeName != zone.end())
     {
-        uint64_t tmpAttributeValue = 0;
+        int64_t tmpAttributeValue = 0;
         findAttributeName->get_to(tmpAttributeValue);
         if (tmpAttributeValue >= 1)
         {
-- 
2.43.0


From d1b54fb725293643b8ec988c02628cf0859c331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 07/32] fix: keep the fraction of FailSafePercent

The value was read as an integer although the setting is a double.
---
 pid/buildjson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pid/buildjson.cpp b/pid/buildjson.cpp
index 049ed61..89e1ab9 100644
--- a/pid/buildjson.cpp
+++ b/pid/buildjson.cpp
@@ -84,7 +84,7 @@ void from_json(const json& j, conf::ControllerInfo& c)
     }
 
     auto failSafePercent = j.find("FailSafePercent");
-    auto failSafePercentValue = 0;
+    auto failSafePercentValue = 0.0;
     if (failSafePercent != j.end())
     {
         failSafePercent->get_to(failSafePercentValue);
-- 
2.43.0


From 93d3dbfccced70e5f82fcce8faabb7490707da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:08 +0000
Subject: [PATCH 08/32] fix: address zones of 128 and more over IPMI

The zone number was narrowed to a signed byte, giving object paths such as
zone-1.
---
 ipmi/dbus_mode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmi/dbus_mode.cpp b/ipmi/dbus_mode.cpp
index 52666c0..eed6651 100644
--- a/ipmi/dbus_mode.cpp
+++ b/ipmi/dbus_mode.cpp
@@ -28,7 +28,7 @@ using Value = std::variant<bool>;
 using PropertyMap = std::map<Property, Value>;
 
 /* The following was copied directly from my manual thread handler. */
-static std::string getControlPath(int8_t zone)
+static std::string getControlPath(uint8_t zone)
 {
     return std::string(objectPath) + std::to_string(zone);
 }
-- 
2.43.0


From eb72dab1e8dd258c48f822d6b8f7d8f0c8510a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 09/32] fix: report an unreadable sensor file as failed

---
 sysfs/sysfsread.cpp | 26 ++++++++++++++++++++++----
 sysfs/sysfsread.hpp |  7 +++++++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/sysfs/sysfsread.cpp b/sysfs/sysfsread.cpp
index a0e0779..b79ceb4 100644
--- a/sysfs/sysfsread.cpp
+++ b/sysfs/sysfsread.cpp
@@ -8,24 +8,42 @@
 #include <chrono>
 #include <cstdint>
 #include <fstream>
-#include <iostream>
+#include <limits>
+#include <string>
 
 namespace pid_control
 {
 
 ReadReturn SysFsRead::read(void)
 {
-    int64_t value;
+    int64_t value = 0;
     std::ifstream ifs;
 
     ifs.open(_path);
     ifs >> value;
+    _failed = ifs.fail();
     ifs.close();
 
-    ReadReturn r = {static_cast<double>(value),
-                    std::chrono::high_resolution_clock::now()};
+    // Do not report a reading which was not made
+    if (_failed)
+    {
+        return {std::numeric_limits<double>::quiet_NaN(), _updated};
+    }
+
+    _updated = std::chrono::high_resolution_clock::now();
+    ReadReturn r = {static_cast<double>(value), _updated};
 
     return r;
 }
 
+bool SysFsRead::getFailed(void) const
+{
+    return _failed;
+}
+
+std::string SysFsRead::getFailReason(void) const
+{
+    return _failed ? "Sensor file unreadable" : "Unknown";
+}
+
 } // namespace pid_control
diff --git a/sysfs/sysfsread.hpp b/sysfs/sysfsread.hpp
index 32ce18e..8288abf 100644
--- a/sysfs/sysfsread.hpp
+++ b/sysfs/sysfsread.hpp
@@ -3,6 +3,7 @@
 #include "interfaces.hpp"
 #include "util.hpp"
 
+#include <chrono>
 #include <string>
 
 namespace pid_control
@@ -20,9 +21,15 @@ class SysFsRead : public ReadInterface
     {}
 
     ReadReturn read(void) override;
+    bool getFailed(void) const override;
+    std::string getFailReason(void) const override;
 
   private:
     const std::string _path;
+    // True until the file was read, and again while it cannot be
+    bool _failed = true;
+    // When the file was last read successfully
+    std::chrono::high_resolution_clock::time_point _updated;
 };
 
 } // namespace pid_control
-- 
2.43.0


From 49987cce205d7e776af8551a8ef421d72f56ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 10/32] fix: honour ignoreFailIfHostOff for external sensors

---
 sensors/builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/builder.cpp b/sensors/builder.cpp
index 640c0ca..7316cd3 100644
--- a/sensors/builder.cpp
+++ b/sensors/builder.cpp
@@ -167,7 +167,7 @@ SensorManager buildSensors(
                  */
                 auto sensor = HostSensor::createTemp(
                     name, info->timeout, hostSensorBus, info->readPath.c_str(),
-                    deferSignals);
+                    deferSignals, info->ignoreFailIfHostOff);
                 mgmr.addSensor(info->type, name, std::move(sensor));
             }
             else
-- 
2.43.0


From 51a278d625a253f12f7a8104cbbbb9a1bafbcb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:10 +0000
Subject: [PATCH 11/32] fix: publish a power sum of zero

With all inputs at zero the sum never changes while it is being built, so
the Input and Leader properties kept the values of an earlier pass.
---
 pid/thermalcontroller.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pid/thermalcontroller.cpp b/pid/thermalcontroller.cpp
index 3083761..bbdad3e 100644
--- a/pid/thermalcontroller.cpp
+++ b/pid/thermalcontroller.cpp
@@ -143,7 +143,8 @@ double ThermalController::inputProc(void)
             value = compare(value, cachedValue);
         }
 
-        if (oldValue != value)
+        // A sum is new even where this input adds nothing to it
+        if (doSummation || oldValue != value)
         {
             leaderName = in.name;
             _owner->updateThermalPowerDebugInterface(_id, leaderName, value, 0);
-- 
2.43.0


From a93bb25effe19eb78311006358a432aa5896d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 12/32] fix: name the ceiling as leader of an accumulating zone

The names of the controllers sharing a profile were combined after the
ceiling had replaced the name of the profile, which no controller matches,
so that the leader became empty.
---
 pid/zone.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pid/zone.cpp b/pid/zone.cpp
index bfcbe3b..ed083ba 100644
--- a/pid/zone.cpp
+++ b/pid/zone.cpp
@@ -337,19 +337,6 @@ void DbusPidZone::determineMaxSetPointRequest(void)
     std::vector<double>::iterator result;
     double minThermalThreshold = getMinThermalSetPoint();
 
-    if (rpmCeilings.size() > 0)
-    {
-        result = std::min_element(rpmCeilings.begin(), rpmCeilings.end());
-        // if Max set point is larger than the lowest ceiling, reset to lowest
-        // ceiling.
-        if (*result < _maximumSetPoint)
-        {
-            _maximumSetPoint = *result;
-            // When using lowest ceiling, controller name is ceiling.
-            _maximumSetPointName = "Ceiling";
-        }
-    }
-
     /*
      * Combine the maximum SetPoint Name if the controllers have same profile
      * name. e.g., PID_BB_INLET_TEMP_C + Stepwise_BB_INLET_TEMP_C.
@@ -377,6 +364,19 @@ void DbusPidZone::determineMaxSetPointRequest(void)
         }
     }
 
+    if (rpmCeilings.size() > 0)
+    {
+        result = std::min_element(rpmCeilings.begin(), rpmCeilings.end());
+        // if Max set point is larger than the lowest ceiling, reset to lowest
+        // ceiling.
+        if (*result < _maximumSetPoint)
+        {
+            _maximumSetPoint = *result;
+            // When using lowest ceiling, controller name is ceiling.
+            _maximumSetPointName = "Ceiling";
+        }
+    }
+
     /*
      * If the maximum RPM setpoint output is below the minimum RPM
      * setpoint, set it to the minimum.
-- 
2.43.0


From 6108abc4fe930c8b97a4aa1c439b13dbf9663c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 13/32] fix: name only the leading profile's controllers as
 leader

A controller was counted as sharing the leading profile when its name
merely contained the profile's, e.g. PID_Temp_CPU10 for Temp_CPU1.
---
 pid/zone.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pid/zone.cpp b/pid/zone.cpp
index ed083ba..6095a77 100644
--- a/pid/zone.cpp
+++ b/pid/zone.cpp
@@ -349,8 +349,7 @@ void DbusPidZone::determineMaxSetPointRequest(void)
         for (auto& p : _thermals)
         {
             auto controllerID = p->getID();
-            auto found = controllerID.find(profileName);
-            if (found != std::string::npos)
+            if (controllerID.substr(controllerID.find('_') + 1) == profileName)
             {
                 if (_maximumSetPointName.empty())
                 {
-- 
2.43.0


From e54f402bb6ac520a5f8ab22bea818d64fc438bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 14/32] fix: run fans that have no readPath

configure.md allows a fan without a readPath as write-only, but reading one
throws from the control loop's timer and ends the daemon.
---
 notimpl/writeonly.cpp | 8 ++++++++
 notimpl/writeonly.hpp | 8 ++++++++
 sensors/builder.cpp   | 7 +++++++
 3 files changed, 23 insertions(+)

diff --git a/notimpl/writeonly.cpp b/notimpl/writeonly.cpp
index 17113ae..ce0bb80 100644
--- a/notimpl/writeonly.cpp
+++ b/notimpl/writeonly.cpp
@@ -5,6 +5,8 @@
 
 #include "interfaces.hpp"
 
+#include <chrono>
+#include <limits>
 #include <stdexcept>
 
 namespace pid_control
@@ -15,4 +17,10 @@ ReadReturn WriteOnly::read(void)
     throw std::runtime_error("Not supported.");
 }
 
+ReadReturn WriteOnlyNoExcept::read(void)
+{
+    auto nan = std::numeric_limits<double>::quiet_NaN();
+    return {nan, std::chrono::high_resolution_clock::now(), nan};
+}
+
 } // namespace pid_control
diff --git a/notimpl/writeonly.hpp b/notimpl/writeonly.hpp
index 0561de0..1d67047 100644
--- a/notimpl/writeonly.hpp
+++ b/notimpl/writeonly.hpp
@@ -14,4 +14,12 @@ class WriteOnly : public ReadInterface
     ReadReturn read(void) override;
 };
 
+class WriteOnlyNoExcept : public ReadInterface
+{
+  public:
+    WriteOnlyNoExcept() : ReadInterface() {}
+
+    ReadReturn read(void) override;
+};
+
 } // namespace pid_control
diff --git a/sensors/builder.cpp b/sensors/builder.cpp
index 7316cd3..2799f27 100644
--- a/sensors/builder.cpp
+++ b/sensors/builder.cpp
@@ -95,6 +95,13 @@ SensorManager buildSensors(
             case IOInterfaceType::SYSFS:
                 ri = std::make_unique<SysFsRead>(info->readPath);
                 break;
+            case IOInterfaceType::NONE:
+                if (info->type == "fan")
+                {
+                    ri = std::make_unique<WriteOnlyNoExcept>();
+                    break;
+                }
+                [[fallthrough]];
             default:
                 ri = std::make_unique<WriteOnly>();
                 break;
-- 
2.43.0


From ff9c135c0c34e1362fa709c479b82f90672cf943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 15/32] fix: reject a fan controller without inputs

createFanPid returns no controller for it, which the zone then ran.
---
 pid/builder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pid/builder.cpp b/pid/builder.cpp
index 6de7bcc..52be1d3 100644
--- a/pid/builder.cpp
+++ b/pid/builder.cpp
@@ -4,6 +4,7 @@
 #include "pid/builder.hpp"
 
 #include "conf.hpp"
+#include "errors/exception.hpp"
 #include "manager.hpp"
 #include "pid/controller.hpp"
 #include "pid/fancontroller.hpp"
@@ -92,6 +93,11 @@ std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> buildZones(
 
                 auto pid = FanController::createFanPid(
                     zone.get(), name, splitNames(inputs), info.pidInfo);
+                if (!pid)
+                {
+                    throw ControllerBuildException(
+                        "Fan controller missing inputs");
+                }
                 zone->addFanPID(std::move(pid));
                 zone->addPidFailSafePercent(splitNames(inputs),
                                             info.failSafePercent);
-- 
2.43.0


From 6e0ea3e94842447b2ab9d628994e2377cc245bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 16/32] fix: reject controllers with an unknown input

The name was only looked up when the loop ran, where the exception ends the
daemon.
---
 pid/builder.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pid/builder.cpp b/pid/builder.cpp
index 52be1d3..dc6d73e 100644
--- a/pid/builder.cpp
+++ b/pid/builder.cpp
@@ -79,10 +79,19 @@ std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> buildZones(
             std::vector<pid_control::conf::SensorInput> inputs;
             std::cerr << "PID name: " << name << "\n";
 
-            /*
-             * TODO(venture): Need to check if input is known to the
-             * SensorManager.
-             */
+            for (const auto& i : info.inputs)
+            {
+                try
+                {
+                    mgr.getSensor(i.name);
+                }
+                catch (const std::out_of_range&)
+                {
+                    throw ControllerBuildException(
+                        "Unknown input " + i.name + " of " + name);
+                }
+            }
+
             if (info.type == "fan")
             {
                 for (const auto& i : info.inputs)
-- 
2.43.0


From 2eb7a67a7e34a931406f87108e3127d8c6c58a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 17/32] fix: reject fans with an external readPath

External sensors are hosted by the daemon for thermal types only; such a
fan had no reader at all and crashed the daemon when first read.
---
 sensors/builder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sensors/builder.cpp b/sensors/builder.cpp
index 2799f27..6134fb5 100644
--- a/sensors/builder.cpp
+++ b/sensors/builder.cpp
@@ -91,6 +91,11 @@ SensorManager buildSensors(
                 break;
             case IOInterfaceType::EXTERNAL:
                 // These are a special case for read-only.
+                if (info->type == "fan")
+                {
+                    throw SensorBuildException(
+                        "Fans cannot be external: " + name);
+                }
                 break;
             case IOInterfaceType::SYSFS:
                 ri = std::make_unique<SysFsRead>(info->readPath);
-- 
2.43.0


From 7ed88829e6cccacfff2c3c4285b2ee5f7c78207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 18/32] fix: reject fans with an unusable readPath

Reading such a fan throws from the control loop's timer and ends the daemon.
---
 sensors/builder.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sensors/builder.cpp b/sensors/builder.cpp
index 6134fb5..d64a494 100644
--- a/sensors/builder.cpp
+++ b/sensors/builder.cpp
@@ -106,8 +106,14 @@ SensorManager buildSensors(
                     ri = std::make_unique<WriteOnlyNoExcept>();
                     break;
                 }
-                [[fallthrough]];
+                ri = std::make_unique<WriteOnly>();
+                break;
             default:
+                if (info->type == "fan")
+                {
+                    throw SensorBuildException(
+                        "Unusable readPath of fan: " + name);
+                }
                 ri = std::make_unique<WriteOnly>();
                 break;
         }
-- 
2.43.0


From e0eca88ade094a32b7a2387ffbe11944f2e7dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 19/32] fix: ignore writes to external sensors

A fan controller that lists one threw from the control loop's timer and
ended the daemon; any other sensor that is not a fan ignores the write.
---
 sensors/host.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sensors/host.cpp b/sensors/host.cpp
index c32dc52..321c8fc 100644
--- a/sensors/host.cpp
+++ b/sensors/host.cpp
@@ -15,7 +15,6 @@
 #include <cstdint>
 #include <memory>
 #include <mutex>
-#include <stdexcept>
 #include <string>
 #include <type_traits>
 
@@ -70,7 +69,8 @@ ReadReturn HostSensor::read(void)
 
 void HostSensor::write([[maybe_unused]] double value)
 {
-    throw std::runtime_error("Not Implemented.");
+    // Read-only for this application, as any sensor but a fan's.
+    return;
 }
 
 bool HostSensor::getFailed(void)
-- 
2.43.0


From bd66fe05b696a75acaa8ae56ae3cad2e5becdaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 20/32] fix: reject thermal sensors without a usable readPath

Reading one throws: the daemon never got past starting its control loops,
or ended when a fan controller lists the sensor.
---
 sensors/builder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sensors/builder.cpp b/sensors/builder.cpp
index d64a494..eeacd55 100644
--- a/sensors/builder.cpp
+++ b/sensors/builder.cpp
@@ -174,6 +174,13 @@ SensorManager buildSensors(
             // which only writes to fan sensors.
             std::cerr << info->type << " readPath: " << info->readPath << "\n";
 
+            if (rtype == IOInterfaceType::NONE ||
+                rtype == IOInterfaceType::UNKNOWN)
+            {
+                throw SensorBuildException("Unusable readPath of sensor: " +
+                                           name);
+            }
+
             if (IOInterfaceType::EXTERNAL == rtype)
             {
                 std::cerr << "Creating HostSensor: " << name
-- 
2.43.0


From 32678f5152115405e43f3853c2ef7f048215c76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 21/32] fix: ignore set point files that hold no number

An extraction from an empty file fails before it stores anything, so that
the value that was taken for the set point was uninitialized. A number that
does not fit was taken as the largest integer.
---
 pid/zone.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pid/zone.cpp b/pid/zone.cpp
index 6095a77..5890370 100644
--- a/pid/zone.cpp
+++ b/pid/zone.cpp
@@ -294,10 +294,10 @@ static bool fileParseRpm(const std::string& fileName, double& rpmValue)
         ifs.open(fileName);
         if (ifs)
         {
-            int value;
-            ifs >> value;
+            int value = 0;
 
-            if (value <= 0)
+            // An empty file leaves the value alone
+            if (!(ifs >> value) || value <= 0)
             {
                 errText = "File content could not be parsed to a number";
             }
-- 
2.43.0


From 6f56129cba8239de46ddf54eabe09772f94a9f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 22/32] fix: keep the fraction of a FailSafePercent from D-Bus

---
 dbus/dbusconfiguration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index e7b0ddc..b3bc09c 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -345,7 +345,7 @@ void populatePidInfo(
                                    getPIDAttribute(base, "SetPoint"));
     }
 
-    int failsafepercent = 0;
+    double failsafepercent = 0;
     auto findFailSafe = base.find("FailSafePercent");
     if (findFailSafe != base.end())
     {
@@ -672,7 +672,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
             details.minThermalOutput = std::visit(VariantToDoubleVisitor(),
                                                   zone.at("MinThermalOutput"));
 
-            int failsafepercent = 0;
+            double failsafepercent = 0;
             auto findFailSafe = zone.find("FailSafePercent");
             if (findFailSafe != zone.end())
             {
-- 
2.43.0


From 581c59fc2fa7ff2e54c91684b2fa5538da63cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 23/32] fix: accept a ZoneIndex of an integer type from D-Bus

Only a double was looked at, while an integer written in the
configuration is published as int64 or uint64, so that the requested
index was silently replaced by an automatic one.
---
 dbus/dbusconfiguration.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index b3bc09c..c5e4cce 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -642,13 +642,19 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                 continue;
             }
 
-            auto ptrZoneIndex = std::get_if<double>(&(findZoneIndex->second));
-            if (!ptrZoneIndex)
+            // Integers are published as such, so accept any numeric type
+            double zoneIndex = 0;
+            try
+            {
+                zoneIndex = std::visit(VariantToDoubleVisitor(),
+                                       findZoneIndex->second);
+            }
+            catch (const std::invalid_argument&)
             {
                 continue;
             }
 
-            auto desiredIndex = static_cast<int64_t>(*ptrZoneIndex);
+            auto desiredIndex = static_cast<int64_t>(zoneIndex);
             auto grantedIndex = setZoneIndex(name, foundZones, desiredIndex);
             std::cout << "Zone " << name << " is at ZoneIndex " << grantedIndex
                       << "\n";
-- 
2.43.0


From 40002e9dfa598e5a0d94e45ddc2a30b01359b208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 24/32] fix: keep TempToMargin values with their inputs

When inputs were not present on D-Bus, the remaining ones were given
the values of TempToMargin by their position among those present, so a
sensor was converted with the limit of another one.
---
 dbus/dbusconfiguration.cpp | 56 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/dbus/dbusconfiguration.cpp b/dbus/dbusconfiguration.cpp
index c5e4cce..7befc4d 100644
--- a/dbus/dbusconfiguration.cpp
+++ b/dbus/dbusconfiguration.cpp
@@ -328,6 +328,25 @@ inline void getCycleTimeSetting(
     }
 }
 
+/**
+ * TempToMargin has one value per configured input, in that order. Inputs
+ * which are not on D-Bus may have been left out or moved, so each input is
+ * given the value at the position it has in the configuration.
+ */
+static void setTempToMargin(std::vector<conf::SensorInput>& inputs,
+                            const std::vector<size_t>& positions,
+                            const std::vector<double>& tempToMargin)
+{
+    for (size_t idx = 0; idx < inputs.size() && idx < positions.size(); ++idx)
+    {
+        if (positions[idx] < tempToMargin.size())
+        {
+            inputs[idx].convertMarginZero = tempToMargin[positions[idx]];
+            inputs[idx].convertTempToMargin = true;
+        }
+    }
+}
+
 void populatePidInfo(
     sdbusplus::bus_t& bus,
     const std::unordered_map<std::string, DbusVariantType>& base,
@@ -722,6 +741,11 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                 std::vector<std::string> outputSensorNames;
                 std::vector<std::string> missingAcceptableSensorNames;
                 std::vector<std::string> archivedInputSensorNames;
+                // positions in the configuration, for TempToMargin: of each
+                // found input, and of each archived input
+                std::vector<size_t> foundInputPositions;
+                std::vector<size_t> archivedInputPositions;
+                size_t inputPosition = 0;
 
                 auto findMissingAcceptable = base.find("MissingIsAcceptable");
                 if (findMissingAcceptable != base.end())
@@ -772,8 +796,13 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                 {
                     if constexpr (!HANDLE_MISSING_OBJECT_PATHS)
                     {
+                        size_t before = inputSensorInterfaces.size();
                         findSensors(sensors, sensorNameToDbusName(sensorName),
                                     inputSensorInterfaces);
+                        if (inputSensorInterfaces.size() == before)
+                        {
+                            ++inputPosition;
+                        }
                     }
                     else
                     {
@@ -804,6 +833,8 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                                 auto& config = sensorConfig[inputSensorName];
                                 archivedInputSensorNames.push_back(
                                     inputSensorName);
+                                archivedInputPositions.push_back(
+                                    inputPosition++);
                                 config.type = pidClass;
                                 config.readPath =
                                     getSensorPath(config.type, inputSensorName);
@@ -822,11 +853,20 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                                 std::cout
                                     << "Pid controller: Missing a missing-acceptable sensor from D-Bus "
                                     << sensorName << "\n";
+                                ++inputPosition;
                                 continue;
                             }
                         }
                     }
+                    while (foundInputPositions.size() <
+                           inputSensorInterfaces.size())
+                    {
+                        foundInputPositions.push_back(inputPosition++);
+                    }
                 }
+                archivedInputPositions.insert(archivedInputPositions.end(),
+                                              foundInputPositions.begin(),
+                                              foundInputPositions.end());
                 for (const std::string& sensorName : outputSensorNames)
                 {
                     findSensors(sensors, sensorNameToDbusName(sensorName),
@@ -1021,8 +1061,10 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                 }
 
                 std::vector<pid_control::conf::SensorInput> sensorInputs =
-                    spliceInputs(archivedInputSensorNames, inputTempToMargin,
+                    spliceInputs(archivedInputSensorNames, {},
                                  missingAcceptableSensorNames);
+                setTempToMargin(sensorInputs, archivedInputPositions,
+                                inputTempToMargin);
 
                 if (offsetType.empty())
                 {
@@ -1061,6 +1103,9 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                 conf::PIDConf& conf = zoneConfig[index];
 
                 std::vector<std::string> inputs;
+                // position in the configuration of each input
+                std::vector<size_t> inputPositions;
+                size_t inputPosition = 0;
                 std::vector<std::string> missingAcceptableSensors;
                 std::vector<std::string> missingAcceptableSensorNames;
                 std::vector<std::string> sensorNames =
@@ -1119,6 +1164,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                                 sensorNameToDbusName(sensorName);
 
                             inputs.push_back(shortName);
+                            inputPositions.push_back(inputPosition++);
                             auto& config = sensorConfig[shortName];
                             config.type = "temp";
                             config.readPath =
@@ -1140,6 +1186,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                             std::cout
                                 << "Stepwise controller: Missing a missing-acceptable sensor from D-Bus "
                                 << sensorName << "\n";
+                            ++inputPosition;
                             continue;
                         }
                     }
@@ -1152,6 +1199,7 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                                 sensorPathIfacePair.first);
 
                             inputs.push_back(shortName);
+                            inputPositions.push_back(inputPosition++);
                             auto& config = sensorConfig[shortName];
                             config.readPath = sensorPathIfacePair.first;
                             config.type = "temp";
@@ -1213,8 +1261,10 @@ bool init(sdbusplus::bus_t& bus, boost::asio::steady_timer& timer,
                         std::get<std::vector<double>>(findTempToMargin->second);
                 }
 
-                info.inputs = spliceInputs(inputs, inputTempToMargin,
-                                           missingAcceptableSensors);
+                info.inputs =
+                    spliceInputs(inputs, {}, missingAcceptableSensors);
+                setTempToMargin(info.inputs, inputPositions,
+                                inputTempToMargin);
 
                 info.type = "stepwise";
                 info.stepwiseInfo.ts = 1.0; // currently unused
-- 
2.43.0


From b408ff2007d42c0b162816e6fb3316d898955c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 25/32] fix: release the old sensors before building the new
 ones

On a reload the new sensor manager was built while the old one still
existed. With an external sensor in the configuration its object was
still on the bus then, so that adding the new one failed, every time it
was tried again, and the fans were not controlled any more.
---
 main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.cpp b/main.cpp
index c924123..4864162 100644
--- a/main.cpp
+++ b/main.cpp
@@ -160,6 +160,9 @@ void restartControlLoops()
         }
     }
 
+    // The objects of the old sensors must be gone from the bus before the same
+    // ones are added again
+    state::mgmr.reset();
     state::mgmr = buildSensors(sensorConfig, passiveBus, hostBus);
     state::zones =
         buildZones(zoneConfig, zoneDetailsConfig, *state::mgmr, modeControlBus);
-- 
2.43.0


From 111a681925485249a231e291f2145b187125edd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 26/32] fix: put core logs in the default directory without a
 logging path

With -g or /etc/thermal.d/corelogging alone, the logging path was left empty
and the core logs were written to the root of the filesystem instead of the
system temporary directory.
---
 main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main.cpp b/main.cpp
index 4864162..e6a7a6e 100644
--- a/main.cpp
+++ b/main.cpp
@@ -398,6 +398,11 @@ int main(int argc, char* argv[])
     }
     if (coreLoggingEnabled)
     {
+        // The same directory as zone logging, or else the default one
+        if (loggingPath.empty())
+        {
+            loggingPath = defLoggingPath;
+        }
         std::cerr << "Core logging enabled\n";
     }
 
-- 
2.43.0


From 09ada023d81d012daf512e7b6444f908e7623e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:56 +0000
Subject: [PATCH 27/32] fix: send the next fan command after a failed one

The last sent value was kept when a later one failed to be sent, so a
return to that value was skipped although the fan may hold another one.
---
 dbus/dbuswrite.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dbus/dbuswrite.cpp b/dbus/dbuswrite.cpp
index 0f65a5b..0b5e019 100644
--- a/dbus/dbuswrite.cpp
+++ b/dbus/dbuswrite.cpp
@@ -97,6 +97,8 @@ void DbusWritePercent::write(double value, bool force, int64_t* written)
     {
         log<level::ERR>("Dbus Call Failure", entry("PATH=%s", path.c_str()),
                         entry("WHAT=%s", ex.what()));
+        // What the fan has now is not known, the next value has to be sent
+        oldValue = -1;
     }
 
     if (written)
@@ -159,6 +161,8 @@ void DbusWrite::write(double value, bool force, int64_t* written)
     {
         log<level::ERR>("Dbus Call Failure", entry("PATH=%s", path.c_str()),
                         entry("WHAT=%s", ex.what()));
+        // What the fan has now is not known, the next value has to be sent
+        oldValue = -1;
     }
 
     if (written)
-- 
2.43.0


From 5d085d510f8ff3a23d23f983fe9203dcbb48b2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:56 +0000
Subject: [PATCH 28/32] fix: read the other fan groups when one does not answer

One group that could not be read at start left the groups after it
unknown, so their failed fans were not.
---
 dbus/dbuspassiveredundancy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dbus/dbuspassiveredundancy.cpp b/dbus/dbuspassiveredundancy.cpp
index 63f1a28..bb7d855 100644
--- a/dbus/dbuspassiveredundancy.cpp
+++ b/dbus/dbuspassiveredundancy.cpp
@@ -165,7 +165,7 @@ void DbusPassiveRedundancy::populateFailures(void)
             catch (const sdbusplus::exception_t&)
             {
                 std::cerr << "Populate Failures Mapper Error\n";
-                return;
+                continue;
             }
             std::string status = std::get<std::string>(
                 getAll[ControlFanRedundancy::property_names::status]);
-- 
2.43.0


From c62c54c1054ac9aabc5f1db80467016bb8341d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:56 +0000
Subject: [PATCH 29/32] fix: let a fan group recover without its collection

A group whose status was no longer failed stayed failed when reading its
collection did not succeed, although the collection is not needed.
---
 dbus/dbuspassiveredundancy.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dbus/dbuspassiveredundancy.cpp b/dbus/dbuspassiveredundancy.cpp
index bb7d855..07b46b5 100644
--- a/dbus/dbuspassiveredundancy.cpp
+++ b/dbus/dbuspassiveredundancy.cpp
@@ -76,6 +76,13 @@ DbusPassiveRedundancy::DbusPassiveRedundancy(sdbusplus::bus_t& bus) :
               }
               std::string status = std::get<std::string>(findStatus->second);
 
+              if (status.rfind("Failed") == std::string::npos)
+              {
+                  failedCollections.erase(message.get_path());
+                  updateFailed();
+                  return;
+              }
+
               auto methodCall = passiveBus.new_method_call(
                   message.get_sender(), message.get_path(),
                   properties::interface, properties::get);
@@ -96,14 +103,7 @@ DbusPassiveRedundancy::DbusPassiveRedundancy(sdbusplus::bus_t& bus) :
               }
 
               auto data = std::get<std::vector<std::string>>(collection);
-              if (status.rfind("Failed") != std::string::npos)
-              {
-                  failedCollections[message.get_path()] = data;
-              }
-              else
-              {
-                  failedCollections.erase(message.get_path());
-              }
+              failedCollections[message.get_path()] = data;
               updateFailed();
           }),
     passiveBus(bus)
-- 
2.43.0


From 67f99226821c5dccbf6a85a66cd1f7e68e415b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:26 +0000
Subject: [PATCH 30/32] fix: take a sensor's Functional property into account
 when it is built

Only its changes were read, so that a sensor which was not functional when
the daemon started or reloaded counted as sound until it said so again.
---
 dbus/dbushelper.cpp           | 13 +++++++++++++
 dbus/dbushelper.hpp           |  3 +++
 dbus/dbushelper_interface.hpp |  1 +
 dbus/dbuspassive.cpp          |  1 +
 4 files changed, 18 insertions(+)

diff --git a/dbus/dbushelper.cpp b/dbus/dbushelper.cpp
index 410607b..7addeed 100644
--- a/dbus/dbushelper.cpp
+++ b/dbus/dbushelper.cpp
@@ -144,6 +144,19 @@ void DbusHelper::getProperties(const std::string& service,
     }
     prop->available = available;
 
+    bool functional = true;
+    try
+    {
+        getProperty(service, path, StateDecoratorOperationalStatus::interface,
+                    StateDecoratorOperationalStatus::property_names::functional,
+                    functional);
+    }
+    catch (const sdbusplus::exception_t& ex)
+    {
+        // unsupported Functional property, leaving it at 'True'
+    }
+    prop->functional = functional;
+
     return;
 }
 
diff --git a/dbus/dbushelper.hpp b/dbus/dbushelper.hpp
index e4fb2ed..ed86b93 100644
--- a/dbus/dbushelper.hpp
+++ b/dbus/dbushelper.hpp
@@ -8,6 +8,7 @@
 #include <xyz/openbmc_project/Sensor/Threshold/Critical/common.hpp>
 #include <xyz/openbmc_project/Sensor/Threshold/Warning/common.hpp>
 #include <xyz/openbmc_project/State/Decorator/Availability/common.hpp>
+#include <xyz/openbmc_project/State/Decorator/OperationalStatus/common.hpp>
 
 #include <string>
 #include <variant>
@@ -18,6 +19,8 @@ using SensorThresholdCritical =
     sdbusplus::common::xyz::openbmc_project::sensor::threshold::Critical;
 using StateDecoratorAvailability =
     sdbusplus::common::xyz::openbmc_project::state::decorator::Availability;
+using StateDecoratorOperationalStatus = sdbusplus::common::xyz::
+    openbmc_project::state::decorator::OperationalStatus;
 
 namespace pid_control
 {
diff --git a/dbus/dbushelper_interface.hpp b/dbus/dbushelper_interface.hpp
index 4a99f04..e890093 100644
--- a/dbus/dbushelper_interface.hpp
+++ b/dbus/dbushelper_interface.hpp
@@ -15,6 +15,7 @@ struct SensorProperties
     double max = 0.0;
     std::string unit;
     bool available = false;
+    bool functional = true;
     bool unavailableAsFailed = false;
 };
 
diff --git a/dbus/dbuspassive.cpp b/dbus/dbuspassive.cpp
index 730310f..8176807 100644
--- a/dbus/dbuspassive.cpp
+++ b/dbus/dbuspassive.cpp
@@ -352,6 +352,7 @@ void DbusPassive::initFromSettings(const SensorProperties& settings,
     _max = settings.max * std::pow(10.0, _scale);
     _unavailableAsFailed = settings.unavailableAsFailed;
     setAvailableFromProperty(settings.available);
+    setFunctional(settings.functional);
 
     // Force value to be stored, otherwise member would be uninitialized
     updateValue(settings.value, true);
-- 
2.43.0


From 7efddadbc02e0644a4541d5e021b703e370fe790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:26 +0000
Subject: [PATCH 31/32] fix: do not miss a host state change before monitoring
 starts

The state was read before its changes were listened for; a change in
between went unnoticed until the next one.
---
 hoststatemonitor.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hoststatemonitor.hpp b/hoststatemonitor.hpp
index 244f841..54ae749 100644
--- a/hoststatemonitor.hpp
+++ b/hoststatemonitor.hpp
@@ -82,6 +82,9 @@ inline void HostStateMonitor::startMonitoring()
             [this](sdbusplus::message_t& message) {
                 handleStateChange(message);
             });
+
+        // The state may have changed before its changes were monitored
+        getInitialState();
     }
 }
 
-- 
2.43.0


From 6ce94155ed3bee2ee28fbecc72ba9ea6c5e28fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:07 +0000
Subject: [PATCH 32/32] fix: setsensor: write the host sensor's value as a
 double

The Value property is a double, so that the bus refused the integer setsensor
sent and the sensor never got its value.
---
 setsensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/setsensor.cpp b/setsensor.cpp
index 884e52b..f21eda2 100644
--- a/setsensor.cpp
+++ b/setsensor.cpp
@@ -21,13 +21,13 @@ using ControlMode = sdbusplus::common::xyz::openbmc_project::control::Mode;
 static constexpr auto sobjectPath =
     "/xyz/openbmc_project/extsensors/margin/sluggish0";
 static constexpr auto sbusName = "xyz.openbmc_project.Hwmon.external";
-using sValue = std::variant<int64_t>;
+using sValue = std::variant<double>;
 
 static constexpr auto propertiesintf = "org.freedesktop.DBus.Properties";
 
 static void SetHostSensor(void)
 {
-    int64_t value = 300;
+    double value = 300;
     sValue v{value};
 
     std::string busname{sbusName};
-- 
2.43.0

