From f9c4312d2986789d0faedbde0d04af7009e02af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 1/5] fix: sysfs read of a missing or empty file returns 0, not
 an indeterminate value

---
 sysfs/sysfsread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sysfs/sysfsread.cpp b/sysfs/sysfsread.cpp
index a0e0779..8c7e1d1 100644
--- a/sysfs/sysfsread.cpp
+++ b/sysfs/sysfsread.cpp
@@ -15,7 +15,7 @@ namespace pid_control
 
 ReadReturn SysFsRead::read(void)
 {
-    int64_t value;
+    int64_t value = 0;
     std::ifstream ifs;
 
     ifs.open(_path);
-- 
2.43.0


From a4fbfdf44048e06263d4d403fd3081a8987f0dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 2/5] fix: an empty tuning setpoint file must not yield an
 indeterminate RPM

---
 pid/zone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pid/zone.cpp b/pid/zone.cpp
index bfcbe3b..a12f099 100644
--- a/pid/zone.cpp
+++ b/pid/zone.cpp
@@ -294,7 +294,7 @@ static bool fileParseRpm(const std::string& fileName, double& rpmValue)
         ifs.open(fileName);
         if (ifs)
         {
-            int value;
+            int value = 0;
             ifs >> value;
 
             if (value <= 0)
-- 
2.43.0


From 5475c54a86c0924f85bda4861827db1b7719dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 3/5] fix: address zones above 127 by their own control object
 path

---
 ipmi/dbus_mode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmi/dbus_mode.cpp b/ipmi/dbus_mode.cpp
index 52666c0..eed6651 100644
--- a/ipmi/dbus_mode.cpp
+++ b/ipmi/dbus_mode.cpp
@@ -28,7 +28,7 @@ using Value = std::variant<bool>;
 using PropertyMap = std::map<Property, Value>;
 
 /* The following was copied directly from my manual thread handler. */
-static std::string getControlPath(int8_t zone)
+static std::string getControlPath(uint8_t zone)
 {
     return std::string(objectPath) + std::to_string(zone);
 }
-- 
2.43.0


From 8f70d83eea754debb0be9f395e4ab6db13e4abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 4/5] fix: host sensors honour ignoreFailIfHostOff

---
 sensors/builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/builder.cpp b/sensors/builder.cpp
index 640c0ca..7316cd3 100644
--- a/sensors/builder.cpp
+++ b/sensors/builder.cpp
@@ -167,7 +167,7 @@ SensorManager buildSensors(
                  */
                 auto sensor = HostSensor::createTemp(
                     name, info->timeout, hostSensorBus, info->readPath.c_str(),
-                    deferSignals);
+                    deferSignals, info->ignoreFailIfHostOff);
                 mgmr.addSensor(info->type, name, std::move(sensor));
             }
             else
-- 
2.43.0


From dd32a5206af7edf4a86a99b8f4f8aa30411d1efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:48 +0000
Subject: [PATCH 5/5] fix: take the lock when checking a host sensor's value

HostSensor::getFailed() read _value without _lock while value() stores it
from another thread: a data race, and a torn double where 64-bit loads
are not atomic.
---
 sensors/host.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sensors/host.cpp b/sensors/host.cpp
index c32dc52..41b6548 100644
--- a/sensors/host.cpp
+++ b/sensors/host.cpp
@@ -75,9 +75,13 @@ void HostSensor::write([[maybe_unused]] double value)
 
 bool HostSensor::getFailed(void)
 {
-    if (std::isfinite(_value))
     {
-        return false;
+        std::lock_guard<std::mutex> guard(_lock);
+
+        if (std::isfinite(_value))
+        {
+            return false;
+        }
     }
 
     if (getIgnoreFailIfHostOff())
-- 
2.43.0

