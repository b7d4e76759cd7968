#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept in one readable place; run by hand when a property changes).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","PID step: exact P+I+D+FF law, output limits, slew limits, anti-windup",
 "Every PID step returns the sum of proportional, integral, derivative and feed-forward terms of error = setpoint - input, clamped to the configured output limits and then, from the second step on, to the non-zero slew limits around the previous output. The integral carried to the next step is always clamped to the integral limits: it is the accumulated (and clamped) integral when an integral gain is set (zero otherwise), or output minus the proportional term whenever a slew limit is configured on an already-initialised loop. After the step the remembered error and output are exactly this step's, the loop is marked initialised, and no configured coefficient changes; NaN compares false at every limit.",
 ["inputs","histories"],"all coefficient sets, limits (none with its maximum below its minimum), slew rates, stored states, inputs and setpoints (any double, including NaN and infinities)",
 "No unit test exercises the PID arithmetic at all; the law ranges over 15 real parameters and a state carried through every step.",
 ["pid/ec/pid.cpp","pid/ec/pid.hpp"],[("ec::pid","pid/ec/pid.cpp"),("clamp","pid/ec/pid.cpp")],
 [("pid_info_t","coefficients and carried state of one loop","pid/ec/pid.hpp")],["return value of ec::pid and pid_info_t after it"])
p("C02","PID hysteresis: which input the PID sees and when the output is held",
 "With no hysteresis configured a controller evaluates the PID on the current input at every process. With ordinary hysteresis it evaluates the PID at every process on a held input, which moves to the current input exactly when no finite input is held yet, or when the current input exceeds it by more than the positive, or is below it by more than the negative, hysteresis. With hysteresis-around-setpoint the PID is evaluated on the current input strictly above setpoint + positive hysteresis, the output and integral are zero strictly below setpoint - negative hysteresis, and the last output is repeated in between; every process reads setpoint and input, stores the output as last output and delivers it exactly once.",
 ["inputs","histories"],"all sequences of inputs and setpoints and all hysteresis settings",
 "Controller tests check a couple of sample inputs with mocks; the held-input rule depends on the whole history.",
 ["pid/pidcontroller.cpp","pid/pidcontroller.hpp"],[("PIDController::calPIDOutput","pid/pidcontroller.cpp"),("PIDController::process","pid/pidcontroller.cpp")],
 [("lastInput","held input","pid/pidcontroller.hpp")],["argument of ec::pid, outputProc"])
p("C03","Stepwise control: table lookup, hysteresis, worst input and routing",
 "A stepwise lookup returns the output of the last point reached scanning readings upward from the second entry until the table ends (20 points), an unset (NaN) reading, or a reading greater than the input; the first output is used if none is reached. A stepwise controller takes the maximum over its inputs' cached values, repeats its last output until the input has moved from the last looked-up input by more than the positive (up) or negative (down) hysteresis, and looks up at once the first time. Its result is delivered exactly once per process, as an RPM ceiling when configured as ceiling and otherwise as a setpoint request under its own name.",
 ["inputs","histories"],"all tables (any doubles), inputs, histories of inputs and controller configurations",
 "The stepwise tests are not part of the runnable suite and sample a handful of points.",
 ["pid/ec/stepwise.cpp","pid/stepwisecontroller.cpp"],[("ec::stepwise","pid/ec/stepwise.cpp"),("StepwiseController::process","pid/stepwisecontroller.cpp"),("StepwiseController::inputProc","pid/stepwisecontroller.cpp"),("StepwiseController::outputProc","pid/stepwisecontroller.cpp")],
 [("lastInput/lastOutput","hysteresis state","pid/stepwisecontroller.hpp")],["addRPMCeiling / addSetPoint calls"])
p("C04","Fan output: failsafe floor, one write per fan, recorded output",
 "On each fan output pass every fan of the controller is written exactly once, in order, with the same value: the computed percentage divided by 100 - or, while the zone is in failsafe and tuning is off, the larger of the computed percentage and the zone's failsafe percentage, divided by 100. The write carries the zone's redundant-write flag, and the zone's output cache for the written sensor's name then records that commanded value and the raw value the sensor reports as written (-1 if it reports none). Debug and transition logging never change what is written.",
 ["inputs","histories"],"all computed percentages, failsafe states and percentages, fan lists of any length, flag combinations and call histories",
 "The tests sample two percentages on one or two fans.",
 ["pid/fancontroller.cpp"],[("FanController::outputProc","pid/fancontroller.cpp")],[("failsafePrevState","last seen failsafe state","pid/fancontroller.hpp")],["Sensor::write, ZoneInterface::setOutputCache"])
p("C05","Failsafe tracking: which sensors hold the zone in failsafe, and recovery",
 "A zone is in failsafe exactly while at least one of its sensors is marked as failing; initialisation marks every fan and thermal input that is not declared missing-acceptable and sets every cached reading (and fan output) to NaN. Each time sensors are read, every listed input's cached value becomes its current reading, and the input becomes failing if its sensor reports failure or - when its timeout is non-zero - its reading is at least that many whole seconds old, and otherwise stops failing; sensors not listed keep their status. An input declared missing-acceptable is never marked as failing.",
 ["histories","inputs","fault_sequences"],"all sensor lists, readings, ages, timeouts, failure histories and missing-acceptable sets",
 "zone tests are not part of the runnable suite and follow one or two fixed scenarios; ages and failures range over arbitrary histories.",
 ["pid/zone.cpp","pid/zone.hpp"],[("DbusPidZone::processSensorInputs","pid/zone.hpp"),("DbusPidZone::markSensorMissing","pid/zone.cpp"),("DbusPidZone::initializeCache","pid/zone.cpp"),("DbusPidZone::getFailSafeMode","pid/zone.cpp")],
 [("_failSafeSensors","failing sensors","pid/zone.hpp")],["getFailSafeMode, getFailSafeSensors, getCachedValues"])
p("C06","Failsafe percentage: largest requirement among failing sensors",
 "The failsafe percentage of a zone with no failing sensor is the zone's configured one; otherwise it is the largest percentage recorded over the failing sensors, or the zone's configured one if that maximum is 0. When a sensor starts failing, the recorded percentage is the sensor's own failsafe percentage, or the zone's if the sensor has none (0), together with the failure reason. A sensor used by several controllers has as its own percentage the largest one any of them configured for it.",
 ["inputs","histories","configurations"],"all failing sets, per-sensor and zone percentages, and orders of registration",
 "Tests cover single sensors; the maximum ranges over arbitrary sets.",
 ["pid/zone.cpp"],[("DbusPidZone::getFailSafePercent","pid/zone.cpp"),("DbusPidZone::addPidFailSafePercent","pid/zone.cpp"),("DbusPidZone::markSensorMissing","pid/zone.cpp")],
 [("_sensorFailSafePercent","per-sensor percent","pid/zone.hpp")],["getFailSafePercent, getFailSafeSensors"])
p("C07","Zone setpoint arbitration: maximum request, lowest ceiling, minimum, tuning",
 "After clearing, the zone's requested setpoint starts at 0 and rises to the largest request added by any enabled thermal controller (requests of disabled controllers are ignored); with accumulation enabled, requests are first summed per profile, the controller name after its first underscore. When requests are resolved the setpoint is lowered to the lowest RPM ceiling if that is smaller, then raised to the zone's minimum if it does not exceed that, and finally - only in tuning mode - replaced by the number in the tuning setpoint file and then by that in the zone-specific one when such a file holds an integer above 100. Each name recorded as the leader corresponds to the rule that decided: the controller (profile) that raised the maximum, \"Ceiling\", or \"Minimum\".",
 ["inputs","histories","configurations"],"all sequences of requests and ceilings (ceilings being numbers, not NaN), names, enable flags and tuning file contents",
 "Tests add two or three sample setpoints; arbitration ranges over arbitrary sequences and names.",
 ["pid/zone.cpp"],[("DbusPidZone::addSetPoint","pid/zone.cpp"),("DbusPidZone::addRPMCeiling","pid/zone.cpp"),("DbusPidZone::clearSetPoints","pid/zone.cpp"),("DbusPidZone::determineMaxSetPointRequest","pid/zone.cpp"),("fileParseRpm","pid/zone.cpp")],
 [("_maximumSetPoint","requested setpoint","pid/zone.hpp"),("setPoints","per-profile request","pid/zone.hpp")],["getMaxSetPointRequest, leader()"])
p("C08","Fan feedback: slowest running fan drives the loop, setpoint is the zone's",
 "The input of a fan controller is the smallest unscaled cached reading among its fans that is finite and greater than zero, or 0 when there is none; a lookup error propagates instead of yielding a value. Its setpoint is the zone's current maximum setpoint request, remembered as the controller's setpoint, and the fan direction is UP, DOWN or NEUTRAL exactly as that request is greater than, less than, or neither compared with the previously remembered setpoint.",
 ["inputs","histories"],"all fan lists and readings (any doubles) and all setpoint histories",
 "The tests sample two fans and three readings.",
 ["pid/fancontroller.cpp"],[("FanController::inputProc","pid/fancontroller.cpp"),("FanController::setptProc","pid/fancontroller.cpp")],[],["return values, getFanDirection"])
p("C09","Thermal input: worst finite reading by class, safe no-op when none",
 "A margin controller's input is the smallest, a temp or power controller's the largest, and a powersum controller's the sum, of its inputs' finite cached scaled values; non-finite values never contribute. For margin controllers an input configured with TempToMargin contributes its configured zero minus its reading, and a non-finite configured zero is an error whenever that reading is finite. When no input is finite the input equals the controller's setpoint; the result is delivered to the zone exactly once as a setpoint request under the controller's name.",
 ["inputs","configurations"],"all input lists, readings (any doubles), conversion settings and classes",
 "Tests use up to three inputs with fixed values.",
 ["pid/thermalcontroller.cpp"],[("ThermalController::inputProc","pid/thermalcontroller.cpp"),("ThermalController::setptProc","pid/thermalcontroller.cpp"),("ThermalController::outputProc","pid/thermalcontroller.cpp"),("getThermalType","pid/thermalcontroller.cpp")],[],["return value of inputProc, addSetPoint"])
p("C10","Control loop cadence: order of work, thermal rate, manual mode, cancel",
 "When a zone's loop starts it initialises the cache and runs one thermal pass (update sensors, clear setpoints and ceilings, run thermal controllers, resolve the setpoint, in that order) before arming its timer, and each timer tick that is not cancelled re-arms the timer exactly one fan interval after its previous expiry. In automatic mode each tick updates fan telemetry, then runs a thermal pass if the accumulated milliseconds reached the thermal interval (which is then subtracted from it), then runs the fan controllers, then adds the fan interval to the accumulator; in manual mode the tick does none of these and keeps the accumulator. A cancelled timer stops the zone with no further work or re-arming; with the cancel flag raised the loop neither starts nor re-arms.",
 ["schedules","histories","configurations"],"all interval pairs, accumulator values, manual-mode toggles and cancellation points",
 "No test runs the control loop; cadence is a property of unbounded tick sequences.",
 ["pid/pidloop.cpp"],[("pidControlLoop","pid/pidloop.cpp"),("processThermals","pid/pidloop.cpp")],[("cycleCnt","accumulated milliseconds","pid/pidloop.cpp")],["calls on the zone and timer"])
p("C11","D-Bus sensor failure state: exact priority of failure causes",
 "A D-Bus sensor is failed if its path is in the redundancy failed set or its object is missing; otherwise a non-fan sensor that is unavailable and not configured unavailable-as-failed is not failed; otherwise it is failed exactly if its last reading was bad, its margin was used up, a threshold alarm is asserted, it is unavailable, or it is not functional. The reported reason names the first of missing object, bad reading, margin hot, threshold asserted, unavailable, not functional that applies, else \"Unknown\". Availability reported by a signal is never overwritten by an availability read from properties.",
 ["inputs","histories"],"all combinations of status flags, sensor types and redundancy sets",
 "Tests for the sensor are not part of the runnable suite; they sample single flags.",
 ["dbus/dbuspassive.cpp"],[("DbusPassive::getFailed","dbus/dbuspassive.cpp"),("DbusPassive::getFailReason","dbus/dbuspassive.cpp"),("DbusPassive::setAvailable","dbus/dbuspassive.cpp"),("DbusPassive::setAvailableFromProperty","dbus/dbuspassive.cpp")],[],["getFailed, getFailReason"])
p("C12","D-Bus sensor values: scaling, bad readings, margin-hot, signal handling",
 "A finite reading is multiplied by ten to the sensor's scale to give the unscaled value, and the scaled value is (unscaled - min)/(max - min) when max is positive and greater than min, else the unscaled value itself (limits being numbers); it clears the bad-reading mark, and for margin sensors sets margin-hot exactly when the unscaled value is at most 0. A non-finite reading marks the sensor bad and leaves value and time stamp untouched unless it is forced. A property-change signal updates only what its interface names: the sensor value; threshold failure as the OR of the critical low/high alarms present; availability (becoming unavailable also forces the value to NaN); or functional state; signals lacking those properties change nothing.",
 ["inputs","histories"],"all readings, scales, limits, types and signal contents and orders",
 "Sensor tests are not in the runnable suite; signal contents and histories are unbounded.",
 ["dbus/dbuspassive.cpp","dbus/dbusutil.cpp"],[("DbusPassive::updateValue","dbus/dbuspassive.cpp"),("DbusPassive::initFromSettings","dbus/dbuspassive.cpp"),("handleSensorValue","dbus/dbuspassive.cpp"),("scaleSensorReading","dbus/dbusutil.cpp")],[],["read, getFailed after signals"])
p("C13","Fan write conversion: percent to raw, redundant suppression, reported value",
 "A percent writer commands min + (max - min) * value truncated toward zero, and a plain writer the value truncated toward zero, to its configured target. A D-Bus writer sends exactly one Set of the fan's Target on each write, except that it sends nothing when the raw value equals the last one it commanded and the write is not forced; a bus error does not escape the call. Whenever the caller asks, a D-Bus writer reports the raw value now in effect; sysfs writers write the file on every call.",
 ["inputs","histories","fault_sequences"],"all values, ranges, force flags, bus outcomes and write histories",
 "dbuswrite tests are not in the runnable suite; sysfs writers have none.",
 ["dbus/dbuswrite.cpp","sysfs/sysfswrite.cpp"],[("DbusWritePercent::write","dbus/dbuswrite.cpp"),("DbusWrite::write","dbus/dbuswrite.cpp"),("SysFsWritePercent::write","sysfs/sysfswrite.cpp"),("SysFsWrite::write","sysfs/sysfswrite.cpp")],
 [("oldValue","last commanded raw value","dbus/dbuswrite.hpp")],["bus messages, file content, *written"])
p("C14","Leaving manual mode forces one full rewrite of the fans",
 "Setting the mode stores it; returning to automatic mode additionally raises the zone's redundant-write flag, so that the next fan pass forces every fan write even if the raw value is unchanged. A fan pass runs every fan controller of the zone exactly once in order, and a thermal pass every thermal controller; the flag is still raised while the fan controllers run and is clear after the pass. Entering manual mode never changes the flag.",
 ["histories","schedules"],"all sequences of mode changes and fan/thermal passes, any number of controllers",
 "Zone tests are not in the runnable suite and toggle the mode once.",
 ["pid/zone.cpp"],[("DbusPidZone::setManualMode","pid/zone.cpp"),("DbusPidZone::processFans","pid/zone.cpp"),("DbusPidZone::processThermals","pid/zone.cpp"),("DbusPidZone::manual","pid/zone.cpp")],[("_redundantWrite","force flag","pid/zone.hpp")],["getRedundantWrite, getManualMode"])
p("C15","JSON controller and zone configuration is carried over faithfully",
 "Every controller read from JSON has exactly the configured type, setpoint, inputs and, by type, PID coefficients and limits, or stepwise table and settings; optional keys (hysteresis, check-with-setpoint, derivative, failsafe percent) default to 0/false, unset stepwise points to NaN, and a missing mandatory key is an error. Each zone carries its own minimum output, failsafe percentage, accumulate flag (default false), and fan and thermal intervals, which keep the 100 ms and 1000 ms defaults when absent or zero. Every listed zone and controller appears, keyed by its id and name, the last one winning on duplicates.",
 ["configurations","inputs"],"all JSON documents of the documented shape with any subset of optional keys and any number of zones, controllers and inputs",
 "Tests load a few fixed documents.",
 ["pid/buildjson.cpp"],[("conf::from_json","pid/buildjson.cpp"),("buildPIDsFromJson","pid/buildjson.cpp"),("getCycleTimeSetting","pid/buildjson.cpp")],[],["returned configuration maps"])
p("C16","JSON sensor configuration: defaults, fan-only limits, validation",
 "Every sensor read from JSON carries its configured type, read path, write path and timeout, with defaults of an empty write path, a timeout of 0 for fans and 2 for everything else, min/max usable (ignore-min-max false), unavailable treated as failed, and host-off not ignored; min and max are taken only for fans and are 0 otherwise. A document is accepted exactly when it has a non-empty sensors list, a zones list, and a non-empty pids list in every zone; otherwise a configuration error is raised. All sensors appear under their names, the last one winning on duplicates.",
 ["configurations","inputs"],"all JSON documents with any subset of optional keys",
 "Tests load a few fixed documents.",
 ["sensors/buildjson.cpp","buildjson/buildjson.cpp","sensors/sensor.hpp"],[("conf::from_json","sensors/buildjson.cpp"),("buildSensorsFromJson","sensors/buildjson.cpp"),("validateJson","buildjson/buildjson.cpp"),("Sensor::getDefaultTimeout","sensors/sensor.hpp")],[],["returned configuration, ConfigurationException"])
p("C17","Zone numbers are unique, stable and lowest-free",
 "Asking for a zone's number returns the number already allocated to that name, leaving all allocations unchanged. For a new name the allocation granted is the smallest number at or above the requested one (0 when none is requested) that no other zone holds, and only that name is added. Hence no two names ever share a number.",
 ["histories","inputs"],"all allocation tables and request sequences",
 "Tests sample short sequences and are not in the runnable suite.",
 ["dbus/dbusutil.cpp"],[("setZoneIndex","dbus/dbusutil.cpp"),("getZoneIndex","dbus/dbusutil.cpp")],[],["returned index, zones map"])
p("C18","Input splicing and PID parameter copy lose and invent nothing",
 "Combining input names with conversion values and acceptable-missing names yields exactly one entry per input name, in order; an entry is marked for conversion with the value at its position exactly when such a value exists (otherwise unmarked, with NaN), and is marked missing-acceptable exactly when its name is listed. Splitting returns exactly the names in order. Initialising a PID loop from configuration copies every configured coefficient, limit and hysteresis setting unchanged and leaves the loop's carried state alone.",
 ["inputs","configurations"],"all name/value lists of any lengths, duplicates included, and all coefficient values",
 "The util tests sample lists of length up to three.",
 ["util.cpp","pid/util.cpp"],[("spliceInputs","util.cpp"),("splitNames","util.cpp"),("initializePIDStruct","pid/util.cpp")],[],["returned vectors, pid_info_t"])
p("C19","IPMI manual-mode command: length checks, dispatch, reply and zone address",
 "A request shorter than its sub-command's structure, or with an unknown sub-command, is answered with invalid-command without touching any zone or reply data. Get-control-state and get-failsafe-state read the Manual and FailSafe property of exactly the requested zone and, on success, reply with one byte holding that flag; set-control-state writes the requested zone's Manual property with the boolean of the value byte; any error code from the zone is passed through with reply data and length untouched. Every zone number from 0 to 255 addresses the control object of that same number; the one command registered (OEM number 49871, command 3) leads every request to the handler of the zones on the bus.",
 ["inputs"],"all request buffers and lengths, zone numbers, and control outcomes",
 "The IPMI tests are not in the runnable suite and sample single zones.",
 ["ipmi/manualcmds.cpp","ipmi/dbus_mode.cpp"],[("manualModeControl","ipmi/manualcmds.cpp"),("ZoneControlIpmiHandler","ipmi/manualcmds.cpp"),("getControlPath","ipmi/dbus_mode.cpp")],[],["completion code, reply, control calls"])
p("C20","D-Bus controller attributes are carried over faithfully",
 "A controller built from D-Bus attributes has exactly the attributes' class, setpoint (0 for fans, plus the sensor's threshold reading when one is named), coefficients, limits, slew rates and hysteresis, with absent optional attributes 0 or false and a failsafe percentage truncated to whole percent (0 if absent); any missing mandatory attribute is an error. A zone's interval attribute replaces the default only when present and at least 1, truncated to whole milliseconds.",
 ["configurations","inputs"],"all attribute maps and values",
 "Nothing tests this translation unit in the runnable suite.",
 ["dbus/dbusconfiguration.cpp"],[("populatePidInfo","dbus/dbusconfiguration.cpp"),("getPIDAttribute","dbus/dbusconfiguration.cpp"),("getCycleTimeSetting","dbus/dbusconfiguration.cpp")],[],["ControllerInfo, cycle time"])
p("C21","Failsafe log: rate limit and one report per cause and state",
 "Within any one-second window a zone's failsafe logger records at most its configured maximum number of entries, and while the failsafe state stays the same it records each location-and-reason at most once; a change of state makes every cause reportable again and is always tracked, even when the entry itself is suppressed. It prints an entry exactly when it is not suppressed and the zone is in failsafe now or has just left it. Logging for a sensor reaches exactly the loggers of the zones that use it.",
 ["histories","schedules"],"all sequences of events, times, causes and zone topologies",
 "Tests of the loggers are not in the runnable suite and drive short fixed sequences.",
 ["failsafeloggers/failsafe_logger.cpp","failsafeloggers/failsafe_logger_utility.hpp"],[("FailsafeLogger::outputFailsafeLog","failsafeloggers/failsafe_logger.cpp"),("outputFailsafeLogWithSensor","failsafeloggers/failsafe_logger_utility.hpp"),("outputFailsafeLogWithZone","failsafeloggers/failsafe_logger_utility.hpp")],[],["stderr lines, logger state"])
p("C22","Core PID logging: gate, clean file names, change-or-throttle policy",
 "No core-log file is created unless core logging is enabled and the loop's name contains a letter or digit; the file-name part is the name stripped to ASCII letters and digits, and two different names never share files. A context line is written exactly when it is the first since initialisation, when at least 60 seconds passed since the last written line, or when any logged quantity differs from the last written one. Each step of a named loop that has a log offers it every quantity the step was computed from and through, and the coefficients are logged when the loop starts.",
 ["inputs","histories"],"all names, call orders, time stamps and contexts",
 "No test touches the core log.",
 ["pid/ec/logging.cpp"],[("LogInit","pid/ec/logging.cpp"),("LogContext","pid/ec/logging.cpp"),("StrClean","pid/ec/logging.cpp")],[("nameToLog","open logs","pid/ec/logging.cpp")],["files in the logging folder"])
p("C23","Sensor failure and host power: only an ignorable failure with host off is hidden",
 "A pluggable sensor reports failure exactly when its reader does, except that a sensor configured to ignore failures while the host is off reports none when the host is not running; a host-written sensor does the same with 'its stored value is not finite' as the failure. Reads, writes and failure reasons pass through a pluggable sensor unchanged. The host counts as on exactly when the last host state learned (initially, or by signal) ends in \".Running\", and an unreadable initial state counts as off.",
 ["inputs","histories","fault_sequences"],"all reader states, values, ignore flags and host-state histories",
 "The runnable suite contains no test of these classes.",
 ["sensors/pluggable.cpp","sensors/host.cpp","hoststatemonitor.hpp"],[("PluggableSensor::getFailed","sensors/pluggable.cpp"),("HostSensor::getFailed","sensors/host.cpp"),("HostSensor::value","sensors/host.cpp"),("HostStateMonitor","hoststatemonitor.hpp")],[],["getFailed, isPowerOn"])
p("C24","Zones and controllers built match the configuration",
 "For every configured zone a zone object is built with exactly that zone's settings (a zone without settings is an error); each fan controller becomes a fan PID, each temp, margin, power or powersum controller a thermal PID and each stepwise controller a stepwise controller of that zone, with its own name and parameters and all its inputs in order. Every input is registered with the zone as fan or thermal input with its own missing-acceptable flag and with the controller's failsafe percentage. A thermal or stepwise controller without inputs is an error.",
 ["configurations"],"all configuration maps",
 "No test builds zones in the runnable suite.",
 ["pid/builder.cpp","pid/fancontroller.cpp","pid/thermalcontroller.cpp","pid/stepwisecontroller.cpp","pid/zone.cpp"],[("buildZones","pid/builder.cpp"),("createFanPid","pid/fancontroller.cpp"),("createThermalPid","pid/thermalcontroller.cpp"),("createStepwiseController","pid/stepwisecontroller.cpp"),("addFanInput/addThermalInput","pid/zone.cpp")],[],["zone contents"])
p("C25","Redundancy: failed set follows the reported redundancy status",
 "On a redundancy status change whose collection can be read, all members of that collection are in the failed set afterwards if the status contains \"Failed\", and none of them are otherwise; no other member's status changes. A signal without a status, or whose collection cannot be read, changes nothing. At start-up the set contains exactly the members of the collections whose status contains \"Failed\", as far as they could be read (reading stops at the first object that cannot be read).",
 ["histories","fault_sequences","inputs"],"all status signals, collections, orders and bus failures",
 "No test covers the redundancy listener.",
 ["dbus/dbuspassiveredundancy.cpp"],[("DbusPassiveRedundancy match handler","dbus/dbuspassiveredundancy.cpp"),("populateFailures","dbus/dbuspassiveredundancy.cpp")],[("failed","failed members","dbus/dbuspassiveredundancy.hpp")],["getFailed"])
p("C26","D-Bus property reads: faithful sensor properties and threshold state",
 "Sensor properties read from D-Bus carry exactly the reported value, unit, scale, min and max (scale, min and max 0 when absent) and the reported availability (available when the property cannot be read); a failing value read is an error. A sensor counts as threshold-asserted exactly when the critical-low or critical-high alarm is reported set, and not when the threshold interface cannot be read. Looking up a service returns the mapper's first owner, and an empty answer or a bus error is an error.",
 ["inputs","fault_sequences"],"all property maps and bus failures",
 "Helper is mocked in every test.",
 ["dbus/dbushelper.cpp","dbus/dbushelper.hpp"],[("DbusHelper::getProperties","dbus/dbushelper.cpp"),("DbusHelper::thresholdsAsserted","dbus/dbushelper.cpp"),("DbusHelper::getService","dbus/dbushelper.cpp")],[],["SensorProperties, return values"])
p("C27","Sensors built: path kinds and types map to the right reader and writer",
 "A read path is external, D-Bus, sysfs, none or unknown by the first of: empty or \"None\"; contains the external-sensors prefix; contains the OpenBMC prefix; contains \"/sys/\"; else unknown - and a write path likewise by: empty or \"None\", \"/sys/\", the OpenBMC prefix. Every configured sensor of a known type is built under its name with its configured timeout and host-off setting, reading through that kind's reader, and only fans get a real writer: the percent form exactly when max is positive, with the configured min and max. A D-Bus reader or writer that cannot be created is an error.",
 ["configurations"],"all sensor configurations and path strings",
 "No runnable test builds sensors; path classification is untested.",
 ["sensors/build_utils.cpp","sensors/builder.cpp","sensors/manager.cpp"],[("getReadInterfaceType","sensors/build_utils.cpp"),("getWriteInterfaceType","sensors/build_utils.cpp"),("buildSensors","sensors/builder.cpp")],[],["sensor objects created"])
p("C28","Sysfs reads report the file's number, never garbage",
 "Reading a sysfs sensor returns the integer the file currently holds as both scaled and unscaled value with a fresh time stamp; a file that is missing, empty or not numeric reads as 0 rather than as an arbitrary number.",
 ["inputs","fault_sequences"],"all file contents and open failures",
 "Not tested; only fault injection reaches the unreadable file.",
 ["sysfs/sysfsread.cpp"],[("SysFsRead::read","sysfs/sysfsread.cpp")],[],["ReadReturn"])
p("C29","Stop, reload and termination never leave a stale or partial control loop",
 "A reload or termination first cancels every zone timer, and it destroys and rebuilds zones only after no tick still uses one, retrying later otherwise. A failed rebuild is retried until it succeeds and termination ends the daemon only after all loops stopped.",
 ["schedules","fault_sequences"],"all interleavings of signals, ticks and build failures",
 "Needs interleavings of asynchronous handlers.",
 ["main.cpp"],[("stopControlLoops","main.cpp"),("restartControlLoops","main.cpp"),("tryRestartControlLoops","main.cpp")],[],["zone lifetime"])
p("C30","D-Bus discovery: selected profiles and complete controllers only",
 "With profiles selected, exactly the controllers that list no profile or at least one selected profile are built from D-Bus; each is attached to every zone it names, and inputs are resolved to the sensors whose paths end in their names.",
 ["configurations","inputs"],"all managed-object trees and profile sets",
 "No test runs discovery.",
 ["dbus/dbusconfiguration.cpp"],[("init","dbus/dbusconfiguration.cpp"),("getSelectedProfiles","dbus/dbusconfiguration.cpp")],[],["sensor and zone configuration maps"])
p("C31","Cross-thread sensor values are never torn",
 "A sensor's value, unscaled value and time stamp are always read as one consistent update even when signals and control ticks run concurrently.",
 ["schedules"],"all interleavings of updates and reads",
 "Needs interleavings.",
 ["dbus/dbuspassive.cpp","sensors/host.cpp"],[("_lock","dbus/dbuspassive.hpp")],[],["read()"])
p("C32","Zone telemetry log: one complete row per automatic tick",
 "With logging enabled, the file zone_<id>.log in the logging folder starts with one header, and every automatic tick of that zone appends exactly one row with the header's columns: time in milliseconds, set point, what decided it, for each fan its just-read scaled and raw value and its last commanded scaled and raw output, for each thermal input its current cached scaled and raw value, and whether the zone is in failsafe at the end of that tick. Nothing is written while in manual mode, and nothing at all when logging is off.",
 ["histories","inputs"],"all histories of ticks, mode changes and readings",
 "No test reads the log; the row is put together by two functions in two files over one tick.",
 ["pid/zone.cpp","pid/zone.hpp","pid/pidloop.cpp"],[("DbusPidZone::initializeLog","pid/zone.cpp"),("DbusPidZone::updateFanTelemetry","pid/zone.cpp"),("pidControlLoop","pid/pidloop.cpp")],[("_log","log stream","pid/zone.hpp")],["zone_<id>.log"])
p("C33","D-Bus configuration changes: every relevant signal leads to one debounced reload",
 "When the configuration comes from D-Bus, the daemon listens, once, for property changes of the thermal mode, PID, PID zone and stepwise configuration interfaces and for interfaces added or removed under the sensors tree. Each such signal (re)starts a two-second wait after which the control loops are reloaded, so that a burst of signals causes exactly one reload two seconds after its last, and a wait that is cancelled causes none. An interfaces-added signal that carries only association interfaces is ignored.",
 ["histories","schedules"],"all signals and bursts of signals",
 "No test covers the D-Bus configuration; it needs signals and timers.",
 ["dbus/dbusconfiguration.cpp"],[("eventHandler","dbus/dbusconfiguration.cpp"),("createMatches","dbus/dbusconfiguration.cpp")],[],["tryRestartControlLoops"])
p("C34","Start-up: options, debug files, bus names and the source of the configuration",
 "The configuration is read from the file given with -c, else from the first config.json in the working directory, /var/lib/swampd and /usr/share/swampd, and from D-Bus only when there is none; a file that cannot be used or a command line that cannot be understood ends the daemon before any control loop runs. Telemetry logging, tuning, debugging and core logging are on exactly when asked for on the command line or by their file in /etc/thermal.d (logging, tuning, debugging, corelogging), and a logging file makes the log folder the existing path it names, else the one from the command line, else the temporary folder. Before its control loops run the daemon owns the bus names xyz.openbmc_project.Hwmon.external and xyz.openbmc_project.State.FanCtrl and listens for termination and reload signals.",
 ["configurations","environment"],"all command lines and combinations of files",
 "No test runs main.",
 ["main.cpp"],[("main","main.cpp"),("searchConfigurationPath","main.cpp"),("restartControlLoops","main.cpp")],[],["loggingEnabled, loggingPath, tuningEnabled, debugEnabled, coreLoggingEnabled, bus names"])
p("C35","What a zone shows on D-Bus is what its loop holds",
 "A zone's D-Bus properties Manual, FailSafe and Leader always equal the mode it runs in, whether any of its sensors is failing, and what decided its current set point. Every thermal controller has one control-process object at the path it was added with, which starts enabled with the configured set point and its class (Temperature, Margin, Power or PowerSum; none for other types), and the controller counts as enabled exactly while its own object's Enabled is set. That object's Output is the last output of this controller, and its Leader and Input are the input that last changed the controller's combined reading and that reading; no other controller's object changes.",
 ["histories","inputs"],"all histories of additions, D-Bus writes and control ticks",
 "The tests mock the D-Bus interfaces and never read the properties back.",
 ["pid/zone.cpp","pid/thermalcontroller.cpp"],[("DbusPidZone::addPidControlProcess","pid/zone.cpp"),("DbusPidZone::updateThermalPowerDebugInterface","pid/zone.cpp"),("ThermalController::inputProc","pid/thermalcontroller.cpp")],[("_pidsControlProcess","control processes","pid/zone.hpp")],["D-Bus properties"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    n=len(re.findall(r'[.!?](?:\s|$)',re.sub(r'"[^"]*"','q',x["statement"])))
    if n>3: print("sentences",x["id"],n)
print(len(P))
