#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: `tools/spec.py` rewrites both."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "PID law: P+I+D+feed-forward, clamped, slew-limited, with anti-windup",
     "For every coefficient set and every history of inputs and set points, a PID's output is the sum of its proportional, "
     "integral, derivative and feed-forward terms, clamped to the output limits, and then moved no further from the previous "
     "output than the configured slew rates allow (slew limits start with the second step; a rate of zero means no limit). "
     "The accumulated integral never leaves its limits, is recomputed from the emitted output when slew limiting is configured, "
     "and a PID without an integral coefficient contributes no integral term.",
     ["inputs", "histories", "configurations"],
     "all coefficient sets (limits, slews, gains of either sign, sample times) and all sequences of (input, set point), fresh or continued",
     "test/pid_*_unittest never step the PID law with non-trivial coefficients over more than one or two samples; integral, "
     "derivative and slew state only show over histories.",
     ["pid/ec/pid.cpp", "pid/ec/pid.hpp", "pid/util.cpp"],
     [("pid step", "pid/ec/pid.cpp:pid()"), ("coefficient copy", "pid/util.cpp:initializePIDStruct")],
     [("integral", "accumulated I term", "pid/ec/pid.hpp"), ("lastOutput/lastError", "slew and derivative base", "pid/ec/pid.hpp")],
     ["output recorded by the zone / written to the fan"])
prop("C02", "PID hysteresis: both schemes hold, release and reset as configured",
     "With hysteresis around the last used input, a PID keeps computing from the last used input until the new input differs from it "
     "by more than the positive (rising) or negative (falling) hysteresis, then adopts the new input. With hysteresis checked against "
     "the set point, the PID runs normally above set point plus positive hysteresis, outputs zero and forgets its integral below set "
     "point minus negative hysteresis, and repeats its last output in between.",
     ["inputs", "histories", "configurations"],
     "all hysteresis widths (including zero and one-sided), coefficient sets and input histories that cross, touch and re-cross the band edges",
     "Unit tests cover at most one crossing of one scheme; what was held depends on the whole history.",
     ["pid/pidcontroller.cpp"],
     [("hysteresis", "pid/pidcontroller.cpp:calPIDOutput")],
     [("lastInput", "input last adopted", "pid/pidcontroller.cpp")],
     ["set point passed to the zone, fan command"])
prop("C03", "Stepwise controllers map input to output by steps with hysteresis",
     "A stepwise controller outputs the output of the highest step whose reading is at or below the (largest) input, and the first "
     "step's output when the input is below every step; with hysteresis the output only changes once the input rises by more than the "
     "positive or falls by more than the negative hysteresis from the input last used. The output is delivered to the zone as a set point, "
     "or as a ceiling when so configured.",
     ["inputs", "histories", "configurations"],
     "all step tables of 1 to 20 steps, hysteresis widths, single and multiple inputs, input histories including exact step boundaries",
     "No existing test exercises the stepwise controller with a sequence of inputs; boundary and hysteresis behaviour depends on order.",
     ["pid/ec/stepwise.cpp", "pid/stepwisecontroller.cpp"],
     [("step lookup", "pid/ec/stepwise.cpp:stepwise"), ("hysteresis and delivery", "pid/stepwisecontroller.cpp:process")],
     [("lastInput/lastOutput", "held pair", "pid/stepwisecontroller.hpp")],
     ["set points and ceilings received by the zone"])
prop("C04", "Thermal controllers react to the worst input and request its set point",
     "A temperature controller acts on the largest of its finite inputs, a margin controller on the smallest and a power-sum controller on "
     "their sum, each input taken after its margin-to-temperature conversion when configured; inputs that are not numbers are left out. "
     "When no input is usable the controller falls back to a defined safe value (zero), and the output of the control law is delivered to "
     "the zone as a requested set point exactly once per pass under the controller's name.",
     ["inputs", "histories", "configurations"],
     "all controller types, input counts, conversion-to-margin tables and histories of readings including not-a-number and extreme values",
     "Unit tests use one or two fixed inputs per type; which input wins depends on the whole vector of values.",
     ["pid/thermalcontroller.cpp"],
     [("aggregation", "pid/thermalcontroller.cpp:inputProc"), ("delivery", "pid/thermalcontroller.cpp:outputProc")],
     None, ["set points received by the zone"])
prop("C05", "Fan controllers act on the slowest fan that reports",
     "The process value of a fan controller is the lowest reading among its fans that is a positive number; readings of zero or less or "
     "not-a-number are left out, and with no usable reading the process value is zero. The set point of a fan controller is the zone's "
     "current request.",
     ["inputs", "histories", "configurations"],
     "all fan counts, readings (zero, negative, not-a-number, huge) and coefficient sets, over histories",
     "Tests enumerate a couple of readings; the aggregate depends on every combination.",
     ["pid/fancontroller.cpp"],
     [("aggregation", "pid/fancontroller.cpp:inputProc"), ("set point", "pid/fancontroller.cpp:setptProc")],
     None, ["command sent to the fans"])
prop("C06", "A zone's set point is the largest enabled request within ceiling and minimum",
     "Each time thermals are processed, the zone's set point is the largest set point requested by its enabled controllers (or, when the zone "
     "accumulates, the largest sum over controllers sharing a profile name), lowered to the lowest ceiling and then raised to the "
     "zone's minimum. A controller disabled over D-Bus contributes no set point from the next pass until it is enabled again, and requests "
     "from earlier passes never linger.",
     ["inputs", "histories", "configurations", "schedules"],
     "all sets of controllers, inputs over time, enable/disable histories, ceilings and minimums, with and without accumulation",
     "The zone unit test in the tree is not part of the build and stubs the bus; requests, ceilings and enables interact over passes.",
     ["pid/zone.cpp"],
     [("requests", "pid/zone.cpp:addSetPoint"), ("ceiling and minimum", "pid/zone.cpp:determineMaxSetPointRequest"),
      ("reset each pass", "pid/pidloop.cpp:processThermals")],
     [("requests of this pass", "setpoint per profile", "pid/zone.hpp")],
     ["fan command of a feed-forward fan PID"])
prop("C07", "A zone is in failsafe exactly while a required sensor is missing or failed",
     "A zone starts in failsafe until each of its sensors has been read successfully; afterwards it is in failsafe exactly while some fan or "
     "thermal sensor is failed or has not been updated within its timeout (a timeout of zero never expires), except sensors declared as "
     "acceptable when missing. It leaves failsafe on the first pass in which every such sensor is healthy again, whatever the order of "
     "failures and recoveries, and the level it uses is the highest configured for the currently failed sensors (the zone's own when none is configured).",
     ["fault_sequences", "histories", "schedules", "configurations"],
     "all interleavings of sensor failure, recovery, staleness and silence, over all zone layouts and failsafe levels",
     "Tests mark one sensor at a time on mocks; entry, exit and level depend on overlapping failures over time.",
     ["pid/zone.hpp", "pid/zone.cpp"],
     [("per-pass sensor check", "pid/zone.hpp:processSensorInputs"), ("level", "pid/zone.cpp:getFailSafePercent"),
      ("start in failsafe", "pid/zone.cpp:initializeCache")],
     [("failed sensor set", "why and how high", "pid/zone.hpp")],
     ["failsafe D-Bus property, fan command"])
prop("C08", "In failsafe every fan is driven at least at the failsafe level",
     "While the zone is in failsafe each fan of a fan controller is commanded to the failsafe level or, without the strict option, to the "
     "normal command when that is higher; with the strict option exactly to the failsafe level, which is the highest one configured for any of the "
     "sensors that have failed. Outside failsafe the normal command is sent unchanged, every fan of the controller gets exactly one command per pass, and with the offline option the fans are left at the "
     "failsafe level when their controller goes away.",
     ["histories", "inputs", "configurations"],
     "all sequences of failsafe entry and exit, levels, commands, both build-time failsafe policies, one to five fans, several sensors failed at once",
     "Tests try one level above and one below in one build configuration only.",
     ["pid/fancontroller.cpp", "pid/zone.cpp"],
     [("failsafe override", "pid/fancontroller.cpp:outputProc"), ("failsafe level", "pid/zone.cpp:getFailSafePercent"), ("offline level", "pid/fancontroller.cpp:~FanController")],
     None, ["values written to each fan"])
prop("C09", "Manual mode stops the loop's commands and returning to automatic restores them",
     "While a zone is in manual mode the control loop sends no fan command and takes no reading; commands from outside reach the "
     "fans undisturbed. After the zone returns to automatic mode, the next pass sends every fan its command even when that equals the "
     "last one sent, and control continues on the original schedule.",
     ["schedules", "histories"],
     "all timings of manual mode changes (repeated, mid-cycle, concurrent zones) relative to the loop",
     "Tests only check the flag on the zone object; nothing runs a loop through a mode change.",
     ["pid/pidloop.cpp", "pid/zone.cpp"],
     [("loop gate", "pid/pidloop.cpp:pidControlLoop"), ("forced rewrite", "pid/zone.cpp:setManualMode")],
     [("manual flag / forced-write flag", "", "pid/zone.hpp")],
     ["fan writes on the bus"])
prop("C10", "Each zone runs its fan and thermal passes on schedule",
     "A zone runs one fan pass per fan cycle interval on a schedule that does not drift with processing time, and one thermal pass before "
     "the fan pass each time the accumulated interval reaches the thermal interval (the first right at start). Within a pass readings are refreshed and "
     "old requests cleared before controllers run, and the set point is decided before fans are commanded.",
     ["schedules", "configurations"],
     "all pairs of fan and thermal intervals (including thermal shorter than fan), processing delays and zone counts",
     "Existing tests run no loop; a drift or ratio error only shows over many passes.",
     ["pid/pidloop.cpp"],
     [("loop", "pid/pidloop.cpp:pidControlLoop"), ("thermal pass", "pid/pidloop.cpp:processThermals")],
     [("cycle counter", "ms since last thermal pass", "pid/pidloop.cpp")],
     ["times of reads and writes"])
prop("C11", "Fan percentages become the right raw value and always reach the fan",
     "A percentage written to a fan is delivered as minimum plus percentage of the range for fans with a configured range (the raw value otherwise), truncated to "
     "an integer, and for D-Bus fans the value delivered is reported back to the caller. A D-Bus fan is sent every new value and every forced value; "
     "only a repeat of the last successfully sent value may be skipped, so after a failed send the next write is sent, whatever its value.",
     ["inputs", "histories", "fault_sequences", "configurations"],
     "all ranges, percentages, write sequences with and without force and with send failures at any point; sysfs and D-Bus fans",
     "Tests write one or two values with a mock bus that cannot fail.",
     ["dbus/dbuswrite.cpp", "sysfs/sysfswrite.cpp", "sensors/pluggable.cpp"],
     [("D-Bus percent and raw writers", "dbus/dbuswrite.cpp"), ("sysfs writers", "sysfs/sysfswrite.cpp")],
     [("last value sent", "redundancy filter", "dbus/dbuswrite.hpp")],
     ["Set calls on the bus, bytes in the pwm file"])
prop("C12", "A D-Bus sensor is failed exactly while its recorded state says so",
     "A monitored sensor counts as failed exactly while its last value is not finite, its object is missing, it is not functional, it is unavailable (for non-fan "
     "sensors only when unavailability is configured to mean failure), a critical threshold alarm stands (warning-high too under the strict "
     "alarm build), a margin has dropped to zero or below, or it belongs to a fan redundancy group that has failed. "
     "Whatever order signals arrive in, the state is that of the last signal per property, signals about other sensors change nothing, and "
     "the reason given for a failure is one that holds.",
     ["histories", "fault_sequences", "configurations"],
     "all sequences of value, availability, functional, threshold and redundancy signals, missing properties at start, both build configurations",
     "Tests deliver single signals to a mock helper; combinations and their order are not covered, and the strict build is not built at all.",
     ["dbus/dbuspassive.cpp", "dbus/dbushelper.cpp", "dbus/dbuspassiveredundancy.cpp"],
     [("verdict", "dbus/dbuspassive.cpp:getFailed"), ("signal decoding", "dbus/dbuspassive.cpp:handleSensorValue"),
      ("start-up state", "dbus/dbushelper.cpp")],
     [("failed/functional/available flags", "", "dbus/dbuspassive.hpp")],
     ["getFailed of the sensor, failsafe property"])
prop("C13", "A D-Bus sensor's reading is its last finite value, correctly scaled",
     "The reading of a monitored sensor is the last finite value published for that very sensor, scaled by the power of ten it declared at start and, when its range is "
     "positive, finite and in use, to its position within its minimum and maximum, together with the unscaled value and the time of publication. "
     "Non-finite values and signals from other sensors change neither the reading nor its time; becoming unavailable clears the reading.",
     ["inputs", "histories", "configurations"],
     "all value types, scales, ranges and signal sequences, including siblings whose path extends this one's",
     "Tests check one value per type with mocks.",
     ["dbus/dbuspassive.cpp", "dbus/dbusutil.cpp", "dbus/dbushelper.cpp"],
     [("decode and scale", "dbus/dbuspassive.cpp:handleSensorValue"), ("scale", "dbus/dbusutil.cpp:scaleSensorReading"),
      ("initial state", "dbus/dbuspassive.cpp:DbusPassive, dbus/dbushelper.cpp:getProperties")],
     None, ["read() of the sensor, thermal set point"])
prop("C14", "Host-provided sensors take written values and time out",
     "Each external sensor is published on D-Bus, and a value written to it becomes its reading from the next pass on. If none is written for its "
     "timeout the zone enters failsafe, and the next write ends that; with a timeout of zero it never does.",
     ["histories", "schedules"],
     "all timings of writes relative to the timeout and the loop, several sensors and zones",
     "The host sensor test is not built, and covers a single write.",
     ["sensors/host.cpp", "pid/zone.hpp"],
     [("property write", "sensors/host.cpp:value"), ("timeout", "pid/zone.hpp:processSensorInputs")],
     None, ["failsafe property, fan command"])
prop("C15", "Host power state only excuses the sensors configured for it",
     "While the host is not running, the failures of sensors configured to be ignored in that state do not cause failsafe; the same "
     "failures do as soon as the host runs again. Sensors not so configured cause failsafe regardless of host state.",
     ["histories", "fault_sequences", "configurations"],
     "all interleavings of host power transitions with sensor failures, with and without the option per sensor",
     "The gate is not tested at all.",
     ["sensors/pluggable.cpp", "hoststatemonitor.hpp", "sensors/builder.cpp"],
     [("gate", "sensors/pluggable.cpp:getFailed"), ("host state", "hoststatemonitor.hpp")],
     None, ["failsafe property"])
prop("C16", "A JSON configuration means exactly what it says",
     "Every sensor, zone and controller in a well-formed JSON configuration is built with exactly the values given, defaults for what is left out, in whatever "
     "order keys appear, and nothing not configured is built.",
     ["configurations"],
     "all well-formed configurations: any number of sensors, zones, controllers of each kind, each optional key present or absent",
     "Tests parse a handful of fixed documents and compare few fields.",
     ["sensors/buildjson.cpp", "pid/buildjson.cpp", "buildjson/buildjson.cpp"],
     [("sensor parsing", "sensors/buildjson.cpp"), ("zone parsing", "pid/buildjson.cpp")],
     None, ["parsed structures"])
prop("C17", "A malformed configuration is rejected, never a crash",
     "Any JSON document that is not a valid configuration is reported as an error that callers can catch; no document aborts "
     "or corrupts the process, and a document accepted yields only zones and sensors it contains.",
     ["inputs", "configurations"],
     "all JSON documents: wrong types, missing and extra keys, truncations, extreme numbers, mutations of valid ones",
     "Tests try three or four malformed documents.",
     ["buildjson/buildjson.cpp", "sensors/buildjson.cpp", "pid/buildjson.cpp"],
     [("file validation", "buildjson/buildjson.cpp"), ("conversions", "sensors/buildjson.cpp, pid/buildjson.cpp")],
     None, ["exceptions, process status"])
prop("C18", "A D-Bus configuration yields the zones, sensors and controllers it describes",
     "From configuration objects on D-Bus the daemon builds exactly the zones, fans, thermal and stepwise controllers of the selected "
     "thermal modes, each with the values published and the documented defaults, matching sensors by name pattern, and rejects or skips objects "
     "that reference what does not exist.",
     ["configurations", "inputs"],
     "all sets of zone, PID, stepwise and fan-mode objects with optional properties present or absent and patterns matching several sensors",
     "Tests of this module cover only helper functions.",
     ["dbus/dbusconfiguration.cpp", "dbus/dbusutil.cpp"],
     [("discovery", "dbus/dbusconfiguration.cpp:init"), ("profiles", "dbus/dbusconfiguration.cpp")],
     None, ["control behaviour of the daemon, built configuration"])
prop("C19", "Zone numbers from D-Bus configuration are unique and stable",
     "Every zone name receives exactly one number; an explicit number is honoured and any other name receives one not in use, so that two zones never share a number. "
     "Names in configuration objects select exactly the sensors whose name matches them as a pattern, spaces standing for underscores.",
     ["inputs", "histories"],
     "all sequences of zone names with and without explicit numbers",
     "Tests try a few fixed sequences.",
     ["dbus/dbusutil.cpp"],
     [("assignment", "dbus/dbusutil.cpp:getZoneIndex/setZoneIndex")],
     None, ["returned numbers"])
prop("C20", "Options and files at start select the configuration, the modes and where logs go",
     "The configuration given with -c is used, otherwise the first config.json of the working directory, /var/lib/swampd and /usr/share/swampd, at start and at every reload. "
     "Tuning, debug and core logging are on exactly when their option is given or their file is in /etc/thermal.d; zone logs are written exactly when -l is given or the logging file exists. "
     "Logs go to the existing directory the logging file names in its first line, otherwise to that of -l, otherwise to the system temporary directory; core logs go on across a reload. "
     "A wrong command line ends the process with an error before any fan is set.",
     ["inputs", "configurations"],
     "all combinations of options (short, long, in any order), of files in /etc/thermal.d with any content, and of configurations in the places searched, at start and after a reload",
     "Nothing tests main.cpp.",
     ["main.cpp", "pid/zone.hpp", "pid/ec/logging.cpp"],
     [("options and files", "main.cpp:main"), ("search", "main.cpp:searchConfigurationPath"), ("log files", "pid/zone.hpp:DbusPidZone, pid/ec/logging.cpp:LogInit")],
     None, ["exit status, fan writes, files written"])
prop("C21", "The IPMI command answers exactly the zone asked, or an error",
     "Get and set manual mode and get failsafe mode requests act on and report the state of exactly the zone addressed; malformed requests (unknown command, wrong "
     "length) return an error, have no effect, and no request reads or writes outside its buffers.",
     ["inputs", "histories"],
     "all request byte strings of all lengths, all zone numbers, bus failures",
     "The IPMI tests in the tree are not built and use mocks with three requests.",
     ["ipmi/manualcmds.cpp", "ipmi/dbus_mode.cpp", "ipmi/main_ipmi.cpp"],
     [("dispatch", "ipmi/manualcmds.cpp"), ("bus access", "ipmi/dbus_mode.cpp")],
     None, ["response code and bytes, bus calls"])
prop("C22", "The zone log records what was used and commanded in each pass",
     "With logging on, each zone writes one log with a header naming its columns and one row per pass with exactly as many fields: time, set point, the values of every fan "
     "and thermal sensor, the commands sent and whether the zone was in failsafe.",
     ["histories", "schedules", "configurations"],
     "all zone layouts and histories of readings, failures and manual mode",
     "No test looks at the log.",
     ["pid/zone.cpp", "pid/zone.hpp", "pid/pidloop.cpp"],
     [("header", "pid/zone.cpp:initializeLog"), ("row", "pid/zone.cpp:updateFanTelemetry, pid/zone.hpp, pid/pidloop.cpp")],
     None, ["zone_N.log"])
prop("C23", "Core logs record every change of the PID computation",
     "With core logging on each controller has its own log whose rows hold the values of the computation just made; a row is written whenever they changed since the last "
     "row and at least once a minute, and logging never changes the computation.",
     ["histories", "inputs"],
     "all histories of inputs and times, controller names including ones that collide after cleaning",
     "Tests do not cover logging.",
     ["pid/ec/logging.cpp", "pid/ec/pid.cpp"],
     [("change detection", "pid/ec/logging.cpp:LogContext"), ("file naming", "pid/ec/logging.cpp:LogInit")],
     None, ["pidcore.* and pidcoeffs.* files"])
prop("C24", "Failsafe messages are limited in rate and not repeated within a state",
     "For each zone at most the configured number of failsafe messages per second passes, one beyond the limit being dropped, and a message that repeats the zone's "
     "same state, sensor and reason is printed once until the state changes; zones do not affect each other.",
     ["histories", "schedules"],
     "all sequences of messages per zone with arbitrary times, states, locations and limits",
     "Tests cover one sequence with real time.",
     ["failsafeloggers/failsafe_logger.cpp", "failsafeloggers/failsafe_logger_utility.hpp"],
     [("limiter", "failsafeloggers/failsafe_logger.cpp:outputFailsafeLog")],
     None, ["text printed"])
prop("C25", "Reload and terminate are safe at any time",
     "A reload signal rebuilds everything from the current configuration and continues control under it, signals that follow each other within a second make one reload a second after the last, a configuration that cannot be built yet is tried again until it can, "
     "and a terminate signal ends the process with status zero; after either no command of the old configuration is sent.",
     ["schedules", "histories", "configurations"],
     "all timings of reload and terminate relative to the loop and each other, with configurations that change in between",
     "Nothing tests main.cpp.",
     ["main.cpp"],
     [("reload", "main.cpp:restartControlLoops"), ("stop", "main.cpp:stopControlLoops")],
     None, ["exit status, fan writes, objects on the bus"])
prop("C26", "Fans in a failed redundancy group are known exactly",
     "The set of fans considered failed by redundancy is always the union of the collections whose last known status says failed, whatever the order of updates, whether known at start or later, and whether or not a service answers.",
     ["histories", "inputs"],
     "all sequences of status changes of several overlapping collections, with malformed updates",
     "Not tested.",
     ["dbus/dbuspassiveredundancy.cpp"],
     [("tracking", "dbus/dbuspassiveredundancy.cpp")],
     None, ["reported set of fans"])
prop("C27", "State published on D-Bus reflects the controller's state",
     "The zone's failsafe, manual and leader properties and each controller's input, output and leader always report the last pass: the leader is the controller (or sensor) that decided the "
     "set point, and reads never disagree with what was commanded.",
     ["histories"],
     "all histories of requests, ceilings, minimums and failures",
     "Not tested.",
     ["pid/zone.cpp", "pid/thermalcontroller.cpp"],
     [("publication", "pid/zone.cpp:leader/failSafe/updateThermalPowerDebugInterface")],
     None, ["D-Bus properties"])
prop("C28", "A configured path selects the right interface and the real device file",
     "The kind of access a sensor gets (none, D-Bus, sysfs, external) follows from its configured path alone, and a sysfs path with a wildcard component resolves to the one matching device, other paths being used unchanged.",
     ["inputs", "configurations"],
     "all path strings and directory trees",
     "Tests try a few fixed strings.",
     ["sensors/build_utils.cpp", "sysfs/util.cpp"],
     [("selection", "sensors/build_utils.cpp"), ("resolution", "sysfs/util.cpp:FixupPath")],
     None, ["returned kinds and paths"])
prop("C29", "Logging, debug and verbose options never change control",
     "For the same configuration and the same history of readings and events, the daemon sends the same fan commands at the same times whether or not logging, core logging or debug output is on.",
     ["histories", "configurations"],
     "all configurations and event histories, all combinations of those options",
     "Tests never run with these options on.",
     ["main.cpp", "pid/pidcontroller.cpp", "pid/zone.cpp", "pid/fancontroller.cpp"],
     [("flags", "pid/tuning.cpp, main.cpp")],
     None, ["fan writes"])
prop("C30", "Zones are independent of each other",
     "The commands sent to a zone's fans depend only on that zone's configuration, sensors and mode: running other zones beside it, failing or in manual mode, changes nothing.",
     ["histories", "configurations", "schedules"],
     "all pairs of zone configurations and event histories",
     "No test runs two zones.",
     ["pid/zone.cpp", "pid/pidloop.cpp", "main.cpp"],
     [("per-zone state", "pid/zone.hpp")],
     None, ["fan writes of one zone with and without the others"])
prop("C31", "Tuning mode follows the set point file and never lets failsafe interfere",
     "In tuning mode a set point file with a valid number overrides the zone's set point from the next thermal pass, the zone's own file before the common one, invalid or missing files change nothing, and failsafe does not override commands; outside tuning mode the files are ignored.",
     ["histories", "configurations"],
     "all contents and change times of the two files, several zones",
     "Not tested.",
     ["pid/zone.cpp", "pid/fancontroller.cpp"],
     [("override", "pid/zone.cpp:fileParseRpm"), ("bypass", "pid/fancontroller.cpp:outputProc")],
     None, ["fan commands"])


prop("C32", "A long-running daemon does not accumulate resources",
     "However long the daemon runs, and however often sensors fail and recover, modes change, buses misbehave or the configuration is reloaded, the files it holds open, its signal subscriptions, the objects it shows on D-Bus and the memory it uses return to the same level: what one period of such operation leaves behind does not add up over many.",
     ["histories", "configurations", "fault_sequences"],
     "configurations of one to three zones with bus, external and file sensors, PID, stepwise, margin and ceiling controllers, logging on or off; periods with up to a dozen disturbances, with no, one or two reloads each, repeated five to eight times",
     "The unit tests construct single objects once; nothing runs the daemon for more than one cycle.",
     ["main.cpp", "pid/pidloop.cpp", "dbus/dbuspassive.cpp", "failsafeloggers", "pid/ec/logging.cpp", "sensors/builder.cpp", "pid/builder.cpp"],
     [("reload", "main.cpp:restartControlLoops"), ("loops", "pid/pidloop.cpp"), ("subscriptions", "dbus/dbuspassive.cpp:DbusPassive")],
     None, ["open files", "signal matches", "D-Bus objects", "allocated memory"])

prop("C33", "No fault of sensors, fans or the bus stops control",
     "Faults at run time - readings that are not numbers, missing or malformed files, sensors that alarm, go away or fall silent, fans that refuse commands, D-Bus calls that fail, mode and enable changes in any order, reloads in the midst of them - never end the daemon nor stop a zone's loop for good: once all is well again, every zone is out of failsafe within seconds and every fan follows its zone's temperatures as before, at the zone's own cycle time. (With handle-missing-object-paths, a sensor not found on the bus when its zone was built stays failed until the zones are built again.)",
     ["histories", "fault_sequences", "configurations"],
     "up to three rounds of up to a dozen faults of 25 kinds at any times in zones of any mix of sensor and fan types, with and without timeouts, each round followed by a calm in which temperatures change twice",
     "The unit tests exercise one fault at a time on mocks and stop there; the recovery of the whole daemon is not tested.",
     ["pid/pidloop.cpp", "pid/zone.cpp", "dbus/dbuspassive.cpp", "dbus/dbuswrite.cpp", "sysfs/sysfsread.cpp", "sysfs/sysfswrite.cpp", "sensors/host.cpp", "main.cpp"],
     [("loop", "pid/pidloop.cpp:pidControlLoop"), ("failsafe", "pid/zone.hpp:processSensorInputs"), ("passive sensors", "dbus/dbuspassive.cpp:handleSensorValue"), ("commands", "dbus/dbuswrite.cpp")],
     None, ["fan commands", "zone mode", "the daemon's end"])

prop("C34", "What changes while the daemon starts or reloads is not missed",
     "Whatever changes in the system while the daemon starts, reads its configuration or reloads - at whatever moment, between any two of the calls it makes - is in effect afterwards: sensors' values, alarms, availability and functional state, the host's state, fan redundancy groups, sensors appearing or going, the selected profile and the configuration on D-Bus. Once things are settled, each zone's failsafe state, its fans' commands and the zones themselves are those the system's present state calls for, as if it had been so from the beginning.",
     ["schedules", "configurations", "histories"],
     "one to four changes after the k-th answer (k up to 60) the daemon receives in its start or reload, with and without a lookup that fails, signals delivered as a bus does; configuration from a file or on D-Bus, both build configurations",
     "The unit tests build single objects on mocks; no test has anything change while the daemon is being built.",
     ["main.cpp", "hoststatemonitor.hpp", "dbus/dbuspassive.cpp", "dbus/dbushelper.cpp", "dbus/dbuspassiveredundancy.cpp", "dbus/dbusconfiguration.cpp"],
     [("host state", "hoststatemonitor.hpp:startMonitoring"), ("sensors", "dbus/dbuspassive.cpp:createDbusPassive"), ("groups", "dbus/dbuspassiveredundancy.cpp:populateFailures"), ("configuration", "dbus/dbusconfiguration.cpp:init")],
     None, ["zone mode", "fan commands", "zone objects"])
prop("C35", "The setsensor command takes zone 1 over and feeds the host's sensor, nothing else",
     "Running setsensor puts zone 1 in manual mode and gives the external sensor margin/sluggish0 the reading 300, whichever of the two is possible; every other zone and sensor is "
     "left as it was, and for each of the two it says whether it was done.",
     ["configurations", "faults"],
     "all sets of zones and external sensors, either service absent, either write failing",
     "The tool is not built by the tests; that it speaks the daemon's types only shows when it talks to the daemon.",
     ["setsensor.cpp", "sensors/host.cpp", "pid/zone.cpp"],
     [("mode", "setsensor.cpp:SetManualMode"), ("value", "setsensor.cpp:SetHostSensor")],
     None, ["zone mode", "sensor reading", "what it prints"])

def main():
    import checks
    root = os.path.dirname(HERE)
    have = [p["id"] for p in P if p["id"] in checks.CHECKS]
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
    for p in P:
        i = p["id"]
        if i not in have:
            m["not_applicable"].append({"property": i, "reason": "check not built yet"})
            continue
        c = checks.CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": c["technique"],
            "level": c.get("level", "exploration"),
            "level_note": c["note"],
        })
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
