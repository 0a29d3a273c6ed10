import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ALL=["schedules","inputs","histories","configurations","fault_sequences"]
W="value written to the fan's PWM (D-Bus Target or sysfs file)"
p("C01","Fans of a zone in failsafe run at least at the failsafe speed",
 "While a zone is in failsafe and in automatic mode, every fan output it writes in a control cycle is at least the failsafe percentage in force: the highest percentage assigned to the failed sensors, or the zone's own percentage where none is assigned. In the strict build the output is exactly that percentage, otherwise a higher demand of the fan's own control loop is kept. A zone whose sensors are all failed, missing or late never leaves its fans below that level, whatever the order in which failures appear and clear.",
 ALL,"every configuration of zones, sensors and percentages, every sequence of failures, recoveries and write faults, every order of message delivery and timer expiry",
 "the fan controller and zone tests use mocks with one fixed sensor and percentage; they never combine several failing sensors, several zones and time",
 ["pid/fancontroller.cpp","pid/zone.cpp","pid/zone.hpp","sensors/pluggable.cpp"],
 [("failsafe branch of the fan output","pid/fancontroller.cpp: FanController::outputProc"),("percentage of the failed sensors","pid/zone.cpp: markSensorMissing/updateFailSafePercent")],
 [("failsafe sensor set","sensors that keep the zone in failsafe, with the percentage of each","pid/zone.hpp: _failSafeSensors"),("failsafe percent","percentage in force","pid/zone.hpp: _failSafePercent")],
 [W,"FailSafe property of the zone object"])
p("C02","Every failed, absent or unusable sensor puts its zone into failsafe",
 "When a sensor a zone depends on has an active critical alarm, a non-finite or (where configured) a failed reading, is marked unavailable or not functional, lacks fan redundancy, or gives no usable reading at all, the zone is in failsafe from the next time it evaluates that sensor until the cause is gone, unless the configuration exempts that sensor from that cause. This holds for the state present when the sensor is attached as well as for every later change, and one cause that clears does not hide another that persists.",
 ALL,"every sequence and combination of sensor property changes, at startup, during a reload and while running, for every exemption setting",
 "the passive sensor tests feed single hand-written messages to a mock; they never combine causes, initial state and later changes",
 ["dbus/dbuspassive.cpp","dbus/dbuspassiveredundancy.cpp","pid/zone.hpp","sensors/pluggable.cpp","sysfs/sysfsread.cpp","sensors/host.cpp"],
 [("failure state of a D-Bus sensor","dbus/dbuspassive.cpp: getFailed, handleSensorValue"),("evaluation per cycle","pid/zone.hpp: processSensorInputs")],
 [("failure flags","critical, warning, availability, functional and NaN state of one sensor","dbus/dbuspassive.hpp")],
 ["FailSafe property of the zone object",W])
p("C03","A zone leaves failsafe when nothing is wrong and never enters it without cause",
 "A zone whose sensors all have current, finite readings and no failure indication is not in failsafe after its next evaluation of them, and resumes normal control of its fans. No healthy, exempted or unrelated sensor and no message about another interface or object puts a zone into failsafe or keeps it there.",
 ALL,"every failure history followed by recovery, every mix of unrelated signals",
 "tests check one entry and one exit by setting mocks; none runs a history with several overlapping causes",
 ["pid/zone.hpp","pid/zone.cpp","dbus/dbuspassive.cpp"],
 [("recovery of a sensor","pid/zone.hpp: processSensorInputs, unmarkSensorMissing")],
 [("failsafe sensor set","sensors that keep the zone in failsafe","pid/zone.hpp: _failSafeSensors")],
 ["FailSafe property of the zone object",W])
p("C04","Readings older than the sensor's timeout are never acted on silently",
 "A sensor with a timeout that has not delivered a reading for longer than that timeout counts as failed at the next evaluation and puts its zone into failsafe; a fresh reading ends it. A sensor without a timeout never fails for its age, and an adjustment of the wall clock in either direction neither freezes a stale reading as current nor leaves a healthy sensor failed beyond its next reading.",
 ALL,"every timeout, every silence, stall and delivery delay, every wall-clock jump, at start and after reload",
 "the timeout test uses one mocked reading and one fixed clock; message silence, stalls and clock jumps are not exercised",
 ["pid/zone.hpp","sysfs/sysfsread.cpp","dbus/dbuspassive.cpp","sensors/host.cpp","sensors/pluggable.cpp"],
 [("age of a reading","pid/zone.hpp: processSensorInputs"),("timestamp of a reading","dbus/dbuspassive.cpp: setValue; sysfs/sysfsread.cpp: read")],
 None,["FailSafe property of the zone object",W])
p("C05","Configured exemptions apply exactly to the cause they name",
 "A sensor marked missing-is-acceptable does not put its zone into failsafe when it is missing or late, one with unavailable-as-failed off does not fail for being unavailable, and one marked ignore-fail-if-host-off does not fail while the host is off; each still fails for every other cause. The exemption for the host being off ends when the host starts and holds again when it stops, also when the change happens while the service starts, reloads or is busy.",
 ALL,"every combination of exemptions and failure causes, every host state history",
 "tests check each flag alone against a mock; no test crosses flags with causes or host transitions",
 ["dbus/dbuspassive.cpp","pid/zone.cpp","pid/zone.hpp","hoststatemonitor.hpp","hoststatemonitor.cpp","sensors/host.cpp"],
 [("exemption flags","dbus/dbuspassive.cpp: getFailed"),("host state","hoststatemonitor.hpp"),("missing acceptable","pid/zone.cpp: markSensorMissing")],
 None,["FailSafe property of the zone object",W])
p("C06","Manual mode keeps the zone's hands off the fans; leaving it restores control",
 "From the first control cycle after manual mode is switched on (over D-Bus or IPMI) until it is switched off, the service writes no output of that zone's fans, in failsafe as well. In the first cycle after it is switched off every fan of the zone is written again, even if the computed value equals the last one written, and control continues from there; other zones are not affected.",
 ALL,"every interleaving of manual switching with control cycles, failures, reloads and external writes to the fans",
 "the zone test flips the flag on one mocked zone; cycles, failures and writes by others never interleave with it",
 ["pid/pidloop.cpp","pid/zone.cpp","pid/fancontroller.cpp","ipmi/manualcmds.cpp"],
 [("manual check of the loop","pid/pidloop.cpp: pidControlLoop"),("redundant write after manual","pid/zone.cpp: setManualMode, getRedundantWrite")],
 [("manual flag","automatic control is suspended","pid/zone.hpp: _manualMode")],
 [W,"Manual property of the zone object","IPMI reply"])
p("C07","The fan demand is the strongest thermal demand within the configured limits",
 "After each thermal evaluation the demand of a zone is the largest output of its enabled thermal, margin, power and stepwise loops (or the sum per profile where accumulation is configured), limited by the lowest applicable ceiling and never below the configured minimum. The name reported as leader is the loop (or ceiling or minimum) that determined it.",
 ["inputs","histories","configurations","schedules"],"every set of loops, readings and enable states",
 "unit tests add a few literal setpoints to one zone and read the maximum; no test drives it from sensors through complete cycles",
 ["pid/zone.cpp","pid/zone.hpp","pid/thermalcontroller.cpp","pid/stepwisecontroller.cpp"],
 [("arbitration","pid/zone.cpp: determineMaxSetPointRequest"),("demands and ceilings","pid/zone.cpp: addSetPoint, addRPMCeiling")],
 [("set points of this round","demands collected since the last evaluation","pid/zone.hpp: _SetPoints")],
 ["Leader property of the zone's loops","setpoint column of the zone log",W])
p("C08","Thermal loops follow the configured PID law over the whole history",
 "The output of each thermal loop after every evaluation equals the configured proportional, integral, derivative and feed-forward law applied to its whole history of inputs, with integral and output limits, slew limits and hysteresis respected. Its input is the highest temperature, the lowest margin or the sum of power of its usable inputs, in the configured unit, and failed inputs do not leak into it.",
 ["inputs","histories","configurations","schedules"],"every coefficient set and every history of readings, failures and reloads",
 "unit tests evaluate one or two steps with mocked inputs; the state the law carries is never driven through long histories",
 ["pid/ec/pid.cpp","pid/pidcontroller.cpp","pid/thermalcontroller.cpp","conf.hpp","pid/builder.cpp"],
 [("law","pid/ec/pid.cpp: pid"),("hysteresis","pid/pidcontroller.cpp: calPIDOutput"),("aggregation of inputs","pid/thermalcontroller.cpp: inputProc")],
 [("integral, last output","state of a loop","pid/ec/pid.hpp: pid_info_t")],
 ["Pid objects' properties on D-Bus","core log"])
p("C09","Each fan gets the output of its loop, scaled to its own range, every cycle",
 "In automatic mode without failsafe, every cycle leaves each fan of a zone at the output its fan loop computes from the zone's demand and the fans' speeds, within the loop's output and slew limits and scaled to the fan's own output range. A fan is written only by its own loop, with nothing but such values, and a write is skipped only when the fan already holds the value.",
 ["inputs","histories","configurations","schedules","fault_sequences"],"every configuration, tach history and demand history",
 "unit tests check one call of the scaling function and one call of the controller with mocks",
 ["pid/fancontroller.cpp","pid/ec/pid.cpp","dbus/dbuswrite.cpp","sysfs/sysfswrite.cpp","util.cpp","dbus/dbusutil.cpp"],
 [("fan loop","pid/fancontroller.cpp: inputProc, setptProc, outputProc"),("scaling and suppression","dbus/dbuswrite.cpp, sysfs/sysfswrite.cpp: write")],
 [("last written value","write suppression","dbus/dbuswrite.hpp: oldValue")],
 [W])
p("C10","Stepwise loops give the output of the step the input has reached",
 "A stepwise loop demands the output of the highest step whose reading its input has reached (its first output below that), following the configured hysteresis: a move inside the band around the last accepted input changes nothing. A ceiling curve limits the zone's demand in the same way.",
 ["inputs","histories","configurations","schedules"],"every curve and every history of inputs, including those around step boundaries",
 "unit tests evaluate single points of one curve without history",
 ["pid/stepwisecontroller.cpp","pid/ec/stepwise.cpp"],
 [("curve","pid/ec/stepwise.cpp: stepwise"),("hysteresis","pid/stepwisecontroller.cpp: process")],
 None,["Leader property, setpoint column of the zone log",W])
p("C11","Every zone runs at its own interval without drift, loss or pile-up",
 "Each zone's control cycle runs once per configured interval, scheduled on a fixed grid so that delays do not accumulate, and its thermal evaluation at the configured multiple. Slow calls, stalls of the process and wall-clock jumps delay cycles but never stop a zone, run one zone's cycle in another's place, or leave two loops running for one zone.",
 ["schedules","configurations","fault_sequences","histories"],"every timer latency, blocking call and stall",
 "no test runs the loop's timer at all",
 ["pid/pidloop.cpp","main.cpp"],
 [("rearming","pid/pidloop.cpp: pidControlLoop")],
 [("next expiry","time grid of a zone","pid/pidloop.cpp: nextTime")],
 ["expiry of the zone's timer",W])
p("C12","A reload replaces the control loops completely and comes back by itself",
 "After a reload request (SIGHUP or a change of the configuration objects) the running zones, loops and sensors are those of the current configuration: each configured zone exists once with one loop, and nothing of the old configuration still runs, writes a fan or answers. Requests that arrive during a reload are not lost, and a reload that fails is retried until it succeeds.",
 ["schedules","histories","configurations","fault_sequences"],"every configuration change, request timing and fault during teardown and build",
 "no test covers tearing down and rebuilding the loops",
 ["main.cpp","pid/pidloop.cpp","sensors/buildjson.cpp","sensors/manager.hpp","dbus/dbusconfiguration.cpp","pid/builder.cpp","sensors/builder.cpp"],
 [("teardown","main.cpp: stopControlLoops"),("retry","main.cpp: tryRestartControlLoops"),("configuration change matches","dbus/dbusconfiguration.cpp: createMatches")],
 [("loop timers","one per zone","main.cpp: state::timers"),("canceling flags","loops that have to end","main.cpp: state::isCanceling")],
 ["zone objects on D-Bus","control cycles",W])
p("C13","Termination ends the service promptly and leaves the fans safe",
 "After SIGTERM the service stops all control loops and exits with status 0 within a bounded time, whatever it was doing, a reload included. In the build that asks for it, every fan of an automatic or manual zone is left at the failsafe percentage when its loops are taken down; in the others, teardown writes nothing.",
 ["schedules","crash_points","configurations","fault_sequences"],"a termination request at every point of startup, cycle, reload and failure",
 "no test starts or stops the service",
 ["main.cpp","pid/fancontroller.cpp"],
 [("termination","main.cpp: tryTerminateControlLoops"),("offline output","pid/fancontroller.cpp: ~FanController")],
 None,["exit status",W])
p("C14","A failed fan write is repeated; the fan converges to the commanded output",
 "When writing a fan output fails or the fan service does not answer, the zone keeps running, and the next cycle in which the fan should have that value writes it again rather than assuming it was set. Once writes succeed, every fan holds the current command within one cycle, failsafe values included.",
 ["fault_sequences","histories","schedules","configurations"],"every sequence of failing, late and lost writes",
 "the write tests check one successful write or one exception",
 ["dbus/dbuswrite.cpp","sysfs/sysfswrite.cpp","sensors/pluggable.cpp"],
 [("suppression of unchanged values","dbus/dbuswrite.cpp: write")],
 [("last written value","must only be kept after success","dbus/dbuswrite.hpp: oldValue")],
 [W])
p("C15","Status and commands over D-Bus and IPMI reflect and reach the right zone",
 "Every zone object answers with its actual mode and failsafe state, and accepts manual switching; every loop object answers with its enable state and the values of the last evaluation. The IPMI OEM commands get and set the same state for any zone number from 0 to 255, and malformed, unknown or failing requests are answered with an error code and change nothing.",
 ["inputs","histories","schedules","fault_sequences","configurations"],"every request, zone number and moment, reloads and restarts included",
 "the IPMI tests check the byte parsing with a mocked helper; no test connects requests to running zones",
 ["ipmi/manualcmds.cpp","ipmi/dbus_mode.cpp","pid/zone.cpp","pid/zone.hpp","main.cpp"],
 [("zone objects","pid/zone.cpp: manual, failSafe"),("command dispatch","ipmi/manualcmds.cpp: manualModeControl"),("D-Bus helper","ipmi/dbus_mode.cpp")],
 None,["D-Bus replies and property changes","IPMI completion code and data"])
p("C16","External sensors take exactly the values clients write",
 "A sensor without a source of its own exists on D-Bus under its configured path as long as its zone does, takes each finite value a client writes as a new reading with the time of writing, and refuses other access. It survives reloads and restarts as an object, starts without stale values of the past, and times out like any other sensor when clients fall silent.",
 ["inputs","histories","schedules","crash_points","configurations"],"every sequence of writes, silences, reloads and crashes",
 "the host sensor test constructs one object and writes once",
 ["sensors/host.cpp","sensors/host.hpp","sensors/builder.cpp"],
 [("value property","sensors/host.cpp: value"),("creation","sensors/builder.cpp: buildSensors")],
 None,["Value property on D-Bus","FailSafe property of the zone object"])
p("C17","Configuration from D-Bus objects yields the loops they describe",
 "Without a configuration file, the service builds exactly the zones and loops that the Pid, Pid.Zone and Stepwise objects on D-Bus describe for the selected thermal profile, with those of their inputs and outputs that exist as sensors. While there is nothing to run it waits; while the set is inconsistent (a loop in a zone nobody describes, a fan loop whose inputs and outputs differ in number) or cannot be read it runs no loops and tries again every 10 s. When a property of such an object or the profile changes, or a sensor appears or disappears, it converges within seconds to the loops of the set present then, whatever the order, number and timing of the signals.",
 ["schedules","histories","configurations","fault_sequences"],"every set of configuration objects and every sequence of changes and faults",
 "the configuration tests check string matching helpers; no test reads a set of objects from a bus",
 ["dbus/dbusconfiguration.cpp","dbus/dbusutil.cpp","main.cpp"],
 [("reading the objects","dbus/dbusconfiguration.cpp: init"),("change matches","dbus/dbusconfiguration.cpp: createMatches")],
 None,["zone and loop objects on D-Bus","control cycles",W])
p("C18","Zone and loop logs record what the controller did",
 "With logging enabled, each automatic control cycle of a zone appends one complete line to its log, in order, whose time, demand, leader, fan, output, sensor and failsafe columns are the values the cycle used. With core logging, each change of a loop's computation appears in that loop's log with its terms.",
 ["histories","schedules","configurations","fault_sequences"],"every history, manual periods, failures and reloads included",
 "the tests do not enable logging",
 ["pid/zone.cpp","pid/zone.hpp","pid/pidloop.cpp","pid/ec/logging.cpp","main.cpp"],
 [("zone log","pid/zone.hpp: processSensorInputs; pid/zone.cpp: initializeLog, writeLog"),("core log","pid/ec/logging.cpp: LogContext")],
 None,["log files"])
p("C19","Failsafe logging is bounded however often sensors fail and recover",
 "However often sensors change between failed and healthy, each zone writes at most a fixed number of failsafe log lines (20) in any second. The limit of one zone does not use up that of another, and it takes effect again after reloads.",
 ["histories","schedules","configurations","fault_sequences"],"every pattern of failures and recoveries",
 "the logger tests check one logger with a few literal calls and sleeps",
 ["failsafeloggers/failsafe_logger.cpp","failsafeloggers/failsafe_logger_utility.hpp","failsafeloggers/builder.cpp"],
 [("rate limit","failsafeloggers/failsafe_logger.cpp: outputFailsafeLog")],
 None,["stderr lines"])
p("C20","No failure of sensors, services or files stops fan control",
 "No sequence of erroneous replies, missing services or objects, disappearing files, hanging calls, odd values and messages makes the running service exit, crash, or stop running any of its zones. Once the faults end, every configured zone is running within a bounded time.",
 ["fault_sequences","schedules","histories","configurations"],"every sequence of faults while running, starting and reloading",
 "tests inject single exceptions into single units",
 ["main.cpp","pid/pidloop.cpp","dbus/dbuspassive.cpp","dbus/dbushelper.cpp","sensors/builder.cpp","sysfs/sysfsread.cpp","sysfs/sysfswrite.cpp"],
 [("error handling of the helpers","dbus/dbushelper.cpp"),("retry","main.cpp: tryRestartControlLoops")],
 None,["process status","control cycles"])
p("C21","Disabling a thermal loop removes its demand and nothing else",
 "While a loop is disabled over D-Bus it contributes no demand and no ceiling to its zone, and when enabled again it contributes from the next evaluation on. The other loops, the minimum, failure detection and failsafe of the zone are not affected.",
 ["histories","schedules","configurations"],"every sequence of enabling and disabling, reloads included",
 "unit tests toggle the flag of one mocked loop",
 ["pid/zone.cpp","pid/zone.hpp","pid/thermalcontroller.cpp","pid/stepwisecontroller.cpp"],
 [("enable flag","pid/zone.cpp: isPidProcessEnabled, addPidControlProcess")],
 None,["Enabled and Leader properties",W])
p("C22","Tuning mode takes the demand from the setpoint files and bypasses failsafe",
 "In tuning mode the demand of a zone after each thermal evaluation is the value in its own setpoint file, else the value in the common one, else the normal demand, and failsafe does not override the fans. Without tuning mode those files have no effect.",
 ["inputs","histories","configurations","schedules","fault_sequences"],"every sequence of contents, removals and torn contents of the files",
 "no test enables tuning",
 ["pid/zone.cpp","pid/fancontroller.cpp","pid/tuning.cpp","main.cpp"],
 [("setpoint files","pid/zone.cpp: fileParseRpm, determineMaxSetPointRequest"),("bypass","pid/fancontroller.cpp: outputProc")],
 None,[W,"zone log"])
p("C23","After a crash the service starts again from scratch and regains control",
 "After the service is killed at any moment and restarted, it depends on nothing the previous process left behind: all zones are automatic, all loops enabled, every sensor is re-read and every fan written again. A zone is in failsafe until its sensors have delivered readings.",
 ["crash_points","histories","schedules","configurations"],"a crash at every point of startup, cycle and reload",
 "no test starts the service",
 ["main.cpp","pid/zone.cpp","pid/builder.cpp","dbus/dbuspassive.cpp","dbus/dbuswrite.cpp"],
 [("initial state of zones and sensors","pid/zone.cpp: initializeCache; dbus/dbuspassive.cpp: createDbusPassive")],
 None,["zone objects",W])
p("C24","An invalid configuration is refused; it never runs partly",
 "A configuration file that is unreadable, torn, not valid JSON, lacks required parts (a zone's or loop's identity, limits or curve points), has a loop without inputs or with an input that is not a configured sensor, or defines no zone makes the service end with a failure status instead of running with part of it. A valid configuration that replaces it is taken into use at the next start or reload.",
 ["inputs","histories","configurations","crash_points"],"every truncation and damage of the generated configurations, at start and at reload",
 "the validation tests check a few literal documents",
 ["main.cpp","buildjson/buildjson.cpp","sensors/buildjson.cpp","pid/buildjson.cpp"],
 [("validation","buildjson/buildjson.cpp: validateJson"),("failure status","main.cpp: restartControlLoops")],
 None,["exit status","zone objects"])
p("C25","Zones do not interfere with each other",
 "The cycles, mode, failsafe state, demand and fan outputs of a zone depend only on its own sensors, loops and commands. Failures, manual mode, disabled loops or a high demand in one zone change nothing in another, except through sensors that both use.",
 ALL,"every set of zones with shared and separate sensors and every fault in one of them",
 "all unit tests have exactly one zone",
 ["pid/zone.cpp","pid/pidloop.cpp","main.cpp","sensors/manager.hpp","failsafeloggers/failsafe_logger_utility.hpp"],
 [("state per zone","pid/zone.hpp"),("shared sensors","sensors/manager.hpp")],
 None,["zone objects",W])
p("C26","Loss of fan redundancy counts as failure of the fans concerned",
 "While a redundancy object reports the failed state, every fan sensor in its collection counts as failed and its zone is in failsafe; other fans are not affected. The state is known at start and followed through every later change, and a fan returns to normal when redundancy does.",
 ["histories","schedules","configurations","fault_sequences"],"every history of redundancy states at start, reload and run time",
 "the redundancy monitor has no test",
 ["dbus/dbuspassiveredundancy.cpp","dbus/dbuspassive.cpp"],
 [("monitor","dbus/dbuspassiveredundancy.cpp: populateFailures"),("use","dbus/dbuspassive.cpp: getFailed")],
 [("failed set","paths of the fans without redundancy","dbus/dbuspassiveredundancy.hpp: failed")],
 ["FailSafe property of the zone object",W])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
