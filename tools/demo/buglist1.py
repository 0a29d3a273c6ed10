# ---- C01
bug("c01-failsafe-max", "C01", [("pid/zone.cpp", "            return firstData.second.second < secondData.second.second;", "            return firstData.second < secondData.second;")],
    "two sensors with different failsafe percentages failed at once, for reasons whose text sorts in the other order than the percentages",
    "the failsafe percentage in force is that of the sensor with the greatest failure reason text, so a zone can run below the highest percentage assigned to its failed sensors",
    W(12000).fan("fan1", 1).sensor("t1", 30, crit={"hi": False, "lo": False}).sensor("t2", 30, avail=True)
    .zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1", fs=90), thermal("B", "temp", "t2", fs=60), fs=50)
    .ev(4000, "avail", s="t2", b=False).ev(6000, "crit", s="t1", hi=True).ev(8000, "crit", s="t1", hi=False).ev(8500, "avail", s="t2", b=True)
    .ev(9500, "nan", s="t1", dur=2000).ev(9500, "avail", s="t2", b=False),
    '''
expect(fs(1, 7) == 1 and level(1, 7) >= 89, "both sensors failed (90 and 60 percent) and the fan is at %.0f percent" % level(1, 7))
expect(level(1, 11.3) >= 89, "both sensors failed (90 and 60 percent) and the fan is at %.0f percent" % level(1, 11.3))
''')
# ---- C02
bug("c02-nan-while-unavailable", "C02", [("dbus/dbuspassive.cpp", "    if (!(std::isfinite(value)))\n    {\n        _badReading = true;\n", "    if (!(std::isfinite(value)))\n    {\n        // a sensor that is not available is expected to read NaN\n        _badReading = _available;\n")],
    "a sensor that publishes NaN while it is unavailable and becomes available again before it publishes a number",
    "the sensor counts as healthy although its reading is NaN: the zone is not in failsafe",
    W(9000).fan("fan1", 1).sensor("t1", 30, cfg={"unavailableAsFailed": False})
    .zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1"))
    .ev(2000, "avail", s="t1", b=False).ev(2500, "nan", s="t1", on=True).ev(4200, "freeze", s="t1").ev(5000, "avail", s="t1", b=True),
    'expect(fs(1, 8) == 1, "t1 reads NaN since 3 s, is available since 5 s and zone 1 is not in failsafe")')
# ---- C03
bug("c03-stale-marginhot", "C03", [("dbus/dbuspassive.cpp", "        _marginHot = false;\n\n", ""), ("dbus/dbuspassive.cpp", "        if (unscaled <= 0.0)\n        {\n            _marginHot = true;\n        }", "        if (unscaled <= 0.0)\n        {\n            _marginHot = true;\n        }\n        else if (unscaled > 1.0)\n        {\n            // do not flap around zero\n            _marginHot = false;\n        }")],
    "a margin sensor whose margin runs out and recovers to a value between 0 and 1",
    "the sensor still counts as failed and keeps its zone in failsafe although its margin is positive",
    W(12000).fan("fan1", 1).sensor("m1", 20, type="margin")
    .zone(1, fanpid("F", "fan1"), thermal("A", "margin", "m1", sp=10, gain=-1.0))
    .ev(3000, "base", s="m1", v=-1).ev(6000, "base", s="m1", v=0.5),
    'expect(fs(1, 5) == 1, "no failsafe without margin"); expect(fs(1, 11) == 0, "the margin is positive again and zone 1 is still in failsafe")')
# ---- C04
bug("c04-equal-reading", "C04", [("dbus/dbuspassive.cpp", "    value *= std::pow(10.0, _scale);\n\n    auto unscaled = value;", "    value *= std::pow(10.0, _scale);\n\n    // nothing to do for a reading that did not change\n    if (!force && value == _unscaled)\n    {\n        return;\n    }\n\n    auto unscaled = value;")],
    "a sensor with a timeout that keeps delivering the same value for longer than the timeout",
    "fresh readings with an unchanged value do not count as fresh: the sensor times out and puts its zone into failsafe",
    W(12000).fan("fan1", 1).sensor("t1", 30, timeout=3, period=500)
    .zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1")),
    'expect(not [r for r in kind("fs") if r["v"] == 1 and r["t"] > 3], "zone 1 enters failsafe although its sensor delivers a reading every 500 ms")')
# ---- C05
bug("c05-missing-shared", "C05", [("pid/zone.cpp", "        _thermalInputs.push_back(therm);\n    }\n\n    if (missingAcceptable)\n    {\n        _missingAcceptable.emplace(therm);\n    }", "        _thermalInputs.push_back(therm);\n\n        if (missingAcceptable)\n        {\n            _missingAcceptable.emplace(therm);\n        }\n    }")],
    "a sensor used by two loops of a zone where only the loop built later lists it as missing-is-acceptable, and a failure of that sensor",
    "the exemption is lost: the acceptable sensor puts its zone into failsafe",
    W(9000).fan("fan1", 1).sensor("t1", 30).sensor("t2", 30)
    .zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1", "t2"), thermal("B", "temp", "t2", missing=["t2"]))
    .ev(4000, "nan", s="t2"),
    'expect(fs(1, 8) == 0, "zone 1 is in failsafe for a sensor whose absence is acceptable")')
# ---- C06
bug("c06-first-fan-only", "C06", [("pid/zone.cpp", "        p->process();\n    }\n\n    if (_redundantWrite)\n    {\n        // This is only needed once\n        _redundantWrite = false;\n    }", "        p->process();\n\n        // This is only needed once\n        _redundantWrite = false;\n    }")],
    "a zone with two fan loops, manual mode in which an operator changes the fans, and an unchanged demand when manual mode ends",
    "only the fans of the first loop are written again when manual mode ends; the others keep what the operator set",
    W(9000).fan("fan1", 1).fan("fan2", 2).sensor("t1", 40)
    .zone(1, fanpid("F1", "fan1"), fanpid("F2", "fan2"), thermal("A", "temp", "t1"))
    .ev(3000, "manual", z=1, b=True).ev(4000, "extwrite", p=PW + "Pwm_1", v=10).ev(4000, "extwrite", p=PW + "Pwm_2", v=10).ev(6000, "manual", z=1, b=False),
    '''
expect(not writes(1, 3.3, 6) and not writes(2, 3.3, 6), "a fan was written in manual mode")
for n in (1, 2): expect(near(level(n, 8), 40) and [w for w in writes(n, 6, 8)], "fan %d was not written again when manual mode ended" % n)
''')
# ---- C07
bug("c07-ceiling-below-minimum", "C07", [("pid/zone.cpp", "        result = std::min_element(rpmCeilings.begin(), rpmCeilings.end());", "        result = std::min_element(rpmCeilings.begin(), rpmCeilings.end());\n        // a ceiling is the upper limit, whatever the lower one is\n        minThermalThreshold = std::min(minThermalThreshold, *result);")],
    "a ceiling curve whose lowest step is below the zone's minimum, with the input on that step",
    "the demand of the zone falls to the ceiling, below the configured minimum",
    W(6000).fan("fan1", 1).sensor("t1", 25).sensor("t2", 10)
    .zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1"), stepw("C", [(0, 15), (50, 80)], "t2", ceiling=True), min=30),
    'expect(near(level(1, 5), 30), "demand %.0f percent, the minimum is 30" % level(1, 5))')
# ---- C09
bug("c09-fan-stopped-min", "C09", [("pid/fancontroller.cpp", "            if (value <= 0.0)\n            {\n                continue;\n            }", "            if (value < 0.0)\n            {\n                continue;\n            }")],
    "a fan loop with a speed-dependent term and several fans, one of which reports a speed of 0",
    "the stopped fan's 0 is taken for the slowest speed of the group, so the loop drives all its fans with a wrong input",
    W(8000).fan("fan1", 1).fan("fan2", 2, base=0).sensor("t1", 40)
    .zone(1, {"name": "F", "type": "fan", "inputs": ["fan1", "fan2"], "setpoint": 0, "pid": pid(proportionalCoeff=0.01, feedFwdGainCoeff=0.02)},
          {"name": "A", "type": "temp", "inputs": ["t1"], "setpoint": 0, "pid": pid(proportionalCoeff=-75.0, outLim_max=10000)}),
    'expect(near(level(1, 6), 60), "fan 1 at %.0f percent; 0.02 * 3000 + 0.01 * (3000 - 3000) = 60 expected" % level(1, 6))')
# ---- C11
bug("c11-drift", "C11", [("pid/pidloop.cpp", "        nextTime = timer->expiry();", "        // never schedule in the past after a stall\n        nextTime = std::max(timer->expiry(), std::chrono::steady_clock::now());")],
    "cycles that take time (slow fan writes), observed over many cycles",
    "every delay is added to the schedule: the cycles drift away from their grid and fewer run than configured",
    W(20000, sched={"costMin": 20, "costMax": 20}).fan("fan1", 1).sensor("t1", 40, amp=20, step=20, q=0.01, period=90)
    .zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1"))
    .ev(1000, "slow", n=HW, ms=30, dur=18000),
    '''
w = [t for t, v in writes(1, 3, 18)]
expect(len(w) > 20, "too few writes to judge: %d" % len(w))
ph = sorted((t * 10) % 1 for t in w)
g = max([b - a for a, b in zip(ph, ph[1:])] + [1 - ph[-1] + ph[0]])
expect(g > 0.3, "the cycles of zone 1 do not keep their 100 ms grid")
''')
# ---- C12
bug("c12-retry-limit", "C12", [("main.cpp", "    static const auto delayTime = std::chrono::seconds(10);\n    static boost::asio::steady_timer timer(io);\n\n    auto restartLbd", "    static const auto delayTime = std::chrono::seconds(10);\n    static boost::asio::steady_timer timer(io);\n    static int attempts = 0;\n\n    // do not keep an idle system busy\n    attempts = first ? 0 : attempts + 1;\n    if (attempts > 4)\n    {\n        std::cerr << \"giving up\\n\";\n        return;\n    }\n\n    auto restartLbd")],
    "a sensor that stays away from D-Bus for more than 40 s during a reload",
    "a reload that fails five times is given up: no zone runs any more although the sensor is back",
    W(110000).fan("fan1", 1).sensor("t1", 40)
    .zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1"))
    .ev(5000, "obj", s="t1", b=False).ev(6000, "hup").ev(70000, "obj", s="t1", b=True),
    'expect(fs(1, 100) is not None and near(level(1, 100), 40), "the sensor is back for 30 s and zone 1 does not run")')
# ---- C13
bug("c13-term-while-reloading", "C13", [("main.cpp", "    static const auto delayTime = std::chrono::milliseconds(50);\n    static boost::asio::steady_timer timer(io);\n", "    static const auto delayTime = std::chrono::milliseconds(50);\n    static boost::asio::steady_timer timer(io);\n\n    // already stopping\n    if (first && state::isCanceling)\n    {\n        return;\n    }\n")],
    "SIGTERM between the first attempt of a reload, which only cancels the loops, and its retry 10 s later",
    "the termination request is lost: the service starts its loops again and does not exit",
    W(40000).fan("fan1", 1).sensor("t1", 40)
    .zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1"))
    .ev(5000, "hup").ev(8000, "term"),
    'e = kind("exit"); expect(e and e[0]["t"] < 15 and e[0]["kind"] == 0 and e[0]["code"] == 0, "SIGTERM at 8 s did not end the service")')
# ---- C15
bug("c15-noarg-set", "C15", [("ipmi/manualcmds.cpp", "    if (*dataLen < sizeof(struct FanCtrlRequestSet))", "    if (*dataLen < sizeof(struct FanCtrlRequest))")],
    "an IPMI set request without its value byte",
    "a malformed request is accepted and switches the zone to whatever byte follows the request in memory",
    W(6000).fan("fan1", 1).sensor("t1", 40)
    .zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1"))
    .ev(3000, "ipmi", b=[1, 1]),
    'i = kind("ipmi"); expect(i and i[0]["cc"] != 0, "a set request without a value was answered with %s" % i)')
# ---- C16
bug("c16-stale-clock", "C16", [("sensors/host.cpp", "    _updated = std::chrono::high_resolution_clock::now();\n    _value = value * pow(10, 0); /* scale value */", "    // a repeated value is not a new reading\n    if (value != _value)\n    {\n        _updated = std::chrono::high_resolution_clock::now();\n    }\n    _value = value * pow(10, 0); /* scale value */")],
    "an external sensor with a timeout whose client keeps writing the same value",
    "the writes do not count as readings: the sensor times out although its client writes every second",
    (lambda w: [w.ev(500 + 800 * k, "extset", path="/xyz/openbmc_project/extsensors/temperature/e1", v=35) for k in range(14)] and w)(
    W(11000).fan("fan1", 1).ext("e1", timeout=2).zone(1, fanpid("F", "fan1"), thermal("A", "temp", "e1"))),
    'expect(not [r for r in kind("fs") if r["v"] == 1 and r["t"] > 2], "the external sensor times out although it is written every 800 ms")')
# ---- C19
bug("c19-clear-on-change", "C19", [("failsafeloggers/failsafe_logger.cpp", "        _logsInCurrentState.clear();", "        _logsInCurrentState.clear();\n        _logTimestamps.clear();")],
    "a zone that enters and leaves failsafe many times within a second",
    "the limit of 20 lines per second starts over with every change, so flapping sensors flood the log",
    (lambda w: [w.ev(3000 + 20 * k, "crit", s="t1", hi=bool(k % 2 == 0)) for k in range(100)] and w)(
    W(7000).fan("fan1", 1).sensor("t1", 40, crit={"hi": False, "lo": False})
    .zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1"), cyc=20, th=20)),
    '''
t = [r["t"] for r in kind("log") if "Zone `1` " in r["l"] and "failsafe mode" in r["l"]]
expect(max([sum(1 for y in t if x <= y < x + 1.0) for x in t] + [0]) <= 22, "more than 20 failsafe lines of zone 1 within a second")
''')
# ---- C20
bug("c20-redundancy-type", "C20", [("dbus/dbuspassiveredundancy.cpp", "                  auto reply = passiveBus.call(methodCall);\n                  reply.read(collection);\n              }\n              catch (const sdbusplus::exception_t&)\n              {\n                  std::cerr << \"Error reading match data\";\n                  return;\n              }\n\n              auto data", "                  auto reply = passiveBus.call(methodCall);\n                  reply.read(collection);\n              }\n              catch (const std::bad_variant_access&)\n              {\n                  std::cerr << \"Error reading match data\";\n                  return;\n              }\n\n              auto data")],
    "a redundancy change whose service does not answer the request for its collection",
    "the exception of the failed call leaves the message handler and ends the service",
    W(8000, redundancy={"coll": [SP + "fan_tach/fan1"], "status": "Full"}).fan("fan1", 1).sensor("t1", 40)
    .zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1"))
    .ev(3900, "err", n="xyz.openbmc_project.FanSensor", cnt=50).ev(4000, "red", coll=[SP + "fan_tach/fan1"], status="Failed"),
    'expect(not kind("exit") and not [r for r in kind("start")][1:], "a failed call ended the service"); expect(fs(1, 7.5) is not None, "zone 1 is gone")')
# ---- C21
bug("c21-disabled-failsafe", "C21", [("pid/zone.cpp", "    if (_missingAcceptable.find(name) != _missingAcceptable.end())\n    {", "    // a sensor none of whose loops is enabled does not matter\n    bool enabled = _pidsControlProcess.empty();\n    for (const auto& [_, process] : _pidsControlProcess)\n    {\n        enabled |= process->enabled();\n    }\n    if (!enabled)\n    {\n        return;\n    }\n\n    if (_missingAcceptable.find(name) != _missingAcceptable.end())\n    {")],
    "all thermal loops of a zone disabled over D-Bus, and a sensor or fan that fails then",
    "disabling loops also disables failure detection: the zone does not enter failsafe",
    W(9000).fan("fan1", 1).sensor("t1", 40, crit={"hi": False, "lo": False})
    .zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1"))
    .ev(3000, "enable", z=1, pid="A", b=False).ev(5000, "crit", s="t1", hi=True),
    'expect(fs(1, 8) == 1 and level(1, 8) >= 74, "a critical alarm is active and zone 1 is not in failsafe")')
# ---- C22
bug("c22-order", "C22", [("pid/zone.cpp", "        fileParseRpm(setpointpath, _maximumSetPoint);\n", "        bool common = fileParseRpm(setpointpath, _maximumSetPoint);\n"), ("pid/zone.cpp", "        fileParseRpm(zoneSetpointPath, _maximumSetPoint);", "        if (!common)\n        {\n            fileParseRpm(zoneSetpointPath, _maximumSetPoint);\n        }")],
    "tuning mode with both the common setpoint file and the zone's own one present",
    "the zone's own setpoint file is ignored while the common one exists",
    W(5000, tune=True, files={"/etc/thermal.d/setpoint": "3000", "/etc/thermal.d/setpoint.zone1": "1500"}).fan("fan1", 1).sensor("t1", 40)
    .zone(1, {"name": "F", "type": "fan", "inputs": ["fan1"], "setpoint": 0, "pid": pid(feedFwdGainCoeff=0.02)}, thermal("A", "temp", "t1")),
    'expect(near(level(1, 4), 30), "fan 1 at %.0f percent; 0.02 * 1500 = 30 expected" % level(1, 4))')
# ---- C25
bug("c25-ceiling-shared", "C25", [("pid/zone.cpp", "    rpmCeilings.push_back(ceiling);", "    // one ceiling per zone is enough\n    static double lowest = ceiling;\n    lowest = rpmCeilings.empty() ? std::min(lowest + 1.0, ceiling)\n                                 : std::min(lowest, ceiling);\n    rpmCeilings.push_back(lowest);")],
    "two zones with ceiling curves, one of them low",
    "the ceiling of one zone limits the demand of another one",
    W(8000).fan("fan1", 1).fan("fan2", 2).sensor("t1", 60).sensor("t2", 10).sensor("t3", 60)
    .zone(1, fanpid("F1", "fan1"), thermal("A1", "temp", "t1"), stepw("C1", [(0, 80), (50, 80)], "t1", ceiling=True))
    .zone(2, fanpid("F2", "fan2"), thermal("A2", "temp", "t3"), stepw("C2", [(0, 20), (50, 80)], "t2", ceiling=True)),
    'expect(near(level(1, 7), 60), "zone 1 demands 60 percent with a ceiling of 80 and runs at %.0f" % level(1, 7))')
# ---- C26
bug("c26-first-only", "C26", [("dbus/dbuspassiveredundancy.cpp", "            if (status.rfind(\"Failed\") == std::string::npos)\n            {\n                continue;\n            }\n            std::vector", "            if (status.rfind(\"Failed\") == std::string::npos)\n            {\n                // the failures are known\n                return;\n            }\n            std::vector")],
    "two redundancy objects, one of which has failed when the service starts while the other, asked first, is well",
    "the failure present at the start is not noticed: the fans concerned count as healthy and their zone is not in failsafe",
    W(9000, redundancy={"coll": [SP + "fan_tach/fan1"], "status": "Failed"}, redundancy2={"coll": [SP + "fan_tach/fan2"], "status": "Full"}).fan("fan1", 1).fan("fan2", 2).sensor("t1", 40)
    .zone(1, fanpid("F1", "fan1"), fanpid("F2", "fan2"), thermal("A", "temp", "t1")),
    'expect(fs(1, 3.5) == 1 and fs(1, 8) == 1, "redundancy of fan1 is still lost and zone 1 is not in failsafe")')
