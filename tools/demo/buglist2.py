CF = "xyz.openbmc_project.Configuration."
BOARD = "/xyz/openbmc_project/inventory/system/board/Main/"
def em(*objs, **k):
    """a scenario configured over D-Bus"""
    w = W(k.pop("dur"), **k)
    for x in ("cfg", "cfgpath"): del w.d[x]
    w.d.update(dbus=True, emmgr="/xyz/openbmc_project/inventory", em=[{"path": BOARD + p["Name"].replace(" ", "_"), "ifaces": {CF + i: p}} for i, p in objs])
    w.d["cfg"] = [{"sensors": [], "zones": []}]
    return w
def emdone(w):
    del w.d["cfg"]
    return w
def emzone(i, **k): return ("Pid.Zone", dict({"Name": "Zone %d" % i, "Type": "Pid.Zone", "ZoneIndex": float(i), "MinThermalOutput": 0.0, "FailSafePercent": 75.0, "CycleIntervalTimeMS": 100.0, "UpdateThermalsTimeMS": 200.0}, **k))
def empid(name, cls, ins, z, **k):
    return ("Pid", dict({"Name": name, "Class": cls, "Inputs": ins, "Zones": ["Zone %d" % z], "SetPoint": 0.0, "PCoefficient": 0.0, "ICoefficient": 0.0, "ILimitMin": 0.0, "ILimitMax": 0.0,
                         "FFGainCoefficient": 0.0, "FFOffCoefficient": 0.0, "OutLimitMin": 0.0, "OutLimitMax": 100.0, "SlewNeg": 0.0, "SlewPos": 0.0}, **k))
# ---- C05
bug("c05-transition", "C05", [("hoststatemonitor.hpp", "            bool newPowerStatus = stateValue.ends_with(\".Running\");", "            bool newPowerStatus =\n                stateValue.find(\"Running\") != std::string::npos;")],
    "a host that reports the state TransitioningToRunning while a sensor that is exempt with the host off has failed",
    "the host counts as running before it is: the sensor of the powered-off component puts its zone into failsafe",
    W(12000, host="Off").fan("fan1", 1).sensor("t1", 40, crit={"hi": False, "lo": False}, cfg={"ignoreFailIfHostOff": True})
    .zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1"))
    .ev(4000, "crit", s="t1", hi=True).ev(6000, "host", st="TransitioningToRunning"),
    'expect(fs(1, 11) == 0, "the host is not running, its sensor is exempt, and zone 1 is in failsafe")')
# ---- C08
bug("c08-zero-power", "C08", [("pid/thermalcontroller.cpp", "            _owner->updateThermalPowerDebugInterface(_id, leaderName, value, 0);\n        }\n\n        acceptable = true;", "            _owner->updateThermalPowerDebugInterface(_id, leaderName, value, 0);\n            acceptable = true;\n        }")],
    "a loop over a sum of powers all of whose sensors read zero",
    "valid readings of zero count as no reading: the loop gets its setpoint as input and stops controlling",
    W(7000).fan("fan1", 1).sensor("p1", 0, type="power").sensor("p2", 0, type="power")
    .zone(1, fanpid("F", "fan1"), thermal("A", "powersum", "p1", "p2", sp=50, gain=-1)),
    'expect(near(level(1, 6), 50), "fan 1 at %.0f percent; 1 * (50 - 0) = 50 expected" % level(1, 6))')
bug("c08-hyst-integral", "C08", [("pid/pidcontroller.cpp", "            info->integral = 0;\n", "            info->integral = std::min(info->integral, setpt);\n"), ("pid/pidcontroller.cpp", "#include <cmath>", "#include <algorithm>\n#include <cmath>")],
    "a loop with hysteresis around its setpoint and an integral term whose input leaves the band upwards, then downwards, then upwards again",
    "the integral collected before is still there when the loop starts again",
    W(14000).fan("fan1", 1).sensor("t1", 45, period=200)
    .zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1", sp=40, gain=0, integralCoeff=-0.2, integralLimit_max=60, checkHysteresisWithSetpoint=True, positiveHysteresis=2, negativeHysteresis=2))
    .ev(9000, "base", s="t1", v=30).ev(11000, "base", s="t1", v=45),
    'expect(level(1, 8.5) > 25 and near(level(1, 10.8), 0), "%.0f, %.0f percent" % (level(1, 8.5), level(1, 10.8))); expect(level(1, 12) < 15, "the loop starts again at %.0f percent" % level(1, 12))')
# ---- C10
bug("c10-drift", "C10", [("pid/stepwisecontroller.cpp", "    lastOutput = output;\n    // Output new value", "    lastInput = input;\n    lastOutput = output;\n    // Output new value")],
    "an input that moves slowly, less than the hysteresis between two evaluations",
    "the hysteresis is taken from the last reading instead of the reading of the last change: a slow rise never raises the demand",
    (lambda w: [w.ev(3000 + 500 * k, "base", s="t1", v=30 + k) for k in range(16)] and w)(
    W(14000).fan("fan1", 1).sensor("t1", 30, period=200).zone(1, fanpid("F", "fan1"), stepw("S", [(0, 20), (40, 80)], "t1", pos=5, neg=5))),
    'expect(near(level(1, 2.8), 20) and near(level(1, 13), 80), "at 45 degrees the fan runs at %.0f percent, the curve says 80" % level(1, 13))')
# ---- C11
bug("c11-remainder", "C11", [("pid/pidloop.cpp", "            cycleCnt -= msPerThermalCycle;", "            cycleCnt = 0;")],
    "a thermal interval that is not a multiple of the fan interval, over several intervals",
    "the remainder is lost: thermal loops are evaluated less often than configured",
    (lambda w: [w.ev(500 + 30 * k, "val", s="t1", v=30 + k % 40) for k in range(640)] and w)(
    W(21000).fan("fan1", 1).sensor("t1", 40, period=0).zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1"), cyc=100, th=250)),
    'n = len(writes(1, 2, 20)); expect(n >= 68, "%d evaluations in 18 s with an interval of 250 ms" % n)')
# ---- C12
bug("c12-removed-zone", "C12", [("main.cpp", "            std::tie(zoneConfig, zoneDetailsConfig) =\n                buildPIDsFromJson(jsonData);", "            auto [pids, details] = buildPIDsFromJson(jsonData);\n            for (auto& [id, conf] : pids)\n            {\n                zoneConfig[id] = std::move(conf);\n                zoneDetailsConfig[id] = details[id];\n            }")],
    "a reload of a configuration from which a zone was removed",
    "the removed zone is built again from the previous configuration and keeps driving its fans",
    (lambda w: w.d["cfg"].append({"sensors": w.d["cfg"][0]["sensors"], "zones": w.d["cfg"][0]["zones"][:1]}) or w)(
    W(40000).fan("fan1", 1).fan("fan2", 2).sensor("t1", 40).sensor("t2", 40)
    .zone(1, fanpid("F1", "fan1"), thermal("A", "temp", "t1")).zone(2, fanpid("F2", "fan2"), thermal("B", "temp", "t2"))
    .ev(4000, "cfg", i=1).ev(4500, "hup")),
    'expect(fs(1, 38) is not None, "zone 1 does not run"); expect(fs(2, 38) is None, "zone 2 was removed from the configuration and still exists")')
# ---- C14
bug("c14-sysfs-cache", "C14", [("sysfs/sysfswrite.hpp", "    void write(double value) override;\n\n  private:\n    std::string _writePath;\n};\n\nclass SysFsWrite :", "    void write(double value) override;\n\n  private:\n    std::string _writePath;\n    int64_t _written = -1;\n};\n\nclass SysFsWrite :"), ("sysfs/sysfswrite.cpp", "    double ovalue = offset + minimum;\n", "    double ovalue = offset + minimum;\n\n    // spare the bus of the controller writes that change nothing\n    if (_written == static_cast<int64_t>(ovalue))\n    {\n        return;\n    }\n    _written = static_cast<int64_t>(ovalue);\n")],
    "a sysfs fan output that refuses writes for a while when the demand changes",
    "a write that failed is taken for done: the output keeps its old value after the fault is gone",
    (lambda w: w.d["pwmfiles"].append("$R/sys/class/hwmon/hwmon9/pwm1") or w)(
    W(14000).fan("fan1", 1, w="$R/sys/class/hwmon/hwmon9/pwm1").sensor("t1", 40, period=200).zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1"))
    .ev(5000, "pwmfault", p="$R/sys/class/hwmon/hwmon9/pwm1", f="eisdir").ev(5500, "base", s="t1", v=80).ev(8000, "pwmfault", p="$R/sys/class/hwmon/hwmon9/pwm1", f="ok")),
    'f = kind("file"); expect(f and f[-1]["v"].strip() == "204", "the output holds %s, 204 is due for 5 s" % f[-1:])')
# ---- C15
bug("c15-failsafe-manual", "C15", [("pid/zone.cpp", "    return getFailSafeMode();\n}\n\nvoid DbusPidZone::addPidControlProcess", "    // in manual mode nothing acts on the failsafe state\n    return getFailSafeMode() && !getManualMode();\n}\n\nvoid DbusPidZone::addPidControlProcess")],
    "reading the failsafe property of a zone that entered failsafe before it was put into manual mode",
    "the property denies the failsafe state the zone is in",
    W(9000).fan("fan1", 1).sensor("t1", 40, crit={"hi": False, "lo": False}).zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1"))
    .ev(3000, "crit", s="t1", hi=True).ev(5000, "manual", z=1, b=True).ev(7000, "get", path="/xyz/openbmc_project/settings/fanctrl/zone1", i="xyz.openbmc_project.Control.Mode", p="FailSafe"),
    'r = [r for r in kind("reply") if r["ev"].get("k") == "get"]; expect(r and r[-1]["i"] == 1, "FailSafe reads %s in failsafe" % r)')
# ---- C17
bug("c17-removed-sensor", "C17", [("dbus/dbusconfiguration.cpp", "    matches.emplace_back(bus,\n                         \"type='signal',member='InterfacesRemoved',arg0path='/\"", "    // sensors come and go with their service: removals matter once it is back\n    if (matches.size() < 2)\n        matches.emplace_back(bus,\n                         \"type='signal',member='InterfacesRemoved',arg0path='/\"")],
    "a D-Bus configuration and a sensor that is removed from D-Bus while the service runs",
    "the removal is not noticed: the loop goes on with the last reading of a sensor that no longer exists",
    emdone(em(emzone(1), empid("F", "fan", ["fan1"], 1, FFGainCoefficient=1.0, Outputs=["Pwm_1"]), empid("A", "temp", ["t1", "t2"], 1, PCoefficient=-1.0), dur=60000)
    .fan("fan1", 1).sensor("t1", 40).sensor("t2", 80).ev(15000, "obj", s="t2", b=False)),
    'expect(near(level(1, 14), 80), "%.0f percent" % level(1, 14)); expect(near(level(1, 58), 40), "t2 (80 degrees) is gone for 40 s and the fan still runs at %.0f percent" % level(1, 58))')
# ---- C18
bug("c18-failsafe-count", "C18", [("pid/pidloop.cpp", "            out << \",\" << zone->getFailSafeMode() << std::endl;", "            out << \",\" << zone->getFailSafeSensors().size() << std::endl;")],
    "logging while two sensors of a zone have failed",
    "the failsafe column of the log holds the number of failed sensors instead of 0 or 1",
    (lambda w: w.d["pwmfiles"].append("$R/log/zone_1.log") or w)(
    W(60000, log=True).fan("fan1", 1).sensor("t1", 40, crit={"hi": False, "lo": False}).sensor("t2", 40, crit={"hi": False, "lo": False})
    .zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1", "t2")).ev(3000, "crit", s="t1", hi=True).ev(4000, "crit", s="t2", hi=True)),
    'f = kind("file")[-1]["v"].split("\\n"); v = {l.split(",")[-1] for l in f[1:-1]}; expect(len(f) > 40 and v == {"0", "1"}, "failsafe column: %s (%d lines)" % (sorted(v), len(f)))')
# ---- C23
bug("c23-assume-zero", "C23", [("dbus/dbuswrite.hpp", "        WriteInterface(min, max), path(path), connectionName(connectionName)\n    {}\n\n    void write(double value) override;\n    void write(double value, bool force, int64_t* written) override;\n\n  private:\n    std::string path;\n    std::string connectionName;\n    int64_t oldValue = -1;", "        WriteInterface(min, max), path(path), connectionName(connectionName)\n    {}\n\n    void write(double value) override;\n    void write(double value, bool force, int64_t* written) override;\n\n  private:\n    std::string path;\n    std::string connectionName;\n    int64_t oldValue = 0;")],
    "a crash while the fans run, and no demand when the service is back",
    "the restarted service assumes that the outputs are at 0 and does not write that value: the fans keep the speed from before the crash",
    W(25000).fan("fan1", 1).sensor("t1", 40, period=200).zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1"))
    .ev(5000, "kill").ev(5500, "base", s="t1", v=0),
    'expect(near(level(1, 4.9), 40), "%.0f percent" % level(1, 4.9)); expect(len(kind("start")) > 1 and near(level(1, 24), 0), "no demand since the restart and the fan is at %.0f percent" % level(1, 24))')
# ---- C24
bug("c24-keep-old", "C24", [("main.cpp", "            std::cerr << \"Failed during building: \" << e.what() << \"\\n\";\n            exit(EXIT_FAILURE); /* fatal error. */", "            std::cerr << \"Failed during building: \" << e.what() << \"\\n\";\n            // keep what is known when a reload fails\n            if (zoneConfig.empty())\n            {\n                exit(EXIT_FAILURE); /* fatal error. */\n            }")],
    "a reload while the configuration file is valid in its sensors part but damaged in its zones",
    "the service runs with the sensors of the new file and the loops of the old one instead of refusing the file",
    (lambda w: w.d["cfg"].append(json.loads(json.dumps(w.d["cfg"][0]))) or w.d["cfg"][1]["sensors"][1].update(ignoreFailIfHostOff=True) or w.d["cfg"][1]["zones"][0]["pids"][1].pop("type") and w)(
    W(30000).fan("fan1", 1).sensor("t1", 40).zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1")).ev(4000, "cfg", i=1).ev(4500, "hup")),
    'e = kind("exit"); expect(e and e[0]["kind"] == 1 and e[0]["code"] != 0 and e[0]["t"] < 20, "a loop without a type was accepted: %s" % e)')
bug("c24-first-zone", "C24", [("pid/buildjson.cpp", "            auto item = pid.get<conf::ControllerInfo>();", "            conf::ControllerInfo item;\n            try\n            {\n                item = pid.get<conf::ControllerInfo>();\n            }\n            catch (const json::exception& e)\n            {\n                // one bad loop does not spoil a zone that has others\n                if (thisZone.empty())\n                {\n                    throw;\n                }\n                std::cerr << \"Zone \" << id << \": \" << e.what() << \"\\n\";\n                continue;\n            }")],
    "a configuration one of whose loops, not the first of its zone, lacks a required setting",
    "the zone runs without that loop instead of the configuration being refused",
    (lambda w: w.d["cfg"][0]["zones"][0]["pids"][2]["pid"].pop("outLim_max") and w)(
    W(15000).fan("fan1", 1).sensor("t1", 40).sensor("t2", 70).zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1"), thermal("B", "temp", "t2"))),
    'e = kind("exit"); expect(e and e[0]["kind"] == 1 and e[0]["code"] != 0 and e[0]["t"] < 5, "a loop without a limit was accepted: %s" % e)')
# ---- C26
bug("c26-degraded", "C26", [("dbus/dbuspassiveredundancy.cpp", "            if (status.rfind(\"Failed\") == std::string::npos)\n            {\n                continue;", "            if (status.ends_with(\".Full\"))\n            {\n                continue;")],
    "a redundancy object that reports the degraded state when the service starts",
    "redundancy that is degraded but not lost counts as failure of all fans of the collection",
    W(9000, redundancy={"coll": [SP + "fan_tach/fan1"], "status": "Degraded"}).fan("fan1", 1).sensor("t1", 40)
    .zone(1, fanpid("F", "fan1"), thermal("A", "temp", "t1")),
    'expect(fs(1, 8) == 0, "redundancy is only degraded and zone 1 is in failsafe")')
