#!/usr/bin/env python3
# Writes the stand-ins for the generated phosphor-dbus-interfaces headers.
import os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim", "xyz", "openbmc_project")
def w(path, text):
    p = os.path.join(root, path); os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write("#pragma once\n" + text)
B = 'bool'; D = 'double'; S = 'std::string'
# dir, old-ns-parts (class dir), name, props {snake: Name}, methods, extra consts, server props [(type, fn, init, writable)]
I = [
 ("Association", [], "Association", ["endpoints"], {}, None),
 ("Association/Definitions", ["Association"], "Definitions", ["associations"], {}, None),
 ("Control/FanPwm", ["Control"], "FanPwm", ["target"], {}, None),
 ("Control/FanRedundancy", ["Control"], "FanRedundancy", ["allowed_failures","collection","status"], {}, None),
 ("Control/Mode", ["Control"], "Mode", ["manual","fail_safe"], {}, [(B,"manual","Manual","false",1),(B,"failSafe","FailSafe","false",0)]),
 ("Control/ThermalMode", ["Control"], "ThermalMode", ["current","supported"], {}, None),
 ("Debug/Pid/ThermalPower", ["Debug","Pid"], "ThermalPower", ["setpoint","output","input","leader","class_type"], {},
   [(D,"setpoint","Setpoint","0.0",0),(D,"output","Output","0.0",0),(D,"input","Input","0.0",0),(S,"leader","Leader","{}",0),(S,"classType","ClassType","{}",0)]),
 ("Debug/Pid/Zone", ["Debug","Pid"], "Zone", ["leader"], {}, [(S,"leader","Leader","{}",0)]),
 ("Object/Enable", ["Object"], "Enable", ["enabled"], {}, [(B,"enabled","Enabled","true",1)]),
 ("ObjectMapper", [], "ObjectMapper", [], {"get_object":"GetObject","get_ancestors":"GetAncestors","get_sub_tree":"GetSubTree","get_sub_tree_paths":"GetSubTreePaths","get_associated_sub_tree":"GetAssociatedSubTree"}, None),
 ("Sensor/Threshold/Critical", ["Sensor","Threshold"], "Critical", ["critical_high","critical_low","critical_alarm_high","critical_alarm_low"], {}, None),
 ("Sensor/Threshold/Warning", ["Sensor","Threshold"], "Warning", ["warning_high","warning_low","warning_alarm_high","warning_alarm_low"], {}, None),
 ("Sensor/Value", ["Sensor"], "Value", ["value","max_value","min_value","unit"], {}, [(D,"value","Value","std::numeric_limits<double>::quiet_NaN()",1),(D,"maxValue","MaxValue","std::numeric_limits<double>::infinity()",1),(D,"minValue","MinValue","-std::numeric_limits<double>::infinity()",1),("Unit","unit","Unit","Unit::DegreesC",1)]),
 ("State/Decorator/Availability", ["State","Decorator"], "Availability", ["available"], {}, None),
 ("State/Decorator/OperationalStatus", ["State","Decorator"], "OperationalStatus", ["functional"], {}, None),
 ("State/Host", ["State"], "Host", ["requested_host_transition","current_host_state","restart_cause"], {}, None),
]
for d, ns, name, props, methods, server in I:
    iface = "xyz.openbmc_project." + d.replace("/", ".")
    lns = "::".join(["sdbusplus","common","xyz","openbmc_project"] + [n.lower() for n in ns])
    camel = lambda s: "".join(p.capitalize() for p in s.split("_"))
    t = "#include <sdbusplus/sim_core.hpp>\nnamespace %s\n{\nstruct %s\n{\n" % (lns, name)
    t += '    static constexpr auto interface = "%s";\n' % iface
    if name == "ObjectMapper":
        t += '    static constexpr auto default_service = "xyz.openbmc_project.ObjectMapper";\n    static constexpr auto instance_path = "/xyz/openbmc_project/object_mapper";\n'
    if name == "Value" and d == "Sensor/Value":
        t += '    enum class Unit { Amperes, CFM, DegreesC, Hz, Joules, Liters, Meters, Nanoseconds, Pascals, Percent, PercentRH, RPMS, Seconds, Volts, Watts };\n'
        t += '    struct namespace_path { static constexpr auto value = "/xyz/openbmc_project/sensors"; static constexpr auto temperature = "temperature"; static constexpr auto fan_tach = "fan_tach"; static constexpr auto power = "power"; };\n'
    t += "    struct property_names\n    {\n" + "".join('        static constexpr auto %s = "%s";\n' % (p, camel(p)) for p in props) + "    };\n"
    t += "    struct method_names\n    {\n" + "".join('        static constexpr auto %s = "%s";\n' % kv for kv in methods.items()) + "    };\n"
    t += "};\n} // namespace\n"
    old = "::".join(["sdbusplus","xyz","openbmc_project"] + ns)
    w(d + "/common.hpp", t)
    w(d + "/client.hpp", "#include <xyz/openbmc_project/%s/common.hpp>\n" % d)
    if server:
        common = lns + "::" + name
        s = "#include <xyz/openbmc_project/%s/common.hpp>\n#include <limits>\nnamespace %s::server\n{\n" % (d, old)
        s += "class %s : public %s\n{\n    sdbusplus::server::interface::interface _itf;\n" % (name, common)
        for ty, fn, N, init, wr in server:
            s += '    static const char* %s_name() { return "%s"; }\n' % (fn, N)
        s += "    std::vector<sim::PropDef> _defs()\n    {\n        std::vector<sim::PropDef> d;\n"
        for ty, fn, N, init, wr in server:
            sig = {"bool":"b","double":"d","std::string":"s","Unit":"s"}[ty]
            get = "sdbusplus::details::toVal(this->%s())" % fn
            st = "nullptr"
            if ty == "Unit":
                get = 'sim::Val::str("xyz.openbmc_project.Sensor.Value.Unit.DegreesC")'
            elif wr:
                st = "[this](const sim::Val& v) { %s x{}; sdbusplus::details::fromVal(v, x); this->%s(x); }" % (ty, fn)
            s += '        d.push_back({"%s", "%s", [this] { return %s; }, %s});\n' % (N, sig, get, st)
        s += "        return d;\n    }\n"
        s += "  public:\n    using %s::interface;\n" % common
        s += "    %s(sdbusplus::bus_t& bus, const char* path) : _itf(bus, path, interface, _defs()) {}\n" % name
        s += "    virtual ~%s() = default;\n" % name
        for ty, fn, N, init, wr in server:
            s += "    SIM_PROP(%s, %s, %s)\n" % (ty, fn, "{}" if init == "{}" else init)
        s += "};\n} // namespace\n"
        nns = "::".join(["sdbusplus","server","xyz","openbmc_project"] + [n.lower() for n in ns])
        s += "namespace %s { using %s = %s::server::%s; }\n" % (nns, name, old, name)
        w(d + "/server.hpp", s)
