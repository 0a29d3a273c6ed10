// Seeded scenario generation: a machine (zones, loops, sensors, outputs), its
// configuration (file or D-Bus inventory), a schedule profile and a sequence
// of faults and operator actions.
#include "scenario.hpp"

#include <algorithm>
#include <cmath>
#include <deque>
#include <functional>
#include <random>
#include <set>

namespace sim
{
namespace
{
const std::map<std::string, double> defaultW{
    {"alarm", 1.2}, {"nan", 1}, {"freeze", 1}, {"avail", .8}, {"func", .6}, {"obj", .4}, {"svc", .3}, {"hang", .15}, {"slow", .3}, {"err", .3}, {"stall", .5}, {"wall", .4},
    {"hup", .5}, {"term", .1}, {"kill", .15}, {"cfgnew", .3}, {"cfgbad", .08}, {"manual", 1}, {"enable", .8}, {"get", .5}, {"ipmi", .5}, {"setfs", .15},
    {"pwmfault", .5}, {"extwrite", .3}, {"file", .4}, {"host", .8}, {"red", .8}, {"base", 1.2}, {"val", .6}, {"other", .4}, {"extset", .5}, {"profile", .5}, {"emset", .4}, {"emobj", .4}, {"emdmg", .12}, {"assoc", .3}, {"tune", .0}};

struct GS
{
    std::string name, type, kind; // kind: dbus sysfs ext
    json world, cfg;
    std::string rp, wp; // the files or objects themselves ("**" resolved)
    bool crit = false, warn = false, avail = false, func = false, margin = false;
    double base = 40, amp = 5;
    std::set<int> zones;
};
struct Gen
{
    Rng r;
    const Focus& f;
    json sc;
    std::map<std::string, GS> S;
    std::vector<std::string> order, fans, therms, exts;
    std::vector<std::pair<int, std::string>> pids; // zone, thermal pid
    std::vector<int> zoneIds;
    std::vector<std::string> pwmFiles, pwmObjs;
    bool red = false, host = false, hostOn = true;
    bool dbus = false, noBad = false, big = false, wild = false, debug = false;
    json emDamaged; // path -> what is there at the start instead
    json J; // config
    json ev = json::array();
    Gen(uint64_t seed, const Focus& fo) : r(seed), f(fo) {}
    bool p(double x) { return r.chance(x); }
    double q(double a, double b, double s) { return std::round(r.real(a, b) / s) * s; }
    double w(const std::string& k)
    {
        auto i = f.w.find(k);
        if (i != f.w.end()) return i->second;
        auto d = defaultW.find(k);
        double x = d == defaultW.end() ? 0 : d->second;
        auto o = f.w.find("*");
        return o == f.w.end() ? x : x * o->second;
    }
    void sched()
    {
        json s;
        if (p(f.slow))
        {
            s["latMax"] = r.pick<int64_t>({400, 2000, 8000}) * US;
            s["costMax"] = r.pick<int64_t>({300, 1500, 5000}) * US;
            s["timerLate"] = r.pick<int64_t>({200, 5000, 20000}) * US;
            s["slowP"] = r.pick<double>({0, .002, .02});
            s["slowMax"] = r.pick<int64_t>({20, 200, 1500}) * MS;
            s["stallP"] = r.pick<double>({0, .001, .005});
            s["stallMax"] = r.pick<int64_t>({100, 400, 2500}) * MS;
        }
        else
        {
            s["latMax"] = r.pick<int64_t>({60, 400, 1500}) * US;
            s["costMax"] = r.pick<int64_t>({30, 300, 1000}) * US;
        }
        sc["sched"] = s;
    }
    std::string newSensor(const std::string& type, const std::string& kind, const std::string& nm)
    {
        GS s;
        s.name = nm;
        s.type = type;
        s.kind = kind;
        json& w = s.world;
        json& c = s.cfg;
        c["name"] = nm;
        c["type"] = type;
        w["name"] = nm;
        w["type"] = type;
        w["seed"] = r.below(1 << 30);
        if (type == "fan")
        {
            s.base = 1000;
            s.amp = q(5000, 15000, 500);
            w["base"] = s.base;
            w["amp"] = s.amp;
            w["step"] = 50;
            w["q"] = 1;
            w["period"] = r.range(300, 1100);
        }
        else
        {
            bool m = type == "margin";
            bool pw = type == "power" || type == "powersum";
            s.margin = m;
            s.base = m ? q(6, 25, 1) : pw ? q(80, 300, 5) : q(30, 60, 1);
            s.amp = m ? q(2, 5, 1) : pw ? q(5, 60, 5) : q(2, 10, 1);
            if (m && p(.15)) s.base = q(3, 6, 1);
            w["base"] = s.base;
            w["amp"] = s.amp;
            w["step"] = q(.5, 4, .25);
            w["q"] = r.pick<double>({.25, .5, 1, .125});
            w["period"] = r.range(250, 1100);
        }
        int to = type == "fan" || dbus ? 0 : 2;
        if (p(f.timeoutSet) && !dbus)
        {
            to = type == "fan" ? r.pick<int>({0, 0, 2, 4}) : r.pick<int>({0, 3, 4, 6, 10});
            c["timeout"] = to;
        }
        if (kind == "dbus")
        {
            static const std::map<std::string, std::string> dir{{"fan", "fan_tach"}, {"temp", "temperature"}, {"margin", "temperature"}, {"power", "power"}, {"powersum", "power"}};
            w["path"] = "/xyz/openbmc_project/sensors/" + dir.at(type) + "/" + nm;
            w["svc"] = type == "fan" ? "xyz.openbmc_project.FanSensor" : r.pick<std::string>({"xyz.openbmc_project.HwmonTempSensor", "xyz.openbmc_project.HwmonTempSensor", "xyz.openbmc_project.NVMeSensor", "xyz.openbmc_project.PSUSensor"});
            c["readPath"] = w["path"];
            if (p(f.crit) && type != "fan")
            {
                w["crit"] = {{"lo", p(f.initFail * .3)}, {"hi", p(f.initFail * .5)}};
                s.crit = true;
                if (p(.6)) { w["warn"] = {{"hi", p(.05)}}; s.warn = true; }
                if (p(.7))
                {
                    w["crit"]["high"] = s.base + q(15, 45, .5);
                    if (p(.6)) w["crit"]["low"] = q(0, 10, .5);
                    if (s.warn && p(.8)) { w["warn"]["high"] = s.base + q(8, 20, .5); if (p(.6)) w["warn"]["low"] = q(2, 15, .5); }
                }
            }
            if (p(f.availIf)) { w["avail"] = !p(f.initFail); s.avail = true; }
            if (dbus && p(.4)) w["assoc"] = true;
            if (p(f.funcIf)) { w["func"] = !p(f.initFail); s.func = true; }
            if (p(f.initFail * .4)) { w["init"] = r.pick<std::string>({"nan", "inf"}); }
            if (p(f.scaled))
            {
                w["scale"] = r.pick<int>({-3, -2, 0});
                w["intv"] = p(.7);
                if (w["intv"].get<bool>() && w["scale"] == 0) w["q"] = 1;
                if (w["scale"] == -2) w["q"] = .25;
            }
            if (type == "fan" && p(.6))
            {
                w["min"] = 0;
                w["max"] = s.base + s.amp;
                if (p(.4)) c["ignoreDbusMinMax"] = true;
            }
            else if (type == "temp" && p(.35))
            {
                w["min"] = 0;
                w["max"] = 100;
                if (p(.8)) c["ignoreDbusMinMax"] = true;
                else if (p(.5)) c["ignoreDbusMinMax"] = false;
            }
            if (dbus && type != "fan") c["ignoreDbusMinMax"] = true;
            if (!dbus && type != "fan" && p(.05)) { c["min"] = r.range(0, 30); c["max"] = r.range(60, 255); } // of fans only
            if (type != "fan" && p(f.unavailNF) && !dbus) c["unavailableAsFailed"] = p(.2);
            // a sensor that never changes and has no deadline
            if (to == 0 && type != "fan" && p(.3)) w["quiet"] = true;
        }
        else if (kind == "sysfs")
        {
            w["file"] = "$R/sys/class/hwmon/hwmon" + std::to_string(r.below(3)) + "/" + nm + "_input";
            c["readPath"] = w["file"];
            if (wild && p(.6))
            {
                // the number of the device is not known
                std::string d = "$R/sys/devices/platform/" + (type == "fan" ? std::string("tacho") : nm) + "/hwmon/";
                w["file"] = d + "hwmon7/" + nm + "_input";
                c["readPath"] = d + "**/" + nm + "_input";
            }
            w["q"] = 1;
        }
        else
        {
            w["ext"] = true;
            w["path"] = "/xyz/openbmc_project/extsensors/" + std::string(type == "margin" ? "margin" : "temperature") + "/" + nm;
            c["readPath"] = w["path"];
            w["period"] = r.range(300, 1300);
            exts.push_back(nm);
        }
        if (p(f.hostOffOk)) c["ignoreFailIfHostOff"] = true;
        s.rp = w.contains("file") ? w["file"] : w["path"];
        S[nm] = s;
        order.push_back(nm);
        (type == "fan" ? fans : therms).push_back(nm);
        return nm;
    }
    json pidCommon(const std::string& nm, const std::string& type, const std::vector<std::string>& in)
    {
        json j;
        j["name"] = nm;
        j["type"] = type;
        j["inputs"] = in;
        if (p(.3) && type != "fan") j["FailSafePercent"] = pct(0, 99);
        else if (p(.1)) j["FailSafePercent"] = pct(0, 99);
        if (p(f.missOk) && (type != "fan" || !dbus))
        {
            json m = json::array();
            for (auto& n : in)
                if (p(.5)) m.push_back(n);
            if (!m.empty()) j["missingIsAcceptable"] = m;
        }
        return j;
    }
    // one zone; every fan belongs to one zone only
    json zone(int idx, int id, int64_t cyc, int64_t th)
    {
        bool rpm = p(.3);
        std::string Z = std::to_string(id);
        json z;
        z["id"] = id;
        z["minThermalOutput"] = rpm ? (double)r.range(10, 60) * 50 : (double)r.range(0, 50);
        z["failsafePercent"] = p(f.fsp0 * .3) ? json(0) : p(.3) ? json(100) : pct(30, 99);
        z["cycleIntervalTimeMS"] = cyc;
        z["updateThermalsTimeMS"] = th;
        bool acc = p(f.acc);
        if (acc) z["accumulateSetPoint"] = true;
        json P = json::array();
        // fans
        int nf = big ? (int)r.range(2, 10) : p(f.id == "manual-mode" ? .15 : .06) ? (int)r.range(4, 6) : (int)r.range(1, 3);
        std::vector<std::string> zf;
        for (int i = 0; i < nf; ++i)
        {
            std::string nm = (dbus && p(.3) ? "fan_" : "fan") + std::to_string(fans.size() + 1);
            bool tachSys = p(f.sysfsTach) && !dbus;
            newSensor("fan", tachSys ? "sysfs" : "dbus", nm);
            GS& s = S[nm];
            s.zones.insert(id);
            bool sys = p(f.sysfsFan) && !dbus;
            std::string num = std::to_string(fans.size());
            std::string wp = sys ? "$R/sys/class/hwmon/hwmon9/pwm" + num : "/xyz/openbmc_project/control/fanpwm/Pwm_" + num;
            s.cfg["writePath"] = wp;
            if (sys && wild && p(.6))
            {
                s.cfg["writePath"] = "$R/sys/devices/platform/tacho/hwmon/**/pwm" + num;
                wp = "$R/sys/devices/platform/tacho/hwmon/hwmon7/pwm" + num;
            }
            bool tachOnly = !dbus && p(.025);
            if (tachOnly)
            {
                if (p(.5)) s.cfg.erase("writePath");
                else s.cfg["writePath"] = "";
                wp = "";
            }
            else (sys ? pwmFiles : pwmObjs).push_back(wp);
            s.wp = wp;
            if (dbus) { s.cfg["min"] = 0; s.cfg["max"] = 255; }
            else if (p(.7)) { s.cfg["min"] = p(.7) ? 0 : r.range(5, 40); s.cfg["max"] = p(.7) ? 255 : r.range(100, 250); }
            else if (p(.7)) { s.cfg["min"] = 0; s.cfg["max"] = p(.8) ? 255 : 100; }
            else if (p(.5)) { s.cfg.erase("min"); s.cfg.erase("max"); } // no range: the loop's output is written as it is
            else if (p(.5)) { s.cfg["min"] = 0; s.cfg.erase("max"); }
            else { s.cfg.erase("min"); s.cfg["max"] = 255; }
            if (!tachOnly) s.world["follow"] = wp;
            if (dbus)
            {
                // the D-Bus front end derives these itself
                s.cfg.erase("ignoreDbusMinMax");
                s.cfg.erase("timeout");
                s.cfg.erase("ignoreFailIfHostOff");
            }
            zf.push_back(nm);
        }
        auto fanPid = [&](const std::string& nm, const std::vector<std::string>& in) {
            json j = pidCommon(nm, "fan", in);
            j["setpoint"] = 0;
            json q;
            q["samplePeriod"] = p(.8) ? (double)cyc / 1000.0 : .1;
            if (!rpm)
            {
                q["proportionalCoeff"] = 0;
                q["integralCoeff"] = 0;
                q["feedFwdOffsetCoeff"] = p(.8) ? 0 : r.range(-5, 5);
                q["feedFwdGainCoeff"] = p(.8) ? 1.0 : q_(.5, 1.5);
                q["integralLimit_min"] = 0;
                q["integralLimit_max"] = 0;
            }
            else
            {
                q["proportionalCoeff"] = p(.8) ? q_(.0005, .01) : 0;
                q["integralCoeff"] = p(.7) ? q_(.0005, .005) : 0;
                q["feedFwdOffsetCoeff"] = 0;
                q["feedFwdGainCoeff"] = p(.7) ? q_(.002, .012) : 0;
                q["integralLimit_min"] = p(.5) ? 0 : -(double)r.range(5, 30);
                q["integralLimit_max"] = r.range(20, 100);
            }
            double lo = p(.3) ? 0 : (double)r.range(5, 30);
            q["outLim_min"] = lo;
            q["outLim_max"] = p(.85) ? 100 : r.range(70, 99);
            if (p(f.slew)) { q["slewNeg"] = p(.7) ? -(double)r.range(1, 30) : 0; q["slewPos"] = p(.7) ? (double)r.range(1, 30) : 0; }
            else { q["slewNeg"] = 0; q["slewPos"] = 0; }
            if (p(f.hyst * .3)) { q["positiveHysteresis"] = rpm ? r.range(50, 500) : r.range(100, 600); q["negativeHysteresis"] = r.range(50, 500); if (rpm && p(.3)) q["checkHysteresisWithSetpoint"] = true; }
            if (p(f.deriv)) q["derivativeCoeff"] = rpm ? q_(.0001, .001) : 0;
            j["pid"] = q;
            P.push_back(j);
        };
        if (zf.size() > 1 && p(.5))
        {
            int k = 0;
            for (auto& n : zf) fanPid("FanPid_" + Z + "_" + std::to_string(++k), {n});
        }
        else fanPid("FanPid_" + Z, zf);
        // thermal loops
        double hi = rpm ? 200 : 1; // output units
        auto input = [&](const std::string& type, bool step) -> std::string {
            // an existing sensor of that type, from this or another zone
            std::vector<std::string> c;
            for (auto& n : therms)
                if (S[n].type == type && (S[n].zones.count(id) ? true : p(f.share) && (!S[n].zones.empty()))) c.push_back(n);
            if (!c.empty() && p(.5)) return r.pick(c);
            std::string kind = dbus ? "dbus" : p(f.ext) ? "ext" : p(f.sysfsTemp) && type == "temp" ? "sysfs" : "dbus";
            std::string nm = (type == "temp" ? "temp" : type == "margin" ? "mrg" : "pwr") + std::string(dbus && p(.4) ? "_" : "") + std::to_string(therms.size() + 1);
            (void)step;
            // a name that ends in that of another sensor
            if (dbus && !therms.empty() && p(.15))
            {
                std::string x = "x" + r.pick(therms);
                if (!S.count(x) && x.size() < 12) nm = x;
            }
            return newSensor(type, kind, nm);
        };
        auto inputs = [&](const std::string& type, int n, bool step = false) {
            std::vector<std::string> v;
            for (int i = 0; i < n; ++i)
            {
                auto s = input(type, step);
                if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s);
                S[s].zones.insert(id);
            }
            return v;
        };
        int nt = 0;
        std::vector<std::string> prof{"CPU", "DIMM", "NVME"}, mid{"_Temp", "_Linear_Temp", "_a"};
        auto pname = [&](const std::string& k) {
            ++nt;
            if (acc) return "Z" + Z + k + std::to_string(nt) + (p(.35) ? r.pick(mid) : "") + "_" + r.pick(prof) + (p(.25) ? std::to_string(r.below(2)) : "");
            return "Z" + Z + k + std::to_string(nt);
        };
        auto pidBlock = [&](double sign, double sp, double scale) {
            json q;
            q["samplePeriod"] = p(.7) ? (double)th / 1000.0 : 1.0;
            q["proportionalCoeff"] = p(.85) ? sign * q_(.5, 6) * hi * scale : 0;
            q["integralCoeff"] = p(f.integ) ? sign * q_(.02, .5) * hi * scale : 0;
            if (p(f.deriv)) q["derivativeCoeff"] = sign * q_(.1, 3) * hi * scale;
            q["feedFwdOffsetCoeff"] = p(.8) ? 0 : r.range(-5, 5);
            q["feedFwdGainCoeff"] = p(.75) ? 0 : q_(.1, 1) * hi;
            q["integralLimit_min"] = p(.7) ? 0 : -(double)r.range(5, 40) * hi;
            q["integralLimit_max"] = (double)r.range(30, 100) * hi;
            q["outLim_min"] = p(.6) ? 0 : (double)r.range(5, 25) * hi;
            q["outLim_max"] = p(.85) ? 100 * hi : (double)r.range(60, 99) * hi;
            if (p(f.slew)) { q["slewNeg"] = p(.7) ? -(double)r.range(1, 15) * hi : 0; q["slewPos"] = p(.7) ? (double)r.range(1, 15) * hi : 0; }
            else { q["slewNeg"] = 0; q["slewPos"] = 0; }
            if (p(f.hyst))
            {
                q["positiveHysteresis"] = q_2(0, 4);
                q["negativeHysteresis"] = q_2(0, 4);
                if (p(.3)) q["checkHysteresisWithSetpoint"] = true;
            }
            (void)sp;
            return q;
        };
        bool any = false;
        auto scaledIn = [&](const std::vector<std::string>& in) {
            for (auto& n : in)
            {
                auto& s = S[n];
                if (s.world.contains("max") && !(s.cfg.contains("ignoreDbusMinMax") && s.cfg["ignoreDbusMinMax"].get<bool>())) return true;
            }
            return false;
        };
        auto tempPid = [&] {
            auto in = inputs("temp", big ? (int)r.range(1, 9) : (int)r.range(1, 3));
            std::string nm = pname("T");
            json j = pidCommon(nm, "temp", in);
            bool sc = scaledIn(in);
            double sp = sc ? .4 : S[in[0]].base + (double)r.range(-6, 3);
            j["setpoint"] = sp;
            j["pid"] = pidBlock(-1, sp, sc ? 50 : 1);
            P.push_back(j);
            pids.push_back({id, nm});
            any = true;
        };
        auto marginPid = [&] {
            bool cv = p(f.conv);
            auto in = inputs(cv ? "temp" : "margin", (int)r.range(1, 3));
            std::string nm = pname("M");
            json j = pidCommon(nm, "margin", in);
            if (cv)
            {
                json t = json::array();
                bool all = dbus || p(.6);
                for (size_t i = 0; i < in.size(); ++i)
                    if (all || i == 0) t.push_back((double)r.range(70, 95));
                j["tempToMargin"] = t;
            }
            j["setpoint"] = (double)r.range(4, cv ? 35 : 18);
            j["pid"] = pidBlock(1, j["setpoint"], 1);
            P.push_back(j);
            pids.push_back({id, nm});
            any = true;
        };
        auto powerPid = [&] {
            bool sum = p(.5);
            auto in = inputs(sum ? "powersum" : "power", (int)r.range(1, 3));
            std::string nm = pname("P");
            json j = pidCommon(nm, sum ? "powersum" : "power", in);
            j["setpoint"] = (double)r.range(100, 400);
            j["pid"] = pidBlock(-1, j["setpoint"], .1);
            P.push_back(j);
            pids.push_back({id, nm});
            any = true;
        };
        auto stepPid = [&](bool ceil) {
            auto in = inputs("temp", (int)(p(.12) ? r.range(3, 4) : r.range(1, 2)), true);
            std::string nm = pname(ceil ? "C" : "S");
            json j = pidCommon(nm, "stepwise", in);
            if (dbus) j.erase("FailSafePercent");
            j["setpoint"] = 30.0;
            json q;
            q["samplePeriod"] = 0.1;
            q["positiveHysteresis"] = p(.6) ? q_2(0, 4) : 0;
            q["negativeHysteresis"] = p(.6) ? q_2(0, 4) : 0;
            q["isCeiling"] = ceil;
            int n = p(.1) ? 20 : (int)r.range(1, 8);
            json rd = json::object(), out = json::object();
            bool sc = scaledIn(in);
            double stp = n == 20 ? .5 : 1;
            double x = S[in[0]].base - (double)r.range(2, 12), y = (ceil ? 60 : 15) * hi;
            for (int i = 0; i < n; ++i)
            {
                rd[std::to_string(i)] = sc ? x / 100 : x;
                out[std::to_string(i)] = std::clamp(y, 0.0, 100 * hi);
                x += stp * (double)r.range(1, 4);
                y += stp * (ceil ? -(double)r.range(0, 8) : (double)r.range(1, 15)) * hi;
                if (p(.05)) y += -30 * hi;
            }
            q["reading"] = rd;
            q["output"] = out;
            j["pid"] = q;
            P.push_back(j);
            pids.push_back({id, nm});
            any |= !ceil;
        };
        int n1 = (int)r.range(0, 2);
        if (f.multiPid > .5) n1 = (int)(p(.1) ? r.range(4, 7) : r.range(1, 3));
        if (big) n1 = (int)r.range(1, 6);
        for (int i = 0; i < n1; ++i) tempPid();
        if (p(f.margin)) marginPid();
        if (p(f.power)) powerPid();
        if (p(f.step)) stepPid(false);
        if (p(f.step * .3)) stepPid(false);
        if (!any) { if (p(.7)) tempPid(); else stepPid(false); }
        if (p(f.ceil)) stepPid(true);
        if (p(f.ceil * .4))
        {
            stepPid(true);
            if (p(.4)) stepPid(true);
        }
        z["pids"] = P;
        (void)idx;
        return z;
    }
    json pct(int64_t a, int64_t b) { int64_t v = r.range(a, b); return p(.75) ? json(v) : json((double)v + r.pick<double>({.25, .4, .5, .75})); }
    double q_(double a, double b) { return std::round(r.real(a, b) * 10000) / 10000; }
    double q_2(double a, double b) { return std::round(r.real(a, b) * 4) / 4; }

    void machine()
    {
        dbus = p(f.dbusCfg);
        big = p(.006);
        wild = !dbus && p(.25);
        int n = big ? (int)r.range(2, f.zonesMax + 3) : p(.45) ? 1 : (int)r.range(1, f.zonesMax);
        std::vector<int> ids{0, 1, 2, 3, 5, 7, 127, 130, 255};
        std::vector<int64_t> cyc{60, 75, 90, 100, 115, 130, 145, 160, 200, 250};
        sc["dbus"] = dbus;
        J["zones"] = json::array();
        for (int i = 0; i < n; ++i)
        {
            size_t a = p(.8) ? r.below(std::min<size_t>(ids.size(), 4)) : r.below(ids.size());
            int id = ids[a];
            ids.erase(ids.begin() + (long)a);
            size_t b = r.below(cyc.size());
            int64_t c = cyc[b];
            cyc.erase(cyc.begin() + (long)b);
            if (p(.06)) c = std::vector<int64_t>{12, 21, 33, 47, 52, 57, 64, 68, 71}[(size_t)i % 9];
            int64_t th = p(.5) ? c * r.range(3, 12) : r.range(4, 16) * 100 - 20;
            if (p(.04)) th = c / 2 + 1;
            if (p(.08)) th = 1000;
            zoneIds.push_back(id);
            J["zones"].push_back(zone(i, id, c, th));
            // left to the default
            auto& zj = J["zones"].back();
            auto dflt = [&](const char* k) {
                if (p(.5)) zj.erase(k);
                else zj[k] = p(.5) ? 0 : r.range(-2000, -1);
            };
            if (!dbus && c == 100 && p(.5)) dflt("cycleIntervalTimeMS");
            if (!dbus && th == 1000 && p(.4)) dflt("updateThermalsTimeMS");
        }
        host = p(f.host);
        if (host)
        {
            hostOn = p(.6);
            sc["host"] = hostOn ? "Running" : "Off";
        }
        red = !fans.empty() && p(f.redun);
        if (red)
        {
            json c = json::array();
            for (auto& n : fans)
                if (S[n].kind == "dbus" && p(.7)) c.push_back(S[n].world["path"]);
            if (c.empty()) red = false;
            else sc["redundancy"] = {{"status", p(f.initFail) ? "Failed" : p(.2) ? "Degraded" : "Full"}, {"coll", c}};
            if (red && p(.4))
            {
                json c2 = json::array();
                for (auto& n : fans)
                    if (S[n].kind == "dbus" && p(.5)) c2.push_back(S[n].world["path"]);
                if (!c2.empty()) sc["redundancy2"] = {{"status", p(f.initFail) ? "Failed" : p(.2) ? "Degraded" : "Full"}, {"coll", c2}};
            }
        }
        J["sensors"] = json::array();
        sc["sensors"] = json::array();
        for (auto& n : order)
        {
            J["sensors"].push_back(S[n].cfg);
            sc["sensors"].push_back(S[n].world);
        }
        sc["pwmfiles"] = pwmFiles;
        sc["pwms"] = json::array();
        for (auto& x : pwmObjs) sc["pwms"].push_back({{"path", x}, {"svc", "xyz.openbmc_project.FanSensor"}, {"init", r.below(256)}});
    }
    void mutate(json& c)
    {
        // a legitimate edit of the configuration
        int k = (int)r.range(1, 3);
        for (int i = 0; i < k; ++i)
        {
            auto& z = c["zones"][r.below(c["zones"].size())];
            switch (r.below(11))
            {
                case 6:
                case 7:
                {
                    auto& s = c["sensors"][r.below(c["sensors"].size())];
                    if (s["type"] == "fan") { s["min"] = r.range(0, 40); s["max"] = r.range(100, 255); }
                    else if (p(.5)) s["timeout"] = r.pick<int>({0, 3, 5, 8});
                    else if (S[s["name"]].kind == "dbus" && p(.5)) s["unavailableAsFailed"] = p(.5);
                    else if (S[s["name"]].kind == "dbus") s["ignoreFailIfHostOff"] = p(.5);
                    break;
                }
                case 8: // one loop or one input less
                {
                    auto& l = z["pids"];
                    size_t j = r.below(l.size());
                    if (l[j]["type"] == "fan") break;
                    auto& in = l[j]["inputs"];
                    if (in.size() > 1 && !l[j].contains("tempToMargin") && p(.6)) in.erase(in.begin() + (long)r.below(in.size()));
                    else if (l.size() > 2) l.erase(l.begin() + (long)j);
                    break;
                }
                case 9: // one loop more
                {
                    json q = z["pids"][r.below(z["pids"].size())];
                    if (q["type"] == "fan") break;
                    q["name"] = "New" + std::to_string(r.below(3)) + q["name"].get<std::string>();
                    if (q["type"] != "stepwise") q["setpoint"] = q["setpoint"].get<double>() - 2;
                    z["pids"].push_back(q);
                    break;
                }
                case 10: // another input
                {
                    auto& q = z["pids"][r.below(z["pids"].size())];
                    if (q["type"] == "fan" || q.contains("tempToMargin")) break;
                    for (auto& s : c["sensors"])
                        if (s["type"] == q["type"] && std::find(q["inputs"].begin(), q["inputs"].end(), s["name"]) == q["inputs"].end() && p(.5))
                        {
                            q["inputs"].push_back(s["name"]);
                            break;
                        }
                    break;
                }
                case 0: z["failsafePercent"] = r.range(30, 100); break;
                case 1: z["minThermalOutput"] = z["minThermalOutput"].get<double>() + (double)r.range(1, 10); break;
                case 2:
                {
                    auto& q = z["pids"][r.below(z["pids"].size())];
                    if (q["type"] != "stepwise" && q["type"] != "fan") q["setpoint"] = q["setpoint"].get<double>() + (double)r.range(1, 5);
                    break;
                }
                case 3: z["cycleIntervalTimeMS"] = std::max<int64_t>(z.value("cycleIntervalTimeMS", 100), 10) + 3; break;
                case 4:
                    if (c["zones"].size() > 1) c["zones"].erase(c["zones"].begin() + (long)r.below(c["zones"].size()));
                    break;
                case 5:
                {
                    auto& q = z["pids"][r.below(z["pids"].size())];
                    if (q["type"] != "fan") q["FailSafePercent"] = pct(1, 99);
                    break;
                }
            }
        }
    }
    void damage(json& c)
    {
        // a configuration that has to be refused: a part is missing, of the wrong kind, or names what does not exist
        auto any = [&](json& a) -> json& { return a[r.below(a.size())]; };
        auto& s = any(c["sensors"]);
        auto& z = any(c["zones"]);
        auto& q = any(z["pids"]);
        auto spoil = [&](json& o, const std::string& k) {
            if (p(.55)) o.erase(k);
            else if (o[k].is_string()) o[k] = r.pick<json>({json(5), json(nullptr), json::array({"x"}), json(true)});
            else o[k] = r.pick<json>({json("x"), json(nullptr), json::array(), json::object()});
        };
        switch (r.below(9))
        {
            case 0: spoil(s, r.pick<std::string>({"name", "type", "readPath"})); break;
            case 1: spoil(z, r.pick<std::string>({"id", "minThermalOutput", "failsafePercent", "pids"})); break;
            case 2: spoil(q, r.pick<std::string>({"name", "type", "inputs", "setpoint", "pid"})); break;
            case 3:
            {
                std::vector<std::string> ks{"samplePeriod"};
                if (q["type"] == "stepwise") ks.push_back("isCeiling");
                else
                    for (auto* k : {"proportionalCoeff", "integralCoeff", "feedFwdOffsetCoeff", "feedFwdGainCoeff", "integralLimit_min", "integralLimit_max", "outLim_min", "outLim_max", "slewNeg", "slewPos"})
                        ks.push_back(k);
                spoil(q["pid"], r.pick(ks));
                break;
            }
            case 4: q["inputs"] = json::array(); break;
            case 5: q["inputs"].insert(q["inputs"].begin() + (long)r.below(q["inputs"].size() + 1), "nosuch"); break;
            case 6: // a sensor in use is gone
            {
                auto nm = any(q["inputs"]);
                auto& l = c["sensors"];
                for (size_t i = 0; i < l.size(); ++i)
                    if (l[i]["name"] == nm) { l.erase(i); break; }
                break;
            }
            case 7:
            {
                std::string k = r.pick<std::string>({"sensors", "zones", "pids"});
                auto& o = k == "pids" ? z : c;
                o[k] = r.pick<json>({json::array(), json::object(), json("x"), json(7), json(nullptr)});
                break;
            }
            case 8:
                if (q["type"] == "stepwise" && p(.6))
                {
                    // a curve with a reading that has no output
                    auto& o = q["pid"]["output"];
                    o.erase(std::to_string(r.below(o.size())));
                    if (p(.2)) q["pid"].erase("output");
                }
                else if (p(.5)) z[r.pick<std::string>({"cycleIntervalTimeMS", "updateThermalsTimeMS", "accumulateSetPoint"})] = "x";
                else q[r.pick<std::string>({"tempToMargin", "missingIsAcceptable", "FailSafePercent"})] = "x";
                break;
        }
    }
    std::string pickTherm(const std::string& need)
    {
        std::vector<std::string> c;
        for (auto& n : order)
        {
            auto& s = S[n];
            if (need == "crit" && !s.crit) continue;
            if (need == "warn" && !s.warn) continue;
            if (need == "avail" && !s.avail) continue;
            if (need == "func" && !s.func) continue;
            if (need == "dbus" && s.kind != "dbus") continue;
            if (need == "sysfs" && s.kind != "sysfs") continue;
            if (need == "therm" && s.type == "fan") continue;
            if (need == "dtherm" && (s.type == "fan" || s.kind != "dbus")) continue;
            c.push_back(n);
        }
        return c.empty() ? "" : r.pick(c);
    }
    void add(double t, json e)
    {
        e["t"] = std::round(t * 1000) / 1000;
        ev.push_back(e);
    }
    void emitEvent(const std::string& k, double t, double end)
    {
        auto dur = [&](double a, double b) { return std::min(std::round(r.real(a, b)), std::max(200.0, end - t)); };
        int z = zoneIds[r.below(zoneIds.size())];
        if (k == "alarm")
        {
            auto s = pickTherm("crit");
            if (s.empty()) return;
            double x = t;
            if (p(.12))
            {
                // one sensor recovers as another one fails
                std::vector<std::string> c;
                for (auto& n : order)
                    if (S[n].crit) c.push_back(n);
                if (c.size() > 1)
                {
                    std::shuffle(c.begin(), c.end(), std::mt19937_64(r.below(1 << 30)));
                    auto set = [&](double x, const std::string& s, bool b) { add(x, {{"k", "crit"}, {"s", s}, {"hi", b}}); };
                    size_t on = c.size() > 2 ? 2 : 1;
                    for (size_t i = 0; i < on; ++i) set(t, c[i], true);
                    int n = (int)r.range(1, 4);
                    size_t next = on % c.size();
                    std::deque<std::string> cur(c.begin(), c.begin() + (long)on);
                    for (int i = 0; i < n; ++i)
                    {
                        x += r.real(300, 4000);
                        if (x > end - 200) break;
                        set(x, cur.front(), false);
                        cur.pop_front();
                        while (std::find(cur.begin(), cur.end(), c[next]) != cur.end()) next = (next + 1) % c.size();
                        set(x, c[next], true);
                        cur.push_back(c[next]);
                        next = (next + 1) % c.size();
                    }
                    x = std::min(end, x + r.real(200, 3000));
                    for (auto& s : cur) set(x, s, false);
                    return;
                }
            }
            if (p(.4))
            {
                // overlapping alarms of one sensor, set and cleared one at a time
                std::vector<std::string> which{"lo", "hi"};
                if (S[s].warn) which.push_back("warn");
                std::map<std::string, bool> on;
                auto toggle = [&](const std::string& a, bool b) {
                    on[a] = b;
                    add(x, {{"k", a == "warn" ? "warn" : "crit"}, {"s", s}, {a == "warn" ? "hi" : a, b}});
                    x += r.pick<double>({400, 1200, 1200, 2600}) * r.real(.8, 1.3);
                };
                int n = (int)r.range(2, 5);
                for (int i = 0; i < n && x < end - 100; ++i)
                {
                    auto a = r.pick(which);
                    toggle(a, p(.75) ? !on[a] : p(.5));
                }
                for (auto& a : which)
                    if (on[a] && x < end) toggle(a, false);
                return;
            }
            int n = (int)r.range(1, 4);
            for (int i = 0; i < n && x < end - 100; ++i)
            {
                std::string kk = S[s].warn && p(.35) ? "warn" : "crit";
                json e{{"k", kk}, {"s", s}};
                bool b = p(.6);
                if (kk == "warn") e["hi"] = b;
                else if (p(.2)) { e["lo"] = b; e["hi"] = p(.5); }
                else if (p(.3)) e["lo"] = b;
                else e["hi"] = b;
                add(x, e);
                x += r.pick<double>({.05, 2, 150, 900, 2500}) * r.real(.5, 1.5);
            }
            x = std::min(x + r.real(100, 5000), end);
            if (!p(.1))
            {
                add(x, {{"k", "crit"}, {"s", s}, {"lo", false}, {"hi", false}});
                if (S[s].warn) add(x + 1, {{"k", "warn"}, {"s", s}, {"hi", false}});
            }
        }
        else if (k == "nan")
        {
            auto s = pickTherm(p(.8) ? "therm" : "dbus");
            if (s.empty()) return;
            if (p(.3)) add(t, {{"k", "val"}, {"s", s}, {"v", r.pick<std::string>({"nan", "inf", "-inf"})}});
            else add(t, {{"k", "nan"}, {"s", s}, {"dur", dur(300, 9000)}});
        }
        else if (k == "freeze")
        {
            auto s = pickTherm(p(.85) ? "therm" : "");
            if (!s.empty()) add(t, {{"k", "freeze"}, {"s", s}, {"dur", dur(800, 15000)}});
        }
        else if (k == "avail" || k == "func")
        {
            auto s = pickTherm(k);
            if (s.empty()) return;
            add(t, {{"k", k}, {"s", s}, {"b", false}});
            if (p(.9)) add(std::min(end, t + r.pick<double>({.1, 30, 400, 3000, 9000}) * r.real(.5, 1.5)), {{"k", k}, {"s", s}, {"b", true}});
            if (p(.2)) add(std::min(end, t + r.real(0, 5000)), {{"k", "val"}, {"s", s}, {"v", S[s].base}});
        }
        else if (k == "obj")
        {
            auto s = pickTherm("");
            if (s.empty()) return;
            add(t, {{"k", "obj"}, {"s", s}, {"b", false}});
            // in a D-Bus configuration the sensors there are make the loops: one may go for good
            if (!(dbus && S[s].type != "fan" && p(.3))) ev.back()["dur"] = dur(500, 12000);
        }
        else if (k == "svc")
        {
            auto s = pickTherm("dbus");
            if (!s.empty()) add(t, {{"k", "svc"}, {"n", S[s].world["svc"]}, {"up", false}, {"dur", dur(500, 10000)}});
        }
        else if (k == "hang" || k == "slow" || k == "err")
        {
            std::vector<std::string> n{"xyz.openbmc_project.FanSensor"};
            if (k != "hang") n.push_back("xyz.openbmc_project.HwmonTempSensor");
            if (k == "slow" || dbus) n.push_back("xyz.openbmc_project.ObjectMapper");
            if (dbus) n.push_back("xyz.openbmc_project.EntityManager");
            if (dbus && sc.contains("profile")) n.push_back("xyz.openbmc_project.Settings");
            auto svc = r.pick(n);
            if (k == "err")
            {
                std::string m = svc == "xyz.openbmc_project.FanSensor" ? (p(.7) ? "Set" : r.pick<std::string>({"", "Get", "GetAll"})) : p(.5) ? "" : "GetAll";
                if (svc == "xyz.openbmc_project.Settings") m = p(.5) ? "" : "Get";
                if (svc == "xyz.openbmc_project.ObjectMapper") m = r.pick<std::string>({"", "GetSubTree", "GetObject"});
                json e{{"k", "err"}, {"n", svc}, {"cnt", r.range(1, 6)}, {"m", m}};
                if (p(.3)) e["skip"] = r.range(1, 8);
                add(t, e);
            }
            else if (k == "hang") add(t, {{"k", "hang"}, {"n", svc}, {"dur", dur(200, 8000)}});
            else add(t, {{"k", "slow"}, {"n", svc}, {"ms", r.pick<int>({2, 20, 150, 700})}, {"dur", dur(500, 8000)}});
        }
        else if (k == "stall") add(t, {{"k", "stall"}, {"ms", r.pick<int>({50, 300, 900, 2500, 6000})}});
        else if (k == "wall") add(t, {{"k", "wall"}, {"ms", r.pick<int64_t>({-1500, -4000, -60000, -86400000, 1500, 2500, 30000, 86400000})}});
        else if (k == "hup")
        {
            if (t < 6000) return;
            add(t, {{"k", "hup"}});
            if (p(.25)) add(t + r.pick<double>({1, 300, 990, 1005, 3000, 9000}), {{"k", "hup"}});
        }
        else if (k == "term")
        {
            if (t < 8000) return;
            add(t, {{"k", "term"}});
            sc["restartAfterTerm"] = r.range(500, 8000);
        }
        else if (k == "kill") { if (t >= 3000) add(t, {{"k", "kill"}}); }
        else if (k == "cfgnew")
        {
            if (dbus || t < 6000) return;
            json c = J;
            auto& last = sc["cfg"].back();
            if (p(.5) && last.is_object() && !noBad) c = last;
            mutate(c);
            sc["cfg"].push_back(c);
            add(t, {{"k", "cfg"}, {"i", (int)sc["cfg"].size() - 1}});
            if (sc["cfgpath"] == "$R/usr/share/swampd/config.json" && p(.25))
            {
                // an override where the service looks first; it may go again
                std::string at = p(.7) ? "$R/var/lib/swampd/config.json" : "$R/tmp/config.json";
                ev.back()["at"] = at;
                if (p(.5))
                {
                    double d = r.real(1000, 20000);
                    add(t + d, {{"k", "cfgdel"}, {"at", at}});
                    add(t + d + r.pick<double>({1, 400}), {{"k", "hup"}});
                }
            }
            add(t + r.pick<double>({1, 50, 500}), {{"k", "hup"}});
        }
        else if (k == "cfgbad")
        {
            if (dbus || noBad || t < 6000) return;
            noBad = true;
            double rd = r.real(2000, 14000);
            if (p(.12))
            {
                add(t, {{"k", "cfgopen"}, {"f", r.pick<std::string>({"eio", "emfile", "eacces"})}, {"dur", rd}});
                add(t + 5, {{"k", p(.7) ? "hup" : "kill"}});
                return;
            }
            if (p(.6))
            {
                json c = J;
                damage(c);
                sc["cfg"].push_back(c);
                add(t, {{"k", "cfg"}, {"i", (int)sc["cfg"].size() - 1}});
            }
            else if (p(.5))
            {
                std::string txt = r.pick<std::string>({"", "{", "{\"sensors\":[]}", "{\"sensors\":[],\"zones\":[]}", "[1,2]", "{\"sensors\":[{\"name\":\"a\"}],\"zones\":[{\"id\":1}]}", "not json"});
                sc["cfg"].push_back(txt);
                add(t, {{"k", "cfg"}, {"i", (int)sc["cfg"].size() - 1}});
            }
            else add(t, {{"k", "cfg"}, {"i", 0}, {"torn", r.range(0, 900)}});
            add(t + 5, {{"k", p(.7) ? "hup" : "kill"}});
            add(t + rd, {{"k", "cfg"}, {"i", 0}});
        }
        else if (k == "manual")
        {
            bool ip = p(.4);
            auto via = [&] { return ip ? "ipmi" : "dbus"; };
            add(t, {{"k", "manual"}, {"z", z}, {"b", true}, {"via", via()}});
            double x = t;
            int n = (int)r.range(0, 2);
            for (int i = 0; i < n; ++i)
            {
                // the operator drives the fans
                x += r.real(100, 2500);
                if (x > end) break;
                for (auto& fn : fans)
                    if (S[fn].zones.count(z) && !S[fn].wp.empty() && p(.7)) add(x, {{"k", "extwrite"}, {"p", S[fn].wp}, {"v", r.range(0, 255)}});
            }
            x += r.pick<double>({10, 200, 1500, 6000});
            if (p(.2)) ip = !ip;
            add(std::min(x, end), {{"k", "manual"}, {"z", z}, {"b", false}, {"via", via()}});
            if (p(.2)) add(std::min(x + r.real(1, 400), end), {{"k", "manual"}, {"z", z}, {"b", false}, {"via", via()}});
        }
        else if (k == "enable")
        {
            if (pids.empty()) return;
            auto& [zi, nm] = pids[r.below(pids.size())];
            add(t, {{"k", "enable"}, {"z", zi}, {"pid", nm}, {"b", false}});
            if (p(.8)) add(std::min(end, t + r.real(20, 9000)), {{"k", "enable"}, {"z", zi}, {"pid", nm}, {"b", true}});
        }
        else if (k == "get")
        {
            std::string zp = ZONEROOT + std::to_string(z);
            if (p(.7)) add(t, {{"k", "get"}, {"path", zp}, {"i", IF_MODE}, {"p", p(.5) ? "Manual" : "FailSafe"}});
            else if (!pids.empty())
            {
                auto& [zi, nm] = pids[r.below(pids.size())];
                add(t, {{"k", "get"}, {"path", ZONEROOT + std::to_string(zi) + "/" + nm}, {"i", p(.5) ? IF_DTP : IF_ENABLE}, {"p", ""}});
            }
        }
        else if (k == "ipmi")
        {
            json b = json::array();
            switch (r.below(5))
            {
                case 0: b = {0, z}; break;
                case 1: b = {2, z}; break;
                case 2: b = {1, z, (int)r.below(2)}; break;
                case 3: b = r.pick<json>({json::array({0}), json::array({1, z}), json::array({7, z}), json::array({255, z, 1}), json::array({3, z, 1, 1})}); break;
                case 4: b = {(int)r.below(3), (int)r.below(256), 0}; break;
            }
            if (b[0] == 1 && b.size() >= 3 && b[2] != 0) add(std::min(end, t + 2000), {{"k", "manual"}, {"z", z}, {"b", false}, {"via", "dbus"}});
            if (b[0] == 1 && b.size() >= 3) b[1] = z;
            add(t, {{"k", "ipmi"}, {"b", b}});
        }
        else if (k == "setfs") add(t, {{"k", "setfs"}, {"z", z}, {"b", p(.5)}});
        else if (k == "pwmfault")
        {
            if (pwmFiles.empty()) { emitEvent("err", t, end); return; }
            add(t, {{"k", "pwmfault"}, {"p", r.pick(pwmFiles)}, {"f", r.pick<std::string>({"emfile", "eio", "eisdir", "full"})}, {"dur", dur(100, 6000)}});
        }
        else if (k == "extwrite")
        {
            auto fn = r.pick(fans);
            // only a sysfs output is rewritten every cycle
            if (S[fn].wp[0] == '$') add(t, {{"k", "extwrite"}, {"p", S[fn].wp}, {"v", r.range(0, 255)}});
        }
        else if (k == "file")
        {
            auto s = pickTherm("sysfs");
            if (s.empty()) return;
            if (p(.5)) add(t, {{"k", "obj"}, {"s", s}, {"b", false}, {"dur", dur(500, 9000)}});
            else
            {
                add(t, {{"k", "freeze"}, {"s", s}, {"dur", dur(500, 6000)}});
                add(t + 1, {{"k", "file"}, {"p", S[s].rp}, {"c", r.pick<std::string>({"", "", "garbage\n", "\n", "-\n"})}});
            }
        }
        else if (k == "host")
        {
            if (!host) return;
            if (p(.15)) t = r.real(0, 30);
            add(t, {{"k", "host"}, {"st", p(.5) ? "Running" : r.pick<std::string>({"Off", "TransitioningToRunning", "TransitioningToOff", "Quiesced"})}});
            if (p(.5)) add(std::min(end, t + r.real(5, 6000)), {{"k", "host"}, {"st", p(.6) ? "Running" : "Off"}});
        }
        else if (k == "red")
        {
            if (!red) return;
            std::string o = sc.contains("redundancy2") && p(.5) ? "2" : "";
            auto& coll = sc["redundancy" + o]["coll"];
            // the daemon asks for the collection when it hears of the change
            if (p(.1)) { add(t, {{"k", "red"}, {"allowed", r.range(0, 3)}, {"coll", json::array()}, {"status", ""}, {"o", o}}); return; }
            if (p(.12)) add(t - 1, {{"k", "err"}, {"n", "xyz.openbmc_project.FanSensor"}, {"cnt", 1}, {"m", "Get"}});
            add(t, {{"k", "red"}, {"status", r.pick<std::string>({"Failed", "Failed", "Degraded"})}, {"coll", coll}, {"o", o}});
            if (p(.85)) add(std::min(end, t + r.real(50, 8000)), {{"k", "red"}, {"status", "Full"}, {"coll", coll}, {"o", o}});
        }
        else if (k == "base")
        {
            auto s = pickTherm("therm");
            if (s.empty()) return;
            auto& g = S[s];
            if (g.margin && p(.35))
            {
                // a margin around nothing left
                double x = t;
                for (double v : {3., 0., 0., .25, -.5, -.001, 1., -6.})
                    if (p(.5) && x < end) { add(x, {{"k", "val"}, {"s", s}, {"v", v}}); add(x, {{"k", "base"}, {"s", s}, {"v", v}}); x += r.real(300, 2500); }
                add(std::min(end, x), {{"k", "base"}, {"s", s}, {"v", g.base}});
                return;
            }
            if ((g.type == "power" || g.type == "powersum") && p(.2))
            {
                // a supply that feeds back
                add(t, {{"k", "base"}, {"s", s}, {"v", -q(20, 200, 5)}});
                add(std::min(end, t + r.real(1000, 9000)), {{"k", "base"}, {"s", s}, {"v", g.base}});
                return;
            }
            add(t, {{"k", "base"}, {"s", s}, {"v", g.base + (g.margin ? -1 : 1) * q(-10, 20, 1) * (g.type == "power" || g.type == "powersum" ? 8 : 1)}});
            if (p(.7)) add(std::min(end, t + r.real(1000, 12000)), {{"k", "base"}, {"s", s}, {"v", g.base}});
        }
        else if (k == "val")
        {
            auto s = pickTherm("");
            if (s.empty()) return;
            auto& g = S[s];
            int n = (int)r.range(1, 4);
            for (int i = 0; i < n; ++i) add(t + i * r.real(0, 3), {{"k", "val"}, {"s", s}, {"v", g.type == "fan" ? p(.25) ? r.pick<double>({0, .5, .001, 1, -1, -.25}) : q(0, 9000, 100) : q(g.base - 15, g.base + 25, .5)}});
        }
        else if (k == "other")
        {
            auto s = pickTherm("dbus");
            if (s.empty()) return;
            static const std::vector<std::array<std::string, 2>> o{{IF_VALUE, "MaxValue"}, {"xyz.openbmc_project.Association.Definitions", "Associations2"}, {"xyz.openbmc_project.Sensor.Threshold.HardShutdown", "HardShutdownAlarmHigh"}, {IF_CRIT, "CriticalHigh"}, {IF_WARN, "WarningLow"}, {IF_OPER, "Other"}, {IF_AVAIL, "Other"}, {"xyz.openbmc_project.Sensor.ValueMutability", "Value"}, {"xyz.openbmc_project.Sensor.Value.Extra", "Value"}, {"xyz.openbmc_project.Inventory.Item", "Available"}, {"xyz.openbmc_project.Inventory.Item", "Functional"}, {"xyz.openbmc_project.Sensor.Threshold.SoftShutdown", "CriticalAlarmHigh"}, {"xyz.openbmc_project.Sensor.Threshold.HardShutdown", "WarningAlarmHigh"}, {"xyz.openbmc_project.Association", "Value"}, {IF_VALUE, "MinValue"}};
            auto& x = r.pick(o);
            json v = x[1].find("Alarm") != std::string::npos ? json(true) : x[1] == "Functional" || x[1] == "Available" ? json(false) : x[1] == "Value" && p(.5) ? json("nan") : json(77.0);
            if (p(.2)) v = json(), add(t, {{"k", "other"}, {"s", s}, {"i", r.pick<const char*>({IF_VALUE, IF_CRIT, IF_WARN, IF_AVAIL, IF_OPER})}, {"p", ""}, {"v", 0}}); // nothing but invalidated properties
            if (v.is_null()) return;
            if (x[0] == IF_CRIT && !S[s].crit) return;
            if (x[0] == IF_WARN && !S[s].warn) return;
            add(t, {{"k", "other"}, {"s", s}, {"i", x[0]}, {"p", x[1]}, {"v", v}});
        }
        else if (k == "extset")
        {
            if (exts.empty()) return;
            auto s = r.pick(exts);
            json v = p(.15) ? json(r.pick<std::string>({"nan", "inf"})) : json(q(S[s].base - 10, S[s].base + 20, .5));
            int n = (int)r.range(1, 3);
            for (int i = 0; i < n; ++i) add(t + i * r.real(0, 5), {{"k", "extset"}, {"path", S[s].cfg["readPath"]}, {"v", v}});
        }
        else if (k == "tune")
        {
            std::string fn = p(.5) ? "/etc/thermal.d/setpoint" : "/etc/thermal.d/setpoint.zone" + std::to_string(z);
            if (p(.25)) add(t, {{"k", "file"}, {"p", "$R" + fn}, {"c", nullptr}});
            else add(t, {{"k", "file"}, {"p", "$R" + fn}, {"c", r.pick<std::string>({"3000\n", "2500\n", "101\n", "100\n", "50\n", "0\n", "12000\n", "garbage\n", "", "7000"})}});
        }
        else if (k == "profile")
        {
            if (!dbus || !sc.contains("profile")) return;
            json e{{"k", "profile"}, {"v", p(.5) ? "Acoustic" : "Performance"}};
            if (sc.contains("profile2") && p(.5)) e["o"] = "2";
            add(t, e);
        }
        else if (k == "assoc")
        {
            auto s = pickTherm("dbus");
            if (!s.empty()) add(t, {{"k", "assoc"}, {"s", s}, {"mapper", p(.3)}, {"both", p(.3)}});
        }
        else if (k == "emset")
        {
            if (!dbus) return;
            emEvent(t, end);
            if (p(.15)) emEvent(t + 2000 + r.real(20, 900), end); // just after the reload
        }
        else if (k == "emdmg")
        {
            if (!dbus) return;
            size_t i = r.below(sc["em"].size());
            auto& o = sc["em"][i];
            if (emDamaged.contains(o["path"])) return;
            json d = o["ifaces"];
            damageEm(d);
            if (p(.4))
            {
                // wrong from the start, until it is put right
                emDamaged[o["path"].get<std::string>()] = d;
                double x = r.real(1000, 14000);
                if (p(.85)) { add(x, {{"k", "emrep"}, {"path", o["path"]}, {"ifaces", o["ifaces"]}}); if (p(.6)) emEvent(x + r.real(1, 3000), end); }
                return;
            }
            double x = t + r.real(500, 14000);
            add(t, {{"k", "emrep"}, {"path", o["path"]}, {"ifaces", d}});
            if (p(.85)) emEvent(t + r.pick<double>({1, 300, 2500}), end);
            add(x, {{"k", "emrep"}, {"path", o["path"]}, {"ifaces", o["ifaces"]}});
            emEvent(x + r.pick<double>({1, 300, 2500}), end);
        }
        else if (k == "emobj")
        {
            if (!dbus) return;
            auto& o = sc["em"][r.below(sc["em"].size())];
            if (o["ifaces"].contains("xyz.openbmc_project.Configuration.Pid.Zone") && p(.7)) return;
            double d = dur(300, 15000);
            // the daemon follows property changes and sensors: something of
            // that kind comes with an object
            add(t, {{"k", "emobj"}, {"path", o["path"]}, {"b", false}, {"dur", d}});
            auto poke = [&](double x) {
                auto s = pickTherm("dbus");
                if (p(.5) && !s.empty()) add(x, {{"k", "obj"}, {"s", s}, {"b", false}, {"dur", (double)r.range(20, 900)}});
                else emEvent(x, end);
            };
            poke(t + r.pick<double>({-900, 1, 300, 2500}));
            if (p(.9)) poke(t + d + r.pick<double>({-500, 1, 400, 3000}));
        }
    }
    /* ---------------------------------------------- D-Bus inventory ------ */
    std::string pathOf(const std::string& nm) { return "/xyz/openbmc_project/inventory/system/board/Main/" + nm; }
    json r_pick() { return r.pick<json>({json::array({"Acoustic"}), json::array({"Performance"}), json::array({"Acoustic", "Performance"}), json::array({"Other"}), json::array({"Acoustic", "Other"}), json::array({"Other", "Performance"}), json::array()}); }
    void inventory();
    void damageEm(json& ifaces);
    void emEvent(double t, double end);

    json build(uint64_t seed)
    {
        sc["seed"] = seed;
        sc["focus"] = f.id;
        sched();
        machine();
        // (hundreds of slow calls would keep a large machine starting for minutes)
        if (big && sc["sched"].contains("slowP")) sc["sched"].erase("slowP");
        // run-time switches
        if (p(f.log)) { if (p(.5)) sc["log"] = true; else sc["files"]["$R/etc/thermal.d/logging"] = p(.7) ? "$R/log" : p(.5) ? "$R/nosuch" : ""; sc["logging"] = true; }
        if (p(f.core)) { if (p(.5)) sc["core"] = true; else sc["files"]["$R/etc/thermal.d/corelogging"] = ""; sc["coreLog"] = true; }
        if (p(f.tune)) { if (p(.5)) sc["tune"] = true; else sc["files"]["$R/etc/thermal.d/tuning"] = ""; sc["tuning"] = true; }
        if (p(.12)) sc["bundle"] = p(.6) ? 1 : 2;
        if (p(.04)) { debug = true; if (p(.5)) sc["debug"] = true; else sc["files"]["$R/etc/thermal.d/debugging"] = ""; }
        sc["variant"] = f.variants[r.below(f.variants.size())];
        if (dbus) inventory();
        else
        {
            sc["cfg"] = json::array({J});
            sc["cfgpath"] = p(.6) ? "$R/usr/share/swampd/config.json" : p(.5) ? "$R/var/lib/swampd/config.json" : "$R/etc/cfg.json";
        }
        // activity
        double start = 2500, end = (double)r.range(f.durMin, f.durMax) * 1000;
        int n = (int)r.range(f.evMin, f.evMax);
        // now and then a long life
        if (!big && p(.012)) { double k = r.real(3, 8); end *= k; n = (int)(n * k / 2); }
        std::vector<std::pair<std::string, double>> ws;
        double tot = 0;
        for (auto& [k, d] : defaultW)
        {
            double x = w(k);
            if (x > 0) { ws.push_back({k, x}); tot += x; }
        }
        // swarm: switch off part of the event kinds
        for (auto& [k, x] : ws)
            if (p(.3) && !f.w.count(k)) { tot -= x; x = 0; }
        double last = start;
        for (int i = 0; i < n; ++i)
        {
            double u = r.unit() * tot;
            std::string k;
            for (auto& [kk, x] : ws)
            {
                if (u < x) { k = kk; break; }
                u -= x;
            }
            if (k.empty()) continue;
            double t = p(.25) ? std::min(end, last + r.pick<double>(dbus ? std::vector<double>{0.5, 20, 120, 600, 1500, 1990, 2040, 2600} : std::vector<double>{0.5, 20, 120, 600, 1500})) : r.real(start, end);
            if (p(.04)) t = r.real(1, start);
            last = t;
            emitEvent(k, t, end);
        }
        if (dbus && f.id == "dbus-inventory" && p(.3))
        {
            // the last changes, the second around the time of the reload for the first
            emEvent(end, end);
            emEvent(end + 2000 + r.pick<double>({-200, 1, 4, 20, 100, 400, 900}), end);
        }
        std::stable_sort(ev.begin(), ev.end(), [](const json& a, const json& b) { return a["t"].get<double>() < b["t"].get<double>(); });
        int restarts = 0;
        json ev2 = json::array();
        double fin = end;
        bool reload = false;
        double hang = 0;
        for (auto& e : ev)
        {
            std::string k = e["k"];
            if (k == "kill" || k == "term") { if (++restarts > 3) continue; }
            if (k == "hup" || k == "kill" || k == "term" || k == "cfg" || k == "cfgdel" || k == "cfgopen" || k == "emset" || k == "emrep" || k == "emobj" || k == "profile" || k == "obj" || k == "svc") reload = true;
            if (k == "hang") { reload = true; hang += 30000; }
            fin = std::max(fin, e["t"].get<double>() + e.value("dur", 0.0));
            ev2.push_back(e);
        }
        sc["ev"] = ev2;
        if (dbus && !emDamaged.is_null())
            for (auto& o : sc["em"])
                if (emDamaged.contains(o["path"])) o["ifaces"] = emDamaged[o["path"].get<std::string>()];
        sc["dur"] = fin + (reload ? 48000 : f.quietMin * 1000) + std::min(hang, 60000.0) * 1.2;
        return sc;
    }
};
constexpr auto CFG = "xyz.openbmc_project.Configuration.";
void Gen::inventory()
{
    // numbers may be published as integers
    auto num = [&](const json& v) -> json {
        double d = v.get<double>();
        if (d == std::floor(d) && std::fabs(d) < 1e9 && p(.3)) return (int64_t)d;
        return d;
    };
    auto spell = [&](std::string n) {
        bool sp = p(.5);
        for (auto& c : n) if (c == '_' && sp) c = ' ';
        return n;
    };
    // inputs may be given as patterns
    auto pattern = [&](json& c) {
        if (sc.contains("logging") || sc.contains("coreLog") || (sc["variant"].get<int>() & 8) || c["Class"] == "fan" || c.contains("TempToMargin") || c.contains("SetPointOffset") || c.contains("MissingIsAcceptable") || !p(.2)) return;
        auto& in = c["Inputs"];
        if (in.size() > 1 && p(.8))
        {
            std::string x = "(" + in[0].get<std::string>() + "|" + in[1].get<std::string>() + ")";
            in.erase(0);
            in[0] = x;
        }
        else
        {
            std::string x = in.back();
            in.back() = x.substr(0, x.size() - 1) + "[" + x.back() + "]";
        }
    };
    bool prof = p(f.id == "dbus-inventory" ? .6 : .2);
    if (prof) sc["profile"] = p(.5) ? "Acoustic" : "Performance";
    if (prof && p(.3)) sc["profile2"] = p(.4) ? "Other" : p(.5) ? "Acoustic" : "Performance";
    else if (p(.3)) sc["profile"] = "Performance"; // nothing depends on it
    // loops that share a sensor agree on how its unavailability counts
    std::map<std::string, std::string> root;
    std::function<std::string(const std::string&)> find = [&](const std::string& a) { return !root.count(a) || root[a] == a ? a : find(root[a]); };
    for (auto& z : J["zones"])
        for (auto& q : z["pids"])
            for (auto& i : q["inputs"]) root[find(i)] = find(q["inputs"][0]);
    std::map<std::string, std::pair<bool, bool>> fl;
    json em = json::array();
    std::map<std::string, int> uses;
    for (auto& z : J["zones"])
        for (auto& q : z["pids"])
            for (auto& i : q["inputs"]) uses[i]++;
    size_t zi = 0;
    for (auto& z : J["zones"])
    {
        std::string zn = "Zone " + std::to_string(++zi), id = std::to_string(z["id"].get<int>());
        json d;
        d["Name"] = zn;
        d["Type"] = "Pid.Zone";
        if (z["id"] != 0 || p(.7)) d["ZoneIndex"] = num(z["id"]); // without: the first number that is free
        d["MinThermalOutput"] = num(z["minThermalOutput"]);
        d["FailSafePercent"] = num(z["failsafePercent"]);
        auto interval = [&](const char* k, int64_t v, int64_t dflt) {
            if (v != dflt || p(.5)) d[k] = num(json(v));
            else if (p(.5)) d[k] = p(.5) ? 0.0 : -(double)r.range(1, 2000);
        };
        interval("CycleIntervalTimeMS", z["cycleIntervalTimeMS"], 100);
        interval("UpdateThermalsTimeMS", z["updateThermalsTimeMS"], 1000);
        if (z.contains("accumulateSetPoint") || p(.2)) d["AccumulateSetPoint"] = z.value("accumulateSetPoint", false);
        em.push_back({{"path", pathOf("Zone_" + id)}, {"ifaces", {{std::string(CFG) + "Pid.Zone", d}}}});
        for (auto& q : z["pids"])
        {
            json c;
            std::string nm = q["name"], type = q["type"];
            const json& b = q["pid"];
            bool step = type == "stepwise";
            c["Name"] = spell(nm);
            c["Zones"] = json::array({zn});
            if (!step && type != "fan" && J["zones"].size() > 1 && !sc.contains("coreLog") && p(.08))
            {
                // the same loop in another zone, too
                auto& o = J["zones"][zi % J["zones"].size()];
                c["Zones"].push_back("Zone " + std::to_string(zi % J["zones"].size() + 1));
                pids.push_back({o["id"].get<int>(), nm});
            }
            std::map<std::string, std::string> as;
            c["Inputs"] = json::array();
            for (auto& i : q["inputs"]) c["Inputs"].push_back(as[i] = spell(i));
            if (q.contains("missingIsAcceptable"))
                for (auto& i : q["missingIsAcceptable"]) c["MissingIsAcceptable"].push_back(as[i]);
            if (type == "fan")
            {
                std::vector<std::string> o;
                for (auto& i : q["inputs"])
                {
                    std::string wp = S[i].wp;
                    o.push_back(wp.substr(wp.rfind('/') + 1));
                }
                if (o.size() > 1 && p(.3))
                {
                    // one output for all of them
                    for (auto& i : q["inputs"]) for (auto& w : sc["sensors"]) if (w["name"] == i) w["follow"] = S[q["inputs"][0]].wp;
                    o.resize(1);
                }
                c["Outputs"] = json::array();
                for (auto& x : o) c["Outputs"].push_back(spell(x));
            }
            else
            {
                std::string r = find(q["inputs"][0]);
                if (!fl.count(r)) fl[r] = {p(f.unavailNF) ? p(.2) : true, p(f.hostOffOk)};
                if (!fl[r].first || p(.3)) c["InputUnavailableAsFailed"] = fl[r].first;
                if (fl[r].second || p(.2)) c["IgnoreFailIfHostOff"] = fl[r].second;
                if (prof && p(.45)) c["Profiles"] = r_pick();
            }
            if (q.contains("tempToMargin"))
            {
                json t = json::array();
                for (auto& x : q["tempToMargin"]) t.push_back(x.get<double>());
                c["TempToMargin"] = t;
            }
            if (b.contains("positiveHysteresis")) c["PositiveHysteresis"] = num(b["positiveHysteresis"]);
            if (b.contains("negativeHysteresis")) c["NegativeHysteresis"] = num(b["negativeHysteresis"]);
            if (step)
            {
                c["Class"] = b["isCeiling"].get<bool>() ? "Ceiling" : "Floor";
                json rd = json::array(), out = json::array();
                for (size_t i = 0; i < b["reading"].size(); ++i) { rd.push_back(b["reading"][std::to_string(i)].get<double>()); out.push_back(b["output"][std::to_string(i)].get<double>()); }
                c["Reading"] = rd;
                c["Output"] = out;
                pattern(c);
                em.push_back({{"path", pathOf(nm)}, {"ifaces", {{std::string(CFG) + "Stepwise", c}}}});
                continue;
            }
            c["Class"] = type;
            c["SetPoint"] = num(q["setpoint"]);
            if (q.contains("FailSafePercent")) c["FailSafePercent"] = num(q["FailSafePercent"]);
            const std::map<std::string, std::string> k{{"PCoefficient", "proportionalCoeff"}, {"ICoefficient", "integralCoeff"}, {"FFOffCoefficient", "feedFwdOffsetCoeff"}, {"FFGainCoefficient", "feedFwdGainCoeff"}, {"ILimitMax", "integralLimit_max"}, {"ILimitMin", "integralLimit_min"}, {"OutLimitMax", "outLim_max"}, {"OutLimitMin", "outLim_min"}, {"SlewNeg", "slewNeg"}, {"SlewPos", "slewPos"}};
            for (auto& [a, o] : k) c[a] = num(b[o]);
            if (b.contains("derivativeCoeff")) c["DCoefficient"] = num(b["derivativeCoeff"]);
            if (b.contains("checkHysteresisWithSetpoint")) c["CheckHysteresisWithSetpoint"] = b["checkHysteresisWithSetpoint"];
            if (type == "temp" && !z.contains("accumulateSetPoint") && !q.contains("missingIsAcceptable") && p(.5))
            {
                // relative to a threshold, when every input has one of its own
                bool ok = true;
                for (auto& i : q["inputs"]) ok &= S[i].crit && uses[i] == 1;
                if (ok && c["Zones"].size() == 1)
                {
                    std::string kind = "CriticalHigh";
                    bool warn = true, low = true;
                    for (auto& i : q["inputs"]) { warn &= S[i].warn; low &= S[i].world["crit"].contains("low"); }
                    if (warn && p(.4)) kind = p(.7) ? "WarningHigh" : "WarningLow";
                    else if (low && p(.2)) kind = "CriticalLow";
                    c["SetPointOffset"] = kind;
                    bool hi = kind.find("High") != std::string::npos;
                    c["SetPoint"] = hi ? -(double)r.range(5, 40) : (double)r.range(15, 50);
                    pids.erase(std::remove(pids.begin(), pids.end(), std::make_pair(z["id"].get<int>(), nm)), pids.end());
                    for (auto& i : q["inputs"]) pids.push_back({z["id"].get<int>(), i});
                }
            }
            pattern(c);
            em.push_back({{"path", pathOf(nm)}, {"ifaces", {{std::string(CFG) + "Pid", c}}}});
        }
    }
    std::shuffle(em.begin(), em.end(), std::mt19937_64(r.below(1 << 30)));
    sc["em"] = em;
    sc["emmgr"] = p(.7) ? "/xyz/openbmc_project/inventory" : "/";
}
void Gen::damageEm(json& ifaces)
{
    auto it = ifaces.begin();
    json& c = it.value();
    std::string ifn = it.key();
    if (ifn == std::string(CFG) + "Pid.Zone")
    {
        switch (r.below(3))
        {
            case 0: c.erase("MinThermalOutput"); break;
            case 1: c["MinThermalOutput"] = "x"; break;
            case 2: c[p(.5) ? "FailSafePercent" : "CycleIntervalTimeMS"] = "x"; break;
        }
    }
    else if (p(.1)) c["Zones"] = json::array({"Nowhere"});
    else if (p(.1)) c.erase(p(.5) ? "Zones" : "Inputs");
    else if (p(.05)) c.erase("Name");
    else if (ifn == std::string(CFG) + "Stepwise")
    {
        json& o = c["Output"];
        switch (r.below(4))
        {
            case 0: o.erase(o.size() - 1); if (o.empty()) { o = json::array({1., 2.}); } break;
            case 1: o.push_back(50.); break;
            case 2: c.erase(p(.5) ? "Output" : "Reading"); break;
            case 3: while (o.size() < 21) o.push_back(50.); c["Reading"] = o; break;
        }
    }
    else if (c["Class"] == "fan" && p(.5))
    {
        if (p(.5)) c.erase("Outputs");
        else c["Outputs"] = json::array({"Nothing"});
    }
    else
    {
        std::string k = r.pick<std::string>({"PCoefficient", "ICoefficient", "FFOffCoefficient", "FFGainCoefficient", "ILimitMax", "ILimitMin", "OutLimitMax", "OutLimitMin", "SlewNeg", "SlewPos", "Class", "SetPoint", "SetPointOffset"});
        if (c["Class"] == "fan" && k[0] == 'S' && k[1] == 'e') k = "SlewNeg";
        if (k == "SetPointOffset") c[k] = r.pick<std::string>({"CriticalAlarmHigh", "Critical", "HardShutdownHigh", "criticalhigh"});
        else if (p(.6) || k == "Class") c.erase(k);
        else c[k] = r.pick<json>({json("x"), json::array({"a"})});
    }
}
void Gen::emEvent(double t, double end)
{
    auto& o = sc["em"][r.below(sc["em"].size())];
    std::string ifn = o["ifaces"].begin().key();
    const json& c = o["ifaces"][ifn];
    json ch;
    auto bump = [&](const char* k, double a, double b) { ch[k] = (k[0] == 'C' ? std::max(10., c.value(k, 100.)) : c[k].get<double>()) + std::round(r.real(a, b)); };
    if (ifn == std::string(CFG) + "Pid.Zone")
    {
        switch (r.below(4))
        {
            case 0: ch["FailSafePercent"] = pct(30, 99).get<double>(); break;
            case 1: bump("MinThermalOutput", 1, 20); break;
            case 2: bump("CycleIntervalTimeMS", 1, 4); break;
            case 3: ch["UpdateThermalsTimeMS"] = p(.3) ? 0.0 : std::max(10., c.value("UpdateThermalsTimeMS", 1000.)) + (double)r.range(1, 50); break;
        }
    }
    else if (ifn == std::string(CFG) + "Stepwise")
    {
        json out = json::array();
        for (auto& x : c["Output"]) out.push_back(x.get<double>() + 1);
        if (p(.6)) ch["Output"] = out;
        else ch["PositiveHysteresis"] = q_2(0, 4);
    }
    else if (c["Class"] == "fan")
    {
        if (p(.5)) ch["OutLimitMax"] = (double)r.range(60, 100);
        else ch["FFOffCoefficient"] = (double)r.range(-3, 8);
    }
    else
        switch (r.below(3))
        {
            case 0: bump("SetPoint", -4, 4); break;
            case 1: ch["FailSafePercent"] = pct(0, 99).get<double>(); break;
            case 2: if (c.contains("Profiles")) ch["Profiles"] = r_pick(); else bump("OutLimitMin", 0, 5); break;
        }
    add(t, {{"k", "emset"}, {"path", o["path"]}, {"i", ifn}, {"props", ch}});
    (void)end;
}
} // namespace

json genScenario(uint64_t seed, const Focus& f)
{
    Gen g(seed * 1000003 + std::hash<std::string>()(f.id), f);
    return g.build(seed);
}
} // namespace sim
