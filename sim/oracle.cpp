// The reference model: what the daemon must do, computed from the same
// messages, files and clocks, and compared at every handler boundary.
#include "oracle.hpp"

#include <regex>
#include <algorithm>
#include <cstdarg>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <sys/stat.h>

namespace sim
{
bool near(double a, double b, double rel)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= rel * std::max({1.0, std::fabs(a), std::fabs(b)});
}
void Oracle::fail(const std::string& what, const char* fmt, ...)
{
    // what the zones do under a configuration that was loaded while running
    std::string tag = what;
    if (w.sc.value("focus", std::string()) == "reload" && builds > buildsAtStart + 1)
        for (auto* p : {"pwm.", "tp.", "leader", "fs.", "cadence"})
            if (what.rfind(p, 0) == 0 && what != "pwm.unexpected") tag = "reload.effect." + what;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    K->tracef("VIOL %s %s", tag.c_str(), buf);
    if (violCount[tag]++ < 3) viol.push_back({tag, buf, K->now - 100 * SEC});
}

/* --------------------------------------------------- configuration ------- */
static void conv(const json& j, const char* k, int64_t& o) { if (j.contains(k)) o = j.at(k).get<int64_t>(); }
static void conv(const json& j, const char* k, double& o) { if (j.contains(k)) o = j.at(k).get<double>(); }
static void conv(const json& j, const char* k, bool& o) { if (j.contains(k)) o = j.at(k).get<bool>(); }
// "**" stands for the one directory there
static std::string realPath(std::string p)
{
    if (auto n = p.find("**"); n != std::string::npos) p.replace(n, 2, "hwmon7");
    return p;
}
MCfg parseJsonCfg(const json& j)
{
    MCfg c;
    // what the service has to refuse, besides the keys that are not there or of the wrong type
    auto need = [](bool b, const char* what) { if (!b) throw std::runtime_error(what); };
    need(j.is_object() && j.at("sensors").size() > 0, "no sensors");
    for (auto& s : j.at("sensors"))
    {
        MSensorCfg x;
        x.name = s.at("name").get<std::string>();
        x.type = s.at("type").get<std::string>();
        x.readPath = realPath(s.at("readPath").get<std::string>());
        x.writePath = realPath(s.value("writePath", std::string()));
        x.timeout = x.type == "fan" ? 0 : 2;
        conv(s, "timeout", x.timeout);
        conv(s, "ignoreDbusMinMax", x.ignoreMinMax);
        conv(s, "unavailableAsFailed", x.unavailAsFailed);
        conv(s, "ignoreFailIfHostOff", x.ignoreHostOff);
        if (x.type == "fan")
        {
            conv(s, "min", x.min);
            conv(s, "max", x.max);
        }
        c.sensors[x.name] = x;
    }
    for (auto& z : j.at("zones"))
    {
        MZoneCfg zc;
        zc.id = z.at("id").get<int64_t>();
        zc.minThermal = z.at("minThermalOutput").get<double>();
        zc.fsp = z.at("failsafePercent").get<double>();
        int64_t v = 0;
        conv(z, "cycleIntervalTimeMS", v);
        if (v >= 1) zc.cycle = v;
        v = 0;
        conv(z, "updateThermalsTimeMS", v);
        if (v >= 1) zc.thermal = v;
        conv(z, "accumulateSetPoint", zc.acc);
        need(z.at("pids").size() > 0, "no loops");
        for (auto& p : z.at("pids"))
        {
            MPid m;
            m.name = p.at("name").get<std::string>();
            m.type = p.at("type").get<std::string>();
            m.setpoint = p.at("setpoint").get<double>();
            size_t i = 0;
            std::set<std::string> miss;
            need(p.at("inputs").is_array() && p.at("inputs").size() > 0, "no inputs");
            for (auto* l : {"tempToMargin", "missingIsAcceptable"}) need(!p.contains(l) || p[l].is_array(), l);
            if (p.contains("missingIsAcceptable"))
                for (auto& n : p["missingIsAcceptable"]) miss.insert(n.get<std::string>());
            for (auto& n : p.at("inputs"))
            {
                MInput in;
                in.name = n.get<std::string>();
                if (p.contains("tempToMargin") && i < p["tempToMargin"].size())
                {
                    in.conv = true;
                    in.zero = p["tempToMargin"][i].get<double>();
                }
                in.missingOk = miss.count(in.name) > 0;
                need(c.sensors.count(in.name), "unknown input");
                m.in.push_back(in);
                ++i;
            }
            if (p.contains("FailSafePercent")) m.fsp = p["FailSafePercent"].get<double>();
            auto& q = p.at("pid");
            m.ts = q.at("samplePeriod").get<double>();
            conv(q, "positiveHysteresis", m.hpos);
            conv(q, "negativeHysteresis", m.hneg);
            conv(q, "checkHysteresisWithSetpoint", m.hset);
            if (m.type != "stepwise")
            {
                m.kp = q.at("proportionalCoeff");
                m.ki = q.at("integralCoeff");
                conv(q, "derivativeCoeff", m.kd);
                m.ffo = q.at("feedFwdOffsetCoeff");
                m.ffg = q.at("feedFwdGainCoeff");
                m.imin = q.at("integralLimit_min");
                m.imax = q.at("integralLimit_max");
                m.omin = q.at("outLim_min");
                m.omax = q.at("outLim_max");
                m.sneg = q.at("slewNeg");
                m.spos = q.at("slewPos");
            }
            else
            {
                m.ceiling = q.at("isCeiling").get<bool>();
                for (size_t k = 0; k < 20; ++k)
                {
                    std::string ks = std::to_string(k);
                    if (q.contains("reading") && q["reading"].contains(ks)) m.rd[k] = q["reading"][ks];
                    if (q.contains("output") && q["output"].contains(ks)) m.out[k] = q["output"][ks];
                }
                for (size_t k = 0; k < 20 && (k == 0 || !std::isnan(m.rd[k])); ++k) need(!std::isnan(m.rd[k]) && !std::isnan(m.out[k]), "a point of the curve is missing");
            }
            zc.pids[m.name] = m;
        }
        c.zones[zc.id] = zc;
    }
    return c;
}

/* ----------------------------------------------------------- sensors ----- */
static const double ANYLOG = -987654321.0; // log value that is not determined
static const Val* entry(const Val& dict, const std::string& k)
{
    for (auto& e : dict.c)
        if (e.c.size() == 2 && e.c[0].s == k)
        {
            const Val* v = &e.c[1];
            while (v->t == 'v') v = &v->c[0];
            return v;
        }
    return nullptr;
}
static double num(const Val& v) { return v.t == 'd' ? v.d : (double)v.i; }
static Val propsVal(const Props& p)
{
    Val d = Val::array("a{sv}");
    for (auto& [k, v] : p) d.c.push_back(Val::entry(Val::str(k), Val::var(v)));
    return d;
}
void Oracle::update(MSensor& s, double value, bool force, int64_t lo, int64_t hi)
{
    s.bad = false;
    if (!std::isfinite(value))
    {
        s.bad = true;
        if (!force) return;
    }
    value *= std::pow(10.0, s.scale);
    s.raw = value;
    s.v = value;
    if (s.max > 0 && s.max > s.min) s.v = (value - s.min) / (s.max - s.min);
    if (s.c.type == "margin") s.hot = s.raw <= 0.0;
    s.updLo = lo;
    s.updHi = hi;
}
void Oracle::applyProps(MSensor& s, const std::string& iface, const Val& d, int64_t lo, int64_t hi)
{
    if (iface == IF_VALUE)
    {
        if (auto* v = entry(d, "Value")) update(s, num(*v), false, lo, hi);
    }
    else if (iface == IF_CRIT)
    {
        for (auto* n : {"CriticalAlarmLow", "CriticalAlarmHigh"})
            if (auto* v = entry(d, n)) { s.alarms[n] = v->i; s.alarmUnk = false; }
    }
    else if (iface == IF_WARN && unc())
    {
        if (auto* v = entry(d, "WarningAlarmHigh")) { s.alarms["WarningAlarmHigh"] = v->i; s.alarmUnk = false; }
    }
    else if (iface == IF_AVAIL)
    {
        if (auto* v = entry(d, "Available"))
        {
            s.avail = v->i;
            s.over = true;
            if (!s.avail) update(s, NaN, true, lo, hi);
        }
    }
    else if (iface == IF_OPER)
    {
        if (auto* v = entry(d, "Functional")) s.func = v->i;
    }
}
void Oracle::applySignal(const MsgP& m, int64_t lo, int64_t hi)
{
    if (m->member != "PropertiesChanged" || m->args.size() < 2) return;
    const std::string& ifn = m->args[0].s;
    if (ifn == IF_HOST && m->path == "/xyz/openbmc_project/state/host0")
    {
        if (auto* v = entry(m->args[1], "CurrentHostState")) hostOn = v->s.ends_with(".Running") ? YES : NO;
        return;
    }
    for (auto& [n, s] : sensors)
        if (s.kind == K_PASSIVE && s.c.readPath == m->path) applyProps(s, ifn, m->args[1], lo, hi);
}
Tri Oracle::failed(const MSensor& s, std::string& why) const
{
    auto core = [&]() -> Tri {
        if (s.kind == K_EXT)
        {
            if (std::isfinite(s.v)) return NO;
            why = "bad";
            return YES;
        }
        if (s.kind != K_PASSIVE) return NO;
        if (s.isFan() && redFailed.count(s.c.readPath)) { why = "redundancy"; return YES; }
        if (s.missing) { why = "missing"; return YES; }
        if (!s.isFan() && !s.avail && !s.c.unavailAsFailed) return NO;
        if (s.bad) { why = "bad"; return YES; }
        if (s.hot) { why = "margin"; return YES; }
        if (s.alarm() && !s.alarmUnk) { why = "alarm"; return YES; }
        if (!s.avail) { why = "unavailable"; return YES; }
        if (!s.func) { why = "nonfunctional"; return YES; }
        if (s.alarmUnk) { why = "alarm"; return UNK; }
        return NO;
    };
    Tri t = core();
    if (t != NO && s.c.ignoreHostOff)
    {
        if (hostOn == NO) return NO;
        if (hostOn == UNK) return UNK;
    }
    return t;
}
void Oracle::readSysfs(MSensor& s, int64_t lo, int64_t hi)
{
    auto it = fileAtBegin.find(s.c.readPath);
    bool ok = false;
    double v = NaN;
    if (it != fileAtBegin.end() && it->second.first)
    {
        const char* p = it->second.second.c_str();
        char* e = nullptr;
        long long x = strtoll(p, &e, 10);
        if (e != p) { ok = true; v = (double)x; }
    }
    s.v = v;
    s.raw = v;
    if (ok) { s.updLo = lo; s.updHi = hi; }
}
void Oracle::initSensor(MSensor& s, HandlerInfo& h)
{
    const auto& rp = s.c.readPath;
    if (rp.find("/extsensors/") != std::string::npos) s.kind = K_EXT;
    else if (rp.find("/xyz/openbmc_project/") != std::string::npos) s.kind = K_PASSIVE;
    else if (rp.find("/sys/") != std::string::npos) s.kind = K_SYSFS;
    if (s.isFan() && s.c.writePath.find("/sys/") != std::string::npos) s.wkind = 1;
    else if (s.isFan() && s.c.writePath.find("/xyz/openbmc_project/") != std::string::npos) s.wkind = 2;
    if (s.kind == K_EXT)
    {
        s.v = s.raw = 0;
        s.updLo = h.wallBegin;
        s.updHi = h.wallFnEnd;
        if (lastWallJump >= h.begin) { s.updLo = 0; s.updHi = h.wallFnEnd; } // ambiguous clock
        return;
    }
    if (s.kind == K_SYSFS) { s.updLo = s.updHi = 0; return; }
    if (s.kind != K_PASSIVE) return;

    auto find = [&](const char* member, const std::string& path, const std::string& ifn, int64_t* nextAt) -> const std::pair<MsgP, MsgP>* {
        const std::pair<MsgP, MsgP>* r = nullptr;
        for (size_t i = 0; i < h.calls.size(); ++i)
        {
            auto& [q, p] = h.calls[i];
            if (q->member != member || q->path != path || q->args.empty() || q->args[0].s != ifn) continue;
            r = &h.calls[i];
            if (nextAt)
            {
                // the reading is stored some time after the last query for this sensor
                size_t l = i;
                while (l + 1 < h.calls.size() && h.calls[l + 1].first->path == path) ++l;
                *nextAt = l + 1 < h.calls.size() && h.calls[l + 1].first->sentAt ? h.calls[l + 1].first->sentAt : h.fnEnd;
            }
        }
        return r;
    };
    // existence
    bool exists = true, lookedUp = false;
    for (auto& [q, p] : h.calls)
        if (q->member == "GetObject" && !q->args.empty() && q->args[0].s == rp)
        {
            bool forValue = false;
            if (q->args.size() > 1)
                for (auto& x : q->args[1].c) forValue |= x.s == IF_VALUE;
            if (!forValue) continue;
            lookedUp = true;
            exists = p->type == Msg::Reply;
        }
    if (!lookedUp) exists = w.tree.count(rp) && w.tree.at(rp).ifaces.count(IF_VALUE);
    initSent[rp] = h.begin;
    if (!exists)
    {
        s.missing = true;
        s.avail = false;
        s.c.unavailAsFailed = true;
        s.updLo = h.wallBegin;
        s.updHi = h.wallFnEnd;
        s.bad = true;
        for (auto& [q, p] : h.calls)
            if (q->member == "GetObject" && !q->args.empty() && q->args[0].s == rp && p->sentAt) initSent[rp] = p->sentAt;
        return;
    }
    auto treeProps = [&](const char* ifn) -> Val {
        auto t = w.tree.find(rp);
        if (t == w.tree.end() || !t->second.ifaces.count(ifn)) return Val::array("a{sv}");
        return propsVal(t->second.ifaces.at(ifn));
    };
    int64_t next = h.fnEnd;
    Val props;
    int64_t vAt = h.begin;
    if (auto* c = find("GetAll", rp, IF_VALUE, &next); c && c->second->type == Msg::Reply)
    {
        props = c->second->args[0];
        vAt = c->second->sentAt;
    }
    else props = treeProps(IF_VALUE);
    initSent[rp] = vAt;
    if (auto* v = entry(props, "Scale")) s.scale = (int)v->i;
    if (!s.c.ignoreMinMax)
    {
        if (auto* v = entry(props, "MinValue")) s.min = num(*v) * std::pow(10.0, s.scale);
        if (auto* v = entry(props, "MaxValue")) s.max = num(*v) * std::pow(10.0, s.scale);
    }
    // availability
    if (auto* c = find("Get", rp, IF_AVAIL, nullptr))
    {
        if (c->second->type == Msg::Reply)
        {
            const Val* v = &c->second->args[0];
            while (v->t == 'v') v = &v->c[0];
            s.avail = v->i;
        }
    }
    else if (auto t = treeProps(IF_AVAIL); entry(t, "Available")) s.avail = entry(t, "Available")->i;
    // functional
    if (auto* c = find("Get", rp, IF_OPER, nullptr))
    {
        if (c->second->type == Msg::Reply)
        {
            const Val* v = &c->second->args[0];
            while (v->t == 'v') v = &v->c[0];
            s.func = v->i;
        }
    }
    else if (auto* c = find("GetAll", rp, IF_OPER, nullptr); c && c->second->type == Msg::Reply)
    {
        if (auto* v = entry(c->second->args[0], "Functional")) s.func = v->i;
    }
    else if (auto t = treeProps(IF_OPER); entry(t, "Functional")) s.func = entry(t, "Functional")->i;
    // thresholds
    auto alarms = [&](const char* ifn, std::vector<const char*> names) {
        Val d;
        auto* c = find("GetAll", rp, ifn, nullptr);
        if (c && c->second->type == Msg::Reply) d = c->second->args[0];
        else
        {
            d = treeProps(ifn);
            if (c && !d.c.empty()) s.alarmUnk = true; // the query failed although the interface exists
        }
        for (auto* n : names)
            if (auto* v = entry(d, n)) s.alarms[n] = v->i;
    };
    alarms(IF_CRIT, {"CriticalAlarmLow", "CriticalAlarmHigh"});
    if (unc()) alarms(IF_WARN, {"WarningAlarmHigh"});
    int64_t off = K->wallOff;
    auto* v = entry(props, "Value");
    update(s, v ? num(*v) : 0, true, vAt + off, next + off + MS);
    if (lastWallJump >= h.begin) { s.updLo = 0; s.updHi = h.wallFnEnd; } // ambiguous clock
}
void Oracle::hostFromCalls(const std::vector<std::pair<MsgP, MsgP>>& calls)
{
    for (auto& [q, p] : calls)
        if (q->member == "Get" && q->args.size() > 1 && q->args[0].s == IF_HOST)
        {
            if (p->type == Msg::Reply)
            {
                const Val* v = &p->args[0];
                while (v->t == 'v') v = &v->c[0];
                hostOn = v->s.ends_with(".Running") ? YES : NO;
            }
            else hostOn = w.tree.count("/xyz/openbmc_project/state/host0") ? UNK : NO;
            hostInitSent = p->sentAt ? p->sentAt : K->now;
        }
}
void Oracle::redSum()
{
    redFailed.clear();
    for (auto& [_, s] : redBy) redFailed.insert(s.begin(), s.end());
}
void Oracle::redFromCalls(HandlerInfo& h)
{
    // initial population (once per process) and refreshes after a signal
    for (auto& [q, p] : h.calls)
    {
        // every object the mapper names has to be looked at
        if (q->member == "GetSubTree" && p->type == Msg::Reply && q->args.size() > 2 && !p->args.empty())
        {
            bool mine = false;
            for (auto& x : q->args[2].c) mine |= x.s == IF_RED;
            if (!mine) continue;
            for (auto& e : p->args[0].c)
            {
                const std::string& path = e.c[0].s;
                bool asked = false;
                for (auto& [q2, p2] : h.calls) asked |= q2->path == path && !q2->args.empty() && q2->args[0].s == IF_RED;
                auto t = w.tree.find(path);
                if (asked || t == w.tree.end() || !t->second.ifaces.count(IF_RED)) continue;
                auto& pr = t->second.ifaces[IF_RED];
                auto& by = redBy[path];
                by.clear();
                if (pr["Status"].s.find("Failed") != std::string::npos)
                    for (auto& x : pr["Collection"].c) by.insert(x.s);
                redSum();
            }
        }
        if (p->type != Msg::Reply || q->args.empty() || q->args[0].s != IF_RED) continue;
        if (q->member == "GetAll")
        {
            auto* st = entry(p->args[0], "Status");
            auto* co = entry(p->args[0], "Collection");
            if (st && co && st->s.find("Failed") != std::string::npos)
            {
                auto& by = redBy[q->path];
                by.clear();
                for (auto& x : co->c) by.insert(x.s);
                redSum();
            }
        }
    }
    if (h.kind == OpKind::Bus && h.msg && h.msg->type == Msg::Signal && h.msg->args.size() > 1 && h.msg->args[0].s == IF_RED)
    {
        auto* st = entry(h.msg->args[1], "Status");
        if (!st) return;
        std::vector<std::string> coll;
        bool asked = false, got = false;
        for (auto& [q, p] : h.calls)
            if (!q->args.empty() && q->args[0].s == IF_RED)
            {
                asked = true;
                if (p->type != Msg::Reply) continue;
                const Val* v = &p->args[0];
                while (v->t == 'v') v = &v->c[0];
                if (q->member == "GetAll") v = entry(p->args[0], "Collection");
                if (!v) continue;
                got = true;
                for (auto& x : v->c) coll.push_back(x.s);
            }
        if (!asked && w.tree.count(h.msg->path))
        {
            got = true;
            for (auto& x : w.tree[h.msg->path].ifaces[IF_RED]["Collection"].c) coll.push_back(x.s);
        }
        if (!got) return;
        auto& by = redBy[h.msg->path];
        by.clear();
        if (st->s.find("Failed") != std::string::npos) by.insert(coll.begin(), coll.end());
        redSum();
    }
}
void Oracle::requery(HandlerInfo& h)
{
    if (h.kind != OpKind::Bus) return;
    for (auto& [q, p] : h.calls)
    {
        if (q->member != "GetAll" || q->args.empty()) continue;
        if (q->args[0].s != IF_CRIT && q->args[0].s != IF_WARN) continue;
        for (auto& [n, s] : sensors)
            if (s.kind == K_PASSIVE && s.c.readPath == q->path)
            {
                if (p->type == Msg::Reply) applyProps(s, q->args[0].s, p->args[0], 0, 0);
                else if (w.tree.count(q->path) && w.tree[q->path].ifaces.count(q->args[0].s)) s.alarmUnk = true;
            }
    }
}

/* ------------------------------------------------------------- zones ----- */
void Oracle::mark(MZone& z, const std::string& name, Tri in, const std::string& why)
{
    if (in == YES && z.missOk.count(name)) return; // nothing changes
    if (in == UNK && z.missOk.count(name)) in = UNK;
    Member& m = z.mem[name];
    m.in = in;
    m.why = why;
    double p = z.sfsp.count(name) ? z.sfsp[name] : 0;
    m.pct = p == 0 ? z.c.fsp : p;
}
void Oracle::processSensor(MZone& z, const std::string& name, int64_t nlo, int64_t nhi)
{
    auto it = sensors.find(name);
    if (it == sensors.end()) return;
    MSensor& s = it->second;
    if (s.kind == K_SYSFS) readSysfs(s, nlo, nhi);
    z.cache[name] = {s.v, s.raw};
    std::string why;
    Tri t = failed(s, why);
    if (t != YES)
    {
        Tri st = NO;
        if (s.c.timeout != 0)
        {
            int y = 0, n = 0;
            for (int64_t now : {nlo, nhi})
                for (int64_t u : {s.updLo, s.updHi})
                {
                    int64_t d = (now - u) / SEC;
                    (d >= s.c.timeout || d <= -1) ? ++y : ++n;
                }
            st = y && n ? UNK : y ? YES : NO;
        }
        if (st == YES) { t = YES; if (why.empty()) why = "stale"; }
        else if (st == UNK) { t = UNK; why += "stale?"; }
    }
    mark(z, name, t, why);
}
double Oracle::pid(MPidRt& p, double input, double sp)
{
    const MPid& c = p.c;
    auto clamp = [](double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; };
    auto& x = p.ctx;
    x.fill(0);
    double err = sp - input, P = c.kp * err, I = 0;
    x[0] = input; x[1] = sp; x[2] = err; x[3] = P;
    if (c.ki != 0)
    {
        I = p.integral + err * c.ki * c.ts;
        x[4] = I;
        I = clamp(I, c.imin, c.imax);
    }
    x[5] = I;
    double D = c.kd * ((err - p.lastErr) / c.ts);
    double FF = (sp + c.ffo) * c.ffg;
    x[6] = D; x[7] = FF;
    double out = P + I + D + FF;
    x[8] = out;
    out = clamp(out, c.omin, c.omax);
    x[9] = out;
    if (p.init)
    {
        if (c.sneg != 0)
        {
            double m = p.lastOut + c.sneg * c.ts;
            x[10] = m;
            out = std::max(out, m);
        }
        if (c.spos != 0)
        {
            double m = p.lastOut + c.spos * c.ts;
            x[11] = m;
            out = std::min(out, m);
        }
        if (c.sneg != 0 || c.spos != 0) I = out - P;
    }
    x[12] = I; x[13] = out;
    I = clamp(I, c.imin, c.imax);
    p.integral = I;
    p.init = true;
    p.lastErr = err;
    p.lastOut = out;
    x[14] = I; x[15] = out;
    p.ctxValid = true;
    return out;
}
double Oracle::calPid(MPidRt& p, double in, double sp)
{
    const MPid& c = p.c;
    p.ctxValid = false;
    double out;
    if (c.hset)
    {
        if (in > sp + c.hpos) out = pid(p, in, sp);
        else if (in < sp - c.hneg) { p.integral = 0; out = 0; }
        else out = p.lastOut;
    }
    else if (c.hpos == 0 && c.hneg == 0) out = pid(p, in, sp);
    else
    {
        if (!std::isfinite(p.lastIn)) p.lastIn = in;
        else if (in - p.lastIn > c.hpos) p.lastIn = in;
        else if (p.lastIn - in > c.hneg) p.lastIn = in;
        out = pid(p, p.lastIn, sp);
    }
    p.lastOut = out;
    return out;
}
void Oracle::thermals(MZone& z, int64_t nlo, int64_t nhi)
{
    for (auto& n : z.thermIn) processSensor(z, n, nlo, nhi);
    std::map<std::string, double> sps;
    std::vector<double> ceil;
    z.maxSp = 0;
    z.lead.clear();
    auto add = [&](MPidRt& p, double v) {
        if (!p.enabled) return;
        std::string prof = p.c.name;
        if (z.c.acc)
        {
            prof = prof.substr(prof.find('_') + 1);
            sps[prof] += v;
        }
        else sps[prof] = std::max(sps[prof], v);
        if (z.maxSp < sps[prof])
        {
            z.maxSp = sps[prof];
            z.lead = prof;
        }
    };
    for (auto& p : z.therms)
    {
        if (p.c.step())
        {
            double v = std::numeric_limits<double>::lowest();
            for (auto& i : p.c.in) v = std::max(v, z.cache[i.name].first);
            if (std::isnan(p.sOut) || v - p.sIn > p.c.hpos || p.sIn - v > p.c.hneg)
            {
                double o = p.c.out[0];
                for (size_t k = 1; k < 20; ++k)
                {
                    if (std::isnan(p.c.rd[k]) || p.c.rd[k] > v) break;
                    o = p.c.out[k];
                }
                p.sOut = o;
                p.sIn = v;
            }
            if (p.c.ceiling) { if (p.enabled) ceil.push_back(p.sOut); }
            else add(p, p.sOut);
            continue;
        }
        double v = p.c.type == "margin" ? std::numeric_limits<double>::max() : p.c.type == "temp" || p.c.type == "power" ? std::numeric_limits<double>::lowest() : 0.0;
        bool ok = false;
        for (auto& i : p.c.in)
        {
            double c = z.cache[i.name].first;
            if (!std::isfinite(c)) continue;
            if (p.c.type == "margin" && i.conv) c = i.zero - c;
            double old = v;
            if (p.c.type == "margin") v = std::min(v, c);
            else if (p.c.type == "powersum") v += c;
            else v = std::max(v, c);
            if (old != v)
            {
                p.leader = i.name;
                p.pIn = v;
            }
            ok = true;
        }
        if (!ok) v = p.sp;
        if (p.c.anyOrder) p.leader.clear();
        double o = calPid(p, v, p.sp);
        p.pOut = o;
        add(p, o);
    }
    if (!ceil.empty())
    {
        double m = *std::min_element(ceil.begin(), ceil.end());
        if (m < z.maxSp)
        {
            z.maxSp = m;
            z.lead = "Ceiling";
        }
    }
    if (z.c.acc)
    {
        std::string prof = z.lead;
        z.lead.clear();
        for (auto& p : z.therms)
            if (p.c.name.find(prof) != std::string::npos) z.lead += (z.lead.empty() ? "" : " + ") + p.c.name;
    }
    if (z.c.minThermal >= z.maxSp)
    {
        z.maxSp = z.c.minThermal;
        z.lead = "Minimum";
    }
    if (tuning)
        for (auto f : {std::string("/etc/thermal.d/setpoint"), "/etc/thermal.d/setpoint.zone" + std::to_string(z.c.id)})
        {
            auto it = fileAtBegin.find(w.R + f);
            if (it == fileAtBegin.end() || !it->second.first) continue;
            int v = atoi(it->second.second.c_str());
            if (v > 100) z.maxSp = v;
        }
    ++z.thermals;
}
std::set<double> Oracle::fsPercents(const MZone& z) const
{
    double base = -1;
    std::set<double> opt, r;
    for (auto& [n, m] : z.mem)
    {
        if (m.in == YES) base = std::max(base, m.pct);
        else if (m.in == UNK) opt.insert(m.pct);
    }
    auto fix = [&](double p) { return p == 0 ? z.c.fsp : p; };
    if (base >= 0) r.insert(fix(base));
    else if (opt.empty() || z.fs != YES) r.insert(z.c.fsp);
    for (double o : opt)
        if (o > base) r.insert(fix(o));
    return r;
}
void Oracle::adoptFs(MZone& z)
{
    Val v;
    std::string zp = ZONEROOT + std::to_string(z.c.id);
    if (!K->getProp(zp, IF_MODE, "FailSafe", v))
    {
        fail("dbus.get", "zone %ld: no FailSafe property", (long)z.c.id);
        z.desync = true;
        return;
    }
    Tri obs = v.i ? YES : NO;
    Tri exp = NO;
    std::string why;
    int unk = 0;
    for (auto& [n, m] : z.mem)
    {
        if (m.in == YES) { exp = YES; why += (why.empty() ? "" : ",") + n + ":" + m.why; }
        else if (m.in == UNK) ++unk;
    }
    if (exp == NO && unk) exp = UNK;
    std::string cause = "unknown";
    for (auto& [n, m] : z.mem)
        if (m.in == YES) cause = m.why.empty() ? "start" : m.why;
    if (exp == YES && obs == NO)
    {
        fail("fs.missed." + cause, "zone %ld is not in failsafe although %s", (long)z.c.id, why.c_str());
        z.desync = true;
    }
    else if (exp == NO && obs == YES)
    {
        fail("fs.spurious", "zone %ld is in failsafe although no input has failed", (long)z.c.id);
        z.desync = true;
    }
    else if (exp == UNK)
    {
        stat["fs-ambiguous"]++;
        if (obs == NO)
            for (auto& [n, m] : z.mem)
                if (m.in == UNK) m.in = NO;
        if (obs == YES && unk == 1)
            for (auto& [n, m] : z.mem)
                if (m.in == UNK) m.in = YES;
    }
    if (obs != z.fs) z.fsHist.push_back({K->now, obs});
    z.fs = obs;
}
std::set<int64_t> Oracle::writerValues(const MSensor& s, const std::set<double>& percents) const
{
    std::set<int64_t> r;
    for (double p : percents)
    {
        double f = p / 100.0;
        double e = s.c.max > 0 ? (double)s.c.min + (double)(s.c.max - s.c.min) * f : f;
        int64_t v = (int64_t)e;
        r.insert(v);
        double n = std::round(e);
        if (std::fabs(e - n) < 1e-6 * std::max(1.0, std::fabs(e)))
        {
            r.insert((int64_t)n);
            r.insert((int64_t)n - 1);
        }
    }
    return r;
}
static std::string show(const std::set<int64_t>& s)
{
    std::string r;
    for (auto x : s) r += (r.empty() ? "" : "|") + std::to_string(x);
    return r;
}
// want: fan sensor -> for each write the zone must issue, in order, the
// acceptable percentages
void Oracle::checkPwm(MZone& z, HandlerInfo& h, std::map<std::string, std::vector<std::set<double>>>& want, const char* ctx)
{
    for (auto& [name, seq] : want)
    {
        auto si = sensors.find(name);
        if (si == sensors.end() || seq.empty()) continue;
        MSensor& s = si->second;
        MWriter& wr = writers[name];
        std::set<int64_t> all, last;
        for (auto& c : seq)
        {
            last = writerValues(s, c);
            all.insert(last.begin(), last.end());
        }
        std::string lowTag = ctx;
        std::string path = w.sub(s.c.writePath);
        auto classify = [&](int64_t got) {
            if (z.fs == YES && !tuning && got < *last.begin()) return std::string("pwm.fs.low");
            return "pwm." + lowTag;
        };
        if (s.wkind == 1)
        {
            bool faulted = (w.pwmFault.count(path) && !w.pwmFault[path].empty()) || (touched.count(path) && touched[path] >= h.begin);
            if (faulted)
            {
                wr.failed = true;
                stat["pwm-write-faulted"]++;
                z.outCache[name] = {seq.back().size() > 1 ? ANYLOG : (*seq.back().begin()) / 100.0, -1.0};
                continue;
            }
            bool ok;
            std::string t = slurp(path, &ok);
            int64_t got = atoll(t.c_str());
            if (!ok || t.empty() || !last.count(got))
                fail(wr.failed ? "pwm.retry" : classify(got), "zone %ld fan %s: %s holds '%s', expected %s (%s, failsafe %d)", (long)z.c.id, name.c_str(), path.c_str(), t.c_str(), show(last).c_str(), ctx, (int)z.fs);
            stat["pwm-write-checked"]++;
            wr.failed = false;
            wr.expect = *last.begin();
            wr.has = true;
        }
        else if (s.wkind == 2)
        {
            bool any = false, lastOk = false;
            int64_t lastV = 0;
            bool anyOk = false;
            for (auto& [q, p] : h.calls)
            {
                if (q->member != "Set" || q->path != path || q->args.size() < 3 || q->args[0].s != IF_FANPWM) continue;
                const Val* v = &q->args[2];
                while (v->t == 'v') v = &v->c[0];
                any = true;
                lastV = v->i;
                if (!all.count(lastV)) fail(classify(lastV), "zone %ld fan %s: Set(%ld), expected %s (%s, failsafe %d)", (long)z.c.id, name.c_str(), (long)lastV, show(all).c_str(), ctx, (int)z.fs);
                lastOk = p->type == Msg::Reply;
                anyOk |= lastOk;
                if (lastOk) { wr.old = lastV; wr.dirty = false; }
                else { wr.old = -1; wr.failed = true; stat["pwm-write-faulted"]++; }
            }
            if (!any)
            {
                if (!last.count(wr.old))
                    fail(wr.failed ? "pwm.retry" : classify(wr.old), "zone %ld fan %s: nothing written, output is at %ld, expected %s (%s, failsafe %d)", (long)z.c.id, name.c_str(), (long)wr.old, show(last).c_str(), ctx, (int)z.fs);
                else if (z.redundant)
                    fail("pwm.resume", "zone %ld fan %s: the output was not rewritten after manual mode", (long)z.c.id, name.c_str());
                else if (wr.dirty && !strcmp(ctx, "offline") && !last.count(wr.ext))
                    fail("pwm.offline", "zone %ld fan %s: nothing written, although somebody else had set the output to %ld, expected %s", (long)z.c.id, name.c_str(), (long)wr.ext, show(last).c_str());
                stat["pwm-write-suppressed"]++;
            }
            else
            {
                if (!last.count(lastV)) fail(classify(lastV), "zone %ld fan %s: last Set(%ld), expected %s (%s)", (long)z.c.id, name.c_str(), (long)lastV, show(last).c_str(), ctx);
                stat["pwm-write-checked"]++;
                if (lastOk) wr.failed = false;
            }
            wr.expect = any ? lastV : wr.old;
            wr.has = true;
        }
        double f = seq.back().size() > 1 ? ANYLOG : (*seq.back().begin()) / 100.0;
        z.outCache[name] = {f, s.wkind == 2 ? (double)wr.expect : -1.0};
    }
}
void Oracle::checkNoWrites(HandlerInfo& h, const std::set<std::string>& allowed, const char* tag, const std::string& what)
{
    for (auto& [n, s] : sensors)
    {
        if (!s.wkind) continue;
        std::string path = w.sub(s.c.writePath);
        if (allowed.count(path)) continue;
        if (s.wkind == 1)
        {
            for (auto& [p, wr] : h.opens)
                if (wr && p == path)
                {
                    fail(tag, "%s: fan output %s was written", what.c_str(), path.c_str());
                    break;
                }
        }
        else
            for (auto& [q, p] : h.calls)
                if (q->member == "Set" && q->path == path && !q->args.empty() && q->args[0].s == IF_FANPWM)
                {
                    fail(tag, "%s: fan output %s was written", what.c_str(), path.c_str());
                    break;
                }
    }
}
void Oracle::checkThermalProps(MZone& z)
{
    std::string zp = ZONEROOT + std::to_string(z.c.id);
    for (auto& p : z.therms)
    {
        if (p.c.step()) continue;
        Val o, i, l;
        std::string pp = zp + "/" + p.c.name;
        if (!K->getProp(pp, IF_DTP, "Output", o) || !K->getProp(pp, IF_DTP, "Input", i) || !K->getProp(pp, IF_DTP, "Leader", l))
        {
            fail("build.objects", "%s: no ThermalPower debug object", pp.c_str());
            p.bad = true;
            continue;
        }
        if (p.bad) continue;
        if (!near(o.d, p.pOut)) { fail("tp.output", "%s: output %.9g, expected %.9g (input %.9g setpoint %.9g)", pp.c_str(), o.d, p.pOut, p.pIn, p.sp); p.bad = true; z.desync = true; }
        if (!near(i.d, p.pIn)) { fail("tp.input", "%s: input %.9g, expected %.9g", pp.c_str(), i.d, p.pIn); p.bad = true; z.desync = true; }
        if (!p.leader.empty() && l.s != p.leader) { fail("tp.leader", "%s: leader %s, expected %s", pp.c_str(), l.s.c_str(), p.leader.c_str()); p.bad = true; }
        stat["thermal-output-checked"]++;
    }
    Val l;
    if (!K->getProp(zp, IF_DZONE, "Leader", l)) fail("build.objects", "%s: no Debug.Pid.Zone object", zp.c_str());
    else if (l.s != z.lead)
    {
        fail("leader", "zone %ld: leader '%s', expected '%s' (setpoint %.9g)", (long)z.c.id, l.s.c_str(), z.lead.c_str(), z.maxSp);
        z.desync = true;
    }
}
void Oracle::checkRearm(MZone& z, HandlerInfo& h)
{
    std::vector<Timer*> arm;
    for (auto* t : h.armed) arm.push_back(t);
    if (z.cancelled)
    {
        // the loop was told to stop while this expiry was already queued
        for (auto* t : arm)
        {
            fail("reload.dup-loop", "zone %ld: the loop re-armed itself after it was told to stop", (long)z.c.id);
            timerZone[t->id] = z.c.id;
        }
        z.gone = arm.empty();
        return;
    }
    if (arm.empty())
    {
        fail("cadence.stopped", "zone %ld: the loop did not re-arm its timer", (long)z.c.id);
        z.gone = true;
        return;
    }
    if (arm.size() > 1) fail("reload.dup-loop", "zone %ld: %zu timers armed", (long)z.c.id, arm.size());
    Timer* t = arm.front();
    int64_t exp = h.expiry + z.c.cycle * MS;
    if (t->expiry != exp)
        fail("cadence.drift", "zone %ld: next cycle at %.6f s, expected %.6f s (cycle %ld ms)", (long)z.c.id, (double)(t->expiry - 100 * SEC) / 1e9, (double)(exp - 100 * SEC) / 1e9, (long)z.c.cycle);
    if (t->id != z.timerId) timerZone.erase(z.timerId);
    z.timer = t;
    z.timerId = t->id;
    z.expiry = t->expiry;
    timerZone[t->id] = z.c.id;
}
void Oracle::stateHash(MZone& z)
{
    uint64_t x = 1469598103934665603ull;
    auto mix = [&](uint64_t v) { x = (x ^ v) * 1099511628211ull; };
    mix(z.fs); mix(z.manual); mix(z.redundant); mix(std::hash<std::string>()(z.lead));
    for (auto& [n, m] : z.mem) { mix(m.in); mix(std::hash<std::string>()(m.why)); }
    mix((uint64_t)(z.maxSp / (std::fabs(z.maxSp) > 200 ? 500 : 10)));
    for (auto& p : z.therms) mix(p.enabled);
    mix(hostOn);
    mix(redFailed.size());
    states.insert(x);
}
// A zone that was well, and whose sensors were, for longer than the limit looks
// back, says so when it enters failsafe mode.
void Oracle::checkFsEntry(MZone& z, HandlerInfo& h)
{
    bool now = false, may = z.fs != NO;
    std::string who;
    for (auto& [n, m] : z.mem)
    {
        if (m.in == YES) { now = true; who = n + " (" + m.why + ")"; }
        may |= m.in != NO;
    }
    for (auto* v : {&z.fanIn, &z.thermIn})
        for (auto& n : *v)
        {
            std::string why;
            auto it = sensors.find(n);
            may |= it != sensors.end() && failed(it->second, why) != NO;
        }
    if (K->wallOff != wallSeen)
    {
        if (wallSeen) wallChanged = K->now;
        wallSeen = K->wallOff;
    }
    if (!may)
    {
        if (z.clearSince) return;
        z.clearSince = h.end ? h.end : K->now;
        z.clearSeq = fsEntries[z.c.id];
        return;
    }
    if (now && z.fs == YES && z.clearSince && h.begin - z.clearSince > 1200 * MS && (!wallChanged || K->now - wallChanged > 120 * SEC))
    {
        stat["failsafe-entries-logged"]++;
        if (fsEntries[z.c.id] == z.clearSeq) fail("fslog.entry", "zone %ld entered failsafe mode for %s and no line tells of it", (long)z.c.id, who.c_str());
    }
    z.clearSince = 0;
}
void Oracle::cycle(MZone& z, HandlerInfo& h)
{
    ++z.cycles;
    z.lastCycle = h.begin;
    stat["cycles"]++;
    std::string zn = "zone " + std::to_string(z.c.id);
    int64_t nlo = h.wallBegin, nhi = h.blocked ? h.wallFirstBlock : h.wallFnEnd;
    if (z.manual)
    {
        checkNoWrites(h, {}, "pwm.manual", zn + " in manual mode");
        stat["manual-cycles"]++;
        return;
    }
    if (logging) logWantLine(z, nlo, nhi); // first part: before anything is updated
    for (auto& n : z.fanIn) processSensor(z, n, nlo, nhi);
    bool th = false;
    double spBefore = z.maxSp;
    std::string leadBefore = z.lead;
    if (z.cnt >= z.c.thermal)
    {
        z.cnt -= z.c.thermal;
        th = true;
        thermals(z, nlo, nhi);
    }
    z.cnt += z.c.cycle;
    if (z.desync) return;
    adoptFs(z);
    checkThermalProps(z);
    if (z.desync && z.fs != YES)
    {
        // failsafe missed: the outputs are judged against the failsafe level
        bool should = false;
        for (auto& [n, m] : z.mem) should |= m.in == YES;
        if (!should) return;
    }
    checkFsEntry(z, h);
    bool should = z.fs == YES;
    for (auto& [n, m] : z.mem) should |= m.in == YES;
    auto fsp = fsPercents(z);
    std::map<std::string, std::vector<std::set<double>>> want;
    for (auto& p : z.fans)
    {
        double in = 0;
        bool any = false;
        for (auto& i : p.c.in)
        {
            double v = z.cache[i.name].second;
            if (!std::isfinite(v) || v <= 0) continue;
            in = any ? std::min(in, v) : v;
            any = true;
        }
        p.sp = z.maxSp;
        double out = calPid(p, in, z.maxSp);
        std::set<double> pct;
        if (should && !tuning)
        {
            for (double f : fsp) pct.insert(strict() ? f : std::max(out, f));
        }
        else pct.insert(out);
        for (auto& i : p.c.in) want[i.name].push_back(pct);
    }
    bool des = z.desync;
    Tri sv = z.fs;
    if (should) z.fs = YES;
    checkPwm(z, h, want, z.resumed ? "resume" : should ? "fs" : "auto");
    z.fs = sv;
    z.redundant = false;
    z.resumed = false;
    std::set<std::string> ok;
    for (auto& [n, x] : want)
        if (sensors.count(n)) ok.insert(w.sub(sensors[n].c.writePath));
    checkNoWrites(h, ok, "pwm.unexpected", zn);
    if (!des) stateHash(z);
    if (coreLog) checkCore(z, z.coreFrom);
    (void)th; (void)spBefore; (void)leadBefore;
}

/* --------------------------------------------------------------- logs ---- */
static std::vector<std::string> split(const std::string& s, char c)
{
    std::vector<std::string> r;
    size_t p = 0;
    for (;;)
    {
        size_t q = s.find(c, p);
        r.push_back(s.substr(p, q == std::string::npos ? q : q - p));
        if (q == std::string::npos) return r;
        p = q + 1;
    }
}
static std::string fnum(double v)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
static std::string slurpFrom(const std::string& p, size_t off)
{
    OwnOpen own;
    std::ifstream f(p);
    f.seekg((std::streamoff)off);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
void Oracle::logWantLine(MZone& z, int64_t nlo, int64_t nhi)
{
    // values are looked up when the line is complete, so only what changes
    // during the cycle is recorded here
    LogWant l;
    l.lo = nlo / MS;
    l.hi = nhi / MS;
    l.sp = z.maxSp;
    l.lead = z.lead;
    for (auto& n : z.thermIn) l.therms.push_back(z.cache[n]);
    for (auto& n : z.fanIn) l.outs.push_back(z.outCache[n]);
    if (z.logBad) return;
    z.logWant.push_back(l);
}
void Oracle::checkLogs(MZone& z, bool end)
{
    // The daemon buffers the log, so lines are judged when they appear; all of
    // them have to be there once the zone is gone (end).
    if (z.logBad || z.logFile.empty()) return;
    auto bad = [&](const std::string& m) {
        fail("log.csv", "zone %ld: %s", (long)z.c.id, m.c_str());
        z.logBad = true;
        z.logWant.clear();
    };
    if (!end && !z.logWant.empty())
    {
        auto& w = z.logWant.back();
        for (auto& n : z.fanIn) w.fans.push_back(z.cache[n]);
        w.fs = z.fs;
        w.done = true;
    }
    struct stat st;
    if (::stat(z.logFile.c_str(), &st) != 0) return bad("no log file " + z.logFile);
    if ((size_t)st.st_size == z.logSize && !end) return;
    z.logSize = st.st_size;
    std::string t = slurpFrom(z.logFile, z.logRead);
    size_t at = 0;
    if (z.logRead == 0)
    {
        size_t e = t.find('\n');
        if (e == std::string::npos) return bad("no header line");
        std::string want = "epoch_ms,setpt,requester";
        for (auto& f : z.fanIn) want += "," + f + "," + f + "_raw," + f + "_pwm," + f + "_pwm_raw";
        for (auto& f : z.thermIn) want += "," + f + "," + f + "_raw";
        want += ",failsafe";
        if (t.substr(0, e) != want) return bad("header '" + t.substr(0, e) + "', expected '" + want + "'");
        at = e + 1;
    }
    for (;;)
    {
        size_t e = t.find('\n', at);
        if (e == std::string::npos) break;
        std::string raw = t.substr(at, e - at);
        at = e + 1;
        auto f = split(raw, ',');
        if (z.logWant.empty() || !z.logWant.front().done) return bad("more lines than cycles: '" + raw + "'");
        LogWant l = z.logWant.front();
        z.logWant.pop_front();
        size_t n = 3 + 4 * z.fanIn.size() + 2 * z.thermIn.size() + 1;
        if (f.size() != n) return bad("line with " + std::to_string(f.size()) + " fields instead of " + std::to_string(n) + ": " + raw);
        int64_t ms = atoll(f[0].c_str());
        if (ms < l.lo || ms > l.hi) return bad("timestamp " + f[0] + " outside " + std::to_string(l.lo) + ":" + std::to_string(l.hi));
        auto eq = [&](const std::string& got, double w) { return w == ANYLOG || near(strtod(got.c_str(), nullptr), w, 2e-5); };
        if (!eq(f[1], l.sp)) return bad("setpoint " + f[1] + ", expected " + fnum(l.sp));
        if (f[2] != l.lead) return bad("requester " + f[2] + ", expected " + l.lead);
        size_t k = 3, i = 0;
        for (auto& n : z.fanIn)
        {
            if (!eq(f[k], l.fans[i].first) || !eq(f[k + 1], l.fans[i].second)) return bad("fan " + n + " logged as " + f[k] + "/" + f[k + 1]);
            if (!eq(f[k + 2], l.outs[i].first) || !eq(f[k + 3], l.outs[i].second)) return bad("fan " + n + " output logged as " + f[k + 2] + "/" + f[k + 3] + ", expected " + fnum(l.outs[i].first) + "/" + fnum(l.outs[i].second));
            k += 4;
            ++i;
        }
        i = 0;
        for (auto& n : z.thermIn)
        {
            if (!eq(f[k], l.therms[i].first) || !eq(f[k + 1], l.therms[i].second)) return bad("sensor " + n + " logged as " + f[k] + "/" + f[k + 1] + ", expected " + fnum(l.therms[i].first) + "/" + fnum(l.therms[i].second));
            k += 2;
            ++i;
        }
        if (l.fs != UNK && f[k] != (l.fs == YES ? "1" : "0")) return bad("failsafe column " + f[k]);
        stat["csv-lines-checked"]++;
    }
    z.logRead += at;
    if (end)
    {
        if (!z.logWant.empty()) return bad(std::to_string(z.logWant.size()) + " lines are missing at the end of the log");
        if (at < t.size()) return bad("incomplete line at the end of the log");
        stat["csv-logs-complete"]++;
    }
}
void Oracle::checkCore(MZone& z, int64_t from)
{
    auto one = [&](MPidRt& p) {
        if (p.c.step()) return;
        std::string clean;
        for (char c : p.c.name)
            if (isalnum((unsigned char)c)) clean += c;
        auto& [file, off] = coreFiles[p.c.name];
        if (file.empty()) file = (logging ? logDir : scratchDir) + "/pidcore." + clean;
        struct stat st;
        bool ok = ::stat(file.c_str(), &st) == 0;
        if (!ok)
        {
            if (p.init) { fail("log.core", "no core log %s", file.c_str()); off = std::string::npos; }
            return;
        }
        if (off == std::string::npos) return;
        std::string t = (size_t)st.st_size == off ? "" : slurpFrom(file, off);
        size_t at = 0;
        if (off == 0)
        {
            static const char* hd = "epoch_ms,input,setpoint,error,proportionalTerm,integralTerm1,integralTerm2,derivativeTerm,feedFwdTerm,output1,output2,minOut,maxOut,integralTerm3,output3,integralTerm,output\n";
            if (t.compare(0, strlen(hd), hd) != 0) { fail("log.core", "%s: bad header", file.c_str()); off = std::string::npos; return; }
            at = strlen(hd);
        }
        // lines from before this handler were written by loops that are gone
        std::string fresh;
        off += t.size();
        for (auto& l : split(t.substr(at), '\n'))
            if (!l.empty() && atoll(l.c_str()) >= from) fresh += l + "\n";
        if (!p.ctxValid)
        {
            if (!fresh.empty() && p.c.hset) fail("log.core", "%s: line without a computation: %s", file.c_str(), fresh.c_str());
            return;
        }
        p.ctxValid = false;
        bool changed = p.mustLog || memcmp(p.ctx.data(), p.ctxLogged.data(), sizeof p.ctx) != 0;
        if (fresh.empty())
        {
            if (changed)
            {
                bool real = p.mustLog;
                for (size_t i = 0; i < 16; ++i) real |= !near(p.ctx[i], p.ctxLogged[i]);
                if (real) { fail("log.core", "%s: a changed computation was not logged", file.c_str()); off = std::string::npos; }
            }
            return;
        }
        while (!fresh.empty() && fresh.back() == '\n') fresh.pop_back();
        auto ls = split(fresh, '\n');
        auto f = split(ls.back(), ',');
        if (f.size() != 17) { fail("log.core", "%s: malformed line '%s'", file.c_str(), ls.back().c_str()); off = std::string::npos; return; }
        for (size_t i = 0; i < 16; ++i)
            if (!near(strtod(f[i + 1].c_str(), nullptr), p.ctx[i], 2e-5) && std::fabs(strtod(f[i + 1].c_str(), nullptr) - p.ctx[i]) > 2e-5 * (std::fabs(p.ctx[8]) + 1))
            {
                fail("log.core", "%s: field %zu is %s, expected %.9g", file.c_str(), i + 1, f[i + 1].c_str(), p.ctx[i]);
                off = std::string::npos;
                return;
            }
        p.ctxLogged = p.ctx;
        p.mustLog = false;
        stat["core-lines-checked"]++;
    };
    for (auto& p : z.therms) one(p);
    for (auto& p : z.fans) one(p);
}
void Oracle::logLine(const std::string& l, bool)
{
    // "Zone `N` is in failsafe mode.\t\tWith update at `loc`: reason"
    long id;
    // (it may follow a message without an end of line)
    size_t zp = l.find("Zone `");
    if (zp == std::string::npos || sscanf(l.c_str() + zp, "Zone `%ld`", &id) != 1) return;
    size_t p = l.find("With update at `");
    if (p == std::string::npos) return;
    int st = l.find("is in failsafe mode") != std::string::npos ? 1 : l.find("leaves failsafe mode") != std::string::npos ? 0 : -1;
    if (st < 0) return;
    std::string key = l.substr(p);
    stat["failsafe-log-lines"]++;
    fsEntries[id] += st;
    auto& seen = fsLogSeen[id];
    if (!fsLogState.count(id) || fsLogState[id] != st) seen.clear();
    fsLogState[id] = st;
    if (st == 1 && !seen.insert(key).second) stat["failsafe-log-repeat"]++;
    if (K->hi && K->hi->n != fsResetAt && !K->hi->objAdded.empty())
    {
        // new control loops count anew
        fsResetAt = K->hi->n;
        fsLogTimes.clear();
    }
    auto& q = fsLogTimes[id];
    int64_t ms = K->wall() / MS;
    while (!q.empty() && (ms - q.front() >= 990 || ms < q.front())) q.pop_front();
    q.push_back(ms);
    if (q.size() > 20) { fail("fslog.rate", "zone %ld: %zu failsafe log lines within one second", id, q.size()); q.clear(); }
}

/* ------------------------------------------------------------- builds ---- */
void Oracle::snapshotCfg()
{
    bool ok;
    cfgText = slurp(w.configPath(), &ok);
    cfgPresent = ok;
    cfgOkAtBegin = w.cfgValid();
}
void Oracle::opened(const std::string& p, bool write)
{
    if (write || p != w.configPath()) return;
    snapshotCfg();
    cfgOpenedAt = K->now;
    bool bad = false;
    try { (void)parseJsonCfg(json::parse(cfgText)); }
    catch (...) { bad = true; }
    if (!cfgOkAtBegin) bad = true;
    if (bad && cfgReadBad < 0) cfgReadBad = K->now;
}
void Oracle::snapshotFiles()
{
    fileAtBegin.clear();
    for (auto& [n, s] : sensors)
        if (s.kind == K_SYSFS)
        {
            bool ok;
            std::string t = slurp(w.sub(s.c.readPath), &ok);
            fileAtBegin[s.c.readPath] = {ok, t};
        }
    if (tuning)
    {
        std::vector<std::string> fs{"/etc/thermal.d/setpoint"};
        std::error_code ec;
        for (auto& e : std::filesystem::directory_iterator(w.R + "/etc/thermal.d", ec))
            if (e.path().filename().string().rfind("setpoint.zone", 0) == 0) fs.push_back("/etc/thermal.d/" + e.path().filename().string());
        for (auto& f : fs)
        {
            bool ok;
            std::string t = slurp(w.R + f, &ok);
            fileAtBegin[w.R + f] = {ok, t};
        }
    }
}
// having read an invalid configuration the daemon may only end
void Oracle::checkRefused(int64_t grace)
{
    if (cfgReadBad < 0 || lastTerm >= 0 || K->now - cfgReadBad < grace) return;
    fail("cfg.accepted-invalid", "the daemon goes on %.3f s after it read an invalid configuration", (double)(K->now - cfgReadBad) / 1e9);
    cfgReadBad = -1;
}
void Oracle::buildModel(HandlerInfo& h, const std::set<int64_t>& ids)
{
    checkRefused(0);
    ++builds;
    lastBuildBegin = h.begin;
    lastBuildEnd = h.fnEnd;
    MCfg nc;
    bool amb = w.lastCfgChange >= h.begin;
    if (amb && cfgOpenedAt < h.begin) snapshotCfg(); // changed before the daemon looked at it
    if (cfgPresent)
    {
        dbusMode = false;
        if (!cfgOkAtBegin && !amb) { fail("cfg.accepted-invalid", "control loops were started from an invalid configuration"); haveCfg = false; return; }
        try { nc = parseJsonCfg(json::parse(cfgText)); }
        catch (const std::exception& e)
        {
            if (!amb) fail("cfg.accepted-invalid", "control loops were started from an invalid configuration (%s)", e.what());
            haveCfg = false;
            return;
        }
    }
    else
    {
        dbusMode = true;
        bool ready = false;
        try { ready = dbusCfg(&h.calls, nc); }
        catch (const std::exception& e)
        {
            fail("cfg.accepted-invalid", "control loops were started from an inconsistent inventory (%s)", e.what());
            haveCfg = false;
            return;
        }
        if (!ready) { fail("cfg.accepted-invalid", "control loops were started without a configuration"); haveCfg = false; return; }
    }
    cfg = nc;
    haveCfg = true;
    for (auto& [id, z] : zones) oldTimers.insert(z.timerId);
    zones.clear();
    timerZone.clear();
    sensors.clear();
    writers.clear();
    initSent.clear();
    for (auto& [n, c] : cfg.sensors)
    {
        MSensor s;
        s.c = c;
        s.c.readPath = w.sub(c.readPath);
        sensors[n] = s;
        initSensor(sensors[n], h);
    }
    std::set<int64_t> want;
    for (auto& [id, z] : cfg.zones) want.insert(id);
    if (want != ids)
    {
        std::string a, b;
        for (auto i : want) a += " " + std::to_string(i);
        for (auto i : ids) b += " " + std::to_string(i);
        fail("build.zones", "zones on D-Bus:%s, configured:%s", b.c_str(), a.c_str());
    }
    int64_t nlo = h.wallBegin, nhi = h.wallFnEnd;
    for (auto& [q, p] : h.calls)
        if (p->sentAt) nlo = h.wallFnEnd - (h.fnEnd - p->sentAt);
    snapshotFiles();
    std::vector<Timer*> armed;
    for (auto* t : h.armed)
        if (K->timers.count(t)) armed.push_back(t);
    for (auto id : want)
    {
        if (!ids.count(id)) continue;
        MZone& z = zones[id];
        z.c = cfg.zones[id];
        z.builtAt = h.fnEnd;
        z.lastCycle = h.fnEnd;
        z.manualHist.push_back({h.begin, false});
        for (auto& [n, p] : z.c.pids)
        {
            MPidRt r;
            r.c = p;
            r.sp = p.setpoint;
            if (p.fan())
            {
                r.sp = 0;
                for (auto& i : p.in)
                {
                    z.fanIn.push_back(i.name);
                    if (i.missingOk) z.missOk.insert(i.name);
                }
                z.fans.push_back(r);
            }
            else if (p.thermal() || p.step())
            {
                for (auto& i : p.in)
                {
                    if (std::find(z.thermIn.begin(), z.thermIn.end(), i.name) == z.thermIn.end()) z.thermIn.push_back(i.name);
                    if (i.missingOk) z.missOk.insert(i.name);
                }
                z.therms.push_back(r);
            }
            else continue;
            for (auto& i : p.in) z.sfsp[i.name] = z.sfsp.count(i.name) ? std::max(z.sfsp[i.name], p.fsp) : p.fsp;
        }
        for (auto& n : z.fanIn) { z.cache[n] = {NaN, NaN}; z.outCache[n] = {NaN, NaN}; mark(z, n, YES, "start"); }
        for (auto& n : z.thermIn) { z.cache[n] = {NaN, NaN}; mark(z, n, YES, "start"); }
        thermals(z, nlo, nhi);
        if (amb) z.desync = true;
        z.coreFrom = lastWallJump >= h.begin ? 0 : h.wallBegin / MS;
        if (logging) z.logFile = logDir + "/zone_" + std::to_string(id) + ".log";
        // the loop's timer
        std::vector<Timer*> mine;
        for (auto* t : armed)
        {
            int64_t base = t->expiry - z.c.cycle * MS;
            if (base < h.fnEnd - 5 * MS || base > h.fnEnd) continue;
            bool other = false; // it fits the interval of another zone better
            for (int64_t oid : ids)
                if (auto oc = cfg.zones.find(oid); oc != cfg.zones.end() && oid != id)
                {
                    int64_t ob = t->expiry - oc->second.cycle * MS;
                    if (ob > base && ob <= h.fnEnd) other = true;
                }
            if (!other) mine.push_back(t);
        }
        if (mine.empty()) fail("reload.missing-loop", "zone %ld: no control loop was started", (long)id);
        else
        {
            if (mine.size() > 1) fail("reload.dup-loop", "zone %ld: %zu control loops were started", (long)id, mine.size());
            z.timer = mine[0];
            z.timerId = mine[0]->id;
            z.expiry = mine[0]->expiry;
            for (auto* t : mine) timerZone[t->id] = id;
        }
        // objects
        std::string zp = ZONEROOT + std::to_string(id);
        for (auto& p : z.therms)
        {
            Val v;
            std::string pp = zp + "/" + p.c.name;
            if (!K->getProp(pp, IF_ENABLE, "Enabled", v)) fail("build.objects", "%s: no Enable object", pp.c_str());
            else if (!v.i) fail("dbus.enable", "%s starts disabled", pp.c_str());
            static const std::map<std::string, std::string> cls{{"temp", "Temperature"}, {"margin", "Margin"}, {"power", "Power"}, {"powersum", "PowerSum"}};
            if (K->getProp(pp, IF_DTP, "Setpoint", v) && !near(v.d, p.c.setpoint)) fail("tp.setpoint", "%s: setpoint %.9g, expected %.9g", pp.c_str(), v.d, p.c.setpoint);
            if (cls.count(p.c.type) && K->getProp(pp, IF_DTP, "ClassType", v) && v.s != cls.at(p.c.type)) fail("tp.setpoint", "%s: class %s", pp.c_str(), v.s.c_str());
        }
        Val v;
        if (K->getProp(zp, IF_MODE, "Manual", v) && v.i) fail("dbus.get", "zone %ld starts in manual mode", (long)id);
        if (z.desync) continue;
        adoptFs(z);
        checkThermalProps(z);
    }
    if (!(offline() && tornDown)) checkNoWrites(h, {}, "pwm.unexpected", "build");
    for (auto& [id, z] : zones)
        if (logging)
        {
            // an existing log of the previous incarnation is truncated
            z.logRead = z.logSize = 0;
            z.logWant.clear();
            if (!z.desync) checkLogs(z);
        }
    if (downSince >= 0)
    {
        int64_t limit = 16 * SEC + hangBudget;
        if (!waiting && std::max(lastRpcFault, w.lastInjected) < downSince && h.begin - downSince > limit)
            fail("reload.timeout", "the control loops were down for %.3f s", (double)(h.begin - downSince) / 1e9);
    }
    downSince = -1;
    waiting = false;
    stat["builds"]++;
}
void Oracle::zoneGone(MZone& z, HandlerInfo& h, bool rebuilt)
{
    bool partial = false; // another build was begun and given up
    if (!rebuilt && !cfgPresent)
        for (auto& [q, p] : h.calls) partial |= q->member == "GetSubTree";
    if (logging && !rebuilt && !z.desync && !partial) checkLogs(z, true);
    if (offline() && !z.desync && !partial)
    {
        std::map<std::string, std::vector<std::set<double>>> want;
        for (auto& p : z.fans)
            for (auto& i : p.c.in) want[i.name].push_back(fsPercents(z));
        Tri sv = z.fs;
        z.redundant = false;
        checkPwm(z, h, want, "offline");
        z.fs = sv;
        stat["offline-teardowns"]++;
    }
    else if (!offline()) checkNoWrites(h, {}, "pwm.unexpected", "teardown");
}

/* ----------------------------------------------------------- handlers ---- */
void Oracle::handlerBegin(HandlerInfo& h)
{
    zoneHandler = false;
    tornDown = false;
    lost.clear();
    checkRefused(5 * SEC + hangBudget);
    if (!startupSeen)
    {
        startupSeen = true;
        hostFromCalls(K->startup.calls);
    }
    if (h.kind == OpKind::Timer)
    {
        auto it = timerZone.find(h.timerId);
        if (it != timerZone.end())
        {
            zoneHandler = true;
            zoneOf = it->second;
        }
    }
    snapshotCfg();
    cfgAtBegin = cfgPresent;
    snapshotFiles();
    if (h.kind == OpKind::Signal && !h.aborted && h.signo == 15 && lastTerm < 0) lastTerm = h.begin;
}
static constexpr auto IF_PID = "xyz.openbmc_project.Configuration.Pid";
static bool listsIface(const MsgP& q, const char* ifn)
{
    if (q->args.size() < 3) return false;
    for (auto& x : q->args[2].c)
        if (x.s == ifn) return true;
    return false;
}
void Oracle::handlerEnd(HandlerInfo& h)
{
    hostFromCalls(h.calls);
    redFromCalls(h);
    requery(h);
    if (zoneHandler)
    {
        auto zi = zones.find(zoneOf);
        if (zi != zones.end())
        {
            MZone& z = zi->second;
            if (h.aborted)
            {
                if (!z.cancelled) fail("cadence.stopped", "zone %ld: the loop's timer was cancelled from within", (long)z.c.id);
                z.gone = true;
                checkNoWrites(h, {}, "pwm.unexpected", "cancelled cycle");
            }
            else
            {
                if (h.timerId != z.timerId && !z.cancelled) fail("reload.dup-loop", "zone %ld is driven by more than one timer", (long)z.c.id);
                cycle(z, h);
                checkRearm(z, h);
                if (logging && !z.desync) checkLogs(z);
                if (z.desync) { z.logBad = true; z.logWant.clear(); }
            }
        }
    }
    else
    {
        // with a configuration file in place, that is the configuration
        if (cfgAtBegin && w.lastCfgChange < h.begin && lastDisturb < h.begin)
            for (auto& [q, p] : h.calls)
                if (q->member == "GetSubTree" && listsIface(q, IF_PID)) { fail("cfg.ignored", "the configuration file was ignored, the objects on D-Bus were asked for instead"); break; }
        std::set<int64_t> ids;
        for (auto* o : h.objAdded)
            if (o->iface == IF_MODE && o->path.compare(0, strlen(ZONEROOT), ZONEROOT) == 0 && o->path.find('/', strlen(ZONEROOT)) == std::string::npos)
                ids.insert(atoll(o->path.c_str() + strlen(ZONEROOT)));
        // torn down zones
        bool gone = false;
        for (auto& [id, z] : zones)
        {
            if (z.desync && z.gone && z.timerId == 0) continue;
            bool there = K->findObj(ZONEROOT + std::to_string(id), IF_MODE) != nullptr && !ids.count(id);
            if (!there && z.builtAt >= 0)
            {
                gone = true;
                zoneGone(z, h, !ids.empty());
                tornDown = true;
                z.builtAt = -1;
                if (!z.cancelled) fail("reload.spurious", "zone %ld vanished while its loop was running", (long)id);
                if (downSince < 0) downSince = h.begin;
            }
        }
        if (!ids.empty()) buildModel(h, ids);
        else
        {
            if (gone)
            {
                // the daemon has no zones now (teardown without a rebuild)
                for (auto& [id, z] : zones) { z.gone = true; z.cancelled = true; z.desync = true; z.timerId = 0; timerZone.clear(); }
            }
            else if (dbusAttempt(h))
            {
                // loops that were built before the failure leave their outputs
                // at the failsafe duty cycle
                if (!offline()) checkNoWrites(h, {}, "pwm.unexpected", "failed reload");
            }
            else checkNoWrites(h, {}, oldTimers.count(h.timerId) ? "reload.dup-loop" : "pwm.unexpected", "handler outside any control loop");
        }
    }
    for (auto& [m, t] : lost)
    {
        // sent while nobody listened: fine if a later read of the initial
        // value covers it, otherwise the daemon must have got it anyway
        if (m->member != "PropertiesChanged" || m->args.empty()) continue;
        if (m->args[0].s == IF_HOST && m->path == "/xyz/openbmc_project/state/host0")
        {
            if (m->sentAt > hostInitSent) applySignal(m, K->wall(), K->wall() + MS);
            continue;
        }
        auto i = initSent.find(m->path);
        if (i == initSent.end() || m->sentAt > i->second)
        {
            int64_t wv = K->wall() - (K->now - m->sentAt);
            applySignal(m, wv, K->wall() + MS);
        }
    }
    lost.clear();
}
void Oracle::timerCancelled(Timer* t)
{
    auto it = timerZone.find(t->id);
    if (it == timerZone.end()) return;
    auto zi = zones.find(it->second);
    if (zi == zones.end() || zi->second.timerId != t->id) return;
    MZone& z = zi->second;
    if (z.cancelled) return;
    z.cancelled = true;
    if (downSince < 0) downSince = K->now;
    bool ok = lastTerm >= 0 || (lastTrigger >= 0 && K->now - lastTrigger < 60 * SEC + hangBudget);
    if (!ok) fail("reload.spurious", "zone %ld: the loop was stopped for no reason", (long)z.c.id);
}
void Oracle::signalDispatched(Conn*, const MsgP& m, bool pathMatch)
{
    if (m->member != "PropertiesChanged" || m->args.empty()) return;
    if (pathMatch) { applySignal(m, K->wall(), K->wall() + MS); return; }
    if (m->args[0].s == IF_HOST)
    {
        if (m->sentAt > hostInitSent) applySignal(m, K->wall(), K->wall() + MS);
        return;
    }
    auto i = initSent.find(m->path);
    if (i != initSent.end() && m->sentAt > i->second) applySignal(m, K->wall(), K->wall() + MS);
}
void Oracle::signalRouted(const MsgP& m, bool toDaemon)
{
    if (toDaemon || !K->daemonRunning()) return;
    if (m->member != "PropertiesChanged") return;
    if (K->hi) lost.push_back({m, K->now});
    else
    {
        if (!m->args.empty() && m->args[0].s == IF_HOST && m->sentAt <= hostInitSent) return;
        if (!m->args.empty() && m->args[0].s != IF_HOST)
        {
            auto i = initSent.find(m->path);
            if (i == initSent.end() || m->sentAt <= i->second) return;
        }
        applySignal(m, K->wall(), K->wall() + MS);
    }
}

/* ------------------------------------------------------------ clients ---- */
static bool zonePath(const std::string& p, int64_t& id, std::string& pid)
{
    size_t n = strlen(ZONEROOT);
    if (p.compare(0, n, ZONEROOT) != 0) return false;
    char* e;
    id = strtoll(p.c_str() + n, &e, 10);
    pid = *e == '/' ? e + 1 : "";
    return true;
}
void Oracle::daemonCall(const MsgP& req, const MsgP& reply, Conn*)
{
    if (req->iface != IF_PROP || req->args.empty()) return;
    const std::string& ifn = req->args[0].s;
    bool ok = reply->type == Msg::Reply;
    stat["client-calls"]++;
    int64_t id;
    std::string pn;
    if (req->member == "Set")
    {
        const Val* v = &req->args[2];
        while (v->t == 'v') v = &v->c[0];
        if (zonePath(req->path, id, pn))
        {
            auto zi = zones.find(id);
            if (zi == zones.end()) return;
            MZone& z = zi->second;
            if (z.gone && z.desync) return;
            if (pn.empty() && ifn == IF_MODE && req->args[1].s == "Manual" && v->t == 'b')
            {
                if (!ok) { fail("dbus.set", "setting Manual of zone %ld failed: %s", (long)id, reply->errname.c_str()); return; }
                bool was = z.manual;
                z.manual = v->i;
                z.manualHist.push_back({K->now, z.manual});
                if (was && !z.manual) { z.redundant = true; z.resumed = true; }
                Val g;
                if (!K->getProp(req->path, IF_MODE, "Manual", g) || (bool)g.i != z.manual) fail("dbus.set", "zone %ld: Manual reads back wrong after a successful Set", (long)id);
            }
            else if (pn.empty() && ifn == IF_MODE && req->args[1].s == "FailSafe")
            {
                if (ok) fail("dbus.set", "zone %ld: the read-only FailSafe property accepted a write", (long)id);
            }
            else if (!pn.empty() && ifn == IF_ENABLE && v->t == 'b')
            {
                for (auto& p : z.therms)
                    if (p.c.name == pn)
                    {
                        if (!ok) { fail("dbus.enable", "setting Enabled of %s failed", req->path.c_str()); return; }
                        p.enabled = v->i;
                        Val g;
                        if (!K->getProp(req->path, IF_ENABLE, "Enabled", g) || (bool)g.i != p.enabled) fail("dbus.enable", "%s: Enabled reads back wrong after a successful Set", req->path.c_str());
                    }
            }
            return;
        }
        if (ifn == IF_VALUE && req->args[1].s == "Value" && v->t == 'd')
            for (auto& [n, s] : sensors)
                if (s.kind == K_EXT && s.c.readPath == req->path)
                {
                    if (!ok && downSince >= 0) continue; // between builds there is no such object
                    if (!ok) { fail("ext.set", "writing external sensor %s failed: %s", n.c_str(), reply->errname.c_str()); continue; }
                    s.v = s.raw = v->d;
                    s.updLo = s.updHi = K->wall();
                    s.updHi += MS;
                    Val g;
                    if (!K->getProp(req->path, IF_VALUE, "Value", g) || !near(g.d, v->d, 0)) fail("ext.set", "external sensor %s: reads back %.9g after writing %.9g", n.c_str(), g.d, v->d);
                }
        return;
    }
    if (req->member == "Get" && ok && req->args.size() > 1 && zonePath(req->path, id, pn))
    {
        auto zi = zones.find(id);
        if (zi == zones.end()) return;
        const Val* v = &reply->args[0];
        while (v->t == 'v') v = &v->c[0];
        if (pn.empty() && req->args[1].s == "Manual" && (bool)v->i != zi->second.manual) fail("dbus.get", "zone %ld: Manual reads %d", (long)id, (int)v->i);
        if (pn.empty() && req->args[1].s == "FailSafe" && zi->second.fs != UNK && !zi->second.desync && (v->i ? YES : NO) != zi->second.fs) fail("dbus.get", "zone %ld: FailSafe reads %d", (long)id, (int)v->i);
    }
}
void Oracle::clientDone(const json&, const MsgP&, const MsgP&, int64_t) {}
void Oracle::ipmiDone(const json& ev, int cc, const std::vector<uint8_t>& out, int64_t sent)
{
    stat["ipmi-requests"]++;
    std::vector<uint8_t> in;
    if (ev["k"] == "ipmi")
        for (auto& b : ev["b"]) in.push_back((uint8_t)b.get<int>());
    else in = {1, (uint8_t)ev["z"].get<int>(), (uint8_t)ev["b"].get<bool>()};
    auto bad = [&](const char* what) {
        std::string s, o;
        for (auto b : in) s += " " + std::to_string(b);
        for (auto b : out) o += " " + std::to_string(b);
        fail("ipmi", "%s: request%s -> cc 0x%02x data%s", what, s.c_str(), cc, o.c_str());
    };
    if (cc < 0) return bad("no handler");
    auto malformed = [&] {
        if (in.size() < 2 || in[0] > 2) return true;
        return in[0] == 1 && in.size() < 3;
    };
    if (malformed())
    {
        if (cc == 0) bad("malformed request accepted");
        return;
    }
    int64_t id = in[1];
    auto zi = zones.find(id);
    bool zoneThere = K->daemonRunning() && zi != zones.end() && zi->second.builtAt >= 0;
    int64_t now = K->now;
    bool stable = zoneThere && zi->second.builtAt < sent - 2 * SEC && now - sent < 2 * SEC && std::max(lastRpcFault, w.lastInjected) < sent - 60 * SEC && downSince < 0;
    if (cc != 0)
    {
        if (stable) bad("request for a live zone failed");
        return;
    }
    if (lastEnd >= sent) return; // the answer may be from before the daemon ended
    if (!zoneThere && downSince < 0 && (haveCfg && now - lastBuildEnd > 5 * SEC)) return bad("request for an unknown zone succeeded");
    if (!stable) return;
    MZone& z = zi->second;
    if (in[0] == 0 || in[0] == 2)
    {
        if (out.size() < 1) return bad("no data returned");
        uint8_t v = out.back();
        std::set<int> ok;
        if (in[0] == 0)
        {
            int last = 0;
            for (auto& [t, b] : z.manualHist)
            {
                if (t < sent) last = b;
                else ok.insert(b);
            }
            ok.insert(last);
        }
        else
        {
            int last = -1;
            for (auto& [t, b] : z.fsHist)
            {
                if (t < sent) last = b;
                else ok.insert(b);
            }
            if (last >= 0) ok.insert(last);
            if (z.desync) return;
        }
        if (!ok.count(v)) bad("wrong value");
    }
    else
    {
        // set manual: the daemon must have processed it by now
        bool want = in[2] != 0, seen = false;
        for (auto& [t, b] : z.manualHist)
            if (t >= sent && b == want) seen = true;
        if (!seen) bad("the mode change did not reach the daemon");
    }
}
void Oracle::eventApplied(const json& ev)
{
    std::string k = ev["k"];
    int64_t now = K->now;
    if (k == "hup" && K->daemonRunning()) { lastHup = lastTrigger = lastTold = now; lastDisturb = now; }
    if (k == "err" || k == "hang") lastRpcErr = now;
    if (k == "emset" || k == "emobj" || k == "emrep" || k == "profile" || k == "obj" || k == "svc")
    {
        if (dbusMode || !haveCfg) lastTrigger = now;
        auto alive = [&](const std::string& n) { return w.svcs.count(n) && w.svcs[n].s->alive; };
        bool told = k != "emobj" && k != "emrep";
        if (k == "obj") told = w.sensors.count(ev["s"]) && alive(w.sensors[ev["s"]].svc);
        if (k == "emset") told = w.tree.count(ev["path"].get<std::string>());
        if (k == "svc")
        {
            // its return is told by the objects it publishes anew, if any
            told = false;
            if (ev["up"].get<bool>())
                for (auto& [p, o] : w.tree) told |= o.svc == ev["n"].get<std::string>() && p.rfind("/xyz/openbmc_project/sensors/", 0) == 0;
        }
        if (told) lastTold = now;
        else lastUntold = now;
        lastRpcFault = std::max(lastRpcFault, now + (int64_t)(ev.value("dur", 0.0) * 1e6));
        lastDisturb = std::max(lastDisturb, lastRpcFault);
    }
    if (k == "hang" || k == "slow" || k == "err")
    {
        lastRpcFault = std::max(lastRpcFault, now + (int64_t)(ev.value("dur", 0.0) * 1e6));
        lastDisturb = std::max(lastDisturb, now + (int64_t)(ev.value("dur", 0.0) * 1e6));
        if (k == "slow") slowUntil = std::max(slowUntil, now + (int64_t)(ev["dur"].get<double>() * 1e6));
        if (k == "hang") hangBudget = std::max(hangBudget, (int64_t)(ev.value("dur", 0.0) * 1e6) + 30 * SEC);
    }
    if (k == "cfg" || k == "cfgdel" || k == "cfgopen" || k == "kill" || k == "term") lastDisturb = now;
    if (k == "stall") { hangBudget += (int64_t)(ev["ms"].get<double>() * 1e6); lastDisturb = now; }
    if (k == "wall") 
    {
        lastWallJump = now;
        fsLogTimes.clear();
        for (auto& [id, z] : zones) z.coreFrom = 0;
    }
    if (k == "pwmfault" || k == "extwrite" || k == "file") touched[w.sub(ev["p"].get<std::string>())] = now;
    if (k == "extwrite")
        for (auto& [n, s] : sensors)
            if (s.wkind == 2 && w.sub(s.c.writePath) == w.sub(ev["p"].get<std::string>()))
            {
                writers[n].dirty = true;
                writers[n].ext = (int64_t)ev["v"].get<double>();
            }
}

/* -------------------------------------------------- process life cycle --- */
void Oracle::daemonStarted()
{
    ++incarnation;
    cfgReadBad = -1;
    buildsAtStart = builds;
    startupSeen = false;
    zones.clear();
    sensors.clear();
    writers.clear();
    timerZone.clear();
    oldTimers.clear();
    initSent.clear();
    redBy.clear();
    redFailed.clear();
    lost.clear();
    coreFiles.clear();
    if (coreLog)
        for (auto& d : {logDir, scratchDir})
        {
            std::error_code ec;
            for (auto& e : std::filesystem::directory_iterator(d, ec))
                if (e.path().filename().string().rfind("pidcore.", 0) == 0) std::filesystem::remove(e.path(), ec);
        }
    haveCfg = false;
    hostOn = NO;
    hostInitSent = -1;
    lastTerm = -1;
    downSince = K->now;
    lastTrigger = lastTold = K->now;
    waiting = false;
    daemonStart = K->now;
    lastDisturb = std::max(lastDisturb, K->now);
    fsLogTimes.clear();
    fsLogSeen.clear();
    snapshotCfg();
}
bool Oracle::expectZones(MCfg& out)
{
    bool ok;
    std::string t = slurp(w.configPath(), &ok);
    if (ok)
    {
        if (!w.cfgValid()) return false;
        try { out = parseJsonCfg(json::parse(t)); }
        catch (...) { return false; }
        return !out.zones.empty();
    }
    try { return dbusCfg(nullptr, out); }
    catch (...) { return false; }
}
void Oracle::daemonEnded(const DaemonExit& ex)
{
    K->mix((uint64_t)ex.kind * 131 + (uint64_t)ex.code);
    lastEnd = K->now;
    if (ex.kind == 4) return; // killed by the scenario
    if (ex.kind == 0 || (ex.kind == 1 && ex.code == 0))
    {
        if (lastTerm < 0) fail("death.exit", "the daemon ended on its own (status %d)", ex.code);
        else if (ex.code != 0) fail("term.status", "exit status %d after SIGTERM", ex.code);
        else
        {
            stat["clean-exits"]++;
            if (K->now - std::max(lastTerm, slowUntil) > 3 * SEC + hangBudget) fail("term.timeout", "%.3f s from SIGTERM to exit", (double)(K->now - lastTerm) / 1e9);
            if (offline())
                for (auto& [id, z] : zones)
                    if (z.builtAt >= 0) fail("pwm.offline", "zone %ld: still exists at exit", (long)id);
        }
        return;
    }
    if (ex.kind == 1)
    {
        MCfg c;
        bool bad = !cfgOkAtBegin && cfgPresent;
        if (cfgPresent && !bad)
        {
            try
            {
                auto m = parseJsonCfg(json::parse(cfgText));
                bad = m.zones.empty() || m.sensors.empty();
            }
            catch (...) { bad = true; }
        }
        if (w.lastCfgChange >= K->now - SEC) bad = true;
        if (bad) { stat["config-rejections"]++; if (!K->startup.calls.empty()) {} }
        else fail("death.exit", "the daemon called exit(%d) although its configuration is valid", ex.code);
        return;
    }
    if (ex.kind == 2) fail("death.exception", "uncaught exception: %s", ex.what.c_str());
    else fail("death.signal", "the daemon died: %s", ex.what.c_str());
}
void Oracle::finish()
{
    int64_t now = K->now;
    if (stopping) return;
    int64_t quiet = now - std::max(lastDisturb, w.lastInjected);
    if (!K->daemonRunning()) return;
    checkRefused(5 * SEC + hangBudget);
    if (lastTerm >= 0)
    {
        if (now - std::max(lastTerm, slowUntil) > 3 * SEC + hangBudget) fail("term.timeout", "still running %.3f s after SIGTERM", (double)(now - lastTerm) / 1e9);
        return;
    }
    if (quiet < 25 * SEC + hangBudget) { if (builds && downSince < 0 && lastTrigger < now - 30 * SEC) {} else return; }
    MCfg want;
    if (!expectZones(want))
    {
        bool ok;
        slurp(w.configPath(), &ok);
        if (ok && lastHup >= 0 && lastHup > w.lastCfgChange && now - lastHup > 30 * SEC + hangBudget) fail("cfg.accepted-invalid", "the daemon keeps running after reloading an invalid configuration");
        return;
    }
    bool viaBus = !cfgPresent;
    bool told = viaBus ? lastTold > lastUntold : lastHup > w.lastCfgChange || daemonStart > w.lastCfgChange;
    if (!told) return;
    int64_t settle = std::max({lastTrigger, lastRpcFault, w.lastInjected, daemonStart});
    bool settled = now - settle > 25 * SEC + hangBudget;
    for (auto& [id, zc] : want.zones)
    {
        Val v;
        std::string zp = ZONEROOT + std::to_string(id);
        if (settled && !K->getProp(zp, IF_MODE, "Manual", v)) { fail("progress.zone", "zone %ld is configured but does not exist %.1f s after the last disturbance", (long)id, (double)(now - settle) / 1e9); continue; }
        auto zi = zones.find(id);
        if (zi == zones.end()) continue;
        MZone& z = zi->second;
        int64_t since = now - std::max(z.lastCycle, z.builtAt);
        if ((settled || !z.cancelled) && since > std::max((int64_t)2 * z.c.cycle * MS, z.c.cycle * MS + 3 * SEC) + hangBudget) fail("progress.cycle", "zone %ld has not run for %.3f s (cycle %ld ms)", (long)id, (double)since / 1e9, (long)z.c.cycle);
    }
    if (settled)
    {
        for (auto& [id, z] : zones)
            if (!want.zones.count(id) && z.builtAt >= 0 && !z.gone) fail("progress.config", "zone %ld is no longer configured but still runs", (long)id);
        // the running configuration is the one on record (a setpoint relative to a threshold is that of the build)
        if (haveCfg)
        {
            auto dump = [&](const MCfg& c) {
                std::stringstream s;
                for (auto& [n, x] : c.sensors) s << n << (viaBus ? "" : x.type) << x.readPath << x.writePath << x.min << x.max << x.timeout << ';';
                for (auto& [i, z] : c.zones)
                {
                    s << i << ' ' << z.minThermal << ' ' << z.fsp << ' ' << z.cycle << ' ' << z.thermal << z.acc;
                    for (auto& [n, p] : z.pids)
                    {
                        s << n << p.type << (p.offset ? 0 : p.setpoint) << ' ' << p.fsp << ' ' << p.kp << ' ' << p.ki << ' ' << p.kd << ' ' << p.ffo << ' ' << p.ffg << ' ' << p.omin << ' ' << p.omax << p.hpos << ' ' << p.hneg;
                        for (auto& in : p.in) s << in.name << in.conv << in.zero << in.missingOk;
                        for (size_t k = 0; k < 20; ++k) s << p.rd[k] << p.out[k];
                    }
                }
                return s.str();
            };
            if (dump(want) != dump(cfg)) fail("progress.config", "the running configuration is not the current one");
        }
    }
    stat["finish-checked"]++;
}
// A reload that read the inventory and started nothing: the inventory must
// have been the reason.
bool Oracle::dbusAttempt(HandlerInfo& h)
{
    bool got = false, broken = false;
    for (auto& [q, p] : h.calls)
    {
        if (q->member == "GetSubTree") got = true;
        bool matters = q->member == "GetSubTree" || q->member == "GetObject" || q->member == "GetManagedObjects" || (!q->args.empty() && (q->args[0].s == IF_VALUE || q->args[0].s == IF_TMODE));
        if (matters && (!p || p->type != Msg::Reply)) broken = true;
    }
    if (!got) return false;
    MCfg c;
    std::string why = "nothing to run";
    bool ready = false;
    try { ready = dbusCfg(&h.calls, c); }
    catch (const std::exception& e) { why = e.what(); }
    // also a sensor or an output that is not there
    for (auto& [n, s] : c.sensors)
    {
        if (!s.writePath.empty() && !w.tree.count(s.writePath)) broken = true;
        if (!w.tree.count(s.readPath) && !hmop()) broken = true;
    }
    K->tracef("ORACLE reload not done: %s", ready ? broken ? "a call failed" : "?" : why.c_str());
    if (ready && !broken && std::max(w.lastInjected, lastRpcFault) < h.begin) fail("progress.config", "the inventory is complete and the daemon did not start its control loops");
    downSince = std::max(downSince, h.fnEnd);
    if (!ready && why == "nothing to run") waiting = true; // until it is told of a change
    stat["reloads-deferred"]++;
    return true;
}

/* ------------------------------------------- configuration over D-Bus ---- */
static constexpr auto IF_PZONE = "xyz.openbmc_project.Configuration.Pid.Zone";
static constexpr auto IF_STEPW = "xyz.openbmc_project.Configuration.Stepwise";
// What entity-manager, the sensor daemons and the settings daemon publish: as
// answered to the daemon (calls), or as it is now (nullptr). Returns false
// when there is nothing to run, throws when the set is not consistent.
bool Oracle::dbusCfg(const std::vector<std::pair<MsgP, MsgP>>* calls, MCfg& out)
{
    auto bad = [](const std::string& s) { throw std::runtime_error(s); };
    auto& lists = listsIface;
    auto good = [](const MsgP& p) { return p && p->type == Msg::Reply && !p->args.empty(); };
    std::map<std::string, std::string> paths; // sensors and fan outputs
    std::set<std::string> owners;
    std::map<std::string, Val> conf;          // path -> a{sa{sv}}
    std::vector<std::string> profiles;
    auto object = [&](const std::string& path, const std::string& svc, const std::vector<std::string>& ifs) {
        for (auto& i : ifs)
        {
            if (i == IF_PID || i == IF_PZONE || i == IF_STEPW) owners.insert(svc);
            if (i == IF_FANPWM || (i == IF_VALUE && path.find("pwm") == std::string::npos)) paths[path] = i;
        }
    };
    // the object tree
    bool asked = false;
    if (calls)
        for (auto& [q, p] : *calls)
            if (q->member == "GetSubTree" && lists(q, IF_PID))
            {
                asked = true;
                if (!good(p)) bad("no answer from the mapper");
                paths.clear();
                owners.clear();
                for (auto& e : p->args[0].c)
                    for (auto& o : e.c[1].c)
                    {
                        std::vector<std::string> ifs;
                        for (auto& i : o.c[1].c) ifs.push_back(i.s);
                        object(e.c[0].s, o.c[0].s, ifs);
                    }
            }
    if (!asked)
        for (auto& [p, o] : w.tree)
        {
            if (!w.visible(o)) continue;
            std::vector<std::string> ifs;
            for (auto& [i, x] : o.ifaces) ifs.push_back(i);
            object(p, o.svc, ifs);
        }
    // the configuration objects
    for (auto& o : owners)
    {
        const Val* d = nullptr;
        bool seen = false;
        if (calls)
            for (auto& [q, p] : *calls)
                if (q->member == "GetManagedObjects" && q->dest == o)
                {
                    seen = true;
                    if (!good(p)) bad("no managed objects");
                    d = &p->args[0];
                }
        if (seen)
            for (auto& e : d->c) conf[e.c[0].s] = e.c[1];
        else
            for (auto& [p, x] : w.tree)
                if (x.svc == o)
                {
                    Val v = Val::array("a{sa{sv}}");
                    for (auto& [i, ps] : x.ifaces) v.c.push_back(Val::entry(Val::str(i), propsVal(ps)));
                    conf[p] = v;
                }
    }
    // the selected profiles
    asked = false;
    if (calls)
        for (auto& [q, p] : *calls)
        {
            if (q->member == "GetSubTree" && lists(q, IF_TMODE))
            {
                asked = true;
                profiles.clear();
                if (!good(p)) bad("no answer from the mapper");
            }
            if (q->member == "Get" && q->args.size() > 1 && q->args[0].s == IF_TMODE)
            {
                if (!good(p)) bad("no profile");
                profiles.push_back(p->args[0].c[0].s);
            }
        }
    if (!asked)
        for (auto& [p, o] : w.tree)
            if (w.visible(o) && o.ifaces.count(IF_TMODE)) profiles.push_back(o.ifaces.at(IF_TMODE).at("Current").s);

    auto num = [&](const Val* v, const char* k, bool req = true, double def = 0) {
        const Val* e = entry(*v, k);
        if (!e) { if (req) bad(std::string("missing ") + k); return def; }
        if (e->t != 'd' && e->t != 't' && e->t != 'x' && e->t != 'b') bad(std::string("not a number: ") + k);
        return e->t == 'd' ? e->d : (double)e->i;
    };
    auto text = [&](const Val* v, const char* k) {
        const Val* e = entry(*v, k);
        if (!e || e->t != 's') bad(std::string("missing ") + k);
        return e->s;
    };
    auto flag = [&](const Val* v, const char* k, bool def) { const Val* e = entry(*v, k); return e ? e->i != 0 : def; };
    auto strs = [&](const Val* v, const char* k, bool req) {
        std::vector<std::string> r;
        const Val* e = entry(*v, k);
        if (!e && req) bad(std::string("missing ") + k);
        if (e) for (auto& x : e->c) r.push_back(x.s);
        return r;
    };
    auto dbls = [&](const Val* v, const char* k) {
        std::vector<double> r;
        if (const Val* e = entry(*v, k))
            for (auto& x : e->c) r.push_back(x.d);
        return r;
    };
    auto us = [](std::string s) { for (auto& c : s) if (c == ' ') c = '_'; return s; };
    auto selected = [&](const Val* v) {
        auto p = strs(v, "Profiles", false);
        if (profiles.empty() || p.empty()) return true;
        for (auto& x : p)
            if (std::find(profiles.begin(), profiles.end(), x) != profiles.end()) return true;
        return false;
    };
    auto findPath = [&](const std::string& name) -> std::string { // the object that ends in that name
        for (auto& [p, i] : paths)
            if (p.size() > name.size() && p.compare(p.size() - name.size(), name.size(), name) == 0 && p[p.size() - name.size() - 1] == '/') return p;
        return "";
    };
    auto findPaths = [&](const std::string& name) { // a name may be a pattern
        std::vector<std::string> v;
        if (name.find_first_of("|[(") == std::string::npos) return std::vector<std::string>{findPath(name)};
        std::regex re("/" + name + "$");
        for (auto& [p, i] : paths)
            if (std::regex_search(p, re)) v.push_back(p);
        if (v.empty()) v.push_back("");
        return v;
    };
    auto typePath = [](const std::string& t, const std::string& n) {
        return std::string("/xyz/openbmc_project/sensors/") + (t == "temp" || t == "margin" ? "temperature" : t == "fan" ? "fan_tach" : "power") + "/" + n;
    };
    std::vector<std::pair<const Val*, int>> items; // 0 zone 1 pid 2 stepwise
    for (auto& [p, v] : conf)
    {
        int k = 0;
        for (auto* i : {IF_PZONE, IF_PID, IF_STEPW})
        {
            const Val* d = entry(v, i);
            if (d && selected(d)) items.push_back({d, k});
            ++k;
        }
    }
    std::map<std::string, int64_t> idx;
    std::map<int64_t, MZoneCfg> det;
    std::vector<std::pair<std::string, MZoneCfg>> unnumbered;
    std::set<int64_t> loops;
    out = MCfg();
    for (auto& [v, k] : items)
    {
        if (k) continue;
        MZoneCfg z;
        z.id = entry(*v, "ZoneIndex") ? (int64_t)num(v, "ZoneIndex") : -1;
        z.minThermal = num(v, "MinThermalOutput");
        z.fsp = num(v, "FailSafePercent", false);
        double c = num(v, "CycleIntervalTimeMS", false), t = num(v, "UpdateThermalsTimeMS", false);
        if (c >= 1) z.cycle = (int64_t)c;
        if (t >= 1) z.thermal = (int64_t)t;
        z.acc = flag(v, "AccumulateSetPoint", false);
        idx[text(v, "Name")] = z.id;
        if (z.id >= 0) det[z.id] = z;
        else unnumbered.push_back({text(v, "Name"), z});
    }
    for (auto& [n, z] : unnumbered) // the first number that is free
    {
        z.id = 0;
        while (det.count(z.id)) ++z.id;
        idx[n] = z.id;
        det[z.id] = z;
    }
    int64_t unknown = 1000000;
    for (auto& [v, k] : items)
    {
        if (!k) continue;
        for (auto& zn : strs(v, "Zones", true))
        {
            if (!idx.count(zn)) idx[zn] = unknown++;
            int64_t id = idx[zn];
            loops.insert(id);
            auto& Z = det[id];
            MPid m;
            m.name = us(text(v, "Name"));
            std::string cls = text(v, "Class");
            m.type = k == 2 ? "stepwise" : cls;
            std::string st = k == 2 ? "temp" : cls;
            auto in = strs(v, "Inputs", true), miss = strs(v, "MissingIsAcceptable", false);
            auto zero = dbls(v, "TempToMargin");
            bool uaf = flag(v, "InputUnavailableAsFailed", true), iho = flag(v, "IgnoreFailIfHostOff", false);
            if (cls == "fan")
            {
                std::vector<std::string> tach, pwm;
                for (auto& n : in)
                    if (auto p = findPath(us(n)); !p.empty()) tach.push_back(p);
                for (auto& n : strs(v, "Outputs", true))
                    if (auto p = findPath(us(n)); !p.empty()) pwm.push_back(p);
                if (pwm.size() != 1 && pwm.size() != tach.size()) bad("fan loop with " + std::to_string(tach.size()) + " inputs and " + std::to_string(pwm.size()) + " outputs");
                for (size_t i = 0; i < tach.size(); ++i)
                {
                    MSensorCfg s;
                    auto base = [](const std::string& p) { return p.substr(p.rfind('/') + 1); };
                    const auto& o = pwm.size() == 1 ? pwm[0] : pwm[i];
                    s.name = base(tach[i]) + base(o);
                    s.type = "fan";
                    s.readPath = tach[i];
                    s.writePath = o;
                    s.max = 255;
                    s.unavailAsFailed = false;
                    out.sensors[s.name] = s;
                    MInput x;
                    x.name = s.name;
                    m.in.push_back(x);
                }
            }
            else
                for (size_t i = 0; i < in.size(); ++i)
                for (std::string p : findPaths(us(in[i])))
                {
                    std::string n = us(in[i]);
                    bool ok = std::find(miss.begin(), miss.end(), in[i]) != miss.end();
                    if (p.empty())
                    {
                        if (!hmop() || ok) continue;
                        p = typePath(st, n);
                    }
                    else
                    {
                        m.anyOrder |= n.find_first_of("|[(") != std::string::npos;
                        n = p.substr(p.rfind('/') + 1);
                    }
                    MSensorCfg s;
                    s.name = n;
                    s.type = st;
                    s.readPath = p;
                    s.ignoreMinMax = true;
                    s.unavailAsFailed = uaf;
                    s.ignoreHostOff = iho;
                    out.sensors[n] = s;
                    MInput x;
                    x.name = n;
                    x.missingOk = ok;
                    if (i < zero.size()) { x.conv = true; x.zero = zero[i]; }
                    m.in.push_back(x);
                }
            if (m.in.empty()) continue;
            m.hpos = num(v, "PositiveHysteresis", false);
            m.hneg = num(v, "NegativeHysteresis", false);
            if (k == 2)
            {
                m.ceiling = cls == "Ceiling";
                auto r = dbls(v, "Reading"), o = dbls(v, "Output");
                if (r.empty() || r.size() > 20 || r.size() != o.size()) bad("curve");
                std::copy(r.begin(), r.end(), m.rd.begin());
                std::copy(o.begin(), o.end(), m.out.begin());
                Z.pids[m.name] = m;
                continue;
            }
            m.setpoint = cls == "fan" ? 0 : num(v, "SetPoint");
            m.fsp = num(v, "FailSafePercent", false);
            m.hset = flag(v, "CheckHysteresisWithSetpoint", false);
            m.kp = num(v, "PCoefficient");
            m.ki = num(v, "ICoefficient");
            m.kd = num(v, "DCoefficient", false);
            m.ffo = num(v, "FFOffCoefficient");
            m.ffg = num(v, "FFGainCoefficient");
            m.imin = num(v, "ILimitMin");
            m.imax = num(v, "ILimitMax");
            m.omin = num(v, "OutLimitMin");
            m.omax = num(v, "OutLimitMax");
            m.sneg = num(v, "SlewNeg");
            m.spos = num(v, "SlewPos");
            const Val* off = entry(*v, "SetPointOffset");
            if (!off) { Z.pids[m.name] = m; continue; }
            // one loop per sensor, relative to one of its thresholds
            std::string ifn = off->s.rfind("Warning", 0) == 0 ? IF_WARN : IF_CRIT;
            if (off->s != "WarningHigh" && off->s != "WarningLow" && off->s != "CriticalHigh" && off->s != "CriticalLow") bad("threshold " + off->s);
            for (auto& i : m.in)
            {
                MPid x = m;
                x.name = i.name;
                x.in = {i};
                x.offset = true;
                const auto& rp = out.sensors[i.name].readPath;
                auto t = w.tree.find(rp);
                bool has = t != w.tree.end() && w.visible(t->second) && t->second.ifaces.count(ifn), got = false;
                if (calls)
                    for (auto& [q, p] : *calls)
                    {
                        if (q->member == "GetObject" && q->args.size() > 1 && q->args[0].s == rp)
                            for (auto& a : q->args[1].c)
                                if (a.s == ifn && !got) has = good(p);
                        if (q->member == "Get" && q->path == rp && q->args.size() > 1 && q->args[0].s == ifn && q->args[1].s == off->s)
                        {
                            got = true;
                            if (good(p)) x.setpoint = m.setpoint + (p->args[0].c[0].t == 'd' ? p->args[0].c[0].d : (double)p->args[0].c[0].i);
                        }
                    }
                if (!has && !got) bad("no thresholds for " + i.name);
                if (!got && t != w.tree.end() && t->second.ifaces.count(ifn) && t->second.ifaces.at(ifn).count(off->s)) x.setpoint = m.setpoint + t->second.ifaces.at(ifn).at(off->s).d;
                Z.pids[x.name] = x;
            }
        }
    }
    if (loops.empty()) return false;
    bool anyZone = false;
    for (auto& [v, k] : items) anyZone |= k == 0;
    if (!anyZone) return false;
    for (auto id : loops)
    {
        if (id >= 1000000) bad("loop in an unknown zone");
        out.zones[id] = det[id];
    }
    return true;
}
} // namespace sim
