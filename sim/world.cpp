#include "world.hpp"

#include <dirent.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <limits>
#include <sstream>

namespace sim
{
namespace fs = std::filesystem;
extern std::map<std::pair<uint32_t, uint8_t>, std::function<uint8_t(uint8_t, const uint8_t*, uint8_t*, size_t*)>> ipmiHandlers;

std::string slurp(const std::string& path, bool* ok)
{
    struct stat st;
    if (::stat(path.c_str(), &st) != 0 || !S_ISREG(st.st_mode))
    {
        if (ok) *ok = false;
        return "";
    }
    OwnOpen own;
    std::ifstream f(path);
    if (ok) *ok = f.good();
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
double jnum(const json& j, double def)
{
    if (j.is_number()) return j.get<double>();
    if (j.is_string())
    {
        auto s = j.get<std::string>();
        if (s == "nan") return std::numeric_limits<double>::quiet_NaN();
        if (s == "inf") return std::numeric_limits<double>::infinity();
        if (s == "-inf") return -std::numeric_limits<double>::infinity();
    }
    return def;
}
std::string World::sub(std::string s) const
{
    size_t p;
    while ((p = s.find("$R")) != std::string::npos) s.replace(p, 2, R);
    return s;
}
json World::subj(const json& j) const
{
    if (j.is_string()) return sub(j.get<std::string>());
    if (j.is_array())
    {
        json r = json::array();
        for (auto& x : j) r.push_back(subj(x));
        return r;
    }
    if (j.is_object())
    {
        json r = json::object();
        for (auto& [k, v] : j.items()) r[k] = subj(v);
        return r;
    }
    return j;
}
Val World::toVal(const json& j, const std::string& sig)
{
    if (sig == "d") return Val::dbl(jnum(j));
    if (sig == "s") return Val::str(j.get<std::string>());
    if (sig == "o") return Val::path(j.get<std::string>());
    if (sig == "b") return Val::boolean(j.get<bool>());
    if (sig == "as")
    {
        std::vector<std::string> v;
        for (auto& x : j) v.push_back(x.get<std::string>());
        return Val::strs(v);
    }
    if (sig == "ad")
    {
        Val r = Val::array("ad");
        for (auto& x : j) r.c.push_back(Val::dbl(jnum(x)));
        return r;
    }
    if (sig == "t") return Val::u64(j.get<uint64_t>());
    if (sig == "x") return Val::i64(j.get<int64_t>());
    return Val::str("?");
}
static std::string inferSig(const json& j)
{
    if (j.is_boolean()) return "b";
    if (j.is_number()) return "d";
    if (j.is_string()) return "s";
    if (j.is_array()) return (!j.empty() && j[0].is_number()) ? "ad" : "as";
    return "s";
}
// entity-manager publishes numbers as they stand in its configuration
static std::string emSig(const json& j)
{
    if (j.is_number_integer()) return j.get<int64_t>() < 0 ? "x" : "t";
    return inferSig(j);
}
void World::writeFile(const std::string& path, const std::string& content)
{
    fs::create_directories(fs::path(path).parent_path());
    OwnOpen own;
    if (FILE* f = ::fopen(path.c_str(), "w"))
    {
        fwrite(content.data(), 1, content.size(), f);
        fclose(f);
    }
}
std::string World::configPath() const
{
    auto c = sub(sc.value("cfgpath", std::string("$R/etc/cfg.json")));
    // without -c: the first of these
    if (c.size() > 19 && c.compare(c.size() - 19, 19, "/swampd/config.json") == 0)
        for (auto* d : {"/tmp/config.json", "/var/lib/swampd/config.json", "/usr/share/swampd/config.json"})
            if (fs::exists(R + d)) return R + d;
    return c;
}
bool World::cfgValid() const
{
    auto p = configPath();
    auto i = cfgGood.find(p);
    return (i == cfgGood.end() || i->second) && !failOpen.count(p);
}
void World::writeConfig(int idx, int64_t torn, const std::string& at)
{
    std::string path = at.empty() ? configPath() : at;
    auto& good = cfgGood[path];
    std::string t;
    if (idx >= 0 && idx < (int)sc["cfg"].size())
    {
        auto& c = sc["cfg"][idx];
        t = c.is_string() ? sub(c.get<std::string>()) : subj(c).dump(1);
        good = !c.is_string();
    }
    if (torn >= 0)
    {
        t = t.substr(0, (size_t)torn);
        good = false;
        try { (void)json::parse(t); good = true; } catch (...) {}
    }
    writeFile(path, t);
    lastCfgChange = K->now;
}
void World::setPwmFault(const std::string& path, const std::string& f)
{
    std::error_code ec;
    auto& cur = pwmFault[path];
    failOpen.erase(path);
    if (cur == "full" || cur == "eisdir")
    {
        fs::remove_all(path, ec);
        writeFile(path, "0");
    }
    cur = f == "ok" ? "" : f;
    if (f == "emfile") failOpen[path] = EMFILE;
    if (f == "eio") failOpen[path] = EIO;
    if (f == "eisdir" || f == "full") fs::remove_all(path, ec);
    if (f == "eisdir") fs::create_directory(path, ec);
    if (f == "full") fs::create_symlink("/dev/full", path, ec);
    if (f != "ok") faultCount["file-" + f]++;
}
WSvc& World::svc(const std::string& name)
{
    auto it = svcs.find(name);
    if (it != svcs.end()) return it->second;
    WSvc& s = svcs[name];
    s.name = name;
    s.s = K->addService(name, [this, name](const MsgP& m) { return handle(svcs[name], m); });
    s.s->delay = [this, name](const MsgP&) -> int64_t {
        auto& s = svcs[name];
        return K->now < s.slowUntil ? s.slowNs : 0;
    };
    return s;
}
void World::setProps(const std::string& path, const std::string& iface, const Props& p, bool emit)
{
    auto it = tree.find(path);
    if (it == tree.end()) return;
    for (auto& [k, v] : p) it->second.ifaces[iface][k] = v;
    if (!emit) return;
    auto m = std::make_shared<Msg>();
    m->path = path;
    m->iface = IF_PROP;
    m->member = "PropertiesChanged";
    Val d = Val::array("a{sv}");
    for (auto& [k, v] : p) d.c.push_back(Val::entry(Val::str(k), Val::var(v)));
    // services that publish a second, unrelated property along with the first
    if (bundle && path.starts_with("/xyz/openbmc_project/sensors/") && iface != IF_FANPWM)
        d.c.insert(bundle == 1 ? d.c.begin() : d.c.end(), Val::entry(Val::str("PollingInterval"), Val::var(bundle == 1 ? Val::dbl(12.5) : Val::boolean(true))));
    m->args = {Val::str(iface), d, p.empty() ? Val::strs({"Invalidated"}) : Val::strs({})};
    K->emitSignal(svc(it->second.svc).s, m);
}
static Val ifacesVal(const Ifaces& i)
{
    Val d = Val::array("a{sa{sv}}");
    for (auto& [n, ps] : i)
    {
        Val pd = Val::array("a{sv}");
        for (auto& [k, v] : ps) pd.c.push_back(Val::entry(Val::str(k), Val::var(v)));
        d.c.push_back(Val::entry(Val::str(n), pd));
    }
    return d;
}
void World::addObj(const std::string& path, const std::string& svcName, const Ifaces& i, bool emit)
{
    tree[path] = {svcName, i};
    svc(svcName);
    if (emit) added(path, tree[path]);
}
bool World::visible(const WObj& o) const
{
    auto i = svcs.find(o.svc);
    return i != svcs.end() && i->second.s->alive;
}
void World::added(const std::string& path, const WObj& o)
{
    auto& s = svc(o.svc);
    if (s.mgr.empty()) return;
    auto m = std::make_shared<Msg>();
    m->path = s.mgr;
    m->iface = IF_OM;
    m->member = "InterfacesAdded";
    m->args = {Val::path(path), ifacesVal(o.ifaces)};
    K->emitSignal(s.s, m);
}
void World::delObj(const std::string& path, bool emit)
{
    auto it = tree.find(path);
    if (it == tree.end()) return;
    auto& s = svc(it->second.svc);
    std::vector<std::string> names;
    for (auto& [n, x] : it->second.ifaces) names.push_back(n);
    tree.erase(it);
    if (!emit || s.mgr.empty()) return;
    auto m = std::make_shared<Msg>();
    m->path = s.mgr;
    m->iface = IF_OM;
    m->member = "InterfacesRemoved";
    m->args = {Val::path(path), Val::strs(names)};
    K->emitSignal(s.s, m);
}
static bool under(const std::string& p, const std::string& root)
{
    return root == "/" || p == root || (p.size() > root.size() && p.compare(0, root.size(), root) == 0 && p[root.size()] == '/');
}
MsgP World::mapper(const MsgP& m)
{
    auto wants = [](const WObj& o, const Val& ifs, std::vector<std::string>& names) {
        bool any = ifs.c.empty();
        for (auto& [n, x] : o.ifaces)
        {
            names.push_back(n);
            for (auto& w : ifs.c)
                if (w.s == n) any = true;
        }
        return any;
    };
    if (m->member == "GetObject")
    {
        auto it = tree.find(m->args[0].s);
        std::vector<std::string> names;
        if (it == tree.end() || !visible(it->second) || !wants(it->second, m->args[1], names))
            return K->errorReply(m, "xyz.openbmc_project.Common.Error.ResourceNotFound", "path or object not found: " + m->args[0].s);
        auto r = K->reply(m);
        Val d = Val::array("a{sas}");
        d.c.push_back(Val::entry(Val::str(it->second.svc), Val::strs(names)));
        r->args = {d};
        return r;
    }
    if (m->member == "GetSubTree" || m->member == "GetSubTreePaths")
    {
        Val d = Val::array("a{sa{sas}}");
        for (auto& [p, o] : tree)
        {
            std::vector<std::string> names;
            if (!under(p, m->args[0].s) || !visible(o) || !wants(o, m->args[2], names)) continue;
            Val sd = Val::array("a{sas}");
            sd.c.push_back(Val::entry(Val::str(o.svc), Val::strs(names)));
            d.c.push_back(Val::entry(Val::str(p), sd));
        }
        // the manager objects of services
        for (auto& [n, s] : svcs)
        {
            if (s.mgr.empty() || !s.s->alive) continue;
            bool want = m->args[2].c.empty();
            for (auto& w : m->args[2].c) want |= w.s == IF_OM;
            if (!want || !under(s.mgr, m->args[0].s)) continue;
            Val* found = nullptr;
            for (auto& e : d.c)
                if (e.c[0].s == s.mgr) found = &e.c[1];
            Val ent = Val::entry(Val::str(n), Val::strs({IF_OM}));
            if (found) found->c.push_back(ent);
            else
            {
                Val sd = Val::array("a{sas}");
                sd.c.push_back(ent);
                d.c.push_back(Val::entry(Val::str(s.mgr), sd));
            }
        }
        auto r = K->reply(m);
        r->args = {d};
        return r;
    }
    return K->errorReply(m, "org.freedesktop.DBus.Error.UnknownMethod", m->member);
}
MsgP World::handle(WSvc& s, const MsgP& m)
{
    if (K->now < s.hangUntil)
    {
        faultCount["rpc-no-reply"]++;
        return nullptr;
    }
    if (s.errs > 0 && (s.errMember.empty() || s.errMember == m->member) && s.errSkip-- <= 0)
    {
        --s.errs;
        faultCount["rpc-error"]++;
        lastInjected = K->now;
        auto r = K->errorReply(m, "org.freedesktop.DBus.Error.Failed", "injected failure");
        if (L) L->served(m, r);
        if (m->member == "Set" && m->args.size() > 2 && m->args[0].s == IF_FANPWM)
            pwmSets.push_back({K->now, m->path, (uint64_t)m->args[2].c[0].i, false});
        return r;
    }
    if (K->now < s.slowUntil) faultCount["rpc-slow"]++;
    MsgP r;
    if (s.name == "xyz.openbmc_project.ObjectMapper") r = mapper(m);
    else
    {
        auto it = tree.find(m->path);
        if (m->iface == IF_PROP)
        {
            if (it == tree.end() || it->second.svc != s.name)
                r = K->errorReply(m, "org.freedesktop.DBus.Error.UnknownObject", "Unknown object '" + m->path + "'.");
            else
            {
                auto fi = it->second.ifaces.find(m->args.empty() ? "" : m->args[0].s);
                if (fi == it->second.ifaces.end())
                    r = K->errorReply(m, "org.freedesktop.DBus.Error.UnknownInterface", "Unknown interface");
                else if (m->member == "GetAll")
                {
                    r = K->reply(m);
                    Val d = Val::array("a{sv}");
                    for (auto& [k, v] : fi->second) d.c.push_back(Val::entry(Val::str(k), Val::var(v)));
                    r->args = {d};
                }
                else if (m->member == "Get")
                {
                    auto pi = fi->second.find(m->args[1].s);
                    if (pi == fi->second.end()) r = K->errorReply(m, "org.freedesktop.DBus.Error.UnknownProperty", "Unknown property");
                    else
                    {
                        r = K->reply(m);
                        r->args = {Val::var(pi->second)};
                    }
                }
                else if (m->member == "Set")
                {
                    fi->second[m->args[1].s] = m->args[2].c[0];
                    if (m->args[0].s == IF_FANPWM) pwmSets.push_back({K->now, m->path, (uint64_t)m->args[2].c[0].i, true});
                    r = K->reply(m);
                    Props p{{m->args[1].s, m->args[2].c[0]}};
                    setProps(m->path, m->args[0].s, p, true);
                }
            }
        }
        else if (m->iface == IF_OM && m->member == "GetManagedObjects")
        {
            if (s.mgr != m->path) r = K->errorReply(m, "org.freedesktop.DBus.Error.UnknownObject", m->path);
            else
            {
                r = K->reply(m);
                Val d = Val::array("a{oa{sa{sv}}}");
                for (auto& [p, o] : tree)
                    if (o.svc == s.name && under(p, s.mgr)) d.c.push_back(Val::entry(Val::path(p), ifacesVal(o.ifaces)));
                r->args = {d};
            }
        }
        if (!r) r = K->errorReply(m, "org.freedesktop.DBus.Error.UnknownMethod", m->member);
    }
    if (L) L->served(m, r);
    return r;
}
Val World::rawVal(const WSensor& s, double v) const
{
    double raw = s.scale ? v * std::pow(10.0, -s.scale) : v;
    if (s.intv && std::isfinite(raw)) return Val::i64((int64_t)std::llround(raw));
    return Val::dbl(raw);
}
void World::pushValue(WSensor& s, double v, bool emit)
{
    s.val = v;
    if (s.ext)
    {
        if (emit) clientSet({{"k", "exttick"}}, s.path, IF_VALUE, "Value", Val::dbl(v), "xyz.openbmc_project.Hwmon.external");
        return;
    }
    if (!s.file.empty())
    {
        writeFile(s.file, std::to_string((long long)std::llround(v)) + "\n");
        return;
    }
    setProps(s.path, IF_VALUE, {{"Value", rawVal(s, v)}}, emit);
}
double World::pwmFraction(const std::string& path) const
{
    auto it = tree.find(path);
    if (it != tree.end())
    {
        auto f = it->second.ifaces.find(IF_FANPWM);
        if (f != it->second.ifaces.end() && f->second.count("Target")) return (double)f->second.at("Target").i / 255.0;
        return 0;
    }
    auto pf = pwmFault.find(path);
    if (pf != pwmFault.end() && !pf->second.empty()) return 0;
    bool ok;
    std::string t = slurp(path, &ok);
    return ok ? atof(t.c_str()) / 255.0 : 0;
}
void World::tick(const std::string& name)
{
    auto& s = sensors[name];
    double d = (s.rng.unit() * 2 - 1) * s.step;
    double noise = s.rng.unit();
    if (!s.frozen && s.present)
    {
        double v;
        if (!s.follow.empty()) v = s.base + s.amp * std::clamp(pwmFraction(s.follow), 0.0, 2.0) + (noise - 0.5) * s.step;
        else
        {
            v = (std::isfinite(s.val) ? s.val : s.base) + d;
            if (v > s.base + s.amp) v = s.base + s.amp - std::fabs(d);
            if (v < s.base - s.amp) v = s.base - s.amp + std::fabs(d);
        }
        v = std::round(v / s.q) * s.q;
        if (s.nan) v = std::numeric_limits<double>::quiet_NaN();
        if (s.file.empty() || !s.nan) pushValue(s, v, true);
    }
    K->after(s.period, [this, name] { tick(name); });
}
Props World::valueProps(const json& s, WSensor& w)
{
    Props p;
    p["Value"] = rawVal(w, w.val);
    std::string unit = s.value("type", std::string("temp"));
    p["Unit"] = Val::str(unit == "fan" ? "xyz.openbmc_project.Sensor.Value.Unit.RPMS" : unit == "power" || unit == "powersum" ? "xyz.openbmc_project.Sensor.Value.Unit.Watts" : "xyz.openbmc_project.Sensor.Value.Unit.DegreesC");
    if (s.contains("min")) p["MinValue"] = rawVal(w, jnum(s["min"]));
    if (s.contains("max")) p["MaxValue"] = rawVal(w, jnum(s["max"]));
    if (w.hasScale) p["Scale"] = Val::i64(w.scale);
    return p;
}
static const char* IF_ASSOC = "xyz.openbmc_project.Association";
static const char* IF_ASSOCDEF = "xyz.openbmc_project.Association.Definitions";
static Val associations()
{
    Val r = Val::array("a(sss)"), e;
    e.t = '(';
    e.c = {Val::str("chassis"), Val::str("all_sensors"), Val::str("/xyz/openbmc_project/inventory/system/board/Main")};
    r.c.push_back(e);
    return r;
}
static Ifaces sensorIfaces(World& w, const json& s, WSensor& x)
{
    Ifaces f;
    f[IF_VALUE] = w.valueProps(s, x);
    if (s.contains("crit"))
    {
        f[IF_CRIT]["CriticalAlarmLow"] = Val::boolean(s["crit"].value("lo", false));
        f[IF_CRIT]["CriticalAlarmHigh"] = Val::boolean(s["crit"].value("hi", false));
        if (s["crit"].contains("high")) f[IF_CRIT]["CriticalHigh"] = Val::dbl(jnum(s["crit"]["high"]));
        if (s["crit"].contains("low")) f[IF_CRIT]["CriticalLow"] = Val::dbl(jnum(s["crit"]["low"]));
    }
    if (s.contains("warn"))
    {
        f[IF_WARN]["WarningAlarmLow"] = Val::boolean(false);
        f[IF_WARN]["WarningAlarmHigh"] = Val::boolean(s["warn"].value("hi", false));
        if (s["warn"].contains("high")) f[IF_WARN]["WarningHigh"] = Val::dbl(jnum(s["warn"]["high"]));
        if (s["warn"].contains("low")) f[IF_WARN]["WarningLow"] = Val::dbl(jnum(s["warn"]["low"]));
    }
    if (s.contains("avail")) f[IF_AVAIL]["Available"] = Val::boolean(s["avail"].get<bool>());
    if (s.contains("func")) f[IF_OPER]["Functional"] = Val::boolean(s["func"].get<bool>());
    if (s.value("assoc", false)) f[IF_ASSOCDEF]["Associations"] = associations();
    return f;
}
void World::emAdd(const json& obj, bool emit)
{
    Ifaces f;
    for (auto& [ifn, ps] : obj["ifaces"].items())
    {
        auto& p = f[ifn];
        for (auto& [k, v] : ps.items()) p[k] = toVal(v, emSig(v));
    }
    addObj(obj["path"].get<std::string>(), "xyz.openbmc_project.EntityManager", f, emit);
}
void World::init(const json& scenario)
{
    sc = scenario;
    R = scratchDir;
    fs::create_directories(R + "/tmp");
    fs::create_directories(R + "/log");
    fs::create_directories(R + "/etc/thermal.d");
    svc("xyz.openbmc_project.ObjectMapper");
    if (sc.contains("files"))
        for (auto& [p, c] : sc["files"].items()) writeFile(sub(p), sub(c.get<std::string>()));
    if (sc.contains("cfg") && !sc["cfg"].empty()) writeConfig(0);
    if (sc.contains("pwmfiles"))
        for (auto& p : sc["pwmfiles"]) writeFile(sub(p.get<std::string>()), "0");
    bundle = sc.value("bundle", 0);
    for (auto& s : sc.value("sensors", json::array()))
    {
        WSensor w;
        w.name = s["name"];
        w.base = s.value("base", 30.0);
        w.amp = s.value("amp", 5.0);
        w.step = s.value("step", 1.0);
        w.q = s.value("q", 0.25);
        w.period = s.value("period", 1000) * MS;
        w.hasScale = s.contains("scale");
        w.scale = s.value("scale", 0);
        w.intv = s.value("intv", false);
        w.present = s.value("present", true);
        w.frozen = s.value("frozen", false);
        w.rng = Rng(s.value("seed", (uint64_t)1));
        w.follow = sub(s.value("follow", std::string()));
        w.val = s.contains("init") ? jnum(s["init"]) : w.base;
        if (s.contains("file"))
        {
            w.file = sub(s["file"].get<std::string>());
            if (w.present) writeFile(w.file, std::to_string((long long)std::llround(w.val)) + "\n");
        }
        else if (s.value("ext", false))
        {
            w.ext = true;
            w.path = s["path"];
        }
        else
        {
            w.path = s["path"];
            w.svc = s.value("svc", std::string("xyz.openbmc_project.HwmonTempSensor"));
            auto& sv = svc(w.svc);
            sv.mgr = "/xyz/openbmc_project/sensors";
            pathSensor[w.path] = w.name;
        }
        sensors[w.name] = w;
        if (w.file.empty() && !w.ext && w.present) addObj(w.path, w.svc, sensorIfaces(*this, s, sensors[w.name]), false);
    }
    for (auto& p : sc.value("pwms", json::array()))
    {
        Ifaces f;
        f[IF_FANPWM]["Target"] = Val::u64(p.value("init", 0));
        addObj(p["path"].get<std::string>(), p.value("svc", std::string("xyz.openbmc_project.FanSensor")), f, false);
    }
    if (sc.contains("host"))
    {
        hostOn = sc["host"].get<std::string>() == "Running";
        Ifaces f;
        f[IF_HOST]["CurrentHostState"] = Val::str("xyz.openbmc_project.State.Host.HostState." + sc["host"].get<std::string>());
        addObj("/xyz/openbmc_project/state/host0", "xyz.openbmc_project.State.Host0", f, false);
    }
    for (auto* n : {"redundancy", "redundancy2"})
    {
        if (!sc.contains(n)) continue;
        Ifaces f;
        f[IF_RED]["Status"] = Val::str("xyz.openbmc_project.Control.FanRedundancy.State." + sc[n]["status"].get<std::string>());
        f[IF_RED]["Collection"] = toVal(sc[n]["coll"], "as");
        f[IF_RED]["AllowedFailures"] = Val::i64(1);
        addObj(std::string("/xyz/openbmc_project/control/FanRedundancy/Tach") + (n + 10), "xyz.openbmc_project.FanSensor", f, false);
    }
    for (auto* n : {"profile", "profile2"})
        if (sc.contains(n))
        {
            Ifaces f;
            f[IF_TMODE]["Current"] = Val::str(sc[n].get<std::string>());
            f[IF_TMODE]["Supported"] = Val::strs({"Acoustic", "Performance"});
            addObj(std::string("/xyz/openbmc_project/control/thermal_mode") + (n + 7), "xyz.openbmc_project.Settings", f, false);
        }
    if (sc.contains("em"))
    {
        svc("xyz.openbmc_project.EntityManager").mgr = sc.value("emmgr", std::string("/xyz/openbmc_project/inventory"));
        for (auto& o : sc["em"])
            if (o.value("present", true)) emAdd(o, false);
    }
}
void World::start()
{
    for (auto& s : sc.value("sensors", json::array()))
    {
        auto& w = sensors[s["name"]];
        if (w.period > 0 && !s.value("quiet", false))
        {
            std::string n = w.name;
            K->after((int64_t)(w.rng.unit() * (double)w.period) + 1, [this, n] { tick(n); });
        }
    }
    for (auto& e : sc.value("ev", json::array()))
    {
        json ev = e;
        K->at(100 * SEC + (int64_t)(ev["t"].get<double>() * 1e6), [this, ev] { apply(ev); });
    }
}
void World::clientSet(const json& ev, const std::string& path, const std::string& iface, const std::string& prop, Val v, const std::string& dest)
{
    auto m = std::make_shared<Msg>();
    m->dest = dest;
    m->path = path;
    m->iface = IF_PROP;
    m->member = "Set";
    m->args = {Val::str(iface), Val::str(prop), Val::var(std::move(v))};
    int64_t t0 = K->now;
    auto req = m;
    K->clientCall(":1.9", m, [this, ev, req, t0](const MsgP& r) { if (L) L->clientDone(ev, req, r, t0); });
}
void World::clientGet(const json& ev, const std::string& path, const std::string& iface, const std::string& prop, const std::string& dest)
{
    auto m = std::make_shared<Msg>();
    m->dest = dest;
    m->path = path;
    m->iface = IF_PROP;
    m->member = prop.empty() ? "GetAll" : "Get";
    m->args = {Val::str(iface)};
    if (!prop.empty()) m->args.push_back(Val::str(prop));
    int64_t t0 = K->now;
    auto req = m;
    K->clientCall(":1.9", m, [this, ev, req, t0](const MsgP& r) { if (L) L->clientDone(ev, req, r, t0); });
}
static Node* ipmiNode = nullptr;
std::string ipmidSo;
bool ipmiLoad()
{
    if (ipmiNode) return true;
    ipmiNode = K->newNode("ipmid", false);
    Node* s = K->cur;
    HandlerInfo* h = K->hi;
    K->cur = ipmiNode;
    K->hi = nullptr;
    void* d = dlopen(ipmidSo.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (d)
        for (auto* sym : {"_Z12registerOEMv"}) (void)sym;
    K->cur = s;
    K->hi = h;
    return d != nullptr;
}
void World::ipmiReq(const json& ev, std::vector<uint8_t> req)
{
    if (!ipmiLoad() || ipmiHandlers.empty()) { if (L) L->ipmiDone(ev, -1, {}, K->now); return; }
    int64_t t0 = K->now;
    json e = ev;
    HandlerInfo* h = K->hi;
    K->hi = nullptr;
    fiberRun(ipmiNode, [this, e, req, t0] {
        uint8_t out[256];
        memset(out, 0xEE, sizeof out);
        size_t len = req.size();
        std::vector<uint8_t> in(req);
        in.resize(std::max<size_t>(in.size(), 16), 0xA5);
        uint8_t cc = ipmiHandlers.begin()->second(ipmiHandlers.begin()->first.second, in.data(), out, &len);
        std::vector<uint8_t> o(out, out + std::min<size_t>(len, sizeof out));
        if (L) L->ipmiDone(e, cc, o, t0);
    });
    K->hi = h;
}
void World::apply(const json& ev)
{
    std::string k = ev["k"];
    evCount[k]++;
    K->tracef("event %s", ev.dump().c_str());
    auto sensor = [&]() -> WSensor* {
        auto it = sensors.find(ev.value("s", std::string()));
        return it == sensors.end() ? nullptr : &it->second;
    };
    auto later = [&](json e2) {
        if (!ev.contains("dur")) return;
        K->after((int64_t)(ev["dur"].get<double>() * 1e6), [this, e2] { apply(e2); });
    };
    if (k == "val")
    {
        if (auto* s = sensor()) pushValue(*s, jnum(ev["v"]), ev.value("emit", true));
    }
    else if (k == "base")
    {
        if (auto* s = sensor()) { s->base = jnum(ev["v"]); s->val = s->base; }
    }
    else if (k == "freeze")
    {
        if (auto* s = sensor()) { s->frozen = ev.value("on", true); if (s->frozen) faultCount["sensor-frozen"]++; }
        json e2{{"k", "freeze"}, {"s", ev["s"]}, {"on", false}};
        later(e2);
    }
    else if (k == "nan")
    {
        if (auto* s = sensor())
        {
            s->nan = ev.value("on", true);
            if (s->nan) faultCount["sensor-nan"]++;
        }
        later({{"k", "nan"}, {"s", ev["s"]}, {"on", false}});
    }
    else if (k == "crit" || k == "warn")
    {
        if (auto* s = sensor())
        {
            Props p;
            std::string pre = k == "crit" ? "CriticalAlarm" : "WarningAlarm";
            bool asserted = false;
            if (ev.contains("lo")) { p[pre + "Low"] = Val::boolean(ev["lo"].get<bool>()); asserted |= ev["lo"].get<bool>(); }
            if (ev.contains("hi")) { p[pre + "High"] = Val::boolean(ev["hi"].get<bool>()); asserted |= ev["hi"].get<bool>(); }
            if (asserted) faultCount["threshold-alarm"]++;
            setProps(s->path, k == "crit" ? IF_CRIT : IF_WARN, p, true);
        }
    }
    else if (k == "avail" || k == "func")
    {
        if (auto* s = sensor())
        {
            if (!ev["b"].get<bool>()) faultCount[k == "avail" ? "sensor-unavailable" : "sensor-nonfunctional"]++;
            setProps(s->path, k == "avail" ? IF_AVAIL : IF_OPER, {{k == "avail" ? "Available" : "Functional", Val::boolean(ev["b"].get<bool>())}}, true);
        }
    }
    else if (k == "other")
    {
        // a property of an unrelated interface of the sensor object changes
        if (auto* s = sensor(); s && ev["p"].get<std::string>().empty()) setProps(s->path, ev["i"].get<std::string>(), {}, true);
        else if (s) setProps(s->path, ev["i"].get<std::string>(), {{ev["p"].get<std::string>(), toVal(ev["v"], ev["v"] == "nan" ? "d" : inferSig(ev["v"]))}}, true);
    }
    else if (k == "svc")
    {
        auto& s = svc(ev["n"].get<std::string>());
        if (ev["up"].get<bool>())
        {
            K->serviceUp(s.s);
            // a restarted sensor daemon publishes its objects anew
            if (sc.contains("em"))
                for (auto& [p, o] : tree)
                    if (o.svc == s.name && p.rfind("/xyz/openbmc_project/sensors/", 0) == 0) added(p, o);
        }
        else { K->serviceDown(s.s); faultCount["service-down"]++; }
        later({{"k", "svc"}, {"n", ev["n"]}, {"up", !ev["up"].get<bool>()}});
    }
    else if (k == "obj")
    {
        if (auto* s = sensor())
        {
            bool on = ev["b"].get<bool>();
            if (s->ext) s->present = on;
            else if (!s->file.empty())
            {
                std::error_code ec;
                s->present = on;
                if (!on) { fs::remove_all(s->file, ec); faultCount["sysfs-sensor-gone"]++; }
                else pushValue(*s, s->val, false);
            }
            else if (on && !s->present)
            {
                s->present = true;
                for (auto& sj : sc["sensors"])
                    if (sj["name"] == s->name) addObj(s->path, s->svc, sensorIfaces(*this, sj, *s), true);
            }
            else if (!on && s->present)
            {
                s->present = false;
                faultCount["sensor-object-gone"]++;
                delObj(s->path, true);
            }
        }
        later({{"k", "obj"}, {"s", ev["s"]}, {"b", !ev["b"].get<bool>()}});
    }
    else if (k == "slow")
    {
        auto& s = svc(ev["n"].get<std::string>());
        s.slowUntil = K->now + (int64_t)(ev["dur"].get<double>() * 1e6);
        s.slowNs = (int64_t)(ev["ms"].get<double>() * 1e6);
    }
    else if (k == "hang")
    {
        auto& s = svc(ev["n"].get<std::string>());
        s.hangUntil = K->now + (int64_t)(ev["dur"].get<double>() * 1e6);
    }
    else if (k == "err")
    {
        auto& s = svc(ev["n"].get<std::string>());
        s.errs = ev.value("cnt", 1);
        s.errMember = ev.value("m", std::string());
        s.errSkip = ev.value("skip", 0);
    }
    else if (k == "stall")
    {
        K->pendingStall += (int64_t)(ev["ms"].get<double>() * 1e6);
        faultCount["daemon-stall"]++;
    }
    else if (k == "wall")
    {
        double ms = ev["ms"].get<double>();
        K->wallOff += (int64_t)(ms * 1e6);
        faultCount[ms < 0 ? "wallclock-back" : "wallclock-forward"]++;
    }
    else if (k == "hup") K->raiseSignal(1);
    else if (k == "term") K->raiseSignal(15);
    else if (k == "kill")
    {
        faultCount["sigkill"]++;
        if (L) L->eventApplied(ev);
        if (K->daemonRunning()) K->killDaemonNow();
        return;
    }
    else if (k == "cfg") writeConfig(ev["i"].get<int>(), ev.contains("torn") ? ev["torn"].get<int64_t>() : -1, sub(ev.value("at", std::string())));
    else if (k == "cfgdel")
    {
        std::error_code ec;
        fs::remove(ev.contains("at") ? sub(ev["at"].get<std::string>()) : configPath(), ec);
        lastCfgChange = K->now;
    }
    else if (k == "cfgopen")
    {
        // the configuration is there and can not be opened
        std::string f = ev["f"];
        if (f == "ok") failOpen.erase(configPath());
        else
        {
            failOpen[configPath()] = f == "emfile" ? EMFILE : f == "eacces" ? EACCES : EIO;
            faultCount["config-" + f]++;
        }
        lastCfgChange = K->now;
        later({{"k", "cfgopen"}, {"f", "ok"}});
    }
    else if (k == "manual")
    {
        if (ev.value("via", std::string("dbus")) == "ipmi") ipmiReq(ev, {1, (uint8_t)ev["z"].get<int>(), (uint8_t)ev["b"].get<bool>()});
        else clientSet(ev, ZONEROOT + std::to_string(ev["z"].get<int64_t>()), IF_MODE, "Manual", Val::boolean(ev["b"].get<bool>()), "xyz.openbmc_project.State.FanCtrl");
    }
    else if (k == "enable")
        clientSet(ev, ZONEROOT + std::to_string(ev["z"].get<int64_t>()) + "/" + ev["pid"].get<std::string>(), IF_ENABLE, "Enabled", Val::boolean(ev["b"].get<bool>()), "xyz.openbmc_project.State.FanCtrl");
    else if (k == "get")
        clientGet(ev, ev["path"], ev["i"], ev.value("p", std::string()), ev.value("dest", std::string("xyz.openbmc_project.State.FanCtrl")));
    else if (k == "ipmi")
    {
        std::vector<uint8_t> b;
        for (auto& x : ev["b"]) b.push_back((uint8_t)x.get<int>());
        ipmiReq(ev, b);
    }
    else if (k == "extset")
    {
        Val v = ev.contains("sig") && ev["sig"] == "x" ? Val::i64((int64_t)jnum(ev["v"])) : Val::dbl(jnum(ev["v"]));
        clientSet(ev, ev["path"], IF_VALUE, "Value", v, "xyz.openbmc_project.Hwmon.external");
    }
    else if (k == "setfs")
        clientSet(ev, ZONEROOT + std::to_string(ev["z"].get<int64_t>()), IF_MODE, "FailSafe", Val::boolean(ev["b"].get<bool>()), "xyz.openbmc_project.State.FanCtrl");
    else if (k == "pwmfault")
    {
        std::string p = sub(ev["p"].get<std::string>());
        setPwmFault(p, ev["f"].get<std::string>());
        later({{"k", "pwmfault"}, {"p", ev["p"]}, {"f", "ok"}});
    }
    else if (k == "extwrite")
    {
        std::string p = sub(ev["p"].get<std::string>());
        if (tree.count(p)) setProps(p, IF_FANPWM, {{"Target", Val::u64(ev["v"].get<uint64_t>())}}, true);
        else if (pwmFault[p].empty()) writeFile(p, std::to_string(ev["v"].get<int>()));
    }
    else if (k == "file")
    {
        std::string p = sub(ev["p"].get<std::string>());
        std::error_code ec;
        if (ev["c"].is_null()) fs::remove_all(p, ec);
        else writeFile(p, ev["c"].get<std::string>());
    }
    else if (k == "host")
    {
        std::string st = ev["st"];
        hostOn = st == "Running";
        Props p{{"CurrentHostState", Val::str("xyz.openbmc_project.State.Host.HostState." + st)}};
        if (bundle) p["RequestedHostTransition"] = Val::str(std::string("xyz.openbmc_project.State.Host.Transition.") + (hostOn ? "On" : "Off"));
        setProps("/xyz/openbmc_project/state/host0", IF_HOST, p, true);
    }
    else if (k == "red")
    {
        std::string path = "/xyz/openbmc_project/control/FanRedundancy/Tach" + ev.value("o", std::string());
        if (ev.contains("allowed"))
        {
            // nothing the daemon has to do with
            setProps(path, IF_RED, {{"AllowedFailures", toVal(ev["allowed"], "x")}}, true);
            if (L) L->eventApplied(ev);
            return;
        }
        Props p{{"Status", Val::str("xyz.openbmc_project.Control.FanRedundancy.State." + ev["status"].get<std::string>())}};
        if (bundle) p["Collection"] = toVal(ev["coll"], "as"); // both in one signal
        else setProps(path, IF_RED, {{"Collection", toVal(ev["coll"], "as")}}, false);
        setProps(path, IF_RED, p, true);
        if (ev["status"] == "Failed") faultCount["fan-redundancy-failed"]++;
    }
    else if (k == "profile")
        setProps("/xyz/openbmc_project/control/thermal_mode" + ev.value("o", std::string()), IF_TMODE, {{"Current", Val::str(ev["v"].get<std::string>())}}, true);
    else if (k == "emset")
    {
        Props p;
        for (auto& [n, v] : ev["props"].items()) p[n] = toVal(v, emSig(v));
        setProps(ev["path"], ev["i"], p, true);
    }
    else if (k == "assoc")
    {
        // associations appear: the mapper's object, or an interface of the sensor
        if (auto* s = sensor(); s && s->present && !s->path.empty())
        {
            WObj o;
            bool mapper = ev.value("mapper", false);
            o.svc = mapper ? "xyz.openbmc_project.ObjectMapper" : s->svc;
            if (mapper) svc(o.svc).mgr = "/";
            if (mapper || ev.value("both", false)) o.ifaces[IF_ASSOC]["endpoints"] = Val::strs({"/xyz/openbmc_project/inventory/system/board/Main"});
            if (!mapper) o.ifaces[IF_ASSOCDEF]["Associations"] = associations();
            if (svc(o.svc).s->alive) added(mapper ? s->path + "/chassis" : s->path, o);
        }
    }
    else if (k == "emobj")
    {
        if (ev["b"].get<bool>())
        {
            for (auto& o : sc["em"])
                if (o["path"] == ev["path"]) emAdd(o, true);
        }
        else delObj(ev["path"], true);
    }
    else if (k == "emrep")
    {
        // another version of the same object
        for (auto& o : sc["em"])
            if (o["path"] == ev["path"])
            {
                o["ifaces"] = ev["ifaces"];
                delObj(ev["path"], true);
                emAdd(o, true);
                break;
            }
    }
    if (L) L->eventApplied(ev);
}
} // namespace sim
