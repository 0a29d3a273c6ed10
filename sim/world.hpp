// The simulated machine around the daemon: sensors, D-Bus services, sysfs
// files, host state, entity-manager, clients and operators.
#pragma once
#include "kernel.hpp"

#include <nlohmann/json.hpp>

#include <optional>

namespace sim
{
using json = nlohmann::json;
extern std::string scratchDir;

using Props = std::map<std::string, Val>;
using Ifaces = std::map<std::string, Props>;
struct WObj
{
    std::string svc;
    Ifaces ifaces;
};
struct WSvc
{
    Service* s = nullptr;
    std::string name, mgr; // object manager path ("" none)
    int64_t hangUntil = 0, slowUntil = 0, slowNs = 0;
    int errs = 0, errSkip = 0;
    std::string errMember; // only calls of this member fail ("" any)
};
struct WSensor
{
    std::string name, path, svc, file; // file: sysfs sensor
    double val = 0, base = 0, amp = 1, step = 1, q = 0.25;
    int64_t period = 0;
    int scale = 0;
    bool hasScale = false, frozen = false, nan = false, present = true, intv = false, ext = false;
    Rng rng{1};
    std::string follow; // pwm path a tach follows
    double lastRaw = 0;
};
struct PwmSet
{
    int64_t t;
    std::string path;
    uint64_t v;
    bool ok;
};

constexpr auto IF_VALUE = "xyz.openbmc_project.Sensor.Value";
constexpr auto IF_CRIT = "xyz.openbmc_project.Sensor.Threshold.Critical";
constexpr auto IF_WARN = "xyz.openbmc_project.Sensor.Threshold.Warning";
constexpr auto IF_AVAIL = "xyz.openbmc_project.State.Decorator.Availability";
constexpr auto IF_OPER = "xyz.openbmc_project.State.Decorator.OperationalStatus";
constexpr auto IF_FANPWM = "xyz.openbmc_project.Control.FanPwm";
constexpr auto IF_RED = "xyz.openbmc_project.Control.FanRedundancy";
constexpr auto IF_MODE = "xyz.openbmc_project.Control.Mode";
constexpr auto IF_DZONE = "xyz.openbmc_project.Debug.Pid.Zone";
constexpr auto IF_ENABLE = "xyz.openbmc_project.Object.Enable";
constexpr auto IF_DTP = "xyz.openbmc_project.Debug.Pid.ThermalPower";
constexpr auto IF_HOST = "xyz.openbmc_project.State.Host";
constexpr auto IF_TMODE = "xyz.openbmc_project.Control.ThermalMode";
constexpr auto IF_OM = "org.freedesktop.DBus.ObjectManager";
constexpr auto IF_PROP = "org.freedesktop.DBus.Properties";
constexpr auto ZONEROOT = "/xyz/openbmc_project/settings/fanctrl/zone";

struct WorldListener
{
    virtual ~WorldListener() = default;
    virtual void clientDone(const json& ev, const MsgP& req, const MsgP& reply, int64_t sent) {}
    virtual void ipmiDone(const json& ev, int cc, const std::vector<uint8_t>& out, int64_t sent) {}
    virtual void served(const MsgP&, const MsgP&) {}
    virtual void eventApplied(const json& ev) {}
};

struct World
{
    json sc;
    WorldListener* L = nullptr;
    std::string R; // scratch root
    std::map<std::string, WObj> tree;
    std::map<std::string, WSvc> svcs;
    std::map<std::string, WSensor> sensors;       // by name
    std::map<std::string, std::string> pathSensor; // path -> name
    std::vector<PwmSet> pwmSets;
    std::map<std::string, std::string> pwmFault; // sysfs pwm path -> fault ("" ok)
    std::map<std::string, int64_t> faultCount, evCount;
    std::map<std::string, bool> cfgGood; // path -> what was written there is a configuration
    bool cfgValid() const;
    int64_t lastFaultEnd = 0;
    bool hostOn = false;
    int64_t lastCfgChange = 0, lastInjected = -1;

    std::string sub(std::string s) const; // "$R"
    json subj(const json& j) const;
    void init(const json& scenario);
    void start(); // schedule ticks and events
    WSvc& svc(const std::string& name);
    void setProps(const std::string& path, const std::string& iface, const Props& p, bool emit);
    void addObj(const std::string& path, const std::string& svcName, const Ifaces& i, bool emit);
    void added(const std::string& path, const WObj& o); // InterfacesAdded
    bool visible(const WObj& o) const;
    void delObj(const std::string& path, bool emit);
    MsgP handle(WSvc& s, const MsgP& m);
    MsgP mapper(const MsgP& m);
    void tick(const std::string& name);
    void pushValue(WSensor& s, double v, bool emit);
    Val rawVal(const WSensor& s, double v) const;
    void apply(const json& ev);
    void writeFile(const std::string& path, const std::string& content);
    void setPwmFault(const std::string& path, const std::string& f);
    void writeConfig(int idx, int64_t torn = -1, const std::string& at = "");
    int bundle = 0; // an unrelated property comes with each change: 1 first, 2 last
    std::string configPath() const;
    Props valueProps(const json& s, WSensor& w);
    Val toVal(const json& j, const std::string& sig);
    void clientSet(const json& ev, const std::string& path, const std::string& iface, const std::string& prop, Val v, const std::string& dest);
    void clientGet(const json& ev, const std::string& path, const std::string& iface, const std::string& prop, const std::string& dest);
    void ipmiReq(const json& ev, std::vector<uint8_t> req);
    double pwmFraction(const std::string& path) const;
    void emAdd(const json& obj, bool emit);
    int64_t emSeq = 0;
};
std::string slurp(const std::string& path, bool* ok = nullptr);
double jnum(const json& j, double def = 0);
bool ipmiLoad();
} // namespace sim
