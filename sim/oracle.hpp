// Reference model of the daemon, run in lock step with it at handler
// boundaries; every divergence is a violation with a tag.
#pragma once
#include "world.hpp"

#include <array>
#include <cmath>
#include <limits>
#include <unordered_set>

namespace sim
{
constexpr double NaN = std::numeric_limits<double>::quiet_NaN();
enum Tri { NO = 0, YES = 1, UNK = 2 };

/* ---- configuration as the documentation describes it -------------------- */
struct MSensorCfg
{
    std::string name, type, readPath, writePath;
    int64_t min = 0, max = 0, timeout = 0;
    bool ignoreMinMax = false, unavailAsFailed = true, ignoreHostOff = false;
};
struct MInput
{
    std::string name;
    double zero = NaN;
    bool conv = false, missingOk = false;
};
struct MPid
{
    std::string name, type;
    std::vector<MInput> in;
    double setpoint = 0, fsp = 0;
    double ts = 1, kp = 0, ki = 0, kd = 0, ffo = 0, ffg = 0, imin = 0, imax = 0, omin = 0, omax = 0, sneg = 0, spos = 0, hpos = 0, hneg = 0;
    bool hset = false, offset = false; // offset: setpoint relative to a threshold
    bool anyOrder = false; // inputs given as a pattern come in any order: of two that are equal either may lead
    bool ceiling = false;
    std::array<double, 20> rd, out;
    MPid() { rd.fill(NaN); out.fill(NaN); }
    bool fan() const { return type == "fan"; }
    bool step() const { return type == "stepwise"; }
    bool thermal() const { return type == "temp" || type == "margin" || type == "power" || type == "powersum"; }
};
struct MZoneCfg
{
    int64_t id = 0;
    double minThermal = 0, fsp = 0;
    int64_t cycle = 100, thermal = 1000;
    bool acc = false;
    std::map<std::string, MPid> pids;
};
struct MCfg
{
    std::map<std::string, MSensorCfg> sensors;
    std::map<int64_t, MZoneCfg> zones;
};
MCfg parseJsonCfg(const json& j); // throws when the configuration is invalid

/* ---- run-time model ------------------------------------------------------ */
enum Kind { K_NONE, K_PASSIVE, K_EXT, K_SYSFS };
struct MSensor
{
    MSensorCfg c;
    Kind kind = K_NONE;
    double v = NaN, raw = NaN;
    int64_t updLo = 0, updHi = 0; // bounds of the (wall) time of the last update
    bool bad = false, hot = false, avail = true, func = true, missing = false, alarmUnk = false;
    int64_t steadyUpd = 0;        // steady time of the last update
    bool over = false;
    std::map<std::string, bool> alarms;
    int scale = 0;
    double min = 0, max = 0;
    // writer
    int wkind = 0; // 0 none 1 sysfs 2 dbus
    bool sysfsOk = true; // last sysfs read worked
    bool isFan() const { return c.type == "fan"; }
    bool alarm() const { for (auto& [k, b] : alarms) if (b) return true; return false; }
};
struct MWriter // one per fan sensor
{
    int64_t old = -1;       // last value known to be accepted (D-Bus)
    bool has = false;
    int64_t expect = 0;     // last value commanded
    double frac = NaN, rawOut = NaN;
    bool dirty = false;     // somebody else wrote the output since
    int64_t ext = 0;        // what they wrote
    bool failed = false;    // the last write failed
    bool retry = false;     // this cycle re-does a write that failed before
};
struct MPidRt
{
    MPid c;
    double integral = 0, lastOut = 0, lastErr = 0, lastIn = NaN, sp = 0;
    bool init = false, enabled = true;
    // stepwise
    double sIn = NaN, sOut = NaN;
    // published
    std::string leader;
    double pIn = 0, pOut = 0;
    bool bad = false; // model and daemon diverged here
    bool known = true;
    // core log
    std::array<double, 16> ctx{};
    bool ctxValid = false, mustLog = true;
    std::array<double, 16> ctxLogged{};
};
struct Member
{
    Tri in = NO;
    double pct = 0;
    std::string why;
};
struct LogWant
{
    int64_t lo, hi;
    double sp;
    std::string lead;
    std::vector<std::pair<double, double>> therms, outs, fans;
    Tri fs = UNK;
    bool done = false;
};
struct MZone
{
    MZoneCfg c;
    std::vector<MPidRt> fans, therms; // both in name order
    std::vector<std::string> fanIn, thermIn;
    std::set<std::string> missOk;
    std::map<std::string, double> sfsp;
    std::map<std::string, Member> mem;
    std::map<std::string, std::pair<double, double>> cache;
    std::map<std::string, std::pair<double, double>> outCache;
    double maxSp = 0;
    std::string lead;
    bool manual = false, redundant = false, desync = false;
    int64_t cnt = 0;         // ms since the last thermal evaluation
    Timer* timer = nullptr;
    uint64_t timerId = 0;
    int64_t expiry = 0;
    bool cancelled = false, gone = false;
    uint64_t cycles = 0, thermals = 0;
    int64_t lastCycle = 0;
    Tri fs = UNK;            // failsafe as observed after the last cycle
    int64_t fsSince = 0;
    bool resumed = false;    // first automatic cycle after manual mode
    int64_t coreFrom = 0;
    int64_t builtAt = 0;
    std::deque<std::pair<int64_t, bool>> manualHist;
    std::deque<std::pair<int64_t, Tri>> fsHist;
    std::string logFile, logBuf;
    size_t logRead = 0;
    std::deque<LogWant> logWant;
    size_t logSize = 0;
    bool logBad = false;
    int64_t clearSince = 0;  // free of failures, and so are all its sensors, since
    uint64_t clearSeq = 0;
    bool inc = false; // belongs to a PID dropped because of ambiguity
};
struct Violation
{
    std::string tag, detail;
    int64_t t;
};

struct Oracle : Hooks, WorldListener
{
    World& w;
    int variant = 0;
    bool strict() const { return variant & 1; }
    bool offline() const { return variant & 2; }
    bool unc() const { return variant & 4; }
    bool hmop() const { return variant & 8; }
    bool tuning = false, logging = false, coreLog = false;
    std::string logDir;

    std::vector<Violation> viol;
    std::map<std::string, int> violCount;
    std::unordered_set<uint64_t> states;
    std::map<std::string, uint64_t> stat;

    // model state
    bool haveCfg = false, dbusMode = false;
    MCfg cfg;
    std::map<std::string, MSensor> sensors;
    std::map<std::string, MWriter> writers;
    std::map<int64_t, MZone> zones;
    Tri hostOn = NO;
    int64_t hostInitSent = -1;
    std::map<std::string, std::set<std::string>> redBy; // redundancy object -> sensors
    std::set<std::string> redFailed;
    bool redInit = false;
    uint64_t builds = 0, incarnation = 0, attempts = 0, buildsAtStart = 0;
    int64_t lastBuildBegin = 0, lastBuildEnd = 0;
    int64_t lastEnd = -1, lastHup = -1, lastTrigger = -1, lastTerm = -1, downSince = -1, lastRpcFault = -1, lastRestartTry = -1;
    int64_t lastTold = -1, lastUntold = -1, lastRpcErr = -1; // inventory changes with and without a signal the daemon follows
    int64_t lastDisturb = 0; // last event after which zones may legitimately be down
    int64_t hangBudget = 0;
    int64_t slowUntil = 0; // services answer slowly until then
    int64_t daemonStart = 0;
    std::string cfgText;
    bool cfgPresent = false, cfgOkAtBegin = true;
    int64_t cfgOpenedAt = -1, cfgReadBad = -1;
    std::vector<std::pair<MsgP, int64_t>> lost; // signals the daemon was not subscribed to, during a handler
    std::map<std::string, std::pair<bool, std::string>> fileAtBegin; // sysfs sensors
    std::map<std::string, int64_t> touched; // outputs changed by somebody else / by a fault
    int64_t lastWallJump = -1;
    std::map<std::string, int64_t> initSent; // sensor path -> time its initial value was read
    // failsafe log
    std::map<int64_t, std::deque<int64_t>> fsLogTimes;
    std::map<int64_t, std::set<std::string>> fsLogSeen;
    std::map<int64_t, int> fsLogState;
    std::map<int64_t, uint64_t> fsEntries; // lines telling of failsafe mode, by zone
    bool cfgAtBegin = false;
    int64_t wallSeen = 0, wallChanged = 0;
    void checkFsEntry(MZone&, HandlerInfo&);
    std::string lastLeaderLine;
    std::map<std::string, std::pair<std::string, size_t>> coreFiles; // pid name -> file, read offset

    explicit Oracle(World& wd) : w(wd) {}
    void fail(const std::string& tag, const char* fmt, ...) __attribute__((format(printf, 3, 4)));

    // Hooks
    void handlerBegin(HandlerInfo&) override;
    void handlerEnd(HandlerInfo&) override;
    void timerCancelled(Timer*) override;
    void signalDispatched(Conn*, const MsgP&, bool pathMatch) override;
    void signalRouted(const MsgP&, bool toDaemonPathMatch) override;
    void opened(const std::string&, bool) override;
    void daemonCall(const MsgP& req, const MsgP& reply, Conn*) override;
    void logLine(const std::string&, bool isErr) override;
    // WorldListener
    void clientDone(const json& ev, const MsgP& req, const MsgP& reply, int64_t sent) override;
    void ipmiDone(const json& ev, int cc, const std::vector<uint8_t>& out, int64_t sent) override;
    void eventApplied(const json& ev) override;

    void daemonStarted();
    void daemonEnded(const DaemonExit& ex);
    void finish();
    bool stopping = false; // no more copies: the daemon is not restarted

  private:
    std::map<uint64_t, int64_t> timerZone;
    std::set<uint64_t> oldTimers;
    bool zoneHandler = false, startupSeen = false, waiting = false;
    int64_t zoneOf = 0;

    void snapshotCfg();
    void snapshotFiles();
    void checkRefused(int64_t grace);
    void buildModel(HandlerInfo& h, const std::set<int64_t>& ids);
    void initSensor(MSensor& s, HandlerInfo& h);
    void applyProps(MSensor& s, const std::string& iface, const Val& dict, int64_t lo, int64_t hi);
    void applySignal(const MsgP& m, int64_t lo, int64_t hi);
    void update(MSensor& s, double value, bool force, int64_t lo, int64_t hi);
    Tri failed(const MSensor& s, std::string& why) const;
    void processSensor(MZone& z, const std::string& name, int64_t nlo, int64_t nhi);
    void mark(MZone& z, const std::string& name, Tri in, const std::string& why);
    void thermals(MZone& z, int64_t nlo, int64_t nhi);
    double pid(MPidRt& p, double in, double sp);
    double calPid(MPidRt& p, double in, double sp);
    void cycle(MZone& z, HandlerInfo& h);
    void checkThermalProps(MZone& z);
    void adoptFs(MZone& z);
    void settle(MZone& z);
    void checkPwm(MZone& z, HandlerInfo& h, std::map<std::string, std::vector<std::set<double>>>& want, const char* ctx);
    std::set<double> fsPercents(const MZone& z) const;
    void readSysfs(MSensor& s, int64_t lo, int64_t hi);
    void logWantLine(MZone& z, int64_t nlo, int64_t nhi);
    void checkLogs(MZone& z, bool end = false);
    void checkCore(MZone& z, int64_t from);
    void checkNoWrites(HandlerInfo& h, const std::set<std::string>& allowed, const char* tag, const std::string& what);
    void zoneGone(MZone& z, HandlerInfo& h, bool rebuilt);
    bool tornDown = false;
    uint64_t fsResetAt = 0;
    void checkRearm(MZone& z, HandlerInfo& h);
    std::set<int64_t> writerValues(const MSensor& s, const std::set<double>& percents) const;
    void hostFromCalls(const std::vector<std::pair<MsgP, MsgP>>& calls);
    void redFromCalls(HandlerInfo& h);
    void redSum();
    void requery(HandlerInfo& h);
    bool dbusCfg(const std::vector<std::pair<MsgP, MsgP>>* calls, MCfg& out); // false: not ready
    bool dbusAttempt(HandlerInfo& h);
    void stateHash(MZone& z);
    bool expectZones(MCfg& out);
};
bool near(double a, double b, double rel = 1e-6);
} // namespace sim
