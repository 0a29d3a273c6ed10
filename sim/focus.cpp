// Which scenarios and which oracle tags decide which property.
#include "scenario.hpp"

namespace sim
{
using W = std::map<std::string, double>;
static std::vector<Focus> mk()
{
    std::vector<Focus> v;
    auto add = [&](const char* id, std::vector<std::string> tags, auto edit) {
        Focus f;
        f.id = id;
        f.code = "C" + std::string(v.size() < 9 ? "0" : "") + std::to_string(v.size() + 1);
        f.tags = std::move(tags);
        edit(f);
        v.push_back(f);
    };
    const W fail{{"alarm", 2}, {"nan", 2}, {"freeze", 2}, {"avail", 1.5}, {"func", 1.5}, {"red", 1.5}, {"obj", .7}};
    auto plus = [](W a, const W& b) { for (auto& [k, x] : b) a[k] = x; return a; };

    add("failsafe-floor", {"pwm.fs", "fs.missed"}, [&](Focus& f) {
        f.variants = {0, 0, 1, 1, 2, 12, 15};
        f.w = plus(fail, {{"*", .5}, {"base", 2}, {"manual", .7}, {"pwmfault", .4}});
        f.redun = .25; f.fsp0 = .4;
    });
    add("failure-detection", {"fs.missed"}, [&](Focus& f) {
        f.variants = {0, 0, 1, 2, 12, 15};
        f.w = plus(fail, {{"*", .3}, {"alarm", 3}, {"other", 1}, {"hup", .8}, {"kill", .3}, {"slow", .5}, {"err", .15}});
        f.crit = .7; f.availIf = .5; f.funcIf = .5; f.initFail = .3; f.redun = .2;
    });
    add("failsafe-exit", {"fs.spurious", "pwm.auto"}, [&](Focus& f) {
        f.w = plus(fail, {{"*", .3}, {"other", 1}, {"val", 1}});
        f.crit = .6; f.availIf = .4; f.funcIf = .4; f.initFail = .3; f.redun = .2;
    });
    add("staleness", {"fs.missed.stale", "fs.missed.start", "fs.spurious"}, [&](Focus& f) {
        f.w = {{"*", .15}, {"freeze", 5}, {"wall", 2}, {"stall", 1}, {"svc", .7}, {"obj", 1}, {"file", .8}, {"extset", .5}, {"val", .7}};
        f.timeoutSet = .5; f.ext = .25; f.sysfsTemp = .3; f.dbusCfg = .1; f.slow = .35;
    });
    add("failure-exemptions", {"fs.missed", "fs.spurious", "pwm.fs"}, [&](Focus& f) {
        f.w = plus(fail, {{"*", .15}, {"host", 3}, {"hup", .4}, {"kill", .2}});
        f.missOk = .5; f.unavailNF = .7; f.hostOffOk = .6; f.host = .85; f.availIf = .6; f.funcIf = .3; f.initFail = .3; f.ext = .25;
    });
    add("manual-mode", {"pwm.manual", "pwm.resume", "pwm.auto", "pwm.fs", "pwm.unexpected", "dbus.set", "cadence", "progress.cycle"}, [&](Focus& f) {
        f.w = {{"*", .2}, {"manual", 6}, {"alarm", 1}, {"nan", .7}, {"extwrite", 1.5}, {"hup", .4}, {"stall", .4}, {"err", .15}};
        f.redun = .1;
    });
    add("setpoint-arbitration", {"leader", "pwm.auto", "tp.", "log.csv"}, [&](Focus& f) {
        f.w = {{"*", .15}, {"base", 4}, {"enable", 1.5}, {"val", 1}, {"nan", .5}};
        f.multiPid = .9; f.ceil = .45; f.acc = .35; f.step = .7; f.margin = .5; f.power = .4; f.hyst = .15; f.log = .3; f.sysfsFan = .6; f.crit = .2;
    });
    add("thermal-pid-law", {"tp.", "log.core", "leader", "pwm.auto"}, [&](Focus& f) {
        f.w = {{"*", .12}, {"base", 4}, {"val", 2}, {"nan", .8}, {"manual", .3}, {"hup", .2}};
        f.multiPid = .8; f.slew = .55; f.hyst = .5; f.deriv = .4; f.integ = .85; f.margin = .6; f.conv = .5; f.power = .5; f.core = .35; f.sysfsFan = .5;
    });
    add("fan-pwm-output", {"pwm.auto", "pwm.resume", "pwm.unexpected", "log.core", "build."}, [&](Focus& f) {
        f.w = {{"*", .15}, {"base", 3}, {"val", 1.5}, {"nan", .5}, {"extwrite", .6}, {"manual", .4}};
        f.slew = .4; f.sysfsTach = .35; f.sysfsFan = .5; f.core = .25; f.deriv = .3;
    });
    add("stepwise-curve", {"leader", "pwm.auto", "log.csv"}, [&](Focus& f) {
        f.w = {{"*", .12}, {"base", 5}, {"val", 2}, {"nan", .5}};
        f.step = 1; f.ceil = .3; f.margin = .1; f.power = .1; f.log = .3; f.multiPid = .1;
    });
    add("loop-cadence", {"cadence", "progress.cycle", "leader", "tp.", "pwm.auto"}, [&](Focus& f) {
        f.w = {{"*", .2}, {"stall", 2}, {"slow", 1.2}, {"hang", .4}, {"wall", 1.2}, {"manual", 1}, {"base", 1}, {"hup", .4}};
        f.slow = .6;
    });
    add("reload", {"reload", "progress", "build.", "cfg.", "death", "pwm.unexpected", "cadence"}, [&](Focus& f) {
        f.w = {{"*", .12}, {"hup", 4}, {"cfgnew", 2}, {"stall", .8}, {"slow", .5}, {"manual", .6}, {"enable", .3}, {"alarm", .3}, {"emset", 1}, {"emobj", .7}, {"emdmg", .3}};
        f.ext = .2; f.evMin = 2; f.evMax = 8; f.slow = .4;
    });
    add("shutdown", {"term", "pwm.offline", "pwm.unexpected", "death", "pwm.fs"}, [&](Focus& f) {
        f.w = plus(fail, {{"*", .1}, {"term", 5}, {"hup", 1.5}, {"manual", .6}, {"stall", .6}, {"slow", .4}, {"pwmfault", .2}});
        f.variants = {2, 2, 2, 0, 15, 15}; f.slow = .4;
    });
    add("write-recovery", {"pwm."}, [&](Focus& f) {
        f.w = {{"*", .15}, {"err", 4}, {"pwmfault", 4}, {"hang", .3}, {"alarm", .8}, {"nan", .6}, {"base", 1}, {"manual", .6}, {"slow", .4}};
        f.sysfsFan = .5;
    });
    add("control-plane", {"dbus", "ipmi", "build."}, [&](Focus& f) {
        f.w = {{"*", .15}, {"get", 3}, {"ipmi", 3}, {"manual", 2}, {"enable", 1}, {"setfs", 1.5}, {"alarm", .6}, {"nan", .6}, {"hup", .4}};
    });
    add("external-sensors", {"ext", "fs.", "tp.", "leader", "pwm.", "death", "reload", "progress"}, [&](Focus& f) {
        f.w = {{"*", .12}, {"extset", 4}, {"freeze", 2.5}, {"hup", .6}, {"kill", .3}, {"host", .5}, {"nan", 1}};
        f.ext = .8; f.dbusCfg = 0; f.hostOffOk = .3; f.host = .5;
    });
    add("dbus-inventory", {"build.", "cfg.", "progress", "reload", "death", "tp.", "fs.", "leader", "pwm."}, [&](Focus& f) {
        f.w = {{"*", .12}, {"emset", 3}, {"emobj", 3}, {"emdmg", 1}, {"profile", 2.5}, {"obj", 1}, {"svc", .4}, {"slow", .5}, {"err", .3}, {"assoc", .8}};
        f.dbusCfg = 1; f.variants = {0, 0, 12, 15, 2};
    });
    add("zone-log", {"log."}, [&](Focus& f) {
        f.w = plus(fail, {{"*", .2}, {"manual", 1}, {"base", 1.5}, {"enable", .7}, {"wall", .6}});
        f.log = 1; f.core = .5;
    });
    add("failsafe-log-rate", {"fslog"}, [&](Focus& f) {
        f.w = {{"*", .1}, {"alarm", 5}, {"nan", 2}, {"val", 2}, {"avail", 1.5}, {"func", 1.5}, {"wall", .5}};
        f.crit = .9; f.availIf = .4; f.evMin = 10; f.evMax = 25; f.durMin = 30; f.durMax = 45;
    });
    add("fault-survival", {"death", "progress", "cadence.stopped", "reload.spurious", "reload.timeout"}, [&](Focus& f) {
        f.w = plus(fail, {{"*", .8}, {"err", 1.5}, {"hang", .5}, {"svc", 1}, {"pwmfault", 1}, {"file", 1}, {"val", 1}, {"cfgbad", 0}, {"extset", 1}, {"red", .8}});
        f.redun = .3;
        f.evMin = 8; f.evMax = 20;
    });
    add("loop-enable", {"dbus.enable", "leader", "pwm.auto", "tp.", "fs.missed"}, [&](Focus& f) {
        f.w = {{"*", .15}, {"enable", 6}, {"base", 1.5}, {"hup", .4}, {"manual", .4}, {"alarm", .4}};
        f.multiPid = .9;
    });
    add("tuning-mode", {"pwm", "leader", "log.csv"}, [&](Focus& f) {
        f.w = plus(fail, {{"*", .1}, {"tune", 5}, {"manual", .5}, {"base", 1}});
        f.tune = 1; f.log = .2;
    });
    add("crash-restart", {"pwm", "fs", "build.", "progress", "death", "reload", "leader", "tp."}, [&](Focus& f) {
        f.w = plus(fail, {{"*", .2}, {"kill", 4}, {"manual", 1}, {"enable", .6}, {"cfgnew", .5}});
        f.initFail = .3;
    });
    add("bad-config", {"cfg.", "death", "progress", "build."}, [&](Focus& f) {
        f.w = {{"*", .15}, {"cfgbad", 6}, {"cfgnew", 1.5}, {"emdmg", 6}, {"emset", 1}, {"hup", .7}, {"kill", .5}};
        f.dbusCfg = .2; f.evMin = 2; f.evMax = 7;
    });
    add("zone-isolation", {"fs", "pwm", "leader", "tp.", "cadence", "progress.cycle"}, [&](Focus& f) {
        f.w = plus(fail, {{"*", .2}, {"manual", 1.2}, {"enable", .6}, {"base", 1}});
        f.share = .9; f.zonesMax = 4; f.multiPid = .6;
    });
    add("fan-redundancy", {"fs", "pwm.fs", "death"}, [&](Focus& f) {
        f.w = {{"*", .15}, {"red", 6}, {"hup", .5}, {"kill", 1}, {"func", .5}, {"slow", .4}, {"err", .3}};
        f.redun = 1; f.initFail = .5; f.funcIf = .3;
    });
    return v;
}
const std::vector<Focus>& focuses()
{
    static const std::vector<Focus> f = mk();
    return f;
}
const Focus* focusById(const std::string& id)
{
    for (auto& f : focuses())
        if (f.id == id || f.code == id) return &f;
    return nullptr;
}
} // namespace sim
