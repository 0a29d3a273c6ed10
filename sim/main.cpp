// Runner: seeded search over simulated executions, minimisation, replay.
#include "oracle.hpp"
#include "scenario.hpp"

#include <fcntl.h>
#include <sys/personality.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstring>
#include <ctime>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sstream>

using namespace sim;
namespace fs = std::filesystem;
namespace sim { extern std::string ipmidSo; }

static std::string buildDir, scratchBase;
static int copies = 8;

static std::string pad(long n, int w)
{
    char b[32];
    snprintf(b, sizeof b, "%0*ld", w, n);
    return b;
}
static double wallNow()
{
    timespec t; // (std::chrono is the virtual clock in this program)
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

/* ------------------------------------------------------ one execution ---- */
struct Runner
{
    int fd;
    json sc;
    World* w;
    Oracle* o;
    [[noreturn]] void emit()
    {
        o->finish();
        json r;
        r["hash"] = K->hash;
        r["fp"] = K->traceFp;
        r["viol"] = json::array();
        for (auto& v : o->viol) r["viol"].push_back({{"tag", v.tag}, {"d", v.detail}, {"t", (double)v.t / 1e9}});
        r["vc"] = o->violCount;
        r["stat"] = o->stat;
        r["fault"] = w->faultCount;
        r["ev"] = w->evCount;
        r["states"] = json(std::vector<uint64_t>(o->states.begin(), o->states.end()));
        r["sim"] = (double)(K->now - 100 * SEC) / 1e9;
        r["handlers"] = K->handlers;
        r["messages"] = K->messages;
        r["world"] = K->worldEvents;
        r["incarnations"] = o->incarnation;
        r["builds"] = o->builds;
        std::string s = r.dump(-1, ' ', false, json::error_handler_t::replace);
        size_t off = 0;
        while (off < s.size())
        {
            ssize_t n = ::write(fd, s.data() + off, s.size() - off);
            if (n <= 0) break;
            off += (size_t)n;
        }
        if (K->trace) fflush(K->trace);
        _exit(0);
    }
    [[noreturn]] void go(FILE* trace)
    {
        int dn = ::open("/dev/null", O_RDWR);
        dup2(dn, 1);
        if (!trace) dup2(dn, 2);
        std::error_code ec;
        fs::create_directories(scratchDir + "/tmp", ec);
        if (chdir((scratchDir + "/tmp").c_str()) != 0) _exit(96);
        setenv("TMPDIR", (scratchDir + "/log").c_str(), 1);
        K = new Kernel;
        K->rng = Rng(sc.value("seed", (uint64_t)1));
        K->trace = trace;
        auto sp = sc.value("sched", json::object());
        auto g = [&](const char* k, int64_t& x) { if (sp.contains(k)) x = sp[k].get<int64_t>(); };
        g("latMin", K->sp.latMin);
        g("latMax", K->sp.latMax);
        g("costMin", K->sp.costMin);
        g("costMax", K->sp.costMax);
        g("timerLate", K->sp.timerLate);
        g("slowMax", K->sp.slowMax);
        g("stallMax", K->sp.stallMax);
        K->sp.slowP = sp.value("slowP", 0.0);
        K->sp.stallP = sp.value("stallP", 0.0);
        ipmidSo = buildDir + "/ipmid.so";
        captureStreams();
        w = new World;
        w->init(sc);
        o = new Oracle(*w);
        w->L = o;
        K->hooks = o;
        o->variant = sc.value("variant", 0);
        o->tuning = sc.value("tuning", false) || sc.value("tune", false);
        o->logging = sc.value("logging", false);
        o->coreLog = sc.value("coreLog", false);
        o->logDir = scratchDir + "/log";
        if (K->sp.stallP > 0) o->hangBudget += K->sp.stallMax * 3;
        if (K->sp.slowP > 0) o->hangBudget += K->sp.slowMax * 20;
        w->start();
        int64_t end = 100 * SEC + (int64_t)(sc["dur"].get<double>() * 1e6);
        K->at(end, [this] { emit(); });
        std::vector<std::string> args;
        std::string cp = w->configPath();
        if (sc.value("cfgpath", std::string("$R/etc/cfg.json")).find("/swampd/config.json") == std::string::npos && fs::exists(cp)) args = {"-c", cp};
        if (sc.value("log", false)) { args.push_back("-l"); args.push_back(scratchDir + "/log"); }
        if (sc.value("core", false)) args.push_back("-g");
        if (sc.value("tune", false)) args.push_back("-t");
        if (sc.value("debug", false)) args.push_back("-d");
        for (int k = 0; k < copies; ++k)
        {
            bool noFile = args.size() > 1 && args[0] == "-c" && !fs::exists(args[1]);
            (void)noFile;
            o->daemonStarted();
            auto ex = K->runDaemon(buildDir + "/swampd_" + std::to_string(o->variant) + "_" + std::to_string(k) + ".so", args);
            bool clean = ex.kind == 0 && o->lastTerm >= 0;
            o->daemonEnded(ex);
            if (clean)
            {
                int64_t d = sc.value("restartAfterTerm", (int64_t)-1);
                if (d < 0) break;
                K->advance(K->now + d * MS);
            }
            else K->advance(K->now + 5 * SEC); // RestartSec
        }
        o->stopping = true;
        K->advance(end + SEC);
        emit();
    }
};

struct Job
{
    json sc;
    uint64_t seed = 0;
    pid_t pid = -1;
    int fd = -1;
    std::string out, dir;
    double began = 0;
    int status = 0;
    bool timedOut = false;
};
static int slotNo = 0;
static void start(Job& j, FILE* trace = nullptr)
{
    int p[2];
    if (pipe2(p, O_CLOEXEC) != 0) { perror("pipe"); exit(2); }
    j.dir = scratchBase + "/r" + pad(slotNo++ % 100000, 5);
    j.began = wallNow();
    j.out.clear();
    fflush(nullptr);
    j.pid = fork();
    if (j.pid < 0) { perror("fork"); exit(2); }
    if (j.pid == 0)
    {
        ::close(p[0]);
        rlimit rl{40, 45};
        setrlimit(RLIMIT_CPU, &rl);
        rlimit as{4ull << 30, 4ull << 30};
        setrlimit(RLIMIT_AS, &as);
        rlimit nc{0, 0};
        setrlimit(RLIMIT_CORE, &nc);
        scratchDir = j.dir;
        Runner r{p[1], j.sc, nullptr, nullptr};
        try { r.go(trace); }
        catch (const std::exception& e) { fprintf(stderr, "simulator error: %s\n", e.what()); }
        _exit(95);
    }
    ::close(p[1]);
    j.fd = p[0];
}
static bool pump(Job& j) // true when finished
{
    char b[65536];
    for (;;)
    {
        ssize_t n = ::read(j.fd, b, sizeof b);
        if (n > 0) { j.out.append(b, (size_t)n); return false; }
        if (n < 0 && errno == EINTR) continue;
        break;
    }
    ::close(j.fd);
    waitpid(j.pid, &j.status, 0);
    std::error_code ec;
    fs::remove_all(j.dir, ec);
    return true;
}
static json result(Job& j)
{
    json r = json::parse(j.out, nullptr, false);
    if (!r.is_object())
    {
        r = json::object();
        r["hash"] = 0;
        r["fp"] = 0;
        std::string d = WIFSIGNALED(j.status) ? std::string("signal ") + std::to_string(WTERMSIG(j.status)) : "status " + std::to_string(WEXITSTATUS(j.status));
        bool cpu = WIFSIGNALED(j.status) && WTERMSIG(j.status) == SIGXCPU;
        bool killed = WIFSIGNALED(j.status) && WTERMSIG(j.status) == SIGKILL; // from outside (memory, time)
        r["crash"] = d;
        if (j.timedOut || killed || (WIFEXITED(j.status) && WEXITSTATUS(j.status) >= 95 && WEXITSTATUS(j.status) <= 97)) { r["viol"] = json::array(); r["broken"] = true; }
        else
        {
            r["viol"] = json::array({{{"tag", cpu ? "progress.livelock" : "death.signal"}, {"d", (cpu ? "the daemon consumes CPU without end: " : "process died: ") + d}, {"t", 0}}});
            r["vc"] = {{cpu ? "progress.livelock" : "death.signal", 1}};
        }
    }
    return r;
}
static json runOnce(const json& sc, FILE* trace = nullptr)
{
    Job j;
    j.sc = sc;
    start(j, trace);
    while (!pump(j)) {}
    return result(j);
}
static std::vector<json> runMany(const std::vector<json>& scs, int par)
{
    std::vector<json> res(scs.size());
    std::vector<Job> jobs(scs.size());
    size_t next = 0, done = 0;
    std::vector<size_t> act;
    while (done < scs.size())
    {
        while (next < scs.size() && (int)act.size() < par)
        {
            jobs[next].sc = scs[next];
            start(jobs[next]);
            act.push_back(next++);
        }
        std::vector<pollfd> pf;
        for (auto i : act) pf.push_back({jobs[i].fd, POLLIN, 0});
        poll(pf.data(), pf.size(), 1000);
        std::vector<size_t> keep;
        for (size_t k = 0; k < act.size(); ++k)
        {
            auto i = act[k];
            if (pf[k].revents && pump(jobs[i])) { res[i] = result(jobs[i]); ++done; }
            else keep.push_back(i);
        }
        act = keep;
    }
    return res;
}

/* ------------------------------------------------------------- tags ------ */
static bool tagMatch(const std::string& tag, const std::vector<std::string>& pre)
{
    for (auto& p : pre)
        if (tag.compare(0, p.size(), p) == 0) return true;
    return false;
}
static bool hasTag(const json& r, const std::string& tag)
{
    return r.contains("vc") && r["vc"].contains(tag);
}

/* --------------------------------------------------------- minimiser ----- */
static json minimise(json sc, const std::string& tag, double budget, int par, int& tried)
{
    double t0 = wallNow();
    auto left = [&] { return budget - (wallNow() - t0); };
    auto test = [&](const std::vector<json>& cands) -> int {
        auto rs = runMany(cands, par);
        tried += (int)cands.size();
        for (size_t i = 0; i < rs.size(); ++i)
            if (hasTag(rs[i], tag)) return (int)i;
        return -1;
    };
    // ddmin over the events
    size_t n = 2;
    while (sc["ev"].size() >= 1 && left() > 0)
    {
        size_t m = sc["ev"].size();
        n = std::min(n, m);
        std::vector<json> c;
        for (size_t i = 0; i < n; ++i)
        {
            json s = sc;
            json e = json::array();
            for (size_t k = 0; k < m; ++k)
                if (k * n / m != i) e.push_back(sc["ev"][k]);
            s["ev"] = e;
            c.push_back(s);
        }
        int k = test(c);
        if (k >= 0) { sc = c[(size_t)k]; n = std::max<size_t>(2, n - 1); }
        else if (n >= m) break;
        else n = std::min(m, n * 2);
    }
    // simpler surroundings
    auto tryOne = [&](json s) {
        if (left() <= 0 || s == sc) return;
        if (test({s}) == 0) sc = s;
    };
    { json s = sc; s["sched"] = json::object(); tryOne(s); }
    { json s = sc; for (auto k : {"log", "logging", "core", "coreLog", "tune", "tuning", "debug", "bundle"}) s.erase(k); s.erase("files"); tryOne(s); }
    { json s = sc; s["variant"] = 0; tryOne(s); }
    if (left() > 0)
    {
        // stop shortly after the violation
        auto r = runOnce(sc);
        ++tried;
        for (auto& v : r["viol"])
            if (v["tag"] == tag)
            {
                json s = sc;
                s["dur"] = v["t"].get<double>() * 1000 + 500;
                if (s["dur"] < sc["dur"]) tryOne(s);
                break;
            }
    }
    // fewer zones, loops and sensors (file configurations)
    if (sc.contains("cfg") && sc["cfg"].size() >= 1 && sc["cfg"][0].is_object())
    {
        for (bool again = true; again && left() > 0;)
        {
            again = false;
            std::vector<json> c;
            json& cf = sc["cfg"][0];
            for (size_t z = 0; z < cf["zones"].size(); ++z)
            {
                if (cf["zones"].size() > 1) { json s = sc; s["cfg"][0]["zones"].erase(s["cfg"][0]["zones"].begin() + (long)z); c.push_back(s); }
                for (size_t q = 0; q < cf["zones"][z]["pids"].size(); ++q)
                    if (cf["zones"][z]["pids"].size() > 1) { json s = sc; auto& p = s["cfg"][0]["zones"][z]["pids"]; p.erase(p.begin() + (long)q); c.push_back(s); }
            }
            for (size_t i = 0; i < c.size() && left() > 0; i += 8)
            {
                std::vector<json> part(c.begin() + (long)i, c.begin() + (long)std::min(c.size(), i + 8));
                int k = test(part);
                if (k >= 0) { sc = part[(size_t)k]; again = true; break; }
            }
        }
        // sensors nobody uses
        json s = sc;
        std::set<std::string> used;
        for (auto& z : s["cfg"][0]["zones"])
            for (auto& p : z["pids"])
                for (auto& i : p["inputs"]) used.insert(i);
        auto drop = [&](json& a) {
            json b = json::array();
            for (auto& x : a)
                if (used.count(x["name"])) b.push_back(x);
            a = b;
        };
        drop(s["cfg"][0]["sensors"]);
        drop(s["sensors"]);
        tryOne(s);
    }
    return sc;
}

/* ---------------------------------------------------------- commands ----- */
struct Args
{
    std::map<std::string, std::string> m;
    std::vector<std::string> pos;
    std::string get(const std::string& k, const std::string& d = "") const { auto i = m.find(k); return i == m.end() ? d : i->second; }
    bool has(const std::string& k) const { return m.count(k) > 0; }
};
static std::string hex(uint64_t v)
{
    char b[32];
    snprintf(b, sizeof b, "%016lx", (unsigned long)v);
    return b;
}
static int cmdReplay(const Args& a)
{
    json f = json::parse(slurp(a.pos.at(0)));
    json sc = f.contains("scenario") ? f["scenario"] : f;
    FILE* tr = a.has("trace") ? stderr : nullptr;
    auto r = runOnce(sc, tr);
    bool hit = false;
    std::string want = f.value("tag", std::string());
    for (auto& v : r["viol"])
    {
        printf("%10.3f s  %-20s %s\n", v["t"].get<double>(), v["tag"].get<std::string>().c_str(), v["d"].get<std::string>().c_str());
        hit |= want.empty() || v["tag"] == want;
    }
    printf("hash %s%s\n", hex(r["hash"].get<uint64_t>()).c_str(), f.contains("hash") ? (f["hash"] == hex(r["hash"].get<uint64_t>()) ? " (as recorded)" : " (differs from the recorded one)") : "");
    if (a.has("stat")) printf("%s\n", r.dump(1).c_str());
    if (hit && f.contains("property")) printf("VIOLATION property=%s replay=%s\n", f["property"].get<std::string>().c_str(), a.pos[0].c_str());
    return hit ? 1 : 0;
}
struct Agg
{
    std::map<std::string, double> stat, fault, ev;
    std::set<uint64_t> fps, states;
    double sim = 0;
    uint64_t runs = 0, handlers = 0, messages = 0, world = 0, incs = 0, builds = 0, nontrivial = 0;
    std::map<std::string, uint64_t> other, variants;
    void add(const json& sc, const json& r)
    {
        ++runs;
        if (!r.contains("stat")) return;
        auto sum = [](std::map<std::string, double>& d, const json& j) { for (auto& [k, v] : j.items()) d[k] += v.get<double>(); };
        sum(stat, r["stat"]);
        sum(fault, r["fault"]);
        sum(ev, r["ev"]);
        bool nw = fps.insert(r["fp"].get<uint64_t>()).second;
        for (auto& s : r["states"]) states.insert(s.get<uint64_t>());
        sim += r["sim"].get<double>();
        handlers += r["handlers"].get<uint64_t>();
        messages += r["messages"].get<uint64_t>();
        world += r["world"].get<uint64_t>();
        incs += r["incarnations"].get<uint64_t>();
        builds += r["builds"].get<uint64_t>();
        variants[std::to_string(sc.value("variant", 0))]++;
        if (nw && !r["ev"].empty()) ++nontrivial;
    }
};
static bool knownMatch(const json& known, const std::string& prop, const json& v, std::string& what)
{
    for (auto& k : known)
    {
        if (k["property"] != prop) continue;
        if (!tagMatch(v["tag"], {k["tag"].get<std::string>()})) continue;
        if (k.contains("contains") && v["d"].get<std::string>().find(k["contains"].get<std::string>()) == std::string::npos) continue;
        what = k["what"];
        return true;
    }
    return false;
}
static int cmdRun(const Args& a)
{
    std::string prop = a.get("prop");
    const Focus* f = focusById(prop);
    if (!f) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
    prop = f->code;
    double budget = atof(a.get("time", "25").c_str());
    uint64_t seed0 = strtoull(a.get("seed", "1").c_str(), nullptr, 10);
    int par = atoi(a.get("jobs", "8").c_str());
    uint64_t maxRuns = strtoull(a.get("runs", "1000000000").c_str(), nullptr, 10);
    std::string rdir = a.get("replays", "/tmp");
    json known = json::array();
    if (a.has("known")) { json k = json::parse(slurp(a.get("known")), nullptr, false); if (k.is_object() && k.contains("findings")) known = k["findings"]; }
    double t0 = wallNow();
    Agg g;
    std::vector<Job*> act;
    uint64_t next = 0;
    json failSc, failR, failV;
    uint64_t failSeed = 0;
    bool failed = false;
    std::map<std::string, uint64_t> knownHits;
    uint64_t broken = 0;
    json samples = json::array();
    uint64_t detChecks = 0;
    while (true)
    {
        bool go = !failed && wallNow() - t0 < budget && next < maxRuns;
        while (go && (int)act.size() < par && next < maxRuns)
        {
            auto* j = new Job;
            j->seed = seed0 * 1000000 + next++;
            j->sc = genScenario(j->seed, *f);
            start(*j);
            act.push_back(j);
        }
        if (act.empty()) break;
        std::vector<pollfd> pf;
        for (auto* j : act) pf.push_back({j->fd, POLLIN, 0});
        poll(pf.data(), pf.size(), 1000);
        std::vector<Job*> keep;
        for (size_t i = 0; i < act.size(); ++i)
        {
            Job* j = act[i];
            if (wallNow() - j->began > 120) { j->timedOut = true; kill(j->pid, SIGKILL); }
            if (!(pf[i].revents && pump(*j))) { keep.push_back(j); continue; }
            auto r = result(*j);
            if (r.contains("broken")) ++broken;
            g.add(j->sc, r);
            if (samples.size() < 4)
                samples.push_back({{"seed", j->seed}, {"variant", j->sc["variant"]}, {"events", j->sc["ev"].size()}, {"sim_s", r.value("sim", 0.0)}, {"hash", hex(r["hash"].get<uint64_t>())}});
            if (r.contains("viol"))
                for (auto& v : r["viol"])
                {
                    std::string what;
                    if (!tagMatch(v["tag"], f->tags)) { g.other[v["tag"]]++; continue; }
                    if (knownMatch(known, prop, v, what)) { knownHits[what]++; continue; }
                    if (!failed || j->seed < failSeed)
                    {
                        failed = true;
                        failSc = j->sc;
                        failR = r;
                        failV = v;
                        failSeed = j->seed;
                    }
                    break;
                }
            delete j;
        }
        act = keep;
    }
    double searchS = wallNow() - t0;
    int rc = 0;
    std::string replay;
    json violations = json::array();
    for (auto& [w, n] : knownHits) printf("KNOWN-FINDING: property=%s %s (%lu runs)\n", prop.c_str(), w.c_str(), (unsigned long)n);
    if (failed)
    {
        std::string tag = failV["tag"];
        // exactly repeatable?
        auto r2 = runOnce(failSc);
        bool same = r2["hash"] == failR["hash"] || failR.contains("crash");
        if (!same) fprintf(stderr, "seed %lu: the violation repeats with a different execution fingerprint\n", (unsigned long)failSeed);
        if (!hasTag(r2, tag))
        {
            fprintf(stderr, "seed %lu does not repeat (%s): simulator defect\n", (unsigned long)failSeed, tag.c_str());
            return 2;
        }
        int tried = 0;
        json m = minimise(failSc, tag, atof(a.get("mintime", "20").c_str()), par, tried);
        auto r3 = runOnce(m), r4 = runOnce(m);
        if (!hasTag(r3, tag) || r3["hash"] != r4["hash"]) { m = failSc; r3 = r2; }
        const json* v = nullptr;
        for (auto& x : r3["viol"])
            if (x["tag"] == tag) { v = &x; break; }
        fs::create_directories(rdir);
        replay = rdir + "/" + prop + "-" + std::to_string(failSeed) + ".json";
        json out{{"property", prop}, {"tag", tag}, {"detail", v ? (*v)["d"] : json("")}, {"at_s", v ? (*v)["t"] : json(0)}, {"seed", failSeed}, {"hash", hex(r3["hash"].get<uint64_t>())}, {"events_before", failSc["ev"].size()}, {"events_after", m["ev"].size()}, {"minimiser_runs", tried}, {"scenario", m}};
        std::ofstream(replay) << out.dump(1) << "\n";
        printf("seed %lu: %s: %s (t=%.3f s; %zu of %zu events after minimising)\n", (unsigned long)failSeed, tag.c_str(), v ? (*v)["d"].get<std::string>().c_str() : "", v ? (*v)["t"].get<double>() : 0.0, m["ev"].size(), failSc["ev"].size());
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay.c_str());
        violations.push_back({{"tag", tag}, {"seed", failSeed}, {"replay", replay}});
        rc = 1;
    }
    else
    {
        // repeatability of a few executions
        for (uint64_t k = 0; k < std::min<uint64_t>(3, next); ++k)
        {
            json sc = genScenario(seed0 * 1000000 + k, *f);
            auto ra = runOnce(sc), rb = runOnce(sc);
            ++detChecks;
            if (ra["hash"] != rb["hash"]) { fprintf(stderr, "seed %lu is not repeatable: simulator defect\n", (unsigned long)(seed0 * 1000000 + k)); rc = 2; }
        }
        if (broken > g.runs / 20 + 2) { fprintf(stderr, "%lu runs gave no result\n", (unsigned long)broken); rc = 2; }
    }
    if (a.has("evidence"))
    {
        json e;
        e["property"] = prop;
        e["tier"] = a.get("tier", "quick");
        e["seed"] = (int64_t)seed0;
        e["level"] = "exploration";
        e["wall_s"] = std::round((wallNow() - t0) * 100) / 100;
        json c;
        c["evaluations"] = g.runs;
        c["distinct_nontrivial"] = g.nontrivial;
        c["rule"] = "one evaluation = one simulated execution of the whole daemon; counted as distinct and non-trivial when its schedule fingerprint (order of all handlers, timer expiries, message deliveries and blocking calls) was not seen before and at least one fault or operator event was applied";
        c["samples"] = samples;
        c["runs_per_hour"] = std::round((double)g.runs / std::max(0.01, searchS) * 3600);
        c["seeds"] = {{"first", seed0 * 1000000}, {"count", next}};
        c["simulated_seconds"] = std::round(g.sim);
        c["simulated_to_real"] = std::round(g.sim / std::max(0.01, searchS));
        c["faults_injected"] = g.fault;
        c["events_applied"] = g.ev;
        c["distinct_schedules"] = g.fps.size();
        c["distinct_abstract_states"] = g.states.size();
        c["abstract_state"] = "per zone and cycle: failsafe, manual, leader, per-sensor failure cause, setpoint bucket, enabled loops, host state, redundancy";
        c["oracle_checks"] = g.stat;
        c["handlers"] = g.handlers;
        c["dbus_messages"] = g.messages;
        c["world_events"] = g.world;
        c["daemon_incarnations"] = g.incs;
        c["control_loop_builds"] = g.builds;
        c["build_variants"] = g.variants;
        c["repeatability_checks"] = detChecks;
        c["deciding_tags"] = f->tags;
        c["tags_of_other_properties_seen"] = g.other;
        c["real_components"] = {"all of swampd (main, pid, sensors, sysfs, dbus, buildjson, failsafeloggers, hoststatemonitor, util)", "ipmi OEM command handlers", "configuration and log files, sysfs outputs (scratch directory)"};
        c["stub_components"] = {"boost::asio scheduler, timers and signals (simulated)", "sdbusplus and the D-Bus broker (simulated)", "ObjectMapper, sensor daemons, FanPwm service, EntityManager, host state, thermal mode, redundancy (simulated services)", "steady and system clocks (virtual)", "systemd restart (simulated)"};
        if (!knownHits.empty()) c["known_findings_seen"] = knownHits;
        e["coverage"] = c;
        e["violations"] = violations;
        e["assumptions"] = json::array({"the simulated asio scheduler, D-Bus broker and services behave like the real ones in the respects the daemon uses (DESIGN.md, section 'Simulator')", "behaviour between handler boundaries is judged at the boundary"});
        std::ofstream(a.get("evidence")) << e.dump(1) << "\n";
    }
    fprintf(stderr, "%s: %lu runs, %.0f simulated s, %zu schedules, %zu states in %.1f s%s\n", prop.c_str(), (unsigned long)g.runs, g.sim, g.fps.size(), g.states.size(), searchS, rc == 1 ? " -- VIOLATION" : "");
    if (a.has("v"))
    {
        for (auto& [k, n] : g.other) fprintf(stderr, "  other %s %lu\n", k.c_str(), (unsigned long)n);
        for (auto& [k, n] : g.stat) fprintf(stderr, "  stat %s %.0f\n", k.c_str(), n);
    }
    return rc;
}
// sweep: every focus' scenarios, all tags counted (development)
static int cmdSweep(const Args& a)
{
    double budget = atof(a.get("time", "60").c_str());
    uint64_t seed0 = strtoull(a.get("seed", "1").c_str(), nullptr, 10);
    int par = atoi(a.get("jobs", "8").c_str());
    std::vector<const Focus*> fl;
    for (auto& f : focuses())
        if (!a.has("prop") || f.id == a.get("prop") || f.code == a.get("prop")) fl.push_back(&f);
    double t0 = wallNow();
    std::map<std::string, std::pair<uint64_t, std::string>> seen;
    std::vector<Job*> act;
    uint64_t n = 0, done = 0;
    double sim = 0;
    std::string out = a.get("out", "/tmp/sweep");
    fs::create_directories(out);
    std::map<Job*, const Focus*> fo;
    std::map<std::string, double> stat;
    for (;;)
    {
        while (wallNow() - t0 < budget && (int)act.size() < par)
        {
            auto* j = new Job;
            const Focus* f = fl[n % fl.size()];
            j->seed = seed0 * 1000000 + n++ / fl.size();
            j->sc = genScenario(j->seed, *f);
            fo[j] = f;
            start(*j);
            act.push_back(j);
        }
        if (act.empty()) break;
        std::vector<pollfd> pf;
        for (auto* j : act) pf.push_back({j->fd, POLLIN, 0});
        poll(pf.data(), pf.size(), 1000);
        std::vector<Job*> keep;
        for (size_t i = 0; i < act.size(); ++i)
        {
            Job* j = act[i];
            if (!(pf[i].revents && pump(*j))) { keep.push_back(j); continue; }
            auto r = result(*j);
            if (r.contains("broken")) { printf("broken: %s seed %lu\n", fo[j]->id.c_str(), (unsigned long)j->seed); std::ofstream(out + "/broken.json") << j->sc.dump(); }
            ++done;
            sim += r.value("sim", 0.0);
            if (r.contains("stat")) for (auto& [k, v] : r["stat"].items()) stat[k] += v.get<double>();
            std::set<std::string> tags;
            for (auto& v : r["viol"])
            {
                std::string t = v["tag"];
                if (!tags.insert(t).second) continue;
                auto& s = seen[t];
                if (s.first++ < 3)
                {
                    std::string fn = out + "/" + t + "." + std::to_string(s.first) + ".json";
                    json o{{"tag", t}, {"detail", v["d"]}, {"focus", fo[j]->id}, {"seed", j->seed}, {"scenario", j->sc}};
                    std::ofstream(fn) << o.dump(1);
                    s.second += "\n      " + fn + " t=" + std::to_string(v["t"].get<double>()) + " [" + fo[j]->id + "] " + v["d"].get<std::string>();
                }
            }
            fo.erase(j);
            delete j;
        }
        act = keep;
    }
    printf("%lu runs, %.0f sim s in %.1f s\n", (unsigned long)done, sim, wallNow() - t0);
    for (auto& [t, s] : seen) printf("%-26s %6lu %s\n", t.c_str(), (unsigned long)s.first, s.second.c_str());
    if (a.has("stat")) for (auto& [k, v] : stat) printf("  %s %.0f\n", k.c_str(), v);
    return seen.empty() ? 0 : 1;
}
static int cmdMin(const Args& a)
{
    json f = json::parse(slurp(a.pos.at(0)));
    int tried = 0;
    json m = minimise(f["scenario"], f["tag"], atof(a.get("time", "30").c_str()), 8, tried);
    f["scenario"] = m;
    std::ofstream(a.pos[0]) << f.dump(1);
    printf("%zu events, %d runs\n", m["ev"].size(), tried);
    return 0;
}
int main(int argc, char** argv)
{
    // the same addresses in every execution
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) >= 0 && !getenv("SIM_REEXEC"))
    {
        setenv("SIM_REEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    if (argc < 2) { fprintf(stderr, "usage: sim run|replay|sweep|gen|min ...\n"); return 2; }
    std::string exe = fs::read_symlink("/proc/self/exe").string();
    buildDir = fs::path(exe).parent_path().string();
    Args a;
    for (int i = 2; i < argc; ++i)
    {
        std::string s = argv[i];
        if (s.rfind("--", 0) == 0)
        {
            auto e = s.find('=');
            if (e == std::string::npos) a.m[s.substr(2)] = "1";
            else a.m[s.substr(2, e - 2)] = s.substr(e + 1);
        }
        else a.pos.push_back(s);
    }
    for (copies = 0; fs::exists(buildDir + "/swampd_0_" + std::to_string(copies) + ".so"); ++copies) {}
    signal(SIGPIPE, SIG_IGN);
    scratchBase = (fs::exists("/dev/shm") && access("/dev/shm", W_OK) == 0 ? std::string("/dev/shm") : std::string("/tmp")) + "/swampsim." + pad(getpid(), 8);
    fs::create_directories(scratchBase);
    std::string c = argv[1];
    int rc = 2;
    try
    {
        if (c == "run") rc = cmdRun(a);
        else if (c == "replay") rc = cmdReplay(a);
        else if (c == "sweep") rc = cmdSweep(a);
        else if (c == "min") rc = cmdMin(a);
        else if (c == "gen") { printf("%s\n", genScenario(strtoull(a.get("seed", "1").c_str(), nullptr, 10), *focusById(a.get("prop"))).dump(1).c_str()); rc = 0; }
        else if (c == "list") { for (auto& f : focuses()) printf("%s %s\n", f.id.c_str(), f.code.c_str()); rc = 0; }
    }
    catch (const std::exception& e) { fprintf(stderr, "simulator error: %s\n", e.what()); rc = 2; }
    std::error_code ec;
    fs::remove_all(scratchBase, ec);
    return rc;
}
