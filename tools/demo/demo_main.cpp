// Runs one scripted scenario of the daemon and prints what can be observed from
// outside, one JSON object per line.  No verdicts here.
#include "kernel.hpp"
#include "world.hpp"

#include <filesystem>
#include <fstream>
#include <sstream>
#include <sys/personality.h>
#include <unistd.h>

namespace sim { extern std::string ipmidSo; extern std::string scratchDir; }
using namespace sim;
namespace fs = std::filesystem;

struct Rec : Hooks, WorldListener
{
    World& w;
    size_t seen = 0;
    std::map<std::string, std::string> files;
    std::map<int, int> fsState, manual;
    std::set<int> there;
    Rec(World& x) : w(x) {}
    double t() const { return (double)(K->now - 100 * SEC) / 1e9; }
    void out(json j)
    {
        j["t"] = t();
        std::string s = j.dump(-1, ' ', false, json::error_handler_t::replace) + "\n";
        if (::write(3, s.data(), s.size()) < 0) _exit(90);
    }
    void poll()
    {
        for (; seen < w.pwmSets.size(); ++seen)
        {
            auto& p = w.pwmSets[seen];
            out({{"k", "pwm"}, {"p", p.path}, {"v", p.v}, {"ok", p.ok}});
        }
        for (auto& fj : w.sc.value("pwmfiles", json::array()))
        {
            std::string f = fj;
            std::string s;
            std::error_code ec;
            if (fs::is_directory(w.sub(f), ec)) s = "(directory)";
            else if (FILE* h = ::fopen(w.sub(f).c_str(), "r"))
            {
                char b[4096];
                for (size_t n; (n = fread(b, 1, sizeof b, h)) > 0;) s.append(b, n);
                fclose(h);
            }
            auto it = files.find(f);
            if (it == files.end() || it->second != s)
            {
                files[f] = s;
                out({{"k", "file"}, {"p", f}, {"v", s}});
            }
        }
        for (int z = 0; z < 256; ++z)
        {
            Val v;
            bool ok = K->getProp("/xyz/openbmc_project/settings/fanctrl/zone" + std::to_string(z), "xyz.openbmc_project.Control.Mode", "FailSafe", v);
            if (!ok)
            {
                if (there.erase(z)) out({{"k", "zonegone"}, {"z", z}});
                fsState.erase(z);
                continue;
            }
            there.insert(z);
            int b = (int)v.i;
            if (!fsState.count(z) || fsState[z] != b) out({{"k", "fs"}, {"z", z}, {"v", b}});
            fsState[z] = b;
        }
    }
    void handlerEnd(HandlerInfo&) override { poll(); }
    void logLine(const std::string& l, bool) override { out({{"k", "log"}, {"l", l}}); }
    void clientDone(const json& ev, const MsgP&, const MsgP& r, int64_t) override
    {
        json j{{"k", "reply"}, {"ev", ev}, {"err", !r || r->type == Msg::Error}};
        if (r && !r->args.empty())
        {
            Val v = r->args[0];
            while (v.t == 'v' && v.c.size() == 1) v = Val(v.c[0]);
            j["i"] = v.i;
            j["d"] = v.d;
            j["s"] = v.s;
        }
        out(j);
    }
    void ipmiDone(const json& ev, int cc, const std::vector<uint8_t>& o, int64_t) override { out({{"k", "ipmi"}, {"ev", ev}, {"cc", cc}, {"o", o}}); }
};
int main(int argc, char** argv)
{
    if (!getenv("DEMO_REEXEC"))
    {
        setenv("DEMO_REEXEC", "1", 1);
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    std::ifstream i(argv[1]);
    json sc = json::parse(i);
    std::string build = fs::read_symlink("/proc/self/exe").parent_path();
    scratchDir = argv[2];
    fs::create_directories(scratchDir + "/tmp");
    if (chdir((scratchDir + "/tmp").c_str()) != 0) return 90;
    setenv("TMPDIR", (scratchDir + "/log").c_str(), 1);
    dup2(1, 3);
    K = new Kernel;
    K->rng = Rng(sc.value("seed", (uint64_t)1));
    ipmidSo = build + "/ipmid.so";
    captureStreams();
    World w;
    w.init(sc);
    Rec r(w);
    w.L = &r;
    K->hooks = &r;
    w.start();
    K->at(100 * SEC + (int64_t)(sc["dur"].get<double>() * 1e6), [&] { r.poll(); _exit(0); });
    std::vector<std::string> args;
    if (fs::exists(w.configPath())) args = {"-c", w.configPath()};
    if (sc.value("log", false)) { args.push_back("-l"); args.push_back(scratchDir + "/log"); }
    if (sc.value("core", false)) args.push_back("-g");
    if (sc.value("tune", false)) args.push_back("-t");
    for (int k = 0; k < 6; ++k)
    {
        r.out({{"k", "start"}});
        auto e = K->runDaemon(build + "/swampd_" + std::to_string(sc.value("variant", 0)) + "_" + std::to_string(k) + ".so", args);
        r.poll();
        r.out({{"k", "exit"}, {"kind", e.kind}, {"code", e.code}});
        if (e.kind == 0 && e.code == 0) K->advance(K->now + 3600 * SEC);
        K->advance(K->now + 5 * SEC);
    }
    return 0;
}
