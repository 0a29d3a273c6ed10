// Deterministic simulation kernel: virtual clocks, event queue, D-Bus broker,
// asio scheduler, process life cycle of the daemon under test.
#pragma once
#include "simapi.hpp"

#include <cstdint>
#include <cstdio>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace sim
{
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return b <= a ? a : a + (int64_t)below((uint64_t)(b - a + 1)); }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
    bool chance(double p) { return unit() < p; }
    double real(double a, double b) { return a + (b - a) * unit(); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

constexpr int64_t US = 1000, MS = 1000000, SEC = 1000000000;

struct Match
{
    uint64_t id = 0;
    std::string rule;
    std::map<std::string, std::string> kv;
    std::function<int(const MsgP&)> cb;
    bool active = false;
    uint64_t after = 0; // never run for messages read before the match was installed
};
struct ObjIface
{
    uint64_t id;
    std::string path, iface;
    std::vector<PropDef> props;
};
struct Node; // owner of connections: a daemon incarnation, ipmid, a client
struct Conn
{
    uint64_t id = 0;
    std::string unique, kind;
    std::set<std::string> names;
    int refs = 1;
    Node* node = nullptr;
    std::deque<std::pair<MsgP, uint64_t>> rq; // message, read counter
    uint64_t readCounter = 0;
    Io* io = nullptr;
    bool waiting = false; // fd wait registered with the reactor
    uint64_t readySeq = 0;
    bool closed = false;
    std::map<uint64_t, Match> matches;
    std::map<uint64_t, ObjIface> objects;
    std::set<std::string> managers;
    // blocking call state
    uint64_t waitSerial = 0;
    MsgP reply;
    int64_t lastIn = 0, lastOut = 0;
};
struct Node
{
    std::string name;
    bool daemon = false;
    bool alive = true;
    std::vector<Conn*> conns;
    Conn* def = nullptr; // sd_bus_default() of that process
};

enum class OpKind { Post, Timer, Bus, Signal };
struct Op
{
    OpKind kind = OpKind::Post;
    bool marker = false;
    Fn fn;
    Timer* timer = nullptr;
    int64_t expiry = 0;
    bool aborted = false;
    Conn* conn = nullptr;
    int signo = 0;
};
struct TimerWait
{
    FnEc fn;
    uint64_t seq;
};
struct Timer
{
    uint64_t id;
    Io* io;
    int64_t expiry = 0;
    int64_t armedAt = 0;       // steady time of the last async_wait
    uint64_t armedInHandler = 0;
    std::deque<TimerWait> waits;
};
struct SigSet
{
    Io* io;
    std::set<int> sigs;
    std::deque<FnSig> waits;
    std::map<int, int> queued;
};
struct Io
{
    std::deque<Op> q;
    bool stopped = false, running = false, inHandler = false;
    std::vector<Timer*> timers;
    std::vector<Conn*> conns;
    std::vector<SigSet*> sigs;
};

/* a world-side D-Bus service */
struct Service
{
    std::string name, unique;
    bool alive = true;
    int64_t lastIn = 0, lastOut = 0;
    // returns reply (args) or error; null => never answers
    std::function<MsgP(const MsgP&)> handle;
    std::function<int64_t(const MsgP&)> delay; // extra ns before replying
};

/* info on the handler being executed by the daemon */
struct HandlerInfo
{
    uint64_t n = 0; // handler number
    OpKind kind = OpKind::Post;
    Timer* timer = nullptr;
    uint64_t timerId = 0;
    int64_t expiry = 0;
    bool aborted = false;
    Conn* conn = nullptr;
    MsgP msg; // bus message processed
    int signo = 0;
    int64_t begin = 0, end = 0;       // steady
    int64_t wallBegin = 0, wallEnd = 0; // wall
    int64_t wallFirstBlock = 0;       // wall time at first blocking operation (0: none)
    bool blocked = false;
    std::vector<Timer*> armed;
    std::vector<std::pair<MsgP, MsgP>> calls; // blocking calls: request, reply
    std::vector<ObjIface*> objAdded;
    uint64_t clockReads = 0;
    int64_t fnEnd = 0, wallFnEnd = 0;           // when the upcall returned
    std::vector<std::pair<std::string, bool>> opens; // files opened: path, for writing
};

struct SchedParams
{
    int64_t latMin = 20 * US, latMax = 400 * US; // bus hop latency
    int64_t costMin = 5 * US, costMax = 300 * US; // handler cost
    int64_t timerLate = 200 * US;
    double slowP = 0.0;       // probability of a slow hop
    int64_t slowMax = 50 * MS;
    double stallP = 0.0;      // probability that a handler is preceded by a stall
    int64_t stallMax = 300 * MS;
};

struct DaemonExit
{
    int kind = 0; // 0 returned from main, 1 exit(code), 2 exception, 3 signal, 4 killed by the simulator
    int code = 0;
    std::string what;
};

struct Hooks
{
    virtual ~Hooks() = default;
    virtual void handlerBegin(HandlerInfo&) {}
    virtual void handlerEnd(HandlerInfo&) {}
    virtual void timerCancelled(Timer*) {}
    virtual void signalDispatched(Conn*, const MsgP&, bool pathMatch) {}
    virtual void signalRouted(const MsgP&, bool toDaemonPathMatch) {}
    virtual void daemonCall(const MsgP& req, const MsgP& reply, Conn*) {} // call processed by the daemon
    virtual void opened(const std::string&, bool) {} // the daemon opens a file: path, for writing
    virtual void logLine(const std::string&, bool isErr) {}
    virtual void phosphorLog(int, const std::string&) {}
};

struct Kernel
{
    int64_t now = 100 * SEC;
    int64_t wallOff = 1700000000ll * SEC;
    Rng rng{1};
    SchedParams sp;
    Hooks* hooks = nullptr;
    uint64_t seq = 0, nextId = 1, serial = 1;
    struct Ev
    {
        int64_t at;
        uint64_t seq;
        std::function<void()> fn;
    };
    std::vector<Ev> heap;
    std::map<std::string, Conn*> connsByUnique;
    std::map<std::string, Conn*> nameOwner;        // daemon/ipmid/client names
    std::map<std::string, Service*> services;      // by well-known name
    std::map<std::string, Service*> servicesByUnique;
    std::vector<Node*> nodes;
    Node* cur = nullptr; // node whose code is executing
    HandlerInfo* hi = nullptr;
    HandlerInfo startup;
    uint64_t handlers = 0, clockReads = 0, messages = 0, worldEvents = 0, blockingCalls = 0;
    int64_t pendingStall = 0;
    uint64_t hash = 1469598103934665603ull;
    bool finishing = false;
    FILE* trace = nullptr;
    uint64_t traceFp = 0; // schedule fingerprint

    int64_t wall() const { return now + wallOff; }
    void at(int64_t t, std::function<void()> fn);
    void after(int64_t d, std::function<void()> fn) { at(now + d, std::move(fn)); }
    void advance(int64_t t);     // run world events up to t, set now
    int64_t nextEvent() const;   // INT64_MAX if none
    void tracef(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void mix(uint64_t v) { hash = (hash ^ v) * 1099511628211ull; }
    void mixs(const std::string& s) { for (char c : s) mix((unsigned char)c); mix(s.size()); }
    int64_t hop();

    // broker
    void brokerIn(const std::string& senderUnique, int64_t& lastIn, MsgP m);
    void route(const MsgP& m);
    void deliver(Conn* c, const MsgP& m);
    void deliverService(Service* s, const MsgP& m);
    void emitSignal(Service* s, MsgP m);
    bool matchRule(const Match& mt, const MsgP& m);
    Service* addService(const std::string& name, std::function<MsgP(const MsgP&)> h);
    void serviceDown(Service* s);
    void serviceUp(Service* s);
    void nameChanged(const std::string& name, const std::string& oldU, const std::string& newU);
    MsgP errorReply(const MsgP& req, const std::string& name, const std::string& msg);
    MsgP reply(const MsgP& req);
    // world-side client call (asynchronous)
    void clientCall(const std::string& client, MsgP m, std::function<void(const MsgP&)> cb);
    std::map<uint64_t, std::function<void(const MsgP&)>> clientWait;
    std::map<std::string, int64_t> clientIn, clientOut;

    // daemon life cycle
    Node* newNode(const std::string& name, bool daemon);
    void killNode(Node*);
    DaemonExit runDaemon(const std::string& so, const std::vector<std::string>& args);
    [[noreturn]] void killDaemonNow(); // from a world event while the daemon is running
    bool daemonRunning() const { return dnode != nullptr; }
    Node* dnode = nullptr;
    void raiseSignal(int signo);
    Timer* timerById(uint64_t id);
    std::set<Timer*> timers;
    std::vector<Io*> ios;

    // daemon object tree
    ObjIface* findObj(const std::string& path, const std::string& iface);
    bool getProp(const std::string& path, const std::string& iface, const std::string& prop, Val& out);
    MsgP dispatchCall(Conn* c, const MsgP& m);
    bool processOne(Conn* c);
    void runOp(Io* io, Op& op);
};
extern Kernel* K;
extern int ownOpen; // > 0: the harness itself is opening files
struct OwnOpen
{
    OwnOpen() { ++ownOpen; }
    ~OwnOpen() { --ownOpen; }
};
extern std::map<std::string, int> failOpen; // daemon opens of these paths fail with that errno

// fibers for nodes other than the daemon (ipmid)
struct Fiber;
void fiberRun(Node* n, std::function<void()> fn); // starts now, may yield
bool inFiber();
void captureStreams();
void flushCapture();
} // namespace sim
