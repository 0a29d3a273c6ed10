// Interface between the shim headers (compiled into the daemon / ipmid
// shared objects) and the simulation kernel (in the simulator executable).
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace sim
{
/* ---- dynamic D-Bus value ------------------------------------------------ */
struct Val
{
    char t = 0;         // D-Bus type code: b y n q i u x t d s o g v a ( {
    std::string asig;   // for 'a': full signature
    int64_t i = 0;      // integers / bool
    double d = 0;       // double
    std::string s;      // strings
    std::vector<Val> c; // children
    std::string sig() const;
    static Val boolean(bool v) { Val r; r.t = 'b'; r.i = v; return r; }
    static Val dbl(double v) { Val r; r.t = 'd'; r.d = v; return r; }
    static Val i64(int64_t v) { Val r; r.t = 'x'; r.i = v; return r; }
    static Val u64(uint64_t v) { Val r; r.t = 't'; r.i = (int64_t)v; return r; }
    static Val i32(int32_t v) { Val r; r.t = 'i'; r.i = v; return r; }
    static Val str(std::string v) { Val r; r.t = 's'; r.s = std::move(v); return r; }
    static Val path(std::string v) { Val r; r.t = 'o'; r.s = std::move(v); return r; }
    static Val strs(const std::vector<std::string>& v)
    {
        Val r; r.t = 'a'; r.asig = "as";
        for (auto& x : v) r.c.push_back(str(x));
        return r;
    }
    static Val var(Val v) { Val r; r.t = 'v'; r.c.push_back(std::move(v)); return r; }
    static Val entry(Val k, Val v)
    {
        Val r; r.t = '{'; r.c.push_back(std::move(k)); r.c.push_back(std::move(v));
        return r;
    }
    static Val array(std::string sig) { Val r; r.t = 'a'; r.asig = std::move(sig); return r; }
};

struct Msg : std::enable_shared_from_this<Msg>
{
    enum Type { Call = 1, Reply = 2, Error = 3, Signal = 4 } type = Call;
    std::string sender, dest, path, iface, member, errname, errmsg;
    std::vector<Val> args;
    uint64_t serial = 0, replySerial = 0;
    bool noReply = false;
    int64_t sentAt = 0;
};
using MsgP = std::shared_ptr<Msg>;

/* ---- bus connections ---------------------------------------------------- */
struct Conn; // owned by kernel
Conn* conn_open(const char* kind); // "bus" | "default" | "system" | "user"
void conn_unref(Conn*);
void conn_ref(Conn*);
const std::string& conn_unique(Conn*);
bool conn_request_name(Conn*, const std::string&);
MsgP conn_call(Conn*, const MsgP&, uint64_t timeout_us); // reply or error
void conn_send(Conn*, const MsgP&);                      // no reply expected
bool conn_process_one(Conn*); // used by code that pumps a bus itself
uint64_t match_add(Conn*, const std::string& rule,
                   std::function<int(const MsgP&)> cb);
void match_del(Conn*, uint64_t id);

struct PropDef
{
    std::string name, sig;
    std::function<Val()> get;
    std::function<void(const Val&)> set; // null: read-only
};
/* returns 0 or -EEXIST */
int object_add(Conn*, const std::string& path, const std::string& iface,
               std::vector<PropDef> props, uint64_t* id);
void object_del(Conn*, uint64_t id);
void emit_props_changed(Conn*, const std::string& path,
                        const std::string& iface,
                        const std::vector<std::string>& names);
void emit_ifaces(Conn*, const std::string& path,
                 const std::vector<std::string>& ifaces, bool added);
void manager_add(Conn*, const std::string& path);

/* ---- asio --------------------------------------------------------------- */
struct Io;
using Fn = std::move_only_function<void()>;
using FnEc = std::move_only_function<void(int)>; // 0 ok, else errno value
Io* io_new();
void io_delete(Io*);
uint64_t io_run(Io*, int mode); // 0 run, 1 run_one, 2 poll, 3 poll_one
uint64_t io_run_until(Io*, int64_t steady_ns);
void io_stop(Io*);
bool io_stopped(Io*);
void io_restart(Io*);
void io_post(Io*, Fn);
bool io_in_handler(Io*);

struct Timer;
Timer* timer_new(Io*);
void timer_delete(Timer*);
size_t timer_cancel(Timer*, bool one);
size_t timer_expires_at(Timer*, int64_t steady_ns);
int64_t timer_expiry(Timer*);
void timer_async_wait(Timer*, FnEc);
void timer_wait(Timer*);

struct SigSet;
using FnSig = std::move_only_function<void(int, int)>;
SigSet* sigset_new(Io*);
void sigset_delete(SigSet*);
void sigset_add(SigSet*, int);
void sigset_remove(SigSet*, int);
void sigset_cancel(SigSet*);
void sigset_async_wait(SigSet*, FnSig);

void conn_attach(Conn*, Io*); // asio::connection
void conn_detach(Conn*, Io*);

/* ---- misc --------------------------------------------------------------- */
[[noreturn]] void sim_exit(int code);
void phosphor_log(int level, const std::string& msg, const std::string& entries);
void sleep_ns(int64_t ns);

/* ipmid router */
void ipmi_register(uint32_t oem, uint8_t cmd,
                   std::function<uint8_t(uint8_t, const uint8_t*, uint8_t*,
                                         size_t*)>);
} // namespace sim
