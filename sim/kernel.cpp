#include "kernel.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <climits>
#include <cstdlib>
#include <exception>
#include <iostream>
#include <stdexcept>
#include <streambuf>

namespace sim
{
Kernel* K = nullptr;

/* ---------------------------------------------------------------- Val ---- */
std::string Val::sig() const
{
    switch (t)
    {
        case 'a': return asig;
        case '(':
        {
            std::string r = "(";
            for (auto& x : c) r += x.sig();
            return r + ")";
        }
        case '{': return "{" + c[0].sig() + c[1].sig() + "}";
        case 0: return "";
        default: return std::string(1, t);
    }
}

/* ------------------------------------------------------------- events ---- */
static bool evLater(const Kernel::Ev& a, const Kernel::Ev& b)
{
    return a.at != b.at ? a.at > b.at : a.seq > b.seq;
}
void Kernel::at(int64_t t, std::function<void()> fn)
{
    heap.push_back({std::max(t, now), ++seq, std::move(fn)});
    std::push_heap(heap.begin(), heap.end(), evLater);
}
int64_t Kernel::nextEvent() const { return heap.empty() ? INT64_MAX : heap.front().at; }
void Kernel::advance(int64_t t)
{
    while (!heap.empty() && heap.front().at <= std::max(t, now))
    {
        std::pop_heap(heap.begin(), heap.end(), evLater);
        Ev e = std::move(heap.back());
        heap.pop_back();
        if (e.at > now) now = e.at;
        ++worldEvents;
        Node* save = cur;
        cur = nullptr;
        e.fn();
        cur = save;
    }
    if (t > now) now = t;
}
extern std::string scratchDir;
void Kernel::tracef(const char* fmt, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    mix((uint64_t)now);
    // the scratch directory differs from run to run and is not part of the
    // execution
    size_t sl = scratchDir.size();
    for (int i = 0; i < n; ++i)
    {
        if (sl && buf[i] == scratchDir[0] && (size_t)(n - i) >= sl && memcmp(buf + i, scratchDir.data(), sl) == 0)
        {
            mix('$');
            i += (int)sl - 1;
            continue;
        }
        mix((unsigned char)buf[i]);
    }
    if (trace) fprintf(trace, "[%13.6f] %s\n", (double)(now - 100 * SEC) / 1e9, buf);
}
int64_t Kernel::hop()
{
    if (sp.slowP > 0 && rng.chance(sp.slowP)) return rng.range(sp.latMax, std::max(sp.latMax, sp.slowMax));
    return rng.range(sp.latMin, sp.latMax);
}

/* ------------------------------------------------------------- broker ---- */
static std::map<std::string, std::string> parseRule(const std::string& r)
{
    std::map<std::string, std::string> kv;
    size_t i = 0;
    while (i < r.size())
    {
        while (i < r.size() && (r[i] == ',' || r[i] == ' ')) ++i;
        size_t e = r.find('=', i);
        if (e == std::string::npos) break;
        std::string k = r.substr(i, e - i), v;
        i = e + 1;
        if (i < r.size() && r[i] == '\'')
        {
            size_t q = r.find('\'', i + 1);
            if (q == std::string::npos) q = r.size();
            v = r.substr(i + 1, q - i - 1);
            i = q + 1;
        }
        else
        {
            size_t q = r.find(',', i);
            if (q == std::string::npos) q = r.size();
            v = r.substr(i, q - i);
            i = q;
        }
        kv[k] = v;
    }
    return kv;
}
static bool nsMatch(const std::string& v, const std::string& ns, char sep)
{
    if (ns == "/" && sep == '/') return true;
    return v == ns || (v.size() > ns.size() && v.compare(0, ns.size(), ns) == 0 && v[ns.size()] == sep);
}
bool Kernel::matchRule(const Match& mt, const MsgP& m)
{
    for (auto& [k, v] : mt.kv)
    {
        if (k == "type") { if (v != "signal") return false; }
        else if (k == "sender")
        {
            if (v == m->sender) continue;
            auto s = services.find(v);
            if (s != services.end() && s->second->unique == m->sender) continue;
            auto o = nameOwner.find(v);
            if (o != nameOwner.end() && o->second->unique == m->sender) continue;
            return false;
        }
        else if (k == "interface") { if (v != m->iface) return false; }
        else if (k == "member") { if (v != m->member) return false; }
        else if (k == "path") { if (v != m->path) return false; }
        else if (k == "path_namespace") { if (!nsMatch(m->path, v, '/')) return false; }
        else if (k == "arg0namespace")
        {
            if (m->args.empty() || m->args[0].t != 's' || !nsMatch(m->args[0].s, v, '.')) return false;
        }
        else if (k.rfind("arg", 0) == 0)
        {
            char* end;
            size_t n = strtoul(k.c_str() + 3, &end, 10);
            if (n >= m->args.size()) return false;
            const Val& a = m->args[n];
            if (!strcmp(end, "path"))
            {
                if (a.t != 's' && a.t != 'o') return false;
                bool ok = a.s == v || (v.ends_with("/") && a.s.rfind(v, 0) == 0) || (a.s.ends_with("/") && v.rfind(a.s, 0) == 0);
                if (!ok) return false;
            }
            else if (a.t != 's' || a.s != v) return false;
        }
    }
    return true;
}
void Kernel::brokerIn(const std::string& senderUnique, int64_t& lastIn, MsgP m)
{
    m->sender = senderUnique;
    if (!m->serial) m->serial = ++serial;
    m->sentAt = now;
    ++messages;
    int64_t t = std::max(lastIn + 1, now + hop());
    lastIn = t;
    at(t, [this, m] { route(m); });
}
MsgP Kernel::errorReply(const MsgP& req, const std::string& name, const std::string& msg)
{
    auto r = std::make_shared<Msg>();
    r->type = Msg::Error;
    r->replySerial = req->serial;
    r->dest = req->sender;
    r->errname = name;
    r->errmsg = msg;
    return r;
}
MsgP Kernel::reply(const MsgP& req)
{
    auto r = std::make_shared<Msg>();
    r->type = Msg::Reply;
    r->replySerial = req->serial;
    r->dest = req->sender;
    return r;
}
void Kernel::deliver(Conn* c, const MsgP& m)
{
    int64_t t = std::max(c->lastOut + 1, now + hop());
    c->lastOut = t;
    uint64_t cid = c->id;
    std::string u = c->unique;
    at(t, [this, u, cid, m] {
        auto it = connsByUnique.find(u);
        if (it == connsByUnique.end() || it->second->id != cid || it->second->closed) return;
        Conn* c = it->second;
        if ((m->type == Msg::Reply || m->type == Msg::Error))
        {
            if (c->waitSerial && m->replySerial == c->waitSerial) { c->reply = m; return; }
            return; // late reply: dropped by sd-bus
        }
        if (c->rq.empty()) c->readySeq = ++seq;
        c->rq.emplace_back(m, ++c->readCounter);
    });
}
void Kernel::deliverService(Service* s, const MsgP& m)
{
    int64_t t = std::max(s->lastOut + 1, now + hop());
    s->lastOut = t;
    at(t, [this, s, m] {
        auto serve = [this, s, m] {
            if (!s->alive) { route(errorReply(m, "org.freedesktop.DBus.Error.NoReply", "Remote peer disconnected")); return; }
            MsgP r = s->handle(m);
            if (!r || m->noReply) return;
            brokerIn(s->unique, s->lastIn, r);
        };
        int64_t d = s->alive && s->delay ? s->delay(m) : 0;
        if (d > 0) after(d, serve);
        else serve();
    });
}
void Kernel::route(const MsgP& m)
{
    if (m->type == Msg::Signal)
    {
        bool dpm = false;
        std::vector<Conn*> to;
        for (auto& [u, c] : connsByUnique)
        {
            if (c->closed) continue;
            bool any = false;
            for (auto& [id, mt] : c->matches)
            {
                if (!mt.active || !matchRule(mt, m)) continue;
                any = true;
                if (c->node && c->node->daemon && (mt.kv.count("path") || (mt.kv.count("path_namespace") && mt.kv.at("path_namespace") != "/"))) dpm = true;
            }
            if (any) to.push_back(c);
        }
        if (hooks) hooks->signalRouted(m, dpm);
        for (auto* c : to) deliver(c, m);
        return;
    }
    if (m->type == Msg::Call)
    {
        Service* s = nullptr;
        if (auto i = services.find(m->dest); i != services.end()) s = i->second;
        else if (auto j = servicesByUnique.find(m->dest); j != servicesByUnique.end()) s = j->second;
        if (s && s->alive) { deliverService(s, m); return; }
        Conn* c = nullptr;
        if (auto i = nameOwner.find(m->dest); i != nameOwner.end()) c = i->second;
        else if (auto j = connsByUnique.find(m->dest); j != connsByUnique.end()) c = j->second;
        if (c && !c->closed) { deliver(c, m); return; }
        if (!m->noReply)
            route(errorReply(m, "org.freedesktop.DBus.Error.ServiceUnknown", "The name " + m->dest + " was not provided by any .service files"));
        return;
    }
    // replies
    if (auto j = connsByUnique.find(m->dest); j != connsByUnique.end()) { deliver(j->second, m); return; }
    if (auto j = clientWait.find(m->replySerial); j != clientWait.end())
    {
        auto cb = std::move(j->second);
        clientWait.erase(j);
        int64_t& lo = clientOut[m->dest];
        int64_t t = std::max(lo + 1, now + hop());
        lo = t;
        at(t, [cb, m] { cb(m); });
    }
}
void Kernel::emitSignal(Service* s, MsgP m)
{
    if (!s->alive) return;
    m->type = Msg::Signal;
    brokerIn(s->unique, s->lastIn, m);
}
Service* Kernel::addService(const std::string& name, std::function<MsgP(const MsgP&)> h)
{
    auto* s = new Service;
    s->name = name;
    s->unique = ":1." + std::to_string(100 + nextId++);
    s->handle = std::move(h);
    services[name] = s;
    servicesByUnique[s->unique] = s;
    return s;
}
void Kernel::nameChanged(const std::string& name, const std::string& oldU, const std::string& newU)
{
    auto m = std::make_shared<Msg>();
    m->type = Msg::Signal;
    m->sender = "org.freedesktop.DBus";
    m->path = "/org/freedesktop/DBus";
    m->iface = "org.freedesktop.DBus";
    m->member = "NameOwnerChanged";
    m->serial = ++serial;
    m->args = {Val::str(name), Val::str(oldU), Val::str(newU)};
    at(now + hop(), [this, m] { route(m); });
}
void Kernel::serviceDown(Service* s)
{
    if (!s->alive) return;
    s->alive = false;
    servicesByUnique.erase(s->unique);
    nameChanged(s->name, s->unique, "");
}
void Kernel::serviceUp(Service* s)
{
    if (s->alive) return;
    s->alive = true;
    s->unique = ":1." + std::to_string(100 + nextId++);
    servicesByUnique[s->unique] = s;
    s->lastIn = s->lastOut = now;
    nameChanged(s->name, "", s->unique);
}
void Kernel::clientCall(const std::string& client, MsgP m, std::function<void(const MsgP&)> cb)
{
    m->type = Msg::Call;
    m->serial = ++serial;
    uint64_t ser = m->serial;
    auto req = m;
    clientWait[ser] = [cb](const MsgP& r) { if (cb) cb(r); };
    brokerIn(client, clientIn[client], m);
    after(25 * SEC, [this, ser, req] {
        auto j = clientWait.find(ser);
        if (j == clientWait.end()) return;
        auto f = std::move(j->second);
        clientWait.erase(j);
        f(errorReply(req, "org.freedesktop.DBus.Error.Timeout", "timeout"));
    });
}

/* -------------------------------------------------------------- nodes ---- */
Node* Kernel::newNode(const std::string& name, bool daemon)
{
    auto* n = new Node;
    n->name = name;
    n->daemon = daemon;
    nodes.push_back(n);
    return n;
}
void Kernel::killNode(Node* n)
{
    n->alive = false;
    for (auto* c : n->conns)
    {
        if (c->closed) continue;
        c->closed = true;
        for (auto& nm : c->names)
        {
            nameOwner.erase(nm);
            nameChanged(nm, c->unique, "");
        }
        connsByUnique.erase(c->unique);
        for (auto& [m, rc] : c->rq)
            if (m->type == Msg::Call && !m->noReply)
                route(errorReply(m, "org.freedesktop.DBus.Error.NoReply", "Remote peer disconnected"));
    }
}

/* -------------------------------------------------------------- fibers --- */
struct Fiber
{
    ucontext_t ctx, back;
    std::vector<char> stack;
    std::function<void()> fn;
    Node* node = nullptr;
    bool done = false;
};
static Fiber* curFiber = nullptr;
bool inFiber() { return curFiber != nullptr; }
static void fiberMain(unsigned lo, unsigned hi)
{
    auto* f = (Fiber*)((uintptr_t)lo | ((uintptr_t)hi << 32));
    f->fn();
    f->done = true;
    swapcontext(&f->ctx, &f->back);
}
static void fiberResume(Fiber* f)
{
    Fiber* prev = curFiber;
    Node* pn = K->cur;
    curFiber = f;
    K->cur = f->node;
    swapcontext(&f->back, &f->ctx);
    curFiber = prev;
    K->cur = pn;
    if (f->done) delete f;
}
void fiberRun(Node* n, std::function<void()> fn)
{
    auto* f = new Fiber;
    f->stack.resize(256 * 1024);
    f->fn = std::move(fn);
    f->node = n;
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack.data();
    f->ctx.uc_stack.ss_size = f->stack.size();
    f->ctx.uc_link = nullptr;
    uintptr_t p = (uintptr_t)f;
    makecontext(&f->ctx, (void (*)())fiberMain, 2, (unsigned)p, (unsigned)(p >> 32));
    fiberResume(f);
}

/* --------------------------------------------------------- bus API ------- */
Conn* conn_open(const char* kind)
{
    Node* n = K->cur;
    if (!strcmp(kind, "default") && n && n->def && !n->def->closed)
    {
        n->def->refs++;
        return n->def;
    }
    auto* c = new Conn;
    c->id = K->nextId++;
    c->unique = ":1." + std::to_string(1000 + c->id);
    c->kind = kind;
    c->node = n;
    c->lastIn = c->lastOut = K->now;
    K->connsByUnique[c->unique] = c;
    if (n) n->conns.push_back(c);
    if (!strcmp(kind, "default") && n)
    {
        n->def = c;
        c->refs++; // cached by sd_bus_default()
    }
    return c;
}
void conn_ref(Conn* c) { if (c) c->refs++; }
void conn_unref(Conn* c)
{
    if (!c) return;
    if (--c->refs > 0 || c->closed) return;
    c->closed = true;
    K->connsByUnique.erase(c->unique);
    for (auto& nm : c->names) K->nameOwner.erase(nm);
}
const std::string& conn_unique(Conn* c) { return c->unique; }
static void blockingDelay(int64_t d)
{
    // the calling thread is blocked for d while the world goes on
    if (K->cur && K->cur->daemon)
    {
        if (K->hi && !K->hi->blocked) { K->hi->blocked = true; K->hi->wallFirstBlock = K->wall(); }
        K->advance(K->now + d);
    }
    else if (curFiber)
    {
        Fiber* f = curFiber;
        K->after(d, [f] { fiberResume(f); });
        swapcontext(&f->ctx, &f->back);
    }
}
bool conn_request_name(Conn* c, const std::string& n)
{
    blockingDelay(K->hop() + K->hop());
    if (K->nameOwner.count(n)) return false;
    K->nameOwner[n] = c;
    c->names.insert(n);
    K->nameChanged(n, "", c->unique);
    return true;
}
MsgP conn_call(Conn* c, const MsgP& req0, uint64_t timeout_us)
{
    auto req = std::make_shared<Msg>(*req0);
    req->type = Msg::Call;
    req->serial = ++K->serial;
    int64_t deadline = K->now + (timeout_us ? (int64_t)timeout_us * US : 25 * SEC);
    ++K->blockingCalls;
    K->tracef("call %s %s %s.%s", c->unique.c_str(), req->path.c_str(), req->iface.c_str(), req->member.c_str());
    if (K->cur && K->cur->daemon && K->hi && !K->hi->blocked) { K->hi->blocked = true; K->hi->wallFirstBlock = K->wall(); }
    c->waitSerial = req->serial;
    c->reply = nullptr;
    K->brokerIn(c->unique, c->lastIn, req);
    if (curFiber)
    {
        // polled by world events
        Fiber* f = curFiber;
        while (!c->reply && K->now < deadline)
        {
            K->after(200 * US, [f] { fiberResume(f); });
            swapcontext(&f->ctx, &f->back);
        }
    }
    else
    {
        while (!c->reply && K->now < deadline)
        {
            int64_t t = K->nextEvent();
            if (t > deadline) { K->advance(deadline); break; }
            K->advance(t);
        }
    }
    c->waitSerial = 0;
    MsgP r = c->reply;
    c->reply = nullptr;
    if (!r) r = K->errorReply(req, "org.freedesktop.DBus.Error.Timeout", "Connection timed out");
    K->tracef("  -> %s %s", r->type == Msg::Error ? "error" : "reply", r->errname.c_str());
    if (K->hi && K->cur && K->cur->daemon) K->hi->calls.emplace_back(req, r);
    return r;
}
void conn_send(Conn* c, const MsgP& m)
{
    if (c->closed) return;
    K->brokerIn(c->unique, c->lastIn, m);
}
uint64_t match_add(Conn* c, const std::string& rule, std::function<int(const MsgP&)> cb)
{
    uint64_t id = K->nextId++;
    Match m;
    m.id = id;
    m.rule = rule;
    m.kv = parseRule(rule);
    m.cb = std::move(cb);
    m.active = false;
    c->matches[id] = std::move(m);
    // AddMatch is a synchronous call to the broker: effective when the broker
    // processes it, returns one hop later
    int64_t t = std::max(c->lastIn + 1, K->now + K->hop());
    c->lastIn = t;
    int64_t d1 = t - K->now;
    blockingDelay(d1);
    if (c->matches.count(id)) c->matches[id].active = true;
    blockingDelay(K->hop());
    if (c->matches.count(id)) c->matches[id].after = c->readCounter;
    return id;
}
void match_del(Conn* c, uint64_t id) { c->matches.erase(id); }
int object_add(Conn* c, const std::string& path, const std::string& iface, std::vector<PropDef> props, uint64_t* id)
{
    for (auto& [i, o] : c->objects)
        if (o.path == path && o.iface == iface) return -EEXIST;
    *id = K->nextId++;
    auto& o = c->objects[*id];
    o.id = *id;
    o.path = path;
    o.iface = iface;
    o.props = std::move(props);
    if (K->hi && c->node && c->node->daemon) K->hi->objAdded.push_back(&o);
    return 0;
}
void object_del(Conn* c, uint64_t id)
{
    if (K->hi)
        std::erase_if(K->hi->objAdded, [&](ObjIface* o) { return o->id == id; });
    c->objects.erase(id);
}
void emit_props_changed(Conn* c, const std::string& path, const std::string& iface, const std::vector<std::string>& names)
{
    if (c->closed) return;
    auto m = std::make_shared<Msg>();
    m->type = Msg::Signal;
    m->path = path;
    m->iface = "org.freedesktop.DBus.Properties";
    m->member = "PropertiesChanged";
    Val d = Val::array("a{sv}");
    for (auto& [id, o] : c->objects)
        if (o.path == path && o.iface == iface)
            for (auto& p : o.props)
                if (std::find(names.begin(), names.end(), p.name) != names.end())
                    d.c.push_back(Val::entry(Val::str(p.name), Val::var(p.get())));
    m->args = {Val::str(iface), d, Val::strs({})};
    K->brokerIn(c->unique, c->lastIn, m);
}
void emit_ifaces(Conn* c, const std::string& path, const std::vector<std::string>& ifaces, bool added)
{
    if (c->closed || c->managers.empty()) return;
    std::string mgr;
    for (auto& p : c->managers)
        if (nsMatch(path, p, '/')) mgr = p;
    if (mgr.empty()) return;
    auto m = std::make_shared<Msg>();
    m->type = Msg::Signal;
    m->path = mgr;
    m->iface = "org.freedesktop.DBus.ObjectManager";
    m->member = added ? "InterfacesAdded" : "InterfacesRemoved";
    if (added)
    {
        Val d = Val::array("a{sa{sv}}");
        for (auto& i : ifaces)
        {
            Val pd = Val::array("a{sv}");
            for (auto& [id, o] : c->objects)
                if (o.path == path && o.iface == i)
                    for (auto& p : o.props) pd.c.push_back(Val::entry(Val::str(p.name), Val::var(p.get())));
            d.c.push_back(Val::entry(Val::str(i), pd));
        }
        m->args = {Val::path(path), d};
    }
    else m->args = {Val::path(path), Val::strs(ifaces)};
    K->brokerIn(c->unique, c->lastIn, m);
}
void manager_add(Conn* c, const std::string& path) { c->managers.insert(path); }

ObjIface* Kernel::findObj(const std::string& path, const std::string& iface)
{
    if (!dnode) return nullptr;
    for (auto* c : dnode->conns)
        for (auto& [id, o] : c->objects)
            if (o.path == path && o.iface == iface) return &o;
    return nullptr;
}
bool Kernel::getProp(const std::string& path, const std::string& iface, const std::string& prop, Val& out)
{
    ObjIface* o = findObj(path, iface);
    if (!o) return false;
    for (auto& p : o->props)
        if (p.name == prop)
        {
            Node* s = cur;
            cur = dnode;
            out = p.get();
            cur = s;
            return true;
        }
    return false;
}
MsgP Kernel::dispatchCall(Conn* c, const MsgP& m)
{
    auto has = [&](const std::string& path) {
        for (auto& [id, o] : c->objects)
            if (o.path == path) return true;
        return false;
    };
    if (m->iface == "org.freedesktop.DBus.Properties")
    {
        if (!has(m->path)) return errorReply(m, "org.freedesktop.DBus.Error.UnknownObject", "Unknown object '" + m->path + "'.");
        std::string ifn = m->args.empty() ? "" : m->args[0].s;
        ObjIface* o = nullptr;
        for (auto& [id, x] : c->objects)
            if (x.path == m->path && x.iface == ifn) o = &x;
        if (m->member == "GetAll")
        {
            Val d = Val::array("a{sv}");
            if (!o && !ifn.empty()) return errorReply(m, "org.freedesktop.DBus.Error.UnknownInterface", "Unknown interface " + ifn);
            for (auto& [id, x] : c->objects)
                if (x.path == m->path && (ifn.empty() || &x == o))
                    for (auto& p : x.props) d.c.push_back(Val::entry(Val::str(p.name), Val::var(p.get())));
            auto r = reply(m);
            r->args = {d};
            return r;
        }
        if (!o) return errorReply(m, "org.freedesktop.DBus.Error.UnknownInterface", "Unknown interface " + ifn);
        if (m->args.size() < 2) return errorReply(m, "org.freedesktop.DBus.Error.InvalidArgs", "args");
        for (auto& p : o->props)
        {
            if (p.name != m->args[1].s) continue;
            if (m->member == "Get")
            {
                auto r = reply(m);
                r->args = {Val::var(p.get())};
                return r;
            }
            if (m->member == "Set")
            {
                if (!p.set) return errorReply(m, "org.freedesktop.DBus.Error.PropertyReadOnly", "Property is not writable");
                if (m->args.size() < 3 || m->args[2].t != 'v') return errorReply(m, "org.freedesktop.DBus.Error.InvalidArgs", "args");
                if (m->args[2].c[0].sig() != p.sig)
                    return errorReply(m, "org.freedesktop.DBus.Error.InvalidArgs", "Invalid signature");
                try
                {
                    p.set(m->args[2].c[0]);
                }
                catch (const std::exception& e)
                {
                    return errorReply(m, "xyz.openbmc_project.Common.Error.InternalFailure", e.what());
                }
                return reply(m);
            }
        }
        return errorReply(m, "org.freedesktop.DBus.Error.UnknownProperty", "Unknown property " + m->args[1].s);
    }
    if (m->iface == "org.freedesktop.DBus.ObjectManager" && m->member == "GetManagedObjects")
    {
        if (!c->managers.count(m->path)) return errorReply(m, "org.freedesktop.DBus.Error.UnknownObject", m->path);
        Val d = Val::array("a{oa{sa{sv}}}");
        std::map<std::string, Val> byPath;
        for (auto& [id, o] : c->objects)
        {
            if (!nsMatch(o.path, m->path, '/')) continue;
            auto& v = byPath.try_emplace(o.path, Val::array("a{sa{sv}}")).first->second;
            Val pd = Val::array("a{sv}");
            for (auto& p : o.props) pd.c.push_back(Val::entry(Val::str(p.name), Val::var(p.get())));
            v.c.push_back(Val::entry(Val::str(o.iface), pd));
        }
        for (auto& [p, v] : byPath) d.c.push_back(Val::entry(Val::path(p), v));
        auto r = reply(m);
        r->args = {d};
        return r;
    }
    if (m->iface == "org.freedesktop.DBus.Peer" || m->iface == "org.freedesktop.DBus.Introspectable") return reply(m);
    if (!has(m->path)) return errorReply(m, "org.freedesktop.DBus.Error.UnknownObject", "Unknown object '" + m->path + "'.");
    return errorReply(m, "org.freedesktop.DBus.Error.UnknownMethod", m->member);
}
bool Kernel::processOne(Conn* c)
{
    if (c->rq.empty()) return false;
    auto [m, rc] = c->rq.front();
    c->rq.pop_front();
    if (hi) hi->msg = m;
    tracef("dispatch %s %s %s.%s %s", c->kind.c_str(), m->path.c_str(), m->iface.c_str(), m->member.c_str(), m->args.empty() ? "" : m->args[0].s.c_str());
    if (m->type == Msg::Call)
    {
        MsgP r = dispatchCall(c, m);
        if (hooks) hooks->daemonCall(m, r, c);
        if (!m->noReply) brokerIn(c->unique, c->lastIn, r);
        return true;
    }
    if (m->type == Msg::Signal)
    {
        std::vector<uint64_t> ids;
        bool pm = false;
        for (auto& [id, mt] : c->matches)
            if (mt.active && rc > mt.after && matchRule(mt, m))
            {
                ids.push_back(id);
                if (mt.kv.count("path") || (mt.kv.count("path_namespace") && mt.kv.at("path_namespace") != "/")) pm = true;
            }
        if (hooks) hooks->signalDispatched(c, m, pm);
        for (auto id : ids)
        {
            auto it = c->matches.find(id);
            if (it == c->matches.end()) continue;
            auto cb = it->second.cb;
            cb(m);
        }
        return true;
    }
    return true;
}
bool conn_process_one(Conn* c) { return K->processOne(c); }
void phosphor_log(int l, const std::string& m, const std::string& e)
{
    K->tracef("journal<%d> %s%s", l, m.c_str(), e.c_str());
    if (K->hooks) K->hooks->phosphorLog(l, m + e);
}
void sleep_ns(int64_t ns) { blockingDelay(ns); }

/* --------------------------------------------------------------- asio ---- */
Io* io_new()
{
    auto* io = new Io;
    Op m;
    m.marker = true;
    io->q.push_back(std::move(m));
    K->ios.push_back(io);
    return io;
}
void io_delete(Io*) {}
void io_stop(Io* io) { io->stopped = true; }
bool io_stopped(Io* io) { return io->stopped; }
void io_restart(Io* io) { io->stopped = false; }
bool io_in_handler(Io* io) { return io->inHandler; }
void io_post(Io* io, Fn f)
{
    Op o;
    o.kind = OpKind::Post;
    o.fn = std::move(f);
    io->q.push_back(std::move(o));
}
Timer* timer_new(Io* io)
{
    auto* t = new Timer;
    t->id = K->nextId++;
    t->io = io;
    io->timers.push_back(t);
    K->timers.insert(t);
    return t;
}
static void timerPost(Timer* t, TimerWait w, int ec)
{
    Op o;
    o.kind = OpKind::Timer;
    o.timer = t;
    o.expiry = t->expiry;
    o.aborted = ec != 0;
    o.fn = [f = std::move(w.fn), ec]() mutable { f(ec); };
    t->io->q.push_back(std::move(o));
}
static size_t cancelWaits(Timer* t, bool one)
{
    size_t n = 0;
    while (!t->waits.empty())
    {
        TimerWait w = std::move(t->waits.front());
        t->waits.pop_front();
        timerPost(t, std::move(w), ECANCELED);
        ++n;
        if (one) break;
    }
    return n;
}
size_t timer_cancel(Timer* t, bool one)
{
    if (K->hooks) K->hooks->timerCancelled(t);
    return cancelWaits(t, one);
}
void timer_delete(Timer* t)
{
    if (K->hooks && !t->waits.empty()) K->hooks->timerCancelled(t);
    cancelWaits(t, false);
    std::erase(t->io->timers, t);
    K->timers.erase(t);
    // keep the memory: ops in the ready queue still name it
}
size_t timer_expires_at(Timer* t, int64_t ns)
{
    if (K->hooks && !t->waits.empty()) K->hooks->timerCancelled(t);
    size_t n = cancelWaits(t, false);
    t->expiry = ns;
    return n;
}
int64_t timer_expiry(Timer* t) { return t->expiry; }
void timer_async_wait(Timer* t, FnEc f)
{
    t->waits.push_back({std::move(f), ++K->seq});
    t->armedAt = K->now;
    if (K->hi)
    {
        t->armedInHandler = K->hi->n;
        K->hi->armed.push_back(t);
    }
}
void timer_wait(Timer* t)
{
    if (t->expiry > K->now) blockingDelay(t->expiry - K->now);
}
SigSet* sigset_new(Io* io)
{
    auto* s = new SigSet;
    s->io = io;
    io->sigs.push_back(s);
    return s;
}
void sigset_delete(SigSet* s) { std::erase(s->io->sigs, s); }
void sigset_add(SigSet* s, int n) { s->sigs.insert(n); }
void sigset_remove(SigSet* s, int n) { s->sigs.erase(n); }
static void sigPost(SigSet* s, FnSig f, int ec, int signo)
{
    Op o;
    o.kind = OpKind::Signal;
    o.signo = signo;
    o.aborted = ec != 0;
    o.fn = [f = std::move(f), ec, signo]() mutable { f(ec, signo); };
    s->io->q.push_back(std::move(o));
}
void sigset_cancel(SigSet* s)
{
    while (!s->waits.empty())
    {
        sigPost(s, std::move(s->waits.front()), ECANCELED, 0);
        s->waits.pop_front();
    }
}
void sigset_async_wait(SigSet* s, FnSig f)
{
    for (auto& [n, c] : s->queued)
        if (c > 0)
        {
            --c;
            sigPost(s, std::move(f), 0, n);
            return;
        }
    s->waits.push_back(std::move(f));
}
void conn_attach(Conn* c, Io* io)
{
    c->io = io;
    c->waiting = true;
    io->conns.push_back(c);
}
void conn_detach(Conn* c, Io* io)
{
    std::erase(io->conns, c);
    c->io = nullptr;
}
static void busOp(Io* io, Conn* c)
{
    Op o;
    o.kind = OpKind::Bus;
    o.conn = c;
    o.fn = [io, c] {
        if (K->processOne(c)) busOp(io, c); // read_immediate()
        else c->waiting = true;             // read_wait()
    };
    io->q.push_back(std::move(o));
}
static std::vector<int> pendingSignals;
static jmp_buf crashJmp;
static volatile bool crashJmpValid = false;
static DaemonExit crashInfo;
static bool reactor(Io* io, bool block, int64_t limit)
{
    for (;;)
    {
        K->advance(K->now);
        std::vector<Conn*> rd;
        for (auto* c : io->conns)
            if (c->waiting && !c->rq.empty()) rd.push_back(c);
        std::sort(rd.begin(), rd.end(), [](Conn* a, Conn* b) { return a->readySeq < b->readySeq; });
        // epoll reports ready descriptors in ready-list order; perturb it
        for (size_t i = 1; i < rd.size(); ++i)
            if (K->rng.chance(0.3)) std::swap(rd[i], rd[K->rng.below(i + 1)]);
        std::vector<Timer*> tm;
        for (auto* t : io->timers)
            if (!t->waits.empty() && t->expiry <= K->now) tm.push_back(t);
        std::stable_sort(tm.begin(), tm.end(), [](Timer* a, Timer* b) { return a->expiry < b->expiry; });
        if (!rd.empty() || !tm.empty() || !pendingSignals.empty())
        {
            for (int s : pendingSignals)
                for (auto* ss : io->sigs)
                    if (ss->sigs.count(s))
                    {
                        if (!ss->waits.empty())
                        {
                            auto f = std::move(ss->waits.front());
                            ss->waits.pop_front();
                            sigPost(ss, std::move(f), 0, s);
                        }
                        else ss->queued[s]++;
                    }
            pendingSignals.clear();
            for (auto* c : rd)
            {
                c->waiting = false;
                busOp(io, c);
            }
            for (auto* t : tm)
                while (!t->waits.empty())
                {
                    TimerWait w = std::move(t->waits.front());
                    t->waits.pop_front();
                    timerPost(t, std::move(w), 0);
                }
            return true;
        }
        if (!block) return false;
        int64_t nt = INT64_MAX;
        for (auto* t : io->timers)
            if (!t->waits.empty()) nt = std::min(nt, t->expiry);
        if (nt != INT64_MAX && K->sp.timerLate > 0) nt += K->rng.range(0, K->sp.timerLate);
        int64_t ne = K->nextEvent();
        int64_t t = std::min({nt, ne, limit});
        if (t == INT64_MAX || K->now >= limit) return false;
        K->advance(t);
    }
}
void Kernel::runOp(Io* io, Op& op)
{
    int64_t pre = rng.range(sp.costMin, sp.costMax) / 2;
    if (sp.stallP > 0 && rng.chance(sp.stallP)) pre += rng.range(0, sp.stallMax);
    if (pendingStall)
    {
        pre += pendingStall;
        pendingStall = 0;
    }
    advance(now + pre);
    HandlerInfo h;
    h.n = ++handlers;
    h.kind = op.kind;
    h.timer = op.timer;
    h.timerId = op.timer ? op.timer->id : 0;
    h.expiry = op.expiry;
    h.aborted = op.aborted;
    h.conn = op.conn;
    h.signo = op.signo;
    h.begin = now;
    h.wallBegin = wall();
    hi = &h;
    traceFp = (traceFp ^ ((uint64_t)op.kind * 31 + (op.timer ? op.timer->id : 0) * 7 + (op.conn ? op.conn->id : 0) + op.aborted)) * 1099511628211ull;
    io->inHandler = true;
    if (hooks)
    {
        hi = nullptr;
        hooks->handlerBegin(h);
        hi = &h;
    }
    op.fn();
    op.fn = nullptr; // destroy the handler right after the upcall
    h.fnEnd = now;
    h.wallFnEnd = wall();
    io->inHandler = false;
    now += rng.range(sp.costMin, sp.costMax) / 2;
    flushCapture();
    h.end = now;
    h.wallEnd = wall();
    hi = nullptr;
    if (hooks) hooks->handlerEnd(h);
}
static uint64_t ioLoop(Io* io, int mode, int64_t limit)
{
    uint64_t n = 0;
    while (!io->stopped)
    {
        if (io->q.empty()) break;
        Op op = std::move(io->q.front());
        io->q.pop_front();
        if (op.marker)
        {
            bool more = !io->q.empty();
            bool block = !more && (mode == 0 || mode == 1);
            bool any = reactor(io, block, limit);
            Op m;
            m.marker = true;
            io->q.push_back(std::move(m));
            if (!any && !more) break;
            continue;
        }
        K->runOp(io, op);
        ++n;
        if (mode == 1 || mode == 3) break;
    }
    return n;
}
uint64_t io_run(Io* io, int mode) { return ioLoop(io, mode, INT64_MAX); }
uint64_t io_run_until(Io* io, int64_t t) { return ioLoop(io, 0, t); }

/* ----------------------------------------------------- daemon process ---- */
void Kernel::raiseSignal(int signo) { if (dnode) pendingSignals.push_back(signo); }
void sim_exit(int code)
{
    crashInfo = {1, code, "exit"};
    flushCapture();
    if (crashJmpValid) longjmp(crashJmp, 1);
    _exit(99);
}
void Kernel::killDaemonNow()
{
    crashInfo = {4, 0, "SIGKILL"};
    longjmp(crashJmp, 1);
}
static void onSig(int s)
{
    crashInfo = {3, s, strsignal(s)};
    if (crashJmpValid)
    {
        sigset_t m;
        sigemptyset(&m);
        sigaddset(&m, s);
        sigprocmask(SIG_UNBLOCK, &m, nullptr);
        longjmp(crashJmp, 1);
    }
    _exit(98);
}
DaemonExit Kernel::runDaemon(const std::string& so, const std::vector<std::string>& args)
{
    static char* alt = nullptr;
    if (!alt)
    {
        alt = (char*)malloc(128 * 1024);
        stack_t ss{};
        ss.ss_sp = alt;
        ss.ss_size = 128 * 1024;
        sigaltstack(&ss, nullptr);
        struct sigaction sa{};
        sa.sa_handler = onSig;
        sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
    }
    pendingSignals.clear();
    ios.clear();
    timers.clear();
    dnode = newNode("swampd", true);
    cur = dnode;
    crashInfo = {};
    startup = HandlerInfo{};
    startup.n = ++handlers;
    startup.begin = now;
    startup.wallBegin = wall();
    hi = &startup;
    std::vector<std::string> av{"swampd"};
    av.insert(av.end(), args.begin(), args.end());
    std::vector<char*> argv;
    for (auto& s : av) argv.push_back(s.data());
    argv.push_back(nullptr);
    if (setjmp(crashJmp) == 0)
    {
        crashJmpValid = true;
        void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h)
        {
            fprintf(stderr, "dlopen: %s\n", dlerror());
            _exit(97);
        }
        auto mainFn = (int (*)(int, char**))dlsym(h, "_Z11swampd_mainiPPc");
        if (!mainFn) _exit(97);
        try
        {
            int rc = mainFn((int)av.size(), argv.data());
            crashInfo = {0, rc, "return"};
        }
        catch (const std::exception& e)
        {
            crashInfo = {2, 0, e.what()};
        }
        catch (...)
        {
            crashInfo = {2, 0, "unknown exception"};
        }
    }
    crashJmpValid = false;
    flushCapture();
    cur = nullptr;
    hi = nullptr;
    DaemonExit ex = crashInfo;
    tracef("daemon ended kind=%d code=%d %s", ex.kind, ex.code, ex.what.c_str());
    killNode(dnode);
    dnode = nullptr;
    timers.clear();
    return ex;
}

/* ------------------------------------------------------------ capture ---- */
struct CapBuf : std::streambuf
{
    std::string line;
    bool err;
    explicit CapBuf(bool e) : err(e) {}
    void emit()
    {
        if (K)
        {
            K->tracef("%s: %s", err ? "stderr" : "stdout", line.c_str());
            if (K->hooks) K->hooks->logLine(line, err);
        }
        line.clear();
    }
    int overflow(int c) override
    {
        if (c == '\n') emit();
        else if (c != EOF) line += (char)c;
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        for (std::streamsize i = 0; i < n; ++i) overflow((unsigned char)s[i]);
        return n;
    }
};
static CapBuf *capErr, *capOut;
void captureStreams()
{
    capErr = new CapBuf(true);
    capOut = new CapBuf(false);
    std::cerr.rdbuf(capErr);
    std::clog.rdbuf(capErr);
    std::cout.rdbuf(capOut);
}
void flushCapture() {}

static std::function<void(uint32_t, uint8_t, std::function<uint8_t(uint8_t, const uint8_t*, uint8_t*, size_t*)>)> ipmiReg;
std::map<std::pair<uint32_t, uint8_t>, std::function<uint8_t(uint8_t, const uint8_t*, uint8_t*, size_t*)>> ipmiHandlers;
void ipmi_register(uint32_t oem, uint8_t cmd, std::function<uint8_t(uint8_t, const uint8_t*, uint8_t*, size_t*)> h)
{
    ipmiHandlers[{oem, cmd}] = std::move(h);
}
} // namespace sim

/* ----------------------------------------------------- clock overrides --- */
namespace std::chrono
{
inline namespace _V2
{
system_clock::time_point system_clock::now() noexcept
{
    if (sim::K)
    {
        sim::K->now += 200;
        sim::K->clockReads++;
        if (sim::K->hi) sim::K->hi->clockReads++;
        return time_point(duration(sim::K->wall()));
    }
    return time_point(duration(0));
}
steady_clock::time_point steady_clock::now() noexcept
{
    if (sim::K)
    {
        sim::K->now += 200;
        sim::K->clockReads++;
        return time_point(duration(sim::K->now));
    }
    return time_point(duration(0));
}
} // namespace _V2
} // namespace std::chrono

/* --------------------------------------------------- libc time and paths - */
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
namespace sim
{
std::string scratchDir; // set per run
static thread_local char pathBuf[2][4096];
static const char* mapPath(const char* p, int slot = 0)
{
    if (!p || !K || scratchDir.empty()) return p;
    static const char* pre[] = {"/etc/thermal.d", "/usr/share/swampd", "/var/lib/swampd", "/pidcore.", "/pidcoeffs."};
    for (auto* x : pre)
        if (!strncmp(p, x, strlen(x)))
        {
            snprintf(pathBuf[slot], sizeof pathBuf[slot], "%s%s", scratchDir.c_str(), p);
            return pathBuf[slot];
        }
    return p;
}
std::map<std::string, int> failOpen;
int ownOpen = 0;
static bool noteOpen(const char* p, bool write)
{
    // p: mapped path; true: the open must fail (errno set)
    if (!K || !K->cur || !K->cur->daemon || !crashJmpValid) return false;
    static bool inHook = false;
    if (inHook || ownOpen) return false; // a reader of the harness
    if (K->hi) K->hi->opens.push_back({p, write});
    if (K->hooks && !inHook)
    {
        inHook = true;
        K->hooks->opened(p, write);
        inHook = false;
    }
    if (!failOpen.empty())
        if (auto i = failOpen.find(p); i != failOpen.end())
        {
            errno = i->second;
            return true;
        }
    return false;
}
bool inDaemonCode() { return K && K->cur && K->cur->daemon && crashJmpValid; }
} // namespace sim
#define REAL(ret, name, ...) static auto real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
extern "C"
{
FILE* fopen(const char* p, const char* m)
{
    REAL(FILE*, "fopen", const char*, const char*);
    p = sim::mapPath(p);
    if (sim::noteOpen(p, strpbrk(m, "wa+") != nullptr)) return nullptr;
    return real(p, m);
}
FILE* fopen64(const char* p, const char* m)
{
    REAL(FILE*, "fopen64", const char*, const char*);
    p = sim::mapPath(p);
    if (sim::noteOpen(p, strpbrk(m, "wa+") != nullptr)) return nullptr;
    return real(p, m);
}
int open(const char* p, int fl, ...)
{
    REAL(int, "open", const char*, int, ...);
    va_list ap; va_start(ap, fl); int md = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap);
    p = sim::mapPath(p);
    if (sim::noteOpen(p, (fl & O_ACCMODE) != O_RDONLY)) return -1;
    return real(p, fl, md);
}
int open64(const char* p, int fl, ...)
{
    REAL(int, "open64", const char*, int, ...);
    va_list ap; va_start(ap, fl); int md = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap);
    p = sim::mapPath(p);
    if (sim::noteOpen(p, (fl & O_ACCMODE) != O_RDONLY)) return -1;
    return real(p, fl, md);
}
int stat(const char* p, struct stat* b) noexcept { REAL(int, "stat", const char*, struct stat*); return real(sim::mapPath(p), b); }
int lstat(const char* p, struct stat* b) noexcept { REAL(int, "lstat", const char*, struct stat*); return real(sim::mapPath(p), b); }
int stat64(const char* p, struct stat64* b) noexcept { REAL(int, "stat64", const char*, struct stat64*); return real(sim::mapPath(p), b); }
int access(const char* p, int m) noexcept { REAL(int, "access", const char*, int); return real(sim::mapPath(p), m); }
time_t time(time_t* t) noexcept
{
    time_t v;
    if (sim::inDaemonCode()) v = (time_t)(sim::K->wall() / sim::SEC);
    else { struct timespec ts; REAL(int, "clock_gettime", clockid_t, struct timespec*); real(CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (t) *t = v;
    return v;
}
int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    REAL(int, "clock_gettime", clockid_t, struct timespec*);
    if (!sim::inDaemonCode()) return real(id, ts);
    sim::K->now += 200;
    int64_t v = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? sim::K->wall() : sim::K->now;
    ts->tv_sec = v / sim::SEC;
    ts->tv_nsec = v % sim::SEC;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept
{
    int64_t v;
    if (sim::inDaemonCode()) v = sim::K->wall();
    else { struct timespec ts; REAL(int, "clock_gettime", clockid_t, struct timespec*); real(CLOCK_REALTIME, &ts); v = ts.tv_sec * sim::SEC + ts.tv_nsec; }
    tv->tv_sec = v / sim::SEC;
    tv->tv_usec = (v % sim::SEC) / 1000;
    return 0;
}
int usleep(useconds_t u) { if (sim::inDaemonCode()) { sim::sleep_ns((int64_t)u * 1000); return 0; } REAL(int, "usleep", useconds_t); return real(u); }
int nanosleep(const struct timespec* a, struct timespec* b) { if (sim::inDaemonCode()) { sim::sleep_ns(a->tv_sec * sim::SEC + a->tv_nsec); return 0; } REAL(int, "nanosleep", const struct timespec*, struct timespec*); return real(a, b); }
unsigned sleep(unsigned s) { if (sim::inDaemonCode()) { sim::sleep_ns((int64_t)s * sim::SEC); return 0; } REAL(unsigned, "sleep", unsigned); return real(s); }
}
