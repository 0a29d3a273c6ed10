// Simulation stand-in for the parts of sdbusplus that phosphor-pid-control
// uses.  Every bus operation goes to the simulation kernel (simapi.hpp).
#pragma once
#include "simapi.hpp"
#include <boost/asio/io_context.hpp>
#include <systemd/sd-bus.h>

#include <array>
#include <cerrno>
#include <chrono>
#include <compare>
#include <cstdint>
#include <cstring>
#include <exception>
#include <filesystem>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

namespace sdbusplus
{
namespace message::details
{
struct string_wrapper
{
    std::string str;
    string_wrapper() = default;
    string_wrapper(const string_wrapper&) = default;
    string_wrapper& operator=(const string_wrapper&) = default;
    string_wrapper(string_wrapper&&) = default;
    string_wrapper& operator=(string_wrapper&&) = default;
    string_wrapper(const std::string& s) : str(s) {}
    string_wrapper(std::string&& s) : str(std::move(s)) {}
    string_wrapper(const char* s) : str(s) {}
    operator const std::string&() const { return str; }
    operator std::string_view() const { return str; }
    operator std::string&&() && { return std::move(str); }
    bool operator==(const string_wrapper& r) const { return str == r.str; }
    bool operator<(const string_wrapper& r) const { return str < r.str; }
    bool operator==(const std::string& r) const { return str == r; }
    friend bool operator==(const std::string& l, const string_wrapper& r) { return l == r.str; }
};
struct string_path_wrapper : string_wrapper
{
    using string_wrapper::string_wrapper;
    using string_wrapper::operator=;
    string_path_wrapper() = default;
    std::string filename() const
    {
        auto p = str.rfind('/');
        if (p == std::string::npos || p + 1 == str.size()) return "";
        auto f = str.substr(p + 1);
        if (f.empty() || f[0] != '_') return f;
        std::string out;
        for (size_t i = 0; i < f.size(); ++i)
        {
            if (f[i] == '_' && i + 2 < f.size() + 0 && i + 2 <= f.size() - 1)
            {
                out += (char)std::stoi(f.substr(i + 1, 2), nullptr, 16);
                i += 2;
            }
            else out += f[i];
        }
        return out;
    }
    string_path_wrapper parent_path() const
    {
        auto p = str.rfind('/');
        if (p == std::string::npos) return string_path_wrapper("/");
        if (p <= 1 && p == 0) return string_path_wrapper("/");
        return string_path_wrapper(str.substr(0, p));
    }
    string_path_wrapper operator/(std::string_view e) const
    {
        return string_path_wrapper(str + (str.ends_with("/") ? "" : "/") + std::string(e));
    }
    string_path_wrapper& operator/=(std::string_view e) { *this = *this / e; return *this; }
};
} // namespace message::details
namespace message
{
using object_path = details::string_path_wrapper;
using signature = details::string_wrapper;
} // namespace message
using object_path = message::object_path;

namespace exception
{
struct exception : public std::exception
{
    virtual const char* name() const noexcept = 0;
    virtual const char* description() const noexcept = 0;
    virtual int get_errno() const noexcept { return 0; }
};
struct internal_exception : public exception {};
class SdBusError final : public internal_exception
{
    std::string _n, _d, _w;
    int _e;
  public:
    SdBusError(int e, std::string prefix) : _n("System.Error"), _d(std::strerror(e < 0 ? -e : e)), _e(e < 0 ? -e : e)
    {
        _w = prefix + ": " + _n + ": " + _d;
    }
    SdBusError(std::string n, std::string d, std::string prefix) : _n(std::move(n)), _d(std::move(d)), _e(EIO)
    {
        _w = prefix + ": " + _n + ": " + _d;
    }
    const char* name() const noexcept override { return _n.c_str(); }
    const char* description() const noexcept override { return _d.c_str(); }
    const char* what() const noexcept override { return _w.c_str(); }
    int get_errno() const noexcept override { return _e; }
};
struct UnpackPropertyError final : public internal_exception
{
    const char* name() const noexcept override { return "xyz.openbmc_project.sdbusplus.Error.UnpackPropertyError"; }
    const char* description() const noexcept override { return "unpack"; }
    const char* what() const noexcept override { return "unpack"; }
};
} // namespace exception
using exception_t = exception::exception;

namespace details
{
template <class T> struct is_vec : std::false_type {};
template <class T, class A> struct is_vec<std::vector<T, A>> : std::true_type {};
template <class T, class C, class A> struct is_vec<std::set<T, C, A>> : std::true_type {};
template <class T, size_t N> struct is_vec<std::array<T, N>> : std::true_type {};
template <class T> struct is_var : std::false_type {};
template <class... T> struct is_var<std::variant<T...>> : std::true_type {};
template <class T> struct is_tup : std::false_type {};
template <class... T> struct is_tup<std::tuple<T...>> : std::true_type {};
template <class T> struct is_pair : std::false_type {};
template <class A, class B> struct is_pair<std::pair<A, B>> : std::true_type {};
template <class T> concept MapLike = requires { typename T::key_type; typename T::mapped_type; };
template <class T> concept StrLike = std::is_convertible_v<const T&, std::string_view> || std::is_base_of_v<message::details::string_wrapper, T>;

template <class T> std::string sigOf()
{
    using D = std::decay_t<T>;
    if constexpr (std::is_same_v<D, bool>) return "b";
    else if constexpr (std::is_enum_v<D>) return "s";
    else if constexpr (std::is_same_v<D, uint8_t> || std::is_same_v<D, char> || std::is_same_v<D, int8_t>) return "y";
    else if constexpr (std::is_integral_v<D>)
    {
        if constexpr (sizeof(D) == 2) return std::is_signed_v<D> ? "n" : "q";
        else if constexpr (sizeof(D) == 4) return std::is_signed_v<D> ? "i" : "u";
        else return std::is_signed_v<D> ? "x" : "t";
    }
    else if constexpr (std::is_floating_point_v<D>) return "d";
    else if constexpr (std::is_same_v<D, object_path>) return "o";
    else if constexpr (std::is_same_v<D, message::signature>) return "g";
    else if constexpr (StrLike<D>) return "s";
    else if constexpr (is_var<D>::value) return "v";
    else if constexpr (MapLike<D>) return "a{" + sigOf<typename D::key_type>() + sigOf<typename D::mapped_type>() + "}";
    else if constexpr (is_vec<D>::value) return "a" + sigOf<typename D::value_type>();
    else if constexpr (is_tup<D>::value)
    {
        return []<class... U>(std::type_identity<std::tuple<U...>>) { return "(" + (std::string() + ... + sigOf<U>()) + ")"; }(std::type_identity<D>{});
    }
    else if constexpr (is_pair<D>::value) return "(" + sigOf<typename D::first_type>() + sigOf<typename D::second_type>() + ")";
    else return "?";
}

template <class T> sim::Val toVal(const T& v)
{
    using D = std::decay_t<T>;
    sim::Val r;
    if constexpr (std::is_same_v<D, bool>) return sim::Val::boolean(v);
    else if constexpr (std::is_integral_v<D>) { r.t = sigOf<D>()[0]; r.i = (int64_t)v; }
    else if constexpr (std::is_floating_point_v<D>) r = sim::Val::dbl(v);
    else if constexpr (std::is_base_of_v<message::details::string_wrapper, D>) { r.t = sigOf<D>()[0]; r.s = v.str; }
    else if constexpr (StrLike<D>) { r.t = 's'; r.s = std::string(std::string_view(v)); }
    else if constexpr (is_var<D>::value) r = sim::Val::var(std::visit([](const auto& x) { return toVal(x); }, v));
    else if constexpr (MapLike<D>)
    {
        r = sim::Val::array(sigOf<D>());
        for (const auto& [k, x] : v) r.c.push_back(sim::Val::entry(toVal(k), toVal(x)));
    }
    else if constexpr (is_vec<D>::value)
    {
        r = sim::Val::array(sigOf<D>());
        for (const auto& x : v) r.c.push_back(toVal(x));
    }
    else if constexpr (is_tup<D>::value)
    {
        r.t = '(';
        std::apply([&](const auto&... x) { (r.c.push_back(toVal(x)), ...); }, v);
    }
    else if constexpr (is_pair<D>::value) { r.t = '('; r.c.push_back(toVal(v.first)); r.c.push_back(toVal(v.second)); }
    else static_assert(sizeof(D) == 0, "unsupported type");
    return r;
}
[[noreturn]] inline void readErr(const char* what) { throw exception::SdBusError(-ENXIO, what); }

template <class T> void fromVal(const sim::Val& v, T& out)
{
    using D = std::decay_t<T>;
    if constexpr (is_var<D>::value)
    {
        const sim::Val* in = &v;
        if (v.t != 'v') readErr("sd_bus_message_enter_container");
        in = &v.c.at(0);
        std::string s = in->sig();
        bool done = false;
        [&]<class... U>(std::type_identity<std::variant<U...>>) {
            (([&] {
                 if (!done && sigOf<U>() == s) { U u{}; fromVal(*in, u); out = std::move(u); done = true; }
             }()), ...);
        }(std::type_identity<D>{});
        if (!done) out = D{};
    }
    else if constexpr (MapLike<D>)
    {
        if (v.t != 'a' || v.asig != sigOf<D>()) readErr("sd_bus_message_enter_container");
        for (const auto& e : v.c)
        {
            typename D::key_type k{};
            typename D::mapped_type m{};
            fromVal(e.c[0], k);
            fromVal(e.c[1], m);
            out.emplace(std::move(k), std::move(m));
        }
    }
    else if constexpr (is_vec<D>::value)
    {
        if (v.t != 'a' || v.asig != sigOf<D>()) readErr("sd_bus_message_enter_container");
        for (const auto& e : v.c)
        {
            typename D::value_type x{};
            fromVal(e, x);
            out.insert(out.end(), std::move(x));
        }
    }
    else if constexpr (is_tup<D>::value)
    {
        if (v.t != '(' || v.c.size() != std::tuple_size_v<D>) readErr("sd_bus_message_enter_container");
        size_t i = 0;
        std::apply([&](auto&... x) { (fromVal(v.c[i++], x), ...); }, out);
    }
    else if constexpr (is_pair<D>::value)
    {
        if (v.c.size() != 2) readErr("sd_bus_message_enter_container");
        fromVal(v.c[0], out.first);
        fromVal(v.c[1], out.second);
    }
    else if constexpr (std::is_base_of_v<message::details::string_wrapper, D>)
    {
        if (v.t != sigOf<D>()[0]) readErr("sd_bus_message_read_basic");
        out.str = v.s;
    }
    else if constexpr (std::is_same_v<D, std::string>)
    {
        if (v.t != 's') readErr("sd_bus_message_read_basic");
        out = v.s;
    }
    else if constexpr (std::is_floating_point_v<D>)
    {
        if (v.t != 'd') readErr("sd_bus_message_read_basic");
        out = v.d;
    }
    else if constexpr (std::is_integral_v<D>)
    {
        if (v.t != sigOf<D>()[0]) readErr("sd_bus_message_read_basic");
        out = (D)v.i;
    }
    else static_assert(sizeof(D) == 0, "unsupported type");
}
} // namespace details

namespace message
{
class message
{
    sim::MsgP _m;
    size_t _pos = 0;
    template <class T> void readOne(T& t)
    {
        if (!_m) ::sdbusplus::details::readErr("no message");
        if (_pos >= _m->args.size()) ::sdbusplus::details::readErr("sd_bus_message_read_basic fatal");
        ::sdbusplus::details::fromVal(_m->args[_pos++], t);
    }
    template <class T> void appendOne(T&& t) { _m->args.push_back(::sdbusplus::details::toVal(t)); }
  public:
    message() = default;
    explicit message(sim::MsgP m) : _m(std::move(m)) {}
    explicit message(sd_bus_message* m) : _m(m ? reinterpret_cast<sim::Msg*>(m)->shared_from_this() : nullptr) {}
    explicit operator bool() const { return !!_m; }
    template <class... A> message& append(A&&... a) & { (appendOne(std::forward<A>(a)), ...); return *this; }
    template <class... A> message append(A&&... a) && { (appendOne(std::forward<A>(a)), ...); return std::move(*this); }
    template <class... A> void read(A&&... a) { (readOne(a), ...); }
    template <class... R> auto unpack()
    {
        if constexpr (sizeof...(R) == 0) return;
        else if constexpr (sizeof...(R) == 1) { std::tuple<R...> t; readOne(std::get<0>(t)); return std::get<0>(std::move(t)); }
        else { std::tuple<R...> t; std::apply([&](auto&... x) { (readOne(x), ...); }, t); return t; }
    }
    void rewind(bool) { _pos = 0; }
    bool at_end(bool) { return !_m || _pos >= _m->args.size(); }
    const char* get_signature() const { return ""; }
    const char* get_path() const { return _m->path.c_str(); }
    const char* get_interface() const { return _m->iface.c_str(); }
    const char* get_member() const { return _m->member.c_str(); }
    const char* get_destination() const { return _m->dest.c_str(); }
    const char* get_sender() const { return _m->sender.c_str(); }
    int get_errno() const { return _m && _m->type == sim::Msg::Error ? EIO : 0; }
    bool is_method_error() const { return _m && _m->type == sim::Msg::Error; }
    bool is_method_call(const char* i, const char* n) const { return _m->type == sim::Msg::Call && _m->iface == i && _m->member == n; }
    bool is_signal(const char* i, const char* n) const { return _m->type == sim::Msg::Signal && _m->iface == i && _m->member == n; }
    uint64_t get_cookie() const { return _m->serial; }
    uint64_t get_reply_cookie() const { return _m->replySerial; }
    sd_bus_message* get() { return reinterpret_cast<sd_bus_message*>(_m.get()); }
    sd_bus_message* release() { return get(); }
    const sim::MsgP& sim_msg() const { return _m; }
};
} // namespace message
using message_t = message::message;

namespace bus
{
class bus
{
  protected:
    sim::Conn* _c = nullptr;
  public:
    bus() = default;
    explicit bus(sim::Conn* c) : _c(c) {}
    bus(const bus&) = delete;
    bus& operator=(const bus&) = delete;
    bus(bus&& o) noexcept : _c(o._c) { o._c = nullptr; }
    bus& operator=(bus&& o) noexcept
    {
        if (this != &o) { if (_c) sim::conn_unref(_c); _c = o._c; o._c = nullptr; }
        return *this;
    }
    virtual ~bus() { if (_c) sim::conn_unref(_c); }
    void request_name(const char* n)
    {
        if (!sim::conn_request_name(_c, n)) throw exception::SdBusError(-EEXIST, "sd_bus_request_name");
    }
    void request_name(const std::string& n) { request_name(n.c_str()); }
    message_t new_method_call(const char* s, const char* p, const char* i, const char* m)
    {
        auto x = std::make_shared<sim::Msg>();
        x->type = sim::Msg::Call;
        x->dest = s ? s : ""; x->path = p; x->iface = i ? i : ""; x->member = m;
        return message_t(std::move(x));
    }
    message_t new_method_call(const std::string& s, const std::string& p, const std::string& i, const std::string& m)
    {
        return new_method_call(s.c_str(), p.c_str(), i.c_str(), m.c_str());
    }
    message_t new_signal(const char* p, const char* i, const char* m)
    {
        auto x = std::make_shared<sim::Msg>();
        x->type = sim::Msg::Signal; x->path = p; x->iface = i; x->member = m;
        return message_t(std::move(x));
    }
    template <class D = std::chrono::microseconds> message_t call(const message_t& m, std::optional<D> t = std::nullopt)
    {
        uint64_t us = t ? std::chrono::duration_cast<std::chrono::microseconds>(*t).count() : 0;
        return callUs(m, us);
    }
    message_t call(message_t& m) { return callUs(m, 0); }
    message_t call(message_t&& m) { return callUs(m, 0); }
    message_t call(message_t& m, uint64_t us) { return callUs(m, us); }
    message_t callUs(const message_t& m, uint64_t us)
    {
        auto r = sim::conn_call(_c, m.sim_msg(), us);
        if (r->type == sim::Msg::Error) throw exception::SdBusError(r->errname, r->errmsg, "sd_bus_call");
        return message_t(std::move(r));
    }
    void call_noreply(const message_t& m, std::optional<std::chrono::microseconds> = std::nullopt)
    {
        // sdbusplus: sends the call and waits for the (ignored) method return;
        // a method error is raised.
        callUs(m, 0);
    }
    void call_noreply_noerror(const message_t& m)
    {
        try { call_noreply(m); } catch (const exception_t&) {}
    }
    void emit_object_added(const char*) {}
    void emit_object_removed(const char*) {}
    int get_fd() { return 0; }
    bool process_discard() { return sim::conn_process_one(_c); }
    auto process() { return process_discard(); }
    void wait(uint64_t us = 0) { sim::sleep_ns((int64_t)us * 1000); }
    std::string get_unique_name() { return sim::conn_unique(_c); }
    void flush() {}
    void close() {}
    sim::Conn* sim_conn() const { return _c; }
    sim::Conn* sim_release() { auto* c = _c; _c = nullptr; return c; }
};
inline bus new_bus() { return bus(sim::conn_open("bus")); }
inline bus new_default() { return bus(sim::conn_open("default")); }
inline bus new_default_user() { return bus(sim::conn_open("default")); }
inline bus new_default_system() { return bus(sim::conn_open("default")); }
inline bus new_user() { return bus(sim::conn_open("system")); }
inline bus new_system() { return bus(sim::conn_open("system")); }
} // namespace bus
using bus_t = bus::bus;

namespace bus::match
{
class match
{
    sim::Conn* _c = nullptr;
    uint64_t _id = 0;
    void drop() { if (_c) { sim::match_del(_c, _id); sim::conn_unref(_c); _c = nullptr; } }
  public:
    using callback_t = std::function<void(message_t&)>;
    match(bus_t& b, const char* rule, sd_bus_message_handler_t h, void* ctx = nullptr) : _c(b.sim_conn())
    {
        sim::conn_ref(_c);
        _id = sim::match_add(_c, rule, [h, ctx](const sim::MsgP& m) {
            return h(reinterpret_cast<sd_bus_message*>(m.get()), ctx, nullptr);
        });
    }
    match(bus_t& b, const std::string& rule, sd_bus_message_handler_t h, void* ctx = nullptr) : match(b, rule.c_str(), h, ctx) {}
    match(bus_t& b, const char* rule, callback_t cb) : _c(b.sim_conn())
    {
        sim::conn_ref(_c);
        _id = sim::match_add(_c, rule, [f = std::make_shared<callback_t>(std::move(cb))](const sim::MsgP& m) {
            message_t x(m);
            auto keep = f;
            (*keep)(x);
            return 0;
        });
    }
    match(bus_t& b, const std::string& rule, callback_t cb) : match(b, rule.c_str(), std::move(cb)) {}
    match(const match&) = delete;
    match& operator=(const match&) = delete;
    match(match&& o) noexcept : _c(o._c), _id(o._id) { o._c = nullptr; }
    match& operator=(match&& o) noexcept
    {
        if (this != &o) { drop(); _c = o._c; _id = o._id; o._c = nullptr; }
        return *this;
    }
    ~match() { drop(); }
};
namespace rules
{
namespace type { inline std::string signal() { return "type='signal',"; } inline std::string method() { return "type='method',"; } }
inline std::string interface(std::string_view s) { return "interface='" + std::string(s) + "',"; }
inline std::string member(std::string_view s) { return "member='" + std::string(s) + "',"; }
inline std::string path(std::string_view s) { return "path='" + std::string(s) + "',"; }
inline std::string path_namespace(std::string_view s) { return "path_namespace='" + std::string(s) + "',"; }
inline std::string sender(std::string_view s) { return "sender='" + std::string(s) + "',"; }
inline std::string argN(size_t n, std::string_view s) { return "arg" + std::to_string(n) + "='" + std::string(s) + "',"; }
inline std::string arg0namespace(std::string_view s) { return "arg0namespace='" + std::string(s) + "',"; }
inline std::string arg0namespace_(std::string_view s) { return arg0namespace(s); }
inline std::string argNpath(size_t n, std::string_view s) { return "arg" + std::to_string(n) + "path='" + std::string(s) + "',"; }
inline std::string propertiesChanged(std::string_view p, std::string_view i)
{
    return type::signal() + path(p) + member("PropertiesChanged") + interface("org.freedesktop.DBus.Properties") + argN(0, i);
}
inline std::string propertiesChangedNamespace(std::string_view p, std::string_view i)
{
    return type::signal() + path_namespace(p) + member("PropertiesChanged") + interface("org.freedesktop.DBus.Properties") + arg0namespace(i);
}
inline std::string interfacesAdded() { return type::signal() + interface("org.freedesktop.DBus.ObjectManager") + member("InterfacesAdded"); }
inline std::string interfacesAdded(std::string_view p) { return interfacesAdded() + path(p); }
inline std::string interfacesRemoved() { return type::signal() + interface("org.freedesktop.DBus.ObjectManager") + member("InterfacesRemoved"); }
inline std::string interfacesRemoved(std::string_view p) { return interfacesRemoved() + path(p); }
inline std::string nameOwnerChanged() { return type::signal() + sender("org.freedesktop.DBus") + member("NameOwnerChanged"); }
inline std::string nameOwnerChanged(std::string_view s) { return nameOwnerChanged() + argN(0, s); }
} // namespace rules
} // namespace bus::match
using match = bus::match::match;
using match_t = bus::match::match;
namespace match_rules = bus::match::rules;
namespace bus { using match_t = match::match; namespace match_rules = match::rules; }

namespace asio
{
class connection : public bus_t
{
    boost::asio::io_context& _io;
  public:
    explicit connection(boost::asio::io_context& io) : bus_t(sim::conn_open("default")), _io(io) { sim::conn_attach(_c, io.sim_io()); }
    connection(boost::asio::io_context& io, bus_t&& b) : bus_t(std::move(b)), _io(io) { sim::conn_attach(_c, io.sim_io()); }
    ~connection() override { if (_c) sim::conn_detach(_c, _io.sim_io()); }
    boost::asio::io_context& get_io_context() { return _io; }
};
} // namespace asio

namespace server
{
namespace interface
{
// one registered (path, interface) vtable
class interface
{
    sim::Conn* _c;
    std::string _path, _if;
    uint64_t _id = 0;
  public:
    interface(bus_t& b, const char* path, const char* ifname, std::vector<sim::PropDef> props) : _c(b.sim_conn()), _path(path), _if(ifname)
    {
        int r = sim::object_add(_c, _path, _if, std::move(props), &_id);
        if (r < 0) throw exception::SdBusError(r, "sd_bus_add_object_vtable");
        sim::conn_ref(_c);
    }
    interface(const interface&) = delete;
    ~interface() { sim::object_del(_c, _id); sim::conn_unref(_c); }
    void property_changed(const char* p) { sim::emit_props_changed(_c, _path, _if, {p}); }
    const std::string& path() const { return _path; }
    const std::string& name() const { return _if; }
    sim::Conn* conn() const { return _c; }
};
} // namespace interface
namespace manager
{
struct manager
{
    manager(bus_t& b, const char* path) { sim::manager_add(b.sim_conn(), path); }
    manager(bus_t& b, const std::string& path) { sim::manager_add(b.sim_conn(), path); }
};
} // namespace manager
using manager_t = manager::manager;
namespace object
{
template <class... T> class object : public T...
{
  public:
    enum class action { emit_object_added, emit_interface_added, defer_emit, emit_no_signals };
  private:
    sim::Conn* __c;
    std::string __path;
    action __a;
    bool __emitted = false;
  public:
    object(bus_t& b, const char* path, action a = action::emit_object_added) :
        T(b, path)..., __c(b.sim_conn()), __path(path), __a(a)
    {
        if (a == action::emit_object_added || a == action::emit_interface_added) emit_object_added();
    }
    object(bus_t& b, const char* path, bool defer) : object(b, path, defer ? action::defer_emit : action::emit_object_added) {}
    virtual ~object()
    {
        if (__a != action::emit_no_signals) sim::emit_ifaces(__c, __path, {std::string(T::interface)...}, false);
    }
    object(const object&) = delete;
    void emit_object_added()
    {
        if (__emitted) return;
        __emitted = true;
        sim::emit_ifaces(__c, __path, {std::string(T::interface)...}, true);
    }
};
} // namespace object
template <class... T> using object_t = object::object<T...>;
template <class T> struct object_one : T { using T::T; };
} // namespace server
} // namespace sdbusplus

namespace std
{
template <> struct hash<sdbusplus::message::object_path>
{
    size_t operator()(const sdbusplus::message::object_path& p) const { return hash<string>()(p.str); }
};
} // namespace std

// Property of a generated server interface.
#define SIM_PROP(T, fn, Init)                                                  \
  protected:                                                                   \
    T _##fn = Init;                                                            \
  public:                                                                      \
    virtual T fn() const { return _##fn; }                                     \
    virtual T fn(T simArg_, bool skipSignal)                                     \
    {                                                                          \
        if (_##fn != simArg_)                                                    \
        {                                                                      \
            _##fn = simArg_;                                                     \
            if (!skipSignal) _itf.property_changed(fn##_name());               \
        }                                                                      \
        return _##fn;                                                          \
    }                                                                          \
    virtual T fn(T simArg_) { return fn(simArg_, false); }
