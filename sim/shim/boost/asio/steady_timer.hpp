#pragma once
#include <boost/asio/io_context.hpp>
namespace boost::asio
{
template <class Clock> struct wait_traits {};
template <class Clock, class Traits = wait_traits<Clock>, class Ex = any_io_executor> class basic_waitable_timer
{
    sim::Timer* _t;
    io_context* _c;
    static int64_t ns(std::chrono::steady_clock::time_point t)
    {
        return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count();
    }
  public:
    using clock_type = std::chrono::steady_clock;
    using duration = clock_type::duration;
    using time_point = clock_type::time_point;
    using executor_type = io_context::executor_type;
    explicit basic_waitable_timer(io_context& c) : _t(sim::timer_new(c.sim_io())), _c(&c) {}
    explicit basic_waitable_timer(const executor_type& e) : basic_waitable_timer(e.context()) {}
    basic_waitable_timer(io_context& c, const duration& d) : basic_waitable_timer(c) { expires_after(d); }
    basic_waitable_timer(io_context& c, const time_point& t) : basic_waitable_timer(c) { expires_at(t); }
    basic_waitable_timer(const executor_type& e, const duration& d) : basic_waitable_timer(e) { expires_after(d); }
    basic_waitable_timer(const executor_type& e, const time_point& t) : basic_waitable_timer(e) { expires_at(t); }
    basic_waitable_timer(basic_waitable_timer&& o) : _t(o._t), _c(o._c) { o._t = nullptr; }
    basic_waitable_timer& operator=(basic_waitable_timer&& o)
    {
        if (this != &o) { if (_t) sim::timer_delete(_t); _t = o._t; _c = o._c; o._t = nullptr; }
        return *this;
    }
    ~basic_waitable_timer() { if (_t) sim::timer_delete(_t); }
    executor_type get_executor() { return _c->get_executor(); }
    std::size_t cancel() { return sim::timer_cancel(_t, false); }
    std::size_t cancel_one() { return sim::timer_cancel(_t, true); }
    time_point expiry() const { return time_point(std::chrono::duration_cast<duration>(std::chrono::nanoseconds(sim::timer_expiry(_t)))); }
    time_point expires_at() const { return expiry(); }
    std::size_t expires_at(const time_point& t) { return sim::timer_expires_at(_t, ns(t)); }
    std::size_t expires_after(const duration& d) { return sim::timer_expires_at(_t, ns(clock_type::now() + d)); }
    std::size_t expires_from_now(const duration& d) { return expires_after(d); }
    duration expires_from_now() const { return expiry() - clock_type::now(); }
    void wait() { sim::timer_wait(_t); }
    template <class H> void async_wait(H&& h)
    {
        sim::timer_async_wait(_t, sim::FnEc([g = std::decay_t<H>(std::forward<H>(h))](int e) mutable {
            boost::system::error_code ec;
            if (e) ec = boost::system::error_code(e, boost::system::system_category());
            g(ec);
        }));
    }
};
using steady_timer = basic_waitable_timer<std::chrono::steady_clock>;
} // namespace boost::asio
