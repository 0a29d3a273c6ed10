#pragma once
#include "simapi.hpp"
#include <boost/asio/error.hpp>
#include <boost/system/error_code.hpp>
#include <chrono>
#include <cstddef>
#include <functional>
#include <memory>
#include <utility>
namespace boost::asio
{
class io_context
{
    sim::Io* _io;
    template <class F> static sim::Fn wrap(F&& f)
    {
        return sim::Fn([g = std::decay_t<F>(std::forward<F>(f))]() mutable { g(); });
    }
  public:
    class executor_type
    {
        io_context* _c;
      public:
        explicit executor_type(io_context& c) : _c(&c) {}
        io_context& context() const { return *_c; }
        bool running_in_this_thread() const { return sim::io_in_handler(_c->_io); }
        template <class F> void execute(F&& f) const { sim::io_post(_c->_io, wrap(std::forward<F>(f))); }
        bool operator==(const executor_type& o) const { return _c == o._c; }
    };
    using count_type = std::size_t;
    io_context() : _io(sim::io_new()) {}
    explicit io_context(int) : io_context() {}
    ~io_context() { sim::io_delete(_io); }
    io_context(const io_context&) = delete;
    io_context& operator=(const io_context&) = delete;
    executor_type get_executor() noexcept { return executor_type(*this); }
    count_type run() { return sim::io_run(_io, 0); }
    count_type run_one() { return sim::io_run(_io, 1); }
    count_type poll() { return sim::io_run(_io, 2); }
    count_type poll_one() { return sim::io_run(_io, 3); }
    template <class R, class P> count_type run_for(const std::chrono::duration<R, P>& d)
    {
        return run_until(std::chrono::steady_clock::now() + d);
    }
    template <class D> count_type run_until(const std::chrono::time_point<std::chrono::steady_clock, D>& t)
    {
        return sim::io_run_until(_io, std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count());
    }
    void stop() { sim::io_stop(_io); }
    bool stopped() const { return sim::io_stopped(_io); }
    void restart() { sim::io_restart(_io); }
    template <class F> void post(F&& f) { sim::io_post(_io, wrap(std::forward<F>(f))); }
    template <class F> void dispatch(F&& f)
    {
        if (sim::io_in_handler(_io)) { std::decay_t<F> g(std::forward<F>(f)); g(); }
        else post(std::forward<F>(f));
    }
    sim::Io* sim_io() const { return _io; }
};
using io_service = io_context;
using any_io_executor = io_context::executor_type;
} // namespace boost::asio
