#pragma once
#include <boost/asio/io_context.hpp>
namespace boost::asio
{
class signal_set
{
    sim::SigSet* _s;
  public:
    explicit signal_set(io_context& c) : _s(sim::sigset_new(c.sim_io())) {}
    explicit signal_set(const io_context::executor_type& e) : signal_set(e.context()) {}
    template <class... I> signal_set(io_context& c, int a, I... r) : signal_set(c) { add(a); (add(r), ...); }
    ~signal_set() { sim::sigset_delete(_s); }
    signal_set(const signal_set&) = delete;
    void add(int s) { sim::sigset_add(_s, s); }
    void remove(int s) { sim::sigset_remove(_s, s); }
    void cancel() { sim::sigset_cancel(_s); }
    template <class H> void async_wait(H&& h)
    {
        sim::sigset_async_wait(_s, sim::FnSig([g = std::decay_t<H>(std::forward<H>(h))](int e, int s) mutable {
            boost::system::error_code ec;
            if (e) ec = boost::system::error_code(e, boost::system::system_category());
            g(ec, s);
        }));
    }
};
} // namespace boost::asio
