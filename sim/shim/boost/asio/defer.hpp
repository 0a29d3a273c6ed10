#pragma once
#include <boost/asio/io_context.hpp>
namespace boost::asio
{
template <class F> void defer(io_context& c, F&& f) { c.post(std::forward<F>(f)); }
template <class F> void defer(const io_context::executor_type& e, F&& f) { e.context().post(std::forward<F>(f)); }
} // namespace boost::asio
