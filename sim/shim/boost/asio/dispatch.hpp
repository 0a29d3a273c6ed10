#pragma once
#include <boost/asio/io_context.hpp>
namespace boost::asio
{
template <class F> void dispatch(io_context& c, F&& f) { c.dispatch(std::forward<F>(f)); }
template <class F> void dispatch(const io_context::executor_type& e, F&& f) { e.context().dispatch(std::forward<F>(f)); }
} // namespace boost::asio
