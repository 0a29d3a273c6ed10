#pragma once
#include "simapi.hpp"
#include <ipmid/api-types.hpp>
#include <ipmid/iana.hpp>
#include <functional>
namespace oem
{
using Handler = std::function<ipmi::Cc(std::uint8_t, const std::uint8_t*, std::uint8_t*, std::size_t*)>;
class Router
{
  public:
    virtual ~Router() = default;
    virtual void activate() {}
    virtual void registerHandler(Number n, std::uint8_t cmd, Handler h) { sim::ipmi_register(n, cmd, std::move(h)); }
};
inline Router* mutableRouter() { static Router r; return &r; }
} // namespace oem
