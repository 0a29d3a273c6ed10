#pragma once
#include <xyz/openbmc_project/Debug/Pid/Zone/common.hpp>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
{
class Zone : public sdbusplus::common::xyz::openbmc_project::debug::pid::Zone
{
    sdbusplus::server::interface::interface _itf;
    static const char* leader_name() { return "Leader"; }
    std::vector<sim::PropDef> _defs()
    {
        std::vector<sim::PropDef> d;
        d.push_back({"Leader", "s", [this] { return sdbusplus::details::toVal(this->leader()); }, nullptr});
        return d;
    }
  public:
    using sdbusplus::common::xyz::openbmc_project::debug::pid::Zone::interface;
    Zone(sdbusplus::bus_t& bus, const char* path) : _itf(bus, path, interface, _defs()) {}
    virtual ~Zone() = default;
    SIM_PROP(std::string, leader, {})
};
} // namespace
namespace sdbusplus::server::xyz::openbmc_project::debug::pid { using Zone = sdbusplus::xyz::openbmc_project::Debug::Pid::server::Zone; }
