#pragma once
#include <xyz/openbmc_project/Control/Mode/common.hpp>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::Control::server
{
class Mode : public sdbusplus::common::xyz::openbmc_project::control::Mode
{
    sdbusplus::server::interface::interface _itf;
    static const char* manual_name() { return "Manual"; }
    static const char* failSafe_name() { return "FailSafe"; }
    std::vector<sim::PropDef> _defs()
    {
        std::vector<sim::PropDef> d;
        d.push_back({"Manual", "b", [this] { return sdbusplus::details::toVal(this->manual()); }, [this](const sim::Val& v) { bool x{}; sdbusplus::details::fromVal(v, x); this->manual(x); }});
        d.push_back({"FailSafe", "b", [this] { return sdbusplus::details::toVal(this->failSafe()); }, nullptr});
        return d;
    }
  public:
    using sdbusplus::common::xyz::openbmc_project::control::Mode::interface;
    Mode(sdbusplus::bus_t& bus, const char* path) : _itf(bus, path, interface, _defs()) {}
    virtual ~Mode() = default;
    SIM_PROP(bool, manual, false)
    SIM_PROP(bool, failSafe, false)
};
} // namespace
namespace sdbusplus::server::xyz::openbmc_project::control { using Mode = sdbusplus::xyz::openbmc_project::Control::server::Mode; }
