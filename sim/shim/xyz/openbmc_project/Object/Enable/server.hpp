#pragma once
#include <xyz/openbmc_project/Object/Enable/common.hpp>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::Object::server
{
class Enable : public sdbusplus::common::xyz::openbmc_project::object::Enable
{
    sdbusplus::server::interface::interface _itf;
    static const char* enabled_name() { return "Enabled"; }
    std::vector<sim::PropDef> _defs()
    {
        std::vector<sim::PropDef> d;
        d.push_back({"Enabled", "b", [this] { return sdbusplus::details::toVal(this->enabled()); }, [this](const sim::Val& v) { bool x{}; sdbusplus::details::fromVal(v, x); this->enabled(x); }});
        return d;
    }
  public:
    using sdbusplus::common::xyz::openbmc_project::object::Enable::interface;
    Enable(sdbusplus::bus_t& bus, const char* path) : _itf(bus, path, interface, _defs()) {}
    virtual ~Enable() = default;
    SIM_PROP(bool, enabled, true)
};
} // namespace
namespace sdbusplus::server::xyz::openbmc_project::object { using Enable = sdbusplus::xyz::openbmc_project::Object::server::Enable; }
