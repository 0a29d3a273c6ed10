#pragma once
#include <xyz/openbmc_project/Sensor/Value/common.hpp>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::Sensor::server
{
class Value : public sdbusplus::common::xyz::openbmc_project::sensor::Value
{
    sdbusplus::server::interface::interface _itf;
    static const char* value_name() { return "Value"; }
    static const char* maxValue_name() { return "MaxValue"; }
    static const char* minValue_name() { return "MinValue"; }
    static const char* unit_name() { return "Unit"; }
    std::vector<sim::PropDef> _defs()
    {
        std::vector<sim::PropDef> d;
        d.push_back({"Value", "d", [this] { return sdbusplus::details::toVal(this->value()); }, [this](const sim::Val& v) { double x{}; sdbusplus::details::fromVal(v, x); this->value(x); }});
        d.push_back({"MaxValue", "d", [this] { return sdbusplus::details::toVal(this->maxValue()); }, [this](const sim::Val& v) { double x{}; sdbusplus::details::fromVal(v, x); this->maxValue(x); }});
        d.push_back({"MinValue", "d", [this] { return sdbusplus::details::toVal(this->minValue()); }, [this](const sim::Val& v) { double x{}; sdbusplus::details::fromVal(v, x); this->minValue(x); }});
        d.push_back({"Unit", "s", [this] { return sim::Val::str("xyz.openbmc_project.Sensor.Value.Unit.DegreesC"); }, nullptr});
        return d;
    }
  public:
    using sdbusplus::common::xyz::openbmc_project::sensor::Value::interface;
    Value(sdbusplus::bus_t& bus, const char* path) : _itf(bus, path, interface, _defs()) {}
    virtual ~Value() = default;
    SIM_PROP(double, value, std::numeric_limits<double>::quiet_NaN())
    SIM_PROP(double, maxValue, std::numeric_limits<double>::infinity())
    SIM_PROP(double, minValue, -std::numeric_limits<double>::infinity())
    SIM_PROP(Unit, unit, Unit::DegreesC)
};
} // namespace
namespace sdbusplus::server::xyz::openbmc_project::sensor { using Value = sdbusplus::xyz::openbmc_project::Sensor::server::Value; }
