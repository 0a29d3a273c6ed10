#pragma once
#include <xyz/openbmc_project/Debug/Pid/ThermalPower/common.hpp>
#include <limits>
namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
{
class ThermalPower : public sdbusplus::common::xyz::openbmc_project::debug::pid::ThermalPower
{
    sdbusplus::server::interface::interface _itf;
    static const char* setpoint_name() { return "Setpoint"; }
    static const char* output_name() { return "Output"; }
    static const char* input_name() { return "Input"; }
    static const char* leader_name() { return "Leader"; }
    static const char* classType_name() { return "ClassType"; }
    std::vector<sim::PropDef> _defs()
    {
        std::vector<sim::PropDef> d;
        d.push_back({"Setpoint", "d", [this] { return sdbusplus::details::toVal(this->setpoint()); }, nullptr});
        d.push_back({"Output", "d", [this] { return sdbusplus::details::toVal(this->output()); }, nullptr});
        d.push_back({"Input", "d", [this] { return sdbusplus::details::toVal(this->input()); }, nullptr});
        d.push_back({"Leader", "s", [this] { return sdbusplus::details::toVal(this->leader()); }, nullptr});
        d.push_back({"ClassType", "s", [this] { return sdbusplus::details::toVal(this->classType()); }, nullptr});
        return d;
    }
  public:
    using sdbusplus::common::xyz::openbmc_project::debug::pid::ThermalPower::interface;
    ThermalPower(sdbusplus::bus_t& bus, const char* path) : _itf(bus, path, interface, _defs()) {}
    virtual ~ThermalPower() = default;
    SIM_PROP(double, setpoint, 0.0)
    SIM_PROP(double, output, 0.0)
    SIM_PROP(double, input, 0.0)
    SIM_PROP(std::string, leader, {})
    SIM_PROP(std::string, classType, {})
};
} // namespace
namespace sdbusplus::server::xyz::openbmc_project::debug::pid { using ThermalPower = sdbusplus::xyz::openbmc_project::Debug::Pid::server::ThermalPower; }
