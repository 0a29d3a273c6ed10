#pragma once
#include <sdbusplus/sim_core.hpp>
namespace sdbusplus::common::xyz::openbmc_project::sensor
{
struct Value
{
    static constexpr auto interface = "xyz.openbmc_project.Sensor.Value";
    enum class Unit { Amperes, CFM, DegreesC, Hz, Joules, Liters, Meters, Nanoseconds, Pascals, Percent, PercentRH, RPMS, Seconds, Volts, Watts };
    struct namespace_path { static constexpr auto value = "/xyz/openbmc_project/sensors"; static constexpr auto temperature = "temperature"; static constexpr auto fan_tach = "fan_tach"; static constexpr auto power = "power"; };
    struct property_names
    {
        static constexpr auto value = "Value";
        static constexpr auto max_value = "MaxValue";
        static constexpr auto min_value = "MinValue";
        static constexpr auto unit = "Unit";
    };
    struct method_names
    {
    };
};
} // namespace
