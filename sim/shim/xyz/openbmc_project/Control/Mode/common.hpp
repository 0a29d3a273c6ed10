#pragma once
#include <sdbusplus/sim_core.hpp>
namespace sdbusplus::common::xyz::openbmc_project::control
{
struct Mode
{
    static constexpr auto interface = "xyz.openbmc_project.Control.Mode";
    struct property_names
    {
        static constexpr auto manual = "Manual";
        static constexpr auto fail_safe = "FailSafe";
    };
    struct method_names
    {
    };
};
} // namespace
