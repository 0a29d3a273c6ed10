#pragma once
#include <sdbusplus/sim_core.hpp>
namespace sdbusplus::common::xyz::openbmc_project::control
{
struct FanRedundancy
{
    static constexpr auto interface = "xyz.openbmc_project.Control.FanRedundancy";
    struct property_names
    {
        static constexpr auto allowed_failures = "AllowedFailures";
        static constexpr auto collection = "Collection";
        static constexpr auto status = "Status";
    };
    struct method_names
    {
    };
};
} // namespace
