#pragma once
#include <sdbusplus/sim_core.hpp>
namespace sdbusplus::common::xyz::openbmc_project
{
struct Association
{
    static constexpr auto interface = "xyz.openbmc_project.Association";
    struct property_names
    {
        static constexpr auto endpoints = "Endpoints";
    };
    struct method_names
    {
    };
};
} // namespace
