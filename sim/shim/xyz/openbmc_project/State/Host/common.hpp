#pragma once
#include <sdbusplus/sim_core.hpp>
namespace sdbusplus::common::xyz::openbmc_project::state
{
struct Host
{
    static constexpr auto interface = "xyz.openbmc_project.State.Host";
    struct property_names
    {
        static constexpr auto requested_host_transition = "RequestedHostTransition";
        static constexpr auto current_host_state = "CurrentHostState";
        static constexpr auto restart_cause = "RestartCause";
    };
    struct method_names
    {
    };
};
} // namespace
