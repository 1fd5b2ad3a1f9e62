#pragma once
#include "sim/simbus.hpp"
namespace sdbusplus::common::xyz::openbmc_project::state
{
struct Host
{
    static constexpr auto interface = "xyz.openbmc_project.State.Host";
    struct property_names
    {
        static constexpr auto current_host_state = "CurrentHostState";
        static constexpr auto requested_host_transition = "RequestedHostTransition";
    };
    struct method_names
    {
    };
};
}
