#pragma once
#include "sim/simbus.hpp"
namespace sdbusplus::common::xyz::openbmc_project::debug::pid
{
struct Zone
{
    static constexpr auto interface = "xyz.openbmc_project.Debug.Pid.Zone";
    struct property_names
    {
        static constexpr auto leader = "Leader";
    };
    struct method_names
    {
    };
};
}
