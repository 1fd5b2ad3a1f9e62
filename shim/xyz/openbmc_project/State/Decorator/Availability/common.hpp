#pragma once
#include "sim/simbus.hpp"
namespace sdbusplus::common::xyz::openbmc_project::state::decorator
{
struct Availability
{
    static constexpr auto interface = "xyz.openbmc_project.State.Decorator.Availability";
    struct property_names
    {
        static constexpr auto available = "Available";
    };
    struct method_names
    {
    };
};
}
