#pragma once
#include "sim/simbus.hpp"
namespace sdbusplus::common::xyz::openbmc_project::state::decorator
{
struct OperationalStatus
{
    static constexpr auto interface = "xyz.openbmc_project.State.Decorator.OperationalStatus";
    struct property_names
    {
        static constexpr auto functional = "Functional";
        static constexpr auto state = "State";
    };
    struct method_names
    {
    };
};
}
