#pragma once
#include "sim/simbus.hpp"
namespace sdbusplus::common::xyz::openbmc_project::control
{
struct ThermalMode
{
    static constexpr auto interface = "xyz.openbmc_project.Control.ThermalMode";
    struct property_names
    {
        static constexpr auto current = "Current";
        static constexpr auto supported = "Supported";
    };
    struct method_names
    {
    };
};
}
