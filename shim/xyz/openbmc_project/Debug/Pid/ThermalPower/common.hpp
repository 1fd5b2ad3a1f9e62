#pragma once
#include "sim/simbus.hpp"
namespace sdbusplus::common::xyz::openbmc_project::debug::pid
{
struct ThermalPower
{
    static constexpr auto interface = "xyz.openbmc_project.Debug.Pid.ThermalPower";
    struct property_names
    {
        static constexpr auto class_type = "ClassType";
        static constexpr auto input = "Input";
        static constexpr auto output = "Output";
        static constexpr auto setpoint = "Setpoint";
        static constexpr auto leader = "Leader";
    };
    struct method_names
    {
    };
};
}
