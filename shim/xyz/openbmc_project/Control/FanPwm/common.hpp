#pragma once
#include "sim/simbus.hpp"
namespace sdbusplus::common::xyz::openbmc_project::control
{
struct FanPwm
{
    static constexpr auto interface = "xyz.openbmc_project.Control.FanPwm";
    struct property_names
    {
        static constexpr auto target = "Target";
    };
    struct method_names
    {
    };
};
}
