#pragma once
#include "sim/simbus.hpp"
namespace sdbusplus::common::xyz::openbmc_project::sensor::threshold
{
struct Warning
{
    static constexpr auto interface = "xyz.openbmc_project.Sensor.Threshold.Warning";
    struct property_names
    {
        static constexpr auto warning_high = "WarningHigh";
        static constexpr auto warning_low = "WarningLow";
        static constexpr auto warning_alarm_high = "WarningAlarmHigh";
        static constexpr auto warning_alarm_low = "WarningAlarmLow";
    };
    struct method_names
    {
    };
};
}
