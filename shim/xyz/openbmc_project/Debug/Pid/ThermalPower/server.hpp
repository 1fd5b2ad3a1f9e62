#pragma once
#include "sim/simbus.hpp"
#include <xyz/openbmc_project/Debug/Pid/ThermalPower/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
{
class ThermalPower
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Debug.Pid.ThermalPower";
    ThermalPower(sdbusplus::bus_t&, const char* path) : _reg(path, "xyz.openbmc_project.Debug.Pid.ThermalPower")
    {
        SIM_REG(std::string, classType, "ClassType", false);
        SIM_REG(double, input, "Input", false);
        SIM_REG(double, output, "Output", false);
        SIM_REG(double, setpoint, "Setpoint", false);
        SIM_REG(std::string, leader, "Leader", false);
    }
    virtual ~ThermalPower() = default;

  protected:
    sdbusplus::server::iface_reg _reg;
    SIM_PROP(std::string, classType, "ClassType", "")
    SIM_PROP(double, input, "Input", 0)
    SIM_PROP(double, output, "Output", 0)
    SIM_PROP(double, setpoint, "Setpoint", 0)
    SIM_PROP(std::string, leader, "Leader", "")
};
}
