#pragma once
#include "sim/simbus.hpp"
#include <xyz/openbmc_project/Debug/Pid/Zone/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
{
class Zone
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Debug.Pid.Zone";
    Zone(sdbusplus::bus_t&, const char* path) : _reg(path, "xyz.openbmc_project.Debug.Pid.Zone")
    {
        SIM_REG(std::string, leader, "Leader", false);
    }
    virtual ~Zone() = default;

  protected:
    sdbusplus::server::iface_reg _reg;
    SIM_PROP(std::string, leader, "Leader", "")
};
}
