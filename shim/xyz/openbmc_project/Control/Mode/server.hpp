#pragma once
#include "sim/simbus.hpp"
#include <xyz/openbmc_project/Control/Mode/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Control::server
{
class Mode
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Control.Mode";
    Mode(sdbusplus::bus_t&, const char* path) : _reg(path, "xyz.openbmc_project.Control.Mode")
    {
        SIM_REG(bool, manual, "Manual", true);
        SIM_REG(bool, failSafe, "FailSafe", false);
    }
    virtual ~Mode() = default;

  protected:
    sdbusplus::server::iface_reg _reg;
    SIM_PROP(bool, manual, "Manual", false)
    SIM_PROP(bool, failSafe, "FailSafe", false)
};
}
