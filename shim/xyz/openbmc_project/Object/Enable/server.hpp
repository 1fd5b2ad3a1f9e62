#pragma once
#include "sim/simbus.hpp"
#include <xyz/openbmc_project/Object/Enable/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Object::server
{
class Enable
{
  public:
    static constexpr auto interface = "xyz.openbmc_project.Object.Enable";
    Enable(sdbusplus::bus_t&, const char* path) : _reg(path, "xyz.openbmc_project.Object.Enable")
    {
        SIM_REG(bool, enabled, "Enabled", true);
    }
    virtual ~Enable() = default;

  protected:
    sdbusplus::server::iface_reg _reg;
    SIM_PROP(bool, enabled, "Enabled", true)
};
}
