#pragma once
#include "sim/simbus.hpp"
#include <xyz/openbmc_project/Sensor/Value/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Sensor::server
{
class Value
{
  public:
    enum class Unit { Amperes, CFM, DegreesC, Joules, Meters, Percent, RPMS, Volts, Watts };
  public:
    static constexpr auto interface = "xyz.openbmc_project.Sensor.Value";
    Value(sdbusplus::bus_t&, const char* path) : _reg(path, "xyz.openbmc_project.Sensor.Value")
    {
        SIM_REG(double, value, "Value", true);
        SIM_REG(double, maxValue, "MaxValue", true);
        SIM_REG(double, minValue, "MinValue", true);
        _reg.add("Unit", [] { return sim::mk(std::string("xyz.openbmc_project.Sensor.Value.Unit.DegreesC")); }, nullptr);
    }
    virtual ~Value() = default;

  protected:
    sdbusplus::server::iface_reg _reg;
    SIM_PROP(double, value, "Value", 0)
    SIM_PROP(double, maxValue, "MaxValue", std::numeric_limits<double>::infinity())
    SIM_PROP(double, minValue, "MinValue", -std::numeric_limits<double>::infinity())
  public:
    virtual Unit unit() const { return _unit; }
    virtual Unit unit(Unit v, bool) { _unit = v; return v; }
    virtual Unit unit(Unit v) { return unit(v, false); }

  private:
    Unit _unit = Unit::DegreesC;
};
}
