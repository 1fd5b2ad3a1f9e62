// A D-Bus sensor under generated publications, and its reference model.
#pragma once
#include "busworld.hpp"
#include "conf.hpp"
#include "config.h"
#include "dbus/dbushelper.hpp"
#include "dbus/dbuspassive.hpp"
#include "dbus/dbuspassiveredundancy.hpp"
#include "interfaces.hpp"
#include "vclock.hpp"

#include <cmath>
#include <limits>
#include <memory>
#include <optional>

namespace ps
{
using namespace bw;
using namespace pid_control;
inline const double NaN = std::numeric_limits<double>::quiet_NaN();
inline const double Inf = std::numeric_limits<double>::infinity();
inline const int64_t T0 = 1000000000000000000ll;

inline std::string layer(const std::string& type)
{
    if (type == "fan")
        return "fan_tach";
    if (type == "temp" || type == "margin")
        return "temperature";
    return "power";
}

// The state of one sensor as its publications define it.
struct Model
{
    std::string type, path;
    bool missing = false; // its object was not there when it was built
    bool redundant = false;
    bool unavailableAsFailed = false;
    int64_t scale = 0;
    double min = 0, max = 0;
    double value = 0, unscaled = 0;
    int64_t updated = 0;
    bool bad = false, hot = false, available = true, functional = true;
    bool cl = false, ch = false, wh = false; // standing alarms
    bool alarmUnknown = false;

    void publish(double v, bool force = false)
    {
        bad = !std::isfinite(v);
        if (bad && !force)
            return;
        double raw = v * std::pow(10.0, scale);
        double sc = raw;
        double lo = min * std::pow(10.0, scale), hi = max * std::pow(10.0, scale);
        if (std::isfinite(lo) && std::isfinite(hi) && hi > 0 && hi > lo)
            sc = (raw - lo) / (hi - lo);
        if (type == "margin")
            hot = raw <= 0;
        value = sc;
        unscaled = raw;
        updated = vclock::now();
    }
    bool alarm() const
    {
        return cl || ch || (UNC_FAILSAFE && wh);
    }
    bool failed() const
    {
        if (redundant || missing)
            return true;
        if (type != "fan" && !available && !unavailableAsFailed)
            return false;
        return bad || hot || alarm() || !available || !functional;
    }
};

struct Fixture
{
    World w;
    sdbusplus::bus::bus bus = sdbusplus::bus::new_default();
    std::shared_ptr<DbusPassiveRedundancy> red;
    std::unique_ptr<ReadInterface> ri;
    Model m;
    conf::SensorConfig info{};
    std::string service = "xyz.openbmc_project.HwmonTempSensor";
    std::vector<std::string> others; // signals on these must not matter
    Fixture()
    {
        sim::fabric().reset();
        vclock::set(T0);
        w.install();
    }
    ~Fixture()
    {
        ri.reset();
        red.reset();
        sim::fabric().reset();
        vclock::release();
    }
    std::string show() const
    {
        std::ostringstream o;
        o << m.type << (m.missing ? " missing" : "") << " scale=" << m.scale << " range=[" << m.min << "," << m.max << "]"
          << (info.ignoreDbusMinMax ? " ignoreRange" : "") << (m.unavailableAsFailed ? " unavailableAsFailed" : "");
        return o.str();
    }
    void sig(const std::string& path, const std::string& iface, const std::vector<std::pair<std::string, Val>>& ps)
    {
        auto msg = sim::mkPropsChanged(":1.7", path, iface, ps);
        sim::fabric().emit(msg);
    }
};
inline double pow10s(int64_t k)
{
    return std::pow(10.0, k);
}
} // namespace ps
