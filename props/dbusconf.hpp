// Configurations published on D-Bus, and what they mean.
#pragma once
#include "busworld.hpp"

#include "conf.hpp"
#include "config.h"
#include "dbus/dbusconfiguration.hpp"
#include "pid/ec/stepwise.hpp"

#include <limits>
#include <optional>
#include <regex>

namespace dc
{
using bw::mk;
using bw::Val;
using namespace pid_control;
inline const std::string PID = "xyz.openbmc_project.Configuration.Pid";
inline const std::string ZONE = "xyz.openbmc_project.Configuration.Pid.Zone";
inline const std::string STEP = "xyz.openbmc_project.Configuration.Stepwise";
inline const std::string OM = "org.freedesktop.DBus.ObjectManager";
inline const std::string TMODE = "xyz.openbmc_project.Control.ThermalMode";
inline const double NaN = std::numeric_limits<double>::quiet_NaN();
using Props = std::map<std::string, Val>;
using Strings = std::vector<std::string>;
using Doubles = std::vector<double>;

struct Sensor // a sensor or fan control as it is on the bus
{
    std::string path, iface;
    std::map<std::string, double> thresholds; // property -> value
    std::set<std::string> threshIfaces;
    std::string name() const
    {
        return path.substr(path.rfind('/') + 1);
    }
};
struct Zone
{
    std::string name;
    double min = 0;
    std::optional<double> failsafe, cycle, thermal, index;
    std::optional<bool> acc;
    std::optional<Strings> profiles;
    std::set<std::string> drop, spoil; // required properties left out, properties of a wrong type
};
struct Ctl // a PID or stepwise controller
{
    bool step = false;
    std::string name, cls;
    Strings zones, inputs, outputs;
    std::optional<Strings> acceptable, profiles;
    std::optional<bool> unavailable, hostOff;
    std::optional<Doubles> margins;
    std::optional<double> failsafe, posHyst, negHyst, d;
    std::optional<bool> checkHyst;
    std::optional<std::string> offset;
    double setpoint = 0, p = 0, i = 0, ffOff = 0, ffGain = 0, iMax = 0, iMin = 0, oMax = 0, oMin = 0, sNeg = 0, sPos = 0;
    Doubles reading, output;
    std::set<std::string> drop, spoil;
};
struct Config
{
    std::vector<Sensor> sensors;
    std::vector<Zone> zones;
    std::vector<Ctl> ctls;
    Strings current; // selected profiles, one object each
};

inline std::string busName(std::string n)
{
    for (auto& ch : n)
        if (ch == ' ')
            ch = '_';
    return n;
}
// A number as its publisher may represent it.
inline Val number(pbt::Src& s, double v)
{
    if (v == std::floor(v) && std::fabs(v) < 1e15)
    {
        size_t k = s.w({4, 3, 3});
        if (k == 1)
            return mk(static_cast<int64_t>(v));
        if (k == 2 && v >= 0)
            return mk(static_cast<uint64_t>(v));
    }
    return mk(v);
}
inline void spoil(Props& p, const std::set<std::string>& which)
{
    for (auto& k : which)
    {
        auto it = p.find(k);
        if (it != p.end())
            it->second = it->second.sig == "s" ? mk(4.0) : mk(std::string("text"));
    }
}
inline Props render(pbt::Src& s, const Zone& z)
{
    Props p;
    p["Name"] = mk(z.name);
    p["Class"] = mk(std::string("Zone"));
    p["MinThermalOutput"] = number(s, z.min);
    if (z.failsafe)
        p["FailSafePercent"] = number(s, *z.failsafe);
    if (z.cycle)
        p["CycleIntervalTimeMS"] = number(s, *z.cycle);
    if (z.thermal)
        p["UpdateThermalsTimeMS"] = number(s, *z.thermal);
    if (z.index)
        p["ZoneIndex"] = number(s, *z.index);
    if (z.acc)
        p["AccumulateSetPoint"] = mk(*z.acc);
    if (z.profiles)
        p["Profiles"] = mk(*z.profiles);
    spoil(p, z.spoil);
    for (auto& k : z.drop)
        p.erase(k);
    return p;
}
inline Props render(pbt::Src& s, const Ctl& c)
{
    Props p;
    p["Name"] = mk(c.name);
    p["Class"] = mk(c.cls);
    p["Zones"] = mk(c.zones);
    p["Inputs"] = mk(c.inputs);
    if (c.acceptable)
        p["MissingIsAcceptable"] = mk(*c.acceptable);
    if (c.profiles)
        p["Profiles"] = mk(*c.profiles);
    if (c.unavailable)
        p["InputUnavailableAsFailed"] = mk(*c.unavailable);
    if (c.hostOff)
        p["IgnoreFailIfHostOff"] = mk(*c.hostOff);
    if (c.margins)
        p["TempToMargin"] = mk(*c.margins);
    if (c.posHyst)
        p["PositiveHysteresis"] = number(s, *c.posHyst);
    if (c.negHyst)
        p["NegativeHysteresis"] = number(s, *c.negHyst);
    if (c.step)
    {
        p["Reading"] = mk(c.reading);
        p["Output"] = mk(c.output);
    }
    else
    {
        if (c.cls == "fan")
            p["Outputs"] = mk(c.outputs);
        if (c.cls != "fan" || s.b(50))
            p["SetPoint"] = number(s, c.setpoint);
        if (c.failsafe)
            p["FailSafePercent"] = number(s, *c.failsafe);
        if (c.d)
            p["DCoefficient"] = number(s, *c.d);
        if (c.checkHyst)
            p["CheckHysteresisWithSetpoint"] = mk(*c.checkHyst);
        if (c.offset)
            p["SetPointOffset"] = mk(*c.offset);
        p["PCoefficient"] = number(s, c.p);
        p["ICoefficient"] = number(s, c.i);
        p["FFOffCoefficient"] = number(s, c.ffOff);
        p["FFGainCoefficient"] = number(s, c.ffGain);
        p["ILimitMax"] = number(s, c.iMax);
        p["ILimitMin"] = number(s, c.iMin);
        p["OutLimitMax"] = number(s, c.oMax);
        p["OutLimitMin"] = number(s, c.oMin);
        p["SlewNeg"] = number(s, c.sNeg);
        p["SlewPos"] = number(s, c.sPos);
    }
    spoil(p, c.spoil);
    for (auto& k : c.drop)
        p.erase(k);
    return p;
}
// Puts it on the fake bus.
inline void publish(pbt::Src& s, bw::World& w, const Config& c, bool spread = true)
{
    auto service = [&] {
        return std::string("xyz.openbmc_project.EntityManager") + (spread && s.b(25) ? "2" : "");
    };
    std::set<std::string> services;
    int n = 0;
    auto place = [&](const std::string& what, const std::string& iface, const Props& p) {
        auto sv = service();
        auto root = "/xyz/openbmc_project/inventory" + std::string(sv.ends_with('2') ? "2" : "");
        if (services.insert(sv).second)
            w.add(root, sv).ifaces[OM];
        auto& o = w.add(root + "/system/board/" + what + std::to_string(n++), sv);
        o.ifaces[iface] = p;
        if (s.b(20))
            o.ifaces["xyz.openbmc_project.Inventory.Decorator.Asset"]["Slots"] = mk(std::vector<std::tuple<std::string, uint8_t>>{{"a", 1}});
    };
    for (auto& z : c.zones)
        place("Zone", ZONE, render(s, z));
    for (auto& k : c.ctls)
        place(k.step ? "Step" : "Pid", k.step ? STEP : PID, render(s, k));
    // a service with sensors that also manages objects
    for (auto& x : c.sensors)
    {
        auto& o = w.add(x.path, "xyz.openbmc_project.Sensors");
        auto& v = o.ifaces[x.iface];
        if (x.iface == bw::VALUE)
        {
            v["Value"] = mk(30.0);
            v["Unit"] = mk(std::string("xyz.openbmc_project.Sensor.Value.Unit.DegreesC"));
        }
        else
            v["Target"] = mk(uint64_t(0));
        for (auto& i : x.threshIfaces)
            o.ifaces[i];
        for (auto& [p, t] : x.thresholds)
            o.ifaces[p.starts_with("Warning") ? bw::WARN : bw::CRIT][p] = mk(t);
    }
    w.add("/xyz/openbmc_project/sensors", "xyz.openbmc_project.Sensors").ifaces[OM];
    size_t k = 0;
    for (auto& m : c.current)
        w.add("/xyz/openbmc_project/control/thermal_mode" + std::to_string(k++), "xyz.openbmc_project.Settings").ifaces[TMODE]["Current"] =
            mk(m);
}
// GetManagedObjects on the fake bus.
inline std::optional<bw::Reply> managed(bw::World& w, bw::Msg& m)
{
    if (m.iface != OM || m.member != "GetManagedObjects")
        return std::nullopt;
    auto it = w.objs.find(m.path);
    if (it == w.objs.end() || it->second.service != m.dest || !it->second.ifaces.count(OM))
        return sim::fail("org.freedesktop.DBus.Error.UnknownMethod", m.path);
    Val top;
    top.sig = "a{oa{sa{sv}}}";
    for (auto& [p, o] : w.objs)
    {
        if (o.service != m.dest || p == m.path || p.compare(0, m.path.size() + 1, m.path + "/") != 0)
            continue;
        Val e, is;
        e.sig = "{oa{sa{sv}}}";
        e.kids.push_back(mk(sdbusplus::object_path(p)));
        is.sig = "a{sa{sv}}";
        for (auto& [i, ps] : o.ifaces)
        {
            Val f;
            f.sig = "{sa{sv}}";
            f.kids.push_back(mk(i));
            f.kids.push_back(bw::World::props(ps));
            is.kids.push_back(std::move(f));
        }
        e.kids.push_back(std::move(is));
        top.kids.push_back(std::move(e));
    }
    bw::Reply r;
    r.body.push_back(std::move(top));
    return r;
}

// ---------------------------------------------------------------- meaning
struct Meaning
{
    bool rejected = false;
    std::string why;
    std::map<std::string, conf::ZoneConfig> details;  // by zone name
    std::map<std::string, std::optional<double>> index;
    std::map<std::string, conf::PIDConf> ctls;        // by zone name
    std::map<std::string, std::vector<conf::SensorConfig>> sensors; // admissible ones
    bool controllers = false;
};
inline bool activeIn(const Config& c, const std::optional<Strings>& p)
{
    if (c.current.empty() || !p || p->empty())
        return true;
    for (auto& x : *p)
        if (std::find(c.current.begin(), c.current.end(), x) != c.current.end())
            return true;
    return false;
}
inline std::vector<const Sensor*> find(const Config& c, const std::string& pattern)
{
    std::vector<const Sensor*> r;
    std::regex re(busName(pattern));
    for (auto& x : c.sensors)
    {
        if (x.iface == bw::VALUE && x.path.find("pwm") != std::string::npos)
            continue;
        if (std::regex_match(x.name(), re))
            r.push_back(&x);
    }
    return r;
}
inline std::string layerOf(const std::string& cls)
{
    return cls == "temp" || cls == "margin" ? "temperature" : cls == "power" || cls == "powersum" ? "power" : "unknown";
}
inline Meaning meaning(const Config& c)
{
    Meaning m;
    auto reject = [&](const std::string& w) {
        m.rejected = true;
        m.why = w;
    };
    for (auto& z : c.zones)
    {
        if (!activeIn(c, z.profiles))
            continue;
        if (!z.drop.empty() || !z.spoil.empty())
        {
            reject(z.name + " lacks a property or has one of a wrong type");
            continue;
        }
        conf::ZoneConfig d{};
        d.minThermalOutput = z.min;
        d.failsafePercent = z.failsafe.value_or(0);
        if (z.cycle && *z.cycle >= 1)
            d.cycleTime.cycleIntervalTimeMS = static_cast<uint64_t>(*z.cycle);
        if (z.thermal && *z.thermal >= 1)
            d.cycleTime.updateThermalsTimeMS = static_cast<uint64_t>(*z.thermal);
        d.accumulateSetPoint = z.acc.value_or(false);
        m.details[z.name] = d;
        m.index[z.name] = z.index;
    }
    for (auto& k : c.ctls)
    {
        if (!activeIn(c, k.profiles) || k.zones.empty())
            continue;
        if (!k.drop.empty() || !k.spoil.empty())
        {
            reject(k.name + " lacks a property or has one of a wrong type");
            continue;
        }
        bool fan = k.cls == "fan" && !k.step;
        static const std::set<std::string> thermal = {"temp", "margin", "power", "powersum"};
        struct In
        {
            const Sensor* s;
            std::string name;
            size_t slot;
        };
        std::vector<In> ins;
        std::set<std::string> acceptable;
        if (k.acceptable)
            for (auto& a : *k.acceptable)
                for (auto* x : find(c, a))
                {
                    acceptable.insert(x->name());
                    if (!k.step && x->iface != bw::VALUE)
                        reject(k.name + " accepts the absence of something that is no sensor");
                }
        size_t slot = 0;
        for (auto& in : k.inputs)
        {
            auto f = find(c, in);
            for (auto* x : f)
            {
                ins.push_back({x, x->name(), slot++});
                if (!k.step && x->iface != bw::VALUE)
                    reject(k.name + " has an input that is no sensor");
            }
            if (f.empty())
            {
                bool ok = k.acceptable && std::find(k.acceptable->begin(), k.acceptable->end(), in) != k.acceptable->end();
                if (HANDLE_MISSING_OBJECT_PATHS && !fan && !ok)
                    ins.push_back({nullptr, busName(in), slot});
                ++slot;
            }
        }
        if (!k.step && !fan && !thermal.count(k.cls))
            continue; // no such kind: skipped
        std::vector<std::pair<std::string, std::string>> fans; // sensor name, write path
        if (fan)
        {
            std::vector<const Sensor*> outs;
            for (auto& o : k.outputs)
                for (auto* x : find(c, o))
                    outs.push_back(x);
            if (outs.size() != 1 && outs.size() != ins.size())
            {
                reject(k.name + " has " + std::to_string(outs.size()) + " outputs for " + std::to_string(ins.size()) + " inputs");
                continue;
            }
            for (size_t n = 0; n < ins.size(); ++n)
            {
                auto* o = outs[outs.size() == 1 ? 0 : n];
                if (o->iface != bw::FANPWM)
                    reject(k.name + " has an output that is no fan control");
                conf::SensorConfig sc{};
                sc.type = "fan";
                sc.readPath = ins[n].s->path;
                sc.writePath = o->path;
                sc.max = 255;
                ins[n].name += o->name();
                m.sensors[ins[n].name].push_back(sc);
            }
        }
        else
            for (auto& in : ins)
            {
                conf::SensorConfig sc{};
                sc.type = k.step ? "temp" : k.cls;
                sc.readPath = in.s ? in.s->path : "/xyz/openbmc_project/sensors/" + layerOf(sc.type) + "/" + in.name;
                sc.ignoreDbusMinMax = true;
                sc.unavailableAsFailed = k.unavailable.value_or(true);
                sc.ignoreFailIfHostOff = k.hostOff.value_or(false);
                m.sensors[in.name].push_back(sc);
            }
        if (ins.empty())
            continue; // nothing it refers to exists
        m.controllers = true;
        conf::ControllerInfo info{};
        for (auto& in : ins)
        {
            conf::SensorInput si;
            si.name = in.name;
            si.missingIsAcceptable = acceptable.count(in.name) > 0;
            if (k.margins && in.slot < k.margins->size())
            {
                si.convertTempToMargin = true;
                si.convertMarginZero = (*k.margins)[in.slot];
            }
            info.inputs.push_back(si);
        }
        auto named = busName(k.name);
        if (k.step)
        {
            info.type = "stepwise";
            if (k.reading.empty() || k.reading.size() != k.output.size() || k.reading.size() > ec::maxStepwisePoints)
            {
                reject(k.name + " has a bad table");
                continue;
            }
            for (size_t n = 0; n < ec::maxStepwisePoints; ++n)
            {
                info.stepwiseInfo.reading[n] = n < k.reading.size() ? k.reading[n] : NaN;
                info.stepwiseInfo.output[n] = n < k.output.size() ? k.output[n] : NaN;
            }
            info.stepwiseInfo.isCeiling = k.cls == "Ceiling";
            info.stepwiseInfo.positiveHysteresis = k.posHyst.value_or(0);
            info.stepwiseInfo.negativeHysteresis = k.negHyst.value_or(0);
            for (auto& z : k.zones)
                m.ctls[z][named] = info;
            continue;
        }
        info.type = k.cls;
        info.setpoint = fan ? 0 : k.setpoint;
        info.failSafePercent = k.failsafe.value_or(0);
        auto& p = info.pidInfo;
        p.proportionalCoeff = k.p;
        p.integralCoeff = k.i;
        p.derivativeCoeff = k.d.value_or(0);
        p.feedFwdOffset = k.ffOff;
        p.feedFwdGain = k.ffGain;
        p.integralLimit = {k.iMin, k.iMax};
        p.outLim = {k.oMin, k.oMax};
        p.slewNeg = k.sNeg;
        p.slewPos = k.sPos;
        p.checkHysterWithSetpt = k.checkHyst.value_or(false);
        p.positiveHysteresis = k.posHyst.value_or(0);
        p.negativeHysteresis = k.negHyst.value_or(0);
        if (!k.offset)
        {
            for (auto& z : k.zones)
                m.ctls[z][named] = info;
            continue;
        }
        static const std::set<std::string> offsets = {"CriticalLow", "CriticalHigh", "WarningLow", "WarningHigh"};
        if (!offsets.count(*k.offset))
        {
            reject(k.name + " has set point offset " + *k.offset);
            continue;
        }
        for (size_t n = 0; n < ins.size(); ++n)
        {
            auto one = info;
            one.inputs = {info.inputs[n]};
            auto iface = k.offset->starts_with("Warning") ? bw::WARN : bw::CRIT;
            auto* x = ins[n].s;
            if (!x || (!x->threshIfaces.count(iface) && std::none_of(x->thresholds.begin(), x->thresholds.end(), [&](auto& t) {
                    return (t.first.starts_with("Warning") ? bw::WARN : bw::CRIT) == iface;
                })))
            {
                reject(k.name + ": " + ins[n].name + " has no thresholds");
                break;
            }
            auto t = x->thresholds.find(*k.offset);
            if (t != x->thresholds.end())
                one.setpoint += t->second;
            for (auto& z : k.zones)
                m.ctls[z][ins[n].name] = one;
        }
    }
    return m;
}
} // namespace dc
