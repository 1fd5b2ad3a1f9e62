// A daemon with D-Bus fans and sensors and a JSON configuration, for one history.
#pragma once
#include "daemon.hpp"

#include <cmath>
#include <nlohmann/json.hpp>
using ojson = nlohmann::ordered_json;
using namespace dm;

struct Demo
{
    Sim sim;
    ojson conf{{"sensors", ojson::array()}, {"zones", ojson::array()}};
    Run r;
    static inline const std::string TEMP = "/xyz/openbmc_project/sensors/temperature/", TACH = "/xyz/openbmc_project/sensors/fan_tach/",
                                    PWM = "/xyz/openbmc_project/control/fanpwm/", EXT = "/xyz/openbmc_project/extsensors/temperature/";
    Demo()
    {
        sim.horizon = 10 * SEC;
        sim.world.fault = [this](bw::Msg& m) -> std::optional<bw::Reply> {
            if (m.iface == bw::PROPS && m.member == "Set" && m.path.starts_with(PWM))
            {
                if (onSet)
                    if (auto x = onSet(m))
                        return x;
                auto& v = m.body.at(2).sig == "v" ? m.body[2].kids.at(0) : m.body[2];
                uint64_t raw = 0;
                if (v.sig == "t")
                    sim::Tr<uint64_t>::get(v, raw);
                rec("set", m.path.substr(m.path.rfind('/') + 1), std::to_string(raw));
            }
            return std::nullopt;
        };
    }
    std::function<std::optional<bw::Reply>(bw::Msg&)> onSet;
    void sensorObject(const std::string& path, double v)
    {
        sim.world.add(path, "xyz.openbmc_project.Sensors").ifaces[bw::VALUE]["Value"] = mk(v);
    }
    // a fan on D-Bus, 0..255
    void fan(const std::string& n, double rpm = 4000)
    {
        sensorObject(TACH + n, rpm);
        sim.world.add(PWM + n, "xyz.openbmc_project.Fans").ifaces[bw::FANPWM]["Target"] = mk(uint64_t(7));
        conf["sensors"].push_back({{"name", n}, {"type", "fan"}, {"timeout", 0}, {"readPath", TACH + n}, {"writePath", PWM + n}, {"min", 0}, {"max", 255}});
    }
    void temp(const std::string& n, double v, int timeout = 0)
    {
        sensorObject(TEMP + n, v);
        conf["sensors"].push_back({{"name", n}, {"type", "temp"}, {"readPath", TEMP + n}, {"timeout", timeout}});
    }
    void ext(const std::string& n, int timeout = 0)
    {
        conf["sensors"].push_back({{"name", n}, {"type", "temp"}, {"readPath", EXT + n}, {"timeout", timeout}});
    }
    ojson& zone(int id, double minThermal = 0, double failsafe = 95, int cycle = 500, int thermal = 1000)
    {
        conf["zones"].push_back({{"id", id}, {"minThermalOutput", minThermal}, {"failsafePercent", failsafe}, {"cycleIntervalTimeMS", cycle},
                                 {"updateThermalsTimeMS", thermal}, {"pids", ojson::array()}});
        return conf["zones"].back();
    }
    static ojson coeffs(double ff = 0, double p = 0, double i = 0)
    {
        return ojson{{"samplePeriod", 0.5}, {"proportionalCoeff", p}, {"integralCoeff", i}, {"feedFwdOffsetCoeff", 0}, {"feedFwdGainCoeff", ff},
                     {"integralLimit_min", 0}, {"integralLimit_max", 100}, {"outLim_min", 0}, {"outLim_max", 100}, {"slewNeg", 0}, {"slewPos", 0}};
    }
    // a fan loop that commands the zone's set point, in percent
    static ojson fans(const std::string& name, std::vector<std::string> inputs)
    {
        return ojson{{"name", name}, {"type", "fan"}, {"inputs", inputs}, {"setpoint", 40}, {"pid", coeffs(1)}};
    }
    static ojson step(const std::string& name, std::vector<std::string> inputs, std::vector<double> readings, std::vector<double> outputs)
    {
        ojson rd, out;
        for (size_t k = 0; k < readings.size(); ++k)
            rd[std::to_string(k)] = readings[k], out[std::to_string(k)] = outputs[k];
        return ojson{{"name", name}, {"type", "stepwise"}, {"inputs", inputs}, {"setpoint", 0},
                     {"pid", {{"samplePeriod", 0.5}, {"positiveHysteresis", 0}, {"negativeHysteresis", 0}, {"isCeiling", false}, {"reading", rd}, {"output", out}}}};
    }
    static void change(const std::string& path, const std::string& iface, std::vector<std::pair<std::string, Val>> vs, bw::World* w)
    {
        for (auto& [n, v] : vs)
            w->objs[path].ifaces[iface][n] = v;
        auto m = sim::mkPropsChanged("xyz.openbmc_project.Sensors", path, iface, vs);
        sim::fabric().emit(m);
    }
    void value(int64_t t, const std::string& path, double v)
    {
        sim.bus(t, [this, path, v] { change(path, bw::VALUE, {{"Value", mk(v)}}, &sim.world); });
    }
    void prop(int64_t t, const std::string& path, const std::string& iface, const std::string& p, Val v)
    {
        sim.bus(t, [=, this] { change(path, iface, {{p, v}}, &sim.world); });
    }
    void manual(int64_t t, int zone, bool on)
    {
        sim.bus(t, [=] {
            sim::setProp("xyz.openbmc_project.State.FanCtrl", "/xyz/openbmc_project/settings/fanctrl/zone" + std::to_string(zone),
                         "xyz.openbmc_project.Control.Mode", "Manual", mk(on));
        });
    }
    void extValue(int64_t t, const std::string& n, double v)
    {
        sim.bus(t, [=] { sim::setProp("xyz.openbmc_project.Hwmon.external", EXT + n, bw::VALUE, "Value", mk(v)); });
    }
    void go()
    {
        Sim::put(sim.dir + "/cwd/config.json", conf.dump(1));
        r = sim.run();
        if (getenv("DEMO_TRACE"))
        {
            for (auto& l : r.trace)
                std::fprintf(stderr, "%8.3f %s %s %s\n", l.t / 1e9, l.kind.c_str(), l.what.c_str(), l.value.c_str());
            std::fprintf(stderr, "%s\n", r.log.c_str());
        }
        pbt::require(r.sig == 0 && !r.hung, "the daemon crashed or hangs: ", r.log);
    }
    // what the fan was last told by time t, in percent; -1: nothing
    double at(const std::string& fan, int64_t t) const
    {
        double v = -1;
        for (auto& l : r.trace)
            if (l.kind == "set" && l.what == fan && l.t <= t)
                v = std::stod(l.value) / 255 * 100;
        return v;
    }
    size_t sets(const std::string& fan, int64_t from, int64_t to) const
    {
        size_t n = 0;
        for (auto& l : r.trace)
            n += l.kind == "set" && l.what == fan && l.t >= from && l.t <= to;
        return n;
    }
    void want(const std::string& fan, int64_t t, double pct) const
    {
        pbt::require(std::fabs(at(fan, t) - pct) < 0.8, fan, " is at ", at(fan, t), " % at ", t / 1e9, " s, should be at ", pct);
    }
};
