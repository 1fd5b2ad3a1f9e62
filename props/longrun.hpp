// A daemon that runs for long, its world healthy or disturbed at will.
#pragma once
#include "daemon.hpp"

#include <dirent.h>
#include <nlohmann/json.hpp>
#include <set>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace lr
{
using namespace dm;
using ojson = nlohmann::ordered_json;

inline const std::string kFanCtrl = "xyz.openbmc_project.State.FanCtrl";
inline const std::string kExtern = "xyz.openbmc_project.Hwmon.external";
inline const std::string kModeRoot = "/xyz/openbmc_project/settings/fanctrl/zone";
inline const std::string kSensors = "/xyz/openbmc_project/sensors/";
inline const double kStep = 4, kFailsafe = 92;
inline double base(int zone)
{
    return 30 + 0.75 * zone;
}
inline bool near(double raw, double pct)
{
    return std::fabs(raw - pct * 255 / 100) <= 1.01;
}

struct Sensor
{
    enum Kind
    {
        bus,
        ext,
        file
    } kind = bus;
    std::string name, path;
    int timeout = 0;
    bool fan = false, acceptable = false;
    // how it is now (in the child)
    bool muted = false;
    std::optional<double> odd;
};
struct Fan
{
    Sensor tach;
    std::string pwm;
    bool file = false;
};
struct Zone
{
    int id = 0, cycle = 500, thermal = 1000;
    std::vector<Fan> fans;
    std::vector<Sensor> temps;
    bool accumulate = false, pid = false, ceiling = false, margin = false;
};

struct Scene
{
    pbt::Src& s;
    pbt::Ctx& c;
    Sim sim;
    std::vector<Zone> zones;
    bool hot = false, findable = false;
    std::set<std::string> refused;  // pwm paths whose commands fail
    std::set<std::string> silenced; // members that get no answer
    std::string config;

    Scene(pbt::Src& s, pbt::Ctx& c, const std::string& name) : s(s), c(c), sim(name) {}

    double steady(const Sensor& x) const
    {
        return x.fan ? 3000 : hot ? 60 : 20;
    }
    void show(Sensor& x)
    {
        double v = x.odd.value_or(steady(x));
        if (x.muted)
            return;
        if (x.kind == Sensor::bus)
        {
            auto it = sim.world.objs.find(x.path);
            if (it == sim.world.objs.end())
                return;
            it->second.ifaces[bw::VALUE]["Value"] = mk(v);
            auto m = sim::mkPropsChanged("xyz.openbmc_project.Sensors", x.path, bw::VALUE, {{"Value", mk(v)}});
            sim::fabric().emit(m);
        }
        else if (x.kind == Sensor::ext)
            sim::setProp(kExtern, x.path, bw::VALUE, "Value", mk(v));
        else
            Sim::put(x.path, std::to_string(static_cast<int64_t>(v)) + "\n");
    }
    void all(const std::function<void(Sensor&)>& f)
    {
        for (auto& z : zones)
        {
            for (auto& x : z.fans)
                f(x.tach);
            for (auto& x : z.temps)
                f(x);
        }
    }
    void publish(const Sensor& x)
    {
        if (x.kind == Sensor::bus)
        {
            auto& o = sim.world.add(x.path, "xyz.openbmc_project.Sensors");
            o.ifaces[bw::VALUE]["Value"] = mk(steady(x));
            o.ifaces[bw::CRIT]["CriticalAlarmHigh"] = mk(false);
            o.ifaces[bw::CRIT]["CriticalAlarmLow"] = mk(false);
            o.ifaces[bw::AVAIL]["Available"] = mk(true);
            o.ifaces[bw::OPSTAT]["Functional"] = mk(true);
        }
        else if (x.kind == Sensor::file)
            Sim::put(x.path, std::to_string(static_cast<int64_t>(steady(x))));
    }
    void prop(const Sensor& x, const std::string& iface, const std::string& p, bw::Val v)
    {
        auto it = sim.world.objs.find(x.path);
        if (it != sim.world.objs.end())
            it->second.ifaces[iface][p] = v;
        auto m = sim::mkPropsChanged("xyz.openbmc_project.Sensors", x.path, iface, {{p, v}});
        sim::fabric().emit(m);
    }
    static bool manual(const std::string& zone)
    {
        auto v = sim::getProp(kFanCtrl, zone, "xyz.openbmc_project.Control.Mode", "Manual");
        if (!v)
            return false;
        return (v->sig == "v" ? v->kids.at(0) : *v).u != 0;
    }
    // Someone else sets a fan, as is done in manual mode
    void outside(const Fan& f, uint64_t raw)
    {
        sim.world.objs.at(f.pwm).ifaces[bw::FANPWM]["Target"] = mk(raw);
        rec("set", f.tach.name, std::to_string(raw));
    }
    // Everything sound again
    void heal()
    {
        refused.clear();
        silenced.clear();
        for (auto& z : zones)
        {
            for (auto& f : z.fans)
                if (f.file && fs::is_directory(f.pwm))
                {
                    fs::remove(f.pwm);
                    std::ofstream(f.pwm) << "-";
                }
            // not said again when automatic already: that would repeat the commands
            if (manual(kModeRoot + std::to_string(z.id)))
                sim::setProp(kFanCtrl, kModeRoot + std::to_string(z.id), "xyz.openbmc_project.Control.Mode", "Manual", mk(false));
            for (auto& [p, o] : sim::fabric().objects)
                if (p.starts_with(kModeRoot) && o.count("xyz.openbmc_project.Object.Enable"))
                    sim::setProp(kFanCtrl, p, "xyz.openbmc_project.Object.Enable", "Enabled", mk(true));
        }
        all([this](Sensor& x) {
            x.muted = false;
            x.odd.reset();
            if (x.kind == Sensor::file && fs::is_directory(x.path))
                fs::remove(x.path);
            publish(x);
            if (x.kind == Sensor::bus)
            {
                prop(x, bw::CRIT, "CriticalAlarmHigh", mk(false));
                prop(x, bw::CRIT, "CriticalAlarmLow", mk(false));
                prop(x, bw::AVAIL, "Available", mk(true));
                prop(x, bw::OPSTAT, "Functional", mk(true));
            }
            show(x);
        });
    }
    std::string render()
    {
        ojson j;
        j["sensors"] = ojson::array();
        j["zones"] = ojson::array();
        auto pid = [](double ff, double p, double i, double max) {
            return ojson{{"samplePeriod", 0.5}, {"proportionalCoeff", p}, {"integralCoeff", i}, {"feedFwdOffsetCoeff", 0},
                         {"feedFwdGainCoeff", ff}, {"integralLimit_min", 0}, {"integralLimit_max", max}, {"outLim_min", 0}, {"outLim_max", max},
                         {"slewNeg", 0}, {"slewPos", 0}};
        };
        for (auto& z : zones)
        {
            auto id = std::to_string(z.id);
            ojson zo = {{"id", z.id}, {"minThermalOutput", 5}, {"failsafePercent", kFailsafe}, {"cycleIntervalTimeMS", z.cycle},
                        {"updateThermalsTimeMS", z.thermal}, {"accumulateSetPoint", z.accumulate}};
            ojson fan = {{"name", "fans" + id}, {"type", "fan"}, {"inputs", ojson::array()}, {"setpoint", 40}, {"pid", pid(1, 0, 0, 100)}};
            for (auto& f : z.fans)
            {
                j["sensors"].push_back({{"name", f.tach.name}, {"type", "fan"}, {"timeout", f.tach.timeout}, {"readPath", f.tach.path},
                                        {"writePath", f.pwm}, {"min", 0}, {"max", 255}});
                fan["inputs"].push_back(f.tach.name);
            }
            ojson inputs = ojson::array(), spare = ojson::array();
            for (auto& x : z.temps)
            {
                j["sensors"].push_back({{"name", x.name}, {"type", "temp"}, {"readPath", x.path}, {"timeout", x.timeout}});
                inputs.push_back(x.name);
                if (x.acceptable)
                    spare.push_back(x.name);
            }
            auto step = [&](const std::string& name, bool ceiling, double low, double high) {
                return ojson{{"name", name}, {"type", "stepwise"}, {"inputs", inputs}, {"setpoint", 0}, {"missingIsAcceptable", spare},
                             {"pid", {{"samplePeriod", 0.1}, {"positiveHysteresis", 0}, {"negativeHysteresis", 0}, {"isCeiling", ceiling},
                                      {"reading", {{"0", 25}, {"1", 50}}}, {"output", {{"0", low}, {"1", high}}}}}};
            };
            zo["pids"] = {fan, step("step_" + id, false, base(z.id), base(z.id) + kStep)};
            if (z.ceiling)
                zo["pids"].push_back(step("ceil_" + id + "c", true, 88, 89));
            if (z.pid)
                zo["pids"].push_back({{"name", "pid_" + id + "p"}, {"type", "temp"}, {"inputs", inputs}, {"setpoint", 30},
                                      {"missingIsAcceptable", spare}, {"pid", pid(0, -0.25, -0.125, 12)}});
            if (z.margin)
                zo["pids"].push_back({{"name", "margin_" + id + "m"}, {"type", "margin"}, {"inputs", inputs}, {"setpoint", 30},
                                      {"missingIsAcceptable", spare}, {"pid", pid(0, -0.25, -0.125, 12)}});
            j["zones"].push_back(zo);
        }
        return j.dump(1);
    }
    void build(bool timeouts)
    {
        int nz = static_cast<int>(s.i(1, 3));
        int n = 0;
        for (int k = 0; k < nz; ++k)
        {
            Zone z;
            z.id = k;
            z.cycle = s.pick(std::vector<int>{500, 200, 250, 100});
            z.thermal = s.pick(std::vector<int>{1000, 500, 300});
            z.accumulate = s.b(25);
            z.pid = s.b(40);
            z.ceiling = s.b(40);
            z.margin = s.b(20);
            int nf = static_cast<int>(s.i(1, 3)), nt = static_cast<int>(s.i(1, 3));
            for (int f = 0; f < nf; ++f)
            {
                Fan x;
                auto id = std::to_string(k) + std::to_string(f);
                x.file = s.b(50);
                x.pwm = x.file ? sim.dir + "/sys/pwm" + id : "/xyz/openbmc_project/control/fanpwm/fan" + id;
                x.tach.name = "fan" + id;
                x.tach.fan = true;
                x.tach.kind = s.b(40) ? Sensor::file : Sensor::bus;
                x.tach.path = x.tach.kind == Sensor::file ? sim.dir + "/sys/fan" + id : kSensors + "fan_tach/fan" + id;
                x.tach.timeout = timeouts && s.b(25) ? 3 : 0;
                if (x.file)
                    sim.fans[x.pwm] = x.tach.name;
                else
                    sim.world.add(x.pwm, "xyz.openbmc_project.Fans").ifaces[bw::FANPWM]["Target"] = mk(uint64_t(7));
                z.fans.push_back(x);
            }
            for (int t = 0; t < nt; ++t)
            {
                Sensor x;
                x.name = "temp" + std::to_string(n++);
                x.kind = static_cast<Sensor::Kind>(s.w({3, 2, 2}));
                x.path = x.kind == Sensor::bus   ? kSensors + "temperature/" + x.name
                         : x.kind == Sensor::ext ? "/xyz/openbmc_project/extsensors/temperature/" + x.name
                                                 : sim.dir + "/sys/" + x.name;
                x.timeout = timeouts && s.b(40) ? 3 : 0;
                x.acceptable = nt > 1 && t == 0 && s.b(30);
                z.temps.push_back(x);
            }
            zones.push_back(z);
        }
        all([this](Sensor& x) { publish(x); });
        if (s.b(50))
        {
            config = sim.dir + "/usr/config.json";
        }
        else
        {
            config = sim.dir + "/log/my.json";
            sim.args = {"-c", config};
        }
        Sim::put(config, render());
        if (s.b(40))
        {
            fs::create_directories(sim.dir + "/log/out");
            sim.args.push_back("-l");
            sim.args.push_back(sim.dir + "/log/out");
        }
        for (auto f : {"-g", "-d"})
            if (s.b(25))
                sim.args.push_back(f);
        sim.world.fault = [this](bw::Msg& m) -> std::optional<bw::Reply> {
            if (silenced.count(m.member))
                return sim::fail("org.freedesktop.DBus.Error.NoReply");
            if (m.iface == bw::PROPS && m.member == "Set" && m.path.starts_with("/xyz/openbmc_project/control/fanpwm/"))
            {
                if (refused.count(m.path))
                    return sim::fail("org.freedesktop.DBus.Error.Timeout");
                auto& v = m.body.at(2).sig == "v" ? m.body[2].kids.at(0) : m.body[2];
                uint64_t raw = 0;
                if (v.sig == "t")
                    sim::Tr<uint64_t>::get(v, raw);
                rec("set", m.path.substr(m.path.rfind('/') + 1), std::to_string(raw));
            }
            return std::nullopt;
        };
        sim.world.add("/xyz/openbmc_project/state/host0", "xyz.openbmc_project.State.Host0").ifaces["xyz.openbmc_project.State.Host"]
            ["CurrentHostState"] = mk(std::string("xyz.openbmc_project.State.Host.HostState.Running"));
    }
    void beat(int64_t from, int64_t to)
    {
        for (int64_t t = from; t < to; t += SEC)
            sim.bus(t, [this] {
                sim.world.sets.clear();
                all([this](Sensor& x) {
                    if (x.timeout || x.kind == Sensor::ext)
                        show(x);
                });
            });
    }
    void turn(int64_t t, bool h)
    {
        sim.bus(t, [this, h] {
            hot = h;
            all([this](Sensor& x) {
                if (!x.fan)
                    show(x);
            });
        });
    }
    void hup(int64_t t)
    {
        sim.at(t, [] {
            rec("HUP");
            raise(SIGHUP);
        });
    }
    // One disturbance, of those that `heal` undoes. Returns what it is.
    std::string disturb(int64_t t)
    {
        int zi = static_cast<int>(s.draw(zones.size()));
        Zone& z = zones[zi];
        auto zp = kModeRoot + std::to_string(z.id);
        size_t k = s.draw(z.temps.size() + z.fans.size());
        Sensor& x = k < z.temps.size() ? z.temps[k] : z.fans[k - z.temps.size()].tach;
        Fan& f = z.fans[s.draw(z.fans.size())];
        auto in = [&](std::function<void()> fn) { sim.bus(t, std::move(fn)); };
        switch (s.w({5, 4, 3, 3, 3, 2, 2}))
        {
            case 0: // its reading
            {
                double v = s.pick(std::vector<double>{NAN, INFINITY, -INFINITY, 0, -5, 1e9, 45});
                if (x.kind == Sensor::file && !(std::fabs(v) < 1e9))
                    v = 0;
                in([this, &x, v] {
                    x.odd = v;
                    show(x);
                });
                return x.name + " shows " + std::to_string(v);
            }
            case 1: // its state
            {
                size_t how = s.draw(5);
                if (x.kind == Sensor::file)
                {
                    static const std::string text[] = {"", "none", "99999999999999999999", "\n\n", "-"};
                    in([&x, how] {
                        std::error_code ec;
                        if (how == 0)
                            fs::remove(x.path, ec);
                        else
                            Sim::put(x.path, text[how]);
                        x.muted = true;
                    });
                    return x.name + " holds '" + text[how] + "'";
                }
                if (x.kind == Sensor::ext)
                {
                    in([&x] { x.muted = true; });
                    return x.name + " is not written";
                }
                static const std::string pr[] = {"CriticalAlarmHigh", "CriticalAlarmLow", "Available", "Functional", ""};
                in([this, &x, how] {
                    if (how < 2)
                        prop(x, bw::CRIT, pr[how], mk(true));
                    else if (how == 2)
                        prop(x, bw::AVAIL, "Available", mk(false));
                    else if (how == 3)
                        prop(x, bw::OPSTAT, "Functional", mk(false));
                    else
                        x.muted = true;
                });
                return x.name + " " + (how < 4 ? pr[how] : "goes quiet");
            }
            case 2: // commands do not arrive
            {
                in([this, &f] {
                    if (!f.file)
                        refused.insert(f.pwm);
                    else if (!fs::is_directory(f.pwm))
                    {
                        fs::remove(f.pwm);
                        fs::create_directory(f.pwm);
                    }
                });
                return f.tach.name + " takes no commands";
            }
            case 3:
            {
                bool m = !s.b(30);
                std::string text = "zone " + std::to_string(z.id) + (m ? " manual" : " automatic");
                std::optional<uint64_t> move;
                if (m && !f.file && s.b(60))
                {
                    move = s.i(0, 255);
                    text += ", " + f.tach.name + " moved to " + std::to_string(*move);
                }
                in([this, zp, m, &f, move] {
                    sim::setProp(kFanCtrl, zp, "xyz.openbmc_project.Control.Mode", "Manual", mk(m));
                    if (move && manual(zp))
                        outside(f, *move);
                });
                if (m && s.b(50))
                {
                    int64_t b = t + s.i(0, 2500) * MS;
                    bool refuse = s.b(50);
                    text += ", back at " + std::to_string(b / MS) + " ms" + (refuse ? " taking no commands" : "");
                    if (refuse && !f.file)
                        in([this, &f] { refused.insert(f.pwm); });
                    sim.bus(b, [zp] {
                        sim::setProp(kFanCtrl, zp, "xyz.openbmc_project.Control.Mode", "Manual", mk(false));
                    });
                }
                return text;
            }
            case 4: // what has no effect
            {
                size_t how = s.draw(6);
                in([this, how, zp, &x] {
                    if (how == 0)
                        sim::setProp(kFanCtrl, zp, "xyz.openbmc_project.Control.Mode", "Manual", mk(std::string("yes")));
                    else if (how == 1)
                        sim::setProp(kFanCtrl, zp, "xyz.openbmc_project.Control.Mode", "FailSafe", mk(true));
                    else if (how == 2)
                        sim::getProp(kFanCtrl, zp, "xyz.openbmc_project.Control.Mode", "FailSafe");
                    else if (how == 3)
                    { // said, not kept: it would count when the sensor is built again
                        auto m = sim::mkPropsChanged("xyz.openbmc_project.Sensors", x.path, bw::VALUE, {{"MaxValue", mk(100.0)}});
                        sim::fabric().emit(m);
                    }
                    else if (how == 4)
                    {
                        auto m = sim::mkPropsChanged("xyz.openbmc_project.Sensors", x.path, "xyz.openbmc_project.Association.Definitions", {});
                        sim::fabric().emit(m);
                    }
                    else
                    {
                        auto m = sim::mkPropsChanged("xyz.openbmc_project.State.Host0", "/xyz/openbmc_project/state/host0",
                                                     "xyz.openbmc_project.State.Host",
                                                     {{"CurrentHostState", mk(std::string("xyz.openbmc_project.State.Host.HostState.Off"))}});
                        sim::fabric().emit(m);
                    }
                });
                return "irrelevant " + std::to_string(how);
            }
            case 5: // controllers put out of action
                in([zp, on = s.b(30)] {
                    for (auto& [p, o] : sim::fabric().objects)
                        if (p.starts_with(zp + "/") && o.count("xyz.openbmc_project.Object.Enable"))
                            sim::setProp(kFanCtrl, p, "xyz.openbmc_project.Object.Enable", "Enabled", mk(on));
                });
                return "zone " + std::to_string(z.id) + "'s controllers disabled";
            default: // the bus
            {
                auto m = s.pick(std::vector<std::string>{"GetAll", "Get", "Set", "GetObject"});
                if (findable && m == "GetObject")
                    m = "Get";
                in([this, m] { silenced.insert(m); });
                return m + " is not answered";
            }
        }
    }
    void survived(const Run& r)
    {
        std::map<std::string, std::string> last;
        for (auto& l : r.trace)
            if (l.kind != "set" || last[l.what] != l.value)
            {
                c.note("  ", l.t / 1e9, " ", l.kind, " ", l.what, " ", l.value);
                if (l.kind == "set")
                    last[l.what] = l.value;
            }
        auto tail = r.log.size() > 3000 ? r.log.substr(r.log.size() - 3000) : r.log;
        pbt::require(!r.hung, "the daemon hangs at ", shared()->now / 1e9, " s: ", tail);
        pbt::require(r.sig == 0 && r.exit != 77 && r.exit != 78, "the daemon crashed at ", r.ended / 1e9, " s: ", tail);
        pbt::require(r.exit < 97 || r.exit > 99, "the daemon spins or could not run: ", tail);
        pbt::require(r.running, "the daemon ended with ", r.exit, " at ", r.ended / 1e9, " s: ", tail);
    }
};
} // namespace lr
