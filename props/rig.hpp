// The control system in one process: the real sensor and zone builders, the
// real zones and the real control loop on a virtual clock, beside a fake
// system they control, and a reference model of what they should do.
#pragma once
#include "passive.hpp"
#include "unit.hpp"

#include "failsafeloggers/builder.hpp"
#include "failsafeloggers/failsafe_logger_utility.hpp"
#include "hoststatemonitor.hpp"
#include "pid/builder.hpp"
#include "pid/pidloop.hpp"
#include "pid/tuning.hpp"
#include "sensors/builder.hpp"
#include "sensors/manager.hpp"

#include <boost/asio/io_context.hpp>
#include <boost/asio/steady_timer.hpp>
#include <sdbusplus/asio/connection.hpp>

#include <cstdio>
#include <filesystem>
#include <fstream>
#include <memory>
#include <optional>
#include <unistd.h>

// main.cpp's, which is not part of the rig
namespace pid_control
{
int gRestarts = 0;
__attribute__((weak)) void tryRestartControlLoops(bool)
{
    ++gRestarts;
}
} // namespace pid_control

namespace rig
{
using namespace pid_control;
using bw::mk;
using bw::Msg;
using bw::Reply;
using bw::Val;
using ps::Inf;
using ps::NaN;
using ps::T0;
inline const int64_t MS = 1000000, SEC = 1000000000;
inline const std::string MODE = "xyz.openbmc_project.Control.Mode";
inline const std::string DBGZONE = "xyz.openbmc_project.Debug.Pid.Zone";
inline const std::string DBGPROC = "xyz.openbmc_project.Debug.Pid.ThermalPower";
inline const std::string ENABLE = "xyz.openbmc_project.Object.Enable";
inline const std::string FANCTRL = "xyz.openbmc_project.State.FanCtrl";
inline const std::string HWMONEXT = "xyz.openbmc_project.Hwmon.external";
inline const std::string HOSTIF = "xyz.openbmc_project.State.Host";
inline const std::string SVC = "xyz.openbmc_project.Hwmon-77.Hwmon1";

// ------------------------------------------------------------- description
struct SensorSpec
{
    enum Kind
    {
        bus,
        sysfs,
        ext,
        none // write-only
    } kind = bus;
    conf::SensorConfig info{};
    double start = 0;      // first value
    bool missing = false;  // no such object on the bus at the start
    bool startBad = false; // its first value is not a number
    bool functionalAtStart = true;
    bool byAlarm = true; // if it is not: how that shows
    // fans
    bool sysfsOut = false;
    std::string readPath, writePath; // as the fake system knows them
};
struct Group // a redundancy group of fans
{
    std::vector<std::string> fans;
    bool failed = false;
};
struct Conf
{
    std::map<std::string, Group> groups;
    std::map<std::string, SensorSpec> sensors;
    std::map<int64_t, conf::PIDConf> pids;
    std::map<int64_t, conf::ZoneConfig> zones;
};

struct Event
{
    enum Kind
    {
        value,      // a reading is published (bus, external) or changes (sysfs)
        functional, // operational status
        avail,
        crit,     // critical alarm high
        gone,     // sysfs file disappears / comes back
        manual,   // manual mode property written
        enabled,  // a controller is enabled or disabled
        host,     // host power
        fanWrite, // somebody else drives a fan
        file,     // a file is written (tuning)
        other,    // reads of properties by others
        group     // status of a redundancy group
    } kind = value;
    int64_t t = 0;
    std::string who; // sensor, controller, fan or file
    int64_t zone = 0;
    double v = 0;
    bool on = false;
    std::string text;
    std::string show() const
    {
        std::ostringstream o;
        static const char* n[] = {"value", "functional", "available", "critical", "file-gone", "manual", "enabled", "host", "fan-write",
                                  "file", "look", "group failed"};
        o << "+" << (t - T0) / 1e6 << "ms " << n[kind] << " " << who;
        if (kind == manual || kind == enabled)
            o << " zone " << zone;
        if (kind == value || kind == fanWrite)
            o << " = " << v;
        else if (kind == file)
            o << " = '" << text << "'";
        else
            o << " " << (on ? "on" : "off");
        return o.str();
    }
};

// ---------------------------------------------------------------- observed
struct Sent
{
    int64_t t;
    std::string fan;
    uint64_t raw;
    bool ok;
};

struct Env // things that outlive one case: the code keeps references to them
{
    boost::asio::io_context io;
    sdbusplus::asio::connection mode{io};
    sdbusplus::asio::connection hostBus{io, sdbusplus::bus::new_bus()};
    sdbusplus::asio::connection passive{io, sdbusplus::bus::new_bus()};
    sdbusplus::asio::connection hostMatch{io, sdbusplus::bus::new_bus()};
    bool monitor = false;
};
inline Env& env()
{
    static Env* e = new Env;
    return *e;
}

struct Rig
{
    Conf conf;
    bw::World w;
    std::map<std::string, conf::SensorConfig> sensorConfig;
    std::optional<SensorManager> mgr;
    std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> zones;
    std::vector<std::shared_ptr<boost::asio::steady_timer>> timers;
    bool canceling = false;
    std::vector<Sent> sent;
    std::map<std::string, std::string> fanOfPath;
    std::function<bool(const std::string& fan)> writeFails; // on the bus
    std::function<int64_t()> delay;                         // per fan write
    std::string dir;                                        // scratch
    bool ticked = false;
    bool hostOn = false;

    explicit Rig(const Conf& c) : conf(c)
    {
        sim::fabric().reset();
        vclock::set(T0);
        tuningEnabled = loggingEnabled = debugEnabled = coreLoggingEnabled = false;
        loggingPath.clear();
        sim::fabric().ownedNames = {FANCTRL, HWMONEXT};
        w.install();
        w.fault = [this](Msg& m) { return observe(m); };
        dir = pbt::scratch() + "/rig/sys";
        std::error_code ec;
        std::filesystem::remove_all(dir, ec);
        std::filesystem::create_directories(dir);
        for (auto& [name, sp] : conf.sensors)
            populate(name, sp);
        w.unique[":1.20"] = "xyz.openbmc_project.FanRedundancy";
        for (auto& [name, g] : conf.groups)
            publish(name, g.failed);
        if (!env().monitor)
        {
            env().monitor = true;
            w.add(HOST_STATE_PATH, "xyz.openbmc_project.State.Host0");
            HostStateMonitor::getInstance(env().hostMatch).startMonitoring();
        }
        setHost(false);
    }
    ~Rig()
    {
        teardown();
        mgr.reset();
        zoneIdToFailsafeLogger.clear();
        sensorNameToZoneId.clear();
        sim::fabric().reset();
        vclock::release();
        tuningEnabled = loggingEnabled = debugEnabled = coreLoggingEnabled = false;
        loggingPath.clear();
    }
    void teardown()
    {
        for (auto& t : timers)
            t->cancel();
        canceling = true;
        timers.clear();
        poll();
        zones.clear();
        canceling = false;
    }
    void populate(const std::string& name, SensorSpec& sp)
    {
        auto info = sp.info;
        if (sp.kind == SensorSpec::bus)
        {
            sp.readPath = "/xyz/openbmc_project/sensors/" + ps::layer(info.type) + "/" + name;
            info.readPath = sp.readPath;
            if (!sp.missing)
            {
                auto& o = w.add(sp.readPath, SVC);
                o.ifaces[bw::VALUE]["Value"] = mk(sp.startBad ? NaN : sp.start);
                if (!sp.functionalAtStart && sp.byAlarm)
                    o.ifaces[bw::CRIT]["CriticalAlarmHigh"] = mk(true);
                else if (!sp.functionalAtStart)
                    o.ifaces[bw::OPSTAT]["Functional"] = mk(false);
            }
        }
        else if (sp.kind == SensorSpec::sysfs)
        {
            sp.readPath = dir + "/in_" + name;
            info.readPath = sp.readPath;
            if (!sp.missing)
                put(sp.readPath, std::to_string(static_cast<int64_t>(sp.start)));
        }
        else if (sp.kind == SensorSpec::none)
            sp.readPath = info.readPath; // as chosen: empty or "None"
        else
        {
            sp.readPath = "/xyz/openbmc_project/extsensors/" + ps::layer(info.type) + "/" + name;
            info.readPath = sp.readPath;
        }
        if (info.type == "fan")
        {
            if (sp.sysfsOut)
            {
                sp.writePath = dir + "/pwm_" + name;
                put(sp.writePath, "");
            }
            else
            {
                sp.writePath = "/xyz/openbmc_project/control/fanpwm/" + name;
                w.add(sp.writePath, SVC).ifaces[bw::FANPWM]["Target"] = mk(uint64_t(0));
            }
            info.writePath = sp.writePath;
            fanOfPath[sp.writePath] = name;
        }
        sensorConfig[name] = info;
    }
    static std::string gpath(const std::string& group)
    {
        return "/xyz/openbmc_project/control/FanRedundancy/" + group;
    }
    Val publish(const std::string& group, bool bad)
    {
        auto st = mk(bw::FANRED + (bad ? ".State.Failed" : ".State.Full"));
        auto& o = w.objs.count(gpath(group)) ? w.objs[gpath(group)] : w.add(gpath(group), "xyz.openbmc_project.FanRedundancy");
        std::vector<std::string> paths;
        for (auto& f : conf.groups.at(group).fans)
            paths.push_back("/xyz/openbmc_project/sensors/" + ps::layer("fan") + "/" + f);
        o.ifaces[bw::FANRED]["Collection"] = mk(paths);
        o.ifaces[bw::FANRED]["Status"] = st;
        return st;
    }
    static void put(const std::string& path, const std::string& text)
    {
        if (FILE* f = std::fopen(path.c_str(), "w"))
        {
            std::fwrite(text.data(), 1, text.size(), f);
            std::fclose(f);
        }
    }
    std::optional<Reply> observe(Msg& m)
    {
        if (m.iface == bw::PROPS && m.member == "Set" && m.body.size() == 3 && m.body[0].s == bw::FANPWM)
        {
            auto f = fanOfPath.find(m.path);
            if (f == fanOfPath.end())
                return std::nullopt;
            bool fail = writeFails && writeFails(f->second);
            const Val& v = m.body[2].sig == "v" ? m.body[2].kids.at(0) : m.body[2];
            sent.push_back({vclock::now(), f->second, v.sig == "t" ? v.u : static_cast<uint64_t>(v.i), !fail});
            if (delay)
                vclock::advance(delay());
            if (fail)
                return sim::fail("org.freedesktop.DBus.Error.NoReply");
        }
        return std::nullopt;
    }
    void build()
    {
        mgr.emplace(buildSensors(sensorConfig, env().passive, env().hostBus));
        zones = buildZones(conf.pids, conf.zones, *mgr, env().mode);
        buildFailsafeLoggers(zones, 20);
    }
    void start()
    {
        for (auto& [id, z] : zones)
        {
            auto t = timers.emplace_back(std::make_shared<boost::asio::steady_timer>(env().io));
            pidControlLoop(z, t, &canceling);
        }
    }
    void poll()
    {
        env().io.restart();
        env().io.poll();
    }
    void setHost(bool on)
    {
        hostOn = on;
        auto m = sim::mkPropsChanged("xyz.openbmc_project.State.Host0", HOST_STATE_PATH, HOSTIF,
                                     {{"CurrentHostState", mk(HOSTIF + ".HostState." + (on ? "Running" : "Off"))}});
        sim::fabric().emit(m);
    }
    void changed(const std::string& path, const std::string& iface, const std::string& prop, const Val& v)
    {
        auto it = w.objs.find(path);
        if (it != w.objs.end())
            it->second.ifaces[iface][prop] = v;
        auto m = sim::mkPropsChanged(":1.7", path, iface, {{prop, v}});
        sim::fabric().emit(m);
    }
    std::string zpath(int64_t z) const
    {
        return "/xyz/openbmc_project/settings/fanctrl/zone" + std::to_string(z);
    }
    bool setZone(int64_t z, const std::string& prop, bool v)
    {
        return sim::setProp(FANCTRL, zpath(z), MODE, prop, mk(v)).ok;
    }
    bool zoneFlag(int64_t z, const std::string& prop)
    {
        auto v = sim::getProp(FANCTRL, zpath(z), MODE, prop);
        pbt::require(v.has_value() && v->sig == "b", "zone ", z, " has no property ", prop, " on the bus");
        return v->u != 0;
    }
    std::string leader(int64_t z)
    {
        auto v = sim::getProp(FANCTRL, zpath(z), DBGZONE, "Leader");
        pbt::require(v.has_value(), "zone ", z, " has no leader property on the bus");
        return v->s;
    }
    std::optional<Val> proc(int64_t z, const std::string& name, const std::string& iface, const std::string& prop)
    {
        return sim::getProp(FANCTRL, zpath(z) + "/" + name, iface, prop);
    }
    uint64_t fanTarget(const std::string& fan)
    {
        return w.objs.at(conf.sensors.at(fan).writePath).ifaces[bw::FANPWM]["Target"].u;
    }
    double at(const std::string& fan) // what the fan is told now
    {
        auto& sp = conf.sensors.at(fan);
        if (!sp.sysfsOut)
            return static_cast<double>(fanTarget(fan));
        std::ifstream f(sp.writePath);
        int64_t v = -1;
        f >> v;
        return static_cast<double>(v);
    }
    // Does to the real system what the event says.
    void apply(const Event& e)
    {
        switch (e.kind)
        {
            case Event::value:
            {
                auto& sp = conf.sensors.at(e.who);
                if (sp.kind == SensorSpec::bus)
                    changed(sp.readPath, bw::VALUE, "Value", mk(e.v));
                else if (sp.kind == SensorSpec::sysfs)
                    put(sp.readPath, std::to_string(static_cast<int64_t>(e.v)) + "\n");
                else
                    pbt::require(sim::setProp(HWMONEXT, sp.readPath, bw::VALUE, "Value", mk(e.v)).ok, "the external sensor ", e.who,
                                 " does not take a value");
                break;
            }
            case Event::functional:
                changed(conf.sensors.at(e.who).readPath, bw::OPSTAT, "Functional", mk(e.on));
                break;
            case Event::avail:
                changed(conf.sensors.at(e.who).readPath, bw::AVAIL, "Available", mk(e.on));
                break;
            case Event::crit:
                changed(conf.sensors.at(e.who).readPath, bw::CRIT, "CriticalAlarmHigh", mk(e.on));
                break;
            case Event::gone:
            {
                auto& sp = conf.sensors.at(e.who);
                if (e.on)
                    ::unlink(sp.readPath.c_str());
                else
                    put(sp.readPath, std::to_string(static_cast<int64_t>(e.v)));
                break;
            }
            case Event::manual:
                pbt::require(setZone(e.zone, "Manual", e.on), "zone ", e.zone, " does not take manual mode");
                break;
            case Event::enabled:
                pbt::require(sim::setProp(FANCTRL, zpath(e.zone) + "/" + e.who, ENABLE, "Enabled", mk(e.on)).ok, "controller ", e.who,
                             " cannot be enabled or disabled");
                break;
            case Event::host:
                setHost(e.on);
                break;
            case Event::fanWrite:
                if (conf.sensors.at(e.who).sysfsOut)
                    put(conf.sensors.at(e.who).writePath, std::to_string(static_cast<int64_t>(e.v)));
                else
                    w.objs.at(conf.sensors.at(e.who).writePath).ifaces[bw::FANPWM]["Target"] = mk(static_cast<uint64_t>(e.v));
                break;
            case Event::file:
                if (e.on)
                    put(e.who, e.text);
                else
                    ::unlink(e.who.c_str());
                break;
            case Event::group:
            {
                auto st = publish(e.who, e.on);
                auto m = sim::mkPropsChanged(":1.20", gpath(e.who), bw::FANRED, {{"Status", st}});
                sim::fabric().emit(m);
                break;
            }
            case Event::other:
                for (auto& [z, _] : conf.zones)
                {
                    zoneFlag(z, "FailSafe");
                    leader(z);
                }
        }
    }
};

// ------------------------------------------------------------------- model
struct MSensor
{
    SensorSpec sp;
    ps::Model m;       // bus
    double value = 0;  // external, sysfs
    int64_t updated = 0;
    bool present = true; // sysfs file

    struct R
    {
        double scaled, unscaled;
        int64_t updated;
    };
    R read(int64_t now) const
    {
        if (sp.kind == SensorSpec::bus)
            return {m.value, m.unscaled, m.updated};
        if (sp.kind == SensorSpec::ext)
            return {value, value, updated};
        if (sp.kind == SensorSpec::none)
            return {NaN, NaN, now};
        if (!present)
            return {NaN, NaN, updated};
        return {value, value, now};
    }
    bool failed(bool hostOn) const
    {
        bool f = sp.kind == SensorSpec::bus   ? m.failed()
                 : sp.kind == SensorSpec::ext ? !std::isfinite(value)
                                              : !present;
        return f && !(sp.info.ignoreFailIfHostOff && !hostOn);
    }
};
struct MThermal
{
    std::string name;
    conf::ControllerInfo info;
    bool enabled = true;
    u::RefCtl pid;
    double lastIn = NaN, lastOut = NaN;
    // as published
    double input = NaN, output = NaN;
    std::set<std::string> leaders;
    bool published = false;
    double request = 0;
    bool ceiling() const
    {
        return info.type == "stepwise" && info.stepwiseInfo.isCeiling;
    }
};
struct MFan
{
    std::string name;
    conf::ControllerInfo info;
    u::RefCtl pid;
};
struct Cmd
{
    std::string fan;
    double pct;
    bool forced;
};
struct MZone
{
    int64_t id = 0;
    conf::ZoneConfig zc;
    std::vector<MThermal> thermals;
    std::vector<MFan> fans;
    std::vector<std::string> fanInputs, thermalInputs;
    std::set<std::string> acceptable;
    std::map<std::string, double> sensorPct;
    std::map<std::string, u::ValueCacheEntry> cache, outs;
    std::map<std::string, double> failed; // sensor -> level
    double setpoint = 0;
    std::set<std::string> leader; // names that may be reported
    bool manual = false, forced = false;
    uint64_t cnt = 0;
    int64_t next = 0;
    uint64_t ticks = 0, passes = 0, thermalPasses = 0;
    std::function<void(double&)> override_; // tuning
    bool tuning = false;
    std::vector<double> rowFan; // cached values of the row just logged
    struct Row
    {
        int64_t t;
        double setpt;
        std::set<std::string> leader;
        std::vector<double> cells;
        bool failsafe;
    };
    std::vector<Row> rows;

    double level() const
    {
        double best = 0;
        for (auto& [_, l] : failed)
            best = std::max(best, l);
        return failed.empty() || best == 0 ? zc.failsafePercent : best;
    }
    double levelOf(const std::string& n) const
    {
        auto it = sensorPct.find(n);
        return it == sensorPct.end() || it->second == 0 ? zc.failsafePercent : it->second;
    }
};

struct Model
{
    std::map<std::string, MSensor> sensors;
    std::map<int64_t, MZone> zones;
    bool hostOn = false;
    std::map<std::string, Group> groups;

    void redundancy()
    {
        for (auto& [n, s] : sensors)
            s.m.redundant = false;
        for (auto& [_, g] : groups)
            for (auto& f : g.fans)
                if (g.failed && sensors.count(f) && sensors[f].sp.kind == SensorSpec::bus)
                    sensors[f].m.redundant = true;
    }
    explicit Model(const Rig& r) : groups(r.conf.groups)
    {
        for (auto& [n, sp] : r.conf.sensors)
        {
            auto& s = sensors[n];
            s.sp = sp;
            s.updated = T0;
            if (sp.kind == SensorSpec::bus)
            {
                s.m.type = sp.info.type;
                s.m.path = sp.readPath;
                s.m.unavailableAsFailed = sp.info.unavailableAsFailed;
                s.m.missing = sp.missing;
                s.m.available = !sp.missing;
                s.m.ch = !sp.functionalAtStart && sp.byAlarm && !sp.missing;
                s.m.functional = sp.functionalAtStart || sp.byAlarm || sp.missing;
                s.m.publish(sp.missing || sp.startBad ? NaN : sp.start, true);
                s.m.updated = T0;
            }
            else if (sp.kind == SensorSpec::sysfs)
            {
                s.value = static_cast<double>(static_cast<int64_t>(sp.start));
                s.present = !sp.missing;
                if (sp.missing)
                    s.updated = 0;
            }
        }
        redundancy();
        for (auto& [id, pc] : r.conf.pids)
        {
            auto& z = zones[id];
            z.id = id;
            z.zc = r.conf.zones.at(id);
            for (auto& [name, info] : pc)
            {
                for (auto& in : info.inputs)
                {
                    auto& list = info.type == "fan" ? z.fanInputs : z.thermalInputs;
                    if (info.type == "fan" || std::find(list.begin(), list.end(), in.name) == list.end())
                        list.push_back(in.name);
                    if (in.missingIsAcceptable)
                        z.acceptable.insert(in.name);
                    auto p = z.sensorPct.try_emplace(in.name, info.failSafePercent);
                    p.first->second = std::max(p.first->second, info.failSafePercent);
                }
                if (info.type == "fan")
                {
                    z.fans.push_back({name, info, {}});
                    z.fans.back().pid.p.c = info.pidInfo;
                }
                else
                {
                    MThermal t;
                    t.name = name;
                    t.info = info;
                    t.pid.p.c = info.pidInfo;
                    z.thermals.push_back(t);
                }
            }
        }
    }
    void check(MZone& z, const std::vector<std::string>& names, int64_t now)
    {
        for (auto& n : names)
        {
            auto& s = sensors.at(n);
            auto r = s.read(now);
            if (s.sp.kind == SensorSpec::sysfs && s.present)
                s.updated = now;
            z.cache[n] = {r.scaled, r.unscaled};
            int64_t age = (now - r.updated) / SEC;
            bool bad = s.failed(hostOn) || (s.sp.info.timeout != 0 && age >= s.sp.info.timeout);
            if (!bad)
                z.failed.erase(n);
            else if (!z.acceptable.count(n))
                z.failed[n] = z.levelOf(n);
        }
    }
    static double lookup(const ec::StepwiseInfo& si, double v)
    {
        double out = si.output[0];
        for (size_t k = 0; k < ec::maxStepwisePoints && !std::isnan(si.reading[k]); ++k)
            if (si.reading[k] <= v)
                out = si.output[k];
        return out;
    }
    void runThermal(MZone& z, MThermal& t)
    {
        if (t.info.type == "stepwise")
        {
            double in = std::numeric_limits<double>::lowest();
            for (auto& i : t.info.inputs)
            {
                double v = z.cache.at(i.name).scaled;
                if (v > in)
                    in = v;
            }
            auto& si = t.info.stepwiseInfo;
            if (std::isnan(t.lastOut) || in - t.lastIn > si.positiveHysteresis || t.lastIn - in > si.negativeHysteresis)
            {
                t.lastOut = lookup(si, in);
                t.lastIn = in;
            }
            t.request = t.lastOut;
            return;
        }
        bool any = false;
        double v = 0;
        t.leaders.clear();
        for (auto& i : t.info.inputs)
        {
            double x = z.cache.at(i.name).scaled;
            if (!std::isfinite(x))
                continue;
            if (t.info.type == "margin" && i.convertTempToMargin)
                x = i.convertMarginZero - x;
            if (t.info.type == "powersum")
            {
                v += x;
                t.leaders.insert(i.name);
            }
            else if (!any || (t.info.type == "margin" ? x < v : x > v))
            {
                v = x;
                t.leaders = {i.name};
            }
            else if (x == v)
                t.leaders.insert(i.name);
            any = true;
        }
        if (!any)
            v = t.info.setpoint;
        else
        {
            t.input = v;
            t.published = true;
        }
        t.request = t.pid.step(v, t.info.setpoint);
        t.output = t.request;
    }
    void thermalPass(MZone& z, int64_t now)
    {
        ++z.thermalPasses;
        check(z, z.thermalInputs, now);
        std::map<std::string, double> req;
        double ceil = Inf;
        for (auto& t : z.thermals)
        {
            runThermal(z, t);
            if (t.ceiling())
            {
                ceil = std::min(ceil, t.request);
                continue;
            }
            if (!t.enabled)
                continue;
            if (z.zc.accumulateSetPoint)
                req[profile(t.name)] += t.request;
            else
                req[t.name] = t.request;
        }
        double best = 0;
        z.leader.clear();
        for (auto& [n, v] : req)
            best = std::max(best, v);
        for (auto& [n, v] : req)
            if (v == best)
            {
                if (!z.zc.accumulateSetPoint)
                    z.leader.insert(n);
                else
                    z.leader.insert(joined(z, n));
            }
        if (ceil <= best)
        {
            if (ceil < best)
                z.leader.clear();
            best = ceil;
            z.leader.insert("Ceiling");
        }
        if (z.zc.minThermalOutput >= best)
        {
            if (z.zc.minThermalOutput > best)
                z.leader.clear();
            best = z.zc.minThermalOutput;
            z.leader.insert("Minimum");
        }
        if (z.override_)
            z.override_(best);
        z.setpoint = best;
    }
    static std::string profile(const std::string& n)
    {
        auto p = n.find('_');
        return p == std::string::npos ? n : n.substr(p + 1);
    }
    static std::string joined(const MZone& z, const std::string& prof)
    {
        std::string o;
        for (auto& t : z.thermals)
            if (profile(t.name) == prof)
                o += (o.empty() ? "" : " + ") + t.name;
        return o;
    }
    void start(int64_t now)
    {
        for (auto& [_, z] : zones)
            startZone(z, now);
    }
    void startZone(MZone& z, int64_t now)
    {
        for (auto* l : {&z.fanInputs, &z.thermalInputs})
            for (auto& n : *l)
            {
                z.cache[n] = {NaN, NaN};
                if (l == &z.fanInputs)
                    z.outs[n] = {NaN, NaN};
                if (!z.acceptable.count(n))
                    z.failed[n] = z.levelOf(n);
            }
        thermalPass(z, now);
        z.next = now + static_cast<int64_t>(z.zc.cycleTime.cycleIntervalTimeMS) * MS;
    }
    // One tick of the zone's timer; the commands it must have sent.
    std::vector<Cmd> tick(MZone& z, int64_t now)
    {
        ++z.ticks;
        z.next += static_cast<int64_t>(z.zc.cycleTime.cycleIntervalTimeMS) * MS;
        if (z.manual)
            return {};
        ++z.passes;
        MZone::Row row{now, z.setpoint, z.leader, {}, false};
        auto outsBefore = z.outs;
        check(z, z.fanInputs, now);
        for (auto& n : z.fanInputs)
        {
            row.cells.push_back(z.cache[n].scaled);
            row.cells.push_back(z.cache[n].unscaled);
            row.cells.push_back(outsBefore[n].scaled);
            row.cells.push_back(outsBefore[n].unscaled);
        }
        for (auto& n : z.thermalInputs)
        {
            row.cells.push_back(z.cache[n].scaled);
            row.cells.push_back(z.cache[n].unscaled);
        }
        uint64_t th = z.zc.cycleTime.updateThermalsTimeMS;
        if (z.cnt >= th)
        {
            z.cnt -= th;
            thermalPass(z, now);
        }
        std::vector<Cmd> out;
        for (auto& f : z.fans)
        {
            double low = 0;
            bool any = false;
            for (auto& in : f.info.inputs)
            {
                double v = z.cache.at(in.name).unscaled; // fans work on the raw reading
                if (!std::isfinite(v) || v <= 0)
                    continue;
                low = any ? std::min(low, v) : v;
                any = true;
            }
            double pct = f.pid.step(low, z.setpoint);
            if (!z.failed.empty() && !z.tuning)
                pct = STRICT_FAILSAFE_PWM ? z.level() : std::max(pct, z.level());
            for (auto& in : f.info.inputs)
            {
                out.push_back({in.name, pct, z.forced});
                auto& sc = sensors.at(in.name).sp.info;
                z.outs[in.name] = {pct / 100.0, static_cast<double>(static_cast<int64_t>(
                                                    sc.max > 0 ? sc.min + (sc.max - sc.min) * (pct / 100.0) : pct / 100.0))};
            }
        }
        z.forced = false;
        row.failsafe = !z.failed.empty();
        z.rows.push_back(row);
        z.cnt += z.zc.cycleTime.cycleIntervalTimeMS;
        return out;
    }
    void apply(const Event& e)
    {
        switch (e.kind)
        {
            case Event::value:
            {
                auto& s = sensors.at(e.who);
                if (s.sp.kind == SensorSpec::bus)
                    s.m.publish(e.v);
                else
                {
                    s.value = s.sp.kind == SensorSpec::ext ? e.v : static_cast<double>(static_cast<int64_t>(e.v));
                    s.present = true;
                    if (s.sp.kind == SensorSpec::ext)
                        s.updated = e.t;
                }
                break;
            }
            case Event::functional:
                sensors.at(e.who).m.functional = e.on;
                break;
            case Event::avail:
            {
                auto& m = sensors.at(e.who).m;
                m.available = e.on;
                if (!e.on)
                    m.publish(NaN, true);
                break;
            }
            case Event::crit:
                sensors.at(e.who).m.ch = e.on;
                break;
            case Event::gone:
            {
                auto& s = sensors.at(e.who);
                s.present = !e.on;
                if (!e.on)
                    s.value = static_cast<double>(static_cast<int64_t>(e.v));
                break;
            }
            case Event::manual:
            {
                auto& z = zones.at(e.zone);
                if (!e.on && z.manual)
                    z.forced = true;
                z.manual = e.on;
                break;
            }
            case Event::enabled:
                for (auto& t : zones.at(e.zone).thermals)
                    if (t.name == e.who)
                        t.enabled = e.on;
                break;
            case Event::host:
                hostOn = e.on;
                break;
            case Event::group:
                groups.at(e.who).failed = e.on;
                redundancy();
                break;
            default:
                break;
        }
    }
};

// The value the fan ends up with for a percentage.
inline double rawOf(const conf::SensorConfig& sc, double pct)
{
    double v = pct / 100.0;
    return sc.max > 0 ? sc.min + (sc.max - sc.min) * v : v;
}
inline bool rawClose(double want, double got)
{
    return std::fabs(want - got) <= 2 + std::fabs(want) * 1e-12;
}

// ------------------------------------------------------------ drive & judge
struct Drive
{
    Rig& r;
    Model& m;
    std::vector<Event> events; // sorted by time
    size_t ei = 0;
    // Judges one zone's tick: commands expected, commands sent.
    std::function<void(MZone&, const std::vector<Cmd>&, const std::vector<Sent>&)> onTick;
    std::function<void(const Event&)> onEvent; // after it was applied
    std::map<std::string, std::string> zoneOfFan_;
    std::map<std::string, int64_t> zoneOf;

    Drive(Rig& r, Model& m) : r(r), m(m)
    {
        for (auto& [id, z] : m.zones)
            for (auto& f : z.fanInputs)
                zoneOf[f] = id;
    }
    void idle(int64_t t) // nothing may happen up to t
    {
        vclock::set(t);
        r.poll();
        if (!r.sent.empty())
            pbt::failf("at +", (t - T0) / 1e6, " ms, between passes, ", r.sent[0].fan, " was commanded ", r.sent[0].raw);
    }
    void run(int64_t until)
    {
        while (true)
        {
            int64_t tick = std::numeric_limits<int64_t>::max();
            for (auto& [_, z] : m.zones)
                tick = std::min(tick, z.next);
            int64_t ev = ei < events.size() ? events[ei].t : std::numeric_limits<int64_t>::max();
            int64_t t = std::min(tick, ev);
            if (t > until)
                return;
            if (t > vclock::now())
                idle(t - 1);
            vclock::set(std::max(t, vclock::now()));
            if (ev <= tick)
            {
                r.apply(events[ei]);
                m.apply(events[ei]);
                r.poll();
                pbt::require(r.sent.empty(), "an event (", events[ei].show(), ") made a fan command outside of a pass");
                if (onEvent)
                    onEvent(events[ei]);
                ++ei;
                continue;
            }
            r.poll();
            std::map<int64_t, std::vector<Sent>> by;
            for (auto& x : r.sent)
                by[zoneOf.at(x.fan)].push_back(x);
            r.sent.clear();
            for (auto& [id, z] : m.zones)
            {
                if (z.next == t)
                {
                    auto cmds = m.tick(z, t);
                    onTick(z, cmds, by[id]);
                }
                else
                    pbt::require(by[id].empty(), "zone ", id, " commanded its fans at +", (t - T0) / 1e6,
                                 " ms, its next pass is at +", (z.next - T0) / 1e6, " ms");
            }
        }
    }
    // Every fan ended the pass with the command expected for it.
    void judgeWrites(MZone& z, const std::vector<Cmd>& cmds, const std::vector<Sent>& got)
    {
        std::map<std::string, int> n;
        for (auto& g : got)
            ++n[g.fan];
        for (auto& cmd : cmds)
        {
            auto& sp = r.conf.sensors.at(cmd.fan);
            double want = rawOf(sp.info, cmd.pct);
            std::string when = "zone " + std::to_string(z.id) + " pass at +" + std::to_string((vclock::now() - T0) / MS) + " ms: " + cmd.fan;
            double have = r.at(cmd.fan);
            if (!sp.sysfsOut)
            {
                pbt::require(n[cmd.fan] <= 1, when, " was commanded ", n[cmd.fan], " times in one pass");
                if (cmd.forced)
                    pbt::require(n[cmd.fan] == 1, when, " was not sent its command on return to automatic mode");
            }
            if (!rawClose(std::trunc(want), have))
                pbt::failf(when, " is at ", have, " but ", want, " (", cmd.pct, " %, set point ", z.setpoint,
                           z.failed.empty() ? "" : ", failsafe", ") was due");
            n.erase(cmd.fan);
        }
        for (auto& [f, k] : n)
            pbt::require(k == 0, "zone ", z.id, " commanded ", f, " although no command was due");
    }
};

// ---------------------------------------------------------------- generate
struct Opt
{
    int zonesMin = 1, zonesMax = 1, thermalsMax = 3, fansMax = 2;
    int sharePct = 25; // a sensor is one used before
    bool pidThermals = false; // else stepwise only
    bool acc = false;
    int ceilingPct = 0;
    bool timeouts = false;
    bool ext = false, sysfs = false;
    bool hostOpt = false, acceptable = false, unavail = false;
    bool startFaults = false;
    bool levels = false;
    double reqLo = 0, reqHi = 100;
    bool fanP = false; // fan commands depend on the fan's reading
    bool minimum = false;
    bool fastThermal = true;
    bool sharedSensors = true;
    bool odd = false; // unusual intervals
    int writeOnlyPct = 0;
    bool sysfsOut = false;
    bool fanFaults = false;
};

// Mostly ordinary readings, some at the edges and beyond.
inline double anyReading(pbt::Src& s, bool fan)
{
    if (s.b(92))
        return fan ? s.q(800, 9000, 1) : s.q(1, 90, 1);
    if (fan)
        return s.pick(std::vector<double>{0, 1, 255, 25000, 65535, 4000.5, -1});
    switch (s.draw(4))
    {
        case 0:
            return s.q(-60, 0, 2);
        case 1:
            return s.q(90, 700, 4);
        case 2:
            return s.q(1, 90, 256);
        default:
            return s.pick(std::vector<double>{0, 0.5, 127, 128, 255, 256, 65536, 1e9, -1e9});
    }
}
// Mostly short histories, some long ones.
inline int64_t anySpan(pbt::Src& s, int64_t lo, int64_t hi)
{
    return s.b(98) ? s.i(lo, hi) : s.i(hi, 12 * hi);
}

inline void genStepwise(pbt::Src& s, ec::StepwiseInfo& si, const Opt& o)
{
    for (size_t k = 0; k < ec::maxStepwisePoints; ++k)
        si.reading[k] = si.output[k] = NaN;
    bool wide = s.b(6);
    int n = static_cast<int>(wide ? s.i(1, ec::maxStepwisePoints) : s.i(1, 4));
    double x = wide ? s.q(-60, 60, 2) : s.q(0, 30, 1);
    for (int k = 0; k < n; ++k)
    {
        si.reading[k] = x;
        si.output[k] = s.q(o.reqLo, o.reqHi, 4);
        x += s.q(1, 25, 1);
    }
    if (s.b(15))
    {
        si.positiveHysteresis = s.q(0, 6, 2);
        si.negativeHysteresis = s.q(0, 6, 2);
    }
}

inline ec::pidinfo plainPid()
{
    ec::pidinfo p{};
    p.ts = 1;
    p.outLim = {0, 1e7};
    p.integralLimit = {-1e7, 1e7};
    return p;
}

inline Conf genConf(pbt::Src& s, const Opt& o)
{
    Conf c;
    int nz = static_cast<int>(s.i(o.zonesMin, o.zonesMax));
    static const std::vector<int64_t> ids = {0, 1, 2, 5, 12, 200};
    int sensorNo = 0, fanNo = 0;
    std::vector<std::string> pool;
    int64_t lastId = -1;
    for (int k = 0; k < nz; ++k)
    {
        int64_t id = o.zonesMax > 1 ? ids[std::min<size_t>(ids.size() - 1, k)] : s.pick(std::vector<int64_t>{0, 1, 7});
        if (id <= lastId)
            id = lastId + 1;
        lastId = id;
        auto& zc = c.zones[id];
        zc.minThermalOutput = o.minimum && s.b(60) ? s.q(o.reqLo, o.reqHi * 0.7, 4) : 0;
        zc.failsafePercent = o.levels ? s.q(50, 100, 4) : 0;
        static const std::vector<int> fanMs = {100, 50, 250, 500, 1000, 30, 70};
        static const std::vector<int> thMs = {1000, 100, 200, 300, 50, 0, 170, 2500};
        zc.cycleTime.cycleIntervalTimeMS = o.odd ? s.pick(fanMs) : (o.fastThermal ? 100 : 100);
        zc.cycleTime.updateThermalsTimeMS = o.odd ? s.pick(thMs) : (o.fastThermal ? s.pick(std::vector<int>{100, 200, 1000}) : 1000);
        zc.accumulateSetPoint = o.acc && s.b(50);
        auto& pc = c.pids[id];
        bool wide = s.b(6); // bigger than usual
        int nt = static_cast<int>(s.i(1, o.thermalsMax + (wide ? 5 : 0)));
        for (int t = 0; t < nt; ++t)
        {
            conf::ControllerInfo ci{};
            static const std::vector<std::string> types = {"temp", "margin", "power", "powersum"};
            bool step = !o.pidThermals || s.b(50);
            ci.type = step ? "stepwise" : s.pick(types);
            std::string prof;
            if (zc.accumulateSetPoint)
            {
                static const std::vector<std::string> profs = {"Temp_A", "Temp_B", "Loose", "Temp_A1", "A"};
                static const std::vector<std::string> heads = {"PID_", "Stepwise_", "X_", "Lin_", "Q_"};
                prof = heads[t % heads.size()] + s.pick(profs);
                if (pc.count(prof))
                    prof = "Z" + std::to_string(t) + "_Temp_A";
            }
            else
                prof = "C" + std::to_string(t) + (s.b(30) ? "_x" : "");
            int ni = wide ? static_cast<int>(s.i(1, 7)) : static_cast<int>(s.w({6, 3, 1})) + 1;
            for (int i = 0; i < ni; ++i)
            {
                std::string want = ci.type == "stepwise" ? s.pick(types) : ci.type == "powersum" ? "power" : ci.type;
                std::string name;
                if (o.sharedSensors && s.b(o.sharePct))
                {
                    std::vector<std::string> fit;
                    for (auto& p : pool)
                        if (ci.type == "stepwise" || c.sensors.at(p).info.type == want)
                            fit.push_back(p);
                    if (!fit.empty())
                        name = s.b(50) ? fit.back() : s.pick(fit);
                }
                bool dup = false;
                for (auto& in : ci.inputs)
                    dup = dup || in.name == name;
                if (name.empty() || dup)
                {
                    name = "s" + std::to_string(sensorNo++);
                    SensorSpec sp;
                    sp.info.type = want;
                    sp.info.ignoreDbusMinMax = true;
                    size_t k2 = s.w({6, o.ext ? 4 : 0, o.sysfs ? 3 : 0});
                    sp.kind = k2 == 0 ? SensorSpec::bus : k2 == 1 ? SensorSpec::ext : SensorSpec::sysfs;
                    sp.start = sp.kind == SensorSpec::ext ? 0 : wide ? anyReading(s, false) : s.q(1, 80, 1);
                    sp.info.timeout = o.timeouts ? wide ? s.pick(std::vector<int64_t>{0, 1, 4, 10, 30, 61}) : s.pick(std::vector<int64_t>{0, 1, 2, 3}) : 0;
                    if (o.hostOpt)
                        sp.info.ignoreFailIfHostOff = s.b(50);
                    if (o.unavail)
                        sp.info.unavailableAsFailed = s.b(50);
                    if (o.startFaults && sp.kind != SensorSpec::ext)
                    {
                        sp.missing = s.b(HANDLE_MISSING_OBJECT_PATHS || sp.kind == SensorSpec::sysfs ? 8 : 0);
                        if (sp.kind == SensorSpec::bus)
                        {
                            sp.startBad = s.b(10);
                            sp.functionalAtStart = !s.b(8);
                            sp.byAlarm = s.b(60);
                        }
                    }
                    c.sensors[name] = sp;
                    pool.push_back(name);
                }
                conf::SensorInput in;
                in.name = name;
                in.missingIsAcceptable = o.acceptable && s.b(25);
                if (ci.type == "margin" && s.b(35))
                {
                    in.convertTempToMargin = true;
                    in.convertMarginZero = s.q(60, 110, 1);
                }
                ci.inputs.push_back(in);
            }
            ci.pidInfo = plainPid();
            if (step)
            {
                genStepwise(s, ci.stepwiseInfo, o);
                ci.stepwiseInfo.isCeiling = s.b(o.ceilingPct);
            }
            else
            {
                ci.setpoint = s.q(0, 80, 1);
                if (s.b(40))
                {
                    ci.pidInfo.feedFwdGain = s.q(0, 2, 4);
                }
                else
                {
                    double g = s.q(0.25, 4, 4);
                    ci.pidInfo.proportionalCoeff = ci.type == "margin" ? g : -g;
                    if (s.b(30))
                        ci.pidInfo.integralCoeff = ci.type == "margin" ? 0.125 : -0.125;
                }
                ci.pidInfo.outLim = {o.reqLo, o.reqHi};
            }
            ci.failSafePercent = o.levels && s.b(60) ? s.q(40, 100, 4) : 0;
            pc[prof] = ci;
        }
        int nf = static_cast<int>(s.i(1, o.fansMax + (wide ? 6 : 0)));
        int groups = nf > 1 && s.b(50) ? std::min(nf, static_cast<int>(s.w({0, 0, 60, 25, 10, 5}))) : 1;
        for (int g = 0; g < groups; ++g)
        {
            conf::ControllerInfo ci{};
            ci.type = "fan";
            for (int f = g; f < nf; f += groups)
            {
                std::string name = "fan" + std::to_string(fanNo++);
                SensorSpec sp;
                sp.info.type = "fan";
                sp.info.ignoreDbusMinMax = true;
                sp.info.min = s.b(80) ? 0 : 1000;
                sp.info.max = 1000000000;
                sp.kind = o.sysfs && s.b(25) ? SensorSpec::sysfs : SensorSpec::bus;
                sp.start = s.q(1000, 5000, 1);
                sp.sysfsOut = o.sysfsOut && s.b(20);
                if (o.timeouts)
                    sp.info.timeout = s.pick(std::vector<int64_t>{0, 0, 2, 3});
                if (o.hostOpt)
                    sp.info.ignoreFailIfHostOff = s.b(40);
                if (o.writeOnlyPct && s.b(o.writeOnlyPct))
                {
                    sp.kind = SensorSpec::none;
                    sp.info.readPath = s.b(50) ? "" : "None";
                }
                if (o.startFaults && o.fanFaults && sp.kind == SensorSpec::bus)
                    sp.startBad = s.b(8);
                c.sensors[name] = sp;
                conf::SensorInput in;
                in.name = name;
                in.missingIsAcceptable = o.acceptable && s.b(15);
                ci.inputs.push_back(in);
            }
            ci.pidInfo = plainPid();
            ci.pidInfo.feedFwdGain = 1;
            if (o.fanP)
                ci.pidInfo.proportionalCoeff = -0.0625;
            ci.failSafePercent = o.levels && s.b(50) ? s.q(40, 100, 4) : 0;
            pc["Fan" + std::to_string(g)] = ci;
        }
    }
    return c;
}
inline void describe(pbt::Ctx& c, const Conf& cf)
{
    for (auto& [n, g] : cf.groups)
    {
        std::string t;
        for (auto& f : g.fans)
            t += " " + f;
        c.note("group ", n, g.failed ? " failed" : "", t);
    }
    for (auto& [n, sp] : cf.sensors)
        c.note("sensor ", n, " ", sp.info.type, sp.kind == SensorSpec::bus ? " bus" : sp.kind == SensorSpec::ext ? " external" : sp.kind == SensorSpec::none ? " write-only" : " sysfs",
               " start ", sp.start, sp.info.timeout ? " timeout " + std::to_string(sp.info.timeout) : "", sp.missing ? " MISSING" : "",
               sp.startBad ? " starts bad" : "", sp.functionalAtStart ? "" : sp.byAlarm ? " starts with an alarm" : " starts not functional",
               sp.info.ignoreFailIfHostOff ? " ignoreFailIfHostOff" : "", sp.info.unavailableAsFailed ? " unavailableAsFailed" : "",
               sp.info.type == "fan" ? " out [" + std::to_string(sp.info.min) + "," + std::to_string(sp.info.max) + "]" : "",
               sp.sysfsOut ? " pwm file" : "");
    for (auto& [id, pc] : cf.pids)
    {
        auto& z = cf.zones.at(id);
        c.note("zone ", id, " fan ", z.cycleTime.cycleIntervalTimeMS, " ms thermal ", z.cycleTime.updateThermalsTimeMS, " ms min ",
               z.minThermalOutput, " failsafe ", z.failsafePercent, z.accumulateSetPoint ? " accumulates" : "");
        for (auto& [n, ci] : pc)
        {
            std::ostringstream o;
            o << "  " << n << " " << ci.type << " (";
            for (auto& in : ci.inputs)
                o << in.name << (in.missingIsAcceptable ? "?" : "") << (in.convertTempToMargin ? "[margin]" : "") << " ";
            o << ")";
            if (ci.failSafePercent)
                o << " failsafe " << ci.failSafePercent;
            if (ci.type == "stepwise")
            {
                for (size_t k = 0; k < ec::maxStepwisePoints && !std::isnan(ci.stepwiseInfo.reading[k]); ++k)
                    o << " " << ci.stepwiseInfo.reading[k] << "->" << ci.stepwiseInfo.output[k];
                if (ci.stepwiseInfo.positiveHysteresis || ci.stepwiseInfo.negativeHysteresis)
                    o << " hyst +" << ci.stepwiseInfo.positiveHysteresis << "/-" << ci.stepwiseInfo.negativeHysteresis;
                if (ci.stepwiseInfo.isCeiling)
                    o << " CEILING";
            }
            else
                o << " setpoint " << ci.setpoint << " " << ci.pidInfo;
            c.note(o.str());
        }
    }
}

// Names by role
struct Names
{
    std::vector<std::string> thermal, fan, bus, ext, sysfs, all, readable;
    std::vector<std::pair<int64_t, std::string>> procs;
    std::vector<int64_t> zones;
    explicit Names(const Conf& c)
    {
        for (auto& [n, sp] : c.sensors)
        {
            all.push_back(n);
            (sp.info.type == "fan" ? fan : thermal).push_back(n);
            if (sp.kind == SensorSpec::bus)
                bus.push_back(n);
            else if (sp.kind == SensorSpec::ext)
                ext.push_back(n);
            else if (sp.kind == SensorSpec::sysfs)
                sysfs.push_back(n);
            if (sp.kind != SensorSpec::none)
                readable.push_back(n);
        }
        for (auto& [id, pc] : c.pids)
        {
            zones.push_back(id);
            for (auto& [n, ci] : pc)
                if (ci.type != "fan")
                    procs.push_back({id, n});
        }
    }
};
// Event times never coincide with a pass.
inline int64_t evTime(pbt::Src& s, int64_t spanMs)
{
    return T0 + s.i(0, spanMs) * MS + 500000 + s.i(0, 3) * 1000;
}
inline void sortEvents(std::vector<Event>& es)
{
    std::stable_sort(es.begin(), es.end(), [](auto& a, auto& b) { return a.t < b.t; });
}
} // namespace rig

// ------------------------------------------------------------------- JSON
#include <nlohmann/json.hpp>
namespace rig
{
using ojson = nlohmann::ordered_json;
// The configuration file that describes it.
inline ojson toJson(const Conf& c, const std::map<std::string, conf::SensorConfig>& sensors)
{
    ojson j;
    j["sensors"] = ojson::array();
    for (auto& [n, sc] : sensors)
    {
        ojson o = {{"name", n}, {"type", sc.type}, {"readPath", sc.readPath}, {"writePath", sc.writePath}};
        if (sc.type == "fan")
        {
            o["min"] = sc.min;
            o["max"] = sc.max;
        }
        o["timeout"] = sc.timeout;
        o["ignoreDbusMinMax"] = sc.ignoreDbusMinMax;
        o["unavailableAsFailed"] = sc.unavailableAsFailed;
        o["ignoreFailIfHostOff"] = sc.ignoreFailIfHostOff;
        j["sensors"].push_back(o);
    }
    j["zones"] = ojson::array();
    for (auto& [id, zc] : c.zones)
    {
        ojson z = {{"id", id}, {"minThermalOutput", zc.minThermalOutput}, {"failsafePercent", zc.failsafePercent}};
        z["cycleIntervalTimeMS"] = zc.cycleTime.cycleIntervalTimeMS;
        z["updateThermalsTimeMS"] = zc.cycleTime.updateThermalsTimeMS;
        z["accumulateSetPoint"] = zc.accumulateSetPoint;
        z["pids"] = ojson::array();
        for (auto& [n, ci] : c.pids.at(id))
        {
            ojson p = {{"name", n}, {"type", ci.type}, {"inputs", ojson::array()}, {"setpoint", ci.setpoint}};
            ojson conv = ojson::array(), acc = ojson::array();
            size_t zeros = 0, margins = 0;
            for (auto& in : ci.inputs)
                margins += in.convertTempToMargin;
            // conversions are listed beside the inputs, first to last
            std::vector<conf::SensorInput> ins = ci.inputs;
            std::stable_sort(ins.begin(), ins.end(), [](auto& a, auto& b) { return a.convertTempToMargin > b.convertTempToMargin; });
            for (auto& in : ins)
            {
                p["inputs"].push_back(in.name);
                if (in.convertTempToMargin)
                    conv.push_back(in.convertMarginZero), ++zeros;
                if (in.missingIsAcceptable)
                    acc.push_back(in.name);
            }
            if (zeros)
                p["tempToMargin"] = conv;
            if (!acc.empty())
                p["missingIsAcceptable"] = acc;
            p["FailSafePercent"] = ci.failSafePercent;
            ojson q;
            if (ci.type == "stepwise")
            {
                auto& si = ci.stepwiseInfo;
                q["samplePeriod"] = 1.0;
                q["isCeiling"] = si.isCeiling;
                q["positiveHysteresis"] = si.positiveHysteresis;
                q["negativeHysteresis"] = si.negativeHysteresis;
                for (size_t k = 0; k < ec::maxStepwisePoints && !std::isnan(si.reading[k]); ++k)
                {
                    q["reading"][std::to_string(k)] = si.reading[k];
                    q["output"][std::to_string(k)] = si.output[k];
                }
            }
            else
            {
                auto& pi = ci.pidInfo;
                q = {{"samplePeriod", pi.ts},
                     {"proportionalCoeff", pi.proportionalCoeff},
                     {"integralCoeff", pi.integralCoeff},
                     {"feedFwdOffsetCoeff", pi.feedFwdOffset},
                     {"feedFwdGainCoeff", pi.feedFwdGain},
                     {"integralLimit_min", pi.integralLimit.min},
                     {"integralLimit_max", pi.integralLimit.max},
                     {"outLim_min", pi.outLim.min},
                     {"outLim_max", pi.outLim.max},
                     {"slewNeg", pi.slewNeg},
                     {"slewPos", pi.slewPos}};
            }
            p["pid"] = q;
            z["pids"].push_back(p);
        }
        j["zones"].push_back(z);
    }
    return j;
}
} // namespace rig
