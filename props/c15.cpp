// C15: host power only excuses the sensors configured for it.
#include "rig.hpp"
using namespace rig;

static void drive(pbt::Src& s, pbt::Ctx& c, const Opt& o)
{
    Conf cf = genConf(s, o);
    describe(c, cf);
    Names n(cf);
    Rig r(cf);
    bool on = s.b(50);
    r.setHost(on);
    c.note("host ", on ? "on" : "off");
    Model m(r);
    m.hostOn = on;
    r.build();
    r.start();
    m.start(T0);
    Drive d(r, m);
    int64_t span = anySpan(s, 200, 4000);
    int ne = static_cast<int>(s.i(0, 22));
    for (int k = 0; k < ne; ++k)
    {
        Event e;
        e.t = evTime(s, span);
        if (s.b(40))
        {
            e.kind = Event::host;
            e.on = s.b(50);
        }
        else
        {
            e.who = s.pick(n.all);
            auto& sp = cf.sensors.at(e.who);
            bool fan = sp.info.type == "fan";
            double ok = anyReading(s, fan);
            if (sp.kind == SensorSpec::sysfs)
            {
                e.kind = Event::gone;
                e.on = s.b(60);
                e.v = ok;
            }
            else if (sp.kind == SensorSpec::ext || s.b(50))
            {
                e.kind = Event::value;
                e.v = s.b(50) ? ok : NaN;
            }
            else
            {
                e.kind = s.b(50) ? Event::functional : Event::crit;
                e.on = s.b(50);
            }
        }
        d.events.push_back(e);
    }
    sortEvents(d.events);
    for (auto& e : d.events)
        c.note(e.show());
    int excused = 0, failed = 0;
    d.onTick = [&](MZone& z, const std::vector<Cmd>& cmds, const std::vector<Sent>& got) {
        bool want = !z.failed.empty();
        if (r.zoneFlag(z.id, "FailSafe") != want)
        {
            std::string who;
            for (auto& [f, l] : z.failed)
                who += " " + f;
            pbt::failf("zone ", z.id, " after the pass at +", (vclock::now() - T0) / MS, " ms, host ", m.hostOn ? "on" : "off",
                       ": failsafe is ", !want, ", failed sensors:", who.empty() ? " none" : who);
        }
        d.judgeWrites(z, cmds, got);
        failed += want;
        for (auto* l : {&z.fanInputs, &z.thermalInputs})
            for (auto& x : *l)
                excused += m.sensors.at(x).failed(true) && !m.sensors.at(x).failed(m.hostOn);
    };
    d.run(T0 + (span + 1500) * MS);
    if (excused)
        c.label("a failure was excused");
    c.nontrivial(excused && failed);
}

PBT(power, 5000, 120000, "a failure was excused, and one was not")
{
    Opt o;
    o.hostOpt = true;
    o.levels = true;
    o.reqHi = 40;
    o.sysfs = true;
    o.startFaults = true;
    o.thermalsMax = 2;
    drive(s, c, o);
}
PBT(power_ext, 3000, 60000, "a failure was excused, and one was not")
{
    Opt o;
    o.hostOpt = true;
    o.levels = true;
    o.reqHi = 40;
    o.ext = true;
    o.thermalsMax = 2;
    drive(s, c, o);
}

PBT(states, 1500, 20000, "a state other than running and off was published")
{
    // Only "Running" is running; other objects' and properties' changes say
    // nothing about this host.
    Conf cf;
    Rig r(cf);
    auto& mon = HostStateMonitor::getInstance(env().hostMatch);
    bool want = false;
    int n = static_cast<int>(s.i(1, 10));
    for (int k = 0; k < n; ++k)
    {
        static const std::vector<std::string> names = {"Running",      "Off",        "TransitioningToRunning", "TransitioningToOff",
                                                       "Standby",      "Quiesced",   "DiagnosticMode",         "NotRunning",
                                                       "RunningHalfway"};
        auto st = s.pick(names);
        int kind = static_cast<int>(s.w({10, 2, 2, 1}));
        std::string path = kind == 1 ? "/xyz/openbmc_project/state/host1" : HOST_STATE_PATH;
        std::string prop = kind == 2 ? "RequestedHostTransition" : "CurrentHostState";
        auto m = sim::mkPropsChanged("xyz.openbmc_project.State.Host0", path, kind == 3 ? "xyz.openbmc_project.State.Chassis" : HOSTIF,
                                     {{prop, mk(HOSTIF + ".HostState." + st)}});
        sim::fabric().emit(m);
        if (kind == 0)
            want = st == "Running";
        c.note(path, " ", prop, " ", st, " -> ", want);
        // a change that nobody listened for
        if (kind == 0 && s.b(20))
        {
            mon.stopMonitoring();
            bool on = s.b(50);
            r.w.add(HOST_STATE_PATH, "xyz.openbmc_project.State.Host0").ifaces[HOSTIF]["CurrentHostState"] = mk(HOSTIF + ".HostState." + (on ? "Running" : "Off"));
            mon.startMonitoring();
            want = on;
            c.note("unheard: host ", on ? "on" : "off");
            pbt::require(mon.isPowerOn() == want, "the host counts as ", mon.isPowerOn() ? "on" : "off", " once monitored again");
        }
        pbt::require(mon.isPowerOn() == want, "after ", st, " the host counts as ", mon.isPowerOn() ? "on" : "off");
        c.nontrivial(st != "Running" && st != "Off");
    }
}
