// C27: what is published on D-Bus is the state of the controller.
#include "rig.hpp"
using namespace rig;

PBT(published, 4000, 100000, "the leader of a zone changed, and its failsafe state or a controller's enabling too")
{
    Opt o;
    o.zonesMax = static_cast<int>(s.i(1, 2));
    o.thermalsMax = 5;
    o.fansMax = 2;
    o.levels = true;
    o.ext = true;
    o.pidThermals = s.b(80);
    o.minimum = s.b(40);
    o.ceilingPct = s.b(40) ? 30 : 0;
    o.acc = s.b(60);
    o.acceptable = s.b(20);
    o.timeouts = s.b(20);
    o.startFaults = s.b(20);
    o.fastThermal = true;
    Conf cf = genConf(s, o);
    describe(c, cf);
    Names n(cf);
    Rig r(cf);
    Model m(r);
    r.build();
    std::map<std::pair<int64_t, std::string>, bool> usable;
    auto at = [] { return "at +" + std::to_string(static_cast<double>(vclock::now() - T0) / MS) + " ms: "; };
    auto number = [](const std::optional<Val>& v, const std::string& what) {
        pbt::require(v.has_value() && v->sig == "d", what, " is not published as a number");
        return v->d;
    };
    auto look = [&](MZone& z) {
        std::string zn = "zone " + std::to_string(z.id);
        pbt::require(r.zoneFlag(z.id, "FailSafe") == !z.failed.empty(), at(), zn, " publishes failsafe ", z.failed.empty());
        pbt::require(r.zoneFlag(z.id, "Manual") == z.manual, at(), zn, " publishes manual ", !z.manual);
        std::string l = r.leader(z.id);
        std::string want;
        for (auto& w : z.leader)
            want += (want.empty() ? "" : " or ") + w;
        pbt::require(z.leader.count(l), at(), zn, " publishes \"", l, "\" as its leader, ", want, " decided the set point ", z.setpoint);
        for (auto& t : z.thermals)
        {
            std::string pn = zn + " controller " + t.name;
            auto en = r.proc(z.id, t.name, ENABLE, "Enabled");
            pbt::require(en && en->sig == "b" && (en->u != 0) == t.enabled, at(), pn, " publishes enabled ", !t.enabled);
            if (t.info.type == "stepwise")
                continue;
            double sp = number(r.proc(z.id, t.name, DBGPROC, "Setpoint"), pn + "'s set point");
            pbt::require(pbt::close(sp, t.info.setpoint), at(), pn, " publishes set point ", sp, " instead of ", t.info.setpoint);
            auto cl = r.proc(z.id, t.name, DBGPROC, "ClassType");
            static const std::map<std::string, std::string> cls{
                {"temp", "Temperature"}, {"margin", "Margin"}, {"power", "Power"}, {"powersum", "PowerSum"}};
            pbt::require(cl && cl->s == cls.at(t.info.type), at(), pn, " of type ", t.info.type, " publishes class ", cl ? cl->s : "nothing");
            double out = number(r.proc(z.id, t.name, DBGPROC, "Output"), pn + "'s output");
            pbt::require(pbt::close(out, t.output), at(), pn, " publishes output ", out, ", it requested ", t.output);
            if (!usable[{z.id, t.name}])
                continue; // nothing was used
            double in = number(r.proc(z.id, t.name, DBGPROC, "Input"), pn + "'s input");
            pbt::require(pbt::close(in, t.input), at(), pn, " publishes input ", in, ", it used ", t.input);
            auto ld = r.proc(z.id, t.name, DBGPROC, "Leader");
            pbt::require(ld.has_value(), pn, " publishes no leader");
            std::string lw;
            for (auto& w : t.leaders)
                lw += (lw.empty() ? "" : " or ") + w;
            pbt::require(t.leaders.count(ld->s), at(), pn, " publishes leader \"", ld->s, "\", its input came from ", lw);
        }
    };
    auto remember = [&](MZone& z) {
        for (auto& t : z.thermals)
        {
            bool any = false;
            for (auto& i : t.info.inputs)
                any = any || std::isfinite(z.cache.at(i.name).scaled);
            usable[{z.id, t.name}] = any && t.published;
        }
    };
    r.start();
    m.start(T0);
    for (auto& [_, z] : m.zones)
    {
        remember(z);
        look(z);
    }
    Drive d(r, m);
    int64_t span = anySpan(s, 300, 5000);
    int changes = static_cast<int>(s.i(2, 24));
    bool zeros = s.b(30);
    for (int k = 0; k < changes; ++k)
    {
        Event e;
        e.t = evTime(s, span);
        size_t w = s.w({8, n.bus.empty() ? 0u : 2u, 2, 1, 2});
        if (w == 0)
        {
            e.kind = Event::value;
            e.who = s.pick(n.all);
            bool fan = cf.sensors.at(e.who).info.type == "fan";
            e.v = fan ? s.q(500, 6000, 1) : zeros && s.b(60) ? 0 : s.b(6) ? NaN : anyReading(s, false);
        }
        else if (w == 1)
        {
            e.kind = s.b(60) ? Event::functional : Event::avail;
            e.who = s.pick(n.bus);
            e.on = s.b(50);
        }
        else if (w == 2)
        {
            auto p = s.pick(n.procs);
            e.kind = Event::enabled;
            e.zone = p.first;
            e.who = p.second;
            e.on = s.b(50);
        }
        else if (w == 3)
        {
            e.kind = Event::manual;
            e.zone = s.pick(n.zones);
            e.on = s.b(50);
        }
        else
            e.kind = Event::other;
        d.events.push_back(e);
    }
    sortEvents(d.events);
    for (auto& e : d.events)
        c.note(e.show());
    std::map<int64_t, std::set<std::string>> prev;
    std::map<int64_t, bool> fs;
    int leads = 0, states = 0, ceil = 0;
    d.onEvent = [&](const Event& e) {
        states += e.kind == Event::enabled;
        for (auto& [_, z] : m.zones)
            look(z);
    };
    d.onTick = [&](MZone& z, const std::vector<Cmd>& cmds, const std::vector<Sent>& got) {
        if (!z.manual)
        {
            d.judgeWrites(z, cmds, got);
            remember(z);
        }
        look(z);
        if (prev.count(z.id))
        {
            leads += prev[z.id] != z.leader;
            states += fs[z.id] != !z.failed.empty();
        }
        ceil += z.leader.count("Ceiling");
        prev[z.id] = z.leader;
        fs[z.id] = !z.failed.empty();
    };
    d.run(T0 + (span + 1500) * MS);
    if (ceil)
        c.label("ceiling led");
    for (auto& [_, z] : cf.zones)
        if (z.accumulateSetPoint)
            c.label("accumulates");
    if (zeros)
        c.label("zero readings");
    c.nontrivial(leads && states);
}
