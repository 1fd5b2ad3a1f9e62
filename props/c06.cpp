// C06: a zone's set point is the largest enabled request within ceiling and
// minimum, pass by pass.
#include "rig.hpp"
using namespace rig;

static void drive(pbt::Src& s, pbt::Ctx& c, Opt o)
{
    Conf cf = genConf(s, o);
    describe(c, cf);
    Names n(cf);
    Rig r(cf);
    Model m(r);
    r.build();
    r.start();
    m.start(T0);
    Drive d(r, m);
    int64_t span = anySpan(s, 300, 6000);
    int ne = static_cast<int>(s.i(0, 16));
    for (int k = 0; k < ne; ++k)
    {
        Event e;
        e.t = evTime(s, span);
        if (s.b(70))
        {
            e.kind = Event::value;
            e.who = s.pick(n.thermal);
            e.v = anyReading(s, false);
        }
        else
        {
            e.kind = Event::enabled;
            auto& p = n.procs[s.draw(n.procs.size())];
            e.zone = p.first;
            e.who = p.second;
            e.on = s.b(40);
        }
        d.events.push_back(e);
    }
    sortEvents(d.events);
    for (auto& e : d.events)
        c.note(e.show());
    std::set<double> points;
    int disabled = 0, ceil = 0, min = 0;
    d.onTick = [&](MZone& z, const std::vector<Cmd>& cmds, const std::vector<Sent>& got) {
        d.judgeWrites(z, cmds, got);
        points.insert(z.setpoint);
        for (auto& t : z.thermals)
            disabled += !t.enabled;
        ceil += z.leader.count("Ceiling");
        min += z.leader.count("Minimum");
    };
    d.run(T0 + (span + 1200) * MS);
    if (disabled)
        c.label("a controller was disabled");
    if (ceil)
        c.label("the ceiling decided");
    if (min)
        c.label("the minimum decided");
    for (auto& [_, z] : cf.zones)
        if (z.accumulateSetPoint)
            c.label("accumulates");
    c.nontrivial(points.size() >= 2 && n.procs.size() >= 2);
}

PBT(requests, 6000, 120000, "two or more controllers, and the set point moved")
{
    Opt o;
    o.thermalsMax = 4;
    o.ceilingPct = 20;
    o.minimum = true;
    o.pidThermals = true;
    o.ext = true;
    drive(s, c, o);
}
PBT(accumulated, 4000, 80000, "two or more controllers, and the set point moved")
{
    Opt o;
    o.thermalsMax = 5;
    o.acc = true;
    o.ceilingPct = 15;
    o.minimum = true;
    drive(s, c, o);
}
PBT(several_zones, 2500, 50000, "two or more controllers, and the set point moved")
{
    Opt o;
    o.zonesMax = 3;
    o.ceilingPct = 20;
    o.minimum = true;
    o.pidThermals = true;
    drive(s, c, o);
}
