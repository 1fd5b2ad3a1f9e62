// C26, as run: the fans of failed groups, and no other sensor, put their zones
// into failsafe.
#include "faults.hpp"
#include "trace.hpp"
using namespace rig;

PBT(in_zones, 2500, 40000, "a fan was failed by redundancy alone and recovered, or was known as such from the start")
{
    Opt o;
    o.zonesMax = 2;
    o.thermalsMax = 2;
    o.fansMax = 3;
    o.levels = true;
    o.reqHi = 40;
    o.sysfs = s.b(40);
    o.acceptable = s.b(30);
    o.hostOpt = s.b(30);
    Conf cf = genConf(s, o);
    Names n(cf);
    int ng = static_cast<int>(s.i(1, 3));
    std::vector<std::string> names;
    auto fans = n.fan;
    fans.push_back("elsewhere");
    for (int k = 0; k < ng; ++k)
    {
        Group g;
        for (int m = static_cast<int>(s.i(0, 3)); m > 0; --m)
            g.fans.push_back(s.pick(fans));
        g.failed = s.b(35);
        names.push_back("g" + std::to_string(k));
        cf.groups[names.back()] = g;
    }
    describe(c, cf);
    int64_t span = anySpan(s, 200, 3000);
    std::vector<Event> events;
    for (int k = static_cast<int>(s.i(0, 10)); k > 0; --k)
    {
        Event e;
        if (s.b(70))
        {
            e.t = evTime(s, span);
            e.kind = Event::group;
            e.who = s.pick(names);
            e.on = s.b(45);
        }
        else
            e = fault(s, cf, n, {}, span);
        events.push_back(e);
    }
    sortEvents(events);
    for (auto& e : events)
        c.note(e.show());
    // Sensors are built once more, as by a reload, with statuses changed meanwhile.
    bool again = s.b(40);
    std::vector<std::pair<std::string, bool>> meanwhile;
    if (again)
    {
        for (int k = static_cast<int>(s.i(0, 4)); k > 0; --k)
            meanwhile.emplace_back(s.pick(names), s.b(50));
        for (auto& [g, b] : meanwhile)
            c.note("before: group ", g, b ? " fails" : " is sound");
    }
    auto t = isolated([&] {
        Rig r(cf);
        if (again)
        {
            r.build();
            r.teardown();
            r.mgr.reset();
            for (auto& [g, b] : meanwhile)
            {
                Event e;
                e.kind = Event::group;
                e.who = g;
                e.on = b;
                r.apply(e);
                r.conf.groups[g].failed = b;
                r.poll();
            }
        }
        r.sent.clear();
        Model m(r);
        r.build();
        r.start();
        m.start(T0);
        Drive d(r, m);
        d.events = events;
        std::map<std::string, bool> only;
        Trace out;
        d.onTick = [&](MZone& z, const std::vector<Cmd>& cmds, const std::vector<Sent>& got) {
            bool want = !z.failed.empty(), have = r.zoneFlag(z.id, "FailSafe");
            std::string who;
            for (auto& [f, l] : z.failed)
                who += " " + f;
            pbt::require(want == have, "zone ", z.id, " after the pass at +", (vclock::now() - T0) / MS, " ms: failsafe is ", have,
                         ", failed sensors:", who.empty() ? " none" : who);
            d.judgeWrites(z, cmds, got);
            for (auto& f : z.fanInputs)
            {
                auto& x = m.sensors.at(f);
                auto y = x;
                y.m.redundant = false;
                bool by = x.failed(m.hostOn) && !y.failed(m.hostOn);
                if (only[f] != by)
                    out.zone[0].push_back({vclock::now(), by ? "1" : "0"});
                only[f] = by;
            }
        };
        d.run(T0 + (span + 700) * MS);
        return out;
    });
    if (again)
        c.label("built twice");
    bool rec = false;
    for (auto& [at, v] : t.zone[0])
        rec |= v == "0";
    bool atStart = false;
    for (auto& [_, g] : cf.groups)
        atStart |= g.failed && !g.fans.empty();
    c.nontrivial(rec || (atStart && !t.zone[0].empty()));
}
