// C09: manual mode stops the loop's commands; leaving it restores them.
#include "rig.hpp"
using namespace rig;

PBT(manual, 4000, 100000, "a zone with changing readings left manual mode with a pass due both during and after it")
{
    Opt o;
    o.zonesMax = static_cast<int>(s.i(1, 3));
    o.thermalsMax = 3;
    o.fansMax = 3;
    o.levels = true;
    o.sysfs = true;
    o.ext = true;
    o.pidThermals = s.b(40);
    o.fanP = s.b(30);
    o.minimum = s.b(30);
    o.sysfsOut = s.b(30);
    o.odd = s.b(40);
    o.reqHi = s.b(50) ? 100 : 60;
    Conf cf = genConf(s, o);
    describe(c, cf);
    Names n(cf);
    Rig r(cf);
    Model m(r);
    r.build();
    r.start();
    m.start(T0);
    Drive d(r, m);
    int64_t span = anySpan(s, 500, 9000);
    std::vector<Event> es;
    // manual mode is switched at any time, repeated switches included
    for (auto z : n.zones)
    {
        int64_t t = 0;
        bool on = false;
        int k = static_cast<int>(s.i(0, 7));
        for (; k > 0; --k)
        {
            t += s.b(30) ? s.i(0, 120) : s.i(50, 2500);
            if (t > span)
                break;
            Event e;
            e.kind = Event::manual;
            e.zone = z;
            e.on = s.b(85) ? !on : on;
            on = e.on;
            e.t = T0 + t * MS + 500000 + s.i(0, 3) * 1000;
            if (t > 0)
                es.push_back(e);
        }
    }
    sortEvents(es);
    int changes = static_cast<int>(s.i(0, 14));
    for (int k = 0; k < changes; ++k)
    {
        Event e;
        e.t = evTime(s, span);
        e.who = s.pick(n.all);
        auto& sp = cf.sensors.at(e.who);
        bool fan = sp.info.type == "fan";
        switch (s.w({6, sp.kind == SensorSpec::bus ? 2u : 0u, sp.kind == SensorSpec::sysfs ? 1u : 0u}))
        {
            case 0:
                e.kind = Event::value;
                e.v = anyReading(s, fan);
                break;
            case 1:
                e.kind = Event::functional;
                e.on = s.b(50);
                break;
            default:
                e.kind = Event::gone;
                e.on = s.b(50);
                e.v = anyReading(s, false);
        }
        es.push_back(e);
    }
    // somebody drives fans of zones in manual mode
    std::map<std::string, int64_t> zoneOf;
    for (auto& [id, pc] : cf.pids)
        for (auto& [_, ci] : pc)
            if (ci.type == "fan")
                for (auto& in : ci.inputs)
                    zoneOf[in.name] = id;
    sortEvents(es);
    std::map<int64_t, bool> on;
    std::vector<Event> all;
    for (auto& e : es)
    {
        all.push_back(e);
        if (e.kind == Event::manual)
            on[e.zone] = e.on;
        for (auto& f : n.fan)
            if (on[zoneOf[f]] && s.b(35))
            {
                Event w;
                w.kind = Event::fanWrite;
                w.t = e.t;
                w.who = f;
                w.v = static_cast<double>(s.i(0, 1000000000));
                all.push_back(w);
            }
    }
    d.events = all;
    for (auto& e : d.events)
        c.note(e.show());
    std::map<int64_t, int> stage;
    std::map<std::string, uint64_t> outside;
    int full = 0, restored = 0;
    d.onEvent = [&](const Event& e) {
        if (e.kind == Event::manual)
        {
            pbt::require(r.zoneFlag(e.zone, "Manual") == e.on, "zone ", e.zone, " was switched to ", e.on ? "manual" : "automatic",
                         " and reports the opposite");
            for (auto& f : n.fan)
                if (zoneOf[f] == e.zone)
                    outside.erase(f);
            if (!e.on && stage[e.zone] == 2)
                stage[e.zone] = 3;
            if (e.on)
                stage[e.zone] = 1;
        }
        if (e.kind == Event::fanWrite)
            outside[e.who] = static_cast<uint64_t>(e.v);
    };
    d.onTick = [&](MZone& z, const std::vector<Cmd>& cmds, const std::vector<Sent>& got) {
        std::string when = "at +" + std::to_string((vclock::now() - T0) / MS) + " ms: ";
        if (z.manual)
        {
            if (!got.empty())
                pbt::failf(when, got[0].fan, " of zone ", z.id, " was commanded ", got[0].raw, " in manual mode");
            for (auto& [f, v] : outside)
                if (zoneOf[f] == z.id)
                    pbt::require(r.at(f) == static_cast<double>(v), when, "the outside command ", v, " for ", f, " became ", r.at(f));
            if (stage[z.id] == 1)
                stage[z.id] = 2;
        }
        else
        {
            d.judgeWrites(z, cmds, got);
            if (stage[z.id] == 3)
            {
                ++full;
                stage[z.id] = 0;
                for (auto& cmd : cmds)
                    restored += cmd.forced;
            }
        }
        // no reading is taken in manual mode, so the verdict stays
        pbt::require(r.zoneFlag(z.id, "FailSafe") == !z.failed.empty(), when, "zone ", z.id, " reports failsafe ", z.failed.empty());
        pbt::require(r.zoneFlag(z.id, "Manual") == z.manual, when, "zone ", z.id, " reports manual ", !z.manual);
    };
    d.run(T0 + (span + 1500) * MS);
    if (full)
        c.label("left manual mode");
    if (restored)
        c.label("commands restored");
    c.nontrivial(full && changes);
}
