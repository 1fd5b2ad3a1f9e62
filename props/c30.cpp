// C30: a zone does what it does alone, whatever zones run beside it.
#include "trace.hpp"
using namespace rig;

PBT(beside, 4000, 60000, "the watched zone's command changed, and another zone was in failsafe or manual mode at some time")
{
    Opt o = anyOpt(s);
    o.zonesMin = 2;
    o.zonesMax = 3;
    o.sharedSensors = s.b(70);
    o.sharePct = s.pick(std::vector<int>{25, 50, 80});
    o.acceptable = s.b(50);
    Conf cf = genConf(s, o);
    enrich(s, cf);
    describe(c, cf);
    std::vector<int64_t> ids;
    for (auto& [id, z] : cf.zones)
    {
        ids.push_back(id);
        z.cycleTime.cycleIntervalTimeMS = static_cast<uint64_t>(s.pick(std::vector<int>{50, 100, 200, 70}));
        z.cycleTime.updateThermalsTimeMS = static_cast<uint64_t>(s.pick(std::vector<int>{100, 200, 1000, 300}));
    }
    int64_t x = s.pick(ids);
    int64_t span = anySpan(s, 300, 4000) / 10 * 10;
    auto events = anyEvents(s, cf, span, static_cast<int>(s.i(2, 30)), true);
    for (auto& e : events)
        c.note(e.show());
    c.note("watched: zone ", x);
    Conf alone;
    alone.zones[x] = cf.zones.at(x);
    alone.pids[x] = cf.pids.at(x);
    std::set<std::string> fans;
    for (auto& [n, ci] : cf.pids.at(x))
        for (auto& in : ci.inputs)
        {
            alone.sensors[in.name] = cf.sensors.at(in.name);
            if (ci.type == "fan")
                fans.insert(in.name);
        }
    auto all = isolated([&] { return trace(cf, events, span, [](const Event&) { return true; }, {}); });
    auto mine = [&](const Event& e) {
        if (e.kind == Event::manual || e.kind == Event::enabled)
            return e.zone == x;
        if (e.kind == Event::host || e.kind == Event::other)
            return true;
        return alone.sensors.count(e.who) > 0;
    };
    auto one = isolated([&] { return trace(alone, events, span, mine, {}); });
    for (auto& f : fans)
        sameTrace(all.fan[f], one.fan[f], f + " of zone " + std::to_string(x), "beside other zones", "alone");
    sameTrace(all.zone[x], one.zone[x], "the state of zone " + std::to_string(x) + " (failsafe, manual, leader)", "beside other zones", "alone");
    bool moved = false, other = false;
    for (auto& f : fans)
        moved |= one.fan[f].size() > 2;
    for (auto& [id, st] : all.zone)
        for (auto& [t, v] : st)
            other |= id != x && t > 0 && (v[0] == '1' || v[1] == '1');
    if (o.sharedSensors)
        c.label("sensors may be shared");
    c.nontrivial(moved && other);
}
