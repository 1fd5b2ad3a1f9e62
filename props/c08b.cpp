// C08 in the zone: with several sensors failed at once, for different reasons
// and at different levels, every fan is driven at the highest level.
#include "faults.hpp"
using namespace rig;

namespace
{
void drive(pbt::Src& s, pbt::Ctx& c, const Opt& o)
{
    Conf cf = genConf(s, o);
    for (auto& [id, z] : cf.zones)
        if (s.b(30))
            z.failsafePercent = s.q(0, 60, 4);
    describe(c, cf);
    Names n(cf);
    Rig r(cf);
    Model m(r);
    r.build();
    r.start();
    m.start(T0);
    Drive d(r, m);
    int64_t span = anySpan(s, 500, 4000);
    int ne = static_cast<int>(s.i(2, 8 + 10 * static_cast<int>(n.zones.size())));
    for (int k = 0; k < ne; ++k)
        d.events.push_back(fault(s, cf, n, {}, span));
    if (s.b(50))
        andRepairs(s, cf, d.events, span);
    sortEvents(d.events);
    for (auto& e : d.events)
        c.note(e.show());
    int several = 0, above = 0, below = 0;
    d.onTick = [&](MZone& z, const std::vector<Cmd>& cmds, const std::vector<Sent>& got) {
        d.judgeWrites(z, cmds, got);
        if (z.failed.empty())
            return;
        std::set<double> levels;
        for (auto& [_, l] : z.failed)
            levels.insert(l);
        several += levels.size() > 1;
        for (auto& cmd : cmds)
        {
            double have = r.at(cmd.fan);
            for (auto& [sensor, l] : z.failed)
            {
                double want = std::trunc(rawOf(r.conf.sensors.at(cmd.fan).info, l));
                pbt::require(have >= want || rawClose(want, have), "zone ", z.id, " at +", (vclock::now() - T0) / MS, " ms: ", cmd.fan,
                             " is at ", have, ", below ", l, " %, the failsafe level for ", sensor, ", which has failed");
            }
            (cmd.pct > z.level() ? above : below)++;
        }
    };
    d.run(T0 + (span + 1500) * MS);
    if (above)
        c.label("a normal command above the failsafe level");
    if (below)
        c.label("raised to the failsafe level");
    c.nontrivial(several > 1);
}
} // namespace

PBT(levels, 2500, 60000, "sensors with different failsafe levels had failed at the same time")
{
    Opt o;
    o.levels = true;
    o.reqHi = 95;
    o.thermalsMax = 4;
    o.fansMax = 3;
    o.unavail = true;
    o.startFaults = true;
    o.fanFaults = true;
    o.acceptable = true;
    o.sysfs = true;
    o.ext = true;
    drive(s, c, o);
}
PBT(zones, 1200, 30000, "sensors with different failsafe levels had failed at the same time")
{
    Opt o;
    o.levels = true;
    o.reqHi = 95;
    o.zonesMax = 3;
    o.sysfs = true;
    o.fanP = true;
    o.sysfsOut = true;
    o.startFaults = true;
    o.fanFaults = true;
    drive(s, c, o);
}
