// C07: a zone is in failsafe exactly while a required sensor is missing or
// failed, at the level configured for what failed.
#include "faults.hpp"
using namespace rig;

static void drive(pbt::Src& s, pbt::Ctx& c, const Opt& o)
{
    Conf cf = genConf(s, o);
    describe(c, cf);
    Names n(cf);
    Rig r(cf);
    Model m(r);
    r.build();
    r.start();
    m.start(T0);
    Drive d(r, m);
    int64_t span = anySpan(s, 200, o.timeouts ? 9000 : 4000);
    int ne = static_cast<int>(s.i(0, 8 + 10 * static_cast<int>(n.zones.size())));
    for (int k = 0; k < ne; ++k)
        d.events.push_back(fault(s, cf, n, {}, span));
    if (s.b(80))
        andRepairs(s, cf, d.events, span);
    if (o.timeouts)
    {
        // sensors that go on reporting for a while
        for (auto& name : n.all)
        {
            auto& sp = cf.sensors.at(name);
            if (sp.kind == SensorSpec::sysfs || !sp.info.timeout)
                continue;
            int64_t t = 0, every = s.pick(std::vector<int64_t>{400, 700, 990, 1010, 1900, 2100});
            int reps = static_cast<int>(s.i(0, 8));
            for (int k = 0; k < reps; ++k)
            {
                t += every;
                Event e;
                e.kind = Event::value;
                e.t = T0 + t * MS + 500000 + s.i(0, 3) * 1000;
                e.who = name;
                e.v = sp.info.type == "fan" ? 3000 + k : 20 + k;
                d.events.push_back(e);
            }
        }
    }
    sortEvents(d.events);
    for (auto& e : d.events)
        c.note(e.show());
    for (auto& [id, z] : m.zones)
        pbt::require(r.zoneFlag(id, "FailSafe") == !z.failed.empty(), "at the start zone ", id, " reports failsafe ",
                     r.zoneFlag(id, "FailSafe"));
    std::map<int64_t, bool> prev;
    int in = 0, out = 0, levels = 0;
    double lastLevel = -1;
    d.onTick = [&](MZone& z, const std::vector<Cmd>& cmds, const std::vector<Sent>& got) {
        bool want = !z.failed.empty(), have = r.zoneFlag(z.id, "FailSafe");
        if (want != have)
        {
            std::string who;
            for (auto& [f, l] : z.failed)
                who += " " + f;
            pbt::failf("zone ", z.id, " after the pass at +", (vclock::now() - T0) / MS, " ms: failsafe is ", have, ", failed sensors:",
                       who.empty() ? " none" : who);
        }
        d.judgeWrites(z, cmds, got);
        if (prev.count(z.id) && prev[z.id] != want)
            (want ? in : out)++;
        prev[z.id] = want;
        if (want && z.level() != lastLevel)
        {
            lastLevel = z.level();
            ++levels;
        }
    };
    d.run(T0 + (span + 1500) * MS);
    if (in)
        c.label("entered failsafe after being healthy");
    if (out)
        c.label("left failsafe");
    if (levels > 1)
        c.label("several levels");
    c.nontrivial(in && out);
}

static Opt base()
{
    Opt o;
    o.levels = true;
    o.reqHi = 40;
    o.acceptable = true;
    o.unavail = true;
    o.startFaults = true;
    o.fanFaults = true;
    return o;
}

PBT(faults, 4500, 100000, "the zone left failsafe and entered it again")
{
    Opt o = base();
    o.sysfs = true;
    o.ext = true;
    drive(s, c, o);
}
PBT(silence, 2500, 60000, "the zone left failsafe and entered it again")
{
    Opt o = base();
    o.timeouts = true;
    o.ext = true;
    o.sysfs = true;
    o.thermalsMax = 2;
    drive(s, c, o);
}
PBT(zones, 2000, 40000, "the zone left failsafe and entered it again")
{
    Opt o = base();
    o.zonesMax = 3;
    o.thermalsMax = 2;
    drive(s, c, o);
}
