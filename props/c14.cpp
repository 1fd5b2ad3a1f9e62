// C14: host-provided sensors take the values written to them and time out.
#include "rig.hpp"
using namespace rig;

PBT(writes, 4000, 100000, "an external sensor timed out and recovered")
{
    Opt o;
    o.ext = true;
    o.timeouts = true;
    o.levels = true;
    o.reqHi = 40;
    o.zonesMax = s.b(25) ? 2 : 1;
    o.thermalsMax = 2;
    Conf cf = genConf(s, o);
    // mostly external sensors
    for (auto& [n, sp] : cf.sensors)
        if (sp.info.type != "fan" && sp.kind == SensorSpec::bus && s.b(70))
        {
            sp.kind = SensorSpec::ext;
            sp.start = 0;
        }
        else if (sp.kind == SensorSpec::bus)
            sp.info.timeout = 0;
    describe(c, cf);
    Names n(cf);
    if (n.ext.empty())
        throw pbt::Discard("no external sensor");
    Rig r(cf);
    Model m(r);
    r.build();
    r.start();
    m.start(T0);
    Drive d(r, m);
    int64_t span = anySpan(s, 300, 12000);
    for (auto& name : n.ext)
    {
        // bursts of writes with gaps about as long as the timeout
        int64_t to = cf.sensors.at(name).info.timeout, t = 0;
        int reps = static_cast<int>(s.i(0, 8));
        for (int k = 0; k < reps; ++k)
        {
            t += s.b(60) ? s.i(10, 900) : to * 1000 + s.q(-150, 150, 1);
            Event e;
            e.kind = Event::value;
            e.t = T0 + t * MS + 500000 + s.i(0, 3) * 1000;
            e.who = name;
            e.v = s.b(94) ? anyReading(s, false) : s.pick(std::vector<double>{NaN, INFINITY});
            if (s.b(10))
                e.v = -e.v;
            if (t > 0)
                d.events.push_back(e);
        }
    }
    sortEvents(d.events);
    for (auto& e : d.events)
        c.note(e.show());
    auto published = [&](const std::string& name) {
        auto v = sim::getProp(HWMONEXT, cf.sensors.at(name).readPath.empty() ? r.conf.sensors.at(name).readPath : "", bw::VALUE, "Value");
        pbt::require(v.has_value(), "external sensor ", name, " is not published");
        return v->d;
    };
    for (auto& name : n.ext)
        published(name);
    d.onEvent = [&](const Event& e) {
        double p = published(e.who);
        pbt::require(p == e.v || (std::isnan(p) && std::isnan(e.v)), "external sensor ", e.who, " was written ", e.v, " and reports ", p);
        // in use from the next pass, not another's
        auto rr = r.mgr->getSensor(e.who)->read();
        pbt::require(pbt::close(rr.value, e.v), "external sensor ", e.who, " was written ", e.v, " and reads ", rr.value);
    };
    std::map<int64_t, bool> prev;
    int in = 0, out = 0;
    d.onTick = [&](MZone& z, const std::vector<Cmd>& cmds, const std::vector<Sent>& got) {
        bool want = !z.failed.empty();
        pbt::require(r.zoneFlag(z.id, "FailSafe") == want, "zone ", z.id, " after the pass at +", (vclock::now() - T0) / MS,
                     " ms: failsafe is ", !want);
        d.judgeWrites(z, cmds, got);
        if (prev.count(z.id) && prev[z.id] != want)
            (want ? in : out)++;
        prev[z.id] = want;
    };
    d.run(T0 + (span + 3500) * MS);
    if (in)
        c.label("timed out");
    c.nontrivial(in && out);
}
