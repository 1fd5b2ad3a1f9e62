// C10: passes run on schedule and in order, whatever the intervals and however
// long a pass takes.
#include "rig.hpp"
using namespace rig;

PBT(schedule, 4000, 100000, "more than ten passes of a zone, several thermal passes among them")
{
    Opt o;
    o.odd = true;
    o.pidThermals = true;
    o.thermalsMax = 1;
    o.zonesMax = static_cast<int>(s.w({3, 2, 1})) + 1;
    o.fansMax = 3;
    o.sharedSensors = false;
    Conf cf = genConf(s, o);
    // Commands tell which readings they were computed from: the request is the
    // thermal reading, and a small part of each command the fan's.
    for (auto& [id, pc] : cf.pids)
    {
        for (auto& [n, ci] : pc)
        {
            if (ci.type != "fan")
            {
                ci.type = "temp";
                ci.inputs.resize(1);
                ci.inputs[0].convertTempToMargin = false;
                ci.setpoint = 0;
                ci.pidInfo = plainPid();
                ci.pidInfo.proportionalCoeff = -1;
            }
            else
                ci.pidInfo.proportionalCoeff = -0.0009765625;
        }
        auto& ct = cf.zones[id].cycleTime;
        if (s.b(35))
        {
            ct.cycleIntervalTimeMS = static_cast<uint64_t>(s.i(5, 400));
            ct.updateThermalsTimeMS = static_cast<uint64_t>(s.i(0, 1500));
        }
    }
    for (auto& [n, sp] : cf.sensors)
    {
        sp.kind = SensorSpec::bus;
        sp.info.timeout = 0;
        sp.startBad = sp.missing = false;
        sp.info.type = sp.info.type == "fan" ? "fan" : "temp";
        sp.info.min = sp.info.type == "fan" ? 0 : sp.info.min;
        sp.start = sp.info.type == "fan" ? 2000 : 40;
    }
    describe(c, cf);
    Names n(cf);
    Rig r(cf);
    Model m(r);
    r.build();
    std::map<std::string, int64_t> zoneOf;
    std::map<int64_t, std::vector<std::string>> fansOf, thOf;
    for (auto& [id, z] : m.zones)
    {
        for (auto& f : z.fanInputs)
            zoneOf[f] = id, fansOf[id].push_back(f);
        thOf[id] = z.thermalInputs;
    }
    uint64_t serial = 0;
    auto refresh = [&](int64_t id) { // new readings for a zone
        ++serial;
        for (auto* l : {&thOf[id], &fansOf[id]})
            for (auto& name : *l)
            {
                Event e;
                e.kind = Event::value;
                e.t = vclock::now();
                e.who = name;
                e.v = l == &thOf[id] ? 20 + static_cast<double>((serial * 7) % 61) : 1000 + static_cast<double>((serial * 131) % 4001);
                r.apply(e);
                m.apply(e);
            }
    };
    uint64_t fastest = 100000;
    for (auto& [_, zc] : cf.zones)
        fastest = std::min(fastest, zc.cycleTime.cycleIntervalTimeMS);
    int64_t end = T0 + std::min<int64_t>(s.i(500, 12000), 300 * static_cast<int64_t>(fastest)) * MS;
    int slow = static_cast<int>(s.w({3, 3, 2}));
    bool hands = s.b(30); // manual mode now and then
    int takenOver = 0;
    std::map<int64_t, std::vector<Cmd>> due;
    std::map<int64_t, size_t> got;
    int64_t lastEnd = T0;
    int64_t worst = 0;
    r.delay = [&]() -> int64_t {
        Sent x = r.sent.back();
        int64_t id = zoneOf.at(x.fan);
        auto& z = m.zones.at(id);
        auto at = [&](int64_t t) { return "+" + std::to_string(static_cast<double>(t - T0) / MS) + " ms"; };
        if (due[id].empty())
        {
            int64_t want = std::max(z.next, lastEnd);
            worst = std::max(worst, x.t - z.next);
            if (x.t != want)
                pbt::failf("pass ", z.ticks + 1, " of zone ", id, " (every ", z.zc.cycleTime.cycleIntervalTimeMS, " ms, thermals every ",
                           z.zc.cycleTime.updateThermalsTimeMS, " ms) ran at ", at(x.t), " instead of ", at(want));
            due[id] = m.tick(z, x.t);
            got[id] = 0;
        }
        // in any order
        bool known = false;
        for (auto& cmd : due[id])
            if (cmd.fan == x.fan)
            {
                known = true;
                double want = rawOf(r.conf.sensors.at(x.fan).info, cmd.pct);
                if (!rawClose(want, static_cast<double>(x.raw)))
                    pbt::failf("pass ", z.ticks, " of zone ", id, " (every ", z.zc.cycleTime.cycleIntervalTimeMS, " ms, thermals every ",
                               z.zc.cycleTime.updateThermalsTimeMS, " ms) commanded ", x.fan, " ", x.raw, " instead of ", want,
                               " (set point ", z.setpoint, ")");
            }
        pbt::require(known, "a command for ", x.fan);
        int64_t cost = 0;
        if (slow && x.t - z.next < SEC && vclock::now() < end && s.b(slow == 1 ? 20 : 60))
            cost = s.i(0, slow == 1 ? 50 : 400) * MS + s.i(0, 999) * 1000;
        if (++got[id] == due[id].size())
        {
            due[id].clear();
            refresh(id);
        }
        lastEnd = vclock::now() + cost;
        return cost;
    };
    r.start();
    m.start(T0);
    for (auto& [id, _] : m.zones)
        refresh(id);
    int guard = 0;
    while (++guard < 3000)
    {
        int64_t t = std::numeric_limits<int64_t>::max();
        for (auto& [_, z] : m.zones)
            t = std::min(t, z.next);
        if (t > end || vclock::now() > end)
            break;
        if (t - 1 > vclock::now())
        {
            vclock::set(t - 1);
            size_t before = r.sent.size();
            r.poll();
            pbt::require(r.sent.size() == before, "a pass ran early");
            bool idle = true;
            for (auto& [_, q] : due)
                idle = idle && q.empty();
            if (hands && idle && s.b(12))
            {
                Event e;
                e.kind = Event::manual;
                e.t = vclock::now();
                e.zone = s.pick(n.zones);
                e.on = !m.zones.at(e.zone).manual;
                takenOver += e.on;
                r.apply(e);
                m.apply(e);
            }
        }
        bool silent = true;
        for (auto& [_, z] : m.zones)
            silent = silent && (z.manual || z.next > std::max(t, vclock::now()));
        vclock::set(std::max(t, vclock::now()));
        size_t before = r.sent.size();
        r.poll();
        pbt::require(silent || r.sent.size() > before, "the pass due at +", (t - T0) / MS, " ms did not run");
        pbt::require(!silent || r.sent.size() == before, "a pass ran in manual mode at +", (t - T0) / MS, " ms");
        // in manual mode the schedule goes on, and nothing else
        for (auto& [_, z] : m.zones)
            while (z.manual && z.next <= vclock::now())
                m.tick(z, z.next);
        for (auto& [id, q] : due)
            pbt::require(q.empty(), "zone ", id, " left out a fan of a pass");
    }
    uint64_t passes = 0, thermal = 0;
    for (auto& [id, z] : m.zones)
    {
        passes = std::max(passes, z.passes);
        thermal = std::max(thermal, z.thermalPasses);
        if (z.zc.cycleTime.updateThermalsTimeMS < z.zc.cycleTime.cycleIntervalTimeMS)
            c.label("thermal interval shorter");
    }
    if (worst > 0)
        c.label("late passes");
    if (takenOver)
        c.label("manual mode");
    c.nontrivial(passes > 10 && thermal > 2);
}
