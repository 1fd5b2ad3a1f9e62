// Sensor and fan faults for the rig.
#pragma once
#include "rig.hpp"

namespace rig
{
inline Event fault(pbt::Src& s, const Conf& cf, const Names& n, const std::set<std::string>& silent, int64_t span)
{
    Event e;
    e.t = evTime(s, span);
    e.who = s.pick(n.all);
    auto& sp = cf.sensors.at(e.who);
    bool fan = sp.info.type == "fan";
    auto good = [&] { return anyReading(s, fan); };
    if (sp.kind == SensorSpec::sysfs)
    {
        e.kind = s.b(60) ? Event::gone : Event::value;
        e.on = s.b(50);
        e.v = good();
        return e;
    }
    if (sp.kind == SensorSpec::ext)
    {
        e.kind = Event::value;
        e.v = s.b(75) ? good() : s.pick(std::vector<double>{NaN, Inf, -Inf});
        return e;
    }
    switch (s.w({10, 5, 4, 3}))
    {
        case 0:
            e.kind = Event::value;
            e.v = s.b(75) ? good() : s.b(80) ? NaN : Inf;
            if (sp.info.type == "margin" && s.b(15))
                e.v = s.q(-3, 0, 1);
            break;
        case 1:
            e.kind = Event::functional;
            e.on = s.b(50);
            break;
        case 2:
            e.kind = Event::crit;
            e.on = s.b(50);
            break;
        default:
            e.kind = Event::avail;
            e.on = s.b(50);
    }
    return e;
}
// Most faults end again some time later.
inline void andRepairs(pbt::Src& s, const Conf& cf, std::vector<Event>& es, int64_t span)
{
    auto faults = es;
    for (auto& f : faults)
    {
        bool fan = cf.sensors.at(f.who).info.type == "fan";
        bool bad = f.kind == Event::value ? !std::isfinite(f.v) || (cf.sensors.at(f.who).info.type == "margin" && f.v <= 0)
                   : f.kind == Event::functional || f.kind == Event::avail ? !f.on
                   : f.kind == Event::crit || f.kind == Event::gone      ? f.on
                                                                         : false;
        if (!bad || s.b(25))
            continue;
        Event e = f;
        e.t += s.i(50, std::max<int64_t>(60, span / 2)) * MS + 1000;
        e.on = !f.on;
        if (e.kind == Event::value || e.kind == Event::gone)
            e.v = fan ? 3000 : 40;
        es.push_back(e);
        if (e.kind == Event::avail)
        {
            e.kind = Event::value;
            e.v = fan ? 3000 : 40;
            e.t += 1000;
            es.push_back(e);
        }
    }
    // and what is wrong from the start is put right
    for (auto& [n, sp] : cf.sensors)
    {
        if (!(sp.startBad || !sp.functionalAtStart || (sp.missing && sp.kind == SensorSpec::sysfs) || sp.kind == SensorSpec::ext) || s.b(25))
            continue;
        Event e;
        e.t = T0 + s.i(1, span) * MS + 500000;
        e.who = n;
        e.kind = sp.kind == SensorSpec::sysfs ? Event::gone : Event::value;
        e.v = sp.info.type == "fan" ? 3000 : 40;
        es.push_back(e);
        if (!sp.functionalAtStart)
        {
            e.kind = Event::crit;
            e.on = false;
            es.push_back(e);
        }
    }
}
} // namespace rig
