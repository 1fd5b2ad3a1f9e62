// C17, as run: a configuration that loads either fails to be built, with an
// exception the daemon handles, or runs without one.
#include "rig.hpp"
#include "buildjson/buildjson.hpp"
#include "pid/buildjson.hpp"
#include "sensors/buildjson.hpp"
using namespace rig;
using J = ojson;

namespace
{
void walk(const J& j, const J::json_pointer& at, std::vector<J::json_pointer>& out)
{
    if (j.is_object())
        for (auto& [k, v] : j.items())
        {
            out.push_back(at / k);
            walk(v, at / k, out);
        }
    else if (j.is_array())
        for (size_t k = 0; k < j.size(); ++k)
        {
            out.push_back(at / k);
            walk(j[k], at / k, out);
        }
}
void drop(J& d, const J::json_pointer& p)
{
    J& up = d[p.parent_pointer()];
    if (up.is_object())
        up.erase(p.back());
    else if (up.is_array())
        up.erase(static_cast<size_t>(std::stoul(p.back())));
}
struct Case
{
    Conf cf;
    J doc;
};
Opt options(pbt::Src& s)
{
    Opt o;
    o.zonesMax = static_cast<int>(s.i(1, 2));
    o.thermalsMax = 3;
    o.fansMax = 3;
    o.levels = true;
    o.ext = true;
    o.sysfs = true;
    o.sysfsOut = true;
    o.pidThermals = true;
    o.minimum = s.b(50);
    o.acceptable = s.b(30);
    o.acc = s.b(30);
    o.timeouts = s.b(50);
    o.ceilingPct = s.b(30) ? 30 : 0;
    return o;
}
std::string save(const J& d)
{
    std::string p = pbt::scratch() + "/c17b.json";
    std::ofstream f(p);
    f << d.dump(1);
    return p;
}
void load(Rig& r, const J& d)
{
    auto data = parseValidateJson(save(d));
    r.sensorConfig = buildSensorsFromJson(data);
    std::tie(r.conf.pids, r.conf.zones) = buildPIDsFromJson(data);
}
} // namespace

PBT(loaded_runs, 1500, 40000, "the zones ran passes from a configuration file, with readings changing")
{
    Opt o = options(s);
    Conf cf = genConf(s, o);
    describe(c, cf);
    Names n(cf);
    Rig r(cf);
    Model m(r);
    J doc = toJson(cf, r.sensorConfig);
    auto pids = r.conf.pids;
    load(r, doc);
    r.build();
    pbt::require(r.zones.size() == cf.zones.size(), r.zones.size(), " zones were built of ", cf.zones.size());
    r.start();
    m.start(T0);
    Drive d(r, m);
    int64_t span = anySpan(s, 300, 3000);
    int changes = static_cast<int>(s.i(0, 10));
    for (int k = 0; k < changes; ++k)
    {
        Event e;
        e.t = evTime(s, span);
        e.who = s.pick(n.readable);
        e.kind = Event::value;
        e.v = anyReading(s, cf.sensors.at(e.who).info.type == "fan");
        d.events.push_back(e);
    }
    sortEvents(d.events);
    for (auto& e : d.events)
        c.note(e.show());
    d.onTick = [&](MZone& z, const std::vector<Cmd>& cmds, const std::vector<Sent>& got) {
        d.judgeWrites(z, cmds, got);
        pbt::require(r.zoneFlag(z.id, "FailSafe") == !z.failed.empty(), "zone ", z.id, " reports failsafe ", z.failed.empty());
    };
    d.run(T0 + (span + 1200) * MS);
    c.nontrivial(changes > 2);
}

PBT(mutated_runs, 6000, 150000, "a mutated document was accepted and its zones ran passes, or building it failed")
{
    Opt o = options(s);
    Conf cf = genConf(s, o);
    Rig r(cf);
    J doc = toJson(cf, r.sensorConfig);
    std::vector<std::string> names{"nobody", "", "fan", "temp", "margin", "power", "powersum", "stepwise", "None", "x/y"};
    std::vector<std::string> paths{"", "None", "/nowhere/at/all", "/xyz/openbmc_project/extsensors/temperature/q", "/xyz/openbmc_project/sensors/temperature/q",
                                   pbt::scratch() + "/rig/sys/absent", pbt::scratch() + "/rig/sys/**/absent"};
    for (auto& [k, sc] : r.sensorConfig)
    {
        names.push_back(k);
        paths.push_back(sc.readPath);
        paths.push_back(sc.writePath);
    }
    int muts = static_cast<int>(s.w({0, 5, 3, 2}));
    for (int k = 0; k < muts; ++k)
    {
        std::vector<J::json_pointer> all, ins, sens;
        walk(doc, J::json_pointer(), all);
        for (auto& p : all)
        {
            std::string t = p.to_string();
            if (t.find("/inputs") != std::string::npos)
                ins.push_back(p);
            if (t.rfind("/sensors/", 0) == 0)
                sens.push_back(p);
        }
        size_t w = s.w({4, 4, 3, 2, 2, 2, 2, 2});
        auto set = [&](const J::json_pointer& p, const J& v) {
            c.note("set ", p.to_string(), " to ", v.dump());
            doc[p] = v;
        };
        if (w == 0 && !ins.empty())
        {
            auto p = s.pick(ins);
            if (doc[p].is_array())
                set(p, s.b(60) ? J::array() : J::array({s.pick(names)}));
            else
                set(p, s.pick(names));
        }
        else if (w == 1 && !sens.empty())
        {
            auto p = s.pick(sens);
            std::string key = p.back();
            if (key == "readPath" || key == "writePath")
                set(p, s.pick(paths));
            else if (key == "type")
                set(p, s.pick(std::vector<std::string>{"fan", "temp", "margin", "power", "powersum", "other"}));
            else if (key == "name")
                set(p, s.pick(names));
            else if (doc[p].is_object() && s.b(70))
            {
                c.note("drop ", p.to_string());
                drop(doc, p);
            }
            else if (doc[p].is_number())
                set(p, s.pick(std::vector<double>{-1, 0, 1, 255, 1e9, -1e9}));
        }
        else if (w == 2)
        {
            auto p = s.pick(all);
            c.note("drop ", p.to_string());
            drop(doc, p);
        }
        else if (w == 3 || w == 4)
        {
            auto p = s.pick(all);
            if (doc[p].is_string())
                set(p, p.back() == "readPath" || p.back() == "writePath" ? J(s.pick(paths)) : J(s.pick(names)));
            else if (doc[p].is_number())
                set(p, s.pick(std::vector<double>{-1, 0, 1, 7, 100, 1e6, -1e6, 0.5, 1e300}));
            else if (doc[p].is_boolean())
                set(p, !doc[p].get<bool>());
            else if (doc[p].is_array())
                set(p, J::array());
        }
        else
        {
            // something is there twice
            auto p = s.pick(all);
            J& up = doc[p.parent_pointer()];
            if (up.is_array() && up.size() < 12)
            {
                J copy = doc[p];
                c.note("duplicate ", p.to_string());
                up.push_back(copy);
            }
        }
    }
    std::string end;
    try
    {
        load(r, doc);
    }
    catch (const std::exception& e)
    {
        c.label("refused when read");
        return;
    }
    // Within what a machine can run: no zone busy for ever, no file outside of
    // the sandbox's scratch.
    for (auto& [id, z] : r.conf.zones)
        if (z.cycleTime.cycleIntervalTimeMS < 5 || z.cycleTime.cycleIntervalTimeMS > 1000000000)
            throw pbt::Discard("cycle time");
    for (auto& [name, sc] : r.sensorConfig)
        for (auto* p : {&sc.readPath, &sc.writePath})
            if (p->find("/sys/") != std::string::npos && p->rfind(pbt::scratch(), 0) != 0)
                throw pbt::Discard("path");
    bool built = false;
    try
    {
        r.build();
        for (auto& [id, z] : r.zones)
            pbt::require(r.conf.zones.count(id), "zone ", id, " was built without being configured");
        for (auto& [id, z] : r.conf.pids)
            pbt::require(r.zones.count(id), "zone ", id, " of the configuration was not built");
        r.start();
        built = true;
    }
    catch (const pbt::Failure&)
    {
        throw;
    }
    catch (const std::exception& e)
    {
        c.note("building failed: ", e.what());
        c.label("refused when built");
    }
    if (built)
    {
        c.label("ran");
        // An exception out of the event loop ends the daemon.
        try
        {
            for (int k = 0; k < 30; ++k)
            {
                vclock::advance(97 * MS);
                r.poll();
            }
        }
        catch (const pbt::Failure&)
        {
            throw;
        }
        catch (const std::exception& e)
        {
            pbt::failf("an accepted configuration ended the daemon while running: ", e.what());
        }
    }
    c.nontrivial();
}
