// C16: a JSON configuration means exactly what it says.
#include "buildjson/buildjson.hpp"
#include "jsonconf.hpp"
#include "pid/buildjson.hpp"
#include "sensors/buildjson.hpp"
#include "util.hpp"

using namespace jc;

PBT(fidelity, 14000, 600000, "the document described at least one zone with a controller")
{
    Conf conf = genConf(s);
    auto doc = render(s, conf);
    std::string text = s.b(60) ? doc.dump() : doc.dump(static_cast<int>(s.i(0, 5)), s.b(50) ? ' ' : '\t');
    c.note(text);
    std::string path = pbt::scratch() + "/c.json";
    write(path, text);
    for (auto& z : conf.zones)
        for (auto& p : z.pids)
        {
            c.nontrivial();
            c.label("controller:" + p.type);
        }
    auto data = parseValidateJson(path);
    auto sensors = pid_control::buildSensorsFromJson(data);
    auto [pids, zones] = pid_control::buildPIDsFromJson(data);

    pbt::require(sensors.size() == conf.sensors.size(), sensors.size(), " sensors built from ", conf.sensors.size());
    for (auto& x : conf.sensors)
    {
        auto it = sensors.find(x.name);
        pbt::require(it != sensors.end(), "sensor '", x.name, "' not built");
        auto d = diff(it->second, x.want);
        pbt::require(d.empty(), "sensor '", x.name, "': ", d);
    }
    pbt::require(zones.size() == conf.zones.size() && pids.size() == conf.zones.size(), zones.size(), "/", pids.size(),
                 " zones built from ", conf.zones.size());
    for (auto& z : conf.zones)
    {
        pbt::require(zones.count(z.id) && pids.count(z.id), "zone ", z.id, " not built");
        auto d = diff(zones.at(z.id), z.want);
        pbt::require(d.empty(), "zone ", z.id, ": ", d);
        auto& got = pids.at(z.id);
        pbt::require(got.size() == z.pids.size(), "zone ", z.id, ": ", got.size(), " controllers built from ", z.pids.size());
        for (auto& p : z.pids)
        {
            auto it = got.find(p.name);
            pbt::require(it != got.end(), "controller '", p.name, "' not built");
            auto e = diff(it->second, p.want);
            pbt::require(e.empty(), "controller '", p.name, "': ", e);
            std::vector<std::string> names;
            for (auto& i : p.want.inputs)
                names.push_back(i.name);
            pbt::require(pid_control::splitNames(it->second.inputs) == names, "controller '", p.name, "': input names not recovered");
        }
    }
}
