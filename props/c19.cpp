// C19: zone numbers from D-Bus configuration are unique and stable.
#include "dbus/dbusutil.hpp"
#include "engine.hpp"

using namespace pid_control;

PBT(numbers, 300000, 10000000, "an explicit number was already taken, or automatic numbers skipped taken ones")
{
    std::map<std::string, int64_t> zones;
    std::map<std::string, int64_t> want;
    int n = static_cast<int>(s.i(1, 14));
    int span = static_cast<int>(s.i(2, 9));
    for (int k = 0; k < n; ++k)
    {
        std::string name = "Zone" + std::to_string(s.i(0, span));
        bool explicitNumber = s.b(50);
        int64_t num = s.b(85) ? s.i(0, 5) : s.i(-3, 400);
        auto taken = [&](int64_t x) {
            for (auto& [_, v] : want)
                if (v == x)
                    return true;
            return false;
        };
        auto it = want.find(name);
        int64_t expect;
        if (it != want.end())
            expect = it->second;
        else
        {
            expect = explicitNumber ? num : 0;
            while (taken(expect))
            {
                ++expect;
                c.nontrivial();
            }
            want[name] = expect;
        }
        int64_t got = explicitNumber ? setZoneIndex(name, zones, num) : getZoneIndex(name, zones);
        c.note(explicitNumber ? "set " : "get ", name, explicitNumber ? " " + std::to_string(num) : "", " -> ", got);
        std::set<int64_t> seen;
        for (auto& [z, v] : zones)
            pbt::require(seen.insert(v).second, "two zones share number ", v);
        pbt::require(got == expect, name, " got number ", got, " instead of ", expect);
        pbt::require(zones == want, "recorded numbers changed");
    }
}

PBT(names, 60000, 2000000, "a name matched some but not all sensors")
{
    // Plain names and the name patterns entity-manager configurations use.
    std::unordered_map<std::string, std::string> sensors;
    std::vector<std::string> types{"fan_tach", "temperature", "power", "fan_pwm"};
    std::vector<std::string> bases{"fan", "cpu", "dimm_A", "x_fan", "Temp"};
    int n = static_cast<int>(s.i(0, 8));
    for (int k = 0; k < n; ++k)
        sensors["/xyz/openbmc_project/sensors/" + s.pick(types) + "/" + s.pick(bases) + std::to_string(s.i(0, 12))] =
            "/i/" + std::to_string(k);
    std::string base = s.pick(bases);
    int d = static_cast<int>(s.i(0, 12));
    int kind = static_cast<int>(s.w({5, 2, 2}));
    if (kind == 2 && base == "fan") // would also match the directory fan_tach
        base = "cpu";
    std::string search = kind == 0 ? base + std::to_string(d) : kind == 1 ? base + "[0-9]+" : base + ".*";
    std::set<std::pair<std::string, std::string>> want;
    for (auto& [p, i] : sensors)
    {
        std::string leaf = p.substr(p.rfind('/') + 1);
        bool starts = leaf.compare(0, base.size(), base) == 0;
        bool digits = leaf.size() > base.size() && leaf.find_first_not_of("0123456789", base.size()) == std::string::npos;
        if (kind == 0 ? leaf == search : kind == 1 ? starts && digits : starts)
            want.insert({p, i});
    }
    std::vector<std::pair<std::string, std::string>> got;
    bool any = findSensors(sensors, search, got);
    std::set<std::pair<std::string, std::string>> g(got.begin(), got.end());
    c.nontrivial(!want.empty() && want.size() < sensors.size());
    c.note(search, " in ", sensors.size(), " sensors: ", got.size());
    pbt::require(any == !want.empty(), "reported ", any ? "a match" : "no match", " for ", search);
    pbt::require(g.size() == got.size(), "a sensor was returned twice for ", search);
    pbt::require(g == want, search, " matched ", g.size(), " sensors instead of ", want.size());
}
