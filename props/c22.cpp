// C22: the zone log has a row per pass with what was used and commanded.
#include "rig.hpp"
using namespace rig;

static std::vector<std::string> split(const std::string& l)
{
    std::vector<std::string> r{""};
    for (char ch : l)
        if (ch == ',')
            r.push_back("");
        else
            r.back() += ch;
    return r;
}
static double num(const std::string& t, const std::string& what)
{
    char* end = nullptr;
    double v = std::strtod(t.c_str(), &end);
    pbt::require(!t.empty() && end && !*end, what, " is \"", t, "\", not a number");
    return v;
}
static bool same(double want, double got)
{
    if (!std::isfinite(want) || !std::isfinite(got))
        return (std::isnan(want) && std::isnan(got)) || want == got;
    return std::fabs(want - got) <= 1e-5 * std::max(1.0, std::fabs(want));
}

PBT(zone_log, 10000, 100000, "more than five rows, with a failure, a manual phase or a change of leader among them")
{
    Opt o;
    o.zonesMax = static_cast<int>(s.i(1, 2));
    o.thermalsMax = 3;
    o.fansMax = 3;
    o.levels = true;
    o.ext = true;
    o.sysfs = true;
    o.sysfsOut = s.b(40);
    o.pidThermals = s.b(50);
    o.minimum = s.b(40);
    o.ceilingPct = s.b(30) ? 30 : 0;
    o.acc = s.b(30);
    o.timeouts = s.b(20);
    o.startFaults = s.b(30);
    o.acceptable = s.b(20);
    o.fanP = s.b(50);
    o.odd = s.b(40);
    o.writeOnlyPct = s.b(20) ? 30 : 0;
    Conf cf = genConf(s, o);
    for (auto& [n, sp] : cf.sensors)
        if (sp.info.type != "fan" && sp.kind == SensorSpec::bus && s.b(30))
        {
            // scaled and unscaled differ
            sp.info.ignoreDbusMinMax = true;
        }
    describe(c, cf);
    Names n(cf);
    Rig r(cf);
    Model m(r);
    std::string dir = pbt::scratch() + "/rig/log";
    std::filesystem::remove_all(dir);
    std::filesystem::create_directories(dir);
    loggingEnabled = true;
    loggingPath = dir;
    r.build();
    r.start();
    m.start(T0);
    Drive d(r, m);
    int64_t span = anySpan(s, 300, 4000);
    int changes = static_cast<int>(s.i(2, 20));
    for (int k = 0; k < changes; ++k)
    {
        Event e;
        e.t = evTime(s, span);
        size_t w = s.w({8, n.bus.empty() ? 0u : 2u, 1, 1});
        if (w == 0)
        {
            e.kind = Event::value;
            e.who = s.pick(n.readable);
            bool fan = cf.sensors.at(e.who).info.type == "fan";
            e.v = fan ? s.q(500, 6000, 1) : s.b(5) ? NaN : anyReading(s, false);
            if (cf.sensors.at(e.who).kind == SensorSpec::sysfs && std::isnan(e.v))
                e.v = 7;
        }
        else if (w == 1)
        {
            e.kind = Event::functional;
            e.who = s.pick(n.bus);
            e.on = s.b(50);
        }
        else if (w == 2)
        {
            e.kind = Event::manual;
            e.zone = s.pick(n.zones);
            e.on = s.b(50);
        }
        else
        {
            auto p = s.pick(n.procs);
            e.kind = Event::enabled;
            e.zone = p.first;
            e.who = p.second;
            e.on = s.b(50);
        }
        d.events.push_back(e);
    }
    sortEvents(d.events);
    for (auto& e : d.events)
        c.note(e.show());
    bool turned = false;
    d.onTick = [&](MZone& z, const std::vector<Cmd>& cmds, const std::vector<Sent>& got) {
        if (!z.manual)
            d.judgeWrites(z, cmds, got);
        turned |= z.manual || !z.failed.empty();
    };
    d.run(T0 + (span + 1000) * MS);
    r.teardown(); // closes the logs
    size_t most = 0;
    size_t files = 0;
    for (auto& f : std::filesystem::directory_iterator(dir))
        files += f.path().filename().string().rfind("zone_", 0) == 0;
    pbt::require(files == m.zones.size(), files, " zone logs for ", m.zones.size(), " zones");
    for (auto& [id, z] : m.zones)
    {
        std::ifstream f(dir + "/zone_" + std::to_string(id) + ".log");
        std::string line, zn = "log of zone " + std::to_string(id);
        pbt::require(static_cast<bool>(std::getline(f, line)), zn, " has no header");
        auto head = split(line);
        pbt::require(head.size() > 3 && head[0] == "epoch_ms" && head[1] == "setpt" && head[2] == "requester" && head.back() == "failsafe",
                     zn, " has the header ", line);
        std::map<std::string, size_t> col;
        for (size_t k = 0; k < head.size(); ++k)
            pbt::require(col.emplace(head[k], k).second, zn, " has the column ", head[k], " twice");
        std::vector<std::string> want;
        for (auto& x : z.fanInputs)
            for (auto* suf : {"", "_raw", "_pwm", "_pwm_raw"})
                want.push_back(x + suf);
        for (auto& x : z.thermalInputs)
            for (auto* suf : {"", "_raw"})
                want.push_back(x + suf);
        for (auto& w : want)
            pbt::require(col.count(w), zn, " has no column ", w);
        pbt::require(head.size() == want.size() + 4, zn, " has columns beyond its sensors: ", line);
        size_t k = 0;
        while (std::getline(f, line))
        {
            auto cell = split(line);
            std::string rn = zn + " row " + std::to_string(k + 1);
            pbt::require(k < z.rows.size(), rn, " for ", z.rows.size(), " passes: ", line);
            auto& row = z.rows[k++];
            pbt::require(cell.size() == head.size(), rn, " has ", cell.size(), " fields of ", head.size(), ": ", line);
            pbt::require(static_cast<int64_t>(num(cell[0], rn + " time")) == row.t / MS, rn, " has time ", cell[0], " instead of ", row.t / MS);
            pbt::require(same(row.setpt, num(cell[1], rn + " set point")), rn, " has set point ", cell[1], " instead of ", row.setpt);
            pbt::require(row.leader.count(cell[2]), rn, " has requester \"", cell[2], "\" which did not decide the set point");
            pbt::require(num(cell.back(), rn + " failsafe") == (row.failsafe ? 1 : 0), rn, " has failsafe ", cell.back());
            for (size_t q = 0; q < want.size(); ++q)
            {
                double got = num(cell[col[want[q]]], rn + " " + want[q]);
                double exp = row.cells[q];
                bool ok = same(exp, got);
                if (want[q].size() > 8 && want[q].substr(want[q].size() - 8) == "_pwm_raw")
                {
                    auto& sp = cf.sensors.at(want[q].substr(0, want[q].size() - 8));
                    ok = ok || rawClose(exp, got) || (sp.sysfsOut && got == -1);
                }
                pbt::require(ok, rn, " has ", want[q], " = ", got, " instead of ", exp);
            }
        }
        pbt::require(k == z.rows.size(), zn, " has ", k, " rows for ", z.rows.size(), " passes");
        most = std::max(most, k);
    }
    c.nontrivial(most > 5 && turned);
}
