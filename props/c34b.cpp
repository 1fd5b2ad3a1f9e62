// C34: a configuration on D-Bus that changes while it is being read.
#include "config.h"
#include "daemon.hpp"
#include "dbusconf.hpp"

namespace
{
using namespace dm;

static const std::string kModeRoot = "/xyz/openbmc_project/settings/fanctrl";
static const std::string kSensors = "/xyz/openbmc_project/sensors/";

struct Version
{
    int v = 0;
    bool empty = false;
    std::vector<std::pair<int, bool>> zones; // number, whether the extra sensor is there
};
struct Change
{
    int phase = 0, call = 0; // after that many answers of the phase
    int to = 0;
    bool done = false;
};
static double base(int v, int zone)
{
    return 20 + 8 * v + 0.75 * zone;
}

struct Scene
{
    pbt::Src& s;
    pbt::Ctx& c;
    Sim sim{"read"};
    std::vector<Version> versions;
    std::vector<std::map<std::string, bw::Obj>> worlds;
    std::vector<Change> changes;
    bool profiles = false;
    int phases = 1, now = 0;
    int phase = 0, calls = 0;
    static constexpr int64_t kLen = 70 * SEC;
    std::map<std::string, double> last;

    Scene(pbt::Src& s, pbt::Ctx& c) : s(s), c(c) {}

    static std::string num(int z)
    {
        return std::to_string(z);
    }
    dc::Config config(const Version& x)
    {
        dc::Config r;
        for (int z = 0; z < 3; ++z)
        {
            r.sensors.push_back({kSensors + "temperature/Temp_" + num(z), bw::VALUE, {}, {}});
            r.sensors.push_back({kSensors + "fan_tach/Fan_" + num(z), bw::VALUE, {}, {}});
            r.sensors.push_back({"/xyz/openbmc_project/control/fanpwm/Pwm_" + num(z), bw::FANPWM, {}, {}});
        }
        if (profiles)
            r.current = {"P" + num(x.v)};
        if (x.empty)
            return r;
        for (auto& [z, extra] : x.zones)
        {
            if (extra)
                r.sensors.push_back({kSensors + "temperature/Extra_" + num(z), bw::VALUE, {}, {}});
            dc::Zone zo;
            zo.name = "Zone " + num(z);
            zo.index = z;
            zo.min = 5;
            zo.failsafe = 100;
            zo.cycle = 500;
            zo.thermal = 1000;
            r.zones.push_back(zo);
            dc::Ctl fan;
            fan.name = "Fans " + num(z);
            fan.cls = "fan";
            fan.zones = {zo.name};
            fan.inputs = {"Fan " + num(z)};
            fan.outputs = {"Pwm " + num(z)};
            fan.ffGain = 1;
            fan.oMax = 100;
            r.ctls.push_back(fan);
            for (int p = 0; p < (profiles ? static_cast<int>(versions.size()) : 1); ++p)
            {
                int b = profiles ? p : x.v;
                dc::Ctl st;
                st.step = true;
                st.name = "Step " + num(z);
                st.zones = {zo.name};
                st.inputs = {"Temp " + num(z), "Extra " + num(z)};
                st.reading = {25, 50};
                st.output = {base(b, z), base(b, z) + 4};
                if (profiles)
                    st.profiles = dc::Strings{"P" + num(p)};
                r.ctls.push_back(st);
            }
        }
        return r;
    }
    void values()
    {
        for (auto& [p, o] : sim.world.objs)
            if (p.starts_with(kSensors))
                o.ifaces[bw::VALUE]["Value"] = mk(p.find("Extra") != std::string::npos ? 60.0 : p.find("Temp") != std::string::npos ? 20.0 : 3000.0);
    }
    void apply(Change& ch)
    {
        ch.done = true;
        rec("change", std::to_string(ch.to), std::to_string(calls));
        auto& before = versions[static_cast<size_t>(now)];
        now = ch.to;
        sim.world.objs = worlds[static_cast<size_t>(now)];
        values();
        auto& x = versions[static_cast<size_t>(now)];
        // an extra sensor comes or goes
        for (auto& [z, extra] : x.zones)
            for (auto& [y, had] : before.zones)
                if (z == y && extra != had)
                {
                    std::unordered_map<std::string, std::unordered_map<std::string, std::variant<bool>>> data;
                    data[bw::VALUE]["Present"] = true;
                    auto path = kSensors + "temperature/Extra_" + num(z);
                    if (extra)
                        queued(sim::mkSignal("xyz.openbmc_project.Sensors", "/xyz/openbmc_project/sensors", dc::OM, "InterfacesAdded",
                                             {mk(sdbusplus::object_path(path)), mk(data)}));
                    else
                        queued(sim::mkSignal("xyz.openbmc_project.Sensors", "/xyz/openbmc_project/sensors", dc::OM, "InterfacesRemoved",
                                             {mk(sdbusplus::object_path(path)), mk(std::vector<std::string>{bw::VALUE})}));
                }
        queued(sim::mkPropsChanged("xyz.openbmc_project.EntityManager", "/xyz/openbmc_project/inventory/system/board/x",
                                   profiles ? dc::TMODE : x.v % 2 ? dc::PID : x.v % 3 ? dc::ZONE : dc::STEP, {{"Name", mk(std::string("x"))}}));
    }
    void check()
    {
        auto& x = versions[static_cast<size_t>(now)];
        std::set<std::string> want, got;
        if (!x.empty)
            for (auto& [z, extra] : x.zones)
            {
                want.insert(kModeRoot + "/zone" + num(z));
                want.insert(kModeRoot + "/zone" + num(z) + "/Step_" + num(z));
                auto it = last.find("/xyz/openbmc_project/control/fanpwm/Pwm_" + num(z));
                double have = it == last.end() ? -1 : it->second, pct = extra ? base(x.v, z) + 4 : HANDLE_MISSING_OBJECT_PATHS ? 100 : base(x.v, z);
                if (std::fabs(have - pct * 255 / 100) > 1.01)
                    rec("wrong", "fan " + num(z), "set to " + std::to_string(have) + ", wanted " + std::to_string(pct) + " %");
            }
        for (auto& [p, o] : sim::fabric().objects)
            for (auto& [i, _] : o)
                if (p.starts_with(kModeRoot + "/"))
                    got.insert(p);
        for (auto& o : want)
            if (!got.count(o))
                rec("wrong", o, "does not exist");
        for (auto& o : got)
            if (!want.count(o))
                rec("wrong", o, "is left over");
        rec("judged", std::to_string(now));
    }
    void plan()
    {
        profiles = s.b(25);
        int nv = static_cast<int>(s.i(2, 4));
        for (int v = 0; v < nv; ++v)
        {
            Version x;
            x.v = v;
            x.empty = !profiles && s.b(12);
            int nz = static_cast<int>(s.i(1, 3));
            if (profiles && v)
                x.zones = versions[0].zones;
            else
                for (int z = 0; z < nz; ++z)
                    x.zones.emplace_back(z, s.b(50));
            versions.push_back(x);
        }
        for (auto& x : versions)
        {
            bw::World w;
            dc::publish(s, w, config(x));
            worlds.push_back(w.objs);
        }
        phases = static_cast<int>(s.i(1, 2));
        for (int p = 0; p < phases; ++p)
        {
            int n = static_cast<int>(p ? s.i(0, 2) : s.i(1, 2));
            // the second load has to have a reason
            if (p)
                changes.push_back({p, -1, static_cast<int>(s.i(0, nv - 1))});
            for (int k = 0; k < n; ++k)
                changes.push_back({p, static_cast<int>(s.i(0, 45)), static_cast<int>(s.i(0, nv - 1))});
        }
        for (auto& x : versions)
        {
            std::string t;
            for (auto& [z, e] : x.zones)
                t += " " + num(z) + (e ? "+" : "");
            c.note("version ", x.v, x.empty ? ": nothing" : ": zones" + t, profiles ? ", as profile" : "");
        }
        for (auto& ch : changes)
            c.note("load ", ch.phase, ", after answer ", ch.call, ": version ", ch.to);
    }
    Run run()
    {
        sim.world.objs = worlds[0];
        values();
        sim.world.fault = [this](bw::Msg& m) -> std::optional<bw::Reply> {
            if (m.iface == bw::PROPS && m.member == "Set")
            {
                auto& v = m.body.at(2).sig == "v" ? m.body[2].kids.at(0) : m.body[2];
                uint64_t raw = 0;
                sim::Tr<uint64_t>::get(v, raw);
                last[m.path] = static_cast<double>(raw);
            }
            return dc::managed(sim.world, m);
        };
        sim.world.after = [this](bw::Msg& m) {
            if (m.member == "Set")
                return;
            ++calls;
            for (auto& ch : changes)
                if (!ch.done && ch.phase == phase && ch.call >= 0 && ch.call <= calls)
                    apply(ch);
        };
        for (int p = 0; p < phases; ++p)
        {
            int64_t t = p * kLen;
            if (p)
                sim.bus(t, [this, p] {
                    phase = p;
                    calls = 0;
                    for (auto& ch : changes)
                        if (ch.phase == p && ch.call < 0)
                            apply(ch);
                });
            // calls that were not made
            sim.bus(t + 30 * SEC, [this, p] {
                for (auto& ch : changes)
                    if (ch.phase == p && !ch.done)
                        apply(ch);
            });
            sim.at(t + kLen - SEC, [this] { check(); });
        }
        for (int64_t t = 500 * MS; t < phases * kLen; t += SEC)
            sim.bus(t, [this] {
                for (auto& [p, o] : sim.world.objs)
                    if (p.starts_with(kSensors))
                        queued(sim::mkPropsChanged("xyz.openbmc_project.Sensors", p, bw::VALUE, {{"Value", o.ifaces[bw::VALUE]["Value"]}}));
            });
        sim.horizon = phases * kLen;
        return sim.run();
    }
};

PBT(reading, 600, 15000, "the configuration changed between two calls of reading it")
{
    Scene x(s, c);
    x.plan();
    auto r = x.run();
    for (auto& l : r.trace)
        c.note("  ", l.t / 1e9, " ", l.kind, " ", l.what, " ", l.value);
    auto tail = r.log.size() > 2000 ? r.log.substr(r.log.size() - 2000) : r.log;
    pbt::require(!r.hung, "the daemon hangs: ", tail);
    pbt::require(r.running, "the daemon ended with ", r.exit, "/", r.sig, " at ", r.ended / 1e9, " s: ", tail);
    for (auto& l : r.of("wrong"))
        pbt::failf("at ", l.t / 1e9, " s ", l.what, " ", l.value);
    pbt::require(r.of("judged").size() == static_cast<size_t>(x.phases), "not judged");
    int inside = 0;
    for (auto& l : r.of("change"))
        inside += l.value != "0" && l.t % (70 * SEC) != 30 * SEC;
    if (inside)
        c.label("within the calls");
    c.nontrivial(inside > 0);
}
} // namespace
