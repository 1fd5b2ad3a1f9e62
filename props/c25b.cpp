// C25: a daemon configured from D-Bus follows the configuration there.
#include "daemon.hpp"
#include "dbusconf.hpp"

namespace
{
using namespace dm;

static const std::string kModeRoot = "/xyz/openbmc_project/settings/fanctrl";
static const std::string kSensors = "/xyz/openbmc_project/sensors/";
static double base(int v, int zone)
{
    return 20 + 10 * v + 0.75 * zone;
}
static double failsafe(int v)
{
    return 84 + 2 * v;
}
static const double kStep = 4;
static bool near(double raw, double pct)
{
    return std::fabs(raw - pct * 255 / 100) <= 1.01;
}
static std::string fanName(int z, int f)
{
    return "Fan " + std::to_string(z) + std::to_string(f);
}
static std::string pwmName(int z, int f)
{
    return "Pwm " + std::to_string(z) + std::to_string(f);
}

struct Version
{
    int v = 0;
    std::vector<std::pair<int, int>> zones; // number, fans
};
struct Phase
{
    enum Kind
    {
        change,    // other objects, announced
        profile,   // another mode is selected
        nothing,   // signals that do not matter
        hup,       // told to read it again
        empty,     // no configuration there
        outage,    // changed while the mapper does not answer
        malformed, // changed to something unusable, repaired later
        kinds
    } kind = change;
    int64_t from = 0;
    int version = 0;
    bool paused = false;
};

struct Scene
{
    pbt::Src& s;
    pbt::Ctx& c;
    Sim sim{"dbus"};
    std::vector<Version> versions;
    std::vector<Phase> phases;
    std::vector<int64_t> toggles;
    std::string failing; // member that gets no answer
    bool hot = false;
    bool profiles = false;
    static constexpr int64_t kLen = 52 * SEC, kCalm = 41 * SEC;

    Scene(pbt::Src& s, pbt::Ctx& c) : s(s), c(c) {}

    dc::Config config(int v, bool broken = false)
    {
        dc::Config r;
        for (int z = 0; z < 3; ++z)
        {
            r.sensors.push_back({kSensors + "temperature/Temp_" + std::to_string(z), bw::VALUE, {}, {}});
            for (int f = 0; f < 2; ++f)
            {
                r.sensors.push_back({kSensors + "fan_tach/" + dc::busName(fanName(z, f)), bw::VALUE, {}, {}});
                r.sensors.push_back({"/xyz/openbmc_project/control/fanpwm/" + dc::busName(pwmName(z, f)), bw::FANPWM, {}, {}});
            }
        }
        if (v < 0)
            return r;
        auto& x = versions[v];
        for (auto& [z, nf] : x.zones)
        {
            dc::Zone zo;
            zo.name = "Zone " + std::to_string(z);
            zo.index = z;
            zo.min = profiles ? 5 : base(v, z) - 3;
            zo.failsafe = profiles ? 100 : failsafe(v);
            zo.cycle = 500;
            zo.thermal = 1000;
            r.zones.push_back(zo);
            dc::Ctl fan;
            fan.name = "Fans " + std::to_string(z);
            fan.cls = "fan";
            fan.zones = {zo.name};
            for (int f = 0; f < nf; ++f)
            {
                fan.inputs.push_back(fanName(z, f));
                fan.outputs.push_back(pwmName(z, f));
            }
            fan.ffGain = 1;
            fan.oMax = 100;
            r.ctls.push_back(fan);
            for (int p = 0; p < (profiles ? static_cast<int>(versions.size()) : 1); ++p)
            {
                int b = profiles ? p : v;
                dc::Ctl st;
                st.step = true;
                st.name = "Step " + std::to_string(z);
                st.zones = {zo.name};
                st.inputs = {"Temp " + std::to_string(z)};
                st.reading = {25, 50};
                st.output = {base(b, z), base(b, z) + kStep};
                if (profiles)
                    st.profiles = dc::Strings{"P" + std::to_string(p)};
                r.ctls.push_back(st);
            }
        }
        if (broken)
        {
            bool k = s.b(50);
            if (r.zones.size() > 1 && s.b(30))
                r.zones.erase(r.zones.begin()); // a zone only named by its controllers
            else if (s.b(50))
                r.zones[0].drop = {"MinThermalOutput"};
            else if (k)
                r.ctls[0].spoil = {"PCoefficient"};
            else
                r.ctls[1].output.pop_back();
        }
        if (profiles)
            r.current = {"P" + std::to_string(v)};
        return r;
    }
    using Objs = std::map<std::string, bw::Obj>;
    Objs objects(const dc::Config& cf)
    {
        bw::World w;
        dc::publish(s, w, cf);
        return w.objs;
    }
    void value(Objs& o)
    {
        for (int z = 0; z < 3; ++z)
            o[kSensors + "temperature/Temp_" + std::to_string(z)].ifaces[bw::VALUE]["Value"] = mk(hot ? 60.0 : 20.0);
    }
    void swap(int64_t t, Objs o)
    {
        sim.at(t, [this, o = std::move(o)]() mutable {
            sim.world.objs = std::move(o);
            value(sim.world.objs);
        });
    }
    void announce(int64_t t, Phase::Kind k)
    {
        size_t how = k == Phase::profile ? 3 : s.draw(6);
        // what a new sensor's object comes with
        bool assoc = s.b(40), avail = s.b(30), both = s.b(20);
        sim.bus(t, [how, assoc, avail, both] {
            static const std::string ifs[] = {dc::PID, dc::ZONE, dc::STEP, dc::TMODE};
            if (how < 4)
            {
                auto m = sim::mkPropsChanged("xyz.openbmc_project.EntityManager", "/xyz/openbmc_project/inventory/system/board/x", ifs[how],
                                             {{"Name", mk(std::string("x"))}});
                sim::fabric().emit(m);
                return;
            }
            if (how == 5)
            {
                auto m = sim::mkSignal("xyz.openbmc_project.Sensors", "/xyz/openbmc_project/sensors", dc::OM, "InterfacesRemoved",
                                       {mk(sdbusplus::object_path(kSensors + "temperature/old")), mk(std::vector<std::string>{bw::VALUE})});
                sim::fabric().emit(m);
                return;
            }
            using A = std::vector<std::tuple<std::string, std::string, std::string>>;
            std::unordered_map<std::string, std::unordered_map<std::string, std::variant<A, bool>>> data;
            data["xyz.openbmc_project.Sensor.Value"]["Present"] = true;
            if (assoc || both)
                data["xyz.openbmc_project.Association.Definitions"]["Associations"] = A{{"chassis", "all_sensors", "/xyz"}};
            if (both)
                data["xyz.openbmc_project.Association"]["Associations"] = A{};
            if (avail)
                data[bw::AVAIL]["Available"] = true;
            auto m = sim::mkSignal("xyz.openbmc_project.Sensors", "/xyz/openbmc_project/sensors", dc::OM, "InterfacesAdded",
                                   {mk(sdbusplus::object_path(kSensors + "temperature/new")), mk(data)});
            sim::fabric().emit(m);
        });
    }
    void irrelevant(int64_t t)
    {
        size_t how = s.draw(5);
        sim.bus(t, [how] {
            using A = std::vector<std::tuple<std::string, std::string, std::string>>;
            bw::Msg m;
            if (how == 0)
                m = sim::mkPropsChanged("xyz.openbmc_project.EntityManager", "/xyz/openbmc_project/inventory/system/board/x",
                                        "xyz.openbmc_project.Inventory.Item", {{"Present", mk(true)}});
            else if (how == 1)
                m = sim::mkPropsChanged("xyz.openbmc_project.Sensors", kSensors + "temperature/other", bw::VALUE, {{"Value", mk(3.0)}});
            else
            {
                // the mapper's associations are not the sensors' doing
                std::unordered_map<std::string, std::unordered_map<std::string, std::variant<A, bool>>> data;
                for (auto& i : {"xyz.openbmc_project.Association", "xyz.openbmc_project.Association.Definitions"})
                    if (how == 4 || (how == 2) == (i == std::string("xyz.openbmc_project.Association")))
                        data[i]["Associations"] = A{{"chassis", "all_sensors", "/xyz"}};
                m = sim::mkSignal("xyz.openbmc_project.ObjectMapper", "/xyz/openbmc_project/sensors", dc::OM, "InterfacesAdded",
                                  {mk(sdbusplus::object_path(kSensors + "temperature/Temp_0/chassis")), mk(data)});
            }
            sim::fabric().emit(m);
        });
    }
    void plan()
    {
        profiles = s.b(25);
        int nv = static_cast<int>(s.i(1, 4));
        for (int v = 0; v < nv; ++v)
        {
            Version x;
            x.v = v;
            int nz = static_cast<int>(s.i(1, 3));
            if (profiles && v)
                x.zones = versions[0].zones;
            else
                for (int z = 0; z < nz; ++z)
                    x.zones.emplace_back(z, static_cast<int>(s.i(1, 2)));
            versions.push_back(x);
        }
        int v = 0;
        bool first = true, paused = false;
        auto span = [&](int64_t lo, int64_t hi) {
            return s.i(lo / MS, hi / MS) * MS;
        };
        int np = static_cast<int>(s.i(1, 4));
        for (int k = 0; k < np; ++k)
        {
            Phase p;
            p.from = k * kLen;
            p.kind = static_cast<Phase::Kind>(s.draw(Phase::kinds));
            if (profiles && p.kind != Phase::nothing && p.kind != Phase::hup)
                p.kind = Phase::profile;
            if (!profiles && p.kind == Phase::profile)
                p.kind = Phase::change;
            if (paused && (p.kind == Phase::nothing || p.kind == Phase::hup))
                p.kind = Phase::change;
            bool next = p.kind != Phase::nothing && p.kind != Phase::hup && p.kind != Phase::empty;
            if (next && !first && v + 1 < nv)
                ++v;
            p.version = v;
            int64_t start = p.from + (first ? 0 : span(0, 2 * SEC));
            bool tell = p.kind != Phase::nothing && p.kind != Phase::hup && !first;
            int64_t until = start + span(0, 18 * SEC);
            if (first)
                sim.world.objs = objects(config(v));
            switch (p.kind)
            {
                case Phase::nothing:
                    for (int j = 0; j < static_cast<int>(s.i(1, 4)); ++j)
                        irrelevant(start + span(0, 20 * SEC));
                    break;
                case Phase::hup:
                    sim.at(start, [] {
                        rec("HUP");
                        raise(SIGHUP);
                    });
                    break;
                case Phase::empty:
                    if (first)
                        sim.world.objs = objects(config(-1));
                    else
                        swap(start, objects(config(-1)));
                    p.paused = true;
                    break;
                case Phase::outage:
                {
                    if (!first)
                        swap(start, objects(config(v)));
                    auto m = s.pick(std::vector<std::string>{"GetSubTree", "GetManagedObjects"});
                    if (first)
                        failing = m;
                    else
                        sim.at(start, [this, m] { failing = m; });
                    sim.at(until, [this] { failing.clear(); });
                    break;
                }
                case Phase::malformed:
                {
                    auto bad = objects(config(v, true));
                    if (first)
                        sim.world.objs = bad;
                    else
                        swap(start, bad);
                    swap(until, objects(config(v)));
                    break;
                }
                default:
                    if (!first)
                        swap(start, objects(config(v)));
            }
            if (tell)
                for (int j = 0; j < 1 + static_cast<int>(s.w({4, 2, 1})); ++j)
                    announce(start + (j ? span(0, 3 * SEC) : 1 * MS), p.kind);
            paused = p.paused;
            phases.push_back(p);
            first = false;
        }
        sim.horizon = np * kLen;
        value(sim.world.objs);
        bool h = false;
        for (int64_t at = span(0, 3 * SEC) + 300 * MS; at < sim.horizon; at += 4 * SEC)
        {
            h = !h;
            toggles.push_back(at);
            sim.bus(at, [this, h] {
                hot = h;
                value(sim.world.objs);
                for (int z = 0; z < 3; ++z)
                {
                    auto m = sim::mkPropsChanged("xyz.openbmc_project.Sensors", kSensors + "temperature/Temp_" + std::to_string(z), bw::VALUE,
                                                 {{"Value", mk(h ? 60.0 : 20.0)}});
                    sim::fabric().emit(m);
                }
            });
        }
        for (size_t k = 0; k < phases.size(); ++k)
            sim.at(phases[k].from + kLen - 1, [k] {
                for (auto& [p, o] : sim::fabric().objects)
                    for (auto& [i, _] : o)
                        rec("object", p, std::to_string(k));
            });
        sim.world.fault = [this](bw::Msg& m) -> std::optional<bw::Reply> {
            if (m.iface == bw::PROPS && m.member == "Set" && m.path.starts_with("/xyz/openbmc_project/control/fanpwm/"))
            {
                auto& v = m.body.at(2).sig == "v" ? m.body[2].kids.at(0) : m.body[2];
                uint64_t raw = 0;
                if (v.sig == "t")
                    sim::Tr<uint64_t>::get(v, raw);
                rec("set", m.path.substr(m.path.rfind('/') + 1), std::to_string(raw));
            }
            if (!failing.empty() && m.member == failing)
                return sim::fail("org.freedesktop.DBus.Error.NoReply");
            return dc::managed(sim.world, m);
        };
    }
    void judge(const Run& r)
    {
        static const char* kinds[] = {"change", "profile", "irrelevant signals", "HUP", "empty", "outage", "malformed"};
        for (auto& v : versions)
        {
            std::string z;
            for (auto& [n, f] : v.zones)
                z += " " + std::to_string(n) + ":" + std::to_string(f);
            c.note("version ", v.v, " zones", z);
        }
        for (auto& p : phases)
            c.note(p.from / 1e9, " s: ", kinds[p.kind], ", version ", p.version);
        for (auto& l : r.trace)
            c.note("  ", l.t / 1e9, " ", l.kind, " ", l.what, " ", l.value);
        auto tail = r.log.size() > 3000 ? r.log.substr(r.log.size() - 3000) : r.log;
        pbt::require(!r.hung, "the daemon hangs at ", shared()->now / 1e9, " s: ", tail);
        pbt::require(r.running, "the daemon ended with ", r.exit, "/", r.sig, " at ", r.ended / 1e9, " s: ", tail);
        auto sets = r.of("set");
        int prev = 0;
        for (size_t k = 0; k < phases.size(); ++k)
        {
            auto& p = phases[k];
            int64_t from = p.from, to = p.from + kLen, calm = from + kCalm;
            bool undisturbed = p.kind == Phase::nothing && k > 0;
            if (undisturbed)
                calm = from;
            auto& v = versions[p.version];
            std::set<std::string> mine;
            bool switched = false;
            for (auto& [z, nf] : v.zones)
                for (int f = 0; f < nf; ++f)
                {
                    auto n = dc::busName(pwmName(z, f));
                    mine.insert(n);
                    if (p.paused)
                        continue;
                    for (size_t j = 0; j < toggles.size(); ++j)
                    {
                        auto at = toggles[j];
                        if (at <= calm || at + 3 * SEC > to)
                            continue;
                        double want = base(p.version, z) + (j % 2 == 0 ? kStep : 0);
                        bool ok = false;
                        for (auto& l : sets)
                            ok = ok || (l.what == n && l.t >= at && l.t <= at + 3 * SEC && near(std::stod(l.value), want));
                        pbt::require(ok, "fan control ", n, " was not set to ", want, " % when the temperature changed at ", at / 1e9,
                                     " s in configuration ", p.version);
                    }
                }
            for (auto& l : sets)
            {
                if (l.t < from || l.t >= to)
                    continue;
                int z = l.what[4] - '0';
                double raw = std::stod(l.value);
                auto by = [&](int v) {
                    double lo = profiles ? 5 : base(v, z) - 3, fs = profiles ? 100 : failsafe(v);
                    return near(raw, base(v, z)) || near(raw, base(v, z) + kStep) || near(raw, lo) || near(raw, fs);
                };
                bool stop = OFFLINE_FAILSAFE_PWM && near(raw, profiles ? 100 : failsafe(prev));
                bool now = by(p.version) && mine.count(l.what), before = by(prev);
                if (stop)
                    continue;
                pbt::require(now || before, "at ", l.t / 1e9, " s ", l.what, " was set to ", raw,
                             ", which neither the old nor the new configuration asks for");
                if (prev != p.version && by(p.version))
                    switched = true;
                if (switched || l.t > calm)
                    pbt::require(now, "at ", l.t / 1e9, " s ", l.what, " was set to ", raw, " as of a past configuration");
                if (p.paused && l.t > calm)
                    pbt::failf("at ", l.t / 1e9, " s ", l.what, " was set to ", raw, " although there is no configuration");
            }
            std::set<std::string> want, got;
            if (!p.paused)
                for (auto& [z, nf] : v.zones)
                    want.insert(kModeRoot + "/zone" + std::to_string(z)),
                        want.insert(kModeRoot + "/zone" + std::to_string(z) + "/Step_" + std::to_string(z));
            for (auto& l : r.of("object"))
                if (l.value == std::to_string(k))
                    got.insert(l.what);
            for (auto& o : want)
                pbt::require(got.count(o), "there is no object ", o, " in phase ", k);
            for (auto& o : got)
                pbt::require(want.count(o), "object ", o, " is left over in phase ", k);
            prev = p.version;
            c.label(kinds[p.kind]);
        }
        c.nontrivial(phases.size() > 1 || phases[0].kind == Phase::outage || phases[0].kind == Phase::malformed);
    }
};

PBT(dbus, 700, 20000, "the configuration changed or could not be read at first")
{
    Scene x(s, c);
    x.plan();
    x.judge(x.sim.run());
}
} // namespace
