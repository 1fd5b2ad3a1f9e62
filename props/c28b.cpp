// C28, as built: every sensor of a configuration is read from and written to
// the target its paths name, and a fan without a reading works.
#include "rig.hpp"
using namespace rig;

namespace
{
struct Target
{
    std::string path;  // configured
    std::string file;  // the real one
    bool wildcard = false;
};
} // namespace

PBT(built, 4000, 60000, "at least two sensors of different kinds, a wildcard path among them")
{
    sim::fabric().reset();
    vclock::set(T0);
    bw::World w;
    w.install();
    std::map<std::string, int64_t> driven; // object path -> last value set
    std::string dir = pbt::scratch() + "/b/sys/class/hw";
    std::error_code ec;
    std::filesystem::remove_all(pbt::scratch() + "/b", ec);
    std::filesystem::create_directories(dir);
    w.fault = [&](Msg& m) -> std::optional<Reply> {
        if (m.iface == bw::PROPS && m.member == "Set" && m.body.size() == 3 && m.body[0].s == bw::FANPWM)
        {
            const Val& v = m.body[2].sig == "v" ? m.body[2].kids.at(0) : m.body[2];
            driven[m.path] = static_cast<int64_t>(v.u);
        }
        return std::nullopt;
    };
    auto fileIn = [&](const std::string& dev, const std::string& leaf, bool wild) {
        // <dir>/<dev>/hwmon/hwmonN/<leaf>
        std::string base = dir + "/" + dev + "/hwmon";
        std::string real = base + "/hwmon" + std::to_string(s.i(0, 12));
        std::filesystem::create_directories(real);
        Target t;
        t.file = real + "/" + leaf;
        t.path = wild ? base + "/**/" + leaf : t.file;
        t.wildcard = wild;
        return t;
    };
    struct Item
    {
        std::string name, type, rkind, wkind;
        Target rf, wf;
        conf::SensorConfig info{};
        double last = 0;
        int64_t lastWrite = -1;
    };
    std::vector<Item> items;
    int n = static_cast<int>(s.i(1, 6));
    std::set<std::string> kinds;
    bool wildcards = false;
    for (int k = 0; k < n; ++k)
    {
        Item it;
        it.name = "n" + std::to_string(k);
        bool fan = s.b(60);
        it.type = fan ? "fan" : s.pick(std::vector<std::string>{"temp", "margin", "power", "powersum"});
        it.rkind = fan ? s.pick(std::vector<std::string>{"bus", "sysfs", "none"}) : s.pick(std::vector<std::string>{"bus", "sysfs", "ext"});
        it.wkind = fan ? s.pick(std::vector<std::string>{"bus", "sysfs", "none"}) : "-";
        it.last = static_cast<double>(s.i(1, 90));
        auto& in = it.info;
        in.type = it.type;
        in.ignoreDbusMinMax = true;
        in.min = s.b(50) ? 0 : s.i(0, 50);
        in.max = fan && s.b(75) ? 255 : 0;
        if (it.rkind == "bus")
        {
            in.readPath = "/xyz/openbmc_project/sensors/" + ps::layer(it.type) + "/" + it.name;
            w.add(in.readPath, SVC).ifaces[bw::VALUE]["Value"] = mk(it.last);
        }
        else if (it.rkind == "sysfs")
        {
            it.rf = fileIn("r" + it.name, "value", s.b(50));
            in.readPath = it.rf.path;
            Rig::put(it.rf.file, std::to_string(static_cast<int64_t>(it.last)) + "\n");
        }
        else if (it.rkind == "ext")
        {
            in.readPath = "/xyz/openbmc_project/extsensors/" + ps::layer(it.type) + "/" + it.name;
            it.last = 0;
        }
        else
            in.readPath = s.b(50) ? "" : "None";
        if (it.wkind == "bus")
        {
            in.writePath = "/xyz/openbmc_project/control/fanpwm/" + it.name;
            w.add(in.writePath, SVC).ifaces[bw::FANPWM]["Target"] = mk(uint64_t(0));
        }
        else if (it.wkind == "sysfs")
        {
            it.wf = fileIn("w" + it.name, "pwm", s.b(50));
            in.writePath = it.wf.path;
            Rig::put(it.wf.file, "-1");
        }
        else if (it.wkind == "none")
            in.writePath = s.b(50) ? "" : "None";
        wildcards |= it.rf.wildcard || it.wf.wildcard;
        kinds.insert(it.rkind);
        c.note(it.name, " ", it.type, " read ", in.readPath, " (", it.rkind, ") write ", in.writePath, " (", it.wkind, ") [", in.min, ",", in.max, "]");
        items.push_back(it);
    }
    std::map<std::string, conf::SensorConfig> cfg;
    for (auto& it : items)
        cfg[it.name] = it.info;
    sim::fabric().ownedNames = {FANCTRL, HWMONEXT};
    SensorManager mgr = buildSensors(cfg, env().passive, env().hostBus);
    auto check = [&](const std::string& when) {
        for (auto& it : items)
        {
            auto r = mgr.getSensor(it.name)->read();
            if (it.rkind == "none")
                pbt::require(!std::isfinite(r.value) && !mgr.getSensor(it.name)->getFailed(), when, it.name, " has no source and reads ",
                             r.value);
            else
                pbt::require(pbt::close(r.value, it.last) && pbt::close(r.unscaled, it.last), when, it.name, " (", it.rkind, ") reads ",
                             r.value, "/", r.unscaled, " instead of ", it.last);
        }
        for (auto& it : items)
        {
            if (it.wkind == "sysfs")
            {
                std::ifstream f(it.wf.file);
                int64_t v = -2;
                f >> v;
                pbt::require(v == it.lastWrite, when, "the file of ", it.name, " holds ", v, " instead of ", it.lastWrite);
            }
            if (it.wkind == "bus")
            {
                auto d = driven.find(it.info.writePath);
                int64_t v = d == driven.end() ? -1 : d->second;
                pbt::require(v == it.lastWrite, when, it.name, " was sent ", v, " instead of ", it.lastWrite);
            }
        }
    };
    check("at the start: ");
    int steps = static_cast<int>(s.i(1, 12));
    for (int k = 0; k < steps; ++k)
    {
        auto& it = items[static_cast<size_t>(s.i(0, n - 1))];
        vclock::advance(s.i(1, 500) * MS);
        std::string when;
        if (it.type == "fan" && s.b(50))
        {
            double v = s.b(70) ? s.q(0, 1, 64) : s.q(0, 200, 1);
            if (it.info.max > 0 && v > 1)
                v = 1;
            it.lastWrite = static_cast<int64_t>(it.info.max > 0 ? it.info.min + static_cast<double>(it.info.max - it.info.min) * v : v);
            int64_t told = -1;
            mgr.getSensor(it.name)->write(v, s.b(30), &told);
            when = "after writing " + std::to_string(v) + " to " + it.name + ": ";
            if (it.wkind == "bus")
                pbt::require(told == it.lastWrite, when, "the value reported back is ", told);
        }
        else
        {
            double v = static_cast<double>(s.i(1, 9000));
            if (it.rkind == "bus")
            {
                auto m = sim::mkPropsChanged(":1.7", it.info.readPath, bw::VALUE, {{"Value", mk(v)}});
                sim::fabric().emit(m);
            }
            else if (it.rkind == "sysfs")
                Rig::put(it.rf.file, std::to_string(static_cast<int64_t>(v)));
            else if (it.rkind == "ext")
                pbt::require(sim::setProp(HWMONEXT, it.info.readPath, bw::VALUE, "Value", mk(v)).ok, it.name, " takes no value");
            else
                continue;
            it.last = v;
            when = "after " + it.name + " changed to " + std::to_string(v) + ": ";
        }
        check(when);
    }
    c.nontrivial(kinds.size() > 1 && wildcards);
}

PBT(write_only, 2500, 40000, "a zone with a write-only fan changed its command")
{
    Opt o;
    o.zonesMax = s.b(25) ? 2 : 1;
    o.thermalsMax = 2;
    o.fansMax = 3;
    o.levels = true;
    o.writeOnlyPct = 60;
    o.sysfs = true;
    o.sysfsOut = true;
    o.fanP = s.b(40);
    Conf cf = genConf(s, o);
    describe(c, cf);
    Names n(cf);
    bool any = false;
    for (auto& f : n.fan)
        any |= cf.sensors.at(f).kind == SensorSpec::none;
    Rig r(cf);
    Model m(r);
    r.build();
    r.start();
    m.start(T0);
    Drive d(r, m);
    int64_t span = anySpan(s, 300, 4000);
    int changes = static_cast<int>(s.i(1, 10));
    for (int k = 0; k < changes; ++k)
    {
        Event e;
        e.t = evTime(s, span);
        e.who = s.pick(n.readable);
        e.kind = Event::value;
        e.v = anyReading(s, cf.sensors.at(e.who).info.type == "fan");
        d.events.push_back(e);
    }
    sortEvents(d.events);
    for (auto& e : d.events)
        c.note(e.show());
    std::map<std::string, double> last;
    int moved = 0;
    d.onTick = [&](MZone& z, const std::vector<Cmd>& cmds, const std::vector<Sent>& got) {
        d.judgeWrites(z, cmds, got);
        pbt::require(r.zoneFlag(z.id, "FailSafe") == !z.failed.empty(), "zone ", z.id, " reports failsafe ", z.failed.empty());
        for (auto& cmd : cmds)
        {
            if (last.count(cmd.fan) && last[cmd.fan] != cmd.pct && cf.sensors.at(cmd.fan).kind == SensorSpec::none)
                ++moved;
            last[cmd.fan] = cmd.pct;
        }
    };
    d.run(T0 + (span + 1500) * MS);
    c.nontrivial(any && moved);
}
