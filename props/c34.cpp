// C34: what changes while the daemon starts or reloads is not missed.
#include "config.h"
#include "daemon.hpp"

#include <nlohmann/json.hpp>

namespace
{
using namespace dm;
using ojson = nlohmann::ordered_json;

static const std::string kModeRoot = "/xyz/openbmc_project/settings/fanctrl/zone";
static const std::string kSensors = "/xyz/openbmc_project/sensors/";
static const std::string kService = "xyz.openbmc_project.Sensors";
static const std::string kHostPath = "/xyz/openbmc_project/state/host0";
static const std::string kHostIf = "xyz.openbmc_project.State.Host";
static const std::string kRedundancy = "xyz.openbmc_project.Redundancy";

struct Sensor
{
    std::string name, path;
    bool fan = false, excused = false;
    double level = 0; // in failsafe because of it
    // as published
    double value = 50;
    std::map<std::string, bool> flags; // those it publishes
    bool failing(bool hostOn, bool redundant) const
    {
        auto is = [this](const char* f, bool dflt) {
            auto it = flags.find(f);
            return it == flags.end() ? dflt : it->second;
        };
        bool bad = redundant || is("CriticalAlarmHigh", false) || is("CriticalAlarmLow", false) || !is("Available", true) ||
                   !is("Functional", true) || !std::isfinite(value);
        return bad && !(excused && !hostOn);
    }
};
static const std::string& ifaceOf(const std::string& flag)
{
    return flag == "Available" ? bw::AVAIL : flag == "Functional" ? bw::OPSTAT : bw::CRIT;
}
struct Fan
{
    Sensor tach;
    std::string pwm;
    double start = 0;
};
struct Zone
{
    int id = 0;
    std::vector<Fan> fans;
    std::vector<Sensor> temps;
};
struct Change
{
    int phase = 0, call = 0; // after that many answers of the phase
    enum Kind
    {
        flag,
        value,
        host,
        group
    } kind = flag;
    int sensor = 0;
    std::string what;
    double v = 0;
    bool b = false, done = false;
};
struct Group
{
    std::string path;
    std::set<std::string> fans; // paths
    bool failed = false;
};

struct Scene
{
    pbt::Src& s;
    pbt::Ctx& c;
    Sim sim{"boot"};
    std::vector<Zone> zones;
    std::vector<Group> groups;
    std::vector<Change> changes;
    bool hostOn = true;
    int lost = -1; // the answer of the first phase that does not come
    int64_t hupAt = 16 * SEC, end = 0;
    int phases = 1;
    // in the child
    int phase = 0, calls = 0;

    Scene(pbt::Src& s, pbt::Ctx& c) : s(s), c(c) {}
    std::vector<Sensor*> all()
    {
        std::vector<Sensor*> r;
        for (auto& z : zones)
        {
            for (auto& f : z.fans)
                r.push_back(&f.tach);
            for (auto& t : z.temps)
                r.push_back(&t);
        }
        return r;
    }
    bool redundant(const Sensor& x) const
    {
        for (auto& g : groups)
            if (g.failed && g.fans.count(x.path))
                return true;
        return false;
    }
    void publish(const Sensor& x)
    {
        auto& o = sim.world.add(x.path, kService);
        o.ifaces[bw::VALUE]["Value"] = mk(x.value);
        for (auto& [f, v] : x.flags)
            o.ifaces[ifaceOf(f)][f] = mk(v);
    }
    std::string hostState() const
    {
        return "xyz.openbmc_project.State.Host.HostState." + std::string(hostOn ? "Running" : "Off");
    }
    void publishGroup(const Group& g)
    {
        auto& o = sim.world.add(g.path, kRedundancy);
        o.ifaces[bw::FANRED]["Status"] = mk("xyz.openbmc_project.Control.FanRedundancy.State." + std::string(g.failed ? "Failed" : "Full"));
        o.ifaces[bw::FANRED]["Collection"] = mk(std::vector<std::string>(g.fans.begin(), g.fans.end()));
    }
    void apply(Change& ch)
    {
        ch.done = true;
        rec("change", std::to_string(&ch - changes.data()), std::to_string(calls));
        if (ch.kind == Change::host)
        {
            hostOn = ch.b;
            sim.world.objs.at(kHostPath).ifaces[kHostIf]["CurrentHostState"] = mk(hostState());
            queued(sim::mkPropsChanged("xyz.openbmc_project.State.Host0", kHostPath, kHostIf, {{"CurrentHostState", mk(hostState())}}));
            return;
        }
        if (ch.kind == Change::group)
        {
            auto& g = groups[static_cast<size_t>(ch.sensor)];
            g.failed = ch.b;
            publishGroup(g);
            queued(sim::mkPropsChanged(kRedundancy, g.path, bw::FANRED,
                                       {{"Status", sim.world.objs.at(g.path).ifaces.at(bw::FANRED).at("Status")}}));
            return;
        }
        auto& x = *all()[static_cast<size_t>(ch.sensor)];
        if (ch.kind == Change::value)
            x.value = ch.v;
        else
            x.flags[ch.what] = ch.b;
        // as its daemon does, the value goes and comes with it
        if (ch.what == "Available")
            x.value = ch.b ? 50 : std::nan("");
        publish(x);
        if (ch.kind == Change::flag)
            queued(sim::mkPropsChanged(kService, x.path, ifaceOf(ch.what), {{ch.what, mk(ch.b)}}));
        if (ch.kind == Change::value || ch.what == "Available")
            queued(sim::mkPropsChanged(kService, x.path, bw::VALUE, {{"Value", mk(x.value)}}));
    }
    void due()
    {
        for (auto& ch : changes)
            if (!ch.done && ch.phase == phase && ch.call <= calls)
                apply(ch);
    }
    double output(const Zone& z) const
    {
        double t = -1;
        for (auto& x : z.temps)
            if (std::isfinite(x.value))
                t = std::max(t, x.value);
        return std::clamp(t - 20, 10.0, 85.0);
    }
    std::map<std::string, double> last; // commands, in the child
    void check()
    {
        for (auto& z : zones)
        {
            double level = 0;
            std::string who;
            for (auto* x : all())
                for (auto& l : {0, 1})
                {
                    auto& mine = z;
                    bool in = false;
                    if (l == 0)
                        for (auto& f : mine.fans)
                            in = in || &f.tach == x;
                    else
                        for (auto& t : mine.temps)
                            in = in || &t == x;
                    if (in && x->failing(hostOn, redundant(*x)))
                    {
                        level = std::max(level, x->level);
                        who += " " + x->name;
                    }
                }
            auto v = sim::getProp("xyz.openbmc_project.State.FanCtrl", kModeRoot + std::to_string(z.id), "xyz.openbmc_project.Control.Mode",
                                  "FailSafe");
            bool have = v && (v->sig == "v" ? v->kids.at(0) : *v).u != 0;
            if (!v)
                rec("wrong", "zone" + std::to_string(z.id), "there is no such zone");
            else if (have != (level > 0))
                rec("wrong", "zone" + std::to_string(z.id), "failsafe is " + std::to_string(have) + ", failing:" + (who.empty() ? " none" : who));
            double want = std::max(output(z), level);
            for (auto& f : z.fans)
            {
                auto it = last.find(f.pwm);
                double have = it == last.end() ? -1 : it->second;
                if (std::fabs(have - want * 255 / 100) > 1.01)
                    rec("wrong", f.tach.name, "set to " + std::to_string(have) + ", wanted " + std::to_string(want) + " %, failing:" + who);
            }
            rec("judged", std::to_string(z.id), std::to_string(level));
        }
    }
    void build()
    {
        static const std::vector<std::string> flags = {"CriticalAlarmHigh", "CriticalAlarmLow", "Available", "Functional"};
        int nz = static_cast<int>(s.i(1, 2)), n = 0;
        hostOn = s.b(60);
        for (int k = 0; k < nz; ++k)
        {
            Zone z;
            z.id = k;
            int nf = static_cast<int>(s.i(1, 3)), nt = static_cast<int>(s.i(1, 3));
            for (int i = 0; i < nf + nt; ++i)
            {
                Sensor x;
                x.fan = i < nf;
                x.name = (x.fan ? "fan" : "temp") + std::to_string(n++);
                x.path = kSensors + (x.fan ? "fan_tach/" : "temperature/") + x.name;
                x.value = x.fan ? 3000 : static_cast<double>(s.i(35, 90));
                x.level = x.fan ? 90 : 91 + i;
                x.excused = s.b(30);
                for (auto& f : flags)
                    if (s.b(75))
                        x.flags[f] = f[0] != 'C';
                // some are not well to begin with
                if (!x.flags.empty() && s.b(20))
                {
                    auto it = x.flags.begin();
                    std::advance(it, s.i(0, static_cast<int64_t>(x.flags.size()) - 1));
                    it->second = !it->second;
                    if (it->first == "Available")
                    {
                        if (x.excused || x.fan)
                            it->second = true;
                        else
                            x.value = std::nan("");
                    }
                }
                if (x.fan)
                {
                    Fan f;
                    f.tach = x;
                    f.pwm = "/xyz/openbmc_project/control/fanpwm/" + x.name;
                    z.fans.push_back(f);
                }
                else
                    z.temps.push_back(x);
            }
            zones.push_back(z);
        }
        for (auto* x : all())
            publish(*x);
        for (auto& z : zones)
            for (auto& f : z.fans)
                sim.world.add(f.pwm, "xyz.openbmc_project.Fans").ifaces[bw::FANPWM]["Target"] = mk(uint64_t(7));
        for (int g = static_cast<int>(s.w({4, 3, 2})); g > 0; --g)
        {
            Group x;
            x.path = "/xyz/openbmc_project/control/FanRedundancy/group" + std::to_string(g);
            for (auto& z : zones)
                for (auto& f : z.fans)
                    if (s.b(50))
                        x.fans.insert(f.tach.path);
            x.failed = s.b(25);
            groups.push_back(x);
            publishGroup(x);
        }
        sim.world.add(kHostPath, "xyz.openbmc_project.State.Host0").ifaces[kHostIf]["CurrentHostState"] = mk(hostState());
        phases = s.b(40) ? 2 : 1;
        int nc = static_cast<int>(s.i(1, 4));
        for (int k = 0; k < nc; ++k)
        {
            Change ch;
            ch.phase = static_cast<int>(s.i(0, phases - 1));
            ch.call = static_cast<int>(s.i(0, 60));
            auto xs = all();
            ch.kind = static_cast<Change::Kind>(s.w({5, 3, 3, groups.empty() ? 0 : 3}));
            ch.sensor = static_cast<int>(s.i(0, static_cast<int64_t>(xs.size()) - 1));
            ch.b = s.b(50);
            auto* x = xs[static_cast<size_t>(ch.sensor)];
            if (ch.kind == Change::flag)
            {
                std::vector<std::string> can;
                for (auto& [f, _] : x->flags)
                    if (f != "Available" || (!x->excused && !x->fan))
                        can.push_back(f);
                if (can.empty())
                    ch.kind = Change::value;
                else
                    ch.what = s.pick(can);
            }
            if (ch.kind == Change::value)
            {
                if (x->fan)
                    ch.v = static_cast<double>(s.i(1000, 9000));
                else
                    ch.v = static_cast<double>(s.i(35, 90));
                auto av = x->flags.find("Available");
                if (av != x->flags.end() && !x->fan && !x->excused)
                {
                    ch.kind = Change::host;
                }
            }
            if (ch.kind == Change::group)
                ch.sensor = static_cast<int>(s.i(0, static_cast<int64_t>(groups.size()) - 1));
            changes.push_back(ch);
        }
        // built while it cannot be found, a sensor stays failed (see the README)
        lost = !HANDLE_MISSING_OBJECT_PATHS && s.b(20) ? static_cast<int>(s.i(0, 12)) : -1;
        Sim::put(sim.dir + "/usr/config.json", render());
    }
    std::string render()
    {
        auto pid = [](double ff, double p, double lo, double hi) {
            return ojson{{"samplePeriod", 0.5}, {"proportionalCoeff", p}, {"integralCoeff", 0}, {"feedFwdOffsetCoeff", 0},
                         {"feedFwdGainCoeff", ff}, {"integralLimit_min", 0}, {"integralLimit_max", 0}, {"outLim_min", lo}, {"outLim_max", hi},
                         {"slewNeg", 0}, {"slewPos", 0}};
        };
        ojson j{{"sensors", ojson::array()}, {"zones", ojson::array()}};
        for (auto& z : zones)
        {
            auto id = std::to_string(z.id);
            ojson zo = {{"id", z.id}, {"minThermalOutput", 5}, {"failsafePercent", 90}, {"cycleIntervalTimeMS", 200}, {"updateThermalsTimeMS", 400}};
            ojson fan = {{"name", "fans" + id}, {"type", "fan"}, {"inputs", ojson::array()}, {"setpoint", 40}, {"pid", pid(1, 0, 0, 100)}};
            for (auto& f : z.fans)
            {
                j["sensors"].push_back({{"name", f.tach.name}, {"type", "fan"}, {"timeout", 0}, {"readPath", f.tach.path},
                                        {"writePath", f.pwm}, {"min", 0}, {"max", 255}, {"ignoreFailIfHostOff", f.tach.excused}});
                fan["inputs"].push_back(f.tach.name);
            }
            zo["pids"] = {fan};
            for (auto& x : z.temps)
            {
                j["sensors"].push_back({{"name", x.name}, {"type", "temp"}, {"readPath", x.path}, {"timeout", 0}, {"ignoreFailIfHostOff", x.excused}});
                zo["pids"].push_back({{"name", "pid_" + x.name}, {"type", "temp"}, {"inputs", {x.name}}, {"setpoint", 20},
                                      {"FailSafePercent", x.level}, {"pid", pid(0, -1, 10, 85)}});
            }
            j["zones"].push_back(zo);
        }
        return j.dump(1);
    }
    Run run()
    {
        sim.world.fault = [this](bw::Msg& m) -> std::optional<bw::Reply> {
            if (m.member == "GetObject" && phase == 0 && lost-- == 0)
                return sim::fail("org.freedesktop.DBus.Error.NoReply");
            if (m.iface == bw::PROPS && m.member == "Set")
            {
                auto& v = m.body.at(2).sig == "v" ? m.body[2].kids.at(0) : m.body[2];
                uint64_t raw = 0;
                sim::Tr<uint64_t>::get(v, raw);
                last[m.path] = static_cast<double>(raw);
            }
            return std::nullopt;
        };
        sim.world.after = [this](bw::Msg& m) {
            if (m.member == "Set")
                return;
            ++calls;
            due();
        };
        auto flush = [this] {
            for (auto& ch : changes)
                if (!ch.done && ch.phase == phase)
                    apply(ch);
        };
        // before anything else: nothing was asked yet
        for (auto& ch : changes)
            if (ch.phase == 0 && ch.call == 0)
            {
                rec("change", "first");
                apply(ch);
            }
        sim.bus(12 * SEC, flush);
        sim.at(15 * SEC, [this] { check(); });
        end = 15 * SEC + 1;
        if (phases > 1)
        {
            sim.at(hupAt, [this] {
                phase = 1;
                calls = 0;
                kill(getpid(), SIGHUP);
            });
            sim.bus(hupAt + 14 * SEC, flush);
            end = hupAt + 17 * SEC;
            sim.at(end, [this] { check(); });
        }
        sim.horizon = end + SEC;
        return sim.run();
    }
    void describe()
    {
        for (auto& z : zones)
        {
            c.note("zone ", z.id);
            for (auto* x : all())
            {
                bool in = false;
                for (auto& f : z.fans)
                    in = in || &f.tach == x;
                for (auto& t : z.temps)
                    in = in || &t == x;
                if (!in)
                    continue;
                std::string fl;
                for (auto& [f, v] : x->flags)
                    fl += " " + f + "=" + (v ? "1" : "0");
                c.note("  ", x->name, " = ", x->value, fl, x->excused ? " (excused while the host is off)" : "");
            }
        }
        for (auto& g : groups)
        {
            std::string f;
            for (auto& p : g.fans)
                f += " " + p.substr(p.rfind('/') + 1);
            c.note("group ", g.path, g.failed ? " failed" : " sound", ":", f);
        }
        c.note("host ", hostOn ? "on" : "off", lost >= 0 ? ", one lookup fails: " + std::to_string(lost) : "");
        for (auto& ch : changes)
        {
            auto& nm = all()[static_cast<size_t>(ch.sensor) % all().size()]->name;
            std::string w = ch.kind == Change::host    ? "host " + std::string(ch.b ? "on" : "off")
                            : ch.kind == Change::group ? "group " + groups[static_cast<size_t>(ch.sensor)].path + (ch.b ? " fails" : " is sound")
                            : ch.kind == Change::value ? nm + " = " + std::to_string(ch.v)
                                                       : nm + " " + ch.what + "=" + (ch.b ? "1" : "0");
            c.note(ch.phase ? "reload" : "start", ", after answer ", ch.call, ": ", w);
        }
    }
};

PBT(meanwhile, 3000, 60000, "something changed between two calls of the start or reload")
{
    Scene x(s, c);
    x.build();
    x.describe();
    auto r = x.run();
    for (auto& l : r.trace)
        c.note("  ", l.t / 1e9, " ", l.kind, " ", l.what, " ", l.value);
    auto tail = r.log.size() > 2000 ? r.log.substr(r.log.size() - 2000) : r.log;
    pbt::require(!r.hung, "the daemon hangs: ", tail);
    pbt::require(r.running, "the daemon ended with ", r.exit, "/", r.sig, " at ", r.ended / 1e9, " s: ", tail);
    for (auto& l : r.of("wrong"))
        pbt::failf("at ", l.t / 1e9, " s ", l.what, ": ", l.value);
    pbt::require(r.of("judged").size() == x.zones.size() * static_cast<size_t>(x.phases), "not judged");
    int inside = 0;
    for (auto& l : r.of("change"))
        inside += l.what != "first" && l.t != 12 * SEC && l.t != x.hupAt + 14 * SEC;
    if (inside)
        c.label("within the calls");
    c.nontrivial(inside > 0);
}
} // namespace
