// C25: reload and terminate, at any time.
#include "daemon.hpp"
#include "config.h"

#include <nlohmann/json.hpp>
#include <set>

namespace
{
using namespace dm;
using ojson = nlohmann::ordered_json;

static const std::string kFanCtrl = "xyz.openbmc_project.State.FanCtrl";
static const std::string kExtern = "xyz.openbmc_project.Hwmon.external";
static const std::string kModeRoot = "/xyz/openbmc_project/settings/fanctrl";

// A version of the configuration. What it commands tells which one it is.
struct Fan
{
    std::string name;
    bool file = false;
};
struct Zone
{
    int id = 0;
    std::vector<Fan> fans;
    std::string sensor; // its temperature
    std::string path;   // of the sensor
    bool absentAtFirst = false;
    int cycle = 500;
};
struct Version
{
    int v = 0;
    enum Kind
    {
        good,
        needsAbsent, // a sensor it needs is not on the bus yet
        broken,      // not a configuration
        gone         // no file
    } kind = good;
    std::vector<Zone> zones;
};
static double base(int v, int zone)
{
    return 20 + 10 * v + 0.75 * zone;
}
static double failsafe(int v)
{
    return 84 + 2 * v;
}
static const double kStep = 4;
static bool near(double raw, double pct)
{
    return std::fabs(raw - pct * 255 / 100) <= 1.01;
}

struct Scene
{
    pbt::Src& s;
    pbt::Ctx& c;
    Sim sim;
    std::vector<Version> versions;
    std::vector<std::pair<int64_t, int>> files; // when which version became the file
    std::vector<int64_t> hups, toggles;
    int64_t term = -1, appears = 0;
    std::string config;

    Scene(pbt::Src& s, pbt::Ctx& c) : s(s), c(c) {}

    void passive(const std::string& path, double v)
    {
        auto& o = sim.world.add(path, "xyz.openbmc_project.Sensors");
        o.ifaces[bw::VALUE]["Value"] = mk(v);
    }
    void signalValue(const std::string& path, double v)
    {
        auto it = sim.world.objs.find(path);
        if (it == sim.world.objs.end())
            return;
        it->second.ifaces[bw::VALUE]["Value"] = mk(v);
        auto m = sim::mkPropsChanged("xyz.openbmc_project.Sensors", path, bw::VALUE, {{"Value", mk(v)}});
        sim::fabric().emit(m);
    }
    std::string pwm(const Fan& f)
    {
        return f.file ? sim.dir + "/sys/pwm_" + f.name : "/xyz/openbmc_project/control/fanpwm/" + f.name;
    }
    std::string render(const Version& v)
    {
        if (v.kind == Version::broken)
            return s.pick(std::vector<std::string>{"{\"sensors\": [", "{}", "[]", "{\"sensors\": [], \"zones\": 7}", "",
                                                   "{\"sensors\": [{\"name\": \"x\"}], \"zones\": []}"});
        ojson j;
        j["sensors"] = ojson::array();
        j["zones"] = ojson::array();
        for (auto& z : v.zones)
        {
            ojson zo = {{"id", z.id}, {"minThermalOutput", base(v.v, z.id) - 3}, {"failsafePercent", failsafe(v.v)},
                        {"cycleIntervalTimeMS", z.cycle}, {"updateThermalsTimeMS", 1000}};
            ojson fan = {{"name", "fans" + std::to_string(z.id)}, {"type", "fan"}, {"inputs", ojson::array()}, {"setpoint", 40}};
            fan["pid"] = {{"samplePeriod", 0.1}, {"proportionalCoeff", 0}, {"integralCoeff", 0}, {"feedFwdOffsetCoeff", 0},
                          {"feedFwdGainCoeff", 1}, {"integralLimit_min", 0}, {"integralLimit_max", 0}, {"outLim_min", 0},
                          {"outLim_max", 100}, {"slewNeg", 0}, {"slewPos", 0}};
            for (auto& f : z.fans)
            {
                j["sensors"].push_back({{"name", f.name}, {"type", "fan"}, {"timeout", 0},
                                        {"readPath", "/xyz/openbmc_project/sensors/fan_tach/" + f.name}, {"writePath", pwm(f)},
                                        {"min", 0}, {"max", 255}});
                fan["inputs"].push_back(f.name);
            }
            j["sensors"].push_back({{"name", z.sensor}, {"type", "temp"}, {"readPath", z.path}, {"timeout", 0}});
            ojson st = {{"name", "step" + std::to_string(z.id)}, {"type", "stepwise"}, {"inputs", {z.sensor}}, {"setpoint", 0}};
            st["pid"] = {{"samplePeriod", 0.1}, {"positiveHysteresis", 0}, {"negativeHysteresis", 0}, {"isCeiling", false},
                         {"reading", {{"0", 25}, {"1", 50}}},
                         {"output", {{"0", base(v.v, z.id)}, {"1", base(v.v, z.id) + kStep}}}};
            zo["pids"] = {fan, st};
            j["zones"].push_back(zo);
        }
        return j.dump(1);
    }
    bool buildable(int v, int64_t t) const
    {
        auto& x = versions[v];
        if (x.kind == Version::gone)
            return false;
        return x.kind != Version::needsAbsent || HANDLE_MISSING_OBJECT_PATHS || t >= appears;
    }
    int fileAt(int64_t t) const
    {
        int r = -1;
        for (auto& [at, v] : files)
            if (at <= t)
                r = v;
        return r;
    }
    Version version(int n)
    {
        Version v;
        v.v = n;
        int nz = static_cast<int>(s.i(1, 3));
        for (int k = 0; k < nz; ++k)
        {
            Zone z;
            z.id = k;
            z.cycle = s.b(30) ? 250 : 500;
            int nf = static_cast<int>(s.i(1, 2));
            for (int f = 0; f < nf; ++f)
            {
                Fan x;
                x.name = "fan" + std::to_string(k) + std::to_string(f);
                x.file = (k + f) % 2 == 1;
                z.fans.push_back(x);
            }
            if (s.b(40))
            {
                z.sensor = "ext" + std::to_string(k);
                z.path = "/xyz/openbmc_project/extsensors/temperature/" + z.sensor;
            }
            else
            {
                z.sensor = "temp" + std::to_string(k);
                z.path = "/xyz/openbmc_project/sensors/temperature/" + z.sensor;
            }
            v.zones.push_back(z);
        }
        return v;
    }
    void plan()
    {
        for (int k = 0; k < 3; ++k)
        {
            passive("/xyz/openbmc_project/sensors/temperature/temp" + std::to_string(k), 20);
            for (int f = 0; f < 2; ++f)
            {
                Fan x;
                x.name = "fan" + std::to_string(k) + std::to_string(f);
                passive("/xyz/openbmc_project/sensors/fan_tach/" + x.name, 4000);
                sim.world.add("/xyz/openbmc_project/control/fanpwm/" + x.name, "xyz.openbmc_project.Fans").ifaces[bw::FANPWM]["Target"] =
                    mk(uint64_t(7));
                x.file = true;
                sim.fans[pwm(x)] = x.name;
            }
        }
        // versions
        int nv = static_cast<int>(s.i(1, 4));
        for (int v = 0; v < nv; ++v)
        {
            auto x = version(v);
            size_t k = s.w({10, 2, v ? 2 : 0, v ? 1 : 0});
            x.kind = static_cast<Version::Kind>(k);
            if (x.kind == Version::needsAbsent)
            {
                auto& z = x.zones[s.draw(x.zones.size())];
                z.absentAtFirst = true;
                z.sensor = "late";
                z.path = "/xyz/openbmc_project/sensors/temperature/late";
            }
            versions.push_back(x);
        }
        // where the configuration is
        static const std::vector<std::string> places = {"cwd", "var", "usr", "log"};
        size_t place = s.draw(4);
        config = sim.dir + "/" + places[place] + "/" + (place == 3 ? "my.conf" : "config.json");
        if (place == 3)
            sim.args = {s.b(50) ? "-c" : "--conf", config};
        bool gone = false;
        for (auto& v : versions)
            gone = gone || v.kind == Version::gone;
        if (place < 2 && !gone && s.b(50)) // less preferred ones do not matter
            Sim::put(sim.dir + "/" + places[place + 1] + "/config.json", "{}");
        if (place == 3 && !gone && s.b(50))
            Sim::put(sim.dir + "/cwd/config.json", "{}");
        // what happens
        int64_t t = 0;
        files.emplace_back(-1, 0);
        Sim::put(config, render(versions[0]));
        auto span = [&](int64_t lo, int64_t hi) {
            return s.i(lo / MS, hi / MS) * MS + (s.b(30) ? 0 : s.i(0, 999) * 1000);
        };
        t = 0;
        appears = s.b(50) ? span(0, 40 * SEC) : 0;
        for (int v = 1; v < nv; ++v)
        {
            t += s.w({2, 1}) ? span(0, 3 * SEC) : span(0, 35 * SEC);
            if (v + 1 < nv && (versions[v].kind == Version::broken || versions[v].kind == Version::gone) && s.b(60))
            {
                // a burst of signals around a file that is unusable for a moment
                hup(t);
                t += s.i(1, 400) * MS;
                write(t, v);
                t += s.i(1, 290) * MS;
                write(t, ++v);
                t += s.i(1, 290) * MS;
                hup(t);
                continue;
            }
            write(t, v);
            int n = static_cast<int>(s.w({6, 2, 1})) + 1;
            if (s.b(8))
                n = 0; // changed, but not told
            for (int k = 0; k < n; ++k)
            {
                if (!hups.empty() && s.b(30)) // in step with what the last one started
                {
                    t = std::max(t, hups.back() + s.i(1, 40) * 250 * MS);
                    hup(t);
                    continue;
                }
                t += s.w({2, 2, 1}) == 0 ? span(0, SEC) : s.b(50) ? span(0, 3 * SEC) : span(0, 15 * SEC);
                hup(t);
            }
        }
        if (s.b(20))
            hup(t + span(0, 20 * SEC));
        if (appears)
            sim.at(appears, [this] { passive("/xyz/openbmc_project/sensors/temperature/late", 20); });
        else
            passive("/xyz/openbmc_project/sensors/temperature/late", 20);
        std::sort(hups.begin(), hups.end());
        int64_t calm = std::max(t, std::max(appears, hups.empty() ? int64_t(0) : hups.back())) + 27 * SEC;
        sim.horizon = calm + 14 * SEC;
        // temperatures go up and down
        bool hot = false;
        for (int64_t at = span(0, 3 * SEC); at < sim.horizon; at += 4 * SEC)
        {
            hot = !hot;
            toggles.push_back(at);
            double v = hot ? 60 : 20;
            sim.bus(at, [this, v] {
                for (auto n : {"temp0", "temp1", "temp2", "late"})
                    signalValue("/xyz/openbmc_project/sensors/temperature/" + std::string(n), v);
            });
            for (int k = 0; k < 3; ++k)
                sim.bus(at, [k, v] {
                    sim::setProp(kExtern, "/xyz/openbmc_project/extsensors/temperature/ext" + std::to_string(k), bw::VALUE, "Value", mk(v));
                });
        }
        sim.at(sim.horizon - 1, [] {
            for (auto& [p, o] : sim::fabric().objects)
                for (auto& [i, _] : o)
                    rec("object", p, i);
        });
        if (s.b(55))
        {
            term = s.w({2, 2, 1, 1}) == 0 ? span(0, sim.horizon - SEC)
                   : hups.empty() || s.b(30) ? span(0, 2 * SEC)
                                             : s.pick(hups) + (s.b(50) ? 1000 * MS : 11000 * MS) + span(0, 60 * MS) - 30 * MS;
            sim.at(term, [] {
                rec("TERM");
                raise(SIGTERM);
            });
            if (s.b(20)) // more signals on its heels
                for (int k = 0; k < 2; ++k)
                    sim.at(term + span(0, 80 * MS), [k, b = s.b(50)] { raise(k == 0 && b ? SIGTERM : SIGHUP); });
        }
    }
    void write(int64_t t, int v)
    {
        files.emplace_back(t, v);
        auto text = render(versions[v]);
        bool gone = versions[v].kind == Version::gone;
        sim.at(t, [this, text, v, gone] {
            rec("file", std::to_string(v));
            if (gone)
            {
                std::error_code ec;
                fs::remove(config, ec);
            }
            else
                Sim::put(config, text);
        });
    }
    void hup(int64_t t)
    {
        hups.push_back(t);
        sim.at(t, [] {
            rec("HUP");
            raise(SIGHUP);
        });
    }
    // May the file have been read at a time when it was version v, no later than t?
    bool mayHaveRead(int v, int64_t t) const
    {
        std::vector<int64_t> starts = {-1 - SEC}; // an attempt follows a second later
        for (size_t k = 0; k < hups.size(); ++k)
            // one that is followed by another in that time is part of a burst
            if (k + 1 == hups.size() || hups[k + 1] == hups[k] || hups[k + 1] - hups[k] > SEC - 2 * MS)
                starts.push_back(hups[k]);
        for (size_t k = 0; k < files.size(); ++k)
        {
            if (files[k].second != v)
                continue;
            int64_t from = files[k].first, to = k + 1 < files.size() ? files[k + 1].first : INT64_MAX;
            to = std::min(to, t);
            for (auto h : starts)
            {
                // attempts go on until one succeeds
                int64_t last = h + SEC + 22 * SEC, first = h + SEC - 2 * MS;
                if (h < 0)
                    last = 100 * MS;
                for (size_t f = 0; f < files.size(); ++f)
                    if (!buildable(files[f].second, files[f].first))
                        last = INT64_MAX;
                if (std::max(from, first) <= std::min(to, last))
                    return true;
            }
        }
        return false;
    }
    void judge(const Run& r)
    {
        for (auto& l : r.trace)
            c.note("  ", l.t / 1e9, " ", l.kind, " ", l.what, " ", l.value);
        auto tail = r.log.size() > 3000 ? r.log.substr(r.log.size() - 3000) : r.log;
        pbt::require(!r.hung, "the daemon hangs at ", shared()->now / 1e9, " s: ", tail);
        pbt::require(r.sig == 0 && r.exit != 77 && r.exit != 78, "the daemon crashed: ", tail);
        pbt::require(r.exit < 97 || r.exit > 99, "the daemon spins or could not run: ", tail);
        bool mayFail = false; // a broken configuration may have been loaded
        for (auto& x : versions)
            mayFail = mayFail || (x.kind == Version::broken && mayHaveRead(x.v, r.ended));
        if (!r.running && r.exit != 0)
            pbt::require(mayFail, "the daemon exited with ", r.exit, " at ", r.ended / 1e9, " s: ", tail);
        if (!r.running && r.exit == 0)
            pbt::require(term >= 0 && r.ended >= term, "the daemon exited without being told to at ", r.ended / 1e9, " s: ", tail);
        bool failed = !r.running && r.exit != 0;
        if (term >= 0 && !failed)
        {
            pbt::require(!r.running, "the daemon did not end when it was told to at ", term / 1e9, " s");
            pbt::require(r.ended <= term + 5 * SEC, "the daemon ended only at ", r.ended / 1e9, " s, was told to at ", term / 1e9, " s");
        }
        // commands
        auto sets = r.of("set");
        int lastV = 0;
        std::map<std::string, std::pair<int, int64_t>> lastBy; // fan -> version, when
        for (auto& l : sets)
        {
            double raw = std::stod(l.value);
            int v = -1;
            bool safe = false;
            for (auto& x : versions)
                for (auto& z : x.zones)
                    for (auto& f : z.fans)
                        if (f.name == l.what)
                        {
                            double b = base(x.v, z.id);
                            if (near(raw, b) || near(raw, b + kStep) || near(raw, b - 3))
                                v = x.v;
                            if (near(raw, failsafe(x.v)))
                                v = x.v, safe = true;
                        }
            pbt::require(v >= 0, "at ", l.t / 1e9, " s fan ", l.what, " was set to ", raw, ", which no configuration asks for");
            pbt::require(mayHaveRead(v, l.t), "at ", l.t / 1e9, " s fan ", l.what, " was set to ", raw, " as of configuration ", v,
                         ", which cannot have been loaded");
            bool stop = OFFLINE_FAILSAFE_PWM && safe;
            if (term >= 0 && l.t > term)
                pbt::require(stop, "fan ", l.what, " was set to ", raw, " at ", l.t / 1e9, " s, after termination at ", term / 1e9, " s");
            if (!stop)
            {
                pbt::require(v >= lastV, "at ", l.t / 1e9, " s fan ", l.what, " was set to ", raw, " as of configuration ", v,
                             " after ", lastV, " was in force");
                lastV = v;
            }
            lastBy[l.what] = {v, l.t};
        }
        // once calm, everything follows the current configuration
        int64_t end = r.running ? sim.horizon : term >= 0 && !failed ? term : r.ended;
        int64_t disturbed = std::max<int64_t>(hups.empty() ? 0 : hups.back(), files.back().first);
        int cur = hups.empty() ? 0 : fileAt(hups.back());
        bool sure = files.back().first < (hups.empty() ? 0 : hups.back()) || files.size() == 1; // nothing changed after the last reload
        if (versions[cur].kind == Version::needsAbsent && !HANDLE_MISSING_OBJECT_PATHS)
            disturbed = std::max(disturbed, appears);
        int64_t calm = disturbed + 26 * SEC;
        if (failed)
            c.label("broken configuration");
        else if (versions[cur].kind == Version::broken && sure && r.running)
            pbt::failf("the daemon goes on although its configuration is broken");
        else if (versions[cur].kind == Version::gone || versions[cur].kind == Version::broken || !sure)
            c.label("no final configuration");
        else if (end > calm)
        {
            c.label("settled");
            auto& v = versions[cur];
            std::set<std::string> now;
            for (auto& z : v.zones)
                for (auto& f : z.fans)
                {
                    now.insert(f.name);
                    auto it = lastBy.find(f.name);
                    pbt::require(it != lastBy.end() && it->second.first == cur && (it->second.second > disturbed || disturbed <= 0),
                                 "fan ", f.name, " is not controlled under configuration ", cur, " by ", end / 1e9, " s; last command ",
                                 it == lastBy.end() ? -1. : it->second.second / 1e9, " s");
                    // and keeps following the temperature
                    if (HANDLE_MISSING_OBJECT_PATHS && z.absentAtFirst)
                        continue; // a sensor absent when it was loaded stays failed
                    for (size_t k = 0; k < toggles.size(); ++k)
                    {
                        auto at = toggles[k];
                        if (at <= calm || at + 3 * SEC > end)
                            continue;
                        double want = base(cur, z.id) + (k % 2 == 0 ? kStep : 0);
                        bool ok = false;
                        for (auto& l : sets)
                            ok = ok || (l.what == f.name && l.t >= at && l.t <= at + 3 * SEC && near(std::stod(l.value), want));
                        pbt::require(ok, "fan ", f.name, " was not set to ", want, " % when the temperature changed at ", at / 1e9, " s");
                    }
                }
            for (auto& l : sets)
                if (l.t > calm && l.t <= end)
                    pbt::require(now.count(l.what), "fan ", l.what, " was set at ", l.t / 1e9, " s but is not in the configuration any more");
            if (r.running)
            {
                std::set<std::string> want, got;
                for (auto& z : v.zones)
                {
                    auto p = kModeRoot + "/zone" + std::to_string(z.id);
                    want.insert(p);
                    want.insert(p + "/step" + std::to_string(z.id));
                    if (z.sensor.starts_with("ext"))
                        want.insert(z.path);
                }
                for (auto& l : r.of("object"))
                    got.insert(l.what);
                for (auto& p : want)
                    pbt::require(got.count(p), "there is no object ", p);
                for (auto& p : got)
                    pbt::require(want.count(p) || p == kModeRoot, "object ", p, " is left over");
            }
            c.nontrivial(!hups.empty() || term >= 0);
        }
        if (term >= 0 && !failed)
        {
            c.label("terminated");
            c.nontrivial();
            if (OFFLINE_FAILSAFE_PWM && versions[cur].kind != Version::gone && !lastBy.empty() && end > calm && sure)
                for (auto& z : versions[cur].zones)
                    for (auto& f : z.fans)
                    {
                        std::string last;
                        for (auto& l : sets)
                            if (l.what == f.name)
                                last = l.value;
                        pbt::require(near(std::stod(last), failsafe(cur)), "fan ", f.name, " was left at ", last, " on termination");
                    }
        }
    }
};

PBT(reload, 1500, 60000, "it reloaded or was terminated, and what followed was judged")
{
    Scene x(s, c);
    x.plan();
    static std::string what[] = {"", " needs a late sensor", " broken", " absent"};
    c.note("configuration ", x.config);
    for (auto& v : x.versions)
    {
        std::string z;
        for (auto& k : v.zones)
            z += " [" + std::to_string(k.id) + ": " + std::to_string(k.fans.size()) + " fans, " + k.sensor + "]";
        c.note("version ", v.v, what[v.kind], z);
    }
    c.note("late sensor appears ", x.appears / 1e9, " s, terminated ", x.term / 1e9, " s, horizon ", x.sim.horizon / 1e9);
    x.sim.world.fault = [&](bw::Msg& m) -> std::optional<bw::Reply> {
        if (m.iface == bw::PROPS && m.member == "Set" && m.path.starts_with("/xyz/openbmc_project/control/fanpwm/"))
        {
            auto& v = m.body.at(2).sig == "v" ? m.body[2].kids.at(0) : m.body[2];
            uint64_t raw = 0;
            if (v.sig == "t")
                sim::Tr<uint64_t>::get(v, raw);
            rec("set", m.path.substr(m.path.rfind('/') + 1), std::to_string(raw));
        }
        return std::nullopt;
    };
    x.judge(x.sim.run());
}
} // namespace
