// C20: start-up options, /etc/thermal.d and the search for the configuration.
#include "daemon.hpp"

#include <nlohmann/json.hpp>
#include <set>

namespace
{
using namespace dm;
using ojson = nlohmann::ordered_json;

// What tells one configuration file from another
double base(int v, int zone)
{
    return 20 + 6 * v + 0.75 * zone;
}
bool near(double raw, double pct)
{
    return std::fabs(raw - pct * 255 / 100) <= 1.01;
}
int zonesOf(int v)
{
    return v % 2 ? 2 : 1;
}
std::string render(int v)
{
    ojson j;
    j["sensors"] = ojson::array();
    j["zones"] = ojson::array();
    for (int z = 0; z < zonesOf(v); ++z)
    {
        auto id = std::to_string(z);
        j["sensors"].push_back({{"name", "fan" + id}, {"type", "fan"}, {"timeout", 0},
                                {"readPath", "/xyz/openbmc_project/sensors/fan_tach/fan" + id},
                                {"writePath", "/xyz/openbmc_project/control/fanpwm/fan" + id}, {"min", 0}, {"max", 255}});
        j["sensors"].push_back({{"name", "temp" + id}, {"type", "temp"}, {"timeout", 0},
                                {"readPath", "/xyz/openbmc_project/sensors/temperature/temp" + id}});
        ojson zo = {{"id", z}, {"minThermalOutput", 500}, {"failsafePercent", 95}, {"cycleIntervalTimeMS", 500}, {"updateThermalsTimeMS", 1000}};
        auto pid = [](double ff, double offset) {
            return ojson{{"samplePeriod", 0.5}, {"proportionalCoeff", 0}, {"integralCoeff", 0}, {"feedFwdOffsetCoeff", offset},
                         {"feedFwdGainCoeff", ff}, {"integralLimit_min", 0}, {"integralLimit_max", 0}, {"outLim_min", 0}, {"outLim_max", 100},
                         {"slewNeg", 0}, {"slewPos", 0}};
        };
        zo["pids"] = {
            {{"name", "fans" + id}, {"type", "fan"}, {"inputs", {"fan" + id}}, {"setpoint", 4000}, {"pid", pid(0.01, 0)}},
            {{"name", "step" + id}, {"type", "stepwise"}, {"inputs", {"temp" + id}}, {"setpoint", 0},
             {"pid", {{"samplePeriod", 0.5}, {"positiveHysteresis", 0}, {"negativeHysteresis", 0}, {"isCeiling", false},
                      {"reading", {{"0", 5}}}, {"output", {{"0", 100 * base(v, z)}}}}}},
            {{"name", "therm" + id}, {"type", "temp"}, {"inputs", {"temp" + id}}, {"setpoint", 30}, {"pid", pid(10, 0)}}};
        j["zones"].push_back(zo);
    }
    return j.dump(1);
}

struct Scene
{
    pbt::Src& s;
    pbt::Ctx& c;
    Sim sim;
    enum Bad
    {
        fine,
        refuses,
        helps
    } bad = fine;
    std::string given, dashL, alt; // -c, -l, the path in the logging file
    bool logFile = false, altExists = false, tuning = false, debug = false, core = false;
    std::map<std::string, int> confs; // where -> which, at the start
    int late = -1;                    // one more, from `lateAt` on, with a reload
    std::string latePlace;
    int64_t lateAt = 0, hup = -1, term = 0;
    std::string setpoint;
    std::map<int, std::string> zoneSetpoint;

    Scene(pbt::Src& s, pbt::Ctx& c) : s(s), c(c) {}

    std::string at(const std::string& place)
    {
        return sim.dir + "/" + place;
    }
    void plan()
    {
        for (auto p : {"alt", "log/deep", "fan logs", "log/a  b "})
            fs::create_directories(at(p));
        for (int z = 0; z < 2; ++z)
        {
            auto id = std::to_string(z);
            sim.world.add("/xyz/openbmc_project/sensors/temperature/temp" + id, "xyz.openbmc_project.Sensors").ifaces[bw::VALUE]["Value"] =
                mk(25.);
            sim.world.add("/xyz/openbmc_project/sensors/fan_tach/fan" + id, "xyz.openbmc_project.Sensors").ifaces[bw::VALUE]["Value"] =
                mk(4000.);
            sim.world.add("/xyz/openbmc_project/control/fanpwm/fan" + id, "xyz.openbmc_project.Fans").ifaces[bw::FANPWM]["Target"] =
                mk(uint64_t(7));
        }
        std::vector<std::vector<std::string>> words;
        int n = 0;
        for (auto& p : {"cwd/config.json", "var/config.json", "usr/config.json"})
            if (s.b(55))
            {
                confs[p] = ++n;
                Sim::put(at(p), render(n));
            }
        auto opt = [&](const char* brief, const char* full, const std::string& v) -> std::vector<std::string> {
            switch (s.draw(4))
            {
                case 0:
                    return {brief, v};
                case 1:
                    return {full, v};
                case 2:
                    return {std::string(full) + "=" + v};
                default:
                    return {std::string(brief) + v};
            }
        };
        if (s.b(35))
        {
            given = s.pick(std::vector<std::string>{"cwd/my.conf", "log/config.json", "alt/x", "var/config.json"});
            if (!confs.count(given))
            {
                confs[given] = ++n;
                Sim::put(at(given), render(n));
            }
            words.push_back(opt("-c", "--conf", given == "cwd/my.conf" && s.b(50) ? "my.conf" : s.b(30) ? "../" + given : at(given)));
        }
        if (s.b(45))
        {
            dashL = s.pick(std::vector<std::string>{"log", "cwd", "log/deep", "fan logs", "log/a  b "});
            words.push_back(opt("-l", "--log", s.b(30) ? "../" + dashL : s.b(20) ? at(dashL) + "/" : at(dashL)));
        }
        if (s.b(40))
        {
            logFile = true;
            std::string text;
            switch (s.w({2, 4, 2}))
            {
                case 0:
                    text = s.pick(std::vector<std::string>{"", "\n", "\nsecond line\n", "\n" + at("alt") + "\n", "\n\n" + at("log")});
                    break;
                case 1:
                    alt = s.pick(std::vector<std::string>{"alt", "log", "fan logs", "log/a  b "});
                    altExists = true;
                    text = at(alt) + s.pick(std::vector<std::string>{"", "\n", "\n" + at("cwd") + "\n"});
                    break;
                default:
                    alt = s.pick(std::vector<std::string>{"nowhere", "fan", "log/a", "fan logs/below"});
                    text = at(alt) + s.pick(std::vector<std::string>{"", "\n", "\n" + at("alt") + "\n", "\n" + at("cwd")});
            }
            Sim::put(at("etc/logging"), text);
        }
        auto flag = [&](bool& on, const char* brief, const char* full, const char* file) {
            size_t how = s.w({5, 2, 2, 1});
            on = how != 0;
            if (how & 1)
                words.push_back({s.b(50) ? brief : full});
            if (how & 2)
                Sim::put(at(std::string("etc/") + file), s.pick(std::vector<std::string>{"", "1\n", "0\n", "no\n"}));
        };
        flag(tuning, "-t", "--tuning", "tuning");
        flag(debug, "-d", "--debug", "debugging");
        flag(core, "-g", "--corelogging", "corelogging");
        if (s.b(60))
        {
            setpoint = std::to_string(s.i(61, 90));
            Sim::put(at("etc/setpoint"), setpoint + "00\n");
        }
        if (s.b(30))
        {
            int z = static_cast<int>(s.draw(2));
            zoneSetpoint[z] = std::to_string(s.i(61, 90));
            Sim::put(at("etc/setpoint.zone" + std::to_string(z)), zoneSetpoint[z] + "00\n");
        }
        if (s.b(12))
        {
            bad = refuses;
            size_t k = s.draw(6);
            if (k == 0 && given.empty())
                words.push_back({"-c", at("log/none.json")});
            else if (k == 1 && dashL.empty())
                words.push_back({"-l", at("nowhere")});
            else if (k == 2 && given.empty())
                words.push_back({"--conf", at("alt")}); // a directory
            else if (k == 3)
                words.push_back({"--unknown"});
            else if (k == 4)
                words.push_back({"extra"});
            else
            {
                bad = helps;
                words.push_back({s.b(50) ? "-h" : "--help"});
            }
        }
        for (size_t k = words.size(); k > 1; --k)
            std::swap(words[k - 1], words[s.draw(k)]);
        for (auto& w : words)
            sim.args.insert(sim.args.end(), w.begin(), w.end());
        term = s.i(3500, 6000) * MS;
        if (bad == fine && s.b(40))
        {
            // a reload, which sees what is there by then
            lateAt = s.i(200, 2000) * MS;
            hup = lateAt + s.i(1, 1000) * MS;
            if (given.empty() || s.b(40))
            {
                late = ++n;
                latePlace = given.empty() ? s.pick(std::vector<std::string>{"cwd/config.json", "var/config.json", "usr/config.json"}) : given;
                sim.at(lateAt, [this] { Sim::put(at(latePlace), render(late)); });
            }
            sim.at(hup, [] { raise(SIGHUP); });
            term = hup + 12 * SEC + s.i(3500, 6000) * MS;
        }
        sim.at(term, [] {
            rec("TERM");
            raise(SIGTERM);
        });
        sim.horizon = term + 5 * SEC;
    }
    int chosen(bool afterwards) const
    {
        auto have = confs;
        if (afterwards && late >= 0)
            have[latePlace] = late;
        for (auto& p : {given, std::string("cwd/config.json"), std::string("var/config.json"), std::string("usr/config.json")})
            if (auto it = have.find(p); !p.empty() && it != have.end())
                return it->second;
        return -1;
    }
    double wanted(int v, int z) const
    {
        if (tuning)
        {
            if (auto it = zoneSetpoint.find(z); it != zoneSetpoint.end())
                return std::stod(it->second);
            if (!setpoint.empty())
                return std::stod(setpoint);
        }
        return base(v, z);
    }
    static std::vector<std::string> lines(const std::string& f)
    {
        std::vector<std::string> r;
        std::ifstream in(f);
        for (std::string l; std::getline(in, l);)
            r.push_back(l);
        return r;
    }
    static size_t fields(const std::string& l)
    {
        return static_cast<size_t>(std::count(l.begin(), l.end(), ',')) + 1;
    }
    void judge(const Run& r)
    {
        for (auto& l : r.trace)
            c.note("  ", l.t / 1e9, " ", l.kind, " ", l.what, " ", l.value);
        auto tail = r.log.size() > 3000 ? r.log.substr(r.log.size() - 3000) : r.log;
        pbt::require(!r.hung && r.sig == 0 && r.exit != 77 && r.exit != 78, "the daemon crashed or hangs: ", tail);
        auto sets = r.of("set");
        // logs
        std::map<std::string, std::vector<std::string>> logs; // directory -> files
        for (auto& d : {"cwd", "log", "alt", "log/deep", "fan logs", "log/a  b ", "tmp", "root", "etc", "var", "usr"})
            for (auto& e : fs::directory_iterator(at(d)))
            {
                auto n = e.path().filename().string();
                if (n.starts_with("zone_") || n.starts_with("pidco"))
                    logs[d].push_back(n);
            }
        auto all = [&] {
            std::string t;
            for (auto& [d, l] : logs)
                for (auto& n : l)
                    t += " " + d + "/" + n;
            return t.empty() ? std::string(" none") : t;
        };
        if (bad != fine)
        {
            pbt::require(!r.running && r.ended < SEC, "it starts in spite of its command line");
            pbt::require((r.exit == 0) == (bad == helps), "exit status ", r.exit, " for a command line that ", bad == helps ? "asks for help" : "is wrong");
            pbt::require(sets.empty(), "fans are set in spite of the command line");
            pbt::require(logs.empty(), "logs are written in spite of the command line:", all());
            c.label(bad == helps ? "help" : "bad command line");
            c.nontrivial();
            return;
        }
        pbt::require(!r.running && r.exit == 0 && r.ended >= term, "the daemon ended with ", r.exit, " at ", r.ended / 1e9, " s: ", tail);
        // the configuration found
        int first = chosen(false), second = hup >= 0 ? chosen(true) : first;
        int64_t reloaded = hup + SEC;
        for (auto& l : sets)
        {
            if (l.t >= term)
                continue;
            double raw = std::stod(l.value);
            int z = l.what.back() - '0';
            bool ok = raw == 242 || raw == 243; // failsafe, until the sensors are read
            for (int v : {first, second})
                if (v > 0 && z < zonesOf(v) && (v == first || l.t >= reloaded - MS) && (v == second || l.t <= reloaded + 11 * SEC))
                    ok = ok || near(raw, wanted(v, z)) || near(raw, 5) || (tuning && near(raw, base(v, z)));
            pbt::require(ok, "at ", l.t / 1e9, " s ", l.what, " was set to ", raw, ", configuration should be ", l.t >= reloaded && hup >= 0 ? second : first);
        }
        auto settled = [&](int64_t t, int v, const char* when) {
            for (int z = 0; z < 2; ++z)
            {
                std::string last;
                for (auto& l : sets)
                    if (l.t < t && l.what == "fan" + std::to_string(z))
                        last = l.value;
                if (v < 0)
                    pbt::require(last.empty() || hup >= 0, "a fan is set without any configuration ", when);
                else if (z < zonesOf(v))
                {
                    pbt::require(!last.empty(), "fan", z, " is not controlled ", when);
                    pbt::require(near(std::stod(last), wanted(v, z)), "fan", z, " is at ", last, " ", when, ", should be at ", wanted(v, z), " % (configuration ", v,
                                 tuning ? ", tuning)" : ")");
                }
            }
        };
        if (hup < 0 || reloaded > 2 * SEC)
            settled(hup < 0 ? term : reloaded - MS, first, "at first");
        if (hup >= 0)
            settled(term, second, "after the reload");
        // logs
        std::string dir = logFile ? altExists ? alt : dashL.empty() ? "tmp" : dashL : dashL;
        std::string coreDir = dir.empty() ? "tmp" : dir;
        bool logging = !dir.empty();
        std::map<std::string, std::vector<std::string>> want;
        int zones = std::max(first > 0 ? zonesOf(first) : 0, second > 0 ? zonesOf(second) : 0);
        int last = second > 0 ? zonesOf(second) : 0; // zones at the end
        for (int z = 0; z < zones; ++z)
        {
            auto id = std::to_string(z);
            if (logging)
                want[dir].push_back("zone_" + id + ".log");
            if (core)
                for (auto& n : {"pidcore.fans", "pidcore.therm", "pidcoeffs.fans", "pidcoeffs.therm"})
                    want[coreDir].push_back(n + id);
        }
        for (auto* m : {&want, &logs})
            for (auto& [d, l] : *m)
                std::sort(l.begin(), l.end());
        std::string w;
        for (auto& [d, l] : want)
            for (auto& n : l)
                w += " " + d + "/" + n;
        pbt::require(logs == want, "logs:", all(), ", expected:", w.empty() ? " none" : w);
        int64_t from = hup >= 0 ? reloaded + 11 * SEC : SEC;
        for (auto& [d, l] : want)
            for (auto& n : l)
            {
                auto t = lines(at(d) + "/" + n);
                int z = n[n.find_first_of("01")] - '0';
                pbt::require(t.size() >= 2, d, "/", n, " has no contents");
                pbt::require(t[0].starts_with("epoch_ms,"), d, "/", n, " starts with ", t[0]);
                for (auto& x : t)
                    pbt::require(fields(x) == fields(t[0]), d, "/", n, " has the line ", x);
                size_t rows = t.size() - 1;
                if (n.starts_with("zone_") && z < last)
                {
                    pbt::require(rows >= static_cast<size_t>((term - from) / (500 * MS)) - 1, d, "/", n, " has only ", rows, " lines");
                    c.label("zone log");
                }
                if (n.starts_with("pidcore"))
                {
                    int64_t lo = std::stoll(t[1]), hi = std::stoll(t.back());
                    pbt::require(lo <= hi, d, "/", n, " goes back in time");
                    if (first > 0 && z < zonesOf(first)) // it goes on after a reload
                        pbt::require(lo <= (T0 + 2 * SEC) / MS, d, "/", n, " lost what was before the reload");
                    if (hup >= 0 && z < last)
                        pbt::require(hi >= (T0 + reloaded - MS) / MS, d, "/", n, " has nothing after the reload");
                    c.label("core log");
                }
            }
        // debug
        int mentions = 0;
        std::istringstream in(r.log);
        for (std::string l; std::getline(in, l);)
            mentions += l.find("step0") != std::string::npos;
        if (debug && second > 0)
            pbt::require(mentions >= 6, "debug mode is on, but step0 is hardly ever reported on");
        if (!debug)
            pbt::require(mentions <= 4, "debug mode is off, but step0 is reported on ", mentions, " times");
        if (debug)
            c.label("debug");
        if (tuning)
            c.label("tuning");
        if (hup >= 0)
            c.label("reload");
        if (first < 0)
            c.label("no configuration at first");
        c.nontrivial(!sim.args.empty() || logFile || hup >= 0 || confs.size() > 1);
    }
};

PBT(options, 4000, 60000, "options or files were given, or there was a choice of configurations, and what they ask for was judged")
{
    Scene x(s, c);
    x.plan();
    std::string a;
    for (auto& w : x.sim.args)
        a += " " + w;
    c.note("arguments:", a);
    for (auto& [p, v] : x.confs)
        c.note("configuration ", v, " in ", p);
    c.note("late ", x.late, " ", x.latePlace, " at ", x.lateAt / 1e9, " s, reload ", x.hup / 1e9, " s, end ", x.term / 1e9);
    c.note("logging file ", x.logFile, " naming ", x.alt, ", tuning ", x.tuning, ", debug ", x.debug, ", core ", x.core, ", set point ", x.setpoint);
    x.sim.world.fault = [&](bw::Msg& m) -> std::optional<bw::Reply> {
        if (m.iface == bw::PROPS && m.member == "Set" && m.path.starts_with("/xyz/openbmc_project/control/fanpwm/"))
        {
            auto& v = m.body.at(2).sig == "v" ? m.body[2].kids.at(0) : m.body[2];
            uint64_t raw = 0;
            if (v.sig == "t")
                sim::Tr<uint64_t>::get(v, raw);
            rec("set", m.path.substr(m.path.rfind('/') + 1), std::to_string(raw));
        }
        return std::nullopt;
    };
    x.judge(x.sim.run());
}
} // namespace
