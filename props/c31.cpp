// C31: in tuning mode the set point files decide, and failsafe does not
// interfere; outside tuning mode they are ignored.
#include "redirect.hpp"
#include "rig.hpp"
using namespace rig;

static std::string gDir;
static std::string common()
{
    return gDir + "/setpoint";
}
static std::string own(int64_t z)
{
    return gDir + "/setpoint.zone" + std::to_string(z);
}

struct Files
{
    std::map<std::string, std::string> text; // present files
    static bool valid(const std::string& t, double& v)
    {
        // a whole number on the first line that has one, more than a percentage
        size_t p = t.find_first_not_of(" \t\n");
        if (p == std::string::npos)
            return false;
        size_t e = p + (t[p] == '+' || t[p] == '-');
        size_t d = e;
        while (e < t.size() && t[e] >= '0' && t[e] <= '9')
            ++e;
        if (e == d)
            return false;
        v = std::strtod(t.substr(p, e - p).c_str(), nullptr);
        return v > 100 && v <= std::numeric_limits<int>::max();
    }
    void decide(int64_t zone, double& sp) const
    {
        double v;
        for (auto& f : {common(), own(zone)})
        {
            auto it = text.find(f);
            if (it != text.end() && valid(it->second, v))
                sp = v;
        }
    }
};

static std::string content(pbt::Src& s, bool& good)
{
    good = true;
    switch (s.w({10, 2, 2, 2, 2, 2, 2, 1, 1}))
    {
        case 0:
            return std::to_string(s.i(101, 9000)) + (s.b(70) ? "\n" : "");
        case 1:
            return "  \t" + std::to_string(s.i(101, 9000)) + " \n";
        case 2:
            return "\n\n" + std::to_string(s.i(101, 9000)) + "\nmore\n500\n";
    }
    good = false;
    switch (s.w({3, 3, 3, 2, 3}))
    {
        case 0:
            return std::to_string(s.i(0, 100)) + "\n";
        case 1:
            return "-" + std::to_string(s.i(1, 9000)) + "\n";
        case 2:
            return s.pick(std::vector<std::string>{"", "\n", "  \n\t\n"});
        case 3:
            return s.pick(std::vector<std::string>{"auto\n", "rpm 3000\n", "#3000\n", "x", "-", "+\n", "nan\n", "inf\n"});
        default:
            return s.pick(std::vector<std::string>{"100", "1\n", "42 3000\n", "00\n", "99999999999\n",
                                                         "123456789012345678901234567890\n"});
    }
}

static void drive(pbt::Src& s, pbt::Ctx& c, Opt o, bool tuning)
{
    gDir = pbt::scratch() + "/rig/thermal.d";
    std::error_code ec;
    std::filesystem::remove_all(gDir, ec);
    bool dirThere = s.b(90);
    if (dirThere)
        std::filesystem::create_directories(gDir);
    redirect::clear();
    redirect::map("/etc/thermal.d", gDir);
    o.reqHi = 8000;
    Conf cf = genConf(s, o);
    for (auto& [id, pc] : cf.pids)
        for (auto& [n, ci] : pc)
            if (ci.type == "fan")
                ci.pidInfo.feedFwdGain = 0.0078125;
    describe(c, cf);
    Names n(cf);
    Rig r(cf);
    Model m(r);
    Files files;
    tuningEnabled = tuning;
    c.note(tuning ? "tuning" : "not tuning");
    std::set<int64_t> decided, untouched;
    size_t inFailsafe = 0;
    for (auto& [id, z] : m.zones)
    {
        z.tuning = tuning;
        if (tuning)
            z.override_ = [&, zone = id](double& sp) {
                double was = sp;
                sp = NaN;
                files.decide(zone, sp);
                if (std::isnan(sp))
                    sp = was, untouched.insert(zone);
                else if (sp != was)
                    decided.insert(zone);
            };
    }
    int64_t span = anySpan(s, 300, 5000);
    int ne = static_cast<int>(s.i(0, 14));
    std::vector<std::string> where = {common()};
    for (auto z : n.zones)
        where.push_back(own(z));
    where.push_back(own(99));
    where.push_back(gDir + "/setpoint.zone");
    auto fileEvent = [&] {
        Event e;
        e.kind = Event::file;
        e.who = s.pick(where);
        e.on = s.b(75);
        bool good;
        e.text = content(s, good);
        return e;
    };
    Drive d(r, m);
    if (dirThere)
        for (int k = 0; k < static_cast<int>(s.i(0, 2)); ++k)
        {
            auto e = fileEvent();
            c.note("at the start ", e.who.substr(gDir.size()), e.on ? " '" + e.text + "'" : " gone");
            r.apply(e);
            if (e.on)
                files.text[e.who] = e.text;
            else
                files.text.erase(e.who);
        }
    for (int k = 0; k < ne; ++k)
    {
        Event e;
        if (dirThere && s.b(55))
            e = fileEvent();
        else
        {
            e.who = s.pick(n.all);
            bool fan = cf.sensors.at(e.who).info.type == "fan";
            e.v = anyReading(s, fan);
            if (s.b(30))
                e.v = NaN;
        }
        e.t = evTime(s, span);
        d.events.push_back(e);
    }
    sortEvents(d.events);
    for (auto& e : d.events)
        c.note(e.show());
    r.build();
    r.start();
    m.start(T0);
    d.onEvent = [&](const Event& e) {
        if (e.kind != Event::file)
            return;
        if (e.on)
            files.text[e.who] = e.text;
        else
            files.text.erase(e.who);
    };
    d.onTick = [&](MZone& z, const std::vector<Cmd>& cmds, const std::vector<Sent>& got) {
        d.judgeWrites(z, cmds, got);
        inFailsafe += !z.failed.empty();
        // failsafe is still reported
        pbt::require(r.zoneFlag(z.id, "FailSafe") == !z.failed.empty(), "zone ", z.id, " pass at +", (vclock::now() - T0) / MS,
                     " ms reports failsafe ", z.failed.empty() ? "though none of its sensors is missing" : "not though a sensor is missing");
    };
    d.run(T0 + (span + 1200) * MS);
    redirect::clear();
    if (inFailsafe)
        c.label("in failsafe");
    if (!decided.empty())
        c.label("a file decided");
    c.nontrivial(tuning ? !decided.empty() && inFailsafe > 0 : !files.text.empty());
}

PBT(tuning, 3000, 60000, "a file decided a zone's set point, and a zone was in failsafe at some time")
{
    Opt o;
    o.levels = true;
    o.fanP = s.b(30);
    o.minimum = true;
    o.ceilingPct = s.b(30) ? 20 : 0;
    o.pidThermals = s.b(50);
    o.startFaults = s.b(40);
    o.acc = s.b(30);
    drive(s, c, o, true);
}
PBT(tuning_zones, 2000, 40000, "a file decided a zone's set point, and a zone was in failsafe at some time")
{
    Opt o;
    o.zonesMax = 4;
    o.levels = true;
    o.thermalsMax = 2;
    drive(s, c, o, true);
}
PBT(not_tuning, 1000, 20000, "a set point file was there at the end")
{
    Opt o;
    o.zonesMax = 2;
    o.levels = true;
    o.minimum = true;
    drive(s, c, o, false);
}
