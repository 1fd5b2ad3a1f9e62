// C18: what is built from configuration objects on D-Bus.
#include "dbusconf.hpp"

#include <boost/asio/io_context.hpp>
#include <boost/asio/steady_timer.hpp>
#include <sdbusplus/asio/connection.hpp>

namespace pid_control
{
void tryRestartControlLoops(bool) {}
} // namespace pid_control
using namespace dc;

static const std::vector<std::string> kTemps = {"CPU0 Temp", "CPU1 Temp", "CPU10 Temp", "XCPU1 Temp", "Inlet", "Inlet 2", "DIMM_A1", "DIMM_A2"};
static const std::vector<std::string> kPowers = {"PSU1 Power", "PSU2 Power", "Total"};
static const std::vector<std::string> kFans = {"Fan 1", "Fan 2", "Fan 3", "Fan 12"};

static std::string show(const conf::SensorConfig& c)
{
    std::ostringstream o;
    o << c.type << " " << c.readPath << " -> " << c.writePath << " [" << c.min << "," << c.max << "] timeout " << c.timeout
      << (c.ignoreDbusMinMax ? " ignoreDbusMinMax" : "") << (c.unavailableAsFailed ? " unavailableAsFailed" : "")
      << (c.ignoreFailIfHostOff ? " ignoreFailIfHostOff" : "");
    return o.str();
}
static std::string show(const conf::ZoneConfig& z)
{
    std::ostringstream o;
    o << "min " << z.minThermalOutput << " failsafe " << z.failsafePercent << " cycle " << z.cycleTime.cycleIntervalTimeMS << "/"
      << z.cycleTime.updateThermalsTimeMS << (z.accumulateSetPoint ? " accumulate" : "");
    return o.str();
}
static std::string show(const conf::ControllerInfo& c)
{
    std::ostringstream o;
    o << c.type << " (";
    std::multiset<std::string> ins;
    for (auto& i : c.inputs)
    {
        std::ostringstream x;
        x << i.name;
        if (i.convertTempToMargin)
            x << "[" << i.convertMarginZero << "]";
        if (i.missingIsAcceptable)
            x << "?";
        ins.insert(x.str());
    }
    for (auto& i : ins)
        o << i << " ";
    o << ") setpoint " << c.setpoint << " failsafe " << c.failSafePercent;
    if (c.type == "stepwise")
    {
        for (size_t k = 0; k < ec::maxStepwisePoints && !std::isnan(c.stepwiseInfo.reading[k]); ++k)
            o << " " << c.stepwiseInfo.reading[k] << "->" << c.stepwiseInfo.output[k];
        o << " hyst +" << c.stepwiseInfo.positiveHysteresis << "/-" << c.stepwiseInfo.negativeHysteresis
          << (c.stepwiseInfo.isCeiling ? " ceiling" : "");
    }
    else
    {
        auto& p = c.pidInfo;
        o << " P " << p.proportionalCoeff << " I " << p.integralCoeff << " D " << p.derivativeCoeff << " FF " << p.feedFwdOffset << "*"
          << p.feedFwdGain << " ilim " << p.integralLimit.min << ".." << p.integralLimit.max << " out " << p.outLim.min << ".."
          << p.outLim.max << " slew " << p.slewNeg << "/" << p.slewPos << " hyst +" << p.positiveHysteresis << "/-"
          << p.negativeHysteresis << (p.checkHysterWithSetpt ? " against set point" : "");
    }
    return o.str();
}
static std::string show(const conf::PIDConf& p)
{
    std::string o;
    for (auto& [n, c] : p)
        o += "\n    " + n + ": " + show(c);
    return o;
}

static Config generate(pbt::Src& s)
{
    Config c;
    auto sensor = [&](const std::string& n, const std::string& layer, int pct) {
        if (!s.b(pct))
            return;
        Sensor x;
        x.path = "/xyz/openbmc_project/sensors/" + layer + "/" + busName(n);
        x.iface = bw::VALUE;
        if (s.b(60))
        {
            for (auto& t : {"CriticalHigh", "CriticalLow", "WarningHigh", "WarningLow"})
                if (s.b(50))
                    x.thresholds[t] = s.q(-20, 100, 4);
            if (s.b(50))
                x.threshIfaces = {bw::WARN, bw::CRIT};
        }
        c.sensors.push_back(x);
    };
    for (auto& n : kTemps)
        sensor(n, "temperature", 85);
    for (auto& n : kPowers)
        sensor(n, "power", 85);
    for (auto& n : kFans)
        sensor(n, "fan_tach", 92);
    for (int k = 1; k <= 3; ++k)
        if (s.b(92))
        {
            Sensor x;
            x.path = "/xyz/openbmc_project/control/fanpwm/Pwm_" + std::to_string(k);
            x.iface = bw::FANPWM;
            c.sensors.push_back(x);
            if (s.b(40)) // its value is published as well
            {
                x.path = "/xyz/openbmc_project/sensors/fan_pwm/Pwm_" + std::to_string(k);
                x.iface = bw::VALUE;
                c.sensors.push_back(x);
            }
        }
    static const std::vector<std::string> modes = {"Performance", "Acoustic", "Eco", "Perf", "Eco 2", "eco"};
    if (s.b(35))
        for (int k = 0; k < static_cast<int>(s.i(1, 2)); ++k)
            c.current.push_back(s.pick(modes));
    auto profiles = [&]() -> std::optional<Strings> {
        if (!s.b(40))
            return std::nullopt;
        Strings p;
        for (auto& m : modes)
            if (s.b(25))
                p.push_back(m);
        return p;
    };
    static const std::vector<std::string> zn = {"Zone 0", "Zone 1", "Left", "Right", "0"};
    int nz = static_cast<int>(s.i(1, 4));
    bool odd = s.b(12); // something is wrong with it
    bool dup = s.b(25);
    std::set<double> idx;
    for (int k = 0; k < nz; ++k)
    {
        Zone z;
        z.name = zn[k];
        z.min = k * 100 + s.q(0, 99, 4);
        if (s.b(60))
            z.failsafe = s.q(0, 100, 4);
        if (s.b(40))
            z.cycle = s.w({4, 1}) ? s.q(-100, 1, 2) : s.q(1, 1000, 2);
        if (s.b(40))
            z.thermal = s.w({4, 1}) ? s.q(-100, 1, 2) : s.q(1, 5000, 2);
        if (s.b(50))
        {
            double v = static_cast<double>(s.i(0, 6));
            if (dup || idx.insert(v).second)
                z.index = v;
        }
        if (s.b(50))
            z.acc = s.b(50);
        if (s.b(15))
            z.profiles = profiles();
        if (odd && s.b(15))
            z.drop = {s.pick(std::vector<std::string>{"Name", "MinThermalOutput"})};
        if (odd && s.b(15))
            z.spoil = {s.pick(std::vector<std::string>{"Name", "MinThermalOutput"})};
        c.zones.push_back(z);
    }
    int nc = static_cast<int>(s.i(1, 6));
    std::set<std::string> offsetNames;
    for (int k = 0; k < nc; ++k)
    {
        Ctl x;
        x.step = s.b(30);
        x.name = (x.step ? "Stepwise " : "PID ") + std::to_string(k);
        static const std::vector<std::string> cls = {"temp", "fan", "margin", "power", "powersum"};
        x.cls = x.step ? s.pick(std::vector<std::string>{"Floor", "Ceiling", ""}) : s.pick(cls);
        if (odd && !x.step && s.b(10))
            x.cls = "voltage";
        bool fan = x.cls == "fan" && !x.step;
        x.zones.push_back(zn[s.draw(nz)]);
        if (s.b(15))
            x.zones.push_back(zn[s.draw(nz)]);
        if (x.zones.size() == 2 && x.zones[0] == x.zones[1])
            x.zones.pop_back();
        if (odd && s.b(15))
            x.zones = {"Nowhere"};
        std::set<std::string> used;
        auto pick = [&](const std::vector<std::string>& from, int n, Strings& to, bool patterns) {
            for (int j = 0; j < n; ++j)
            {
                std::string p = s.pick(from);
                if (patterns && s.b(12))
                    p = s.pick(std::vector<std::string>{"CPU[0-9]+ Temp", "DIMM_A.*", "CPU1.*", "PSU. Power", "Inlet.*"});
                // one sensor is one input
                std::set<std::string> names;
                for (auto* f : find(c, p))
                    names.insert(f->name());
                if (names.empty())
                    names.insert(busName(p));
                bool clash = false;
                for (auto& q : names)
                    clash = clash || used.count(q);
                // patterns that match nothing describe no sensor
                if (clash || (p.find_first_of("[.*") != std::string::npos && find(c, p).empty()))
                    continue;
                used.insert(names.begin(), names.end());
                to.push_back(p);
            }
        };
        if (fan)
        {
            pick(kFans, static_cast<int>(s.i(1, 3)), x.inputs, false);
            static const std::vector<std::string> pw = {"Pwm 1", "Pwm 2", "Pwm 3"};
            if (s.b(40))
                x.outputs = {s.pick(pw)};
            else
                for (size_t j = 0; j < x.inputs.size(); ++j)
                    x.outputs.push_back(pw[(j + k) % 3]);
            if (odd && s.b(20))
                x.outputs.push_back(s.pick(kFans));
            if (odd && s.b(10))
                x.outputs = {s.pick(kFans)};
        }
        else
        {
            bool pw = x.cls == "power" || x.cls == "powersum";
            pick(pw ? kPowers : kTemps, static_cast<int>(s.i(1, 4)), x.inputs, s.b(40));
            if (odd && s.b(8) && !x.step)
                x.inputs.push_back("Pwm 1");
        }
        if (s.b(35))
        {
            Strings a;
            for (auto& in : x.inputs)
                if (s.b(50))
                    a.push_back(in);
            x.acceptable = a;
        }
        if (x.step && !HANDLE_MISSING_OBJECT_PATHS)
        {
            // inputs behind an absent one are not specified
            auto cut = [&](Strings& v) {
                for (size_t j = 0; j < v.size(); ++j)
                    if (find(c, v[j]).empty())
                        v.resize(j + 1);
            };
            cut(x.inputs);
            if (x.acceptable)
                cut(*x.acceptable);
        }
        if (s.b(20))
            x.profiles = profiles();
        if (s.b(40))
            x.unavailable = s.b(50);
        if (s.b(40))
            x.hostOff = s.b(50);
        bool literal = true;
        for (auto& in : x.inputs)
            literal = literal && in.find_first_of("[.*") == std::string::npos;
        if (literal && !fan && s.b(30))
        {
            Doubles m;
            for (int j = 0; j < static_cast<int>(s.i(0, 5)); ++j)
                m.push_back(s.q(50, 120, 2));
            x.margins = m;
        }
        if (s.b(50))
            x.posHyst = s.q(0, 8, 4);
        if (s.b(50))
            x.negHyst = s.q(0, 8, 4);
        if (x.step)
        {
            int n = static_cast<int>(s.w({1, 6, 6, 1})) * 2;
            n = n == 0 ? 1 : n == 6 ? static_cast<int>(s.i(19, odd ? 22 : 20)) : n;
            for (int j = 0; j < n; ++j)
            {
                x.reading.push_back(j * 5 + s.q(0, 4, 2));
                x.output.push_back(s.q(0, 100, 4));
            }
            if (odd && s.b(10))
                x.output.pop_back();
            if (odd && s.b(10))
                x.reading.clear(), x.output.clear();
        }
        else
        {
            x.setpoint = s.q(0, 100, 4);
            for (double* d : {&x.p, &x.i, &x.ffOff, &x.ffGain, &x.iMax, &x.iMin, &x.oMax, &x.oMin, &x.sNeg, &x.sPos})
                *d = s.q(-500, 500, 8);
            if (s.b(50))
                x.failsafe = s.q(0, 100, 4);
            if (s.b(40))
                x.d = s.q(-10, 10, 16);
            if (s.b(40))
                x.checkHyst = s.b(50);
            if (!fan && s.b(15))
            {
                bool clash = false;
                for (auto& in : x.inputs)
                    for (auto* f : find(c, in))
                        clash = clash || !offsetNames.insert(f->name()).second;
                if (!clash)
                    x.offset = s.pick(std::vector<std::string>{"CriticalHigh", "CriticalLow", "WarningHigh", "WarningLow"});
                if (odd && s.b(30))
                    x.offset = "FatalHigh";
            }
        }
        bool there = true;
        for (auto& in : x.inputs)
            there = there && !find(c, in).empty();
        if (x.cls == "voltage" && !there)
            continue; // not specified
        if (odd && there && !x.inputs.empty() && x.cls != "voltage" && s.b(35))
        {
            static const std::vector<std::string> step = {"Name", "Class", "Zones", "Inputs", "Reading", "Output"};
            static const std::vector<std::string> pid = {"Name", "Class", "Zones", "Inputs", "PCoefficient", "ICoefficient",
                                                         "FFOffCoefficient", "FFGainCoefficient", "ILimitMax", "ILimitMin",
                                                         "OutLimitMax", "OutLimitMin", "SlewNeg", "SlewPos"};
            auto which = s.pick(x.step ? step : pid);
            if (!x.step && s.b(15))
                which = fan ? "Outputs" : "SetPoint";
            (s.b(50) ? x.drop : x.spoil) = {which};
        }
        if (!x.inputs.empty())
            c.ctls.push_back(x);
    }
    return c;
}

static void note(pbt::Ctx& c, const Config& cf)
{
    auto list = [](const Strings& v) {
        std::string o;
        for (auto& x : v)
            o += "'" + x + "' ";
        return o;
    };
    for (auto& x : cf.sensors)
        c.note(x.path, " ", x.iface, x.thresholds.empty() ? "" : " with thresholds");
    c.note("selected profiles: ", list(cf.current));
    for (auto& z : cf.zones)
        c.note("zone '", z.name, "' min ", z.min, " failsafe ", z.failsafe.value_or(-1), " index ", z.index.value_or(-1),
               z.profiles ? " profiles " + list(*z.profiles) : "", z.drop.empty() ? "" : " lacks " + *z.drop.begin(),
               z.spoil.empty() ? "" : " wrong type of " + *z.spoil.begin());
    for (auto& k : cf.ctls)
        c.note(k.step ? "stepwise '" : "pid '", k.name, "' ", k.cls, " zones ", list(k.zones), " inputs ", list(k.inputs), " outputs ",
               list(k.outputs), k.acceptable ? " may be missing: " + list(*k.acceptable) : "", k.profiles ? " profiles " + list(*k.profiles) : "",
               k.margins ? " margins " + std::to_string(k.margins->size()) : "", k.offset ? " offset " + *k.offset : "", " points ",
               k.reading.size(), k.drop.empty() ? "" : " lacks " + *k.drop.begin(), k.spoil.empty() ? "" : " wrong type of " + *k.spoil.begin());
}

struct Bus
{
    boost::asio::io_context io;
    sdbusplus::asio::connection conn{io};
    boost::asio::steady_timer timer{io};
};

PBT(built, 12000, 300000, "two or more controllers were built, or the configuration was rejected")
{
    static Bus* b = new Bus;
    Config cf = generate(s);
    note(c, cf);
    sim::fabric().reset();
    bw::World w;
    w.install();
    std::string failing;
    if (s.b(6))
        failing = s.pick(std::vector<std::string>{"GetSubTree", "GetManagedObjects", "Get"});
    w.fault = [&](bw::Msg& m) -> std::optional<bw::Reply> {
        if (m.member == failing && (failing != "Get" || m.body.at(0).s == TMODE))
            return sim::fail("org.freedesktop.DBus.Error.NoReply");
        return managed(w, m);
    };
    publish(s, w, cf);
    Meaning m = meaning(cf);
    if (!failing.empty() && (failing != "Get" || !cf.current.empty()) && (failing != "GetManagedObjects" || !cf.zones.empty() || !cf.ctls.empty()))
    {
        m.rejected = true;
        m.why = failing + " fails";
    }
    c.note("meaning: ", m.rejected ? "rejected, " + m.why : "accepted");
    std::map<std::string, conf::SensorConfig> sensors;
    std::map<int64_t, conf::PIDConf> pids;
    std::map<int64_t, conf::ZoneConfig> zones;
    if (s.b(50)) // what an earlier configuration left
    {
        sensors["old"] = {};
        pids[77]["old"] = {};
        zones[77] = {};
    }
    bool ready = false;
    std::string threw;
    try
    {
        ready = dbus_configuration::init(b->conn, b->timer, sensors, pids, zones);
    }
    catch (const std::exception& e)
    {
        threw = e.what();
        if (threw.empty())
            threw = "something";
    }
    sim::fabric().reset();
    if (m.rejected)
    {
        c.label("rejected");
        pbt::require(!threw.empty(), "accepted although ", m.why);
        c.nontrivial();
        return;
    }
    pbt::require(threw.empty(), "rejected: ", threw);
    if (m.details.empty())
    {
        c.label("no zones");
        pbt::require(!ready, "ready without any zone");
        return;
    }
    if (m.controllers)
        pbt::require(ready, "not ready although there are zones and controllers");
    if (!ready)
    {
        c.label("nothing to control");
        return;
    }
    // zones, recognised by their minimum
    std::map<std::string, int64_t> num;
    for (auto& [n, d] : m.details)
        for (auto& [id, got] : zones)
            if (got.minThermalOutput == d.minThermalOutput)
            {
                num[n] = id;
                pbt::require(show(got) == show(d), "zone '", n, "' is ", show(got), " instead of ", show(d));
            }
    for (auto& [n, d] : m.details)
        pbt::require(num.count(n), "zone '", n, "' with minimum ", d.minThermalOutput, " was not built");
    pbt::require(zones.size() == m.details.size(), zones.size(), " zones instead of ", m.details.size());
    std::map<double, int> asked;
    for (auto& [n, i] : m.index)
        if (i)
            ++asked[*i];
    bool clash = false;
    for (auto& [i, k] : asked)
        clash = clash || k > 1;
    if (clash)
        c.label("zone numbers clash");
    else
        for (auto& [n, i] : m.index)
            if (i)
                pbt::require(num[n] == static_cast<int64_t>(*i), "zone '", n, "' has number ", num[n], " instead of ", *i);
    // controllers
    size_t built = 0;
    std::set<int64_t> seen;
    for (auto& [n, want] : m.ctls)
    {
        std::optional<int64_t> id;
        if (num.count(n))
            id = num[n];
        else
        {
            c.label("controllers of an undefined zone");
            for (auto& [k, got] : pids)
                if (!zones.count(k) && show(got) == show(want))
                    id = k;
            pbt::require(id.has_value(), "the controllers of zone '", n, "', which is not defined, are gone or in another zone");
        }
        seen.insert(*id);
        built += want.size();
        auto it = pids.find(*id);
        pbt::require(it != pids.end(), "zone '", n, "' has no controllers, expected:", show(want));
        pbt::require(show(it->second) == show(want), "zone '", n, "' has controllers:", show(it->second), "\n  instead of:", show(want));
    }
    for (auto& [k, got] : pids)
        pbt::require(seen.count(k) || got.empty(), "zone ", k, " has controllers it should not have:", show(got));
    // sensors
    for (auto& [n, got] : sensors)
    {
        auto it = m.sensors.find(n);
        pbt::require(it != m.sensors.end(), "sensor ", n, " (", show(got), ") was configured although nothing uses it");
        bool ok = false;
        for (auto& w2 : it->second)
        {
            auto g = got;
            if (g.type == "fan") // not specified for fans
                g.unavailableAsFailed = g.ignoreFailIfHostOff = false;
            ok = ok || show(g) == show(w2);
        }
        pbt::require(ok, "sensor ", n, " is ", show(got), " instead of ", show(it->second[0]));
    }
    for (auto& [n, _] : m.sensors)
        pbt::require(sensors.count(n), "sensor ", n, " was not configured");
    if (!cf.current.empty())
        c.label("profiles selected");
    for (auto& k : cf.ctls)
        if (k.offset)
            c.label("set points offset by thresholds");
    c.nontrivial(built >= 2);
}
