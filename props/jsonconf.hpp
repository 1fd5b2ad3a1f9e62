// Abstract daemon configurations, their JSON rendering, and what must be built.
#pragma once
#include "conf.hpp"
#include "engine.hpp"

#include <nlohmann/json.hpp>

#include <fstream>
#include <optional>

namespace jc
{
using pid_control::conf::ControllerInfo;
using pid_control::conf::SensorConfig;
using pid_control::conf::ZoneConfig;
using ojson = nlohmann::ordered_json;
using Members = std::vector<std::pair<std::string, ojson>>;

struct Ctl
{
    std::string name, type;
    ControllerInfo want{};
    Members keys, pidKeys;
};
struct Zone
{
    int64_t id = 0;
    ZoneConfig want{};
    Members keys;
    std::vector<Ctl> pids;
};
struct Sen
{
    std::string name;
    SensorConfig want{};
    Members keys;
};
struct Conf
{
    std::vector<Sen> sensors;
    std::vector<Zone> zones;
};

// A number in one of its JSON spellings.
inline ojson num(pbt::Src& s, double v)
{
    if (v == std::floor(v) && std::fabs(v) < 1e15 && s.b(60))
        return static_cast<int64_t>(v);
    return v;
}
inline double val(pbt::Src& s)
{
    switch (s.w({6, 3, 2, 1, 1}))
    {
        case 0: return s.q(-20, 100, 8);
        case 1: return static_cast<double>(s.i(0, 12000));
        case 2: return -static_cast<double>(s.i(0, 5000)) / 4;
        case 3: return s.q(-1, 1, 1000003);
        default: return s.pick(std::vector<double>{1e-9, 1e12, -1e12, 123456.789, 0.1});
    }
}
inline std::string word(pbt::Src& s, bool odd)
{
    static const std::vector<std::string> plain{"fan1", "fan2", "fan0", "cpu0", "dimm", "t", "inlet_temp", "fan10", "CPU 1 Temp", "pwm_1"};
    static const std::vector<std::string> odds{"", "a\"b", "back\\slash", "tab\there", "\xc3\xa9t\xc3\xa9", "x/y", "fan1 ", "Fan1", "\x01", "None"};
    return odd && s.b(15) ? s.pick(odds) : s.pick(plain);
}
template <typename T>
void shuffle(pbt::Src& s, std::vector<T>& v)
{
    if (s.b(40))
        return;
    for (size_t k = v.size(); k > 1; --k)
        std::swap(v[k - 1], v[s.draw(k)]);
}
inline ojson object(pbt::Src& s, Members m, bool extras)
{
    if (extras && s.b(20))
        m.emplace_back(s.pick(std::vector<std::string>{"comment", "Class", "_name", "Type", "minimum", "profile"}),
                       s.b(50) ? ojson("note") : ojson::array({1, "x", nullptr}));
    shuffle(s, m);
    ojson o = ojson::object();
    for (auto& [k, v] : m)
        o[k] = v;
    return o;
}

inline Sen genSensor(pbt::Src& s, const std::string& name)
{
    Sen r;
    r.name = name;
    auto& w = r.want;
    w.type = s.pick(std::vector<std::string>{"fan", "temp", "margin", "power", "powersum"});
    w.readPath = s.pick(std::vector<std::string>{"/xyz/openbmc_project/sensors/fan_tach/", "/sys/class/hwmon/hwmon0/", "/xyz/openbmc_project/extsensors/temperature/",
                                                 "/sys/devices/platform/x/hwmon/**/", "None", ""}) + word(s, true);
    w.writePath = "";
    w.min = w.max = 0;
    w.timeout = w.type == "fan" ? 0 : 2;
    w.ignoreDbusMinMax = false;
    w.unavailableAsFailed = true;
    w.ignoreFailIfHostOff = false;
    r.keys = {{"name", name}, {"type", w.type}, {"readPath", w.readPath}};
    if (s.b(55))
        r.keys.emplace_back("writePath", w.writePath = s.pick(std::vector<std::string>{"", "None", "/sys/class/hwmon/hwmon0/pwm", "/xyz/openbmc_project/control/fanpwm/"}) + word(s, true));
    auto lim = [&](const char* key, int64_t& f) {
        if (!s.b(50))
            return;
        int64_t v = s.b(70) ? s.i(0, 255) : s.i(-100000, 100000);
        r.keys.emplace_back(key, v);
        if (w.type == "fan")
            f = v;
    };
    lim("min", w.min);
    lim("max", w.max);
    if (s.b(45))
    {
        w.timeout = s.b(70) ? s.i(0, 10) : s.i(-1, 1000000);
        r.keys.emplace_back("timeout", w.timeout);
    }
    auto flag = [&](const char* key, bool& f) {
        if (s.b(40))
            r.keys.emplace_back(key, f = s.b(50));
    };
    flag("ignoreDbusMinMax", w.ignoreDbusMinMax);
    flag("unavailableAsFailed", w.unavailableAsFailed);
    flag("ignoreFailIfHostOff", w.ignoreFailIfHostOff);
    return r;
}

inline Ctl genCtl(pbt::Src& s, const std::string& name)
{
    Ctl r;
    r.name = name;
    r.type = s.pick(std::vector<std::string>{"fan", "temp", "margin", "power", "powersum", "stepwise"});
    auto& w = r.want;
    w.type = r.type;
    w.setpoint = val(s);
    w.failSafePercent = 0;
    std::vector<std::string> names;
    int n = static_cast<int>(s.i(0, 4));
    for (int k = 0; k < n; ++k)
        names.push_back(word(s, true));
    r.keys = {{"name", name}, {"type", r.type}, {"inputs", names}, {"setpoint", num(s, w.setpoint)}};
    std::vector<double> marg;
    std::vector<std::string> miss;
    if (s.b(40))
    {
        ojson a = ojson::array();
        int m = static_cast<int>(s.i(0, 5));
        for (int k = 0; k < m; ++k)
        {
            marg.push_back(val(s));
            a.push_back(num(s, marg.back()));
        }
        r.keys.emplace_back("tempToMargin", a);
    }
    if (s.b(40))
    {
        int m = static_cast<int>(s.i(0, 3));
        for (int k = 0; k < m; ++k)
            miss.push_back(names.empty() || s.b(25) ? word(s, true) : s.pick(names));
        r.keys.emplace_back("missingIsAcceptable", miss);
    }
    for (int k = 0; k < n; ++k)
    {
        pid_control::conf::SensorInput in;
        in.name = names[k];
        if (k < static_cast<int>(marg.size()))
        {
            in.convertTempToMargin = true;
            in.convertMarginZero = marg[k];
        }
        for (auto& m : miss)
            in.missingIsAcceptable = in.missingIsAcceptable || m == names[k];
        w.inputs.push_back(in);
    }
    if (s.b(40))
    {
        w.failSafePercent = s.q(0, 100, 4);
        r.keys.emplace_back("FailSafePercent", num(s, w.failSafePercent));
    }
    auto& p = r.pidKeys;
    auto put = [&](const char* key, double& f) {
        f = val(s);
        p.emplace_back(key, num(s, f));
    };
    auto opt = [&](const char* key, double& f) {
        f = 0;
        if (s.b(45))
            put(key, f);
    };
    if (r.type != "stepwise")
    {
        auto& i = w.pidInfo;
        put("samplePeriod", i.ts);
        put("proportionalCoeff", i.proportionalCoeff);
        put("integralCoeff", i.integralCoeff);
        put("feedFwdOffsetCoeff", i.feedFwdOffset);
        put("feedFwdGainCoeff", i.feedFwdGain);
        put("integralLimit_min", i.integralLimit.min);
        put("integralLimit_max", i.integralLimit.max);
        put("outLim_min", i.outLim.min);
        put("outLim_max", i.outLim.max);
        put("slewNeg", i.slewNeg);
        put("slewPos", i.slewPos);
        opt("positiveHysteresis", i.positiveHysteresis);
        opt("negativeHysteresis", i.negativeHysteresis);
        opt("derivativeCoeff", i.derivativeCoeff);
        i.checkHysterWithSetpt = false;
        if (s.b(40))
            p.emplace_back("checkHysteresisWithSetpoint", i.checkHysterWithSetpt = s.b(60));
    }
    else
    {
        auto& i = w.stepwiseInfo;
        put("samplePeriod", i.ts);
        p.emplace_back("isCeiling", i.isCeiling = s.b(40));
        opt("positiveHysteresis", i.positiveHysteresis);
        opt("negativeHysteresis", i.negativeHysteresis);
        for (int k = 0; k < 20; ++k)
            i.reading[k] = i.output[k] = NAN;
        auto table = [&](const char* key, double* t, int cnt) {
            Members m;
            for (int k = 0; k < cnt; ++k)
            {
                if (s.b(6))
                    continue;
                t[k] = val(s);
                m.emplace_back(std::to_string(k), num(s, t[k]));
            }
            if (s.b(10))
                m.emplace_back(std::to_string(20 + s.draw(3)), 7);
            p.emplace_back(key, object(s, m, false));
        };
        int cnt = static_cast<int>(s.w({6, 1}) ? 20 : s.i(0, 12));
        if (s.b(93))
            table("reading", i.reading, cnt);
        if (s.b(93))
            table("output", i.output, cnt);
    }
    return r;
}

inline Zone genZone(pbt::Src& s, int64_t id)
{
    Zone z;
    z.id = id;
    z.want.minThermalOutput = val(s);
    z.want.failsafePercent = s.q(0, 100, 4);
    z.keys = {{"id", id}, {"minThermalOutput", num(s, z.want.minThermalOutput)}, {"failsafePercent", num(s, z.want.failsafePercent)}};
    auto cycle = [&](const char* key, uint64_t& f, uint64_t def) {
        f = def;
        if (!s.b(45))
            return;
        int64_t v = s.w({6, 1, 1}) == 0 ? s.i(1, 5000) : s.b(50) ? 0 : -s.i(1, 5000);
        z.keys.emplace_back(key, v);
        if (v >= 1)
            f = static_cast<uint64_t>(v);
    };
    cycle("cycleIntervalTimeMS", z.want.cycleTime.cycleIntervalTimeMS, 100);
    cycle("updateThermalsTimeMS", z.want.cycleTime.updateThermalsTimeMS, 1000);
    z.want.accumulateSetPoint = false;
    if (s.b(35))
        z.keys.emplace_back("accumulateSetPoint", z.want.accumulateSetPoint = s.b(60));
    int n = static_cast<int>(s.i(1, 4));
    std::set<std::string> used;
    for (int k = 0; k < n; ++k)
    {
        std::string nm = word(s, true);
        if (used.insert(nm).second)
            z.pids.push_back(genCtl(s, nm));
    }
    return z;
}

inline Conf genConf(pbt::Src& s)
{
    Conf c;
    int n = static_cast<int>(s.i(1, 6));
    std::set<std::string> used;
    for (int k = 0; k < n; ++k)
    {
        std::string nm = word(s, true);
        if (used.insert(nm).second)
            c.sensors.push_back(genSensor(s, nm));
    }
    int m = static_cast<int>(s.i(0, 3));
    std::set<int64_t> ids;
    for (int k = 0; k < m; ++k)
    {
        int64_t id = s.b(80) ? s.i(0, 5) : s.i(-3, 5000000000);
        if (ids.insert(id).second)
            c.zones.push_back(genZone(s, id));
    }
    return c;
}

inline ojson render(pbt::Src& s, const Conf& c)
{
    ojson sens = ojson::array(), zones = ojson::array();
    for (auto& x : c.sensors)
        sens.push_back(object(s, x.keys, true));
    for (auto& z : c.zones)
    {
        ojson pids = ojson::array();
        for (auto& p : z.pids)
        {
            auto keys = p.keys;
            keys.emplace_back("pid", object(s, p.pidKeys, true));
            pids.push_back(object(s, keys, true));
        }
        auto keys = z.keys;
        keys.emplace_back("pids", pids);
        zones.push_back(object(s, keys, true));
    }
    return object(s, {{"sensors", sens}, {"zones", zones}}, true);
}

inline void write(const std::string& path, const std::string& text)
{
    std::ofstream f(path, std::ios::trunc | std::ios::binary);
    f << text;
}

inline bool same(double a, double b)
{
    return a == b || (std::isnan(a) && std::isnan(b));
}
inline std::string diff(const SensorConfig& a, const SensorConfig& b)
{
    std::ostringstream o;
#define D(f)                                                                   \
    if (a.f != b.f)                                                            \
    o << #f << " is " << a.f << " not " << b.f << "; "
    D(type);
    D(readPath);
    D(writePath);
    D(min);
    D(max);
    D(timeout);
    D(ignoreDbusMinMax);
    D(unavailableAsFailed);
    D(ignoreFailIfHostOff);
    return o.str();
}
inline std::string diff(const ZoneConfig& a, const ZoneConfig& b)
{
    std::ostringstream o;
    D(minThermalOutput);
    D(failsafePercent);
    D(cycleTime.cycleIntervalTimeMS);
    D(cycleTime.updateThermalsTimeMS);
    D(accumulateSetPoint);
    return o.str();
}
inline std::string diff(const ControllerInfo& a, const ControllerInfo& b)
{
    std::ostringstream o;
    o.precision(17);
    D(type);
#define F(f)                                                                   \
    if (!same(a.f, b.f))                                                       \
    o << #f << " is " << a.f << " not " << b.f << "; "
    F(setpoint);
    F(failSafePercent);
    D(inputs.size());
    for (size_t k = 0; k < std::min(a.inputs.size(), b.inputs.size()); ++k)
    {
        D(inputs[k].name);
        F(inputs[k].convertMarginZero);
        D(inputs[k].convertTempToMargin);
        D(inputs[k].missingIsAcceptable);
    }
    if (b.type != "stepwise")
    {
        F(pidInfo.ts);
        F(pidInfo.proportionalCoeff);
        F(pidInfo.integralCoeff);
        F(pidInfo.derivativeCoeff);
        F(pidInfo.feedFwdOffset);
        F(pidInfo.feedFwdGain);
        F(pidInfo.integralLimit.min);
        F(pidInfo.integralLimit.max);
        F(pidInfo.outLim.min);
        F(pidInfo.outLim.max);
        F(pidInfo.slewNeg);
        F(pidInfo.slewPos);
        F(pidInfo.positiveHysteresis);
        F(pidInfo.negativeHysteresis);
        D(pidInfo.checkHysterWithSetpt);
    }
    else
    {
        F(stepwiseInfo.ts);
        D(stepwiseInfo.isCeiling);
        F(stepwiseInfo.positiveHysteresis);
        F(stepwiseInfo.negativeHysteresis);
        for (int k = 0; k < 20; ++k)
        {
            F(stepwiseInfo.reading[k]);
            F(stepwiseInfo.output[k]);
        }
    }
#undef D
#undef F
    return o.str();
}
} // namespace jc
