// Unit-level stand-ins for the collaborators of a controller: a zone whose
// sensor readings are scripted and which records everything it is told, and a
// sensor which records what is written to it.
#pragma once
#include "conf.hpp"
#include "engine.hpp"
#include "errors/exception.hpp"
#include "interfaces.hpp"
#include "pid/controller.hpp"
#include "pid/ec/pid.hpp"
#include "pid/ec/stepwise.hpp"
#include "pid/zone_interface.hpp"
#include "sensors/sensor.hpp"

#include <limits>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace pid_control::ec
{
inline std::ostream& operator<<(std::ostream& o, const pidinfo& c)
{
    return o << "{ts=" << c.ts << " Kp=" << c.proportionalCoeff
             << " Ki=" << c.integralCoeff << " Kd=" << c.derivativeCoeff
             << " ffOff=" << c.feedFwdOffset << " ffGain=" << c.feedFwdGain
             << " I=[" << c.integralLimit.min << "," << c.integralLimit.max
             << "] out=[" << c.outLim.min << "," << c.outLim.max << "] slew=["
             << c.slewNeg << "," << c.slewPos << "] hyst=+"
             << c.positiveHysteresis << "/-" << c.negativeHysteresis
             << " withSetpt=" << c.checkHysterWithSetpt << "}";
}
} // namespace pid_control::ec

namespace u
{
using namespace pid_control;
inline const double NaN = std::numeric_limits<double>::quiet_NaN();
inline const double Inf = std::numeric_limits<double>::infinity();

struct FakeSensor : Sensor
{
    struct W
    {
        double v;
        bool force;
    };
    FakeSensor(const std::string& n) : Sensor(n, 0) {}
    ReadReturn read() override
    {
        ReadReturn r;
        r.value = value;
        r.unscaled = value;
        r.updated = std::chrono::high_resolution_clock::now();
        return r;
    }
    void write(double v) override
    {
        writes.push_back({v, false});
    }
    void write(double v, bool force, int64_t* out) override
    {
        writes.push_back({v, force});
        if (out)
            *out = rawValue;
    }
    double value = 0;
    int64_t rawValue = 7;
    std::vector<W> writes;
};

struct FakeZone : ZoneInterface
{
    struct Dbg
    {
        std::string pid, leader;
        double in, out;
    };
    int64_t id = 3;
    std::map<std::string, ValueCacheEntry> cache;
    std::map<std::string, std::unique_ptr<FakeSensor>> sensors;
    std::vector<std::pair<double, std::string>> setpoints;
    std::vector<double> ceilings;
    std::vector<Dbg> dbg;
    std::map<std::string, ValueCacheEntry> outCache;
    std::map<std::string, std::pair<std::string, double>> failed;
    double maxSet = 0, failsafe = 0;
    bool failMode = false, manual = false, redundant = false, acc = false;
    uint64_t cycleMs = 100, thermMs = 1000;
    std::vector<std::string> trace;

    FakeSensor& mk(const std::string& n)
    {
        auto& p = sensors[n];
        if (!p)
            p = std::make_unique<FakeSensor>(n);
        return *p;
    }
    int64_t getZoneID() const override
    {
        return id;
    }
    void initializeLog() override
    {
        trace.push_back("initLog");
    }
    void writeLog(const std::string& s) override
    {
        trace.push_back("log:" + s);
    }
    Sensor* getSensor(const std::string& n) override
    {
        return &mk(n);
    }
    std::vector<std::string> getSensorNames() override
    {
        std::vector<std::string> r;
        for (auto& [k, v] : sensors)
            r.push_back(k);
        return r;
    }
    void updateFanTelemetry() override
    {
        trace.push_back("fanTele");
    }
    void updateSensors() override
    {
        trace.push_back("sensors");
    }
    void initializeCache() override
    {
        trace.push_back("initCache");
    }
    void setOutputCache(std::string_view n, const ValueCacheEntry& v) override
    {
        outCache[std::string(n)] = v;
    }
    double getCachedValue(const std::string& n) override
    {
        return cache.at(n).scaled;
    }
    ValueCacheEntry getCachedValues(const std::string& n) override
    {
        return cache.at(n);
    }
    void addSetPoint(double s, const std::string& n) override
    {
        setpoints.push_back({s, n});
    }
    void clearSetPoints() override
    {
        trace.push_back("clearSet");
        setpoints.clear();
    }
    void addRPMCeiling(double c) override
    {
        ceilings.push_back(c);
    }
    void clearRPMCeilings() override
    {
        trace.push_back("clearCeil");
        ceilings.clear();
    }
    void determineMaxSetPointRequest() override
    {
        trace.push_back("determine");
    }
    double getMaxSetPointRequest() const override
    {
        return maxSet;
    }
    bool getFailSafeMode() const override
    {
        return failMode;
    }
    double getFailSafePercent() override
    {
        return failsafe;
    }
    std::map<std::string, std::pair<std::string, double>>
        getFailSafeSensors() const override
    {
        return failed;
    }
    uint64_t getCycleIntervalTime() const override
    {
        return cycleMs;
    }
    uint64_t getUpdateThermalsCycle() const override
    {
        return thermMs;
    }
    bool getManualMode() const override
    {
        return manual;
    }
    bool getRedundantWrite() const override
    {
        return redundant;
    }
    bool getAccSetPoint() const override
    {
        return acc;
    }
    void processFans() override
    {
        trace.push_back("fans");
    }
    void processThermals() override
    {
        trace.push_back("thermals");
    }
    void updateThermalPowerDebugInterface(std::string p, std::string l,
                                          double i, double o) override
    {
        dbg.push_back({p, l, i, o});
    }
};

// Reference PID law, written from the documented behaviour.
struct RefPid
{
    ec::pidinfo c;
    bool started = false;
    double integral = 0, lastErr = 0, lastOut = 0;
    static double clampd(double x, double lo, double hi)
    {
        if (x < lo)
            return lo;
        if (x > hi)
            return hi;
        return x;
    }
    // which bounds acted in the last step
    bool hitOut = false, hitSlew = false, hitInt = false;
    double step(double input, double setpt)
    {
        hitOut = hitSlew = hitInt = false;
        double err = setpt - input;
        double p = c.proportionalCoeff * err;
        double i = 0;
        if (c.integralCoeff != 0)
        {
            double raw = integral + err * c.integralCoeff * c.ts;
            i = clampd(raw, c.integralLimit.min, c.integralLimit.max);
            hitInt = i != raw;
        }
        double d = c.derivativeCoeff * ((err - lastErr) / c.ts);
        double ff = (setpt + c.feedFwdOffset) * c.feedFwdGain;
        double raw = p + i + d + ff;
        double out = clampd(raw, c.outLim.min, c.outLim.max);
        hitOut = out != raw;
        if (started)
        {
            double before = out;
            if (c.slewNeg != 0 && out < lastOut + c.slewNeg * c.ts)
                out = lastOut + c.slewNeg * c.ts;
            if (c.slewPos != 0 && out > lastOut + c.slewPos * c.ts)
                out = lastOut + c.slewPos * c.ts;
            hitSlew = out != before;
            if (c.slewNeg != 0 || c.slewPos != 0)
                i = out - p;
        }
        integral = clampd(i, c.integralLimit.min, c.integralLimit.max);
        started = true;
        lastErr = err;
        lastOut = out;
        return out;
    }
};

// The PID with both hysteresis schemes around it.
struct RefCtl
{
    RefPid p;
    double lastIn = NaN;
    enum
    {
        ran,
        held,
        reset
    } how = ran;
    double step(double input, double setpt)
    {
        auto& c = p.c;
        double out;
        how = ran;
        if (c.checkHysterWithSetpt)
        {
            if (input > setpt + c.positiveHysteresis)
                out = p.step(input, setpt);
            else if (input < setpt - c.negativeHysteresis)
            {
                p.integral = 0;
                out = 0;
                how = reset;
            }
            else
            {
                out = p.lastOut;
                how = held;
            }
            p.lastOut = out;
        }
        else if (c.positiveHysteresis == 0 && c.negativeHysteresis == 0)
            out = p.step(input, setpt);
        else
        {
            if (!std::isfinite(lastIn) ||
                input - lastIn > c.positiveHysteresis ||
                lastIn - input > c.negativeHysteresis)
                lastIn = input;
            else if (input != lastIn)
                how = held;
            out = p.step(lastIn, setpt);
        }
        p.lastOut = out;
        return out;
    }
};

inline ec::pidinfo genPid(pbt::Src& s, bool hyst)
{
    static const std::vector<double> ts = {1, 0.5, 0.25, 0.125, 2, 0.0625};
    ec::pidinfo c;
    c.ts = s.pick(ts);
    c.proportionalCoeff = s.b(80) ? s.q(-8, 8, 8) : 0;
    c.integralCoeff = s.b(70) ? s.q(-4, 4, 16) : 0;
    c.derivativeCoeff = s.b(45) ? s.q(-2, 2, 16) : 0;
    c.feedFwdGain = s.b(50) ? s.q(-4, 4, 8) : 0;
    c.feedFwdOffset = s.b(40) ? s.q(-50, 50, 4) : 0;
    double lo = s.q(-200, 200, 2), hi = lo + s.q(0, 400, 2);
    c.integralLimit = {lo, hi};
    if (s.b(45))
        c.integralLimit = {-1e6, 1e6};
    lo = s.q(-100, 300, 2);
    hi = lo + s.q(0, 3000, 2);
    c.outLim = {lo, hi};
    if (s.b(55))
        c.outLim = {-1e7, 1e7};
    c.slewNeg = s.b(45) ? s.q(-100, 0, 4) : 0;
    c.slewPos = s.b(45) ? s.q(0, 100, 4) : 0;
    if (hyst)
    {
        c.checkHysterWithSetpt = s.b(40);
        c.positiveHysteresis = s.b(75) ? s.q(0, 12, 4) : 0;
        c.negativeHysteresis = s.b(75) ? s.q(0, 12, 4) : 0;
    }
    return c;
}
} // namespace u
