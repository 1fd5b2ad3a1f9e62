// C01: the PID law, over configurations and input histories.
#include "unit.hpp"

#include "pid/fancontroller.hpp"
#include "pid/thermalcontroller.hpp"

using namespace u;

static void history(pbt::Src& s, pbt::Ctx& c, bool fan)
{
    auto cfg = genPid(s, false);
    FakeZone z;
    std::unique_ptr<PIDController> pid;
    double setpt = s.q(-100, 200, 4);
    bool margin = !fan && s.b(30);
    if (fan)
    {
        pid = FanController::createFanPid(&z, "fanpid", {"f0"}, cfg);
        c.label("fan");
    }
    else
    {
        pid = ThermalController::createThermalPid(
            &z, "therm", {conf::SensorInput{"t0", NaN, false, false}}, setpt,
            cfg, margin ? ThermalType::margin : ThermalType::absolute);
        c.label("thermal");
    }
    RefPid ref{cfg};
    c.note(fan ? "fan " : "thermal ", cfg);
    int steps = static_cast<int>(s.i(1, 24));
    double in = s.q(fan ? 1 : -50, 150, 4);
    int hits = 0;
    for (int k = 0; k < steps; ++k)
    {
        switch (s.w({4, 3, 2, 1}))
        {
            case 0:
                in += s.q(-4, 4, 8);
                break;
            case 1:
                in += s.q(-60, 60, 4);
                break;
            case 2:
                break;
            case 3:
                in = s.q(fan ? 1 : -200, 20000, 2);
                break;
        }
        if (fan && in <= 0)
            in = 0.125;
        if (fan && s.b(40))
            setpt = s.b(70) ? setpt + s.q(-50, 50, 4) : s.q(0, 12000, 1);
        double got;
        if (fan)
        {
            z.cache["f0"] = {0.5, in};
            z.maxSet = setpt;
            z.mk("f0").writes.clear();
            pid->process();
            pbt::require(z.mk("f0").writes.size() == 1, "step ", k,
                         ": expected one write to the fan, got ",
                         z.mk("f0").writes.size());
            got = z.mk("f0").writes[0].v * 100.0;
        }
        else
        {
            if (s.b(10))
            {
                setpt += s.q(-20, 20, 4);
                pid->setSetpoint(setpt);
            }
            z.cache["t0"] = {in, in};
            z.setpoints.clear();
            pid->process();
            pbt::require(z.setpoints.size() == 1 &&
                             z.setpoints[0].second == "therm",
                         "step ", k, ": expected one set point from therm");
            got = z.setpoints[0].first;
        }
        double want = ref.step(in, setpt);
        c.note(k, ": in=", in, " set=", setpt, " out=", got);
        if (ref.hitOut)
            c.label("output clamped");
        if (ref.hitSlew)
            c.label("slew limited");
        if (ref.hitInt)
            c.label("integral clamped");
        hits += ref.hitOut || ref.hitSlew || ref.hitInt;
        pbt::require(pbt::close(got, want, 1e-9, 1e-7), "step ", k, ": input ",
                     in, " setpoint ", setpt, " produced ", got,
                     " but the PID law gives ", want);
        // invariants that do not depend on the model's state
        pbt::require(!std::isnan(got), "step ", k, ": output is NaN");
        if (cfg.slewNeg == 0 && cfg.slewPos == 0)
            pbt::require(got >= cfg.outLim.min - 1e-7 &&
                             got <= cfg.outLim.max + 1e-7,
                         "step ", k, ": output ", got, " outside [",
                         cfg.outLim.min, ",", cfg.outLim.max, "]");
    }
    if (steps >= 8)
        c.label("8+ steps");
    bool terms = (cfg.proportionalCoeff != 0) + (cfg.integralCoeff != 0) +
                     (cfg.derivativeCoeff != 0) + (cfg.feedFwdGain != 0) >=
                 2;
    c.nontrivial(steps >= 3 && terms && hits < steps);
}

PBT(thermal, 200000, 4000000,
    "history of 3+ steps, 2+ non-zero gains, at least one step not saturated")
{
    history(s, c, false);
}
PBT(fan, 200000, 4000000,
    "history of 3+ steps, 2+ non-zero gains, at least one step not saturated")
{
    history(s, c, true);
}

// Two controllers never share state; a controller's history is its own.
PBT(independent, 100000, 1500000, "two different configurations interleaved, 3+ steps")
{
    auto a = genPid(s, true), b = genPid(s, true);
    FakeZone z1, z2;
    std::vector<conf::SensorInput> in{{"t0", NaN, false, false}};
    auto pa = ThermalController::createThermalPid(&z1, "a", in, 40, a,
                                                  ThermalType::absolute);
    auto pb = ThermalController::createThermalPid(&z2, "b", in, 60, b,
                                                  ThermalType::absolute);
    RefCtl ra{{a}}, rb{{b}};
    int steps = static_cast<int>(s.i(1, 20));
    c.note("a=", a, " b=", b);
    for (int k = 0; k < steps; ++k)
    {
        bool first = s.b(50);
        double v = s.q(0, 100, 4);
        auto& z = first ? z1 : z2;
        z.cache["t0"] = {v, v};
        z.setpoints.clear();
        (first ? pa : pb)->process();
        double got = z.setpoints.at(0).first;
        double want = first ? ra.step(v, 40) : rb.step(v, 60);
        pbt::require(pbt::close(got, want, 1e-9, 1e-7), "step ", k,
                     (first ? " a" : " b"), ": got ", got, " want ", want);
    }
    c.nontrivial(steps >= 3);
}
