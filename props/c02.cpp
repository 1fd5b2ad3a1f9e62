// C02: both hysteresis schemes of the PID controllers, over input histories.
#include "unit.hpp"

#include "pid/fancontroller.hpp"
#include "pid/thermalcontroller.hpp"

using namespace u;

// Inputs that sit on, just inside and just outside the band.
static double nextInput(pbt::Src& s, const ec::pidinfo& c, double ref, double in)
{
    switch (s.w({3, 3, 3, 2, 1}))
    {
        case 0:
            return ref + c.positiveHysteresis + s.q(-0.5, 0.5, 8);
        case 1:
            return ref - c.negativeHysteresis + s.q(-0.5, 0.5, 8);
        case 2:
            return ref + s.q(-2, 2, 8);
        case 3:
            return ref + s.q(-40, 40, 8);
        default:
            return in;
    }
}

static void run(pbt::Src& s, pbt::Ctx& c, bool withSetpt)
{
    auto cfg = genPid(s, true);
    cfg.checkHysterWithSetpt = withSetpt;
    if (s.b(70))
    {
        cfg.positiveHysteresis = s.q(0.25, 12, 4);
        cfg.negativeHysteresis = s.q(0.25, 12, 4);
    }
    bool fan = s.b(25);
    double setpt = s.q(20, 90, 4);
    FakeZone z;
    std::unique_ptr<PIDController> pid;
    if (fan)
        pid = FanController::createFanPid(&z, "p", {"x"}, cfg);
    else
        pid = ThermalController::createThermalPid(
            &z, "p", {conf::SensorInput{"x", NaN, false, false}}, setpt, cfg,
            s.b(50) ? ThermalType::absolute : ThermalType::margin);
    RefCtl ref{{cfg}};
    c.note(fan ? "fan " : "thermal ", cfg, " setpt=", setpt);
    int steps = static_cast<int>(s.i(2, 24));
    double in = setpt;
    int held = 0, ran = 0, resets = 0;
    for (int k = 0; k < steps; ++k)
    {
        double center = withSetpt || !std::isfinite(ref.lastIn) ? setpt
                                                               : ref.lastIn;
        in = nextInput(s, cfg, center, in);
        if (fan && in <= 0)
            in = 0.125;
        if (s.b(6))
        {
            setpt += s.q(-10, 10, 4);
            if (!fan)
                pid->setSetpoint(setpt);
        }
        double got;
        if (fan)
        {
            z.maxSet = setpt;
            z.cache["x"] = {0, in};
            z.mk("x").writes.clear();
            pid->process();
            got = z.mk("x").writes.at(0).v * 100;
        }
        else
        {
            z.cache["x"] = {in, in};
            z.setpoints.clear();
            pid->process();
            got = z.setpoints.at(0).first;
        }
        double want = ref.step(in, setpt);
        ref.how == RefCtl::ran ? ++ran : ref.how == RefCtl::held ? ++held : ++resets;
        c.note(k, ": in=", in, " set=", setpt, " out=", got,
               ref.how == RefCtl::held ? " held" : ref.how == RefCtl::reset ? " reset" : "");
        pbt::require(pbt::close(got, want, 1e-9, 1e-7), "step ", k, ": input ",
                     in, " setpoint ", setpt, " gave ", got, ", hysteresis rule gives ",
                     want);
        if (withSetpt && in < setpt - cfg.negativeHysteresis)
            pbt::require(got == 0, "step ", k, ": below the band but output ", got);
    }
    if (held)
        c.label("held");
    if (resets)
        c.label("reset");
    c.nontrivial(held && ran > 1);
}
PBT(setpoint_band, 250000, 4000000, "some steps inside the band and some outside it")
{
    run(s, c, true);
}
PBT(input_band, 250000, 4000000, "some readings swallowed by the band and some not")
{
    run(s, c, false);
}
