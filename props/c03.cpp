// C03: stepwise curves: lookup, hysteresis, ceilings, several inputs.
#include "unit.hpp"

#include "pid/stepwisecontroller.hpp"

using namespace u;

struct Curve
{
    std::vector<double> x, y;
};
static Curve gen(pbt::Src& s, ec::StepwiseInfo& info)
{
    Curve c;
    size_t n = s.b(12) ? ec::maxStepwisePoints : s.i(1, ec::maxStepwisePoints);
    if (s.b(40))
        n = s.i(1, 4);
    double x = s.q(-40, 60, 4);
    for (size_t i = 0; i < n; ++i)
    {
        c.x.push_back(x);
        c.y.push_back(s.b(70) ? s.q(0, 100, 4) : s.q(0, 12000, 1));
        x += s.q(0.25, 15, 4);
    }
    if (s.b(60)) // curves normally rise
        std::sort(c.y.begin(), c.y.end());
    for (size_t i = 0; i < ec::maxStepwisePoints; ++i)
    {
        info.reading[i] = i < n ? c.x[i] : NaN;
        info.output[i] = i < n ? c.y[i] : NaN;
    }
    info.positiveHysteresis = s.b(60) ? s.q(0, 8, 4) : 0;
    info.negativeHysteresis = s.b(60) ? s.q(0, 8, 4) : 0;
    info.isCeiling = s.b(25);
    return c;
}
// The output of the highest point at or below the input; the lowest point's
// output below the curve.
static double lookup(const Curve& c, double v)
{
    size_t best = 0;
    for (size_t i = 0; i < c.x.size(); ++i)
        if (c.x[i] <= v)
            best = i;
    return c.y[best];
}
static double point(pbt::Src& s, const Curve& c, const ec::StepwiseInfo& info, double last)
{
    switch (s.w({4, 3, 2, 2}))
    {
        case 0:
        {
            double d = s.i(0, 2) * 0.125;
            return s.pick(c.x) + (s.b(50) ? d : -d);
        }
        case 1:
            if (std::isfinite(last))
                return last + (s.b(50) ? info.positiveHysteresis : -info.negativeHysteresis) +
                       s.q(-0.25, 0.25, 8);
            return s.q(-60, 120, 8);
        case 2:
            return s.q(-100, 250, 8);
        default:
            return std::isfinite(last) ? last + s.q(-3, 3, 8) : s.q(0, 90, 8);
    }
}

PBT(history, 250000, 4000000, "2+ points, a reading inside the band and one that moves the output")
{
    ec::StepwiseInfo info{};
    auto cv = gen(s, info);
    size_t nin = s.w({6, 2, 1, 1}) + 1;
    std::vector<std::string> names;
    FakeZone z;
    for (size_t i = 0; i < nin; ++i)
        names.push_back("s" + std::to_string(i));
    auto ctl = StepwiseController::createStepwiseController(&z, "step", names, info);
    c.note("points=", cv.x.size(), " hyst=+", info.positiveHysteresis, "/-",
           info.negativeHysteresis, info.isCeiling ? " ceiling" : "");
    std::ostringstream pts;
    for (size_t i = 0; i < cv.x.size(); ++i)
        pts << cv.x[i] << "->" << cv.y[i] << " ";
    c.note(pts.str());
    double lastIn = NaN, lastOut = NaN;
    int steps = static_cast<int>(s.i(1, 20)), held = 0, moved = 0;
    for (int k = 0; k < steps; ++k)
    {
        double eff = NaN;
        for (auto& n : names)
        {
            double v = nin > 1 && s.b(12) ? NaN : point(s, cv, info, lastIn);
            z.cache[n] = {v, s.q(0, 100, 1)};
            if (!std::isnan(v) && (std::isnan(eff) || v > eff))
                eff = v;
        }
        if (std::isnan(eff))
        {
            // nothing readable: see C03's statement; give one a reading
            eff = point(s, cv, info, lastIn);
            z.cache[names[0]].scaled = eff;
        }
        double want = lastOut;
        if (std::isnan(lastOut) || eff - lastIn > info.positiveHysteresis ||
            lastIn - eff > info.negativeHysteresis)
        {
            want = lookup(cv, eff);
            if (want != lastOut)
                ++moved;
            lastIn = eff;
        }
        else if (lookup(cv, eff) != lastOut)
            ++held;
        lastOut = want;
        z.setpoints.clear();
        z.ceilings.clear();
        ctl->process();
        double got;
        if (info.isCeiling)
        {
            pbt::require(z.ceilings.size() == 1 && z.setpoints.empty(), "step ", k,
                         ": a ceiling curve must produce exactly one ceiling");
            got = z.ceilings[0];
        }
        else
        {
            pbt::require(z.setpoints.size() == 1 && z.ceilings.empty() &&
                             z.setpoints[0].second == "step",
                         "step ", k, ": a curve must produce exactly one set point");
            got = z.setpoints[0].first;
        }
        c.note(k, ": in=", eff, " out=", got);
        pbt::require(got == want, "step ", k, ": input ", eff, " gave ", got, " want ", want);
    }
    if (cv.x.size() == ec::maxStepwisePoints)
        c.label("full table");
    if (held)
        c.label("held by hysteresis");
    if (info.isCeiling)
        c.label("ceiling");
    c.nontrivial(cv.x.size() > 1 && moved > 1 &&
                 (held || (info.positiveHysteresis == 0 && info.negativeHysteresis == 0)));
}

// The curve's value at v, from a controller that has no history.
static double at(ec::StepwiseInfo info, double v)
{
    info.isCeiling = false;
    FakeZone z;
    z.cache["s"] = {v, v};
    auto ctl = StepwiseController::createStepwiseController(&z, "step", {"s"}, info);
    ctl->process();
    return z.setpoints.at(0).first;
}

PBT(lookup, 150000, 3000000, "2+ points")
{
    ec::StepwiseInfo info{};
    auto cv = gen(s, info);
    for (int k = 0; k < 6; ++k)
    {
        double v = point(s, cv, info, NaN), got = at(info, v);
        pbt::require(got == lookup(cv, v), "input ", v, " gave ", got, " want ", lookup(cv, v));
        double w = v + s.q(0, 20, 4);
        if (std::is_sorted(cv.y.begin(), cv.y.end()))
            pbt::require(at(info, w) >= got, "a rising curve fell between ", v, " and ", w);
    }
    c.note("points=", cv.x.size(), " first ", cv.x[0], "->", cv.y[0]);
    c.nontrivial(cv.x.size() > 1);
}

PBT(no_inputs_rejected, 50, 500, "always")
{
    ec::StepwiseInfo info{};
    gen(s, info);
    FakeZone z;
    bool threw = false;
    try
    {
        StepwiseController::createStepwiseController(&z, "step", {}, info);
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    pbt::require(threw, "a stepwise controller without inputs was accepted");
    c.nontrivial();
}
