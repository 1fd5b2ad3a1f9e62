// C05: the speed a fan controller works from.
#include "unit.hpp"

#include "pid/fancontroller.hpp"

using namespace u;

PBT(slowest_working_fan, 400000, 5000000,
    "2+ fans with at least one working fan and one that must be ignored or is faster")
{
    size_t n = s.i(1, 8);
    std::vector<std::string> names;
    for (size_t i = 0; i < n; ++i)
        names.push_back("fan" + std::to_string(i));
    ec::pidinfo p;
    p.ts = 1;
    p.proportionalCoeff = -1; // output = speed - set point
    p.outLim = {-1e9, 1e9};
    FakeZone z;
    auto ctl = FanController::createFanPid(&z, "fan", names, p);
    pbt::require(ctl != nullptr, "fan controller refused ", n, " fans");
    int steps = static_cast<int>(s.i(1, 6));
    for (int k = 0; k < steps; ++k)
    {
        double want = 0;
        std::set<double> seen;
        std::ostringstream d;
        bool ignored = false;
        for (auto& f : names)
        {
            double v;
            switch (s.w({10, 3, 2, 2, 1}))
            {
                case 0:
                    v = s.q(1, 20000, 2);
                    break;
                case 1:
                    v = 0;
                    break;
                case 2:
                    v = -s.q(0.5, 5000, 2);
                    break;
                case 3:
                    v = NaN;
                    break;
                default:
                    v = s.b(50) ? Inf : -Inf;
            }
            // the scaled value must not matter
            z.cache[f] = {s.b(50) ? s.q(0, 1, 64) : v, v};
            d << v << " ";
            if (std::isfinite(v) && v > 0)
            {
                if (seen.empty() || v < want)
                    want = v;
                seen.insert(v);
            }
            else
                ignored = true;
        }
        z.maxSet = s.q(-10, 15000, 1);
        for (auto& f : names)
            z.mk(f).writes.clear();
        ctl->process();
        for (auto& f : names)
        {
            auto& w = z.mk(f).writes;
            pbt::require(w.size() == 1, f, " was written ", w.size(), " times in one step");
            double got = w[0].v * 100 + z.maxSet;
            pbt::require(pbt::close(got, want, 1e-9, 1e-7), "fans ", d.str(),
                         ": worked from ", got, " want ", want);
        }
        c.note("fans ", d.str(), "-> ", want);
        if (seen.empty())
            c.label("no working fan");
        c.nontrivial(n > 1 && !seen.empty() && (ignored || seen.size() > 1));
    }
}

PBT(no_fans, 200, 2000, "always")
{
    FakeZone z;
    auto p = genPid(s, true);
    pbt::require(FanController::createFanPid(&z, "fan", {}, p) == nullptr,
                 "a fan controller without fans was created");
    c.note(p);
    c.nontrivial();
}
