// C33: no fault at run time ends the daemon or stops a zone's control.
#include "longrun.hpp"
#include "config.h"

namespace
{
using namespace lr;

PBT(survive, 1500, 80000, "something was disturbed, and control afterwards was judged")
{
    Scene x(s, c, "faults");
    x.build(true);
    // built while it cannot be found, a sensor stays failed (see the README)
    x.findable = HANDLE_MISSING_OBJECT_PATHS;
    // some runs are long
    bool longer = s.b(8);
    int rounds = static_cast<int>(longer ? s.i(6, 9) : s.i(1, 3));
    struct Calm
    {
        int64_t from, cold, warm, end;
    };
    std::vector<Calm> calms;
    int64_t t = 0;
    for (int r = 0; r < rounds; ++r)
    {
        int64_t noise = s.i(1, 20) * SEC;
        int n = static_cast<int>(s.i(1, 12));
        bool hup = s.b(longer ? 85 : 30);
        for (int k = 0; k < n; ++k)
        {
            int64_t at = t + s.i(1, noise / MS) * MS - 1 * MS;
            auto what = x.disturb(at);
            c.note(at / 1e9, " s: ", what);
            if (s.b(15))
            {
                int64_t h = at + s.i(0, 3000) * MS;
                if (h < t + noise)
                    x.sim.bus(h, [&x] { x.heal(); });
            }
        }
        for (int k = 0; k < static_cast<int>(s.i(0, 4)); ++k)
            x.turn(t + s.i(0, noise / MS) * MS, s.b(50));
        if (hup)
        {
            x.hup(t + s.i(0, noise / MS) * MS);
            c.label("reloaded meanwhile");
        }
        t += noise;
        x.sim.bus(t + 1 * MS, [&x] { x.heal(); });
        x.turn(t + 2 * MS, true);
        Calm m;
        m.from = t + (hup ? 27 : 4) * SEC;
        m.cold = m.from + SEC;
        x.turn(m.cold, false);
        m.warm = m.cold + 5 * SEC;
        x.turn(m.warm, true);
        m.end = m.warm + 5 * SEC;
        calms.push_back(m);
        t = m.end;
        int64_t at = m.end - 10 * MS;
        x.sim.at(at, [&x, r] {
            for (auto& z : x.zones)
            {
                auto v = sim::getProp(kFanCtrl, kModeRoot + std::to_string(z.id), "xyz.openbmc_project.Control.Mode", "FailSafe");
                if (!v)
                    rec("mode", std::to_string(z.id), "gone");
                else
                {
                    auto& w = v->sig == "v" ? v->kids.at(0) : *v;
                    rec("mode", std::to_string(z.id), w.u ? "failsafe" : "normal");
                }
            }
        });
    }
    x.beat(SEC / 2, t);
    x.sim.horizon = t;
    std::string args;
    for (auto& a : x.sim.args)
        args += " " + a;
    c.note("swampd", args);
    c.note(x.render());
    auto r = x.sim.run();
    x.survived(r);
    auto sets = r.of("set");
    for (auto& m : calms)
    {
        c.note("calm from ", m.from / 1e9, " to ", m.end / 1e9);
        for (auto& l : r.of("mode"))
            pbt::require(l.value == "normal", "zone ", l.what, " is ", l.value, " at ", l.t / 1e9, " s, all being well");
        for (auto& z : x.zones)
            for (auto& f : z.fans)
            {
                auto value = [&](int64_t at) {
                    double v = -1;
                    for (auto& l : sets)
                        if (l.what == f.tach.name && l.t <= at)
                            v = std::stod(l.value);
                    return v;
                };
                double low = base(z.id), high = base(z.id) + kStep;
                for (auto [at, b] : {std::pair{m.cold, high}, {m.warm, low}, {m.end, high}})
                {
                    // an accumulating zone may add up its controllers
                    double v = value(at - 1);
                    pbt::require(near(v, b), "fan ", f.tach.name, " is at ", v, " at ", at / 1e9, " s, all being well; ", b * 255 / 100,
                                 " expected");
                }
                if (!f.file)
                    continue;
                // files are written in each pass
                int64_t a = m.from, e = m.cold;
                long n = 0;
                for (auto& l : sets)
                    n += l.what == f.tach.name && l.t >= a && l.t < e;
                long want = (e - a) / (z.cycle * MS);
                pbt::require(n >= want - 1 && n <= want + 1, "fan ", f.tach.name, " was set ", n, " times in ", (e - a) / 1e9, " s, not ", want);
            }
    }
    c.nontrivial();
}
} // namespace
