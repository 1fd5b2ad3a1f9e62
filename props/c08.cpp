// C08: what a fan controller commands, in and out of failsafe.  Built for both
// failsafe policies (config.h): plain and strict + offline.
#include "unit.hpp"
#include "config.h"

#include "pid/fancontroller.hpp"
#include "pid/tuning.hpp"

using namespace u;

PBT(command, 250000, 4000000, "failsafe entered or left during the history, or a level between command and floor")
{
    static const std::vector<std::string> pool = {"fan0", "fan1", "fan2", "fan3", "fan4"};
    size_t n = s.i(1, 5);
    std::vector<std::string> names(pool.begin(), pool.begin() + n);
    tuningEnabled = s.b(12);
    debugEnabled = s.b(25);
    ec::pidinfo p;
    p.ts = 1;
    p.feedFwdGain = 1; // commands exactly the requested set point
    p.outLim = {-1e9, 1e9};
    FakeZone z;
    z.id = s.i(0, 9);
    auto ctl = FanController::createFanPid(&z, "fanpid", names, p);
    int steps = static_cast<int>(s.i(1, 8)), trans = 0, raised = 0, kept = 0;
    bool prev = false;
    c.note(tuningEnabled ? "tuning " : "", debugEnabled ? "debug " : "", n, " fans");
    for (int k = 0; k < steps; ++k)
    {
        z.maxSet = s.b(70) ? s.q(0, 100, 4) : s.q(-20, 300, 4);
        z.failMode = s.b(55);
        z.failsafe = s.b(85) ? s.q(0, 100, 4) : s.q(0, 255, 1);
        z.redundant = s.b(30);
        z.failed.clear();
        if (z.failMode)
            z.failed["t1"] = {"Sensor reading bad", z.failsafe};
        for (auto& f : names)
        {
            z.cache[f] = {0, s.q(0, 8000, 1)};
            z.mk(f).writes.clear();
            z.mk(f).rawValue = s.i(0, 255);
        }
        z.outCache.clear();
        ctl->process();
        double want = z.maxSet;
        if (z.failMode && !tuningEnabled)
        {
            if (STRICT_FAILSAFE_PWM)
                want = z.failsafe;
            else
                want = std::max(want, z.failsafe);
        }
        if (z.failMode)
            want != z.maxSet ? ++raised : ++kept;
        trans += z.failMode != prev;
        prev = z.failMode;
        c.note(k, ": request=", z.maxSet, z.failMode ? " FAILSAFE " : " normal ", z.failsafe,
               z.redundant ? " forced" : "", " -> ", want);
        for (auto& f : names)
        {
            auto& w = z.mk(f).writes;
            pbt::require(w.size() == 1, "step ", k, ": ", f, " written ", w.size(), " times");
            pbt::require(pbt::close(w[0].v * 100, want, 1e-9, 1e-9), "step ", k, ": ", f,
                         " commanded to ", w[0].v * 100, "% want ", want, "% (request ", z.maxSet,
                         ", failsafe ", z.failMode, " level ", z.failsafe, ")");
            pbt::require(w[0].force == z.redundant, "step ", k, ": ", f,
                         " forced-write flag wrong");
            auto it = z.outCache.find(f);
            pbt::require(it != z.outCache.end() && pbt::close(it->second.scaled, w[0].v, 1e-9, 1e-12) &&
                             it->second.unscaled == static_cast<double>(z.mk(f).rawValue),
                         "step ", k, ": recorded command of ", f, " differs from the one sent");
        }
        pbt::require(z.outCache.size() == n, "step ", k, ": commands recorded for other fans");
    }
    if (s.b(30))
    {
        // the controller goes away
        z.failMode = s.b(50);
        z.failsafe = s.q(0, 100, 4);
        z.redundant = s.b(30);
        for (auto& f : names)
            z.mk(f).writes.clear();
        ctl.reset();
        for (auto& f : names)
        {
            auto& w = z.mk(f).writes;
            if (OFFLINE_FAILSAFE_PWM)
            {
                c.label("offline write");
                pbt::require(w.size() == 1 && pbt::close(w[0].v * 100, z.failsafe, 1e-9, 1e-9),
                             "on shutdown ", f, " must get the failsafe level ", z.failsafe);
            }
            else
                pbt::require(w.empty(), "on shutdown ", f, " was written");
        }
    }
    if (raised)
        c.label("failsafe changed the command");
    if (kept)
        c.label("failsafe kept the command");
    if (tuningEnabled)
        c.label("tuning");
    tuningEnabled = debugEnabled = false;
    c.nontrivial(trans > 1 || raised);
}
