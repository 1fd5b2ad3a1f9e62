// C29: observing the daemon does not change what it does.
#include "trace.hpp"
using namespace rig;

PBT(options, 2500, 50000, "fan commands changed more than twice, with at least one option on")
{
    Opt o = anyOpt(s);
    o.zonesMax = static_cast<int>(s.i(1, 2));
    Conf cf = genConf(s, o);
    enrich(s, cf);
    describe(c, cf);
    for (auto& [id, z] : cf.zones)
    {
        z.cycleTime.cycleIntervalTimeMS = static_cast<uint64_t>(s.pick(std::vector<int>{50, 100, 200, 70}));
        z.cycleTime.updateThermalsTimeMS = static_cast<uint64_t>(s.pick(std::vector<int>{100, 200, 1000, 300}));
    }
    int64_t span = anySpan(s, 300, 4000) / 10 * 10;
    auto events = anyEvents(s, cf, span, static_cast<int>(s.i(2, 30)), true);
    for (auto& e : events)
        c.note(e.show());
    int flags = static_cast<int>(s.i(1, 7));
    c.note("options:", flags & 1 ? " logging" : "", flags & 2 ? " debug" : "", flags & 4 ? " core logging" : "");
    auto every = [](const Event&) { return true; };
    auto plain = isolated([&] { return trace(cf, events, span, every, {}); });
    std::string dir = pbt::scratch() + "/rig/log";
    std::filesystem::remove_all(dir);
    std::filesystem::create_directories(dir);
    bool full = s.b(10); // a log that cannot be written
    auto with = [&](Rig&) {
        loggingEnabled = flags & 1;
        debugEnabled = flags & 2;
        coreLoggingEnabled = flags & 4;
        loggingPath = full ? dir + "/none" : dir;
    };
    auto opt = isolated([&] { return trace(cf, events, span, every, with); });
    size_t most = 0;
    Names n(cf);
    for (auto& f : n.fan)
    {
        sameTrace(plain.fan[f], opt.fan[f], f, "without options", "with them");
        most = std::max(most, plain.fan[f].size());
    }
    for (auto z : n.zones)
        sameTrace(plain.zone[z], opt.zone[z], "the state of zone " + std::to_string(z) + " (failsafe, manual, leader)", "without options",
                  "with them");
    c.nontrivial(most > 2);
}
