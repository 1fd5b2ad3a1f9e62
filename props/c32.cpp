// C32: a daemon that runs on and on needs no more than at its start.
#include "longrun.hpp"

#include <malloc.h>

namespace
{
using namespace lr;

long files()
{
    long n = 0;
    if (DIR* d = opendir("/proc/self/fd"))
    {
        while (readdir(d))
            ++n;
        closedir(d);
    }
    return n;
}
long heap()
{
#if defined(__SANITIZE_ADDRESS__)
    return static_cast<long>(__sanitizer_get_current_allocated_bytes());
#else
    return static_cast<long>(mallinfo2().uordblks);
#endif
}

PBT(resources, 700, 40000, "the daemon passed or reloaded many times")
{
    Scene x(s, c, "res");
    x.build(true);
    enum
    {
        steady,
        reload,
        twice
    } mode = static_cast<decltype(mode)>(s.w({2, 2, 1}));
    int n = static_cast<int>(s.i(5, 8));
    int64_t len = mode == steady ? 15 * SEC : 36 * SEC;
    c.label(mode == steady ? "one configuration" : mode == reload ? "reloaded" : "reloaded twice in a row");
    // the same happens in each period
    std::vector<int64_t> at;
    int nd = static_cast<int>(s.i(0, 6));
    int64_t when = s.i(0, 2000) * MS;
    int64_t second = when + s.i(1, 30) * 400 * MS;
    std::vector<std::vector<Action>> per(n);
    pbt::Src* src = &s;
    (void)src;
    for (int k = 0; k < nd; ++k)
        at.push_back(s.i(0, (len - 8 * SEC) / MS) * MS);
    size_t before = x.sim.acts.size();
    for (auto t : at)
        c.note(t / 1e9, " s into each period: ", x.disturb(t));
    std::vector<Action> once(x.sim.acts.begin() + static_cast<long>(before), x.sim.acts.end());
    x.sim.acts.resize(before);
    for (int k = 0; k < n; ++k)
    {
        int64_t t0 = k * len;
        for (auto& a : once)
            x.sim.acts.push_back({t0 + a.at, a.fn, a.inside});
        x.turn(t0 + SEC, true);
        x.turn(t0 + 4 * SEC, false);
        x.sim.bus(t0 + len - 7 * SEC, [&x] { x.heal(); });
        if (mode != steady)
            x.hup(t0 + when);
        if (mode == twice)
            x.hup(t0 + second);
        x.sim.at(t0 + len - 3 * MS, [k] {
            auto& fb = sim::fabric();
            std::string objs;
            for (auto& [p, o] : fb.objects)
                for (auto& [i, _] : o)
                    objs += p + ":" + i + " ";
            auto n = std::to_string(k);
            rec("files", n, std::to_string(files()));
            rec("matches", n, std::to_string(fb.matches.size()));
            rec("objects", n, objs);
            rec("heap", n, std::to_string(heap()));
        });
    }
    x.beat(SEC / 2, n * len);
    x.sim.horizon = n * len + 1 * MS;
    std::string args;
    for (auto& a : x.sim.args)
        args += " " + a;
    c.note("swampd", args, ", ", n, " periods of ", len / 1e9, " s, reload at ", when / 1e9, " and ", second / 1e9);
    c.note(x.render());
    auto r = x.sim.run();
    x.survived(r);
    for (auto kind : {"files", "matches", "objects"})
    {
        auto l = r.of(kind);
        pbt::require(static_cast<int>(l.size()) == n, "samples are missing");
        for (size_t k = 2; k < l.size(); ++k)
            pbt::require(l[k].value == l[1].value, "after ", k + 1, " periods: ", kind, " ", l[k].value, ", after 2: ", l[1].value);
    }
    // A container may once have grown to what it needs; what is kept of every
    // period, or grows again and again, is another matter.
    std::vector<long> heap;
    for (auto& l : r.of("heap"))
        heap.push_back(std::stol(l.value));
    long grown = heap.back() - heap[1], times = 0;
    for (size_t k = 2; k < heap.size(); ++k)
        times += heap[k] > heap[k - 1];
    std::string seen;
    for (auto v : heap)
        seen += " " + std::to_string(v);
    c.note("heap", seen);
    if (getenv("C32_SHOW"))
        std::ofstream(getenv("C32_SHOW"), std::ios::app) << "mode " << mode << " n " << n << " times " << times << " growth " << grown << "\n";
    pbt::require(times < n - 2 || grown < 48, "memory in use grew in each period:", seen);
    pbt::require(grown < (times > 1 ? 1000 : 6000), "memory in use grew:", seen);
    c.nontrivial();
}
} // namespace
