// C24: failsafe messages are limited in rate and not repeated within a state.
#include "failsafeloggers/builder.hpp"
#include "failsafeloggers/failsafe_logger.hpp"
#include "failsafeloggers/failsafe_logger_utility.hpp"
#include "unit.hpp"
#include "vclock.hpp"

#include <deque>

using namespace u;

namespace
{
struct Ref
{
    size_t limit;
    bool state;
    std::deque<int64_t> times;
    std::set<std::string> seen;
    // what the next message prints: 0 nothing, 1 in failsafe, 2 leaves
    int say(int64_t ms, bool st, const std::string& loc, const std::string& why, bool& limited, bool& repeat)
    {
        limited = repeat = false;
        while (!times.empty() && ms - times.front() >= 1000)
            times.pop_front();
        bool was = state;
        if (st != state)
        {
            seen.clear();
            state = st;
        }
        std::string key = loc + " @ " + why;
        repeat = seen.count(key);
        limited = times.size() >= limit;
        if (limited || repeat)
            return 0;
        seen.insert(key);
        times.push_back(ms);
        return st ? 1 : was ? 2 : 0;
    }
};
struct Said
{
    int64_t zone;
    int kind;
    std::string loc, why;
};
std::vector<Said> parse(const std::string& text)
{
    std::vector<Said> r;
    std::stringstream ss(text);
    std::string l;
    while (std::getline(ss, l))
    {
        if (l.compare(0, 6, "Zone `") != 0)
            continue;
        Said x;
        x.zone = std::strtoll(l.c_str() + 6, nullptr, 10);
        x.kind = l.find("` is in failsafe mode.") != std::string::npos ? 1 : l.find("` leaves failsafe mode.") != std::string::npos ? 2 : 0;
        size_t a = l.find("at `");
        size_t b = l.find("`: ", a);
        pbt::require(x.kind && a != std::string::npos && b != std::string::npos, "unreadable message: ", l);
        x.loc = l.substr(a + 4, b - a - 4);
        x.why = l.substr(b + 3);
        r.push_back(x);
    }
    return r;
}
} // namespace

PBT(limiter, 120000, 3000000, "a message was withheld by the limit or as a repeat, and another was printed after a state change")
{
    vclock::set((1700000000000ll + s.i(0, 5000)) * 1000000);
    std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> zones;
    std::map<int64_t, Ref> refs;
    std::map<std::string, std::vector<int64_t>> topology;
    size_t limit = s.w({1, 4}) == 0 ? 20 : static_cast<size_t>(s.i(1, 5));
    int n = static_cast<int>(s.i(1, 3));
    for (int k = 0; k < n; ++k)
    {
        int64_t id = s.b(80) ? k : 40 + k;
        auto z = std::make_shared<FakeZone>();
        z->id = id;
        z->failMode = s.b(60);
        for (int m = 0; m < 3; ++m)
            if (s.b(55))
            {
                std::string nm = "sensor" + std::to_string(m);
                z->mk(nm);
                topology[nm].push_back(id);
            }
        refs[id] = Ref{limit, z->failMode, {}, {}};
        zones[id] = z;
    }
    buildFailsafeLoggers(zones, limit);
    int steps = static_cast<int>(s.i(1, 40));
    bool withheld = false, changed = false, printedAfter = false;
    std::map<int64_t, std::vector<int64_t>> printed;
    int span = static_cast<int>(s.i(1, 8));
    for (int k = 0; k < steps; ++k)
    {
        switch (s.w({6, 3, 1, 1}))
        {
            case 0: break;
            case 1: vclock::advance(s.i(0, 400) * 1000000); break;
            case 2: vclock::advance(s.i(995, 1005) * 1000000); break;
            default: vclock::advance(s.i(1, 20000) * 1000000);
        }
        int64_t ms = vclock::now() / 1000000;
        bool bySensor = s.b(50), st = s.b(60);
        std::string loc = "loc" + std::to_string(s.i(0, span)), why = s.b(70) ? "why" : "other reason";
        std::vector<int64_t> to;
        pbt::captureReset();
        if (bySensor)
        {
            std::string nm = "sensor" + std::to_string(s.i(0, 3));
            to = topology.count(nm) ? topology[nm] : std::vector<int64_t>{};
            c.note(ms, " sensor ", nm, " ", st, " ", loc, " ", why);
            outputFailsafeLogWithSensor(nm, st, loc, why);
        }
        else
        {
            int64_t id = s.b(90) ? std::next(refs.begin(), s.draw(refs.size()))->first : 99;
            if (refs.count(id))
                to = {id};
            c.note(ms, " zone ", id, " ", st, " ", loc, " ", why);
            outputFailsafeLogWithZone(id, st, loc, why);
        }
        auto said = parse(pbt::capturedText());
        std::map<int64_t, int> want;
        for (auto id : to)
        {
            auto& r = refs[id];
            bool limited, repeat;
            if (st != r.state)
                changed = true;
            int w = r.say(ms, st, loc, why, limited, repeat);
            withheld = withheld || limited || repeat;
            if (limited)
                c.label("limited");
            if (repeat)
                c.label("repeat");
            if (w)
            {
                want[id] = w;
                printedAfter = printedAfter || changed;
                printed[id].push_back(ms);
                c.label(w == 1 ? "in failsafe" : "leaves failsafe");
            }
        }
        std::map<int64_t, int> got;
        for (auto& x : said)
        {
            pbt::require(x.loc == loc && x.why == why, "message for ", x.loc, ": ", x.why, " instead of ", loc, ": ", why);
            pbt::require(!got.count(x.zone), "zone ", x.zone, ": the message was printed twice");
            got[x.zone] = x.kind;
        }
        for (auto& [id, w] : want)
            pbt::require(got.count(id) && got[id] == w, "step ", k, " zone ", id, ": ", got.count(id) ? "wrong" : "no",
                         " message, expected ", w == 1 ? "'is in failsafe'" : "'leaves failsafe'");
        for (auto& [id, g] : got)
            pbt::require(want.count(id), "step ", k, " zone ", id, ": unexpected message");
        for (auto& [id, t] : printed)
        {
            size_t within = 0;
            for (auto x : t)
                within += ms - x < 1000;
            pbt::require(within <= limit, "zone ", id, ": ", within, " messages within a second");
        }
    }
    c.nontrivial(withheld && printedAfter);
}
