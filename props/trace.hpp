// Runs of the whole rig compared with one another.
#pragma once
#include "rig.hpp"

#include <csignal>
#include <sys/prctl.h>
#include <sys/wait.h>

namespace rig
{
inline Opt anyOpt(pbt::Src& s)
{
    Opt o;
    o.thermalsMax = 3;
    o.fansMax = 3;
    o.levels = true;
    o.ext = true;
    o.sysfs = true;
    o.sysfsOut = s.b(40);
    o.pidThermals = s.b(70);
    o.minimum = s.b(40);
    o.ceilingPct = s.b(30) ? 30 : 0;
    o.acc = s.b(40);
    o.timeouts = s.b(50);
    o.startFaults = s.b(30);
    o.acceptable = s.b(30);
    o.hostOpt = s.b(40);
    o.unavail = s.b(40);
    o.fanP = s.b(50);
    o.writeOnlyPct = s.b(20) ? 30 : 0;
    return o;
}
// Controllers with every feature of the control laws.
inline void enrich(pbt::Src& s, Conf& cf)
{
    for (auto& [id, pc] : cf.pids)
        for (auto& [n, ci] : pc)
        {
            if (ci.type == "stepwise")
                continue;
            auto& p = ci.pidInfo;
            p.ts = s.b(70) ? 1 : 0.5;
            if (s.b(30))
                p.integralCoeff = s.q(-1, 1, 16);
            if (s.b(30))
                p.derivativeCoeff = s.q(-1, 1, 16);
            if (s.b(30))
                p.integralLimit = {s.q(-50, 0, 1), s.q(0, 50, 1)};
            if (s.b(20))
                p.slewPos = s.q(0, 20, 2);
            if (s.b(20))
                p.slewNeg = -s.q(0, 20, 2);
            if (s.b(20))
                p.positiveHysteresis = s.q(0, 8, 2), p.negativeHysteresis = s.q(0, 8, 2);
            p.checkHysterWithSetpt = s.b(15);
            if (ci.type == "fan")
                p.outLim = {s.q(0, 30, 1), s.q(60, 100, 1)};
        }
}
inline std::vector<Event> anyEvents(pbt::Src& s, const Conf& cf, int64_t span, int count, bool fanWrites)
{
    Names n(cf);
    std::vector<Event> es;
    for (int k = 0; k < count; ++k)
    {
        Event e;
        e.t = evTime(s, span);
        size_t w = s.w({10, n.bus.empty() ? 0u : 3u, n.bus.empty() ? 0u : 2u, n.bus.empty() ? 0u : 1u, n.sysfs.empty() ? 0u : 1u, 2, 2, 2,
                        fanWrites ? 1u : 0u, 1});
        switch (w)
        {
            case 0:
                if (n.readable.empty())
                    continue;
                e.kind = Event::value;
                e.who = s.pick(n.readable);
                e.v = anyReading(s, cf.sensors.at(e.who).info.type == "fan");
                if (cf.sensors.at(e.who).kind != SensorSpec::sysfs && s.b(6))
                    e.v = NaN;
                break;
            case 1:
                e.kind = Event::functional;
                e.who = s.pick(n.bus);
                e.on = s.b(50);
                break;
            case 2:
                e.kind = Event::avail;
                e.who = s.pick(n.bus);
                e.on = s.b(50);
                break;
            case 3:
                e.kind = Event::crit;
                e.who = s.pick(n.bus);
                e.on = s.b(50);
                break;
            case 4:
                e.kind = Event::gone;
                e.who = s.pick(n.sysfs);
                e.on = s.b(50);
                e.v = anyReading(s, false);
                break;
            case 5:
                e.kind = Event::manual;
                e.zone = s.pick(n.zones);
                e.on = s.b(50);
                break;
            case 6:
            {
                auto p = s.pick(n.procs);
                e.kind = Event::enabled;
                e.zone = p.first;
                e.who = p.second;
                e.on = s.b(50);
                break;
            }
            case 7:
                e.kind = Event::host;
                e.on = s.b(50);
                break;
            case 8:
                e.kind = Event::fanWrite;
                e.who = s.pick(n.fan);
                e.v = static_cast<double>(s.i(0, 1000000000));
                break;
            default:
                e.kind = Event::other;
        }
        es.push_back(e);
    }
    sortEvents(es);
    return es;
}

// What a run did to the outside.
struct Trace
{
    std::map<std::string, std::vector<std::pair<int64_t, std::string>>> fan; // by fan: commands
    std::map<int64_t, std::vector<std::pair<int64_t, std::string>>> zone;    // by zone: published state
};
// One run; the clock takes the same steps whatever the configuration. Only the
// events for which keep holds take place.
inline Trace trace(const Conf& cf, const std::vector<Event>& events, int64_t span, const std::function<bool(const Event&)>& keep,
                   const std::function<void(Rig&)>& before, const std::function<void(Rig&)>& after = {})
{
    Trace t;
    Rig r(cf);
    if (before)
        before(r);
    r.build();
    r.start();
    std::map<std::string, double> files;
    size_t ei = 0;
    std::map<int64_t, std::string> state;
    auto note = [&] {
        int64_t now = vclock::now();
        for (auto& x : r.sent)
            t.fan[x.fan].push_back({x.t - T0, std::to_string(x.raw)});
        r.sent.clear();
        for (auto& [n, sp] : r.conf.sensors)
            if (sp.sysfsOut)
            {
                double v = r.at(n);
                auto [it, fresh] = files.try_emplace(n, -2);
                if (it->second != v)
                {
                    it->second = v;
                    t.fan[n].push_back({now - T0, std::to_string(v)});
                }
            }
        for (auto& [id, z] : r.zones)
        {
            std::ostringstream o;
            o << r.zoneFlag(id, "FailSafe") << r.zoneFlag(id, "Manual") << r.leader(id);
            if (state[id] != o.str())
            {
                state[id] = o.str();
                t.zone[id].push_back({now - T0, o.str()});
            }
        }
    };
    note();
    for (int64_t ms = 10; ms <= span; ms += 10)
    {
        int64_t at = T0 + ms * MS;
        while (ei < events.size() && events[ei].t < at)
        {
            vclock::set(events[ei].t);
            if (keep(events[ei]))
                r.apply(events[ei]);
            r.poll();
            note();
            ++ei;
        }
        vclock::set(at);
        r.poll();
        note();
    }
    if (after)
        after(r);
    return t;
}
// A run in a process of its own, so that nothing one run leaves behind (state
// the code keeps outside of its objects) reaches the other.
inline Trace isolated(const std::function<Trace()>& run)
{
    int p[2];
    if (::pipe(p) != 0)
        throw pbt::Discard("no pipe");
    std::cout.flush();
    std::fflush(stdout);
    pid_t pid = ::fork();
    if (pid < 0)
        throw pbt::Discard("no process");
    if (pid == 0)
    {
        ::prctl(PR_SET_PDEATHSIG, SIGKILL);
        ::close(p[0]);
        std::ostringstream o;
        try
        {
            Trace t = run();
            o << "T";
            for (auto& [f, l] : t.fan)
                for (auto& [at, v] : l)
                    o << "f" << f << '\x01' << at << '\x01' << v << '\x02';
            for (auto& [z, l] : t.zone)
                for (auto& [at, v] : l)
                    o << "z" << z << '\x01' << at << '\x01' << v << '\x02';
        }
        catch (const pbt::Discard& e)
        {
            o << "D" << e.what();
        }
        catch (const std::exception& e)
        {
            o << "F" << e.what();
        }
        auto s = o.str();
        for (size_t k = 0; k < s.size();)
        {
            auto w = ::write(p[1], s.data() + k, s.size() - k);
            if (w <= 0)
                ::_exit(3);
            k += static_cast<size_t>(w);
        }
        ::_exit(0);
    }
    ::close(p[1]);
    std::string s;
    char b[65536];
    for (ssize_t n; (n = ::read(p[0], b, sizeof b)) > 0;)
        s.append(b, static_cast<size_t>(n));
    ::close(p[0]);
    int st = 0;
    ::waitpid(pid, &st, 0);
    pbt::require(WIFEXITED(st) && WEXITSTATUS(st) == 0 && !s.empty(), "the daemon's code crashed (",
                 WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "status " + std::to_string(WEXITSTATUS(st)), ")");
    if (s[0] == 'D')
        throw pbt::Discard(s.substr(1));
    pbt::require(s[0] == 'T', s.substr(1));
    Trace t;
    for (size_t k = 1; k < s.size();)
    {
        size_t e = s.find('\x02', k), a = s.find('\x01', k), c = s.find('\x01', a + 1);
        std::string key = s.substr(k + 1, a - k - 1), v = s.substr(c + 1, e - c - 1);
        int64_t at = std::stoll(s.substr(a + 1, c - a - 1));
        if (s[k] == 'f')
            t.fan[key].push_back({at, v});
        else
            t.zone[std::stoll(key)].push_back({at, v});
        k = e + 1;
    }
    return t;
}
inline std::string showAt(int64_t t)
{
    return "+" + std::to_string(static_cast<double>(t) / MS) + " ms";
}
inline void sameTrace(const std::vector<std::pair<int64_t, std::string>>& a, const std::vector<std::pair<int64_t, std::string>>& b,
                      const std::string& what, const std::string& an, const std::string& bn)
{
    for (size_t k = 0; k < std::max(a.size(), b.size()); ++k)
    {
        std::string x = k < a.size() ? showAt(a[k].first) + " " + a[k].second : "nothing";
        std::string y = k < b.size() ? showAt(b[k].first) + " " + b[k].second : "nothing";
        pbt::require(x == y, what, ": ", an, " it got ", x, ", ", bn, " ", y);
    }
}
} // namespace rig
