// C26: the fans failed by redundancy are those of the failed groups.
#include "busworld.hpp"
#include "dbus/dbuspassiveredundancy.hpp"

using namespace bw;
using namespace pid_control;

PBT(groups, 120000, 3000000, "a fan belonged to two groups, or a group failed and recovered")
{
    World w;
    sim::fabric().reset();
    w.install();
    int n = static_cast<int>(s.i(0, 4));
    std::vector<std::string> fans;
    for (int k = 0; k < 5; ++k)
        fans.push_back("/xyz/openbmc_project/sensors/fan_tach/fan" + std::to_string(k));
    struct Group
    {
        std::string path, uniq;
        std::set<std::string> members;
        bool failed = false;
    };
    std::vector<Group> gs(n);
    bool overlap = false;
    std::set<std::string> all;
    auto status = [&](bool bad) {
        return FANRED + (bad ? ".State.Failed" : s.b(50) ? ".State.Full" : ".State.Degraded");
    };
    auto genMembers = [&]() {
        std::set<std::string> r;
        int m = static_cast<int>(s.i(0, 3));
        for (int k = 0; k < m; ++k)
            r.insert(s.pick(fans));
        return r;
    };
    auto publish = [&](Group& g, bool bad) {
        auto& o = w.objs[g.path];
        auto st = status(bad);
        o.ifaces[FANRED]["Status"] = mk(st);
        return st;
    };
    auto text = [](const std::set<std::string>& x) {
        std::string r = "{";
        for (auto& k : x)
            r += k.substr(k.rfind('/') + 1) + " ";
        return r + "}";
    };
    for (int k = 0; k < n; ++k)
    {
        auto& g = gs[k];
        g.path = "/xyz/openbmc_project/control/FanRedundancy/g" + std::to_string(k);
        g.uniq = ":1.2" + std::to_string(k % 2);
        std::string svc = "xyz.openbmc_project.Fan" + std::to_string(k % 2);
        w.unique[g.uniq] = svc;
        w.add(g.path, svc);
        g.members = genMembers();
        for (auto& m : g.members)
            overlap = overlap || !all.insert(m).second;
        w.objs[g.path].ifaces[FANRED]["Collection"] = mk(std::vector<std::string>(g.members.begin(), g.members.end()));
        g.failed = s.b(35);
        publish(g, g.failed);
        c.note("group ", k, " ", text(g.members), g.failed ? " failed" : "");
    }
    w.add("/other", "xyz.openbmc_project.Fan0").ifaces[VALUE]["Value"] = mk(1.0);
    bool mapperFails = s.b(6), getFails = false;
    // a group whose service doesn't answer at the start
    std::set<std::string> mute;
    for (auto& g : gs)
        if (s.b(8))
            mute.insert(g.path);
    w.fault = [&](Msg& m) -> std::optional<Reply> {
        if (mapperFails && m.dest == MAPPER)
            return sim::fail();
        if (m.member == "GetAll" && mute.contains(m.path))
            return sim::fail("org.freedesktop.DBus.Error.NoReply");
        if (getFails && m.member == "Get")
            return sim::fail("org.freedesktop.DBus.Error.NoReply");
        return std::nullopt;
    };
    // what each failed group is known to hold
    std::map<int, std::set<std::string>> known;
    for (int k = 0; k < n; ++k)
        if (gs[k].failed && !mapperFails && !mute.contains(gs[k].path))
            known[k] = gs[k].members;
        else if (mute.contains(gs[k].path))
            c.note("group ", k, " doesn't answer");
    if (mapperFails)
        c.note("mapper fails");
    auto bus = sdbusplus::bus::new_default();
    DbusPassiveRedundancy red(bus);
    int steps = static_cast<int>(s.i(0, 10)), recoveries = 0;
    for (int k = -1; k < steps; ++k)
    {
        if (k >= 0 && n)
        {
            int gi = static_cast<int>(s.draw(n));
            auto& g = gs[gi];
            switch (s.w({70, 12, 10, 8}))
            {
                case 0:
                case 1:
                {
                    bool bad = s.b(45);
                    getFails = s.b(8);
                    // its members have changed since
                    if (s.b(15))
                    {
                        g.members = genMembers();
                        w.objs[g.path].ifaces[FANRED]["Collection"] = mk(std::vector<std::string>(g.members.begin(), g.members.end()));
                        c.note("  group ", gi, " now ", text(g.members));
                    }
                    auto st = publish(g, bad);
                    auto msg = sim::mkPropsChanged(g.uniq, g.path, FANRED, {{"Status", mk(st)}});
                    sim::fabric().emit(msg);
                    c.note("  group ", gi, " ", st.substr(st.rfind('.')), getFails ? " (lookup fails)" : "");
                    // a recovered group needs no lookup
                    if (!getFails || !bad)
                    {
                        recoveries += !bad && known.count(gi);
                        known.erase(gi);
                        if (bad)
                            known[gi] = g.members;
                    }
                    getFails = false;
                    break;
                }
                case 2:
                {
                    auto msg = sim::mkPropsChanged(g.uniq, g.path, FANRED, {{"Collection", mk(std::vector<std::string>{fans[0]})}});
                    sim::fabric().emit(msg);
                    c.note("  unrelated change of group ", gi);
                    break;
                }
                default:
                {
                    auto msg = sim::mkPropsChanged(g.uniq, g.path, "xyz.openbmc_project.Control.FanPwm", {{"Status", mk(status(true))}});
                    sim::fabric().emit(msg);
                    c.note("  status of another interface");
                }
            }
        }
        std::set<std::string> want;
        for (auto& [_, m] : known)
            want.insert(m.begin(), m.end());
        auto& got = red.getFailed();
        pbt::require(std::set<std::string>(got.begin(), got.end()) == want, "step ", k, ": failed fans ",
                     text(std::set<std::string>(got.begin(), got.end())), " want ", text(want));
    }
    if (overlap)
        c.label("overlapping groups");
    c.nontrivial(recoveries || (overlap && steps));
    sim::fabric().reset();
}
