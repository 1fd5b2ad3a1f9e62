// C11: a commanded percentage becomes the right raw value and reaches the fan.
#include "busworld.hpp"
#include "dbus/dbushelper.hpp"
#include "dbus/dbuswrite.hpp"
#include "notimpl/readonly.hpp"
#include "notimpl/writeonly.hpp"
#include "sensors/pluggable.hpp"
#include "sysfs/sysfswrite.hpp"

#include <sys/stat.h>

#include <cmath>
#include <fstream>
#include <memory>

using namespace bw;
using namespace pid_control;

namespace
{
struct Range
{
    int64_t min = 0, max = 0;
    bool percent = true;
};
Range genRange(pbt::Src& s)
{
    Range r;
    r.percent = s.b(70);
    switch (s.w({4, 3, 3}))
    {
        case 0:
            r.min = 0;
            r.max = 255;
            break;
        case 1:
            r.min = s.i(0, 120);
            r.max = r.min + s.i(0, 300);
            break;
        default:
            r.min = s.i(0, 5000);
            r.max = s.i(1, 20000);
            break;
    }
    return r;
}
double genValue(pbt::Src& s, const Range& r)
{
    if (!r.percent)
        return s.b(60) ? static_cast<double>(s.i(0, 300)) : s.q(0, 300, 8);
    switch (s.w({4, 3, 2, 1}))
    {
        case 0:
            return s.i(0, 100) / 100.0;
        case 1:
            return s.q(0, 1, 256);
        case 2:
            return s.pick(std::vector<double>{0, 1, 0.5});
        default:
            return s.i(0, 100000) / 100000.0;
    }
}
// the acceptable raw values: the exact one, or either neighbour when rounding
// of the arithmetic itself decides
void want(const Range& r, double v, int64_t& lo, int64_t& hi)
{
    double x = r.percent ? static_cast<double>(r.min) + (static_cast<double>(r.max) - static_cast<double>(r.min)) * v : v;
    lo = static_cast<int64_t>(std::trunc(x - 1e-7));
    hi = static_cast<int64_t>(std::trunc(x + 1e-7));
}
} // namespace

PBT(dbus, 400000, 8000000, "a repeat, a forced repeat or a failed send occurred among other writes")
{
    Range r = genRange(s);
    World w;
    sim::fabric().reset();
    w.install();
    std::string path = s.pick(std::vector<std::string>{"/xyz/openbmc_project/control/fanpwm/fan0", "/xyz/openbmc_project/control/fanpwm/Pwm_1"});
    std::string svc = s.pick(std::vector<std::string>{"xyz.openbmc_project.FanSensor", "xyz.openbmc_project.Hwmon-1.Hwmon1"});
    bool exists = s.b(95);
    // another fan, and the same path without the interface
    w.add("/xyz/openbmc_project/control/fanpwm/fan9", "xyz.openbmc_project.Other").ifaces[FANPWM]["Target"] = mk(uint64_t(0));
    auto& o = w.add(path, svc);
    o.ifaces["xyz.openbmc_project.Association.Definitions"]["x"] = mk(int64_t(1));
    if (exists)
        o.ifaces[FANPWM]["Target"] = mk(uint64_t(12345678));
    int failNow = 0, attempts = 0;
    std::string last;
    w.fault = [&](Msg& m) -> std::optional<Reply> {
        if (m.member != "Set")
            return std::nullopt;
        ++attempts;
        pbt::require(m.dest == svc && m.path == path && m.body.at(0).s == FANPWM && m.body.at(1).s == "Target",
                     "write went to ", m.dest, " ", m.path, " ", m.body.at(0).s, ".", m.body.at(1).s);
        if (failNow)
            return sim::fail("org.freedesktop.DBus.Error.NoReply");
        return std::nullopt;
    };
    auto bus = sdbusplus::bus::new_default();
    auto helper = std::make_unique<DbusHelper>(bus);
    auto wi = r.percent ? DbusWritePercent::createDbusWrite(path, r.min, r.max, std::move(helper))
                        : DbusWrite::createDbusWrite(path, r.min, r.max, std::move(helper));
    if (!exists)
    {
        pbt::require(!wi, "a writer without an object was built");
        c.label("no object");
        sim::fabric().reset();
        return;
    }
    pbt::require(wi != nullptr, "writer was not built");
    PluggableSensor sensor("fan0", 0, std::make_unique<WriteOnly>(), std::move(wi));
    c.note(r.percent ? "percent of [" : "raw [", r.min, ",", r.max, "]");
    int n = static_cast<int>(s.i(1, 12)), repeats = 0, forcedRepeats = 0, fails = 0;
    std::optional<int64_t> sent; // last value the fan accepted
    bool unsure = false;         // a send failed since: what the fan has is not known
    double prev = 0;
    for (int k = 0; k < n; ++k)
    {
        double v = k && s.b(40) ? prev : genValue(s, r);
        prev = v;
        bool force = s.b(20), plain = !force && s.b(15);
        failNow = s.b(15);
        int64_t lo, hi, got = -77;
        want(r, v, lo, hi);
        size_t before = w.sets.size();
        attempts = 0;
        c.note("  write ", v, force ? " forced" : "", failNow ? " (send fails)" : "");
        if (plain)
            sensor.write(v);
        else
        {
            bool ask = s.b(90);
            sensor.write(v, force, ask ? &got : nullptr);
            if (ask)
                pbt::require(got != -77, "write ", k, " of ", v, ": nothing reported back");
        }
        if (got != -77)
            pbt::require(got >= lo && got <= hi, "write ", k, " of ", v, ": reported ", got, " want ", hi);
        bool maySkip = !force && !unsure && sent && *sent >= lo && *sent <= hi;
        bool mustSend = !maySkip;
        bool maySend = !maySkip || lo != hi;
        if (mustSend)
            pbt::require(attempts == 1, "write ", k, " of ", v, " (raw ", hi, "): ", attempts, " sends, the fan has ",
                         sent ? std::to_string(*sent) : "nothing", fails ? " after a failed send" : "");
        else if (!maySend)
            pbt::require(attempts == 0, "write ", k, " of ", v, " (raw ", hi, ") repeated the value the fan already has");
        if (attempts && failNow)
        {
            ++fails;
            unsure = true;
        }
        else if (attempts)
        {
            pbt::require(w.sets.size() == before + 1, "write ", k, ": nothing delivered");
            pbt::require(w.sets.back().value.sig == "t", "write ", k, ": wrong type ", w.sets.back().value.sig);
            int64_t raw = static_cast<int64_t>(w.sets.back().value.u);
            pbt::require(raw >= lo && raw <= hi, "write ", k, " of ", v, ": delivered ", raw, " want ", hi);
            if (got != -77)
                pbt::require(got == raw, "write ", k, ": reported ", got, " delivered ", raw);
            sent = raw;
            unsure = false;
        }
        if (maySkip)
            ++repeats;
        if (force && sent && *sent == hi)
            ++forcedRepeats;
    }
    if (fails)
        c.label("failed send");
    if (forcedRepeats)
        c.label("forced");
    c.nontrivial(repeats || forcedRepeats || fails);
    sim::fabric().reset();
}

PBT(sysfs, 40000, 600000, "several different values written to the file")
{
    Range r = genRange(s);
    std::string dir = pbt::scratch() + "/hw/hwmon7";
    std::string base = pbt::scratch() + "/hw";
    mkdir(base.c_str(), 0755);
    mkdir(dir.c_str(), 0755);
    std::string file = dir + "/pwm1";
    {
        std::ofstream(file) << s.pick(std::vector<std::string>{"", "0\n", "255", "123456789\n"});
    }
    bool wild = s.b(30);
    std::string path = wild ? base + "/**/pwm1" : file;
    std::unique_ptr<WriteInterface> wi;
    if (r.percent)
        wi = std::make_unique<SysFsWritePercent>(path, r.min, r.max);
    else
        wi = std::make_unique<SysFsWrite>(path, r.min, r.max);
    PluggableSensor sensor("fan0", 0, std::make_unique<WriteOnly>(), std::move(wi));
    c.note(r.percent ? "percent of [" : "raw [", r.min, ",", r.max, "]", wild ? " wildcard" : "");
    int n = static_cast<int>(s.i(1, 6));
    std::set<int64_t> seen;
    for (int k = 0; k < n; ++k)
    {
        double v = genValue(s, r);
        int64_t lo, hi, out = -1;
        want(r, v, lo, hi);
        c.note("  write ", v);
        if (s.b(50))
            sensor.write(v, s.b(50), &out);
        else
            sensor.write(v);
        std::ifstream f(file);
        std::string text((std::istreambuf_iterator<char>(f)), {});
        while (!text.empty() && text.back() == '\n')
            text.pop_back();
        pbt::require(text == std::to_string(lo) || text == std::to_string(hi), "write ", k, " of ", v, ": file holds '", text,
                     "' want ", hi);
        if (out != -1)
            pbt::require(out >= lo && out <= hi, "write ", k, ": reported ", out, " want ", hi);
        seen.insert(hi);
    }
    c.nontrivial(seen.size() > 1);
}
