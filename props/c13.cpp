// C13: what a D-Bus sensor reads is what was last published for it.
#include "passive.hpp"
using namespace ps;

PBT(reading, 120000, 1500000, "several finite values, with signals that must not count in between")
{
    static const std::vector<std::string> types = {"temp", "margin", "fan", "power", "powersum"};
    Fixture f;
    auto& m = f.m;
    m.type = s.pick(types);
    std::string id = s.pick(std::vector<std::string>{"temp1", "fan0", "a", "CPU_0_DTS"});
    bool ownPath = s.b(30);
    m.path = ownPath ? "/xyz/openbmc_project/sensors/voltage/y" + id
                     : "/xyz/openbmc_project/sensors/" + layer(m.type) + "/" + id;
    f.info.type = m.type;
    f.info.readPath = ownPath || s.b(40) ? m.path : "";
    f.info.ignoreDbusMinMax = s.b(35);
    f.info.unavailableAsFailed = s.b(50);
    std::vector<std::string> others = {m.path + "0", m.path + "_x", m.path.substr(0, m.path.size() - 1),
                                       m.path.substr(0, m.path.size() - 1) + "z",
                                       "/xyz/openbmc_project/sensors/" + layer(m.type) + "/other"};
    auto& o = f.w.add(m.path, f.service);
    auto& vi = o.ifaces[VALUE];
    double v = s.b(93) ? s.q(-50, 20000, 4) : s.pick(std::vector<double>{NaN, Inf});
    vi["Value"] = num(s, v);
    vi["Unit"] = mk(std::string("xyz.openbmc_project.Sensor.Value.Unit.RPMS"));
    double mn = 0, mx = 0;
    if (s.b(45))
    {
        m.scale = s.i(-6, 3);
        vi["Scale"] = mk(m.scale);
    }
    switch (s.w({30, 45, 25}))
    {
        case 1:
            mx = s.q(-20, 20000, 2);
            mn = s.b(60) ? s.q(-100, 1000, 2) : 0;
            if (s.b(90))
                vi["MaxValue"] = num(s, mx);
            else
                mx = 0;
            if (s.b(75))
                vi["MinValue"] = num(s, mn);
            else
                mn = 0;
            break;
        case 2: // the documented defaults of an unlimited sensor
        {
            mx = s.pick(std::vector<double>{Inf, NaN, 100});
            mn = s.pick(std::vector<double>{-Inf, NaN, 0});
            vi["MaxValue"] = mk(mx);
            vi["MinValue"] = mk(mn);
            break;
        }
        default:;
    }
    if (!f.info.ignoreDbusMinMax)
    {
        m.min = mn;
        m.max = mx;
    }
    if (s.b(30))
    {
        m.available = s.b(70);
        o.ifaces[AVAIL]["Available"] = mk(m.available);
    }
    vclock::advance(s.i(0, 5000) * 1000000);
    m.publish(v, true);
    c.note(f.show(), " path ", m.path, " published [", mn, ",", mx, "] start ", v);
    f.ri = DbusPassive::createDbusPassive(f.bus, m.type, id, std::make_unique<DbusHelper>(f.bus), &f.info, nullptr);
    pbt::require(f.ri != nullptr, "sensor was not built");
    int n = static_cast<int>(s.i(0, 10)), finite = 0, ignored = 0;
    for (int k = -1; k < n; ++k)
    {
        if (k >= 0)
        {
            vclock::advance(s.i(1, 2000) * 1000000);
            switch (s.w({50, 12, 18, 8, 12}))
            {
                case 0:
                {
                    double x = s.q(-100, 20000, 4);
                    std::vector<std::pair<std::string, Val>> ps;
                    if (s.b(15)) // a range published later does not rescale
                        ps.push_back({"MaxValue", mk(77.0)});
                    ps.push_back({"Value", num(s, x)});
                    c.note("  value ", x);
                    f.sig(m.path, VALUE, ps);
                    m.publish(x);
                    ++finite;
                    break;
                }
                case 1:
                {
                    double x = s.pick(std::vector<double>{NaN, Inf, -Inf});
                    c.note("  value ", x);
                    f.sig(m.path, VALUE, {{"Value", mk(x)}});
                    m.publish(x);
                    ++ignored;
                    break;
                }
                case 2:
                {
                    auto p = s.pick(others);
                    double x = s.q(-100, 20000, 4);
                    c.note("  value ", x, " of ", p);
                    f.sig(p, VALUE, {{"Value", mk(x)}});
                    ++ignored;
                    break;
                }
                case 3:
                {
                    bool a = s.b(40);
                    c.note("  available ", a);
                    f.sig(m.path, AVAIL, {{"Available", mk(a)}});
                    m.available = a;
                    if (!a)
                        m.publish(NaN, true);
                    break;
                }
                default:
                    if (s.b(50))
                        f.sig(m.path, CRIT, {{"CriticalAlarmHigh", mk(s.b(50))}, {"Value", mk(3.0)}});
                    else if (s.b(50))
                        f.sig(m.path, VALUE, {{"MinValue", mk(12.0)}});
                    else
                        f.sig(m.path, "xyz.openbmc_project.Sensor.ValueX", {{"Value", mk(9.0)}});
                    c.note("  unrelated signal");
                    ++ignored;
            }
        }
        if (s.b(30))
            vclock::advance(s.i(1, 500) * 1000000);
        ReadReturn r = f.ri->read();
        pbt::require(pbt::close(r.value, m.value, 1e-9, 1e-12), "step ", k, ": reads ", r.value, " want ", m.value);
        pbt::require(pbt::close(r.unscaled, m.unscaled, 1e-9, 1e-12), "step ", k, ": unscaled ", r.unscaled, " want ", m.unscaled);
        pbt::require(r.updated.time_since_epoch().count() == m.updated, "step ", k, ": dated ",
                     (r.updated.time_since_epoch().count() - T0) / 1000000, " ms, want ", (m.updated - T0) / 1000000);
    }
    if (m.max > 0 && std::isfinite(m.max) && std::isfinite(m.min) && m.max > m.min)
        c.label("ranged");
    if (!std::isfinite(m.max) || !std::isfinite(m.min))
        c.label("unlimited range");
    if (m.scale)
        c.label("scaled");
    c.nontrivial(finite > 1 && ignored);
}
