// C12: the verdict on a D-Bus sensor is that of its latest publications.
#include "passive.hpp"
using namespace ps;

struct Opts
{
    bool knownAlarmsOnly = true; // at most one alarm stands at start
};

static void setup(pbt::Src& s, pbt::Ctx& c, Fixture& f, bool twoAlarms)
{
    static const std::vector<std::string> types = {"temp", "margin", "fan", "power", "powersum"};
    static const std::vector<std::string> ids = {"s", "temp1", "fan0", "CPU_0_DTS"};
    auto& m = f.m;
    m.type = s.pick(types);
    std::string id = s.pick(ids);
    bool ownPath = s.b(25);
    m.path = ownPath ? "/xyz/openbmc_project/sensors/fan_tach/x" + id
                     : "/xyz/openbmc_project/sensors/" + layer(m.type) + "/" + id;
    f.info.type = m.type;
    f.info.readPath = ownPath || s.b(40) ? m.path : "";
    f.info.ignoreDbusMinMax = s.b(50);
    f.info.unavailableAsFailed = s.b(50);
    m.unavailableAsFailed = f.info.unavailableAsFailed;
    m.missing = s.b(HANDLE_MISSING_OBJECT_PATHS ? 12 : 5);
    f.others = {m.path + "0", m.path + "_x", m.path.substr(0, m.path.size() - 1) + "z",
                "/xyz/openbmc_project/sensors/" + layer(m.type) + "/other"};

    // redundancy collections known at start
    if (s.b(50))
    {
        int n = static_cast<int>(s.i(1, 2));
        for (int k = 0; k < n; ++k)
        {
            auto& o = f.w.add("/red/g" + std::to_string(k), "xyz.openbmc_project.FanSensor");
            std::vector<std::string> col = {"/xyz/openbmc_project/sensors/fan_tach/q" + std::to_string(k)};
            if (k == 0 && s.b(70))
                col.push_back(m.path);
            bool bad = s.b(30);
            o.ifaces[FANRED]["Status"] = mk(std::string(FANRED) + (bad ? ".State.Failed" : ".State.Full"));
            o.ifaces[FANRED]["Collection"] = mk(col);
            if (bad && col.size() > 1)
                m.redundant = true;
        }
        f.red = std::make_shared<DbusPassiveRedundancy>(f.bus);
    }

    double v = s.b(90) ? s.q(-20, 120, 2) : s.pick(std::vector<double>{NaN, Inf, -Inf});
    if (!m.missing)
    {
        auto& o = f.w.add(m.path, f.service);
        auto& vi = o.ifaces[VALUE];
        vi["Value"] = num(s, v);
        vi["Unit"] = mk(std::string("xyz.openbmc_project.Sensor.Value.Unit.DegreesC"));
        if (s.b(30))
        {
            m.scale = s.i(-3, 1);
            vi["Scale"] = mk(m.scale);
        }
        if (s.b(30))
        {
            vi["MaxValue"] = mk(s.q(0, 255, 1));
            vi["MinValue"] = mk(s.q(-20, 20, 1));
        }
        if (s.b(50))
        {
            m.available = s.b(70);
            o.ifaces[AVAIL]["Available"] = mk(m.available);
        }
        if (s.b(70))
        {
            auto& ci = o.ifaces[CRIT];
            if (s.b(85))
            {
                m.ch = twoAlarms ? s.b(60) : s.b(20);
                ci["CriticalAlarmHigh"] = mk(m.ch);
            }
            if (s.b(70))
            {
                m.cl = twoAlarms ? s.b(50) : (!m.ch && s.b(20));
                ci["CriticalAlarmLow"] = mk(m.cl);
            }
            ci["CriticalHigh"] = mk(90.0);
        }
        if (s.b(60))
        {
            auto& wi = o.ifaces[WARN];
            m.wh = twoAlarms ? s.b(60) : (!m.ch && !m.cl && s.b(20));
            wi["WarningAlarmHigh"] = mk(m.wh);
            wi["WarningAlarmLow"] = mk(s.b(20));
        }
        if (s.b(30))
        {
            m.functional = s.b(70);
            o.ifaces[OPSTAT]["Functional"] = mk(m.functional);
        }
        m.publish(v, true);
        // the range does not matter for the verdict
    }
    else
    {
        m.available = false;
        m.publish(NaN, true);
    }
    c.note(f.show(), " path ", m.path, f.red ? " with redundancy" : "", m.redundant ? " (failed)" : "", " start value ", v,
           m.available ? "" : " unavailable", m.functional ? "" : " not functional", m.cl ? " critLow" : "", m.ch ? " critHigh" : "", m.wh ? " warnHigh" : "");
    auto helper = std::make_unique<DbusHelper>(f.bus);
    f.ri = DbusPassive::createDbusPassive(f.bus, m.type, id, std::move(helper), &f.info, f.red);
}

static void step(pbt::Src& s, pbt::Ctx& c, Fixture& f)
{
    auto& m = f.m;
    bool other = s.b(18);
    std::string path = other ? s.pick(f.others) : m.path;
    const char* who = other ? " (another sensor)" : "";
    switch (s.w({30, 12, 12, 22, 10, 8, 6}))
    {
        case 0:
        {
            double v = s.b(75) ? s.q(-10, 110, 2) : s.pick(std::vector<double>{NaN, Inf, -Inf});
            std::vector<std::pair<std::string, Val>> ps;
            if (s.b(10))
                ps.push_back({"MaxValue", mk(100.0)});
            ps.push_back({"Value", num(s, v)});
            c.note("  value ", v, who);
            f.sig(path, VALUE, ps);
            if (!other)
                m.publish(v);
            break;
        }
        case 1:
        {
            bool v = s.b(50);
            c.note("  available ", v, who);
            f.sig(path, AVAIL, {{"Available", mk(v)}});
            if (!other)
            {
                m.available = v;
                if (!v)
                    m.publish(NaN, true);
            }
            break;
        }
        case 2:
        {
            bool v = s.b(50);
            c.note("  functional ", v, who);
            f.sig(path, OPSTAT, {{"Functional", mk(v)}});
            if (!other)
                m.functional = v;
            break;
        }
        case 3:
        {
            bool hasL = s.b(45), hasH = !hasL || s.b(50), l = s.b(45), h = s.b(45);
            std::vector<std::pair<std::string, Val>> ps;
            if (hasL)
                ps.push_back({"CriticalAlarmLow", mk(l)});
            if (hasH)
                ps.push_back({"CriticalAlarmHigh", mk(h)});
            if (s.b(20))
                ps.push_back({"CriticalHigh", mk(95.0)});
            c.note("  critical", hasL ? (l ? " low=1" : " low=0") : "", hasH ? (h ? " high=1" : " high=0") : "", who);
            f.sig(path, CRIT, ps);
            if (!other)
            {
                if (hasL)
                    m.cl = l;
                if (hasH)
                    m.ch = h;
            }
            break;
        }
        case 4:
        {
            bool hasH = s.b(85), h = s.b(50);
            std::vector<std::pair<std::string, Val>> ps;
            if (hasH)
                ps.push_back({"WarningAlarmHigh", mk(h)});
            else
                ps.push_back({"WarningAlarmLow", mk(h)});
            c.note("  warning ", hasH ? "high=" : "low=", h, who);
            f.sig(path, WARN, ps);
            if (!other && hasH)
                m.wh = h;
            break;
        }
        case 5:
        {
            // interfaces and properties that say nothing about health
            switch (s.draw(4))
            {
                case 0:
                    f.sig(path, VALUE, {{"MinValue", mk(1.0)}});
                    break;
                case 1:
                    f.sig(path, "xyz.openbmc_project.Association.Definitions", {});
                    break;
                case 2:
                    f.sig(path, CRIT, {{"CriticalLow", mk(5.0)}});
                    break;
                default:
                    f.sig(path, "xyz.openbmc_project.Control.FanPwm", {{"Target", mk(int64_t(5))}, {"Value", mk(NaN)}});
            }
            c.note("  unrelated signal", who);
            break;
        }
        default:
        {
            if (!f.red)
                break;
            auto it = f.w.objs.find("/red/g0");
            bool bad = s.b(50);
            auto st = std::string(FANRED) + (bad ? ".State.Failed" : s.b(50) ? ".State.Full" : ".State.Degraded");
            it->second.ifaces[FANRED]["Status"] = mk(st);
            auto msg = sim::mkPropsChanged("xyz.openbmc_project.FanSensor", "/red/g0", FANRED, {{"Status", mk(st)}});
            sim::fabric().emit(msg);
            c.note("  redundancy ", bad ? "failed" : "ok");
            for (auto& k : it->second.ifaces[FANRED]["Collection"].kids)
                if (k.s == m.path)
                    m.redundant = bad;
        }
    }
}

static void judge(Fixture& f, pbt::Ctx&, int k)
{
    bool got = f.ri->getFailed(), want = f.m.failed();
    pbt::require(got == want, "after step ", k, ": sensor reported ", got ? "failed" : "healthy", " but it is ",
                 want ? "failed" : "healthy", " (bad ", f.m.bad, " hot ", f.m.hot, " alarm ", f.m.alarm(), " available ",
                 f.m.available, " functional ", f.m.functional, " redundancy ", f.m.redundant, " missing ", f.m.missing, ")");
    if (!got)
        return;
    // The reason that goes to the log with it is one that holds.
    auto why = f.ri->getFailReason();
    auto& m = f.m;
    static const std::map<std::string, int> known = {{"Sensor D-Bus object missing", 0}, {"Sensor reading bad", 1}, {"Margin hot", 2},
                                                     {"Sensor threshold asserted", 3}, {"Sensor unavailable", 4}, {"Sensor not functional", 5},
                                                     {"Unknown", 6}};
    bool holds[] = {m.missing, m.bad, m.hot, m.alarm(), !m.available, !m.functional,
                    !(m.missing || m.bad || m.hot || m.alarm() || !m.available || !m.functional)};
    auto it = known.find(why);
    pbt::require(it == known.end() ? !why.empty() : holds[it->second], "after step ", k, ": sensor failed because '", why, "', which is not so");
}

PBT(verdict, 110000, 1500000, "the verdict changed at least twice, or several causes of failure stood at once")
{
    Fixture f;
    setup(s, c, f, false);
    if (f.m.missing && !HANDLE_MISSING_OBJECT_PATHS)
    {
        pbt::require(!f.ri, "a sensor without an object was built");
        c.label("missing object");
        return;
    }
    pbt::require(f.ri != nullptr, "sensor was not built");
    judge(f, c, -1);
    int n = static_cast<int>(s.i(1, 14)), flips = 0, multi = 0;
    bool prev = f.m.failed();
    for (int k = 0; k < n; ++k)
    {
        vclock::advance(100000000);
        step(s, c, f);
        judge(f, c, k);
        flips += f.m.failed() != prev;
        prev = f.m.failed();
        multi += f.m.bad + f.m.hot + f.m.cl + f.m.ch + !f.m.available + !f.m.functional + f.m.redundant > 1;
    }
    if (f.m.missing)
        c.label("built as missing");
    if (f.red)
        c.label("redundancy");
    if (f.m.type == "fan")
        c.label("fan");
    if (f.m.type == "margin")
        c.label("margin");
    c.nontrivial(flips >= 2 || multi);
}

// Several alarms already stand when the sensor is built: the verdict must hold
// until the last of them clears.
PBT(startup_alarms, 20000, 400000, "two alarms stood at the start and one was cleared")
{
    Fixture f;
    setup(s, c, f, true);
    if (!f.ri || f.m.missing)
        throw pbt::Discard("not built");
    judge(f, c, -1);
    int had = f.m.cl + f.m.ch + (UNC_FAILSAFE && f.m.wh);
    int n = static_cast<int>(s.i(1, 5));
    for (int k = 0; k < n; ++k)
    {
        step(s, c, f);
        judge(f, c, k);
    }
    c.nontrivial(had > 1 && f.m.cl + f.m.ch + f.m.wh < had);
}

PBT(build_faults, 3000, 30000, "a call failed while the sensor was built")
{
    Fixture f;
    // which outside call fails
    int kind = static_cast<int>(s.i(0, 4));
    std::string en = s.pick(std::vector<std::string>{"org.freedesktop.DBus.Error.NoReply", "org.freedesktop.DBus.Error.Timeout",
                                                     "org.freedesktop.DBus.Error.UnknownObject"});
    f.w.fault = [&](Msg& m) -> std::optional<Reply> {
        bool hit = false;
        if (kind == 1)
            hit = m.dest == MAPPER && m.member == "GetObject";
        if (kind == 2)
            hit = m.member == "GetAll" && m.body.at(0).s == VALUE;
        if (kind == 3)
            hit = m.member == "Get" && m.body.at(0).s == AVAIL;
        if (kind == 4)
            hit = m.member == "GetAll" && (m.body.at(0).s == CRIT || m.body.at(0).s == WARN);
        if (hit)
            return sim::fail(en);
        return std::nullopt;
    };
    f.m.missing = false;
    setup(s, c, f, false);
    c.note("fault kind ", kind, " ", en);
    if (kind == 1 || f.m.missing)
    {
        if (HANDLE_MISSING_OBJECT_PATHS)
            pbt::require(f.ri && f.ri->getFailed(), "a sensor without an object must be failed");
        else
            pbt::require(!f.ri, "a sensor without an object was built");
    }
    else if (kind == 2)
        pbt::require(!f.ri, "a sensor whose value cannot be fetched was built");
    else
    {
        if (kind == 3)
            f.m.available = true;
        if (kind == 4)
            f.m.cl = f.m.ch = f.m.wh = false;
        pbt::require(f.ri != nullptr, "sensor was not built");
        judge(f, c, -1);
    }
    c.nontrivial(kind);
}

PBT(bad_type, 500, 5000, "an unknown kind of sensor")
{
    Fixture f;
    auto t = s.pick(std::vector<std::string>{"", "Fan", "temperature", "marginx", "pow", "power ", "host", "tem"});
    f.w.add("/xyz/openbmc_project/sensors/unknown/x", f.service).ifaces[VALUE]["Value"] = mk(1.0);
    f.info.readPath = s.b(50) ? "/xyz/openbmc_project/sensors/unknown/x" : "";
    f.info.type = t;
    auto r = DbusPassive::createDbusPassive(f.bus, t, "x", std::make_unique<DbusHelper>(f.bus), &f.info, nullptr);
    pbt::require(!r, "a sensor of kind '", t, "' was built");
    c.note(t);
    c.nontrivial();
}
