// C04: how a thermal controller combines its inputs.
#include "unit.hpp"

#include "pid/thermalcontroller.hpp"

using namespace u;

struct In
{
    std::string name;
    bool conv;
    double zero;
};

static const std::vector<std::string> kinds = {"temp", "margin", "power", "powersum"};

PBT(aggregate, 400000, 5000000, "2+ inputs, at least one readable and one different from the result")
{
    std::string kind = s.pick(kinds);
    bool margin = kind == "margin", sum = kind == "powersum";
    size_t n = s.i(1, 6);
    std::vector<In> ins;
    std::vector<conf::SensorInput> conf;
    for (size_t i = 0; i < n; ++i)
    {
        In in{"s" + std::to_string(i), s.b(35), s.q(60, 120, 4)};
        if (!in.conv)
            in.zero = s.b(80) ? NaN : in.zero;
        ins.push_back(in);
        conf.push_back({in.name, in.zero, in.conv, s.b(20)});
    }
    double setpt = s.q(-20, 100, 4);
    ec::pidinfo p;
    p.ts = 1;
    p.proportionalCoeff = -1; // the output shows the input: out = in - setpt
    p.outLim = {-1e9, 1e9};
    p.integralLimit = {0, 0};
    FakeZone z;
    auto ctl = ThermalController::createThermalPid(&z, "therm", conf, setpt, p,
                                                   getThermalType(kind));
    int steps = static_cast<int>(s.i(1, 6));
    for (int k = 0; k < steps; ++k)
    {
        double want = 0;
        bool any = false, differs = false;
        std::ostringstream d;
        std::vector<double> used;
        for (auto& in : ins)
        {
            double v;
            switch (s.w({12, 3, 1, 1}))
            {
                case 0:
                    v = s.q(-50, 130, 8);
                    break;
                case 1:
                    v = NaN;
                    break;
                case 2:
                    v = s.b(50) ? Inf : -Inf;
                    break;
                default:
                    v = s.q(-20000, 20000, 1);
            }
            z.cache[in.name] = {v, s.q(0, 5, 1)};
            d << in.name << "=" << v << (in.conv ? "~" : " ") << in.zero << " ";
            if (!std::isfinite(v))
                continue;
            if (margin && in.conv)
                v = in.zero - v;
            used.push_back(v);
            if (!any)
                want = v;
            else if (sum)
                want += v;
            else
                want = margin ? std::min(want, v) : std::max(want, v);
            any = true;
        }
        if (!any)
        {
            want = setpt;
            c.label("no readable input");
        }
        for (double v : used)
            differs = differs || v != want;
        z.setpoints.clear();
        z.dbg.clear();
        ctl->process();
        pbt::require(z.setpoints.size() == 1 && z.setpoints[0].second == "therm",
                     "expected exactly one set point request");
        double got = z.setpoints[0].first + setpt;
        c.note(kind, " ", d.str(), " -> ", got);
        pbt::require(pbt::close(got, want, 1e-9, 1e-9), kind, " of ", d.str(), "gave ",
                     got, " want ", want);
        c.nontrivial(n > 1 && any && differs);
        c.label(kind);
    }
}

PBT(kind_names, 2000, 20000, "always")
{
    static const std::vector<std::string> others = {
        "fan", "stepwise", "", "Temp", "margins", "powersums", "temp ", "pwm", "absolute"};
    if (s.b(50))
    {
        auto k = s.pick(kinds);
        pbt::require(isThermalType(k), k, " must be a thermal kind");
        auto t = getThermalType(k);
        auto want = k == "margin" ? ThermalType::margin
                    : k == "powersum" ? ThermalType::summation
                                      : ThermalType::absolute;
        pbt::require(t == want, k, " maps to the wrong computation");
        c.note(k);
    }
    else
    {
        std::string k = s.pick(others);
        pbt::require(!isThermalType(k), "'", k, "' must not be a thermal kind");
        bool threw = false;
        try
        {
            getThermalType(k);
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        pbt::require(threw, "'", k, "' was accepted as a thermal kind");
        c.note("bad kind '", k, "'");
    }
    c.nontrivial();
}

PBT(bad_construction, 2000, 20000, "always")
{
    FakeZone z;
    ec::pidinfo p;
    p.ts = 1;
    bool threw = false;
    if (s.b(40))
    {
        try
        {
            ThermalController::createThermalPid(&z, "t", {}, 1, p, getThermalType(s.pick(kinds)));
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        pbt::require(threw, "a thermal controller without inputs was accepted");
    }
    else
    {
        // a conversion without a usable reference is refused when first used
        double bad = s.b(50) ? NaN : Inf;
        auto ctl = ThermalController::createThermalPid(
            &z, "t", {conf::SensorInput{"s0", bad, true, false}}, 1, p, ThermalType::margin);
        z.cache["s0"] = {s.q(0, 90, 1), 0};
        try
        {
            ctl->process();
        }
        catch (const std::exception&)
        {
            threw = true;
        }
        pbt::require(threw, "margin conversion without a reference was accepted");
    }
    c.note("rejected");
    c.nontrivial();
}
