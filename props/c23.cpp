// C23: core logs record every change of the PID computation.
#include "pid/fancontroller.hpp"
#include "pid/thermalcontroller.hpp"
#include "pid/tuning.hpp"
#include "unit.hpp"
#include "vclock.hpp"

#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>

using namespace u;

namespace
{
struct Files
{
    Files()
    {
        rlimit r;
        getrlimit(RLIMIT_NOFILE, &r);
        r.rlim_cur = r.rlim_max;
        setrlimit(RLIMIT_NOFILE, &r);
    }
} files;
int serial = 0;

std::set<std::string> listing(const std::string& d)
{
    std::set<std::string> r;
    if (DIR* p = opendir(d.c_str()))
    {
        while (auto e = readdir(p))
            if (e->d_name[0] != '.')
                r.insert(e->d_name);
        closedir(p);
    }
    return r;
}
std::string clean(const std::string& n)
{
    std::string r;
    for (char ch : n)
        if ((ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z'))
            r += ch;
    return r;
}
std::vector<std::string> split(const std::string& l)
{
    std::vector<std::string> r;
    std::stringstream ss(l);
    std::string f;
    while (std::getline(ss, f, ','))
        r.push_back(f);
    if (!l.empty() && l.back() == ',')
        r.push_back("");
    return r;
}
using Row = std::map<std::string, double>;
struct Table
{
    std::vector<std::string> cols;
    std::vector<Row> rows;
};
Table table(const std::string& path)
{
    Table t;
    std::ifstream f(path);
    std::string l;
    pbt::require(static_cast<bool>(std::getline(f, l)), path, " is missing or empty");
    t.cols = split(l);
    std::set<std::string> uniq(t.cols.begin(), t.cols.end());
    pbt::require(uniq.size() == t.cols.size(), path, " has repeated columns: ", l);
    while (std::getline(f, l))
    {
        auto v = split(l);
        pbt::require(v.size() == t.cols.size(), path, " has ", v.size(), " fields under ", t.cols.size(), " columns: ", l);
        Row r;
        for (size_t k = 0; k < v.size(); ++k)
            r[t.cols[k]] = std::strtod(v[k].c_str(), nullptr);
        t.rows.push_back(r);
    }
    return t;
}
// printed with six significant digits
bool near(double a, double b)
{
    return pbt::close(a, b, 2e-5, 1e-9);
}

struct Unit
{
    std::string name;
    FakeZone z;
    ec::pidinfo cfg;
    RefCtl ref;
    std::unique_ptr<PIDController> pid;
    FakeZone shadowZone;
    std::unique_ptr<PIDController> shadow;
    bool logged = false;
    double setpt = 0;
    struct Exp
    {
        int64_t ms;
        Row must;
        bool required; // false: may or may not be there (values within rounding)
    };
    std::vector<Exp> rows;
    int inits = 0;
    int64_t lastMs = 0;
    Row last;
    bool any = false;
};
} // namespace

PBT(rows, 16000, 400000, "a controller's log had suppressed repeats or minute rows next to rows for changes")
{
    std::string dir = pbt::scratch() + "/log";
    mkdir(dir.c_str(), 0700);
    int64_t t0 = 1700000000000ll + s.i(0, 999);
    vclock::set(t0 * 1000000);
    loggingPath = dir;
    int id = serial++;
    std::vector<std::string> endings{"", " one", "_one", "-1", "1", "!", "AZ", "az", "Mm", "09"};
    std::vector<std::unique_ptr<Unit>> us;
    int n = static_cast<int>(s.i(1, 3));
    std::map<std::string, std::string> taken; // clean name -> name
    std::set<std::string> want;
    std::set<std::string> names;
    for (int k = 0; k < n; ++k)
    {
        auto x = std::make_unique<Unit>();
        x->name = s.b(6) ? s.pick(std::vector<std::string>{"", "!?", " "}) : "q" + std::to_string(id) + (s.b(30) ? " x" : "x") + s.pick(endings);
        if (!names.insert(x->name).second)
            continue;
        x->cfg = genPid(s, s.b(40));
        if (s.b(30))
        {
            // settles at once: repeats are common
            x->cfg.integralCoeff = 0;
            x->cfg.slewNeg = x->cfg.slewPos = 0;
        }
        x->ref.p.c = x->cfg;
        x->setpt = s.q(-50, 100, 4);
        us.push_back(std::move(x));
    }
    auto make = [&](Unit& x) {
        std::vector<conf::SensorInput> in{{"t0", NaN, false, false}};
        x.pid = ThermalController::createThermalPid(&x.z, x.name, in, x.setpt, x.cfg, ThermalType::absolute);
        x.shadow = ThermalController::createThermalPid(&x.shadowZone, x.name + "shadow", in, x.setpt, x.cfg, ThermalType::absolute);
        x.ref = RefCtl{};
        x.ref.p.c = x.cfg;
        x.any = false;
    };
    for (auto& x : us)
        make(*x);
    int steps = static_cast<int>(s.i(2, 16));
    bool suppressed = false, minute = false, changed = false;
    std::vector<double> in(us.size());
    for (auto& v : in)
        v = s.q(-50, 150, 4);
    for (int k = 0; k < steps; ++k)
    {
        int64_t dt = s.w({5, 2, 1, 1}) == 0 ? 100 * s.i(0, 20) : s.b(50) ? s.i(59990, 60010) : s.i(1, 59999);
        vclock::advance(dt * 1000000 + (s.b(30) ? s.i(0, 999999) : 0));
        for (size_t m = 0; m < us.size(); ++m)
        {
            auto& x = *us[m];
            if (s.b(3))
            {
                // rebuilt, as on a configuration change
                make(x);
                c.label("rebuilt");
            }
            if (s.b(35))
                in[m] += s.q(-20, 20, 8);
            x.z.cache["t0"] = x.shadowZone.cache["t0"] = {in[m], in[m]};
            x.z.setpoints.clear();
            x.shadowZone.setpoints.clear();
            int64_t ms = vclock::now() / 1000000;
            coreLoggingEnabled = true;
            x.pid->process();
            coreLoggingEnabled = false;
            x.shadow->process();
            double a = x.z.setpoints.at(0).first, b = x.shadowZone.setpoints.at(0).first;
            pbt::require(a == b || (std::isnan(a) && std::isnan(b)), "logging changed the output from ", b, " to ", a);
            // the reference
            double before = x.ref.p.integral;
            double prevOut = x.ref.p.lastOut, prevErr = x.ref.p.lastErr;
            bool wasStarted = x.ref.p.started;
            double useIn = in[m];
            double out = x.ref.step(in[m], x.setpt);
            bool calc = !(x.cfg.checkHysterWithSetpt && x.ref.how != RefCtl::ran);
            if (!x.cfg.checkHysterWithSetpt && (x.cfg.positiveHysteresis != 0 || x.cfg.negativeHysteresis != 0))
                useIn = x.ref.lastIn;
            if (!calc)
                continue;
            if (!wasStarted)
            {
                // first computation of this controller: its log opens
                std::string cl = clean(x.name);
                auto it = taken.find(cl);
                if (!cl.empty() && (it == taken.end() || it->second == x.name))
                {
                    taken[cl] = x.name;
                    x.logged = true;
                    want.insert("pidcore." + cl);
                    want.insert("pidcoeffs." + cl);
                    ++x.inits;
                }
                x.any = false;
            }
            if (!x.logged)
                continue;
            double err = x.setpt - useIn;
            Row r{{"input", useIn},
                  {"setpoint", x.setpt},
                  {"error", err},
                  {"proportionalTerm", x.cfg.proportionalCoeff * err},
                  {"integralTerm1", x.cfg.integralCoeff != 0 ? before + err * x.cfg.integralCoeff * x.cfg.ts : 0},
                  {"derivativeTerm", x.cfg.derivativeCoeff * ((err - prevErr) / x.cfg.ts)},
                  {"feedFwdTerm", (x.setpt + x.cfg.feedFwdOffset) * x.cfg.feedFwdGain},
                  {"minOut", wasStarted && x.cfg.slewNeg != 0 ? prevOut + x.cfg.slewNeg * x.cfg.ts : 0},
                  {"maxOut", wasStarted && x.cfg.slewPos != 0 ? prevOut + x.cfg.slewPos * x.cfg.ts : 0},
                  {"integralTerm", x.ref.p.integral},
                  {"output", out}};
            bool exact = x.any, hazy = x.any;
            if (x.any)
                for (auto& [key, v] : r)
                {
                    double o = x.last[key];
                    exact = exact && (o == v || (std::isnan(o) && std::isnan(v)));
                    hazy = hazy && pbt::close(o, v, 1e-9, 1e-9);
                }
            bool due = x.any && ms - x.lastMs >= 60000;
            if (x.any && !due && exact)
            {
                suppressed = true;
                // A repeat: it must not be logged.  Limits of the intermediate terms cannot differ when all of these agree.
                continue;
            }
            if (due && exact)
                minute = true;
            if (!exact)
                changed = true;
            x.rows.push_back({ms, r, !x.any || due || !hazy});
            x.any = true;
            x.lastMs = ms;
            x.last = r;
            if (hazy && !due && !exact)
                throw pbt::Discard("values within rounding of each other");
        }
    }
    c.nontrivial((suppressed || minute) && changed);
    if (suppressed)
        c.label("repeat suppressed");
    if (minute)
        c.label("row after a minute");

    auto have = listing(dir);
    for (auto& f : have)
        pbt::require(want.count(f), "unexpected file ", f);
    for (auto& f : want)
        pbt::require(have.count(f), "file ", f, " was not created");
    for (auto& x : us)
    {
        if (!x->logged)
            continue;
        c.note(x->name, " ", x->cfg, " rows ", x->rows.size());
        auto t = table(dir + "/pidcore." + clean(x->name));
        for (size_t k = 0; k < std::max(t.rows.size(), x->rows.size()); ++k)
        {
            pbt::require(k < t.rows.size(), x->name, ": the row due at ", k < x->rows.size() ? x->rows[k].ms : 0, " is missing");
            pbt::require(k < x->rows.size(), x->name, ": an extra row at ", static_cast<int64_t>(t.rows[k].at("epoch_ms")));
            pbt::require(static_cast<int64_t>(t.rows[k].at("epoch_ms")) == x->rows[k].ms, x->name, ": row ", k, " has time ",
                         static_cast<int64_t>(t.rows[k].at("epoch_ms")), " instead of ", x->rows[k].ms);
            for (auto& [key, v] : x->rows[k].must)
            {
                auto it = t.rows[k].find(key);
                pbt::require(it != t.rows[k].end(), "no column ", key);
                pbt::require(near(it->second, v), x->name, ": row ", k, " has ", key, " ", it->second, " instead of ", v);
            }
        }
        auto f = table(dir + "/pidcoeffs." + clean(x->name));
        pbt::require(static_cast<int>(f.rows.size()) == x->inits, x->name, ": ", f.rows.size(), " rows of coefficients for ", x->inits,
                     " initializations");
        Row co{{"ts", x->cfg.ts},
               {"proportionalCoeff", x->cfg.proportionalCoeff},
               {"integralCoeff", x->cfg.integralCoeff},
               {"derivativeCoeff", x->cfg.derivativeCoeff},
               {"feedFwdOffset", x->cfg.feedFwdOffset},
               {"feedFwdGain", x->cfg.feedFwdGain},
               {"integralLimit.min", x->cfg.integralLimit.min},
               {"integralLimit.max", x->cfg.integralLimit.max},
               {"outLim.min", x->cfg.outLim.min},
               {"outLim.max", x->cfg.outLim.max},
               {"slewNeg", x->cfg.slewNeg},
               {"slewPos", x->cfg.slewPos},
               {"positiveHysteresis", x->cfg.positiveHysteresis},
               {"negativeHysteresis", x->cfg.negativeHysteresis}};
        for (auto& r : f.rows)
            for (auto& [key, v] : co)
            {
                pbt::require(r.count(key), "no column ", key);
                pbt::require(near(r.at(key), v), x->name, ": coefficient ", key, " is ", r.at(key), " instead of ", v);
            }
    }
    for (auto& f : have)
        unlink((dir + "/" + f).c_str());
}
