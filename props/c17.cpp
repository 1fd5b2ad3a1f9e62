// C17: a malformed configuration is rejected, never a crash.
#include "buildjson/buildjson.hpp"
#include "errors/exception.hpp"
#include "jsonconf.hpp"
#include "pid/buildjson.hpp"
#include "sensors/buildjson.hpp"

using namespace jc;

namespace
{
enum class End
{
    accepted,
    configuration, // reported as a ConfigurationException
    other          // another standard exception
};
struct Outcome
{
    End end = End::accepted;
    std::string what;
    size_t nsensors = 0, nzones = 0;
};
Outcome load(const std::string& path)
{
    Outcome o;
    try
    {
        auto data = parseValidateJson(path);
        auto sensors = pid_control::buildSensorsFromJson(data);
        auto [pids, zones] = pid_control::buildPIDsFromJson(data);
        o.nsensors = sensors.size();
        o.nzones = zones.size();
        pbt::require(pids.size() == zones.size(), "zones and their controllers disagree: ", pids.size(), " vs ", zones.size());
        for (auto& [id, z] : zones)
            pbt::require(z.cycleTime.cycleIntervalTimeMS >= 1 && z.cycleTime.updateThermalsTimeMS >= 1, "zone ", id,
                         " built with a cycle time of zero");
    }
    catch (const pbt::Failure&)
    {
        throw;
    }
    catch (const ConfigurationException& e)
    {
        o.end = End::configuration;
        o.what = e.what();
    }
    catch (const std::exception& e)
    {
        o.end = End::other;
        o.what = e.what();
    }
    return o;
}
using J = ojson;
// Every member of every object, and every element, as a pointer.
void walk(const J& j, const J::json_pointer& at, std::vector<J::json_pointer>& out)
{
    if (j.is_object())
        for (auto& [k, v] : j.items())
        {
            out.push_back(at / k);
            walk(v, at / k, out);
        }
    else if (j.is_array())
        for (size_t k = 0; k < j.size(); ++k)
        {
            out.push_back(at / k);
            walk(j[k], at / k, out);
        }
}
J junk(pbt::Src& s)
{
    switch (s.w({3, 2, 2, 2, 2, 2, 2, 1, 1}))
    {
        case 0: return nullptr;
        case 1: return "str";
        case 2: return J::array();
        case 3: return J::object();
        case 4: return true;
        case 5: return s.q(-100, 100, 3);
        case 6: return s.pick(std::vector<double>{-1, 0, 1e300, -1e300, 9.3e18, 5e-324});
        case 7: return J::array({"a", 1, J::object()});
        default: return J::object({{"name", "n"}, {"0", "z"}});
    }
}
const std::set<std::string> needSensor{"name", "type", "readPath"}, needZone{"id", "minThermalOutput", "failsafePercent", "pids"},
    needCtl{"name", "type", "inputs", "setpoint", "pid"},
    needPid{"samplePeriod", "proportionalCoeff", "integralCoeff", "feedFwdOffsetCoeff", "feedFwdGainCoeff", "integralLimit_min",
            "integralLimit_max", "outLim_min", "outLim_max", "slewNeg", "slewPos"},
    needStep{"samplePeriod", "isCeiling"};
const std::set<std::string> numeric{"min",           "max",          "timeout",        "id",          "minThermalOutput", "failsafePercent",
                                    "setpoint",      "samplePeriod", "proportionalCoeff", "integralCoeff", "feedFwdOffsetCoeff",
                                    "feedFwdGainCoeff", "integralLimit_min", "integralLimit_max", "outLim_min", "outLim_max", "slewNeg",
                                    "slewPos",       "positiveHysteresis", "negativeHysteresis", "derivativeCoeff", "FailSafePercent",
                                    "cycleIntervalTimeMS", "updateThermalsTimeMS"};
const std::set<std::string> stringly{"name", "type", "readPath", "writePath"};
const std::set<std::string> boolean{"ignoreDbusMinMax", "unavailableAsFailed", "ignoreFailIfHostOff", "accumulateSetPoint", "isCeiling",
                                    "checkHysteresisWithSetpoint"};

struct Site
{
    std::string kind; // sensor zone ctl pid step
    J::json_pointer at;
    std::string key;
};
// The members with a documented meaning, by kind of their object.
std::vector<Site> sites(const J& d)
{
    std::vector<Site> r;
    auto members = [&](const J& o, const J::json_pointer& p, const std::string& kind) {
        for (auto& [k, v] : o.items())
            r.push_back({kind, p / k, k});
    };
    J::json_pointer root;
    for (size_t k = 0; k < d["sensors"].size(); ++k)
        members(d["sensors"][k], root / "sensors" / k, "sensor");
    for (size_t k = 0; k < d["zones"].size(); ++k)
    {
        auto& z = d["zones"][k];
        members(z, root / "zones" / k, "zone");
        for (size_t m = 0; m < z["pids"].size(); ++m)
        {
            auto& p = z["pids"][m];
            auto at = root / "zones" / k / "pids" / m;
            members(p, at, "ctl");
            members(p["pid"], at / "pid", p["type"] == "stepwise" ? "step" : "pid");
        }
    }
    return r;
}
bool needed(const Site& x)
{
    auto& k = x.key;
    return x.kind == "sensor" ? needSensor.count(k) : x.kind == "zone" ? needZone.count(k)
           : x.kind == "ctl" ? needCtl.count(k)
           : x.kind == "pid" ? needPid.count(k)
                             : needStep.count(k);
}
bool meaningful(const Site& x)
{
    auto& k = x.key;
    auto in = [&](std::initializer_list<const char*> l) { return std::find(l.begin(), l.end(), k) != l.end(); };
    if (needed(x))
        return true;
    if (x.kind == "sensor")
        return in({"writePath", "ignoreDbusMinMax", "unavailableAsFailed", "ignoreFailIfHostOff", "timeout"});
    if (x.kind == "zone")
        return in({"cycleIntervalTimeMS", "updateThermalsTimeMS", "accumulateSetPoint"});
    if (x.kind == "ctl")
        return in({"tempToMargin", "missingIsAcceptable", "FailSafePercent"});
    return in({"positiveHysteresis", "negativeHysteresis", "derivativeCoeff", "checkHysteresisWithSetpoint"});
}
void erase(J& d, const J::json_pointer& p)
{
    auto& parent = d[p.parent_pointer()];
    if (parent.is_object())
        parent.erase(p.back());
    else
        parent.erase(parent.begin() + std::stoul(p.back()));
}
} // namespace

PBT(required, 9000, 400000, "a key was removed or given a value of a type it cannot have")
{
    Conf conf = genConf(s);
    J doc = render(s, conf);
    std::string path = pbt::scratch() + "/c.json";
    auto all = sites(doc);
    Site x = s.pick(all);
    bool drop = s.b(50);
    if (drop)
        erase(doc, x.at);
    else
    {
        if (!meaningful(x))
        {
            c.label("other key, other type");
            doc[x.at] = junk(s);
        }
        else if (stringly.count(x.key))
            doc[x.at] = s.pick(std::vector<J>{1, nullptr, true, J::array(), J::object(), 2.5});
        else if (numeric.count(x.key))
            doc[x.at] = s.pick(std::vector<J>{"10", nullptr, J::array({1}), J::object()});
        else if (boolean.count(x.key))
            doc[x.at] = s.pick(std::vector<J>{"true", nullptr, 1, J::array(), 0});
        else
            doc[x.at] = s.pick(std::vector<J>{1, "str", true});
    }
    c.note(drop ? "removed " : "retyped ", x.at.to_string(), "\n", doc.dump());
    write(path, doc.dump());
    auto o = load(path);
    c.label(std::string(drop ? "removed " : "retyped ") + (needed(x) ? "required" : "optional") + (o.end == End::accepted ? ": accepted" : ": rejected"));
    c.nontrivial();
    if (drop && needed(x))
        pbt::require(o.end != End::accepted, "accepted without ", x.at.to_string());
    if (drop && !needed(x))
        pbt::require(o.end == End::accepted, "rejected without optional ", x.at.to_string(), ": ", o.what);
    if (!drop && meaningful(x))
        pbt::require(o.end != End::accepted, "accepted with ", x.at.to_string(), " = ", doc[x.at].dump());
    if (drop && x.kind == "zone" && x.key == "pids")
        pbt::require(o.end == End::configuration, "zone without pids reported as ", o.what);
    if (o.end == End::accepted)
        pbt::require(o.nsensors == conf.sensors.size() && o.nzones == conf.zones.size(), "built ", o.nsensors, " sensors and ", o.nzones, " zones");
}

PBT(sections, 5000, 200000, "a section the daemon cannot do without was missing or empty")
{
    Conf conf = genConf(s);
    J doc = render(s, conf);
    std::string path = pbt::scratch() + "/c.json";
    switch (s.w({1, 1, 1, 2, 2, 1, 1}))
    {
        case 0: doc.erase("sensors"); break;
        case 1: doc.erase("zones"); break;
        case 2: doc["sensors"] = J::array(); break;
        case 3:
            if (conf.zones.empty())
                throw pbt::Discard("no zone");
            doc["zones"][s.draw(doc["zones"].size())]["pids"] = J::array();
            break;
        case 4:
            if (conf.zones.empty())
                throw pbt::Discard("no zone");
            doc["zones"][s.draw(doc["zones"].size())].erase("pids");
            break;
        case 5: doc = s.pick(std::vector<J>{nullptr, 1, "x", J::array(), J::object(), J::array({doc})}); break;
        default: doc["sensors"] = nullptr;
    }
    c.nontrivial();
    c.note(doc.dump());
    write(path, doc.dump());
    auto o = load(path);
    pbt::require(o.end == End::configuration, "not reported as a configuration error: ", o.end == End::accepted ? "accepted" : o.what);
    if (s.b(5))
    {
        auto n = load(path + ".absent");
        pbt::require(n.end == End::configuration, "missing file not reported as a configuration error");
    }
}

PBT(mutated, 16000, 1500000, "the document was rejected after mutation of its structure or bytes")
{
    Conf conf = genConf(s);
    J doc = render(s, conf);
    std::string path = pbt::scratch() + "/c.json", text;
    if (s.b(60))
    {
        int n = static_cast<int>(s.i(1, 4));
        for (int k = 0; k < n; ++k)
        {
            std::vector<J::json_pointer> ps;
            walk(doc, J::json_pointer(), ps);
            if (ps.empty())
                break;
            auto p = s.pick(ps);
            switch (s.w({4, 3, 2, 1}))
            {
                case 0: doc[p] = junk(s); break;
                case 1: erase(doc, p); break;
                case 2: doc[p] = J(doc[s.pick(ps)]); break;
                default: doc[p] = J::array({J(doc[p]), J(doc[p])});
            }
        }
        text = doc.dump();
        c.label("structure");
    }
    else
    {
        text = doc.dump(s.b(50) ? -1 : 1);
        int n = static_cast<int>(s.i(1, 3));
        for (int k = 0; k < n && !text.empty(); ++k)
        {
            size_t p = s.draw(text.size());
            switch (s.w({3, 3, 2, 1, 1}))
            {
                case 0: text.resize(p); break;
                case 1: text[p] = "{}[]\",:0-.eEnt\\ \x00\xff"[s.draw(18)]; break;
                case 2: text.erase(p, s.i(1, 8)); break;
                case 3: text.insert(p, std::string(s.i(1, 2000), s.b(50) ? '[' : '{')); break;
                default: text.insert(p, s.pick(std::vector<std::string>{"null", "\"", "1e999", "-", "//", "\xef\xbb\xbf", "1e400,"}));
            }
        }
        c.label("bytes");
    }
    c.note(text);
    write(path, text);
    auto o = load(path);
    c.label(o.end == End::accepted ? "accepted" : "rejected");
    c.nontrivial(o.end != End::accepted);
    bool valid = J::accept(text);
    if (!valid)
        pbt::require(o.end == End::configuration, "text that is not JSON: ", o.end == End::accepted ? "accepted" : o.what);
    // Nothing invented: no more of anything than the document holds.
    if (o.end == End::accepted)
    {
        auto d = J::parse(text);
        pbt::require(o.nsensors <= d["sensors"].size() && o.nzones <= d["zones"].size(), "built more than the document holds");
    }
}
