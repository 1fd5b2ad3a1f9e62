// The rest of the system on the fake bus: services that own objects with
// properties, the object mapper, and faults in their answers.
#pragma once
#include <algorithm>
#include "engine.hpp"
#include "sim/simbus.hpp"

#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace bw
{
using sim::mk;
using sim::mkv;
using sim::Msg;
using sim::Reply;
using sim::Val;

inline const std::string PROPS = "org.freedesktop.DBus.Properties";
inline const std::string MAPPER = "xyz.openbmc_project.ObjectMapper";
inline const std::string VALUE = "xyz.openbmc_project.Sensor.Value";
inline const std::string CRIT = "xyz.openbmc_project.Sensor.Threshold.Critical";
inline const std::string WARN = "xyz.openbmc_project.Sensor.Threshold.Warning";
inline const std::string AVAIL = "xyz.openbmc_project.State.Decorator.Availability";
inline const std::string OPSTAT = "xyz.openbmc_project.State.Decorator.OperationalStatus";
inline const std::string FANPWM = "xyz.openbmc_project.Control.FanPwm";
inline const std::string FANRED = "xyz.openbmc_project.Control.FanRedundancy";

struct Obj
{
    std::string service;
    std::map<std::string, std::map<std::string, Val>> ifaces;
};

struct World
{
    std::map<std::string, Obj> objs;
    struct Set
    {
        std::string service, path, iface, prop;
        Val value; // the variant's content
        bool ok;
    };
    std::vector<Set> sets;
    std::map<std::string, std::string> unique; // unique name -> service
    // Faults: called for every call to the outside; an answer here replaces
    // the regular one.
    std::function<std::optional<Reply>(Msg&)> fault;
    // Called when an answer is on its way.
    std::function<void(Msg&)> after;

    Obj& add(const std::string& path, const std::string& service)
    {
        auto& o = objs[path];
        o.service = service;
        return o;
    }
    void install()
    {
        sim::fabric().onCall = [this](Msg& m) {
            auto r = call(m);
            if (after)
                after(m);
            return r;
        };
    }
    static Val props(const std::map<std::string, Val>& ps)
    {
        Val a;
        a.sig = "a{sv}";
        for (auto& [n, v] : ps)
        {
            Val de;
            de.sig = "{sv}";
            de.kids.push_back(mk(n));
            de.kids.push_back(v.sig == "v" ? v : sim::mkVariant(v));
            a.kids.push_back(std::move(de));
        }
        return a;
    }
    Reply mapper(Msg& m)
    {
        Reply r;
        if (m.member == "GetObject")
        {
            auto path = m.body.at(0).s;
            std::set<std::string> want;
            for (auto& k : m.body.at(1).kids)
                want.insert(k.s);
            auto it = objs.find(path);
            std::vector<std::string> have;
            if (it != objs.end())
                for (auto& [i, _] : it->second.ifaces)
                    if (want.empty() || want.count(i))
                        have.push_back(i);
            if (have.empty())
                return sim::fail("xyz.openbmc_project.Common.Error.ResourceNotFound", path);
            r.body.push_back(mk(std::map<std::string, std::vector<std::string>>{{it->second.service, have}}));
            return r;
        }
        if (m.member == "GetSubTree" || m.member == "GetSubTreePaths")
        {
            auto root = m.body.at(0).s;
            std::set<std::string> want;
            for (auto& k : m.body.at(2).kids)
                want.insert(k.s);
            std::map<std::string, std::map<std::string, std::vector<std::string>>> out;
            std::vector<std::string> paths;
            for (auto& [p, o] : objs)
            {
                if (root != "/" && p != root && p.compare(0, root.size() + 1, root + "/") != 0)
                    continue;
                auto& dv = m.body.at(1); // 0: any depth
                auto depth = dv.sig == "u" || dv.sig == "t" ? static_cast<int64_t>(dv.u) : dv.i;
                if (depth > 0 && std::count(p.begin() + static_cast<long>(root == "/" ? 0 : root.size()), p.end(), '/') > depth)
                    continue;
                std::vector<std::string> have;
                bool hit = want.empty();
                for (auto& [i, _] : o.ifaces)
                {
                    have.push_back(i);
                    hit = hit || want.count(i);
                }
                if (hit)
                {
                    out[p][o.service] = have;
                    paths.push_back(p);
                }
            }
            if (m.member == "GetSubTree")
                r.body.push_back(mk(out));
            else
                r.body.push_back(mk(paths));
            return r;
        }
        return sim::fail("org.freedesktop.DBus.Error.UnknownMethod", m.member);
    }
    Reply call(Msg& m)
    {
        if (sim::fabric().ownedNames.count(m.dest))
            return sim::fabric().callLocal(m);
        if (fault)
            if (auto f = fault(m))
                return *f;
        if (m.dest == MAPPER)
            return mapper(m);
        auto it = objs.find(m.path);
        auto un = unique.find(m.dest);
        const std::string& dest = un == unique.end() ? m.dest : un->second;
        if (it == objs.end() || it->second.service != dest)
            return sim::fail("org.freedesktop.DBus.Error.UnknownObject", m.path);
        if (m.iface == "org.freedesktop.DBus.ObjectManager" && m.member == "GetManagedObjects")
            return sim::fail("org.freedesktop.DBus.Error.UnknownMethod", m.member);
        if (m.iface != PROPS || m.body.empty() || m.body[0].sig != "s")
            return sim::fail("org.freedesktop.DBus.Error.UnknownMethod", m.member);
        auto i = it->second.ifaces.find(m.body[0].s);
        if (i == it->second.ifaces.end())
            return sim::fail("org.freedesktop.DBus.Error.UnknownInterface", m.body[0].s);
        Reply r;
        if (m.member == "GetAll")
        {
            r.body.push_back(props(i->second));
            return r;
        }
        auto p = i->second.find(m.body.at(1).s);
        if (p == i->second.end())
            return sim::fail("org.freedesktop.DBus.Error.UnknownProperty", m.body[1].s);
        if (m.member == "Get")
        {
            r.body.push_back(p->second.sig == "v" ? p->second : sim::mkVariant(p->second));
            return r;
        }
        if (m.member == "Set")
        {
            const Val& v = m.body.at(2).sig == "v" ? m.body[2].kids.at(0) : m.body[2];
            if (v.sig != p->second.sig)
                return sim::fail("org.freedesktop.DBus.Error.InvalidArgs", "type");
            p->second = v;
            sets.push_back({m.dest, m.path, m.body[0].s, m.body[1].s, v, true});
            return r;
        }
        return sim::fail("org.freedesktop.DBus.Error.UnknownMethod", m.member);
    }
};

// A value as its publisher may represent it
inline Val num(pbt::Src& s, double v)
{
    if (v == static_cast<int64_t>(v) && s.b(40))
        return mk(static_cast<int64_t>(v));
    return mk(v);
}
} // namespace bw
