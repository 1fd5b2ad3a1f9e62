#include "sim/simbus.hpp"

#include <algorithm>

namespace sim
{
Fabric& fabric()
{
    // never destroyed: static objects of the code under test outlive main
    static Fabric* f = new Fabric;
    return *f;
}

bool validPath(const std::string& p)
{
    if (p.empty() || p[0] != '/')
        return false;
    if (p == "/")
        return true;
    if (p.back() == '/')
        return false;
    for (size_t i = 0; i < p.size(); ++i)
    {
        char c = p[i];
        bool alnum = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') ||
                     (c >= '0' && c <= '9') || c == '_';
        if (c == '/')
        {
            if (i + 1 < p.size() && p[i + 1] == '/')
                return false;
        }
        else if (!alnum)
            return false;
    }
    return true;
}

Rule parseRule(const std::string& s)
{
    Rule r;
    size_t i = 0;
    while (i < s.size())
    {
        while (i < s.size() && (s[i] == ',' || s[i] == ' '))
            ++i;
        auto eq = s.find('=', i);
        if (eq == std::string::npos)
            break;
        auto key = s.substr(i, eq - i);
        auto q = s.find('\'', eq);
        if (q == std::string::npos)
            break;
        auto e = s.find('\'', q + 1);
        if (e == std::string::npos)
            break;
        r.kv[key] = s.substr(q + 1, e - q - 1);
        i = e + 1;
    }
    return r;
}

static bool nsMatch(const std::string& ns, const std::string& v)
{
    return v == ns || (v.size() > ns.size() && v.compare(0, ns.size(), ns) == 0 &&
                       v[ns.size()] == '.');
}
static bool pathNsMatch(const std::string& ns, const std::string& v)
{
    return ns == "/" || v == ns ||
           (v.size() > ns.size() && v.compare(0, ns.size(), ns) == 0 &&
            v[ns.size()] == '/');
}
// D-Bus argNpath: equal, or either one ends in '/' and is a prefix.
static bool argPathMatch(const std::string& pat, const std::string& v)
{
    if (pat == v)
        return true;
    if (!pat.empty() && pat.back() == '/' && v.compare(0, pat.size(), pat) == 0)
        return true;
    if (!v.empty() && v.back() == '/' && pat.compare(0, v.size(), v) == 0)
        return true;
    return false;
}

bool ruleMatches(const Rule& r, const Msg& m)
{
    auto strArg = [&](size_t n) -> const std::string* {
        if (n >= m.body.size() ||
            (m.body[n].sig != "s" && m.body[n].sig != "o"))
            return nullptr;
        return &m.body[n].s;
    };
    for (auto& [k, v] : r.kv)
    {
        if (k == "type")
        {
            if (v != "signal" || m.type != MType::signal)
                return false;
        }
        else if (k == "member")
        {
            if (m.member != v)
                return false;
        }
        else if (k == "interface")
        {
            if (m.iface != v)
                return false;
        }
        else if (k == "path")
        {
            if (m.path != v)
                return false;
        }
        else if (k == "path_namespace")
        {
            if (!pathNsMatch(v, m.path))
                return false;
        }
        else if (k == "sender")
        {
            if (m.sender != v)
                return false;
        }
        else if (k == "arg0namespace")
        {
            auto a = strArg(0);
            if (!a || m.body[0].sig != "s" || !nsMatch(v, *a))
                return false;
        }
        else if (k.compare(0, 3, "arg") == 0 && k.size() > 3)
        {
            size_t n = std::strtoul(k.c_str() + 3, nullptr, 10);
            auto a = strArg(n);
            if (!a)
                return false;
            if (k.size() > 4 && k.compare(k.size() - 4, 4, "path") == 0)
            {
                if (!argPathMatch(v, *a))
                    return false;
            }
            else if (m.body[n].sig != "s" || *a != v)
                return false;
        }
        else if (k != "eavesdrop" && k != "destination")
            return false;
    }
    return true;
}

uint64_t Fabric::addMatch(const std::string& rule, std::function<void(Msg*)> fn)
{
    MatchReg m;
    m.id = nextMatch++;
    m.rule = parseRule(rule);
    m.fn = std::move(fn);
    matches.push_back(std::move(m));
    return matches.back().id;
}
void Fabric::delMatch(uint64_t id)
{
    for (auto it = matches.begin(); it != matches.end(); ++it)
        if (it->id == id)
        {
            matches.erase(it);
            return;
        }
}

void Fabric::emit(Msg& m)
{
    m.type = MType::signal;
    std::vector<uint64_t> ids;
    for (auto& x : matches)
        if (ruleMatches(x.rule, m))
            ids.push_back(x.id);
    for (auto id : ids)
    {
        auto it = std::find_if(matches.begin(), matches.end(),
                               [&](auto& x) { return x.id == id; });
        if (it == matches.end())
            continue;
        auto fn = it->fn;
        m.rpos = 0;
        m.refs += 1; // owned by the caller
        fn(&m);
        m.refs -= 1;
    }
}

Reply Fabric::callLocal(Msg& m)
{
    auto o = objects.find(m.path);
    if (o == objects.end())
        return fail("org.freedesktop.DBus.Error.UnknownObject", m.path);
    if (m.iface != "org.freedesktop.DBus.Properties")
        return fail("org.freedesktop.DBus.Error.UnknownMethod", m.member);
    if (m.body.empty() || m.body[0].sig != "s")
        return fail("org.freedesktop.DBus.Error.InvalidArgs", "interface");
    auto i = o->second.find(m.body[0].s);
    if (i == o->second.end())
        return fail("org.freedesktop.DBus.Error.UnknownInterface", m.body[0].s);
    Reply r;
    if (m.member == "GetAll")
    {
        Val a;
        a.sig = "a{sv}";
        for (auto& [n, acc] : i->second.props)
        {
            Val de;
            de.sig = "{sv}";
            de.kids.push_back(mk(n));
            de.kids.push_back(mkVariant(acc.get()));
            a.kids.push_back(std::move(de));
        }
        r.body.push_back(std::move(a));
        return r;
    }
    if (m.body.size() < 2 || m.body[1].sig != "s")
        return fail("org.freedesktop.DBus.Error.InvalidArgs", "property");
    auto p = i->second.props.find(m.body[1].s);
    if (p == i->second.props.end())
        return fail("org.freedesktop.DBus.Error.UnknownProperty", m.body[1].s);
    if (m.member == "Get")
    {
        r.body.push_back(mkVariant(p->second.get()));
        return r;
    }
    if (m.member == "Set")
    {
        if (m.body.size() < 3 || m.body[2].sig != "v")
            return fail("org.freedesktop.DBus.Error.InvalidArgs", "value");
        if (!p->second.set)
            return fail("org.freedesktop.DBus.Error.PropertyReadOnly", "");
        if (!p->second.set(m.body[2].kids[0]))
            return fail("org.freedesktop.DBus.Error.InvalidArgs", "type");
        return r;
    }
    return fail("org.freedesktop.DBus.Error.UnknownMethod", m.member);
}

Reply Fabric::call(Msg& m)
{
    ++calls;
    if (onCall)
        return onCall(m);
    if (ownedNames.count(m.dest))
        return callLocal(m);
    return fail("org.freedesktop.DBus.Error.ServiceUnknown", m.dest);
}

void Fabric::reset()
{
    onCall = nullptr;
    onChanged = nullptr;
    onObject = nullptr;
    ownedNames.clear();
    calls = 0;
}

Msg mkCall(const std::string& dest, const std::string& path,
           const std::string& iface, const std::string& member,
           std::vector<Val> body)
{
    Msg m;
    m.type = MType::call;
    m.sender = ":1.99";
    m.dest = dest;
    m.path = path;
    m.iface = iface;
    m.member = member;
    m.body = std::move(body);
    return m;
}
Msg mkSignal(const std::string& sender, const std::string& path,
             const std::string& iface, const std::string& member,
             std::vector<Val> body)
{
    Msg m = mkCall("", path, iface, member, std::move(body));
    m.type = MType::signal;
    m.sender = sender;
    return m;
}
Msg mkPropsChanged(const std::string& sender, const std::string& path,
                   const std::string& iface,
                   const std::vector<std::pair<std::string, Val>>& props)
{
    Val a;
    a.sig = "a{sv}";
    for (auto& [n, v] : props)
    {
        Val de;
        de.sig = "{sv}";
        de.kids.push_back(mk(n));
        de.kids.push_back(v.sig == "v" ? v : mkVariant(v));
        a.kids.push_back(std::move(de));
    }
    return mkSignal(sender, path, "org.freedesktop.DBus.Properties",
                    "PropertiesChanged",
                    {mk(iface), a, mk(std::vector<std::string>{})});
}
Reply setProp(const std::string& dest, const std::string& path,
              const std::string& iface, const std::string& prop, Val v)
{
    auto m = mkCall(dest, path, "org.freedesktop.DBus.Properties", "Set",
                    {mk(iface), mk(prop), v.sig == "v" ? v : mkVariant(v)});
    if (!fabric().ownedNames.count(dest))
        return fail("org.freedesktop.DBus.Error.ServiceUnknown", dest);
    return fabric().callLocal(m);
}
std::optional<Val> getProp(const std::string& dest, const std::string& path,
                           const std::string& iface, const std::string& prop)
{
    auto m = mkCall(dest, path, "org.freedesktop.DBus.Properties", "Get",
                    {mk(iface), mk(prop)});
    if (!fabric().ownedNames.count(dest))
        return std::nullopt;
    auto r = fabric().callLocal(m);
    if (!r.ok)
        return std::nullopt;
    return r.body.at(0).kids.at(0);
}
} // namespace sim

namespace sdbusplus::bus
{
message_t bus::doCall(message_t& m, bool noreply)
{
    auto* q = m.impl();
    q->noreply = noreply;
    q->rpos = 0;
    sim::Reply r = sim::fabric().call(*q);
    if (!r.ok)
    {
        // a no-reply call only learns of errors in sending it
        if (noreply && r.errName != "local.send")
            return message_t();
        throw exception::SdBusError(r.errName, r.errMsg);
    }
    auto* p = new sim::Msg;
    p->type = sim::MType::reply;
    p->sender = q->dest;
    p->body = std::move(r.body);
    return message_t::adopt(p);
}
} // namespace sdbusplus::bus
