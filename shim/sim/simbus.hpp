// In-process stand-in for sd-bus / sdbusplus.  It carries dynamically typed
// values with D-Bus signatures between the code under test and a scripted
// outside world (sim::World), with fault injection on every method call.
#pragma once
#include <systemd/sd-bus.h>

#include <array>
#include <cstdint>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <limits>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

namespace sdbusplus
{
namespace exception
{
class exception : public std::exception
{
  public:
    virtual const char* name() const noexcept = 0;
    virtual const char* description() const noexcept = 0;
    virtual int get_errno() const noexcept
    {
        return 5;
    }
};
class SdBusError : public exception
{
  public:
    SdBusError(const std::string& n, const std::string& d) :
        n(n), d(d), w(n + ": " + d)
    {}
    SdBusError(int err, const char* d) :
        n("org.freedesktop.DBus.Error.Failed"), d(d), w(n + ": " + d), e(err)
    {}
    const char* name() const noexcept override
    {
        return n.c_str();
    }
    const char* description() const noexcept override
    {
        return d.c_str();
    }
    const char* what() const noexcept override
    {
        return w.c_str();
    }
    int get_errno() const noexcept override
    {
        return e;
    }

  private:
    std::string n, d, w;
    int e = 5;
};
} // namespace exception
using exception_t = exception::exception;

namespace message
{
struct object_path
{
    std::string str;
    object_path() = default;
    object_path(const std::string& s) : str(s) {}
    object_path(std::string&& s) : str(std::move(s)) {}
    object_path(const char* s) : str(s) {}
    operator const std::string&() const
    {
        return str;
    }
    std::string filename() const
    {
        auto p = str.find_last_of('/');
        return p == std::string::npos ? "" : str.substr(p + 1);
    }
    std::string parent_path() const
    {
        auto p = str.find_last_of('/');
        return (p == std::string::npos || p == 0) ? "/" : str.substr(0, p);
    }
    friend bool operator==(const object_path& a, const object_path& b)
    {
        return a.str == b.str;
    }
    friend bool operator<(const object_path& a, const object_path& b)
    {
        return a.str < b.str;
    }
};
struct signature
{
    std::string str;
};
struct unix_fd
{
    int fd = -1;
};
} // namespace message
using object_path = message::object_path;
using signature = message::signature;
} // namespace sdbusplus

namespace std
{
template <>
struct hash<sdbusplus::object_path>
{
    size_t operator()(const sdbusplus::object_path& p) const
    {
        return hash<string>()(p.str);
    }
};
} // namespace std

namespace sim
{
// ---------------------------------------------------------------- values
struct Val
{
    std::string sig; // complete type signature
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    std::string s;
    std::vector<Val> kids; // array / struct / dict entry / variant content
};

template <typename T>
struct Tr; // traits: sig(), put(), get()

#define SIM_INT(T, C, F)                                                       \
    template <>                                                                \
    struct Tr<T>                                                               \
    {                                                                          \
        static std::string sig()                                               \
        {                                                                      \
            return C;                                                          \
        }                                                                      \
        static Val put(const T& v)                                             \
        {                                                                      \
            Val r;                                                             \
            r.sig = C;                                                         \
            r.F = v;                                                           \
            return r;                                                          \
        }                                                                      \
        static void get(const Val& v, T& o)                                    \
        {                                                                      \
            need(v, C);                                                        \
            o = static_cast<T>(v.F);                                           \
        }                                                                      \
    }

inline void need(const Val& v, const std::string& sig)
{
    if (v.sig != sig)
        throw sdbusplus::exception::SdBusError(
            "org.freedesktop.DBus.Error.InvalidArgs",
            "type mismatch: have " + v.sig + " want " + sig);
}

SIM_INT(bool, "b", u);
SIM_INT(uint8_t, "y", u);
SIM_INT(int16_t, "n", i);
SIM_INT(uint16_t, "q", u);
SIM_INT(int32_t, "i", i);
SIM_INT(uint32_t, "u", u);
SIM_INT(int64_t, "x", i);
SIM_INT(uint64_t, "t", u);
SIM_INT(double, "d", d);
#undef SIM_INT

template <>
struct Tr<std::string>
{
    static std::string sig()
    {
        return "s";
    }
    static Val put(const std::string& v)
    {
        Val r;
        r.sig = "s";
        r.s = v;
        return r;
    }
    static void get(const Val& v, std::string& o)
    {
        need(v, "s");
        o = v.s;
    }
};
template <>
struct Tr<const char*>
{
    static std::string sig()
    {
        return "s";
    }
    static Val put(const char* v)
    {
        return Tr<std::string>::put(v);
    }
};
template <>
struct Tr<char*> : Tr<const char*>
{};
template <size_t N>
struct Tr<char[N]> : Tr<const char*>
{};
template <>
struct Tr<std::string_view>
{
    static std::string sig()
    {
        return "s";
    }
    static Val put(std::string_view v)
    {
        return Tr<std::string>::put(std::string(v));
    }
};
template <>
struct Tr<sdbusplus::object_path>
{
    static std::string sig()
    {
        return "o";
    }
    static Val put(const sdbusplus::object_path& v)
    {
        Val r;
        r.sig = "o";
        r.s = v.str;
        return r;
    }
    static void get(const Val& v, sdbusplus::object_path& o)
    {
        need(v, "o");
        o = sdbusplus::object_path(v.s);
    }
};

template <typename C, typename E>
struct TrSeq
{
    static std::string sig()
    {
        return "a" + Tr<E>::sig();
    }
    static Val put(const C& c)
    {
        Val r;
        r.sig = sig();
        for (const auto& e : c)
            r.kids.push_back(Tr<E>::put(e));
        return r;
    }
    static void get(const Val& v, C& o)
    {
        need1(v);
        for (const auto& k : v.kids)
        {
            E e{};
            Tr<E>::get(k, e);
            o.insert(o.end(), std::move(e));
        }
    }
    static void need1(const Val& v)
    {
        if (v.sig != sig())
            throw sdbusplus::exception::SdBusError(
                "org.freedesktop.DBus.Error.InvalidArgs",
                "type mismatch: have " + v.sig + " want " + sig());
    }
};
template <typename T, typename A>
struct Tr<std::vector<T, A>> : TrSeq<std::vector<T, A>, T>
{};
template <typename T, typename L, typename A>
struct Tr<std::set<T, L, A>> : TrSeq<std::set<T, L, A>, T>
{};
template <typename T, size_t N>
struct Tr<std::array<T, N>>
{
    static std::string sig()
    {
        return "a" + Tr<T>::sig();
    }
    static Val put(const std::array<T, N>& c)
    {
        Val r;
        r.sig = sig();
        for (const auto& e : c)
            r.kids.push_back(Tr<T>::put(e));
        return r;
    }
};

template <typename M>
struct TrMap
{
    using K = typename M::key_type;
    using V = typename M::mapped_type;
    static std::string sig()
    {
        return "a{" + Tr<K>::sig() + Tr<V>::sig() + "}";
    }
    static Val put(const M& m)
    {
        Val r;
        r.sig = sig();
        for (const auto& e : m)
        {
            Val de;
            de.sig = "{" + Tr<K>::sig() + Tr<V>::sig() + "}";
            de.kids.push_back(Tr<K>::put(e.first));
            de.kids.push_back(Tr<V>::put(e.second));
            r.kids.push_back(std::move(de));
        }
        return r;
    }
    static void get(const Val& v, M& o)
    {
        if (v.sig != sig())
            throw sdbusplus::exception::SdBusError(
                "org.freedesktop.DBus.Error.InvalidArgs",
                "type mismatch: have " + v.sig + " want " + sig());
        for (const auto& de : v.kids)
        {
            K k{};
            V val{};
            Tr<K>::get(de.kids.at(0), k);
            Tr<V>::get(de.kids.at(1), val);
            o.emplace(std::move(k), std::move(val));
        }
    }
};
template <typename K, typename V, typename L, typename A>
struct Tr<std::map<K, V, L, A>> : TrMap<std::map<K, V, L, A>>
{};
template <typename K, typename V, typename H, typename E, typename A>
struct Tr<std::unordered_map<K, V, H, E, A>> :
    TrMap<std::unordered_map<K, V, H, E, A>>
{};
// boost flat_map and look-alikes
template <template <class...> class M, typename K, typename V, typename... R>
    requires requires { typename M<K, V, R...>::mapped_type; } &&
             (!std::is_same_v<M<K, V, R...>, std::map<K, V, R...>>) &&
             (!std::is_same_v<M<K, V, R...>, std::unordered_map<K, V, R...>>)
struct Tr<M<K, V, R...>> : TrMap<M<K, V, R...>>
{};

template <typename... T>
struct Tr<std::tuple<T...>>
{
    static std::string sig()
    {
        return "(" + (Tr<T>::sig() + ... + std::string()) + ")";
    }
    static Val put(const std::tuple<T...>& t)
    {
        Val r;
        r.sig = sig();
        std::apply([&](const auto&... e) {
            (r.kids.push_back(Tr<std::decay_t<decltype(e)>>::put(e)), ...);
        }, t);
        return r;
    }
    static void get(const Val& v, std::tuple<T...>& t)
    {
        need(v, sig());
        size_t n = 0;
        std::apply([&](auto&... e) {
            (Tr<std::decay_t<decltype(e)>>::get(v.kids.at(n++), e), ...);
        }, t);
    }
};
template <typename A, typename B>
struct Tr<std::pair<A, B>>
{
    static std::string sig()
    {
        return "(" + Tr<A>::sig() + Tr<B>::sig() + ")";
    }
    static Val put(const std::pair<A, B>& t)
    {
        Val r;
        r.sig = sig();
        r.kids.push_back(Tr<A>::put(t.first));
        r.kids.push_back(Tr<B>::put(t.second));
        return r;
    }
    static void get(const Val& v, std::pair<A, B>& t)
    {
        need(v, sig());
        Tr<A>::get(v.kids.at(0), t.first);
        Tr<B>::get(v.kids.at(1), t.second);
    }
};

inline Val mkVariant(Val inner)
{
    Val r;
    r.sig = "v";
    r.kids.push_back(std::move(inner));
    return r;
}

template <typename... T>
struct Tr<std::variant<T...>>
{
    using V = std::variant<T...>;
    static std::string sig()
    {
        return "v";
    }
    static Val put(const V& v)
    {
        return std::visit([](const auto& e) {
            return mkVariant(Tr<std::decay_t<decltype(e)>>::put(e));
        }, v);
    }
    // sdbusplus: the first alternative whose signature matches is read; a
    // variant holding any other type is skipped and yields a default value.
    static void get(const Val& v, V& o)
    {
        need(v, "v");
        const Val& in = v.kids.at(0);
        bool done = false;
        (tryOne<T>(in, o, done), ...);
        if (!done)
            o = V{};
    }
    template <typename A>
    static void tryOne(const Val& in, V& o, bool& done)
    {
        if (done || in.sig != Tr<A>::sig())
            return;
        A a{};
        Tr<A>::get(in, a);
        o = std::move(a);
        done = true;
    }
};

template <typename T>
Val mk(const T& v)
{
    return Tr<std::decay_t<T>>::put(v);
}
// a variant holding v
template <typename T>
Val mkv(const T& v)
{
    return mkVariant(Tr<std::decay_t<T>>::put(v));
}

// -------------------------------------------------------------- messages
enum class MType
{
    call,
    reply,
    error,
    signal
};
struct Msg
{
    int refs = 1;
    MType type = MType::call;
    std::string sender, dest, path, iface, member;
    std::vector<Val> body;
    size_t rpos = 0;
    bool noreply = false;
};
inline sd_bus_message* raw(Msg* m)
{
    return reinterpret_cast<sd_bus_message*>(m);
}
inline Msg* cooked(sd_bus_message* m)
{
    return reinterpret_cast<Msg*>(m);
}

// Result of a call handled by the outside world.
struct Reply
{
    bool ok = true;
    std::string errName, errMsg;
    std::vector<Val> body;
};
inline Reply fail(const std::string& n = "org.freedesktop.DBus.Error.Failed",
                  const std::string& m = "injected")
{
    Reply r;
    r.ok = false;
    r.errName = n;
    r.errMsg = m;
    return r;
}

// ------------------------------------------------------------- the fabric
struct Rule
{
    std::map<std::string, std::string> kv;
};
Rule parseRule(const std::string& s);
bool ruleMatches(const Rule& r, const Msg& m);

struct MatchReg
{
    uint64_t id = 0;
    Rule rule;
    std::function<void(Msg*)> fn;
};

struct PropAcc
{
    std::function<Val()> get;
    std::function<bool(const Val&)> set; // null: read-only.
};
struct IfaceReg
{
    std::map<std::string, PropAcc> props;
};

struct Fabric
{
    // Objects exported by the code under test: path -> interface -> props
    std::map<std::string, std::map<std::string, IfaceReg>> objects;
    std::set<std::string> ownedNames;
    std::list<MatchReg> matches;
    uint64_t nextMatch = 1;
    void* io = nullptr; // the io_context the daemon connected with
    uint64_t calls = 0, regs = 0;

    // The outside world answers method calls.  Set by the harness.
    std::function<Reply(Msg&)> onCall;
    // Observation: a property-changed signal, an object appearing.
    std::function<void(const std::string& path, const std::string& iface,
                       const std::string& prop, const Val&)>
        onChanged;
    std::function<void(const std::string& path, bool added)> onObject;

    uint64_t addMatch(const std::string& rule, std::function<void(Msg*)> fn);
    void delMatch(uint64_t id);
    // Deliver a signal from the outside world to every matching handler.
    void emit(Msg& m);
    // A call from the outside world (or from the code) to an object exported
    // by the code under test.
    Reply callLocal(Msg& m);
    Reply call(Msg& m);
    void reset();
};
Fabric& fabric();

// Convenience for the harness
Msg mkCall(const std::string& dest, const std::string& path,
           const std::string& iface, const std::string& member,
           std::vector<Val> body = {});
Msg mkSignal(const std::string& sender, const std::string& path,
             const std::string& iface, const std::string& member,
             std::vector<Val> body = {});
Msg mkPropsChanged(const std::string& sender, const std::string& path,
                   const std::string& iface,
                   const std::vector<std::pair<std::string, Val>>& props);
Reply setProp(const std::string& dest, const std::string& path,
              const std::string& iface, const std::string& prop, Val v);
std::optional<Val> getProp(const std::string& dest, const std::string& path,
                           const std::string& iface, const std::string& prop);
bool validPath(const std::string& p);
} // namespace sim

namespace sdbusplus
{
namespace message
{
class message
{
  public:
    message() = default;
    explicit message(sd_bus_message* m) : m(sim::cooked(m))
    {
        if (this->m)
            ++this->m->refs;
    }
    message(const message& o) : m(o.m)
    {
        if (m)
            ++m->refs;
    }
    message(message&& o) noexcept : m(o.m)
    {
        o.m = nullptr;
    }
    message& operator=(message o) noexcept
    {
        std::swap(m, o.m);
        return *this;
    }
    ~message()
    {
        if (m && --m->refs == 0)
            delete m;
    }
    static message adopt(sim::Msg* p)
    {
        message r;
        r.m = p;
        return r;
    }
    explicit operator bool() const
    {
        return m != nullptr;
    }

    template <typename... A>
    void append(const A&... a)
    {
        (m->body.push_back(sim::Tr<std::decay_t<A>>::put(a)), ...);
    }
    template <typename... A>
    void read(A&... a)
    {
        (read1(a), ...);
    }
    template <typename... A>
    auto unpack()
    {
        if constexpr (sizeof...(A) == 0)
        {}
        else if constexpr (sizeof...(A) == 1)
        {
            std::tuple<A...> t;
            std::apply([&](auto&... e) { read(e...); }, t);
            return std::get<0>(std::move(t));
        }
        else
        {
            std::tuple<A...> t;
            std::apply([&](auto&... e) { read(e...); }, t);
            return t;
        }
    }
    const char* get_sender() const
    {
        return m->sender.c_str();
    }
    const char* get_path() const
    {
        return m->path.c_str();
    }
    const char* get_member() const
    {
        return m->member.c_str();
    }
    const char* get_interface() const
    {
        return m->iface.c_str();
    }
    const char* get_destination() const
    {
        return m->dest.c_str();
    }
    const char* get_signature() const
    {
        sg.clear();
        for (auto& v : m->body)
            sg += v.sig;
        return sg.c_str();
    }
    bool is_method_error() const
    {
        return m->type == sim::MType::error;
    }
    bool is_signal(const char* i, const char* mem) const
    {
        return m->type == sim::MType::signal && m->iface == i &&
               m->member == mem;
    }
    sd_bus_message* get() const
    {
        return sim::raw(m);
    }
    sim::Msg* impl() const
    {
        return m;
    }

  private:
    template <typename T>
    void read1(T& t)
    {
        if (m->rpos >= m->body.size())
            throw exception::SdBusError("org.freedesktop.DBus.Error.InvalidArgs",
                                        "end of message");
        sim::Tr<std::decay_t<T>>::get(m->body[m->rpos], t);
        ++m->rpos;
    }
    sim::Msg* m = nullptr;
    mutable std::string sg;
};
} // namespace message
using message_t = message::message;

struct SdBusDuration
{
    uint64_t us;
};

namespace bus
{
class bus
{
  public:
    bus() = default;
    bus(const bus&) = delete;
    bus& operator=(const bus&) = delete;
    bus(bus&&) = default;
    bus& operator=(bus&&) = default;
    virtual ~bus() = default;

    message_t new_method_call(const char* svc, const char* path,
                              const char* iface, const char* member)
    {
        auto* p = new sim::Msg;
        p->dest = svc ? svc : "";
        p->path = path ? path : "";
        p->iface = iface ? iface : "";
        p->member = member ? member : "";
        if (!sim::validPath(p->path))
        {
            delete p;
            throw exception::SdBusError(22, "sd_bus_message_new_method_call");
        }
        return message_t::adopt(p);
    }
    template <typename... X>
    message_t call(message_t& m, X&&...)
    {
        return doCall(m);
    }
    template <typename... X>
    message_t call(message_t&& m, X&&...)
    {
        return doCall(m);
    }
    template <typename... X>
    void call_noreply(message_t& m, X&&...)
    {
        doCall(m, true);
    }
    void request_name(const char* n)
    {
        sim::fabric().ownedNames.insert(n);
    }
    std::string get_unique_name()
    {
        return ":1.42";
    }
    void emit_object_added(const char*) {}
    void emit_object_removed(const char*) {}

  private:
    static message_t doCall(message_t& m, bool noreply = false);
};
inline bus new_default()
{
    return bus();
}
inline bus new_system()
{
    return bus();
}
inline bus new_user()
{
    return bus();
}
inline bus new_bus()
{
    return bus();
}
inline bus new_default_system()
{
    return bus();
}

namespace match
{
class match
{
  public:
    using callback_t = std::function<void(message_t&)>;
    match(bus&, const char* rule, sd_bus_message_handler_t h,
          void* ctx = nullptr)
    {
        init(rule, h, ctx);
    }
    match(bus&, const std::string& rule, sd_bus_message_handler_t h,
          void* ctx = nullptr)
    {
        init(rule, h, ctx);
    }
    match(bus&, const char* rule, callback_t cb)
    {
        init(rule, std::move(cb));
    }
    match(bus&, const std::string& rule, callback_t cb)
    {
        init(rule, std::move(cb));
    }
    match(const match&) = delete;
    match& operator=(const match&) = delete;
    match(match&& o) noexcept : id(std::exchange(o.id, 0)) {}
    match& operator=(match&& o) noexcept
    {
        std::swap(id, o.id);
        return *this;
    }
    ~match()
    {
        if (id)
            sim::fabric().delMatch(id);
    }

  private:
    void init(const std::string& rule, sd_bus_message_handler_t h, void* ctx)
    {
        id = sim::fabric().addMatch(rule, [h, ctx](sim::Msg* m) {
            sd_bus_error e{};
            h(sim::raw(m), ctx, &e);
        });
    }
    void init(const std::string& rule, callback_t cb)
    {
        id = sim::fabric().addMatch(rule, [cb = std::move(cb)](sim::Msg* m) {
            message_t msg(sim::raw(m));
            cb(msg);
        });
    }
    uint64_t id = 0;
};
namespace rules
{
inline std::string type_signal()
{
    return "type='signal',";
}
inline std::string interface(const std::string& s)
{
    return "interface='" + s + "',";
}
inline std::string member(const std::string& s)
{
    return "member='" + s + "',";
}
inline std::string path(const std::string& s)
{
    return "path='" + s + "',";
}
inline std::string path_namespace(const std::string& s)
{
    return "path_namespace='" + s + "',";
}
inline std::string sender(const std::string& s)
{
    return "sender='" + s + "',";
}
inline std::string argN(size_t n, const std::string& s)
{
    return "arg" + std::to_string(n) + "='" + s + "',";
}
inline std::string argNpath(size_t n, const std::string& s)
{
    return "arg" + std::to_string(n) + "path='" + s + "',";
}
inline std::string arg0namespace(const std::string& s)
{
    return "arg0namespace='" + s + "',";
}
inline std::string propertiesChanged(const std::string& p,
                                     const std::string& i)
{
    return type_signal() + path(p) + member("PropertiesChanged") +
           interface("org.freedesktop.DBus.Properties") + argN(0, i);
}
inline std::string propertiesChangedNamespace(const std::string& p,
                                              const std::string& i)
{
    return type_signal() + path_namespace(p) + member("PropertiesChanged") +
           interface("org.freedesktop.DBus.Properties") + arg0namespace(i);
}
inline std::string interfacesAdded()
{
    return type_signal() + interface("org.freedesktop.DBus.ObjectManager") +
           member("InterfacesAdded");
}
inline std::string interfacesRemoved()
{
    return type_signal() + interface("org.freedesktop.DBus.ObjectManager") +
           member("InterfacesRemoved");
}
} // namespace rules
} // namespace match
using match_t = match::match;
} // namespace bus
using bus_t = bus::bus;
using match = bus::match::match;
using match_t = bus::match::match;
namespace match_rules = bus::match::rules;

namespace server
{
namespace manager
{
struct manager
{
    template <typename B>
    manager(B&&, const char*)
    {}
};
} // namespace manager
using manager_t = manager::manager;

// One exported interface on one object; knows how to announce changes.
class iface_reg
{
  public:
    iface_reg(const char* path, const char* ifc) : path(path), ifc(ifc)
    {
        auto& f = sim::fabric();
        if (!sim::validPath(this->path))
            throw exception::SdBusError(22, "sd_bus_add_object_vtable");
        auto& o = f.objects[this->path];
        if (o.count(ifc)) // as sd-bus: -EEXIST
            throw exception::SdBusError(17, "sd_bus_add_object_vtable");
        o[ifc];
        ++f.regs;
    }
    iface_reg(const iface_reg&) = delete;
    iface_reg& operator=(const iface_reg&) = delete;
    ~iface_reg()
    {
        auto& f = sim::fabric();
        auto it = f.objects.find(path);
        if (it == f.objects.end())
            return;
        it->second.erase(ifc);
        if (it->second.empty())
            f.objects.erase(it);
    }
    void add(const char* prop, std::function<sim::Val()> get,
             std::function<bool(const sim::Val&)> set)
    {
        sim::fabric().objects[path][ifc].props[prop] = {std::move(get),
                                                        std::move(set)};
    }
    void changed(const char* prop, const sim::Val& v)
    {
        auto& f = sim::fabric();
        if (f.onChanged)
            f.onChanged(path, ifc, prop, v);
    }
    const std::string& getPath() const
    {
        return path;
    }

  private:
    std::string path, ifc;
};

namespace object
{
namespace details
{}
template <typename... T>
class object : public T...
{
  public:
    enum class action
    {
        emit_object_added,
        emit_interface_added,
        defer_emit,
        emit_no_signals,
    };
    object(bus_t& b, const char* path,
           action act = action::emit_object_added) :
        T(b, path)..., p(path)
    {
        if (act == action::emit_object_added)
            emit_object_added();
    }
    object(bus_t& b, const char* path, bool deferSignal) :
        object(b, path,
               deferSignal ? action::defer_emit : action::emit_object_added)
    {}
    virtual ~object()
    {
        if (emitted && sim::fabric().onObject)
            sim::fabric().onObject(p, false);
    }
    void emit_object_added()
    {
        if (emitted)
            return;
        emitted = true;
        if (sim::fabric().onObject)
            sim::fabric().onObject(p, true);
    }

  private:
    std::string p;
    bool emitted = false;
};
} // namespace object
template <typename... T>
using object_t = object::object<T...>;
} // namespace server
} // namespace sdbusplus

// A property of a generated server class: virtual getter, virtual setters
// with and without signal, D-Bus accessors.
#define SIM_PROP(T, fn, NAME, INIT)                                            \
  public:                                                                      \
    virtual T fn() const                                                       \
    {                                                                          \
        return _p_##fn;                                                        \
    }                                                                          \
    virtual T fn(T v, bool skip)                                               \
    {                                                                          \
        if (_p_##fn != v)                                                      \
        {                                                                      \
            _p_##fn = v;                                                       \
            if (!skip)                                                         \
                _reg.changed(NAME, SIM_TOVAL(fn));                             \
        }                                                                      \
        return _p_##fn;                                                        \
    }                                                                          \
    virtual T fn(T v)                                                          \
    {                                                                          \
        return fn(v, false);                                                   \
    }                                                                          \
                                                                               \
  private:                                                                     \
    T _p_##fn = INIT;
#define SIM_TOVAL(fn) sim::Tr<std::decay_t<decltype(_p_##fn)>>::put(_p_##fn)
#define SIM_REG(T, fn, NAME, WRITABLE)                                         \
    _reg.add(NAME, [this] { return sim::Tr<T>::put(this->fn()); },             \
             (WRITABLE) ? std::function<bool(const sim::Val&)>(                \
                              [this](const sim::Val& v) {                      \
                                  T t{};                                       \
                                  if (v.sig != sim::Tr<T>::sig())              \
                                      return false;                            \
                                  sim::Tr<T>::get(v, t);                       \
                                  this->fn(t);                                 \
                                  return true;                                 \
                              })                                               \
                        : std::function<bool(const sim::Val&)>())
