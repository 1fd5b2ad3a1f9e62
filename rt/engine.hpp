// Property-based testing engine: choice-sequence generation, deterministic
// parallel case execution, crash/hang containment, shrinking, replay.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt
{
struct Failure : std::runtime_error
{
    using std::runtime_error::runtime_error;
};
// The generated case cannot be judged (counted, never a failure).
struct Discard : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

// Draws are mirrored here (shared memory) so that a case that kills its process
// can still be shrunk and replayed.
struct Mirror
{
    volatile uint32_t n;
    uint64_t v[1 << 16];
};
extern Mirror* gMirror;

// Source of choices.  Value 0 is always the simplest choice.
class Src
{
  public:
    explicit Src(uint64_t seed) : st(seed) {}
    explicit Src(std::vector<uint64_t> replay) : pre(std::move(replay)), rep(true)
    {}
    // Starts like `begin` and goes on at random; ~0 stands for the greatest.
    Src(std::vector<uint64_t> begin, uint64_t seed) : st(seed), pre(std::move(begin)), lead(true) {}
    uint64_t draw(uint64_t n) // uniform in [0, n)
    {
        uint64_t v;
        if (n <= 1)
            v = 0;
        else if (rep)
        {
            v = pos < pre.size() ? pre[pos] : 0;
            if (v >= n)
                v = n - 1;
        }
        else if (lead && pos < pre.size())
            v = pre[pos] == ~0ull ? n - 1 : pre[pos] % n;
        else
        {
            st += 0x9e3779b97f4a7c15ull;
            v = mix(st) % n;
        }
        ++pos;
        rec.push_back(v);
        if (gMirror && gMirror->n < (1u << 16))
        {
            gMirror->v[gMirror->n] = v;
            gMirror->n = gMirror->n + 1;
        }
        return v;
    }
    int64_t i(int64_t lo, int64_t hi) // lo is simplest
    {
        return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1));
    }
    bool b(int pct) // true with pct percent
    {
        return draw(100) >= static_cast<uint64_t>(100 - pct);
    }
    template <typename T>
    const T& pick(const std::vector<T>& v)
    {
        return v[draw(v.size())];
    }
    // index with weights
    size_t w(std::initializer_list<int> ws)
    {
        int tot = 0;
        for (int x : ws)
            tot += x;
        int64_t r = static_cast<int64_t>(draw(tot));
        size_t k = 0;
        for (int x : ws)
        {
            if (r < x)
                return k;
            r -= x;
            ++k;
        }
        return k - 1;
    }
    // multiple of 1/den in [lo, hi]; 0 (or the bound nearest it) is simplest
    double q(double lo, double hi, int den = 8)
    {
        int64_t a = static_cast<int64_t>(std::ceil(lo * den));
        int64_t z = static_cast<int64_t>(std::floor(hi * den));
        if (a <= 0 && z >= 0)
        {
            // zig-zag around 0
            uint64_t n = static_cast<uint64_t>(z - a) + 1;
            uint64_t k = draw(n);
            int64_t m = std::min<int64_t>(z, -a);
            int64_t v;
            if (k <= 2 * static_cast<uint64_t>(m))
                v = (k % 2) ? static_cast<int64_t>((k + 1) / 2)
                            : -static_cast<int64_t>(k / 2);
            else
            {
                int64_t r = static_cast<int64_t>(k) - m;
                v = z > -a ? r : -r;
            }
            return static_cast<double>(v) / den;
        }
        if (a > 0)
            return static_cast<double>(a + static_cast<int64_t>(draw(z - a + 1))) /
                   den;
        return static_cast<double>(z - static_cast<int64_t>(draw(z - a + 1))) / den;
    }
    const std::vector<uint64_t>& choices() const
    {
        return rec;
    }

  private:
    uint64_t st = 0;
    std::vector<uint64_t> pre, rec;
    bool rep = false, lead = false;
    size_t pos = 0;
};

class Ctx
{
  public:
    void label(const std::string& l)
    {
        labels.insert(l);
    }
    void nontrivial(bool v = true)
    {
        nt = nt || v;
    }
    template <typename... A>
    void note(const A&... a)
    {
        if (desc.tellp() > 20000)
            return;
        (desc << ... << a);
        desc << "\n";
    }
    std::set<std::string> labels;
    bool nt = false;
    std::ostringstream desc;
    uint64_t sub = 0; // evaluations inside the case beyond the first
};

template <typename... A>
[[noreturn]] void failf(const A&... a)
{
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    throw Failure(o.str());
}
template <typename... A>
void require(bool c, const A&... a)
{
    if (!c)
        failf(a...);
}
inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-9)
{
    if (std::isnan(a) || std::isnan(b))
        return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b))
        return a == b;
    double d = std::fabs(a - b);
    return d <= abs || d <= rel * std::max(std::fabs(a), std::fabs(b));
}

using PropFn = std::function<void(Src&, Ctx&)>;
struct Prop
{
    std::string name;
    uint64_t quick = 1000, thorough = 10000;
    std::string rule; // what makes a case non-trivial
    PropFn fn;
    double hang = 60; // seconds before one case counts as hung
};
std::vector<Prop>& registry();
struct Reg
{
    Reg(Prop p)
    {
        registry().push_back(std::move(p));
    }
};
// Where the code under test's stdout/stderr went in this process (fd), or -1.
int capturedFd();
std::string capturedText();
void captureReset();
// A per-process scratch directory, removed at the end of the run.
std::string scratch();
} // namespace pbt

#define PBT(id, quickN, thoroughN, ruleText)                                   \
    static void pbt_##id(pbt::Src& s, pbt::Ctx& c);                            \
    static pbt::Reg reg_##id(                                                  \
        pbt::Prop{#id, quickN, thoroughN, ruleText, pbt_##id});                \
    static void pbt_##id([[maybe_unused]] pbt::Src& s,                         \
                         [[maybe_unused]] pbt::Ctx& c)
