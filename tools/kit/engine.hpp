// Stand-in for the engine of the checks, for demonstrations of single histories.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <initializer_list>
#include <optional>
#include <sstream>
#include <string>
#include <vector>
namespace pbt
{
struct Src
{
    bool b(int) { return false; }
    size_t w(std::initializer_list<int>) { return 0; }
    uint64_t draw(uint64_t) { return 0; }
    int64_t i(int64_t lo, int64_t) { return lo; }
};
inline std::string scratch()
{
    return getenv("DEMO_SCRATCH");
}
template <typename... A>
[[noreturn]] void failf(const A&... a)
{
    std::ostringstream o;
    (o << ... << a);
    std::fprintf(stderr, "DEMO FAILS: %s\n", o.str().c_str());
    std::exit(1);
}
template <typename... A>
void require(bool ok, const A&... a)
{
    if (!ok)
        failf(a...);
}
} // namespace pbt
