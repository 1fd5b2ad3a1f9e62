#include "cov.hpp"

#include <sys/mman.h>

#include <cmath>
#include <cstring>

extern "C" const char __executable_start;

namespace cov
{
uint8_t* gMap = nullptr;
static uintptr_t gPrev = 0;

static inline uintptr_t at(void* pc)
{
    return reinterpret_cast<uintptr_t>(pc) - reinterpret_cast<uintptr_t>(&__executable_start);
}
static inline uint32_t hash(uint64_t x)
{
    x *= 0x9e3779b97f4a7c15ull;
    x ^= x >> 32;
    return static_cast<uint32_t>(x);
}
static inline void bump(uint8_t& c)
{
    if (c != 255)
        ++c;
}
static inline void cmp(void* pc, unsigned near)
{
    if (gMap)
        gMap[kEdges + (hash(at(pc) * 128 + near) & (kCmps - 1))] = 1;
}
template <typename T>
static inline void ints(void* pc, T a, T b)
{
    uint64_t d = a > b ? static_cast<uint64_t>(a - b) : static_cast<uint64_t>(b - a);
    unsigned near = d ? 64 - __builtin_clzll(d) : 0;
    // few steps: which side of it, equal, and how near
    cmp(pc, (near < 8 ? near : 8 + (near - 8) / 8) * 2 + (a > b));
}
static inline void reals(void* pc, double a, double b)
{
    double d = std::fabs(a - b);
    unsigned near = 31;
    if (d == 0)
        near = 0;
    else if (d == d)
    {
        int e = std::ilogb(d);
        near = e < -8 ? 1 : e > 12 ? 22 : e + 10;
    }
    cmp(pc, near * 2 + (a > b));
}
Collector::Collector() : seen(kSize)
{
    void* p = mmap(nullptr, kSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    map = p == MAP_FAILED ? nullptr : static_cast<uint8_t*>(p);
}
void Collector::begin()
{
    gMap = map; // nothing is counted before
    if (gMap)
        memset(gMap, 0, kSize);
    gPrev = 0;
}
bool Collector::end()
{
    if (!gMap)
        return false;
    bool fresh = false;
    for (size_t k = 0; k < kSize; k += 8)
    {
        uint64_t word;
        memcpy(&word, gMap + k, 8);
        if (!word)
            continue;
        for (size_t j = k; j < k + 8; ++j)
        {
            uint8_t n = gMap[j];
            uint8_t bit = !n ? 0 : n == 1 ? 1 : n == 2 ? 2 : n == 3 ? 4 : n < 8 ? 8 : n < 16 ? 16 : n < 32 ? 32 : n < 128 ? 64 : 128;
            if (bit & ~seen[j])
            {
                seen[j] |= bit;
                ++features;
                fresh = true;
            }
        }
    }
    return fresh;
}
} // namespace cov

#define CALLER __builtin_return_address(0)
extern "C"
{
void __sanitizer_cov_trace_pc()
{
    if (!cov::gMap)
        return;
    uintptr_t pc = cov::at(CALLER);
    cov::bump(cov::gMap[cov::hash(pc ^ (cov::gPrev << 20)) & (cov::kEdges - 1)]);
    cov::gPrev = pc;
}
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b)
{
    cov::ints(CALLER, a, b);
}
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b)
{
    cov::ints(CALLER, a, b);
}
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b)
{
    cov::ints(CALLER, static_cast<int32_t>(a), static_cast<int32_t>(b));
}
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b)
{
    cov::ints(CALLER, static_cast<int64_t>(a), static_cast<int64_t>(b));
}
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b)
{
    cov::ints(CALLER, a, b);
}
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b)
{
    cov::ints(CALLER, a, b);
}
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b)
{
    cov::ints(CALLER, static_cast<int32_t>(a), static_cast<int32_t>(b));
}
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b)
{
    cov::ints(CALLER, static_cast<int64_t>(a), static_cast<int64_t>(b));
}
void __sanitizer_cov_trace_cmpf(float a, float b)
{
    cov::reals(CALLER, a, b);
}
void __sanitizer_cov_trace_cmpd(double a, double b)
{
    cov::reals(CALLER, a, b);
}
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* cases)
{
    for (uint64_t k = 0; k < cases[0]; ++k)
        cov::cmp(CALLER, static_cast<unsigned>(v == cases[2 + k] ? 64 + k % 64 : 63));
}
}
