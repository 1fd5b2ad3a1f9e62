#include "vclock.hpp"

#include <chrono>
#include <ctime>

namespace vclock
{
static bool gOn = false;
static int64_t gNow = 0;
void set(int64_t ns)
{
    gOn = true;
    gNow = ns;
}
void advance(int64_t ns)
{
    gNow += ns;
}
int64_t now()
{
    return gNow;
}
void release()
{
    gOn = false;
}
bool on()
{
    return gOn;
}
static int64_t real(clockid_t c)
{
    timespec t;
    clock_gettime(c, &t);
    return t.tv_sec * 1000000000ll + t.tv_nsec;
}
} // namespace vclock

namespace std::chrono
{
inline namespace _V2
{
system_clock::time_point system_clock::now() noexcept
{
    return time_point(duration(vclock::on() ? vclock::now() : vclock::real(CLOCK_REALTIME)));
}
steady_clock::time_point steady_clock::now() noexcept
{
    return time_point(duration(vclock::on() ? vclock::now() : vclock::real(CLOCK_MONOTONIC)));
}
} // namespace _V2
} // namespace std::chrono
