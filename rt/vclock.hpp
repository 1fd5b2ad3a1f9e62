// A clock the harness owns: once set, every std::chrono clock reads it.
#pragma once
#include <cstdint>
namespace vclock
{
void set(int64_t ns);     // take control (ns since the epoch)
void advance(int64_t ns);
int64_t now();            // ns
void release();           // back to real time
bool on();
} // namespace vclock
