// Runs a select-based event loop on virtual time: what would be waited for
// happens at once, in the order of its time.
#pragma once
#include <cstdint>
#include <functional>
namespace loop
{
// Called when nothing is ready. `deadline` is when select would time out.
// Returns false when there is nothing left to do before it (time then moves on
// to the deadline); otherwise it has done something, and select looks again.
extern std::function<bool(int64_t deadline)> onIdle;
// In a forked child: pipes opened before main become private to it.
void privatePipes();
} // namespace loop
