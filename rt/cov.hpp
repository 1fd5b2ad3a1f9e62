// What a case made the code under test do: edges taken and how near its
// comparisons came, as told by gcc's -fsanitize-coverage=trace-pc,trace-cmp.
// The map is shared memory, so that children of a case count as well.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>

namespace cov
{
constexpr size_t kEdges = 1 << 16, kCmps = 1 << 16, kSize = kEdges + kCmps;
extern uint8_t* gMap;
// One collector per process that runs cases.
class Collector
{
  public:
    Collector();
    void begin();
    bool end(); // something new was seen since begin
    uint64_t features = 0;

  private:
    uint8_t* map = nullptr;
    std::vector<uint8_t> seen;
};
} // namespace cov
