#pragma once
#include <cstdint>
namespace oem
{
using Number = uint32_t;
constexpr Number obmcOemNumber = 49871;
constexpr Number googOemNumber = 11129;
} // namespace oem
