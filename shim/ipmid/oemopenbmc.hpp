#pragma once
#include <cstdint>
namespace oem
{
enum Cmd
{
    gpioCmd = 1,
    i2cCmd = 2,
    flashCmd = 3,
    fanManualCmd = 4,
};
} // namespace oem
