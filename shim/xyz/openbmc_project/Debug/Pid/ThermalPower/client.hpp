#pragma once
#include "sim/simbus.hpp"
#include <xyz/openbmc_project/Debug/Pid/ThermalPower/common.hpp>
