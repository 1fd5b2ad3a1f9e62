#pragma once
#include "sim/simbus.hpp"
#include <xyz/openbmc_project/Debug/Pid/Zone/common.hpp>
