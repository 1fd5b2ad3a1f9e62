#pragma once
#include "sim/simbus.hpp"
#include <xyz/openbmc_project/Control/FanRedundancy/common.hpp>
