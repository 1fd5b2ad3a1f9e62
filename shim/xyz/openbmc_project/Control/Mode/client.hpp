#pragma once
#include "sim/simbus.hpp"
#include <xyz/openbmc_project/Control/Mode/common.hpp>
