#pragma once
#include "sim/simbus.hpp"
#include <xyz/openbmc_project/Object/Enable/common.hpp>
