#pragma once
#include "sim/simbus.hpp"
#include <xyz/openbmc_project/Association/common.hpp>
