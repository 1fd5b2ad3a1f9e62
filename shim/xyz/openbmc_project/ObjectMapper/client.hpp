#pragma once
#include "sim/simbus.hpp"
#include <xyz/openbmc_project/ObjectMapper/common.hpp>
