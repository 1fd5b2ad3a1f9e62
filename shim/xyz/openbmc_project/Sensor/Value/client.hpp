#pragma once
#include "sim/simbus.hpp"
#include <xyz/openbmc_project/Sensor/Value/common.hpp>
