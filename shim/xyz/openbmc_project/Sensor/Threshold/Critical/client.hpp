#pragma once
#include "sim/simbus.hpp"
#include <xyz/openbmc_project/Sensor/Threshold/Critical/common.hpp>
