#pragma once
#include "sim/simbus.hpp"
#include <xyz/openbmc_project/State/Decorator/Availability/common.hpp>
