#pragma once
#include "sim/simbus.hpp"
#include <xyz/openbmc_project/State/Host/common.hpp>
