#pragma once
#include "sim/simbus.hpp"
