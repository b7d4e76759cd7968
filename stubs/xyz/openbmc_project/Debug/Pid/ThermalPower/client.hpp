#pragma once
#include <xyz/openbmc_project/Debug/Pid/ThermalPower/common.hpp>
