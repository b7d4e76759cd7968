#pragma once
#include <xyz/openbmc_project/Control/ThermalMode/common.hpp>
