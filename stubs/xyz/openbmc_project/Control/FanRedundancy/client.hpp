#pragma once
#include <xyz/openbmc_project/Control/FanRedundancy/common.hpp>
