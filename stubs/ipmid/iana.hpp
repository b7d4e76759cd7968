#pragma once
#include <cstdint>
namespace oem { constexpr uint32_t obmcOemNumber = 49871; }
