#pragma once
#include <cstdint>
namespace ipmi
{
using Cc = uint8_t;
constexpr Cc ccSuccess = 0x00;
constexpr Cc ccInvalidCommand = 0xC1;
}
