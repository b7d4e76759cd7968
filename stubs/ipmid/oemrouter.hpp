#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <ipmid/api-types.hpp>
namespace oem
{
using Handler = std::function<ipmi::Cc(uint8_t, const uint8_t*, uint8_t*, size_t*)>;
struct Router { virtual ~Router() = default; virtual void registerHandler(uint32_t, uint8_t, const Handler&) = 0; };
Router* mutableRouter();
}
