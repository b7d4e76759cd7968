#pragma once
#include <sdbusplus/stub_core.hpp>
