#pragma once
#include <sdbusplus/stub_core.hpp>
#include <xyz/openbmc_project/Control/Mode/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Control::server
{
class Mode
{
  public:
    Mode(sdbusplus::bus_t&, const char*) {}
    virtual ~Mode() = default;
    virtual bool manual() const { return p_manual; }
    virtual bool manual(bool v) { p_manual = v; return v; }
    bool p_manual = false;
    virtual bool failSafe() const { return p_failSafe; }
    virtual bool failSafe(bool v) { p_failSafe = v; return v; }
    bool p_failSafe = false;
};
}
