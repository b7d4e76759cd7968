#pragma once
#include <sdbusplus/stub_core.hpp>
#include <xyz/openbmc_project/Debug/Pid/Zone/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
{
class Zone
{
  public:
    Zone(sdbusplus::bus_t&, const char*) {}
    virtual ~Zone() = default;
    virtual std::string leader() const { return p_leader; }
    virtual std::string leader(std::string v) { p_leader = v; return v; }
    std::string p_leader = "";
};
}
