#pragma once
#include <sdbusplus/stub_core.hpp>
#include <xyz/openbmc_project/Debug/Pid/ThermalPower/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Debug::Pid::server
{
class ThermalPower
{
  public:
    ThermalPower(sdbusplus::bus_t&, const char*) {}
    virtual ~ThermalPower() = default;
    virtual std::string leader() const { return p_leader; }
    virtual std::string leader(std::string v) { p_leader = v; return v; }
    std::string p_leader = "";
    virtual std::string classType() const { return p_classType; }
    virtual std::string classType(std::string v) { p_classType = v; return v; }
    std::string p_classType = "";
    virtual double setpoint() const { return p_setpoint; }
    virtual double setpoint(double v) { p_setpoint = v; return v; }
    double p_setpoint = 0;
    virtual double input() const { return p_input; }
    virtual double input(double v) { p_input = v; return v; }
    double p_input = 0;
    virtual double output() const { return p_output; }
    virtual double output(double v) { p_output = v; return v; }
    double p_output = 0;
};
}
