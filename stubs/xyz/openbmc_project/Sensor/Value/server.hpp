#pragma once
#include <sdbusplus/stub_core.hpp>
#include <xyz/openbmc_project/Sensor/Value/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Sensor::server
{
class Value
{
  public:
    enum class Unit { DegreesC, RPMS, Watts };
    virtual Unit unit(Unit u) { p_unit = u; return u; }
    Unit p_unit = Unit::DegreesC;
    Value(sdbusplus::bus_t&, const char*) {}
    virtual ~Value() = default;
    virtual double value() const { return p_value; }
    virtual double value(double v) { p_value = v; return v; }
    double p_value = 0;
    virtual double maxValue() const { return p_maxValue; }
    virtual double maxValue(double v) { p_maxValue = v; return v; }
    double p_maxValue = 0;
    virtual double minValue() const { return p_minValue; }
    virtual double minValue(double v) { p_minValue = v; return v; }
    double p_minValue = 0;
};
}
