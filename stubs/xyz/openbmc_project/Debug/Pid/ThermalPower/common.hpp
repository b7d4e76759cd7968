#pragma once
namespace sdbusplus::common::xyz::openbmc_project::debug::pid
{
struct ThermalPower
{
    static constexpr auto interface = "xyz.openbmc_project.Debug.Pid.ThermalPower";
        struct property_names
    {
        static constexpr auto leader = "Leader";
    };
    struct method_names
    {
    };
};
}
