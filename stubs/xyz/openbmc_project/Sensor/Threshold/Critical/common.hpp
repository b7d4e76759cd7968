#pragma once
namespace sdbusplus::common::xyz::openbmc_project::sensor::threshold
{
struct Critical
{
    static constexpr auto interface = "xyz.openbmc_project.Sensor.Threshold.Critical";
        struct property_names
    {
        static constexpr auto critical_high = "CriticalHigh";
        static constexpr auto critical_low = "CriticalLow";
        static constexpr auto critical_alarm_high = "CriticalAlarmHigh";
        static constexpr auto critical_alarm_low = "CriticalAlarmLow";
    };
    struct method_names
    {
    };
};
}
