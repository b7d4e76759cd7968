#pragma once
namespace sdbusplus::common::xyz::openbmc_project::sensor
{
struct Value
{
    static constexpr auto interface = "xyz.openbmc_project.Sensor.Value";
    static constexpr auto namespace_path = "/xyz/openbmc_project/sensors";
    struct property_names
    {
        static constexpr auto value = "Value";
        static constexpr auto max_value = "MaxValue";
        static constexpr auto min_value = "MinValue";
        static constexpr auto unit = "Unit";
    };
    struct method_names
    {
    };
};
}
