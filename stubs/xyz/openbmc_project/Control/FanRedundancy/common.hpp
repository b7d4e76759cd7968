#pragma once
namespace sdbusplus::common::xyz::openbmc_project::control
{
struct FanRedundancy
{
    static constexpr auto interface = "xyz.openbmc_project.Control.FanRedundancy";
        struct property_names
    {
        static constexpr auto status = "Status";
        static constexpr auto collection = "Collection";
    };
    struct method_names
    {
    };
};
}
