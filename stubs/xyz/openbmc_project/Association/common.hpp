#pragma once
namespace sdbusplus::common::xyz::openbmc_project
{
struct Association
{
    static constexpr auto interface = "xyz.openbmc_project.Association";
        struct property_names
    {
        static constexpr auto endpoints = "endpoints";
    };
    struct method_names
    {
    };
};
}
