#pragma once
namespace sdbusplus::common::xyz::openbmc_project::association
{
struct Definitions
{
    static constexpr auto interface = "xyz.openbmc_project.Association.Definitions";
        struct property_names
    {
        static constexpr auto associations = "Associations";
    };
    struct method_names
    {
    };
};
}
