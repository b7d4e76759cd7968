#pragma once
namespace sdbusplus::common::xyz::openbmc_project::state
{
struct Host
{
    static constexpr auto interface = "xyz.openbmc_project.State.Host";
        struct property_names
    {
        static constexpr auto current_host_state = "CurrentHostState";
    };
    struct method_names
    {
    };
};
}
