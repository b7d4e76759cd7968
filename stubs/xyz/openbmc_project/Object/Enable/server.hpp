#pragma once
#include <sdbusplus/stub_core.hpp>
#include <xyz/openbmc_project/Object/Enable/common.hpp>
namespace sdbusplus::xyz::openbmc_project::Object::server
{
class Enable
{
  public:
    Enable(sdbusplus::bus_t&, const char* p) : path(p) { live()[path] = this; }
    virtual ~Enable()
    {
        auto it = live().find(path);
        if (it != live().end() && it->second == this)
            live().erase(it);
    }
    virtual bool enabled() const { return p_enabled; }
    virtual bool enabled(bool v) { p_enabled = v; return v; }
    bool p_enabled = true;
    std::string path;
    // objects by path, so that a driver can act as a D-Bus client
    static std::map<std::string, Enable*>& live()
    {
        static std::map<std::string, Enable*> m;
        return m;
    }
};
}
