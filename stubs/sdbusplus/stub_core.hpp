// Stand-in for sdbusplus (not installed here).  Declares the part of its API that
// phosphor-pid-control uses; messages are recorded in memory and answered by a
// test-installed handler.  Trusted: only the interface shape matters for proofs.
#pragma once
#include <any>
#include <chrono>
#include <cstdint>
#include <deque>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <array>
#include <variant>
#include <vector>
#include <systemd/sd-bus.h>

namespace sdbusplus
{
struct exception_t : std::exception {};
namespace exception
{
using exception = exception_t;
struct SdBusError : exception_t
{
    SdBusError(int e = 5, const char* m = "") : err(e), msg(m) {}
    const char* what() const noexcept override { return msg.c_str(); }
    int get_errno() const { return err; }
    int err;
    std::string msg;
};
} // namespace exception

struct object_path
{
    std::string str;
    object_path() = default;
    object_path(const std::string& s) : str(s) {}
    object_path(const char* s) : str(s) {}
    operator const std::string&() const { return str; }
    std::string filename() const
    {
        auto p = str.rfind('/');
        return p == std::string::npos ? str : str.substr(p + 1);
    }
    bool operator==(const object_path& o) const { return str == o.str; }
    bool operator<(const object_path& o) const { return str < o.str; }
};
namespace message
{
using object_path = sdbusplus::object_path;
namespace details
{
struct string_path_wrapper : object_path { using object_path::object_path; };
}
} // namespace message

namespace stub
{
// everything that a message carries
struct Msg
{
    std::string dest, path, intf, member, sender;
    std::vector<std::any> args;   // appended by the code under test
    std::deque<std::any> payload; // to be read by the code under test
    bool readFails = false;
};
struct SdMsg { std::shared_ptr<Msg> m; };
} // namespace stub

class message_t
{
  public:
    message_t() : d(std::make_shared<stub::Msg>()) {}
    explicit message_t(std::shared_ptr<stub::Msg> m) : d(std::move(m)) {}
    explicit message_t(sd_bus_message* m) :
        d(m ? reinterpret_cast<stub::SdMsg*>(m)->m
            : std::make_shared<stub::Msg>())
    {}
    template <typename... A>
    void append(const A&... a)
    {
        (d->args.emplace_back(norm(a)), ...);
    }
    template <typename... A>
    void read(A&... a)
    {
        if (d->readFails)
            throw exception::SdBusError(22, "read");
        (rd(a), ...);
    }
    template <typename T>
    T unpack()
    {
        T t{};
        read(t);
        return t;
    }
    const char* get_member() const { return d->member.c_str(); }
    const char* get_path() const { return d->path.c_str(); }
    const char* get_sender() const { return d->sender.c_str(); }
    const char* get_interface() const { return d->intf.c_str(); }
    explicit operator bool() const { return true; }
    std::shared_ptr<stub::Msg> d;

  private:
    static std::any norm(const char* s) { return std::string(s); }
    template <typename T>
    static std::any norm(const T& t)
    {
        return std::any(t);
    }
    template <typename T>
    void rd(T& t)
    {
        if (d->payload.empty())
            throw exception::SdBusError(61, "empty");
        T* p = std::any_cast<T>(&d->payload.front());
        if constexpr (requires { typename T::mapped_type; })
        {
            // dictionaries travel the same way whatever container reads them
            using K = typename T::key_type;
            using V = typename T::mapped_type;
            T conv;
            auto from = [&](auto* q) {
                if (q && !p)
                {
                    for (auto& [k, v] : *q) conv[k] = v;
                    t = std::move(conv);
                    return true;
                }
                return false;
            };
            if (from(std::any_cast<std::map<K, V>>(&d->payload.front())) ||
                from(std::any_cast<std::unordered_map<K, V>>(&d->payload.front())))
            {
                d->payload.pop_front();
                return;
            }
        }
        if (!p)
            throw exception::SdBusError(6, "type");
        t = *p;
        d->payload.pop_front();
    }
};

namespace stub
{
// Installed by a driver.  Returns the reply or throws SdBusError.
inline std::function<message_t(message_t&)>& handler()
{
    static std::function<message_t(message_t&)> h;
    return h;
}
// names owned on the bus
inline std::vector<std::string>& names()
{
    static std::vector<std::string> v;
    return v;
}
inline std::vector<std::shared_ptr<Msg>>& calls()
{
    static std::vector<std::shared_ptr<Msg>> v;
    return v;
}
} // namespace stub

class bus_t
{
  public:
    bus_t() = default;
    template <typename P, typename I, typename M>
    message_t new_method_call(const char* service, P&& path, I&& intf,
                              M&& member)
    {
        message_t m;
        m.d->dest = service;
        m.d->path = path;
        m.d->intf = intf;
        m.d->member = member;
        return m;
    }
    message_t call(message_t& m)
    {
        stub::calls().push_back(m.d);
        if (stub::handler())
            return stub::handler()(m);
        return message_t();
    }
    message_t call(message_t&& m) { return call(m); }
    void call_noreply(message_t& m) { (void)call(m); }
    void request_name(const char* n) { stub::names().push_back(n); }
};
namespace bus
{
using bus = bus_t;
inline bus_t new_default() { return bus_t(); }
inline bus_t new_system() { return bus_t(); }
inline bus_t new_bus() { return bus_t(); }
inline bus_t new_user() { return bus_t(); }
} // namespace bus

namespace stub
{
struct MatchRec
{
    std::string rule;
    std::function<void(message_t&)> cb;
    int (*raw)(sd_bus_message*, void*, sd_bus_error*) = nullptr;
    void* ctx = nullptr;
};
inline std::vector<std::shared_ptr<MatchRec>>& matches()
{
    static std::vector<std::shared_ptr<MatchRec>> v;
    return v;
}
} // namespace stub

struct match
{
    template <typename S>
    match(bus_t&, const S& rule, int (*h)(sd_bus_message*, void*, sd_bus_error*),
          void* ctx) : rec(std::make_shared<stub::MatchRec>())
    {
        rec->rule = rule;
        rec->raw = h;
        rec->ctx = ctx;
        stub::matches().push_back(rec);
    }
    template <typename S>
    match(bus_t&, const S& rule, std::function<void(message_t&)> cb) :
        rec(std::make_shared<stub::MatchRec>())
    {
        rec->rule = rule;
        rec->cb = std::move(cb);
        stub::matches().push_back(rec);
    }
    match(match&&) = default;
    match(const match&) = delete;
    std::shared_ptr<stub::MatchRec> rec;
};
namespace bus
{
namespace match
{
using match = sdbusplus::match;
}
} // namespace bus
namespace match_rules
{
inline std::string propertiesChangedNamespace(std::string_view path,
                                              std::string_view intf)
{
    return "type='signal',interface='org.freedesktop.DBus.Properties',"
           "member='PropertiesChanged',path='" +
           std::string(path) + "',arg0namespace='" + std::string(intf) + "'";
}
} // namespace match_rules

namespace server
{
struct manager_t
{
    manager_t(bus_t&, const char*) {}
};
template <typename... T>
struct object_t : T...
{
    enum class action { defer_emit, emit_object_added, emit_interface_added,
                        emit_no_signals };
    object_t(bus_t& b, const char* p, action = action::emit_object_added) :
        T(b, p)...
    {}
    void emit_object_added() {}
};
} // namespace server
} // namespace sdbusplus

template <>
struct std::hash<sdbusplus::object_path>
{
    size_t operator()(const sdbusplus::object_path& p) const
    {
        return std::hash<std::string>()(p.str);
    }
};
