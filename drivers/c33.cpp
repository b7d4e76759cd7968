// LINK: dbus/dbushelper.cpp dbus/dbusutil.cpp util.cpp pid/tuning.cpp
// Signals reach the matches that discovery made; one second is one millisecond here.
#include "harness.hpp"
#include <sdbusplus/bus.hpp>
#include <sdbusplus/bus/match.hpp>
#include <boost/asio/error.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/steady_timer.hpp>
#include <chrono>
#include <list>
#include <regex>
#include <thread>
#include "dbus/dbusconfiguration.hpp"
#include "dbus/dbushelper.hpp"
#include "dbus/dbusutil.hpp"
#include "util.hpp"
namespace { int reloads = 0; bool again = false; }
namespace pid_control { void tryRestartControlLoops(bool first) { reloads++; again = again || !first; } }
#define seconds milliseconds
#include "dbus/dbusconfiguration.cpp"
#undef seconds
using namespace std::chrono;
using Assoc = std::tuple<std::string, std::string, std::string>;
using Intf = std::unordered_map<std::string, std::variant<std::vector<Assoc>, bool>>;
using Data = std::unordered_map<std::string, Intf>;
namespace
{
const std::string MODE = "xyz.openbmc_project.Control.ThermalMode", CFG = "xyz.openbmc_project.Configuration.", ASSOC = "xyz.openbmc_project.Association",
                  DEFS = "xyz.openbmc_project.Association.Definitions", SENSORS = "/xyz/openbmc_project/sensors/";
std::string fieldOf(const std::string& rule, const std::string& k)
{
    std::smatch m;
    return std::regex_search(rule, m, std::regex("(^|,)\\s*" + k + "\\s*=\\s*'([^']*)'")) ? m[2].str() : "";
}
// whether the rule lets a signal of this member about this interface or path through
bool passes(const std::string& rule, const std::string& member, const std::string& what)
{
    if (fieldOf(rule, "type") != "signal" || fieldOf(rule, "member") != member) return false;
    if (member == "PropertiesChanged") {
        auto ns = fieldOf(rule, "arg0namespace"), one = fieldOf(rule, "arg0");
        if (!one.empty()) return one == what;
        return !ns.empty() && (what == ns || what.starts_with(ns + "."));
    }
    auto p = fieldOf(rule, "arg0path");
    return !p.empty() && (what == p || (p.back() == '/' && what.starts_with(p)) || (what.back() == '/' && p.starts_with(what)));
}
void deliver(sdbusplus::stub::MatchRec& r, sdbusplus::message_t& m)
{
    if (r.cb) { r.cb(m); return; }
    sdbusplus::stub::SdMsg s{m.d};
    r.raw(reinterpret_cast<sd_bus_message*>(&s), r.ctx, nullptr);
}
}
int main(int c, char** v)
{
    static boost::asio::io_context io;
    static boost::asio::steady_timer timer(io);
    return H::run(c, v, 250, [] {
        auto& ms = sdbusplus::stub::matches();
        sdbusplus::bus_t bus;
        std::map<std::string, pid_control::conf::SensorConfig> s;
        std::map<int64_t, pid_control::conf::PIDConf> z;
        std::map<int64_t, pid_control::conf::ZoneConfig> d;
        sdbusplus::stub::handler() = [](sdbusplus::message_t&) -> sdbusplus::message_t { throw sdbusplus::exception::SdBusError(5, "stub"); };
        auto discover = [&] { try { pid_control::dbus_configuration::init(bus, timer, s, z, d); } catch (const std::exception&) {} };
        bool fresh = ms.empty();
        discover();
        size_t made = ms.size();
        H::ctx = "after discovery:";
        if (!fresh || H::chance(50)) { discover(); H::check("the matches are made once", ms.size(), made); }
        timer.cancel();
        io.restart();
        io.run();
        reloads = 0, again = false;
        int pending = 0; // something to reload for
        steady_clock::time_point last;
        bool any = false;
        debugEnabled = H::chance(20);
        for (int i = 0, n = 1 + (int)H::u(6); i < n; i++) {
            std::string member = H::pick(std::vector<std::string>{"PropertiesChanged", "InterfacesAdded", "InterfacesRemoved"}), what;
            bool due = true;
            sdbusplus::message_t m;
            m.d->member = member;
            if (member == "PropertiesChanged") {
                what = H::pick(std::vector<std::string>{MODE, CFG + "Pid", CFG + "Pid.Zone", CFG + "Stepwise", "xyz.openbmc_project.Sensor.Value", CFG + "Other", "xyz.openbmc_project.Control.FanPwm"});
                due = what == MODE || what == CFG + "Pid" || what == CFG + "Pid.Zone" || what == CFG + "Stepwise";
                m.d->intf = "org.freedesktop.DBus.Properties";
                m.d->payload = {what};
                H::ctx += " " + member + "(" + what + ")";
            } else {
                what = H::pick(std::vector<std::string>{SENSORS + "temperature/cpu0", SENSORS + "fan_tach/fan0", SENSORS + "power/psu", "/xyz/openbmc_project/inventory/board"});
                due = what.starts_with(SENSORS);
                m.d->intf = "org.freedesktop.DBus.ObjectManager";
                H::ctx += " " + member + "(" + what;
                if (member == "InterfacesAdded") {
                    Data data;
                    if (H::chance(50)) data[DEFS]["Associations"] = std::vector<Assoc>{{"a", "b", "c"}};
                    if (H::chance(50)) data[ASSOC]["endpoints"] = true;
                    bool only = !data.empty();
                    if (!only || H::chance(40)) {
                        for (int k = 0, t = 1 + (int)H::u(2); k < t; k++) data[H::pick(std::vector<std::string>{"xyz.openbmc_project.Sensor.Value", "xyz.openbmc_project.AssociationX", "xyz.openbmc_project.State.Decorator.Availability"})]["P"] = false;
                        only = false;
                    }
                    for (auto& [k, x] : data) H::ctx += " " + k;
                    due = due && !only;
                    m.d->payload = {sdbusplus::object_path(what), data};
                } else m.d->payload = {sdbusplus::object_path(what), std::vector<std::string>{"xyz.openbmc_project.Sensor.Value"}};
                H::ctx += ")";
            }
            auto payload = m.d->payload;
            auto before = timer.expiry();
            auto t0 = steady_clock::now();
            for (auto& r : ms)
                if (passes(r->rule, member, what)) { m.d->payload = payload; deliver(*r, m); }
            auto t1 = steady_clock::now();
            if (due) {
                H::require(timer.expiry() >= t0 + milliseconds(2) && timer.expiry() <= t1 + milliseconds(2), "the reload is due two seconds after the signal");
                pending = 1, any = true;
                last = t0;
            } else H::require(timer.expiry() == before, "a signal that means nothing schedules no reload");
            if (H::chance(15)) { std::this_thread::sleep_for(microseconds(H::u(800))); io.restart(); io.poll(); H::ctx += " ~"; if (reloads && pending && steady_clock::now() >= last + milliseconds(2)) { H::check("reloads", reloads, 1); reloads = 0; pending = 0; } H::check("reloads while signals keep coming", reloads, 0); }
            if (H::chance(10)) { io.restart(); io.run(); H::ctx += " ..."; H::check("reloads after a pause", reloads, pending); reloads = pending = 0; }
        }
        bool cancelled = H::chance(15);
        if (cancelled) { H::ctx += " cancelled"; if (timer.cancel()) pending = 0; }
        io.restart();
        io.run();
        H::check("reloads after the last signal", reloads, pending);
        if (reloads) H::require(steady_clock::now() >= last + milliseconds(2), "no reload before two quiet seconds");
        H::require(!again, "the reload starts at once");
        return any;
    });
}
