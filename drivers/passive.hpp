// a real DbusPassive on a stub bus, and the state its signals should give it
#pragma once
#include <sdbusplus/bus.hpp>
#include "dbus/dbuspassive.hpp"
#include "dbus/dbuspassiveredundancy.hpp"
using namespace pid_control;
namespace DP
{
inline sdbusplus::bus_t bus;
struct NoHelper : DbusHelperInterface
{
    std::string getService(const std::string&, const std::string&) override { return "svc"; }
    void getProperties(const std::string&, const std::string&, SensorProperties*) override {}
    bool thresholdsAsserted(const std::string&, const std::string&) override { return false; }
};
using V = std::variant<int64_t, double, bool>;
using M = std::map<std::string, V>;
inline sdbusplus::message_t signal(const std::string& intf, const M& m)
{
    sdbusplus::message_t r;
    r.d->intf = "org.freedesktop.DBus.Properties";
    r.d->member = "PropertiesChanged";
    r.d->payload.push_back(intf);
    r.d->payload.push_back(m);
    return r;
}
inline double num(const V& v) { return std::visit([](auto x) { return (double)x; }, v); }
inline std::string show(const M& m)
{
    std::string s = "{";
    for (auto& [k, v] : m) s += k + "=" + (v.index() == 0 ? "i" : v.index() == 1 ? "d" : "b") + H::show(num(v)) + " ";
    return s + "}";
}
inline const std::string VALUE = "xyz.openbmc_project.Sensor.Value", CRIT = "xyz.openbmc_project.Sensor.Threshold.Critical",
                         WARN = "xyz.openbmc_project.Sensor.Threshold.Warning", AVAIL = "xyz.openbmc_project.State.Decorator.Availability",
                         FUNC = "xyz.openbmc_project.State.Decorator.OperationalStatus";
// the contract, executed on plain values
struct Model
{
    bool margin, fan, missing;
    bool failed = false, functional = true, available = true, over = false, unavAsFailed = true, bad = false, hot = false;
    double value = 0, unscaled = 0, mn = 0, mx = 0;
    int64_t scale = 0;
    bool touched = false; // a value was stored by the last step
    void update(double v, bool force)
    {
        bad = !std::isfinite(v);
        if (bad && !force) return;
        unscaled = v * std::pow(10.0, (double)scale);
        value = (mx > 0 && mx > mn) ? (unscaled - mn) / (mx - mn) : unscaled;
        if (margin) hot = unscaled <= 0;
        touched = true;
    }
    void init(const SensorProperties& s, bool f)
    {
        failed = f;
        scale = s.scale;
        mn = s.min * std::pow(10.0, (double)scale);
        mx = s.max * std::pow(10.0, (double)scale);
        unavAsFailed = s.unavailableAsFailed;
        if (!over) available = s.available;
        update(s.value, true);
    }
    // false when the property has the wrong type
    bool signal(const std::string& i, const M& m)
    {
        auto flag = [&](const char* k, bool& out) { auto it = m.find(k); if (it == m.end()) return true; if (it->second.index() != 2) return false; out = std::get<bool>(it->second); return true; };
        if (i == VALUE) { auto it = m.find("Value"); if (it != m.end()) update(num(it->second), false); }
        else if (i == CRIT) {
            if (!m.count("CriticalAlarmLow") && !m.count("CriticalAlarmHigh")) return true;
            bool l = false, h = false;
            if (!flag("CriticalAlarmLow", l)) return false;
            if (!l && !flag("CriticalAlarmHigh", h)) return false;
            failed = l || h;
        }
        else if (i == AVAIL) {
            bool a = available;
            if (!m.count("Available")) return true;
            if (!flag("Available", a)) return false;
            available = a; over = true;
            if (!a) update(H::nan_(), true);
        }
        else if (i == FUNC) return flag("Functional", functional);
        return true;
    }
    bool isFailed(bool red) const
    {
        if (red || missing) return true;
        if (!fan && !available && !unavAsFailed) return false;
        return bad || hot || failed || !available || !functional;
    }
    std::string reason() const
    {
        return missing ? "Sensor D-Bus object missing" : bad ? "Sensor reading bad" : hot ? "Margin hot" : failed ? "Sensor threshold asserted"
               : !available ? "Sensor unavailable" : !functional ? "Sensor not functional" : "Unknown";
    }
};
inline SensorProperties props()
{
    SensorProperties s;
    s.scale = H::chance(50) ? 0 : (int64_t)H::u(8) - 5;
    s.value = H::chance(15) ? H::nan_() : H::dbl();
    if (H::chance(40)) { s.min = H::smallNum(); s.max = H::chance(80) ? s.min + H::uniform(-5, 50) : H::fin(); }
    s.available = H::chance(80);
    s.unavailableAsFailed = H::chance(50);
    return s;
}
inline V value() { int k = (int)H::u(10); if (k == 0) return H::chance(50); if (k < 3) return (int64_t)H::u(200) - 50; return H::chance(15) ? H::nan_() : H::dbl(); }
inline std::pair<std::string, M> anySignal(bool wrongTypes)
{
    std::string i = H::pick(std::vector<std::string>{VALUE, VALUE, CRIT, CRIT, WARN, AVAIL, FUNC, "xyz.openbmc_project.Other"});
    M m;
    if (H::chance(50) || i == VALUE) if (H::chance(90)) m["Value"] = value();
    auto b = [&]() -> V { return wrongTypes && H::chance(10) ? V((int64_t)1) : V(H::chance(50)); };
    for (const char* k : {"CriticalAlarmLow", "CriticalAlarmHigh", "WarningAlarmHigh", "Available", "Functional", "CriticalHigh"}) if (H::chance(60)) m[k] = b();
    return {i, m};
}
} // namespace DP
