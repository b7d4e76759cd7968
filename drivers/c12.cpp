// LINK: dbus/dbuspassive.cpp dbus/dbusutil.cpp dbus/dbuspassiveredundancy.cpp failsafeloggers/failsafe_logger_utility.cpp
#include "harness.hpp"
#include "passive.hpp"
int main(int c, char** v)
{
    return H::run(c, v, 60000, [] {
        sdbusplus::stub::matches().clear();
        std::string type = H::pick(std::vector<std::string>{"fan", "temp", "margin", "margin", "power"});
        std::string path = "/xyz/openbmc_project/sensors/t/" + H::word();
        DbusPassive s(DP::bus, type, "id", std::make_unique<DP::NoHelper>(), false, path, nullptr);
        H::require(sdbusplus::stub::matches().size() == 1, "the sensor listens to one property-change match");
        auto& mt = *sdbusplus::stub::matches().back();
        H::require(mt.rule.find("PropertiesChanged") != std::string::npos && mt.rule.find("path='" + path + "'") != std::string::npos, "match rule of the sensor's own path: " + mt.rule);
        DP::Model m{type == "margin", type == "fan", false};
        auto p = DP::props();
        s.initFromSettings(p, false);
        m.init(p, false);
        H::ctx = type + " scale=" + H::show(p.scale) + " min=" + H::show(p.min) + " max=" + H::show(p.max) + " value=" + H::show(p.value) + ":";
        auto see = [&](std::chrono::high_resolution_clock::time_point before, std::chrono::high_resolution_clock::time_point old) {
            auto r = s.read();
            H::check("scaled value", r.value, m.value);
            H::check("unscaled value", r.unscaled, m.unscaled);
            if (m.touched) H::require(r.updated >= before, "the time stamp of a stored value is fresh");
            else H::require(r.updated == old, "the time stamp stays when no value is stored");
            H::check("failed", s.getFailed(), m.isFailed(false));
            H::check("reason", s.getFailReason(), m.reason());
        };
        auto t0 = std::chrono::high_resolution_clock::now();
        see({}, {});
        int n = 1 + (int)H::u(8);
        for (int i = 0; i < n; i++) {
            auto old = s.read().updated, before = std::chrono::high_resolution_clock::now();
            m.touched = false;
            switch (H::u(6)) {
                case 0: { double x = H::dbl(); bool f = H::chance(50); H::ctx += " update(" + H::show(x) + (f ? ",force)" : ")"); s.updateValue(x, f); m.update(x, f); break; }
                case 1: { double x = H::dbl(), y = H::dbl(); H::ctx += " set(" + H::show(x) + "," + H::show(y) + ")"; s.setValue(x, y); m.value = x; m.unscaled = y; m.touched = true; break; }
                default: {
                    auto [i, d] = DP::anySignal(true);
                    auto msg = DP::signal(i, d);
                    if (H::chance(3)) msg.d->readFails = true;
                    H::ctx += " " + i + DP::show(d);
                    sdbusplus::stub::SdMsg sm{msg.d};
                    bool threw = false, want = msg.d->readFails;
                    try { mt.raw(reinterpret_cast<sd_bus_message*>(&sm), mt.ctx, nullptr); } catch (const std::exception&) { threw = true; }
                    if (!want) want = !m.signal(i, d);
                    H::check("a property of the wrong type is an error", threw, want);
                }
            }
            see(before, old);
        }
        (void)t0;
        return true;
    });
}
