// LINK: dbus/dbuspassive.cpp dbus/dbusutil.cpp dbus/dbuspassiveredundancy.cpp failsafeloggers/failsafe_logger_utility.cpp
#include "harness.hpp"
#include "passive.hpp"
int main(int c, char** v)
{
    return H::run(c, v, 60000, [] {
        sdbusplus::stub::matches().clear();
        std::string type = H::pick(std::vector<std::string>{"fan", "temp", "margin", "power", "powersum", "margins", "Fan"});
        bool missing = H::chance(12);
        std::string path = "/xyz/openbmc_project/sensors/t/" + H::word();
        std::shared_ptr<DbusPassiveRedundancy> red;
        if (H::chance(50)) {
            sdbusplus::stub::handler() = [](sdbusplus::message_t&) -> sdbusplus::message_t { throw sdbusplus::exception::SdBusError(5, "stub"); };
            red = std::make_shared<DbusPassiveRedundancy>(DP::bus);
            sdbusplus::stub::handler() = {};
        }
        DbusPassive s(DP::bus, type, "id", std::make_unique<DP::NoHelper>(), missing, path, red);
        DP::Model m{type == "margin", type == "fan", missing};
        H::ctx = type + (missing ? " object missing" : "") + (red ? " redundancy" : "") + ":";
        auto see = [&] {
            bool r = red && red->getFailed().count(path);
            bool got = s.getFailed();
            H::check("failed", got, m.isFailed(r));
            H::check("reason", s.getFailReason(), m.reason());
        };
        {
            auto p = DP::props();
            bool f = H::chance(20);
            H::ctx += " init(" + H::show(p.value) + ",avail=" + H::show(p.available) + ",uaf=" + H::show(p.unavailableAsFailed) + "," + H::show(f) + ")";
            s.initFromSettings(p, f);
            m.init(p, f);
        }
        see();
        int n = 1 + (int)H::u(8);
        for (int i = 0; i < n; i++) {
            bool b = H::chance(50);
            switch (H::u(7)) {
                case 0: { auto p = DP::props(); H::ctx += " init(" + H::show(p.value) + ",avail=" + H::show(p.available) + ",uaf=" + H::show(p.unavailableAsFailed) + "," + H::show(b) + ")"; s.initFromSettings(p, b); m.init(p, b); break; }
                case 1: s.setFailed(b); m.failed = b; H::ctx += " setFailed(" + H::show(b) + ")"; break;
                case 2: s.setFunctional(b); m.functional = b; H::ctx += " setFunctional(" + H::show(b) + ")"; break;
                case 3: s.setAvailable(b); m.available = b; m.over = true; H::ctx += " setAvailable(" + H::show(b) + ")"; break;
                case 4: s.setAvailableFromProperty(b); if (!m.over) m.available = b; H::ctx += " setAvailableFromProperty(" + H::show(b) + ")"; break;
                case 5: { auto [i, d] = DP::anySignal(false); auto msg = DP::signal(i, d); H::ctx += " " + i + DP::show(d); handleSensorValue(msg, &s); m.signal(i, d); break; }
                default:
                    if (red) {
                        auto& f = const_cast<std::set<std::string>&>(red->getFailed());
                        if (H::chance(50)) f.insert(path); else f.erase(path);
                        f.insert(path + "x");
                        H::ctx += std::string(" redundancy-failed=") + (f.count(path) ? "1" : "0");
                    }
            }
            see();
        }
        return true;
    });
}
