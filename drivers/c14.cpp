// LINK: pid/zone.cpp pid/tuning.cpp sensors/manager.cpp failsafeloggers/failsafe_logger.cpp failsafeloggers/failsafe_logger_utility.cpp
#include "harness.hpp"
#include "zonenoise.hpp"
int main(int c, char** v)
{
    return H::run(c, v, 30000, [] {
        RZ::Rig r((int64_t)H::u(5), 0, 75, H::chance(30));
        std::vector<std::string> log;
        int nf = (int)H::u(4), nt = (int)H::u(4);
        bool redundant = false, manual = false;
        auto& z = *r.zone;
        for (int i = 0; i < nf; i++)
            z.addFanPID(std::make_unique<RZ::RecController>("f" + std::to_string(i), [&, i] { log.push_back("f" + std::to_string(i) + (z.getRedundantWrite() ? "!" : "")); }));
        for (int i = 0; i < nt; i++)
            z.addThermalPID(std::make_unique<RZ::RecController>("t" + std::to_string(i), [&, i] { log.push_back("t" + std::to_string(i) + (z.getRedundantWrite() ? "!" : "")); }));
        for (auto n : {"a", "b", "t0"}) {
            auto* x = r.sensor(n, 0);
            x->failed = H::chance(40);
            x->rd.updated = std::chrono::high_resolution_clock::now();
            if (H::chance(40)) continue;
            if (*n == 'b') z.addFanInput(n, false);
            else z.addThermalInput(n, H::chance(30));
        }
        z.initializeCache();
        H::ctx = "fans=" + std::to_string(nf) + " thermals=" + std::to_string(nt) + ":";
        int ops = 1 + (int)H::u(12);
        for (int i = 0; i < ops; i++) {
            while (H::chance(35)) RZ::noise(z, RZ::SETPOINTS | RZ::CACHE | RZ::PERCENTS | RZ::FLAGS);
            log.clear();
            std::vector<std::string> want;
            switch (H::u(4)) {
                case 0: case 1: {
                    bool m = H::chance(50), viaBus = H::chance(50);
                    H::ctx += std::string(viaBus ? " manual(" : " setManualMode(") + (m ? "true)" : "false)");
                    if (viaBus) {
                        bool res = z.manual(m);
                        H::check("manual() result", res, m);
                        H::check("D-Bus Manual property", static_cast<ModeObject&>(z).ModeObject::manual(), m);
                    }
                    else z.setManualMode(m);
                    manual = m;
                    if (!m) redundant = true;
                    break;
                }
                case 2:
                    H::ctx += " processFans";
                    z.processFans();
                    for (int k = 0; k < nf; k++) want.push_back("f" + std::to_string(k) + (redundant ? "!" : ""));
                    redundant = false;
                    break;
                default:
                    H::ctx += " processThermals";
                    z.processThermals();
                    for (int k = 0; k < nt; k++) want.push_back("t" + std::to_string(k) + (redundant ? "!" : ""));
            }
            H::check("controllers run (! = redundant-write flag raised)", log, want);
            H::check("redundant-write flag", z.getRedundantWrite(), redundant);
            H::check("manual mode", z.getManualMode(), manual);
        }
        return true;
    });
}
