// LINK: pid/zone.cpp pid/tuning.cpp sensors/manager.cpp failsafeloggers/failsafe_logger.cpp failsafeloggers/failsafe_logger_utility.cpp
#include "harness.hpp"
#include "zonenoise.hpp"
using namespace std::chrono;
int main(int c, char** v)
{
    return H::run(c, v, 20000, [] {
        loggingEnabled = H::chance(15);
        debugEnabled = H::chance(15);
        tuningEnabled = H::chance(15);
        loggingPath = H::scratch;
        RZ::Rig r(2, 0, H::pick(std::vector<double>{75, 0, 100, 33.5}));
        auto& z = *r.zone;
        std::set<std::string> okMissing;
        std::vector<std::string> fans, therms;
        int nf = (int)H::u(4), nt = (int)H::u(4);
        H::ctx = "";
        for (int i = 0; i < nf; i++) {
            std::string n = "fan" + std::to_string(i);
            bool ok = H::chance(25);
            r.sensor(n, (int64_t)H::u(4));
            z.addFanInput(n, ok);
            fans.push_back(n);
            if (ok) okMissing.insert(n);
            H::ctx += n + (ok ? "(missing ok) " : " ");
        }
        for (int i = 0; i < nt; i++) {
            std::string n = "t" + std::to_string(i);
            bool ok = H::chance(25);
            r.sensor(n, (int64_t)H::u(4));
            z.addThermalInput(n, ok);
            if (H::chance(20)) z.addThermalInput(n, ok);
            therms.push_back(n);
            if (ok) okMissing.insert(n);
            H::ctx += n + (ok ? "(missing ok) " : " ");
        }
        std::set<std::string> failing;
        std::map<std::string, std::pair<double, double>> cache;
        std::map<std::string, std::string> why;
        auto verify = [&] {
            std::set<std::string> got;
            for (auto& [k, x] : z.getFailSafeSensors()) got.insert(k);
            H::require(got == failing, "failing sensors: expected " + H::show(failing) + ", got " + H::show(got));
            for (auto& [k, x] : z.getFailSafeSensors()) H::check("failure reason", x.first, why[k]);
            H::check("getFailSafeMode", z.getFailSafeMode(), !failing.empty());
            H::check("FailSafe property", z.failSafe(), !failing.empty());
            for (auto& [k, x] : cache) {
                auto g = z.getCachedValues(k);
                H::check(("cached value of " + k).c_str(), g.scaled, x.first);
                H::check(("cached unscaled value of " + k).c_str(), g.unscaled, x.second);
                H::check(("getCachedValue of " + k).c_str(), z.getCachedValue(k), x.first);
            }
        };
        auto init = [&] {
            z.initializeCache();
            for (auto* l : {&fans, &therms})
                for (auto& n : *l) {
                    cache[n] = {H::nan_(), H::nan_()};
                    if (!okMissing.count(n)) failing.insert(n), why[n] = "";
                }
            for (auto& n : fans) {
                auto& o = z._cachedFanOutputs.at(n);
                H::require(std::isnan(o.scaled) && std::isnan(o.unscaled), "fan output of " + n + " not reset to NaN");
            }
        };
        init();
        verify();
        if (nf + nt) for (int i = 0, k = (int)H::u(3); i < k; i++) z.addThermalPID(std::make_unique<RZ::RecController>("c" + std::to_string(i))), z.addFanPID(std::make_unique<RZ::RecController>("f" + std::to_string(i)));
        int ops = 1 + (int)H::u(6);
        for (int i = 0; i < ops; i++) {
            if (H::chance(8)) { H::ctx += "| init "; init(); verify(); continue; }
            while (H::chance(40)) { RZ::noise(z, RZ::MODE | RZ::SETPOINTS | RZ::PASSES | RZ::FLAGS); verify(); }
            bool fan = H::chance(50);
            auto& list = fan ? fans : therms;
            H::ctx += fan ? "| fans:" : "| thermals:";
            auto now = high_resolution_clock::now();
            for (auto& n : list) {
                auto* s = r.sensors[n];
                s->rd.value = H::dbl();
                s->rd.unscaled = H::dbl();
                int64_t to = s->getTimeout();
                int64_t ms;
                switch (H::u(6)) {
                    case 0: ms = to * 1000; break;
                    case 1: ms = to * 1000 - 600; break;
                    case 2: ms = to * 1000 + 999; break;
                    case 3: ms = 3600000; break;
                    default: ms = (int64_t)H::u(5) * 700; if (to && std::llabs(ms - to * 1000) < 500 && ms < to * 1000) ms = 0;
                }
                if (ms < 0) ms = 0;
                s->rd.updated = now - milliseconds(ms);
                s->failed = H::chance(25);
                s->reason = H::word();
                bool old = to != 0 && ms >= to * 1000;
                H::ctx += " " + n + "=" + H::show(s->rd.value) + (s->failed ? " failed" : "") + " age " + std::to_string(ms) + "ms timeout " + std::to_string(to) + "s";
                cache[n] = {s->rd.value, s->rd.unscaled};
                if ((s->failed || old) && !okMissing.count(n)) { failing.insert(n); why[n] = s->failed ? s->reason : "Sensor timeout"; }
                else if (!s->failed && !old) failing.erase(n);
            }
            if (fan) z.updateFanTelemetry(); else z.updateSensors();
            if (duration_cast<milliseconds>(high_resolution_clock::now() - now).count() > 300) return true; // too slow to judge ages
            verify();
        }
        return nf + nt > 0;
    });
}
