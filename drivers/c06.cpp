// LINK: pid/zone.cpp pid/tuning.cpp sensors/manager.cpp failsafeloggers/failsafe_logger.cpp failsafeloggers/failsafe_logger_utility.cpp
#include "harness.hpp"
#include "zonenoise.hpp"
int main(int c, char** v)
{
    return H::run(c, v, 50000, [] {
        debugEnabled = H::chance(10);
        double zp = H::pick(std::vector<double>{75, 0, 100, 33.5, 50});
        RZ::Rig r(2, 0, zp);
        auto& z = *r.zone;
        std::map<std::string, double> own;
        std::map<std::string, std::pair<std::string, double>> failing;
        std::vector<std::string> names = {"a", "b", "c", "d", "fan"};
        std::set<std::string> ok;
        for (auto& n : names) {
            r.sensor(n, 0);
            bool acc = H::chance(15);
            if (acc) ok.insert(n);
            z.addThermalInput(n, acc);
        }
        H::ctx = "zone percent " + H::show(zp) + ":";
        int ops = 1 + (int)H::u(10);
        for (int i = 0; i < ops; i++) {
            while (H::chance(25)) RZ::noise(z, RZ::MODE | RZ::SETPOINTS | RZ::PASSES | RZ::FLAGS);
            if (H::chance(45)) {
                std::vector<std::string> in;
                int k = (int)H::u(4);
                for (int j = 0; j < k; j++) in.push_back(H::pick(names));
                double p = H::chance(30) ? 0 : (double)H::u(101) + (H::chance(20) ? 0.5 : 0);
                H::ctx += " addPidFailSafePercent(" + H::show(in) + "," + H::show(p) + ")";
                z.addPidFailSafePercent(in, p);
                for (auto& n : in) own[n] = own.count(n) ? std::max(own[n], p) : p;
            } else if (H::chance(75)) {
                auto n = H::pick(names);
                auto why = H::word();
                H::ctx += " missing(" + n + ")";
                z.markSensorMissing(n, why);
                if (!ok.count(n)) failing[n] = {why, own.count(n) && own[n] != 0 ? own[n] : zp};
            } else {
                H::ctx += " pass:";
                for (auto& [n, sn] : r.sensors) {
                    sn->failed = H::chance(50);
                    sn->reason = H::word();
                    sn->rd.updated = std::chrono::high_resolution_clock::now();
                    H::ctx += " " + n + (sn->failed ? " failed" : " fine");
                    if (!sn->failed) failing.erase(n);
                    else if (!ok.count(n)) failing[n] = {sn->reason, own.count(n) && own[n] != 0 ? own[n] : zp};
                }
                z.updateSensors();
            }
            double want = zp, mx = 0;
            bool first = true;
            for (auto& [n, x] : failing) { if (first || mx < x.second) mx = x.second; first = false; }
            if (!failing.empty() && mx != 0) want = mx;
            H::require(z.getFailSafeSensors() == failing, "failing sensors: expected " + H::show(failing) + ", got " + H::show(z.getFailSafeSensors()));
            H::check("getFailSafePercent", z.getFailSafePercent(), want);
        }
        return true;
    });
}
