// LINK: pid/ec/pid.cpp pid/ec/logging.cpp pid/tuning.cpp pid/pidcontroller.cpp pid/fancontroller.cpp pid/util.cpp
#include "harness.hpp"
#include "zonestub.hpp"
#include "pid/fancontroller.hpp"
int main(int c, char** v)
{
    return H::run(c, v, 300000, [] {
        StubZone z;
        int n = (int)H::u(5);
        std::vector<std::string> ins;
        for (int i = 0; i < n; i++) ins.push_back("fan" + std::to_string(i));
        FanController f("x", ins, &z);
        double prev = 0;
        bool dirOnce = false;
        int steps = 1 + (int)H::u(6);
        for (int t = 0; t < steps; t++) {
            double best = 0;
            bool any = false, bad = false;
            std::vector<double> vals;
            z.missing.clear();
            for (auto& i : ins) {
                double x = H::chance(50) ? (double)H::u(20000) : H::dbl();
                z.cache[i] = {H::dbl(), x};
                vals.push_back(x);
                if (H::chance(4)) { z.missing.insert(i); bad = true; }
                if (std::isfinite(x) && x > 0 && (!any || x < best)) { best = x; any = true; }
            }
            H::ctx = "step " + std::to_string(t) + " unscaled fan readings=" + H::show(vals) + " missing=" + H::show(z.missing);
            bool threw = false;
            double got = 0;
            try { got = f.inputProc(); }
            catch (const std::exception&) { threw = true; }
            H::check("lookup error propagates", threw, bad);
            if (!threw) H::check("fan input", got, any ? best : 0.0);
            if (H::chance(80)) {
                z.maxSet = H::chance(30) ? prev : H::chance(50) ? prev + (double)((int)H::u(3) - 1) : H::dbl();
                H::ctx += " request=" + H::show(z.maxSet) + " previous=" + H::show(prev);
                double s = f.setptProc();
                H::check("setpoint", s, z.maxSet);
                H::check("remembered setpoint", f.getSetpoint(), z.maxSet);
                FanSpeedDirection d = z.maxSet > prev ? FanSpeedDirection::UP : z.maxSet < prev ? FanSpeedDirection::DOWN : FanSpeedDirection::NEUTRAL;
                H::check("direction", f.getFanDirection(), d);
                prev = z.maxSet;
                dirOnce = true;
            }
        }
        return n > 0 && dirOnce;
    });
}
