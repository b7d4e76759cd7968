// LINK: pid/ec/stepwise.cpp pid/stepwisecontroller.cpp pid/tuning.cpp
#include "harness.hpp"
#include "zonestub.hpp"
#include "pid/stepwisecontroller.hpp"
#include "pid/ec/stepwise.hpp"
#include "errors/exception.hpp"
static double spec(const ec::StepwiseInfo& s, double x)
{
    double v = s.output[0];
    for (int i = 1; i < 20; i++) {
        if (std::isnan(s.reading[i]) || s.reading[i] > x) break;
        v = s.output[i];
    }
    return v;
}
int main(int c, char** v)
{
    static_assert(ec::maxStepwisePoints == 20);
    return H::run(c, v, 100000, [] {
        ec::StepwiseInfo s{};
        s.ts = 1;
        int n = H::chance(30) ? 20 : 1 + (int)H::u(20);
        double r = H::smallNum();
        for (int i = 0; i < 20; i++) { s.reading[i] = H::nan_(); s.output[i] = H::nan_(); }
        for (int i = 0; i < n; i++) {
            s.reading[i] = H::chance(90) ? r : H::dbl();
            r += H::u(4);
            s.output[i] = H::chance(80) ? 10 + 3 * i + (double)H::u(3) : H::dbl();
        }
        s.isCeiling = H::chance(30);
        s.positiveHysteresis = H::chance(40) ? 0 : H::chance(90) ? (double)H::u(6) / 2 : H::dbl();
        s.negativeHysteresis = H::chance(40) ? 0 : H::chance(90) ? (double)H::u(6) / 2 : H::dbl();
        std::vector<double> rd(s.reading, s.reading + 20), ot(s.output, s.output + 20);
        std::string d = "readings=" + H::show(rd) + " outputs=" + H::show(ot) + " hyst=" + H::show(s.positiveHysteresis) + "/" + H::show(s.negativeHysteresis);
        for (int i = 0; i < 3; i++) {
            double x = H::chance(60) ? s.reading[H::u(20)] + (double)((int)H::u(3) - 1) * 0.5 : H::dbl();
            H::ctx = d + " lookup at " + H::show(x);
            H::check("stepwise()", ec::stepwise(s, x), spec(s, x));
        }
        StubZone z;
        std::vector<std::string> ins;
        int k = 1 + (int)H::u(4);
        for (int i = 0; i < k; i++) ins.push_back("in" + std::to_string(i));
        std::string id = H::word();
        auto ctl = StepwiseController::createStepwiseController(&z, id, ins, s);
        double lastIn = H::nan_(), lastOut = H::nan_();
        double base = s.reading[H::u(n)];
        int steps = 1 + (int)H::u(6);
        for (int t = 0; t < steps; t++) {
            double m = std::numeric_limits<double>::lowest();
            std::vector<double> vals;
            for (auto& i : ins) {
                double x = H::chance(70) ? base + (double)((int)H::u(9) - 4) / 2 : H::chance(20) ? H::nan_() : H::chance(15) ? (H::chance(50) ? 1 : -1) * std::numeric_limits<double>::infinity() : H::dbl();
                z.cache[i] = {x, H::dbl()};
                vals.push_back(x);
                if (m < x) m = x;
            }
            bool look = std::isnan(lastOut) || m - lastIn > s.positiveHysteresis || lastIn - m > s.negativeHysteresis;
            H::ctx = d + " step " + std::to_string(t) + " inputs=" + H::show(vals) + " lastInput=" + H::show(lastIn) + " lastOutput=" + H::show(lastOut) + " ceiling=" + H::show(s.isCeiling);
            if (look) { lastOut = spec(s, m); lastIn = m; }
            z.setpoints.clear(); z.ceilings.clear();
            ctl->process();
            if (s.isCeiling) {
                H::require(z.ceilings.size() == 1 && z.setpoints.empty(), "ceiling controller must deliver exactly one RPM ceiling");
                H::check("ceiling", z.ceilings[0], lastOut);
            } else {
                H::require(z.setpoints.size() == 1 && z.ceilings.empty(), "controller must deliver exactly one setpoint");
                H::check("setpoint", z.setpoints[0].first, lastOut);
                H::check("setpoint name", z.setpoints[0].second, id);
            }
        }
        return true;
    });
}
