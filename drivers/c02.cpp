// LINK: pid/ec/pid.cpp pid/ec/logging.cpp pid/tuning.cpp pid/pidcontroller.cpp
#include "harness.hpp"
#include "pid/pidcontroller.hpp"
#include "pid/ec/pid.hpp"
using namespace pid_control;
struct C : PIDController
{
    C() : PIDController("ctl", nullptr) {}
    double in = 0, sp = 0;
    std::vector<double> outs;
    int ni = 0, ns = 0;
    double inputProc() override { ni++; return in; }
    double setptProc() override { ns++; return sp; }
    void outputProc(double v) override { outs.push_back(v); }
};
static std::string desc(const ec::pid_info_t& p)
{
    using H::show;
    return "init=" + show(p.initialized) + " integral=" + show(p.integral) + " lastOutput=" + show(p.lastOutput) + " lastError=" + show(p.lastError) + " P=" + show(p.proportionalCoeff) +
           " I=" + show(p.integralCoeff) + " D=" + show(p.derivativeCoeff) + " ff=" + show(p.feedFwdOffset) + "*" + show(p.feedFwdGain) + " iLim=[" + show(p.integralLimit.min) + "," + show(p.integralLimit.max) + "] oLim=[" + show(p.outLim.min) + "," +
           show(p.outLim.max) + "] slew=" + show(p.slewNeg) + "/" + show(p.slewPos) + " setptHyst=" + show(p.checkHysterWithSetpt) + " hyst=+" + show(p.positiveHysteresis) + "/-" + show(p.negativeHysteresis) + " ts=" + show(p.ts);
}
int main(int c, char** v)
{
    return H::run(c, v, 300000, [] {
        C ctl;
        ec::pid_info_t& p = *ctl.getPIDInfo();
        bool tame = H::chance(70);
        auto g = [&] { return tame ? H::smallNum() : H::dbl(); };
        p.initialized = H::chance(30);
        p.checkHysterWithSetpt = H::chance(40);
        p.ts = 1.0;
        p.integral = g(); p.lastError = g(); p.lastOutput = g();
        p.proportionalCoeff = g(); p.integralCoeff = H::chance(50) ? 0 : g(); p.derivativeCoeff = H::chance(60) ? 0 : g();
        p.feedFwdOffset = 0; p.feedFwdGain = H::chance(50) ? 0 : 1;
        p.integralLimit = {-50, 50}; p.outLim = {H::chance(50) ? 0.0 : -1000.0, H::chance(50) ? 100.0 : 10000.0};
        p.slewNeg = H::chance(80) ? 0 : g(); p.slewPos = H::chance(80) ? 0 : g();
        auto hy = [&] { return H::chance(40) ? 0.0 : H::chance(70) ? std::abs(H::smallNum()) / 2 : g(); };
        p.positiveHysteresis = hy(); p.negativeHysteresis = hy();
        double held = H::nan_();
        int n = 1 + (int)H::u(8);
        ec::pid_info_t ref = p;
        for (int i = 0; i < n; i++) {
            ctl.in = H::chance(30) ? ctl.in : g();
            ctl.sp = H::chance(50) ? ctl.sp : H::chance(30) ? ctl.in + (H::chance(50) ? p.negativeHysteresis : -p.positiveHysteresis) : g();
            H::ctx = "step " + std::to_string(i) + " " + desc(ref) + " held=" + H::show(held) + " input=" + H::show(ctl.in) + " setpoint=" + H::show(ctl.sp);
            double want;
            if (ref.checkHysterWithSetpt) {
                if (ctl.in > ctl.sp + ref.positiveHysteresis) want = ec::pid(&ref, ctl.in, ctl.sp);
                else if (ctl.in < ctl.sp - ref.negativeHysteresis) { want = 0; ref.integral = 0; }
                else want = ref.lastOutput;
            } else if (ref.positiveHysteresis == 0 && ref.negativeHysteresis == 0) want = ec::pid(&ref, ctl.in, ctl.sp);
            else {
                if (!std::isfinite(held) || ctl.in - held > ref.positiveHysteresis || held - ctl.in > ref.negativeHysteresis) held = ctl.in;
                want = ec::pid(&ref, held, ctl.sp);
            }
            ref.lastOutput = want;
            ctl.outs.clear(); ctl.ni = ctl.ns = 0;
            ctl.process();
            H::require(ctl.outs.size() == 1, "output delivered " + std::to_string(ctl.outs.size()) + " times");
            H::check("delivered output", ctl.outs[0], want);
            H::check("last output", p.lastOutput, want);
            H::check("PID state", desc(p), desc(ref));
            H::require(ctl.ni == 1 && ctl.ns == 1, "input/setpoint read a wrong number of times");
        }
        return true;
    });
}
