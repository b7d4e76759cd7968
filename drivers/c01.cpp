// LINK: pid/ec/pid.cpp pid/ec/logging.cpp pid/tuning.cpp
#include "harness.hpp"
#include "pid/ec/pid.hpp"
using namespace pid_control::ec;

static double cl(double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; }

// executable contract of ec::pid
static double spec(pid_info_t& p, double x, double sp)
{
    double e = sp - x, pt = p.proportionalCoeff * e, it = 0.0;
    if (p.integralCoeff != 0.0) it = cl(p.integral + e * p.integralCoeff * p.ts, p.integralLimit.min, p.integralLimit.max);
    double dt = p.derivativeCoeff * ((e - p.lastError) / p.ts);
    double ff = (sp + p.feedFwdOffset) * p.feedFwdGain;
    double o = cl(pt + it + dt + ff, p.outLim.min, p.outLim.max);
    if (p.initialized) {
        bool sl = false;
        if (p.slewNeg != 0.0) { sl = true; double m = p.lastOutput + p.slewNeg * p.ts; if (o < m) o = m; }
        if (p.slewPos != 0.0) { sl = true; double m = p.lastOutput + p.slewPos * p.ts; if (o > m) o = m; }
        if (sl) it = o - pt;
    }
    p.integral = cl(it, p.integralLimit.min, p.integralLimit.max);
    p.initialized = true;
    p.lastError = e;
    p.lastOutput = o;
    return o;
}
static std::string desc(const pid_info_t& p)
{
    using H::show;
    return "init=" + show(p.initialized) + " ts=" + show(p.ts) + " integral=" + show(p.integral) + " lastOutput=" + show(p.lastOutput) + " lastError=" + show(p.lastError) +
           " P=" + show(p.proportionalCoeff) + " I=" + show(p.integralCoeff) + " D=" + show(p.derivativeCoeff) + " ffo=" + show(p.feedFwdOffset) + " ffg=" + show(p.feedFwdGain) +
           " iLim=[" + show(p.integralLimit.min) + "," + show(p.integralLimit.max) + "] oLim=[" + show(p.outLim.min) + "," + show(p.outLim.max) + "] slew=" + show(p.slewNeg) + "/" + show(p.slewPos) +
           " hyst=" + show(p.positiveHysteresis) + "/" + show(p.negativeHysteresis);
}
// Rounding of the terms: a re-associated sum or product is the same law.
static double scaleOf(const pid_info_t& p, double x, double sp)
{
    auto f = [](double v) { return std::fabs(v); };
    double e = f(sp) + f(x), ts = f(p.ts);
    double s = f(p.proportionalCoeff) * e + f(p.integral) + e * f(p.integralCoeff) * ts + f(p.derivativeCoeff) * ((e + f(p.lastError)) / ts) +
               (f(sp) + f(p.feedFwdOffset)) * f(p.feedFwdGain) + f(p.lastOutput) + (f(p.slewNeg) + f(p.slewPos)) * ts;
    for (double g : {p.integralCoeff * p.ts, p.derivativeCoeff / p.ts, 1 / p.ts}) s += f(g) > 1e200 ? INFINITY : 0;
    return s;
}
static bool plain(const pid_info_t& p, double x, double sp)
{
    for (double v : {p.ts, p.integral, p.lastOutput, p.lastError, p.proportionalCoeff, p.integralCoeff, p.derivativeCoeff, p.feedFwdOffset, p.feedFwdGain, p.slewNeg, p.slewPos, x, sp})
        if (!std::isfinite(v)) return false;
    return p.ts != 0;
}
static double tol; // < 0: exactly equal
static bool close(double a, double b)
{
    if (H::same(a, b) || tol == INFINITY) return true;
    return tol >= 0 && std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol;
}
static void num(const char* what, double got, double want)
{
    if (!close(got, want)) H::check(what, H::show(got), H::show(want));
}
static double coef() { return H::chance(35) ? 0.0 : H::dbl(); }
int main(int c, char** v)
{
    return H::run(c, v, 400000, [] {
        pid_info_t p;
        bool tame = H::chance(50);
        auto g = [&] { return tame ? H::smallNum() : H::dbl(); };
        p.initialized = H::chance(60);
        p.checkHysterWithSetpt = H::chance(30);
        p.ts = H::chance(70) ? (H::chance(50) ? 0.1 : 1.0) : g();
        p.integral = g(); p.lastOutput = g(); p.lastError = g();
        p.proportionalCoeff = coef(); p.integralCoeff = H::chance(35) ? 0.0 : g(); p.derivativeCoeff = H::chance(50) ? 0.0 : g();
        p.feedFwdOffset = H::chance(50) ? 0.0 : g(); p.feedFwdGain = H::chance(50) ? 0.0 : g();
        double a = g(), b = g();
        p.integralLimit.min = std::min(a, b); p.integralLimit.max = std::max(a, b);
        a = g(), b = g();
        if (H::chance(40)) { a *= 1000; b *= 1000; }
        p.outLim.min = std::min(a, b); p.outLim.max = std::max(a, b);
        p.slewNeg = H::chance(40) ? 0.0 : g(); p.slewPos = H::chance(40) ? 0.0 : g();
        p.positiveHysteresis = g(); p.negativeHysteresis = g();
        std::string nm = "x";
        const std::string* np = H::chance(50) ? &nm : nullptr;
        // a history of steps, from either a fresh or an arbitrary carried state
        int n = 1 + (int)H::u(4);
        for (int i = 0; i < n; i++) {
            pid_info_t q = p, before = p;
            double x = g(), sp = H::chance(20) ? x : g();
            H::ctx = desc(p) + " input=" + H::show(x) + " setpoint=" + H::show(sp);
            double sc = scaleOf(p, x, sp);
            tol = !plain(p, x, sp) ? -1 : (sc < 1e200 && (sc == 0 || sc > 1e-200)) ? 1e-9 * sc : INFINITY;
            double want = spec(q, x, sp), got = pid(&p, x, sp, np);
            num("pid() result", got, want);
            num("integral", p.integral, q.integral);
            num("lastError", p.lastError, q.lastError);
            num("lastOutput", p.lastOutput, q.lastOutput);
            q.integral = p.integral, q.lastError = p.lastError, q.lastOutput = p.lastOutput;
            H::check("initialized", p.initialized, true);
            H::check("all other fields", desc(p), desc(q));
            H::check("checkHysterWithSetpt", p.checkHysterWithSetpt, before.checkHysterWithSetpt);
        }
        return true;
    });
}
