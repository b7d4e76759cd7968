// LINK: util.cpp pid/util.cpp
#include "harness.hpp"
#include "util.hpp"
using namespace pid_control;
int main(int c, char** v)
{
    return H::run(c, v, 100000, [] {
        std::vector<std::string> names, acc;
        std::vector<double> m;
        int n = (int)H::u(7);
        for (int i = 0; i < n; i++) names.push_back(H::chance(30) && i ? names[H::u(names.size())] : H::word(3));
        int k = (int)H::u(9);
        for (int i = 0; i < k; i++) m.push_back(H::dbl());
        int q = (int)H::u(5);
        for (int i = 0; i < q; i++) acc.push_back(n && H::chance(60) ? names[H::u(n)] : H::word(3));
        H::ctx = "names=" + H::show(names) + " values=" + H::show(m) + " acceptable=" + H::show(acc);
        auto r = spliceInputs(names, m, acc);
        H::check("number of entries", r.size(), names.size());
        for (size_t i = 0; i < r.size(); i++) {
            H::ctx += "";
            H::check("name", r[i].name, names[i]);
            H::check("conversion mark", r[i].convertTempToMargin, i < m.size());
            H::check("conversion value", r[i].convertMarginZero, i < m.size() ? m[i] : H::nan_());
            H::check("missing acceptable", r[i].missingIsAcceptable, std::find(acc.begin(), acc.end(), names[i]) != acc.end());
        }
        auto s = splitNames(r);
        H::check("split names", s, names);
        ec::pid_info_t p{};
        ec::pidinfo o{};
        p.initialized = H::chance(50); p.integral = H::dbl(); p.lastOutput = H::dbl(); p.lastError = H::dbl();
        p.ts = H::dbl(); p.proportionalCoeff = H::dbl(); p.integralCoeff = H::dbl(); p.derivativeCoeff = H::dbl();
        p.feedFwdGain = H::dbl(); p.slewNeg = H::dbl(); p.checkHysterWithSetpt = H::chance(50); p.outLim = {H::dbl(), H::dbl()};
        o.checkHysterWithSetpt = H::chance(50); o.ts = H::dbl(); o.proportionalCoeff = H::dbl(); o.integralCoeff = H::dbl();
        o.derivativeCoeff = H::dbl(); o.feedFwdOffset = H::dbl(); o.feedFwdGain = H::dbl();
        o.integralLimit = {H::dbl(), H::dbl()}; o.outLim = {H::dbl(), H::dbl()}; o.slewNeg = H::dbl(); o.slewPos = H::dbl();
        o.positiveHysteresis = H::dbl(); o.negativeHysteresis = H::dbl();
        auto before = p;
        std::string d = "initializePIDStruct from ts=" + H::show(o.ts) + " P=" + H::show(o.proportionalCoeff) + " I=" + H::show(o.integralCoeff) + " D=" + H::show(o.derivativeCoeff);
        H::ctx = d;
        initializePIDStruct(&p, o);
        H::check("initialized", p.initialized, before.initialized);
        H::check("integral", p.integral, before.integral);
        H::check("lastOutput", p.lastOutput, before.lastOutput);
        H::check("lastError", p.lastError, before.lastError);
        H::check("checkHysterWithSetpt", p.checkHysterWithSetpt, o.checkHysterWithSetpt);
#define F(x) H::check(#x, p.x, o.x)
        F(ts); F(proportionalCoeff); F(integralCoeff); F(derivativeCoeff); F(feedFwdOffset); F(feedFwdGain); F(integralLimit.min); F(integralLimit.max);
        F(outLim.min); F(outLim.max); F(slewNeg); F(slewPos); F(positiveHysteresis); F(negativeHysteresis);
        return n > 0;
    });
}
