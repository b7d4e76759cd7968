// LINK: pid/ec/logging.cpp pid/ec/pid.cpp pid/tuning.cpp
#include "harness.hpp"
#include <sys/wait.h>
#include "pid/ec/logging.hpp"
#include "pid/ec/pid.hpp"
#include "pid/tuning.hpp"
using namespace pid_control;
namespace
{
std::vector<std::string> readLines(const std::string& f)
{
    std::ifstream in(f);
    std::vector<std::string> r;
    for (std::string l; std::getline(in, l);) r.push_back(l);
    return r;
}
struct Log
{
    std::string clean;
    long long last = 0;
    std::array<double, 16> ctx{};
    size_t lines = 0, coeffs = 0; // beyond the header
    bool first = true;
};
std::array<double, 16> flat(const ec::PidCoreContext& c)
{
    return {c.input, c.setpoint, c.error, c.proportionalTerm, c.integralTerm1, c.integralTerm2, c.derivativeTerm, c.feedFwdTerm,
            c.output1, c.output2, c.minOut, c.maxOut, c.integralTerm3, c.output3, c.integralTerm, c.output};
}
ec::PidCoreContext unflat(const std::array<double, 16>& a)
{
    return {a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]};
}
bool scenario(const std::string& dir)
{
    std::map<std::string, Log> model;
    coreLoggingEnabled = H::chance(85);
    loggingPath = dir;
    bool badDir = H::chance(8);
    if (badDir) loggingPath = dir + "/absent";
    H::ctx = std::string(coreLoggingEnabled ? "enabled" : "disabled") + (badDir ? " unusable folder" : "") + ":";
    std::vector<std::string> names{"", "_", "Fan 0", "Fan0", "Fan_0", "F0", "-/..", "a/b", "ab", "Ab", "A-Z", "AZ", "@[`{:", "09", "zone 1 !", H::str(), H::word()};
    { std::string s; for (int i = 0, n = 1 + (int)H::u(4); i < n; i++) s += (char)(1 + H::u(255)); names.push_back(s); }
    long long now = 1 + (long long)H::u(100000);
    std::vector<double> vals{0.0, 1.0, 2.5, -3.0, H::dbl()};
    bool any = false;
    for (int i = 0, n = 1 + (int)H::u(25); i < n; i++) {
        std::string nm = H::pick(names);
        if (H::chance(5)) coreLoggingEnabled = !coreLoggingEnabled, H::ctx += " toggle";
        if (H::chance(40)) {
            ec::pid_info_t info;
            memset(static_cast<void*>(&info), 0, sizeof info);
            H::ctx += " init " + H::show(nm);
            ec::LogInit(nm, &info);
            std::string cl;
            for (char c : nm) if ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9')) cl += c;
            if (coreLoggingEnabled && !cl.empty()) {
                bool used = false;
                for (auto& [k, l] : model) if (k != nm && l.clean == cl) used = true;
                if (model.count(nm) || (!used && !badDir)) {
                    auto& l = model[nm];
                    l.clean = cl;
                    l.first = true;
                    l.last = 0;
                    l.ctx.fill(0);
                    l.coeffs++;
                    any = true;
                }
            }
        }
        else {
            auto* p = ec::LogPeek(nm);
            H::require((p != nullptr) == (model.count(nm) > 0), "a log exists exactly for the names that were accepted: " + H::show(nm));
            if (!p) continue;
            auto& l = model.at(nm);
            std::array<double, 16> a = l.first ? std::array<double, 16>{} : l.ctx;
            if (l.first || H::chance(40)) for (int k = 0, m = (int)H::u(3); k < m; k++) a[H::u(16)] = H::pick(vals);
            if (H::chance(20)) a[H::u(16)] += 0.001;
            now += H::chance(50) ? (long long)H::u(30000) : H::pick(std::vector<long long>{0, 1, 59999, 60000, 60001, 20000});
            if (H::chance(30) && l.last) now = std::max(now, l.last + 60000 - (long long)H::u(2));
            if (H::chance(10)) now = (now + 999) / 1000 * 1000;
            H::ctx += " t" + std::to_string(now) + " context " + H::show(nm);
            bool due = l.first || now - l.last >= 60000 || a != l.ctx;
            ec::LogContext(*p, std::chrono::milliseconds(now), unflat(a));
            if (due) { l.first = false; l.last = now; l.ctx = a; l.lines++; }
            auto ls = readLines(dir + "/pidcore." + l.clean);
            H::check("context lines written", ls.size(), l.lines + 1);
            if (due) H::check("time stamp of the line", ls.back().substr(0, ls.back().find(',')), std::to_string(now));
        }
    }
    std::set<std::string> want, got;
    for (auto& [k, l] : model) {
        want.insert("pidcore." + l.clean), want.insert("pidcoeffs." + l.clean);
        H::check("coefficient lines written", readLines(dir + "/pidcoeffs." + l.clean).size(), l.coeffs + 1);
    }
    for (auto& e : std::filesystem::directory_iterator(dir)) got.insert(e.path().filename().string());
    H::check("log files", got, want);
    return any;
}
// the steps of a loop, as its log shows them
bool steps(const std::string& dir)
{
    coreLoggingEnabled = true;
    loggingPath = dir;
    std::string nm = "loop 1";
    ec::pid_info_t p;
    memset(static_cast<void*>(&p), 0, sizeof p);
    auto num = [] { return (double)((int)H::u(41) - 20) / (H::chance(50) ? 1 : 4); };
    p.ts = H::chance(50) ? 1 : 0.25;
    p.proportionalCoeff = num();
    p.integralCoeff = H::chance(25) ? 0 : num();
    p.derivativeCoeff = num();
    p.feedFwdOffset = num();
    p.feedFwdGain = num();
    p.integralLimit = {-(double)H::u(60), (double)H::u(60)};
    p.outLim = {-(double)H::u(200), (double)H::u(200)};
    p.slewNeg = H::chance(50) ? 0 : -(double)H::u(20);
    p.slewPos = H::chance(50) ? 0 : (double)H::u(20);
    double integral = 0, lastErr = 0, lastOut = 0;
    size_t rows = 1;
    H::ctx = "steps of one loop:";
    auto clamp = [](double x, double lo, double hi) { return x < lo ? lo : x > hi ? hi : x; };
    bool known = H::chance(80), init = false;
    for (int i = 0, n = 1 + (int)H::u(8); i < n; i++) {
        double x = num(), sp = num();
        H::ctx += " (" + H::show(x) + "," + H::show(sp) + ")";
        double err = sp - x, pt = p.proportionalCoeff * err, i1 = p.integralCoeff != 0 ? integral + err * p.integralCoeff * p.ts : 0;
        double i2 = p.integralCoeff != 0 ? clamp(i1, p.integralLimit.min, p.integralLimit.max) : 0;
        double dt = p.derivativeCoeff * ((err - lastErr) / p.ts), ff = (sp + p.feedFwdOffset) * p.feedFwdGain, o1 = pt + i2 + dt + ff, o2 = clamp(o1, p.outLim.min, p.outLim.max);
        double lo = 0, hi = 0, o3 = o2, i3 = i2;
        if (init && p.slewNeg != 0) lo = lastOut + p.slewNeg * p.ts, o3 = std::max(o3, lo);
        if (init && p.slewPos != 0) hi = lastOut + p.slewPos * p.ts, o3 = std::min(o3, hi);
        if (init && (p.slewNeg != 0 || p.slewPos != 0)) i3 = o3 - pt;
        integral = clamp(i3, p.integralLimit.min, p.integralLimit.max);
        std::vector<double> want{x, sp, err, pt, i1, i2, dt, ff, o1, o2, lo, hi, i3, o3, integral, o3};
        lastErr = err, lastOut = o3, init = true;
        ec::pid(&p, x, sp, known ? &nm : nullptr);
        auto ls = readLines(dir + "/pidcore.loop1");
        if (!known) { H::require(ls.empty(), "a loop without a name has no log"); continue; }
        H::require(ls.size() >= 2, "the first step is logged");
        if (ls.size() == rows) continue; // nothing has changed
        rows = ls.size();
        std::vector<double> got;
        std::stringstream row(ls.back());
        std::string f;
        std::getline(row, f, ',');
        while (std::getline(row, f, ',')) got.push_back(std::stod(f));
        H::check("columns of a row", got.size(), want.size());
        for (size_t k = 0; k < want.size(); k++)
            H::require(std::abs(got[k] - want[k]) <= 1e-5 * std::max(1.0, std::abs(want[k])), "column " + std::to_string(k + 1) + " of the row of a step: " + H::show(got[k]) + " where the step has " + H::show(want[k]));
    }
    H::check("coefficient lines written", readLines(dir + "/pidcoeffs.loop1").size(), known ? (size_t)2 : (size_t)0);
    return true;
}
}
int main(int c, char** v)
{
    return H::run(c, v, 2500, [] {
        // the table of logs lives as long as the process: one process per case
        std::string dir = H::scratch + "/log";
        std::filesystem::remove_all(dir);
        std::filesystem::create_directory(dir);
        pid_t p = fork();
        if (p == 0) {
            alarm(20);
            bool nt = false;
            try { nt = H::iter % 4 == 3 ? steps(dir) : scenario(dir); } catch (const std::exception& e) { H::fail(std::string("unexpected exception: ") + e.what()); }
            if (nt && H::iter < 20) std::ofstream(H::scratch + "/ctx") << H::ctx;
            _exit(nt ? 42 : 0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || (WEXITSTATUS(st) != 42 && WEXITSTATUS(st) != 0)) _exit(1);
        if (H::iter < 20) std::getline(std::ifstream(H::scratch + "/ctx"), H::ctx);
        return WEXITSTATUS(st) == 42;
    });
}
