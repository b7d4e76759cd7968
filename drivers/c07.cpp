// LINK: pid/zone.cpp pid/tuning.cpp sensors/manager.cpp failsafeloggers/failsafe_logger.cpp failsafeloggers/failsafe_logger_utility.cpp -ldl
#include "harness.hpp"
#include "zonenoise.hpp"
#include <dlfcn.h>
// the tuning files live under /etc/thermal.d: reads of them are sent to the scratch directory
static FILE* redirect(const char* fn, const char* p, const char* m)
{
    using F = FILE* (*)(const char*, const char*);
    auto f = (F)dlsym(RTLD_NEXT, fn);
    std::string s = p;
    const std::string etc = "/etc/thermal.d/";
    if (s.rfind(etc, 0) == 0) s = H::scratch + "/" + s.substr(etc.size());
    return f(s.c_str(), m);
}
extern "C" FILE* fopen64(const char* p, const char* m) { return redirect("fopen64", p, m); }
extern "C" FILE* fopen(const char* p, const char* m) { return redirect("fopen", p, m); }
using EnableObj = sdbusplus::xyz::openbmc_project::Object::server::Enable;

static void putFile(const std::string& name, std::optional<std::string> text)
{
    std::string p = H::scratch + "/" + name;
    ::unlink(p.c_str());
    if (text) std::ofstream(p) << *text;
}
// value of a tuning file: an integer above 100 at its start
static std::optional<double> fileValue(const std::optional<std::string>& t)
{
    if (!t) return {};
    std::istringstream is(*t);
    long long v = 0;
    if (!(is >> v) || v <= 100) return {};
    if (v > 2147483647) v = 2147483647;
    return (double)v;
}
static std::optional<std::string> content()
{
    static const std::vector<std::string> s = {"", "x", "100", "101", "99", "5000\n", " 1234 \n", "-3", "12x", "300.7", "0", "2147483647", "garbage 400", "+250", "1e5"};
    if (H::chance(30)) return {};
    return H::pick(s);
}
static double req()
{
    static const std::vector<double> s = {0, -1, 100, 500, 500, 1000, 3000, H::nan_(), INFINITY, -INFINITY, -2000};
    return H::chance(70) ? H::pick(s) : H::dbl();
}

int main(int c, char** v)
{
    return H::run(c, v, 15000, [] {
        bool acc = H::chance(50);
        int64_t id = (int64_t)H::u(4) * (H::chance(30) ? 7 : 1);
        double minOut = H::chance(50) ? H::pick(std::vector<double>{0, 500, 1000, 2999}) : H::dbl();
        RZ::Rig r(id, minOut, 75, acc);
        auto& z = *r.zone;
        static const std::vector<std::string> names = {"PID_a", "Step_a", "Lin_b", "plain", "_x", "PID_a_b", "y_", "Step_a_b", "a"};
        std::vector<std::string> ths;
        std::map<std::string, bool> on;
        int n = (int)H::u(5);
        for (int i = 0; i < n; i++) {
            auto nm = H::pick(names);
            ths.push_back(nm);
            z.addThermalPID(std::make_unique<RZ::RecController>(nm));
        }
        std::string cx = "min=" + H::show(minOut) + (acc ? " accumulate" : "") + " controllers:";
        for (auto& nm : names) {
            z.addPidControlProcess(nm, "temp", 0, RZ::bus, "/p/" + nm, false);
            on[nm] = !H::chance(15);
            EnableObj::live().at("/p/" + nm)->enabled(on[nm]);
        }
        for (auto& t : ths) cx += " " + t;
        H::ctx = cx;
        for (int round = 0; round < 3; round++) {
            H::ctx += " | pass:";
            z.clearSetPoints();
            z.clearRPMCeilings();
            std::map<std::string, double> prof;
            double mx = 0;
            std::string leader;
            int ops = (int)H::u(7);
            std::vector<double> ceil;
            for (int i = 0; i < ops; i++) {
                double d = req();
                if (H::chance(25)) {
                    if (std::isnan(d)) d = 700; // there is no lowest of ceilings that are no numbers
                    z.addRPMCeiling(d);
                    ceil.push_back(d);
                    H::ctx += " ceiling(" + H::show(d) + ")";
                    continue;
                }
                auto nm = H::pick(names);
                if (H::chance(15)) RZ::noise(z, RZ::MODE | RZ::PASSES | RZ::CACHE | RZ::PERCENTS);
                z.addSetPoint(d, nm);
                H::ctx += " request(" + H::show(d) + "," + nm + (on[nm] ? "" : " disabled") + ")";
                if (!on[nm]) continue;
                auto p = nm;
                if (acc) { auto k = nm.find('_'); if (k != std::string::npos) p = nm.substr(k + 1); }
                double& cur = prof[p];
                if (acc) cur += d;
                else if (cur < d) cur = d;
                if (mx < cur) { mx = cur; leader = p; }
                H::check("requested set point after addSetPoint", z.getMaxSetPointRequest(), mx);
                H::check("leader after addSetPoint", z.leader(), leader);
            }
            bool tune = H::chance(25);
            std::optional<std::string> f1, f2;
            if (tune) {
                f1 = content();
                f2 = content();
                putFile("setpoint", f1);
                putFile("setpoint.zone" + std::to_string(id), f2);
                H::ctx += std::string(" tuning files: ") + (f1 ? H::show(*f1) : "none") + " and " + (f2 ? H::show(*f2) : "none");
            }
            if (!ceil.empty()) {
                double lo = ceil[0];
                for (double x : ceil) if (x < lo) lo = x;
                if (lo < mx) { mx = lo; leader = "Ceiling"; }
            }
            if (acc) {
                std::string j;
                for (auto& t : ths) if (t.find(leader) != std::string::npos) j += (j.empty() ? "" : " + ") + t;
                leader = j;
            }
            if (minOut >= mx) { mx = minOut; leader = "Minimum"; }
            if (tune) {
                if (auto x = fileValue(f1)) mx = *x;
                if (auto x = fileValue(f2)) mx = *x;
            }
            if (H::chance(15)) RZ::noise(z, RZ::MODE | RZ::PASSES | RZ::CACHE | RZ::PERCENTS);
            tuningEnabled = tune;
            z.determineMaxSetPointRequest();
            tuningEnabled = false;
            if (tune) putFile("setpoint.zone" + std::to_string(id), {});
            H::check("set point after arbitration", z.getMaxSetPointRequest(), mx);
            H::check("leader after arbitration", z.leader(), leader);
        }
        return true;
    });
}
