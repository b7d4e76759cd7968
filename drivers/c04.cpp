// LINK: pid/ec/pid.cpp pid/ec/logging.cpp pid/tuning.cpp pid/pidcontroller.cpp pid/fancontroller.cpp pid/util.cpp
#include "harness.hpp"
#include "zonestub.hpp"
#include "pid/fancontroller.hpp"
#include "pid/tuning.hpp"
int main(int c, char** v)
{
    return H::run(c, v, 200000, [] {
        StubZone z;
        int n = (int)H::u(5);
        std::vector<std::string> ins;
        std::vector<std::string> order;
        for (int i = 0; i < n; i++) {
            std::string nm = H::word() + std::to_string(i);
            ins.push_back(nm);
            std::string own = H::chance(80) ? nm : "alias" + std::to_string(i);
            z.sensors[nm] = std::make_unique<StubSensor>(own);
        }
        // the same fan may be listed twice
        if (n && H::chance(10)) ins.push_back(ins[0]);
        FanController f(H::word(), ins, &z);
        int steps = 1 + (int)H::u(5);
        for (int t = 0; t < steps; t++) {
            z.fs = H::chance(50);
            z.fsPct = H::chance(70) ? (double)H::u(101) : H::dbl();
            z.redundant = H::chance(50);
            tuningEnabled = H::chance(20);
            debugEnabled = H::chance(20);
            z.fsSensors.clear();
            if (H::chance(30)) z.fsSensors[H::word()] = {H::word(), H::dbl()};
            double in = H::chance(60) ? (double)H::u(120) : H::chance(40) ? z.fsPct + (double)((int)H::u(3) - 1) : H::dbl();
            z.outs.clear();
            z.order.clear();
            std::map<std::string, std::optional<int64_t>> rep;
            for (auto& [k, s] : z.sensors) {
                s->writes.clear();
                s->report = H::chance(70) ? std::optional<int64_t>(H::i64()) : std::nullopt;
                s->order = &z.order;
            }
            bool raise = z.fs && !tuningEnabled && in < z.fsPct;
            double want = (raise ? z.fsPct : in) / 100.0;
            H::ctx = "step " + std::to_string(t) + " fans=" + H::show(ins) + " value=" + H::show(in) + " failsafe=" + H::show(z.fs) + "@" + H::show(z.fsPct) + " tuning=" + H::show(tuningEnabled) + " debug=" + H::show(debugEnabled) + " redundant=" + H::show(z.redundant);
            f.outputProc(in);
            std::vector<std::string> wantNames;
            std::map<std::string, int> cnt;
            for (auto& i : ins) cnt[i]++;
            for (auto& [k, s] : z.sensors) {
                H::check("number of writes to a fan", s->writes.size(), (size_t)cnt[k]);
                for (auto& w : s->writes) {
                    H::check("written value", w.v, want);
                    H::check("redundant-write flag passed", w.force, z.redundant);
                }
            }
            H::check("cache records", z.outs.size(), ins.size());
            size_t wi = 0;
            std::vector<std::string> worder;
            for (auto& o : z.order) if (o.rfind("cache ", 0) != 0) worder.push_back(o);
            for (size_t i = 0; i < ins.size(); i++) {
                auto& s = *z.sensors[ins[i]];
                H::check("write order", worder[i], s.getName());
                auto& [nm, sc, un] = z.outs[i];
                H::check("cache name", nm, s.getName());
                H::check("cached commanded value", sc, want);
                H::check("cached raw value", un, s.report ? (double)*s.report : -1.0);
            }
            (void)wi;
            // every record follows its fan's write
            std::map<std::string, int> w, r;
            for (auto& o : z.order) {
                if (o.rfind("cache ", 0) == 0) { auto k = o.substr(6); r[k]++; H::require(r[k] <= w[k], "output cache recorded before the write of " + k); }
                else w[o]++;
            }
        }
        return n > 0;
    });
}
