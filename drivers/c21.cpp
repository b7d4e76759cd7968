// LINK: failsafeloggers/failsafe_logger.cpp failsafeloggers/failsafe_logger_utility.cpp failsafeloggers/builder.cpp
#include "harness.hpp"
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <sdbusplus/bus.hpp>
#include "failsafeloggers/failsafe_logger.hpp"
#include "failsafeloggers/failsafe_logger_utility.hpp"
#include "failsafeloggers/builder.hpp"
#include "zonestub.hpp"
static long long clockMs = -1; // the time the code under test sees
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept
{
    if (clockMs >= 0) { t->tv_sec = clockMs / 1000; t->tv_nsec = (clockMs % 1000) * 1000000; return 0; }
    return (int)syscall(SYS_clock_gettime, c, t);
}
namespace
{
struct Model
{
    size_t mx;
    bool state;
    std::deque<long long> ts;
    std::set<std::string> seen;
    bool log(bool s, const std::string& where, const std::string& why, bool& prints)
    {
        while (!ts.empty() && clockMs - ts.front() >= 1000) ts.pop_front();
        bool was = state;
        if (s != state) { seen.clear(); state = s; }
        std::string key = where + " @ " + why;
        prints = false;
        if (ts.size() >= mx || seen.count(key)) return false;
        seen.insert(key);
        prints = s || was;
        ts.push_back(clockMs);
        return true;
    }
};
struct Zone : StubZone
{
    bool state = false;
    std::vector<std::string> names;
    bool getFailSafeMode() const override { return state; }
    std::vector<std::string> getSensorNames() override { return names; }
};
template <class F> size_t lines(F f)
{
    std::ostringstream s;
    auto* old = std::cerr.rdbuf(s.rdbuf());
    f();
    std::cerr.rdbuf(old);
    size_t n = 0;
    for (char c : s.str()) n += c == '\n';
    return n;
}
}
int main(int c, char** v)
{
    return H::run(c, v, 30000, [] {
        struct Clock { Clock() { clockMs = 1700000000000ll + (long long)H::u(100000); } ~Clock() { clockMs = -1; } } fix;
        std::vector<std::string> causes{"a", "b", "c", "", "sensor reading bad", H::str()};
        auto tick = [] { clockMs += H::chance(50) ? (long long)H::u(3) * 100 : H::chance(50) ? (long long)H::u(1500) : H::pick(std::vector<long long>{999, 1000, 1001, 0, 500}); };
        if (H::chance(60)) {
            size_t mx = H::chance(80) ? H::u(5) : 20;
            bool st = H::chance(50);
            FailsafeLogger l(mx, st);
            Model m{mx, st, {}, {}};
            H::ctx = "max " + std::to_string(mx) + " start " + H::show(st) + ":";
            for (int i = 0, n = 1 + (int)H::u(mx >= 20 ? 60 : 25); i < n; i++) {
                bool s = H::chance(70) ? m.state : !m.state;
                std::string where = H::pick(causes), why = H::pick(causes);
                if (mx >= 20) why += std::to_string(H::u(1000));
                tick();
                if (mx >= 20 && H::chance(80)) clockMs -= clockMs % 1000 ? 0 : 0;
                H::ctx += " t" + std::to_string(clockMs % 1000000) + (s ? "F" : "-") + where + "@" + why;
                bool p;
                m.log(s, where, why, p);
                size_t got = lines([&] { l.outputFailsafeLog(7, s, where, why); });
                H::check("entries printed", got, (size_t)p);
            }
            return true;
        }
        // loggers of several zones
        std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> zones;
        std::map<int64_t, Model> ms;
        std::map<std::string, std::set<int64_t>> uses;
        std::vector<std::string> names{"s1", "s2", "s3", "s4", "s1_long"};
        size_t mx = 1 + H::u(5);
        H::ctx = "loggers:";
        for (int i = 0, n = (int)H::u(4); i < n; i++) {
            auto z = std::make_shared<Zone>();
            int64_t id = (int64_t)H::u(6) - 1;
            z->state = H::chance(50);
            for (int k = 0, q = (int)H::u(5); k < q; k++) z->names.push_back(H::pick(names));
            zones[id] = z;
        }
        for (auto& [id, z] : zones) {
            auto* p = static_cast<Zone*>(z.get());
            ms[id] = Model{mx, p->state, {}, {}};
            for (auto& s : p->names) uses[s].insert(id);
            H::ctx += " zone " + std::to_string(id) + (p->state ? " failsafe" : "") + H::show(p->names);
        }
        if (H::chance(30)) zoneIdToFailsafeLogger[99] = std::make_shared<FailsafeLogger>(5, true), sensorNameToZoneId["s1"] = {99, 99};
        lines([&] { buildFailsafeLoggers(zones, mx); });
        for (int i = 0, n = 1 + (int)H::u(20); i < n; i++) {
            tick();
            bool s = H::chance(60);
            std::string where = H::pick(causes), why = H::pick(causes);
            size_t want = 0;
            bool p;
            if (H::chance(60)) {
                std::string nm = H::pick(names);
                H::ctx += " t" + std::to_string(clockMs % 1000000) + " sensor " + nm + (s ? "F" : "-") + where + "@" + why;
                for (int64_t z : uses[nm]) { ms.at(z).log(s, where, why, p); want += p; }
                H::check("entries printed for the sensor", lines([&] { outputFailsafeLogWithSensor(nm, s, where, why); }), want);
            }
            else {
                int64_t z = (int64_t)H::u(6) - 1;
                H::ctx += " t" + std::to_string(clockMs % 1000000) + " zone " + std::to_string(z) + (s ? "F" : "-") + where + "@" + why;
                if (ms.count(z)) { ms.at(z).log(s, where, why, p); want = p; }
                H::check("entries printed for the zone", lines([&] { outputFailsafeLogWithZone(z, s, where, why); }), want);
            }
        }
        zoneIdToFailsafeLogger.clear();
        sensorNameToZoneId.clear();
        return true;
    });
}
