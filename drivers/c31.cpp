// LINK: pid/zone.cpp pid/tuning.cpp sensors/manager.cpp dbus/dbuspassive.cpp dbus/dbusutil.cpp dbus/dbuspassiveredundancy.cpp sensors/host.cpp failsafeloggers/failsafe_logger_utility.cpp -fsanitize=thread -lpthread
// One thread stores, another reads: every reading is one update, stamped while that
// update was made; run under the thread sanitizer, so an access outside of the lock
// is reported even on schedules where nothing visibly tears.
#include "harness.hpp"
#include <barrier>
#include <boost/container/flat_map.hpp>
#include <xyz/openbmc_project/Sensor/Value/server.hpp>
#include <xyz/openbmc_project/State/Host/common.hpp>
#include "passive.hpp"
#define private public
#include "hoststatemonitor.hpp"
#undef private
#include "sensors/host.hpp"
#include "realzone.hpp"
using Clock = std::chrono::high_resolution_clock;
extern "C" const char* __tsan_default_options() { return "report_signal_unsafe=0"; }
extern "C" void __tsan_on_report(void*)
{
    // (no allocation in here: the sanitizer holds its own locks)
    static char b[1000];
    int n = snprintf(b, sizeof b, "FAIL a value is accessed by two threads without a common lock (data race)\n  case %lld: %s\n", H::iter, H::ctx.c_str());
    (void)!write(fileno(H::out), b, n);
    _exit(1);
}
namespace
{
struct Upd { double value, unscaled; Clock::time_point from, to; };
struct Seen { double value, unscaled; Clock::time_point updated; };
// the updates are numbered in their value, v = the index
void judge(const std::vector<Upd>& w, const std::vector<Seen>& r)
{
    for (auto& s : r) {
        bool ok = false;
        for (auto& x : w)
            if (H::same(x.value, s.value)) {
                if (H::same(x.unscaled, s.unscaled) && x.from <= s.updated && s.updated <= x.to) ok = true;
            }
        if (!ok) {
            std::string d = "value " + H::show(s.value) + ", unscaled " + H::show(s.unscaled);
            for (auto& x : w)
                if (H::same(x.value, s.value)) d += "; that value was stored with unscaled " + H::show(x.unscaled) + " between " + std::to_string(x.from.time_since_epoch().count()) + " and " + std::to_string(x.to.time_since_epoch().count());
            H::fail("a reading is not one update: " + d + "; its time stamp is " + std::to_string(s.updated.time_since_epoch().count()));
        }
    }
}
void two(std::vector<std::function<Upd(int)>> writers, int n, std::function<void()> first, std::function<Seen()> read)
{
    std::vector<std::vector<Upd>> w(writers.size() + 1);
    w.back().reserve(1);
    std::vector<Seen> r;
    std::barrier go((std::ptrdiff_t)writers.size() + 1);
    first();
    std::vector<std::thread> ts;
    std::atomic<int> live{(int)writers.size()};
    for (size_t k = 0; k < writers.size(); k++)
        ts.emplace_back([&, k] {
            go.arrive_and_wait();
            for (int i = 0; i < n; i++) w[k].push_back(writers[k](i * (int)writers.size() + (int)k + 1));
            live--;
        });
    go.arrive_and_wait();
    while (live.load()) r.push_back(read());
    r.push_back(read());
    for (auto& t : ts) t.join();
    std::vector<Upd> all;
    for (auto& x : w) all.insert(all.end(), x.begin(), x.end());
    std::vector<Seen> later;
    for (auto& s : r) // what was there before the first update
        if (s.value != 0) later.push_back(s);
    judge(all, later);
    H::require(!later.empty(), "the last update is not read");
}
sdbusplus::bus_t bus;
// every read sees another update: k, 2k+1, fresh exactly when k is even
struct Moving : StubSensor
{
    int k;
    Moving(const std::string& n, int64_t to, int k0) : StubSensor(n, to), k(k0) {}
    ReadReturn read() override
    {
        k++;
        reads++;
        return ReadReturn{(double)k, k % 2 ? Clock::time_point() : Clock::now(), (double)(2 * k + 1)};
    }
};
void zonePass()
{
    loggingEnabled = false;
    loggingPath = H::scratch;
    RZ::Rig r(2, 0, 75);
    std::vector<Moving*> m;
    int n = 1 + (int)H::u(4);
    for (int i = 0; i < n; i++) {
        auto s = std::make_unique<Moving>("s" + std::to_string(i), 1 + (int64_t)H::u(3), (int)H::u(10));
        m.push_back(s.get());
        r.mgr.addSensor("temp", "s" + std::to_string(i), std::move(s));
        if (i % 2) r.zone->addFanInput("s" + std::to_string(i), false); else r.zone->addThermalInput("s" + std::to_string(i), false);
    }
    r.zone->initializeCache();
    for (int t = 0; t < 3; t++) {
        r.zone->updateFanTelemetry();
        r.zone->updateSensors();
        auto f = r.zone->getFailSafeSensors();
        for (auto* s : m) {
            auto c = r.zone->getCachedValues(s->getName());
            H::ctx = "zone pass " + std::to_string(t) + ", " + s->getName() + ", each read returns another update:";
            H::check("cached unscaled value against the cached value's update", c.unscaled, 2 * c.scaled + 1);
            H::check("failed by the time stamp of the cached value's update", (bool)f.count(s->getName()), (long long)c.scaled % 2 != 0);
        }
    }
}
}
int main(int c, char** v)
{
    sdbusplus::stub::handler() = [](sdbusplus::message_t&) -> sdbusplus::message_t { throw sdbusplus::exception::SdBusError(5, "stub"); };
    HostStateMonitor::getInstance(bus);
    return H::run(c, v, 4000, [] {
        sdbusplus::stub::matches().clear();
        if (H::chance(20)) { zonePass(); return true; }
        int n = 20 + (int)H::u(80);
        if (H::chance(70)) {
            std::string type = H::pick(std::vector<std::string>{"fan", "temp", "margin"});
            DbusPassive s(DP::bus, type, "id", std::make_unique<DP::NoHelper>(), false, "/xyz/openbmc_project/sensors/t/x", nullptr);
            SensorProperties p;
            p.scale = 0;
            p.value = 0;
            p.min = p.max = 0;
            bool sc = H::chance(50);
            if (sc) p.max = 4;
            s.initFromSettings(p, false);
            int kind = (int)H::u(4);
            static const char* ks[] = {"setValue(value, unscaled)", "setValue(value)", "updateValue", "a Value signal"};
            H::ctx = "DbusPassive " + type + ", " + ks[kind] + " against read():";
            auto read = [&] { auto r = s.read(); return Seen{r.value, r.unscaled, r.updated}; };
            auto wr = [&](int i) {
                Upd x;
                x.from = Clock::now();
                double d = i;
                switch (kind) {
                    case 0: s.setValue(d, 2 * d + 1); x.value = d; x.unscaled = 2 * d + 1; break;
                    case 1: s.setValue(d); x.value = x.unscaled = d; break;
                    case 2: s.updateValue(d, i % 2); x.unscaled = d; x.value = sc ? d / 4 : d; break;
                    default: {
                        DP::M m;
                        m["Value"] = d;
                        auto msg = DP::signal(DP::VALUE, m);
                        handleSensorValue(msg, &s);
                        x.unscaled = d; x.value = sc ? d / 4 : d;
                    }
                }
                x.to = Clock::now();
                return x;
            };
            std::vector<std::function<Upd(int)>> ws{wr};
            if (kind < 2 && H::chance(40)) ws.push_back(wr);
            two(ws, n, [] {}, read);
        } else {
            HostSensor s("h", 2, bus, "/h", true, H::chance(50));
            int kind = (int)H::u(2);
            H::ctx = std::string("HostSensor value(v) against read()") + (kind ? " and getFailed():" : ":");
            two({[&](int i) {
                Upd x;
                x.from = Clock::now();
                s.value((double)i);
                x.value = x.unscaled = i;
                x.to = Clock::now();
                return x;
            }}, n, [&] { s.value(0); },
                [&] { auto r = s.read(); if (kind) H::check("failed", s.getFailed(), false); return Seen{r.value, r.unscaled, r.updated}; });
        }
        return true;
    });
}
