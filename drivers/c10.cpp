// LINK: pid/pidloop.cpp pid/tuning.cpp
#include "harness.hpp"
#include <boost/asio/io_context.hpp>
#include <boost/asio/steady_timer.hpp>
#include "zonestub.hpp"
#include "pid/pidloop.hpp"
#include "pid/tuning.hpp"
// one event is dropped: clearing setpoints and ceilings may come in either order
static std::vector<std::string> norm(std::vector<std::string> v)
{
    std::vector<std::string> r;
    for (auto& s : v) {
        if (s == "initializeLog" || s == "writeLog") continue;
        r.push_back(s);
        size_t n = r.size();
        if (n >= 2 && r[n - 1] == "clearSetPoints" && r[n - 2] == "clearRPMCeilings") std::swap(r[n - 1], r[n - 2]);
    }
    return r;
}
static const std::vector<std::string> PASS = {"updateSensors", "clearSetPoints", "clearRPMCeilings", "processThermals", "determineMaxSetPointRequest"};
int main(int c, char** v)
{
    return H::run(c, v, 400, [] {
        boost::asio::io_context io;
        auto timer = std::make_shared<boost::asio::steady_timer>(io);
        auto zone = std::make_shared<StubZone>();
        zone->cyc = 1 + H::u(3);
        zone->upd = H::pick(std::vector<uint64_t>{1, 2, 3, 4, 5, 7, 10, zone->cyc, zone->cyc * 2, zone->cyc * 3 + 1, 1000000});
        bool cancel = H::chance(8);
        uint64_t start = H::chance(30) ? H::u(12) : 0, cnt = start;
        bool first = H::chance(80), logs = H::chance(30);
        loggingEnabled = logs;
        zone->manual = H::chance(20);
        std::vector<std::string> want;
        H::ctx = "fan interval " + H::show(zone->cyc) + " ms, thermal interval " + H::show(zone->upd) + " ms, counter " + H::show(cnt) + (first ? " first" : "") + ":";
        if (!first) timer->expires_at(std::chrono::steady_clock::now() - std::chrono::milliseconds(5));
        auto before = std::chrono::steady_clock::now();
        auto last = timer->expiry();
        bool armedEarly = false;
        // the timer is armed only after the first thermal pass
        zone->hook = [&](const std::string& s) { if (s == "determineMaxSetPointRequest" && timer->expiry() != last) armedEarly = true; };
        pidControlLoop(zone, timer, &cancel, first, cnt);
        zone->hook = {};
        auto after = std::chrono::steady_clock::now();
        if (cancel) {
            H::check("no work once cancelling", norm(zone->trace), want);
            H::require(io.run_one() == 0, "the timer is not armed once cancelling");
            return true;
        }
        if (first) { want.push_back("initializeCache"); want.insert(want.end(), PASS.begin(), PASS.end()); }
        H::check("work before the timer is armed", norm(zone->trace), want);
        H::require(!first || !armedEarly, "the timer is armed after the first pass");
        auto iv = std::chrono::milliseconds(zone->cyc);
        if (first) H::require(timer->expiry() >= before + iv && timer->expiry() <= after + iv, "first expiry one interval from now");
        else H::require(timer->expiry() == last + iv, "expiry one interval after the previous one");
        int n = 1 + (int)H::u(10);
        for (int i = 0; i < n; i++) {
            zone->trace.clear();
            want.clear();
            last = timer->expiry();
            if (H::chance(20)) zone->manual = !zone->manual;
            if (H::chance(20)) zone->fs = !zone->fs;
            if (H::chance(20)) zone->redundant = !zone->redundant;
            zone->maxSet = (double)H::u(3);
            tuningEnabled = H::chance(10), debugEnabled = H::chance(10);
            int stop = H::chance(6) ? 1 + (int)H::u(2) : 0;
            H::ctx += zone->manual ? " M" : " A";
            if (stop == 1) { H::ctx += "(timer cancelled)"; timer->cancel(); }
            if (stop == 2) { H::ctx += "(cancel flag)"; zone->hook = [&](const std::string& s) { if (s == "processFans") cancel = true; }; if (zone->manual) cancel = true; }
            if (io.stopped()) io.restart();
            H::require(io.run_one() == 1, "the tick runs");
            if (stop != 1 && !zone->manual) {
                want.push_back("updateFanTelemetry");
                if (cnt >= zone->upd) { cnt -= zone->upd; want.insert(want.end(), PASS.begin(), PASS.end()); }
                want.push_back("processFans");
                cnt += zone->cyc;
            }
            H::check("work of the tick", norm(zone->trace), want);
            if (stop) {
                if (io.stopped()) io.restart();
                auto e = timer->expiry();
                H::require(io.run_one() == 0, "a stopped loop is not armed again");
                (void)e;
                break;
            }
            H::require(timer->expiry() == last + iv, "each expiry is exactly one fan interval after the previous one");
        }
        return true;
    });
}
