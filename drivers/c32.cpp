// LINK: pid/zone.cpp pid/pidloop.cpp pid/tuning.cpp sensors/manager.cpp failsafeloggers/failsafe_logger.cpp failsafeloggers/failsafe_logger_utility.cpp
#include "harness.hpp"
#include <boost/asio/io_context.hpp>
#include <boost/asio/steady_timer.hpp>
#include <filesystem>
#include "realzone.hpp"
#include "pid/pidloop.hpp"
using namespace std::chrono;
static std::string num(double d) { std::ostringstream o; o << d; return o.str(); }
static std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> r{""};
    for (char c : s)
        if (c == ',') r.push_back(""); else r.back() += c;
    return r;
}
static double value()
{
    return H::chance(15) ? H::dbl() : H::chance(50) ? (double)H::u(20000) / 4 : (double)H::u(30000000) / 128;
}
int main(int c, char** v)
{
    return H::run(c, v, 400, [] {
        std::string dir = std::string(H::scratch) + "/zones";
        std::filesystem::create_directories(dir);
        loggingEnabled = H::chance(85);
        loggingPath = dir;
        debugEnabled = H::chance(10), tuningEnabled = false;
        uint64_t cyc = H::u(2), upd = H::pick(std::vector<uint64_t>{0, 1, 2, 3, 1000});
        conf::CycleTime ct{cyc, upd};
        int64_t id = H::pick(std::vector<int64_t>{0, 1, 7, 12});
        RZ::Rig r(id, H::pick(std::vector<double>{0, 1000, 2500.5}), 75, H::chance(30), ct);
        auto& z = *r.zone;
        std::shared_ptr<ZoneInterface> zone(std::move(r.zone));
        std::vector<std::string> fans, therms;
        H::ctx = "zone " + H::show(id) + (loggingEnabled ? "" : " (logging off)") + ", intervals " + H::show(cyc) + "/" + H::show(upd) + " ms, inputs";
        for (int i = 0, n = (int)H::u(4); i < n; i++) {
            std::string s = H::pick(std::vector<std::string>{"fan", "Fan_", "front fan "}) + std::to_string(i);
            r.sensor(s), z.addFanInput(s, H::chance(25)), fans.push_back(s), H::ctx += " " + s;
        }
        for (int i = 0, n = (int)H::u(4); i < n; i++) {
            std::string s = "temp" + std::to_string(n - i);
            r.sensor(s, H::chance(20) ? 5 : 0), z.addThermalInput(s, H::chance(25)), therms.push_back(s), H::ctx += " " + s;
        }
        if (fans.size() && H::chance(15)) z.addThermalInput(fans[0], false), therms.push_back(fans[0]), H::ctx += " +" + fans[0];
        H::ctx += ":";
        std::map<std::string, ValueCacheEntry> cache, outs;
        std::map<std::string, ValueCacheEntry> cmd; // what the fan loops command next
        std::map<std::string, double> ask;
        int np = (int)H::u(3);
        for (int i = 0; i < np; i++) {
            std::string p = "Temp_" + std::to_string(i);
            z.addPidControlProcess(p, "temp", 10, RZ::bus, "/p" + p, true);
            z.addThermalPID(std::make_unique<RZ::RecController>(p, [&z, &ask, p] { z.addSetPoint(ask[p], p); }));
        }
        z.addFanPID(std::make_unique<RZ::RecController>("fans", [&] { for (auto& [n, x] : cmd) z.setOutputCache(n, x), outs[n] = x; }));
        auto shuffle = [&] {
            for (auto& [n, s] : r.sensors) {
                if (H::chance(70)) s->rd.value = value(), s->rd.unscaled = value();
                if (H::chance(5)) s->rd.value = H::nan_();
                s->rd.updated = high_resolution_clock::now() - seconds(H::chance(10) ? 100 : 0);
                s->failed = H::chance(20);
            }
            for (int i = 0; i < np; i++) ask["Temp_" + std::to_string(i)] = (double)H::u(5) * 1000;
            cmd.clear();
            for (auto& f : fans) if (H::chance(80)) cmd[f] = {(double)H::u(100) / 100, (double)H::u(255)};
        };
        std::string file = dir + "/zone_" + std::to_string(id) + ".log";
        auto content = [&] { std::ifstream i(file); std::ostringstream o; o << i.rdbuf(); return o.str(); };
        boost::asio::io_context io;
        auto timer = std::make_shared<boost::asio::steady_timer>(io);
        bool cancel = false;
        shuffle();
        pidControlLoop(zone, timer, &cancel, true, 0);
        std::string want = "epoch_ms,setpt,requester";
        for (auto& f : fans) want += "," + f + "," + f + "_raw," + f + "_pwm," + f + "_pwm_raw", outs[f] = {H::nan_(), H::nan_()}, cache[f] = {H::nan_(), H::nan_()};
        for (auto& t : therms) want += "," + t + "," + t + "_raw";
        want += ",failsafe\n";
        auto read = [&](const std::vector<std::string>& l) { for (auto& n : l) cache[n] = {r.sensors[n]->rd.value, r.sensors[n]->rd.unscaled}; };
        read(therms);
        std::vector<std::string> rows;
        std::vector<std::pair<long long, long long>> times;
        uint64_t cnt = 0;
        for (int i = 0, n = 1 + (int)H::u(6); i < n; i++) {
            shuffle();
            if (H::chance(25)) z.setManualMode(!z.getManualMode());
            double sp = z.getMaxSetPointRequest();
            std::string who = z.leader();
            auto t0 = duration_cast<milliseconds>(high_resolution_clock::now().time_since_epoch()).count();
            if (io.stopped()) io.restart();
            std::map<std::string, ValueCacheEntry> was = outs;
            H::require(io.run_one() == 1, "the tick runs");
            auto t1 = duration_cast<milliseconds>(high_resolution_clock::now().time_since_epoch()).count();
            H::ctx += z.getManualMode() ? " M" : " A";
            if (!loggingEnabled) {
                H::require(!std::filesystem::exists(file), "no log is written when logging is off");
                continue;
            }
            if (z.getManualMode()) continue;
            read(fans);
            std::string w = "," + num(sp) + "," + who;
            for (auto& f : fans) w += "," + num(cache[f].scaled) + "," + num(cache[f].unscaled) + "," + num(was[f].scaled) + "," + num(was[f].unscaled);
            for (auto& t : therms) w += "," + num(cache[t].scaled) + "," + num(cache[t].unscaled);
            w += std::string(",") + (z.getFailSafeMode() ? "1" : "0") + "\n";
            rows.push_back(w), times.push_back({t0, t1});
            if (cnt >= upd) cnt -= upd, read(therms);
            cnt += cyc;
        }
        cancel = true;
        timer->cancel();
        if (io.stopped()) io.restart();
        io.run();
        timer.reset();
        zone.reset(); // closes the file
        if (!loggingEnabled) return false;
        std::istringstream in(content());
        std::string line;
        std::getline(in, line);
        H::check("the log starts with the header", line + "\n", want);
        for (size_t i = 0; i < rows.size(); i++) {
            H::require(bool(std::getline(in, line)), "one row per automatic tick");
            auto at = line.find(',');
            H::check(("row " + std::to_string(i)).c_str(), at == std::string::npos ? line : line.substr(at) + "\n", rows[i]);
            long long ms = atoll(line.c_str());
            H::require(std::to_string(ms) == line.substr(0, at) && ms >= times[i].first && ms <= times[i].second, "the row starts with the time of the tick in ms: " + line.substr(0, at));
            H::check("one column per header column", split(line).size(), split(want).size());
        }
        H::require(!std::getline(in, line), "no further rows: " + line);
        std::filesystem::remove(file);
        return loggingEnabled;
    });
}
