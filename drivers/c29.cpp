// LINK: pid/pidloop.cpp pid/tuning.cpp sensors/manager.cpp -lpthread
// The real main() with its real event loop, run in a child process per case: builders
// that fail now and then, zones that tick, signals at any moment.  (One second of the
// daemon's retry delays is one millisecond here.)
#include "harness.hpp"
#include <CLI/CLI.hpp>
#include <boost/asio/error.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/post.hpp>
#include <boost/asio/signal_set.hpp>
#include <boost/asio/steady_timer.hpp>
#include <nlohmann/json.hpp>
#include <sdbusplus/asio/connection.hpp>
#include <sys/wait.h>
#undef private
#undef protected
#include "buildjson/buildjson.hpp"
#include "conf.hpp"
#include "dbus/dbusconfiguration.hpp"
#include "failsafeloggers/builder.hpp"
#include "hoststatemonitor.hpp"
#include "pid/builder.hpp"
#include "pid/buildjson.hpp"
#include "pid/pidloop.hpp"
#include "pid/tuning.hpp"
#include "sensors/builder.hpp"
#include "sensors/buildjson.hpp"
#include "sensors/manager.hpp"
#include "util.hpp"
#include "zonestub.hpp"
#define main swampd_main
#define seconds milliseconds
#include "main.cpp"
#undef seconds
#undef main
using namespace std::chrono;
namespace
{
using Clock2 = steady_clock;
struct Gen
{
    int id = 0;
    Clock2::time_point at;
    std::map<int64_t, int> ticks;
    bool complete = false;
};
int liveZones = 0, failures = 0, maxFailures = 0, builds = 0, zonesWanted = 1, loggersFor = -1;
bool expectExit = false, inMain = false, ended = false, fromBus = false, notReady = false;
std::string confPath;
std::vector<Gen> gens;
Clock2::time_point lastHup;
std::string story;
void tell(const std::string& s) { story += s + " "; H::ctx = story; }
[[noreturn]] void bad(const std::string& s) { H::fail(s); }
bool failNow(const char* what)
{
    if (failures < maxFailures && H::chance(45)) { failures++; tell(std::string("[") + what + " fails]"); return true; }
    return false;
}
struct Zone : StubZone
{
    int gen;
    Zone(int g, int64_t i) : gen(g) { liveZones++; id = i; cyc = 1 + H::u(3); upd = cyc; }
    ~Zone() override { liveZones--; }
    void initializeCache() override
    {
        if (gen == gens.back().id && failNow("a zone's first pass")) throw std::out_of_range("sensor");
    }
    void updateFanTelemetry() override
    {
        auto it = pid_control::state::zones.find(id);
        if (it == pid_control::state::zones.end() || it->second.get() != this) bad("a zone that was replaced or removed still ticks");
        if (ended) bad("a zone ticks after the daemon was told it may end");
        gens.back().ticks[id]++;
        if (H::chance(10)) { auto t = Clock2::now() + microseconds(H::u(3000)); while (Clock2::now() < t) {} }
    }
    void processFans() override
    {
        if (H::chance(2) && armed) { armed--; lastHup = Clock2::now(); tell("HUP(in tick)"); raise(SIGHUP); }
    }
    static inline int armed = 0;
};
std::map<int64_t, pid_control::conf::PIDConf> pids()
{
    std::map<int64_t, pid_control::conf::PIDConf> m;
    for (int i = 0; i < zonesWanted; i++) m[i];
    return m;
}
std::map<int64_t, pid_control::conf::ZoneConfig> details()
{
    std::map<int64_t, pid_control::conf::ZoneConfig> m;
    for (int i = 0; i < zonesWanted; i++) m[i];
    return m;
}
std::map<std::string, pid_control::conf::SensorConfig> sensorsOf(int n)
{
    std::map<std::string, pid_control::conf::SensorConfig> m;
    m["s" + std::to_string(n)];
    return m;
}
void onExit()
{
    if (!inMain) return;
    if (!expectExit) bad("the daemon exits although nothing asked it to");
    fflush(H::out);
    _exit(42);
}
}
json parseValidateJson(const std::string& path)
{
    H::check("configuration file", path, confPath);
    builds++;
    if (expectExit && zonesWanted) throw std::runtime_error("bad json");
    return json(builds);
}
namespace pid_control
{
std::map<std::string, conf::SensorConfig> buildSensorsFromJson(const json& j) { return sensorsOf(j.get<int>()); }
std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>> buildPIDsFromJson(const json&) { return {pids(), details()}; }
namespace dbus_configuration
{
bool init(sdbusplus::bus_t&, boost::asio::steady_timer& timer, std::map<std::string, conf::SensorConfig>& s, std::map<int64_t, conf::PIDConf>& z, std::map<int64_t, conf::ZoneConfig>& d)
{
    if (!fromBus) bad("discovery is used although there is a configuration file");
    builds++;
    if (failNow("discovery")) throw std::runtime_error("discovery");
    if (failures < maxFailures && H::chance(30)) {
        failures++;
        tell("[not ready]");
        timer.expires_after(milliseconds(1 + H::u(4)));
        timer.async_wait([](const boost::system::error_code& ec) { if (ec != boost::asio::error::operation_aborted) pid_control::tryRestartControlLoops(); });
        s = sensorsOf(-1);
        return false;
    }
    s = sensorsOf(builds);
    z = pids();
    d = details();
    return true;
}
}
SensorManager buildSensors(const std::map<std::string, conf::SensorConfig>& c, sdbusplus::bus_t& p, sdbusplus::bus_t& h)
{
    H::check("sensors are built from the configuration just read", c.count("s" + std::to_string(builds)), (size_t)1);
    if (failNow("building the sensors")) throw std::runtime_error("sensors");
    return SensorManager(p, h);
}
std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> buildZones(const std::map<int64_t, conf::PIDConf>& z, std::map<int64_t, conf::ZoneConfig>&, SensorManager& m, sdbusplus::bus_t&)
{
    H::check("zones of the previous configuration alive when the new ones are built", liveZones, 0);
    H::check("zones are built on the new sensors", &m == &*state::mgmr, true);
    if (failNow("building the zones")) throw std::runtime_error("zones");
    Gen g;
    g.id = builds;
    g.at = Clock2::now();
    gens.push_back(g);
    std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> r;
    for (auto& [i, x] : z) r[i] = std::make_shared<Zone>(g.id, i), gens.back().ticks[i] = 0;
    return r;
}
void buildFailsafeLoggers(const std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>>& z, const size_t)
{
    loggersFor = (int)z.size();
}
}
namespace
{
// signals, from inside the event loop
struct Script
{
    boost::asio::steady_timer t{io};
    int hups = (int)H::u(4);
    Clock2::time_point start = Clock2::now(), phase = start;
    int state = 0;
    bool running()
    {
        if (gens.empty() || gens.back().at < lastHup || (int)gens.back().ticks.size() != zonesWanted) return false;
        for (auto& [i, n] : gens.back().ticks) if (n < 3) return false;
        return true;
    }
    void arm() { t.expires_after(microseconds(300 + H::u(1500))); t.async_wait([this](const boost::system::error_code& ec) { if (!ec) step(); }); }
    void step()
    {
        auto now = Clock2::now();
        if (state == 0) {
            if (running() || H::chance(5)) { state = 1; phase = now; Zone::armed = (int)H::u(3); tell("up"); }
        } else if (state == 1) {
            if (hups && H::chance(40)) { hups--; lastHup = now; tell("HUP"); raise(SIGHUP); }
            if (!hups) { state = 2; phase = now; Zone::armed = 0; }
        } else if (state == 2) {
            if (running()) {
                H::check("failsafe loggers cover the zones", loggersFor, zonesWanted);
                if (H::chance(30)) {
                    state = 3;
                    if (H::chance(20)) { tell("HUP"); raise(SIGHUP); }
                    tell("TERM");
                    phase = now;
                    raise(SIGTERM);
                }
            }
        }
        if (now - phase > seconds(4)) bad(state == 3 ? "the daemon does not end after SIGTERM" : gens.empty() ? "the control loops never start" : "no configuration is running after the last reload (a zone does not tick, or nothing was rebuilt)");
        arm();
    }
};
void child()
{
    std::atexit(onExit);
    maxFailures = (int)H::u(5);
    zonesWanted = H::chance(4) ? 0 : 1 + (int)H::u(3);
    fromBus = H::chance(40);
    expectExit = zonesWanted == 0 || (!fromBus && H::chance(4));
    int how = (int)H::u(2);
    std::filesystem::current_path(H::scratch);
    std::filesystem::remove("config.json");
    std::filesystem::remove("other.json");
    std::string dir = std::filesystem::current_path();
    std::vector<std::string> args{"swampd"};
    if (!fromBus) {
        std::ofstream(how ? "other.json" : "config.json") << "{}";
        confPath = dir + (how ? "/other.json" : "/config.json");
        if (how) { args.push_back("-c"); args.push_back(confPath); }
    }
    tell(std::to_string(zonesWanted) + " zones" + (fromBus ? ", from the bus:" : how ? ", from -c:" : ", from the working directory:"));
    std::vector<char*> av;
    for (auto& a : args) av.push_back(a.data());
    Script s;
    s.arm();
    inMain = true;
    int rc = swampd_main((int)av.size(), av.data());
    inMain = false;
    if (expectExit) bad("the daemon runs although its configuration is unusable");
    H::check("return code of the daemon", rc, 0);
    if (s.state != 3) bad("the daemon ends although nothing asked it to");
    H::check("zones alive when the daemon ends", liveZones, 0);
    H::check("timers kept when the daemon ends", pid_control::state::timers.size(), (size_t)0);
    _exit(42);
}
}
int main(int c, char** v)
{
    return H::run(c, v, 100000, [] {
        sdbusplus::stub::handler() = [](sdbusplus::message_t&) -> sdbusplus::message_t { throw sdbusplus::exception::SdBusError(5, "stub"); };
        std::string top = H::scratch;
        std::vector<pid_t> kids;
        for (int k = 0; k < 6; k++) {
            fflush(H::out);
            H::rng.seed((uint64_t)H::iter * 1000 + k + H::u(1000000) * 7);
            io.notify_fork(boost::asio::io_context::fork_prepare); // each process its own signal pipe
            pid_t p = fork();
            if (p) io.notify_fork(boost::asio::io_context::fork_parent);
            else {
                io.notify_fork(boost::asio::io_context::fork_child);
                H::scratch = top + "/k" + std::to_string(k);
                std::filesystem::create_directories(H::scratch);
                signal(SIGALRM, SIG_DFL);
                alarm(30);
                child();
            }
            kids.push_back(p);
        }
        bool ok = true;
        for (auto p : kids) {
            int st = 0;
            waitpid(p, &st, 0);
            if (WIFSIGNALED(st)) { H::ctx = "(in the daemon's process)"; H::fail("the daemon dies with signal " + std::to_string(WTERMSIG(st))); }
            if (WEXITSTATUS(st) != 42) ok = false;
        }
        if (!ok) _exit(1); // the child has reported
        return true;
    });
}
