// LINK: pid/pidloop.cpp pid/tuning.cpp sensors/manager.cpp -lpthread
// The real main(), one process per start-up: a command line, files in the places it looks at
// (absolute paths are redirected into the scratch folder), and what it starts its loops from.
#include "harness.hpp"
#include <CLI/CLI.hpp>
#include <boost/asio/error.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/post.hpp>
#include <boost/asio/signal_set.hpp>
#include <boost/asio/steady_timer.hpp>
#include <fcntl.h>
#include <nlohmann/json.hpp>
#include <sdbusplus/asio/connection.hpp>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#undef private
#undef protected
#include "buildjson/buildjson.hpp"
#include "conf.hpp"
#include "dbus/dbusconfiguration.hpp"
#include "failsafeloggers/builder.hpp"
#include "hoststatemonitor.hpp"
#include "pid/builder.hpp"
#include "pid/buildjson.hpp"
#include "pid/pidloop.hpp"
#include "pid/tuning.hpp"
#include "sensors/builder.hpp"
#include "sensors/buildjson.hpp"
#include "sensors/manager.hpp"
#include "util.hpp"
#include "zonestub.hpp"
#define main swampd_main
#include "main.cpp"
#undef main
namespace
{
std::string top; // the scratch folder, once the process is set up
std::string where(const char* p)
{
    if (!p) return "";
    std::string s = p;
    if (!top.empty())
        for (const char* d : {"/etc/thermal.d", "/var/lib/swampd", "/usr/share/swampd"})
            if (s.starts_with(d)) return top + s;
    return s;
}
}
// the file system calls of the standard library, through the redirection
extern "C" int stat(const char* p, struct stat* s) noexcept { return (int)syscall(SYS_newfstatat, AT_FDCWD, where(p).c_str(), s, 0); }
extern "C" int access(const char* p, int m) noexcept { return (int)syscall(SYS_faccessat, AT_FDCWD, where(p).c_str(), m); }
static FILE* opened(const char* p, const char* m)
{
    int f = m[0] == 'r' ? O_RDONLY : m[0] == 'a' ? O_WRONLY | O_CREAT | O_APPEND : O_WRONLY | O_CREAT | O_TRUNC;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, where(p).c_str(), f | O_CLOEXEC, 0644);
    return fd < 0 ? nullptr : fdopen(fd, m);
}
extern "C" FILE* fopen(const char* p, const char* m) { return opened(p, m); }
extern "C" FILE* fopen64(const char* p, const char* m) { return opened(p, m); }
namespace
{
struct Want
{
    bool logging = false, tuning = false, debug = false, core = false, refused = false, unusable = false;
    std::string folder, conf; // "" = from the bus
} want;
bool inMain = false, started = false, reloading = false;
int loops = 0;
void onExit()
{
    if (!inMain) return;
    if (!want.unusable) H::fail("the daemon exits although its configuration is usable");
    fflush(H::out);
    _exit(42);
}
struct Zone : StubZone
{
    void initializeCache() override
    {
        H::check("logging", loggingEnabled, want.logging);
        if (want.logging) H::check("log folder", loggingPath, want.folder);
        H::check("tuning", tuningEnabled, want.tuning);
        H::check("debugging", debugEnabled, want.debug);
        H::check("core logging", coreLoggingEnabled, want.core);
        auto n = sdbusplus::stub::names();
        std::sort(n.begin(), n.end());
        H::check("names on the bus", n, std::vector<std::string>{"xyz.openbmc_project.Hwmon.external", "xyz.openbmc_project.State.FanCtrl"});
        loops++;
        if (!reloading) raise(SIGTERM);
    }
};
}
json parseValidateJson(const std::string& path)
{
    H::require(!want.conf.empty(), "a configuration file is used although there is none: " + path);
    H::check("configuration file", std::filesystem::path(where(path.c_str())).lexically_normal().string(), std::filesystem::path(want.conf).lexically_normal().string());
    started = true;
    if (want.unusable) throw std::runtime_error("unusable");
    return json(1);
}
namespace pid_control
{
std::map<std::string, conf::SensorConfig> buildSensorsFromJson(const json&) { return {}; }
std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>> buildPIDsFromJson(const json&) { return {}; }
namespace dbus_configuration
{
bool init(sdbusplus::bus_t&, boost::asio::steady_timer&, std::map<std::string, conf::SensorConfig>&, std::map<int64_t, conf::PIDConf>&, std::map<int64_t, conf::ZoneConfig>&)
{
    if (!want.conf.empty()) H::fail("the configuration comes from D-Bus although there is " + want.conf);
    started = true;
    return true;
}
}
SensorManager buildSensors(const std::map<std::string, conf::SensorConfig>&, sdbusplus::bus_t& p, sdbusplus::bus_t& h) { return SensorManager(p, h); }
std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> buildZones(const std::map<int64_t, conf::PIDConf>&, std::map<int64_t, conf::ZoneConfig>&, SensorManager&, sdbusplus::bus_t&)
{
    return {{1, std::make_shared<Zone>()}};
}
void buildFailsafeLoggers(const std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>>&, const size_t) {}
}
namespace
{
void put(const std::string& p, const std::string& text = "{}")
{
    std::filesystem::create_directories(std::filesystem::path(p).parent_path());
    std::ofstream(p) << text;
}
void child()
{
    std::atexit(onExit);
    std::filesystem::current_path(H::scratch);
    std::string cwd = std::filesystem::current_path(), root = cwd + "/root";
    std::filesystem::create_directories(cwd + "/tmp");
    setenv("TMPDIR", (cwd + "/tmp").c_str(), 1);
    std::vector<std::string> args{"swampd"}, places{cwd, root + "/var/lib/swampd", root + "/usr/share/swampd"};
    H::ctx = "";
    auto mark = [](const std::string& s) { H::ctx += s + "; "; };
    for (size_t i = 0; i < places.size(); i++)
        if (H::chance(40)) {
            put(places[i] + "/config.json");
            mark("config.json in " + places[i].substr(i ? root.size() : 0));
            if (want.conf.empty()) want.conf = places[i] + "/config.json";
        }
    if (H::chance(30)) {
        std::string f = cwd + "/" + H::pick(std::vector<std::string>{"mine.json", "sub/config.json", "other"});
        bool there = H::chance(85);
        if (there) put(f);
        args.insert(args.end(), {H::chance(50) ? "-c" : "--conf", f});
        mark(args[args.size() - 2] + " " + f + (there ? "" : " (missing)"));
        if (there) want.conf = f; else want.refused = true;
    }
    std::string logs = cwd + "/logs", alt = cwd + "/alt", given;
    if (H::chance(35)) {
        bool there = H::chance(85);
        if (there) std::filesystem::create_directories(logs);
        args.insert(args.end(), {H::chance(50) ? "-l" : "--log", logs});
        mark(args[args.size() - 2] + (there ? "" : " (missing)"));
        if (!there) want.refused = true;
        given = want.folder = logs, want.logging = true;
    }
    if (H::chance(35)) {
        int how = (int)H::u(3);
        if (how == 0) std::filesystem::create_directories(alt);
        put(root + "/etc/thermal.d/logging", how == 2 ? "" : alt + "\n" + (H::chance(30) ? logs + "\n" : ""));
        mark(std::string("logging file naming ") + (how == 0 ? "a folder" : how == 1 ? "a missing folder" : "nothing"));
        want.logging = true;
        want.folder = how == 0 ? alt : given.empty() ? std::string(std::filesystem::temp_directory_path()) : given;
    }
    auto flag = [&](bool& w, const char* s, const char* l, const char* f) {
        if (H::chance(25)) args.push_back(H::chance(50) ? s : l), w = true, mark(args.back());
        if (H::chance(25)) put(root + "/etc/thermal.d/" + f, ""), w = true, mark(std::string("file ") + f);
    };
    flag(want.tuning, "-t", "--tuning", "tuning");
    flag(want.debug, "-d", "--debug", "debugging");
    flag(want.core, "-g", "--corelogging", "corelogging");
    if (H::chance(4)) args.push_back("--nonsense"), want.refused = true, mark("--nonsense");
    want.unusable = !want.conf.empty() && H::chance(10);
    if (want.unusable) mark("unusable configuration");
    top = root;
    std::vector<char*> av;
    for (auto& a : args) av.push_back(a.data());
    inMain = true;
    int rc = swampd_main((int)av.size(), av.data());
    inMain = false;
    if (want.refused) {
        H::require(rc != 0 && !started && !loops, "a command line that cannot be used ends the daemon before anything starts");
        _exit(42);
    }
    if (want.unusable) H::fail("the daemon goes on although its configuration is unusable");
    H::check("return code", rc, 0);
    H::require(started && loops >= 1, "the control loops start");
    // files come and go, and the configuration is loaded again
    for (int t = 0; t < 2; t++) {
        mark("then a reload with");
        std::string first;
        for (size_t i = 0; i < places.size(); i++) {
            std::string f = places[i] + "/config.json";
            if (H::chance(40)) put(f); else std::filesystem::remove(f);
            if (std::filesystem::exists(f)) {
                mark("config.json in " + places[i].substr(i ? root.size() : 0));
                if (first.empty()) first = f;
            }
        }
        if (configPath.empty()) want.conf = first;
        try { pid_control::stopControlLoops(); } catch (const std::exception&) {}
        io.restart();
        io.poll();
        started = false, reloading = true;
        inMain = true;
        pid_control::restartControlLoops();
        inMain = false;
        H::require(started, "a reload reads the configuration");
    }
    _exit(42);
}
}
int main(int c, char** v)
{
    return H::run(c, v, 100000, [] {
        std::string base = H::scratch;
        std::vector<pid_t> kids;
        for (int k = 0; k < 6; k++) {
            fflush(H::out);
            H::rng.seed((uint64_t)H::iter * 1000 + k + H::u(1000000) * 7);
            io.notify_fork(boost::asio::io_context::fork_prepare);
            pid_t p = fork();
            if (p) io.notify_fork(boost::asio::io_context::fork_parent);
            else {
                io.notify_fork(boost::asio::io_context::fork_child);
                H::scratch = base + "/k" + std::to_string(k);
                std::filesystem::remove_all(H::scratch);
                std::filesystem::create_directories(H::scratch);
                int null = open("/dev/null", O_WRONLY);
                dup2(null, 2);
                signal(SIGALRM, SIG_DFL);
                alarm(30);
                child();
            }
            kids.push_back(p);
        }
        bool ok = true;
        for (auto p : kids) {
            int st = 0;
            waitpid(p, &st, 0);
            if (WIFSIGNALED(st)) { H::ctx = "(in the daemon's process)"; H::fail("the daemon dies with signal " + std::to_string(WTERMSIG(st))); }
            if (WEXITSTATUS(st) != 42) ok = false;
        }
        if (!ok) _exit(1);
        return true;
    });
}
