// LINK: sensors/builder.cpp sensors/build_utils.cpp sensors/manager.cpp sensors/host.cpp sensors/pluggable.cpp dbus/dbuspassive.cpp dbus/dbuspassiveredundancy.cpp dbus/dbushelper.cpp dbus/dbusutil.cpp dbus/dbuswrite.cpp sysfs/sysfsread.cpp sysfs/sysfswrite.cpp sysfs/util.cpp notimpl/readonly.cpp notimpl/writeonly.cpp failsafeloggers/failsafe_logger_utility.cpp
#include "harness.hpp"
#include <sdbusplus/bus.hpp>
#include "passive.hpp"
#include "sensors/builder.hpp"
#include "errors/exception.hpp"
#include "sensors/build_utils.hpp"
#include "sensors/host.hpp"
#include "sensors/manager.hpp"
#include "sensors/pluggable.hpp"
using namespace pid_control;
enum Kind { NONE, EXT, PASSIVE, ACTIVE, SYS, UNK };
static bool has(const std::string& p, const char* s) { return p.find(s) != std::string::npos; }
static const char *X = "/xyz/openbmc_project/extsensors/", *B = "/xyz/openbmc_project/", *S = "/sys/";
static Kind rd(const std::string& p) { return p.empty() || p == "None" ? NONE : has(p, X) ? EXT : has(p, B) ? PASSIVE : has(p, S) ? SYS : UNK; }
static Kind wr(const std::string& p) { return p.empty() || p == "None" ? NONE : has(p, S) ? SYS : has(p, B) ? ACTIVE : UNK; }
static IOInterfaceType io(Kind k)
{
    switch (k) {
        case NONE: return IOInterfaceType::NONE;
        case EXT: return IOInterfaceType::EXTERNAL;
        case PASSIVE: return IOInterfaceType::DBUSPASSIVE;
        case ACTIVE: return IOInterfaceType::DBUSACTIVE;
        case SYS: return IOInterfaceType::SYSFS;
        default: return IOInterfaceType::UNKNOWN;
    }
}
static std::string anyPath(bool fs)
{
    static const std::vector<std::string> bits = {"/sys/", "/sys", "sys/", "/xyz/openbmc_project/", "/xyz/openbmc_project", "extsensors/", "/xyz/openbmc_project/extsensors/", "/", "None", "a", "b1", "/xyz/", "openbmc_project/", " "};
    if (fs) return H::scratch + (H::chance(15) ? "/xyz/openbmc_project/sys/" : "/sys/") + H::word();
    switch (H::u(6)) {
        case 0: return "";
        case 1: return "None";
        case 2: return "/xyz/openbmc_project/sensors/" + H::word();
        case 3: return "/xyz/openbmc_project/extsensors/" + H::word();
        case 4: return H::str();
        default: {
            std::string s;
            for (int n = (int)H::u(4); n >= 0; n--) s += H::pick(bits);
            return s;
        }
    }
}
static std::string slurp(const std::string& p)
{
    std::ifstream f(p);
    std::stringstream ss;
    ss << f.rdbuf();
    return f ? ss.str() : "(no file)";
}
static std::string arg(const sdbusplus::stub::Msg& m, size_t i)
{
    if (i >= m.args.size()) return "?";
    if (auto p = std::any_cast<std::string>(&m.args[i])) return *p;
    if (auto p = std::any_cast<std::variant<uint64_t>>(&m.args[i])) return "u" + std::to_string(std::get<0>(*p));
    return "?";
}
using V = std::variant<int64_t, double, std::string, bool>;
int main(int c, char** v)
{
    return H::run(c, v, 20000, [] {
        static sdbusplus::bus_t passive, host;
        std::filesystem::create_directories(H::scratch + "/sys");
        std::filesystem::create_directories(H::scratch + "/xyz/openbmc_project/sys");
        for (int i = 0; i < 3; i++) {
            std::string p = anyPath(false);
            H::ctx = "path " + H::show(p);
            H::check("read path kind", (int)getReadInterfaceType(p), (int)io(rd(p)));
            H::check("write path kind", (int)getWriteInterfaceType(p), (int)io(wr(p)));
        }
        std::map<std::string, conf::SensorConfig> cfg;
        static const std::vector<std::string> types = {"fan", "fan", "fan", "temp", "margin", "power", "powersum", "temp"};
        H::ctx = "sensors";
        for (int n = (int)H::u(4); n >= 0; n--) {
            conf::SensorConfig s;
            s.type = H::chance(92) ? H::pick(types) : H::str();
            s.readPath = anyPath(H::chance(20));
            s.writePath = anyPath(H::chance(50));
            s.min = H::chance(50) ? 0 : (int64_t)H::u(100);
            s.max = H::chance(40) ? 0 : H::chance(20) ? -(int64_t)H::u(5) : (int64_t)H::u(300);
            s.timeout = (int64_t)H::u(9);
            s.ignoreDbusMinMax = H::chance(30);
            s.unavailableAsFailed = H::chance(70);
            s.ignoreFailIfHostOff = H::chance(30);
            std::string name = H::word();
            H::ctx += " " + name + "(" + s.type + " r=" + H::show(s.readPath) + " w=" + H::show(s.writePath) + " " + std::to_string(s.min) + ".." + std::to_string(s.max) + " t" + std::to_string(s.timeout) + (s.ignoreFailIfHostOff ? " off" : "") + ")";
            cfg[name] = s;
        }
        // the bus: which objects exist, and what they say
        std::set<std::string> gone, mute;
        std::map<std::string, double> value;
        int want = 0;
        for (auto& [n, s] : cfg) {
            for (auto* p : {&s.readPath, &s.writePath}) {
                if (H::chance(5)) gone.insert(*p);
                if (H::chance(5)) mute.insert(*p);
                value.emplace(*p, (double)H::u(200));
            }
        }
        double top = H::chance(50) ? 0 : 100;
        sdbusplus::stub::matches().clear();
        sdbusplus::stub::handler() = [&](sdbusplus::message_t& q) {
            sdbusplus::message_t r;
            if (q.d->member == "GetObject") {
                std::string p = arg(*q.d, 0);
                if (gone.count(p)) throw sdbusplus::exception::SdBusError(5, "stub");
                r.d->payload.push_back(std::map<std::string, std::vector<std::string>>{{"svc" + p, {"x"}}});
            } else if (q.d->member == "GetAll") {
                if (mute.count(q.d->path)) throw sdbusplus::exception::SdBusError(5, "stub");
                if (arg(*q.d, 0) == DP::VALUE) r.d->payload.push_back(std::map<std::string, V>{{"Value", value[q.d->path]}, {"MaxValue", top}, {"MinValue", 0.0}});
                else throw sdbusplus::exception::SdBusError(5, "stub");
            } else if (q.d->member == "Get") r.d->payload.push_back(std::variant<bool>(true));
            return r;
        };
        static const std::set<std::string> known = {"fan", "temp", "margin", "power", "powersum"};
        bool bad = false;
        for (auto& [n, s] : cfg) {
            if (rd(s.readPath) == PASSIVE && (!known.count(s.type) || gone.count(s.readPath) || mute.count(s.readPath))) bad = true;
            if (s.type == "fan" && wr(s.writePath) == ACTIVE && gone.count(s.writePath)) bad = true;
        }
        std::optional<SensorManager> m;
        try { m.emplace(buildSensors(cfg, passive, host)); } catch (const SensorBuildException&) {}
        H::check("building fails", !m, bad);
        if (!m) return true;
        H::require(&m->getPassiveBus() == &passive && &m->getHostBus() == &host, "the manager keeps the two buses apart");
        for (auto& [n, s] : cfg) {
            std::string who = n + ": ";
            Sensor* x = nullptr;
            try { x = m->getSensor(n); } catch (const std::out_of_range&) {}
            H::check((who + "is built").c_str(), x != nullptr, known.count(s.type) == 1);
            if (!x) continue;
            want++;
            H::check((who + "name").c_str(), x->getName(), n);
            H::check((who + "timeout").c_str(), x->getTimeout(), s.timeout);
            H::check((who + "ignore failure while the host is off").c_str(), x->getIgnoreFailIfHostOff(), s.ignoreFailIfHostOff);
            bool fan = s.type == "fan";
            Kind k = rd(s.readPath);
            bool ext = k == EXT && !fan;
            H::check((who + "is a host-written sensor").c_str(), dynamic_cast<HostSensor*>(x) != nullptr, ext);
            if (ext) {
                H::check((who + "initial value").c_str(), x->read().value, 0.0);
                double w = H::fin();
                dynamic_cast<HostSensor*>(x)->value(w);
                H::check((who + "value").c_str(), x->read().value, w);
            } else if (k == PASSIVE) {
                double w = value[s.readPath];
                if (top > 0 && !s.ignoreDbusMinMax) w /= top;
                H::check((who + "D-Bus reading").c_str(), x->read().value, w);
            } else if (k == SYS) {
                bool real = s.readPath.starts_with(H::scratch);
                int64_t w = real ? (int64_t)H::u(10000) : 0;
                if (real) std::ofstream(s.readPath) << w;
                if (real || !std::filesystem::exists(s.readPath)) H::check((who + "sysfs reading").c_str(), x->read().value, (double)w);
            } else if (k != EXT) {
                bool threw = false;
                try { x->read(); } catch (const std::runtime_error&) { threw = true; }
                H::check((who + "reading is refused").c_str(), threw, true);
            }
            if (ext) continue;
            Kind wk = fan ? wr(s.writePath) : NONE;
            double cmd = (double)H::u(5) / 4;
            double raw = s.max > 0 ? cmd * ((double)s.max - (double)s.min) + (double)s.min : cmd * 200;
            if (wk == ACTIVE && raw < 0) continue;
            bool real = s.writePath.starts_with(H::scratch);
            if (wk == SYS && !real) continue; // nothing outside the scratch folder is written
            if (real) std::ofstream(s.writePath) << "untouched";
            sdbusplus::stub::calls().clear();
            x->write(s.max > 0 ? cmd : cmd * 200);
            auto& calls = sdbusplus::stub::calls();
            if (real) H::check((who + "file written").c_str(), slurp(s.writePath), wk == SYS ? std::to_string((int64_t)raw) : std::string("untouched"));
            if (wk == ACTIVE && raw != 0 && raw != -1) {
                H::check((who + "bus writes").c_str(), calls.size(), (size_t)1);
                H::check((who + "bus object").c_str(), calls[0]->dest + " " + calls[0]->path + " " + arg(*calls[0], 2), "svc" + s.writePath + " " + s.writePath + " u" + std::to_string((uint64_t)raw));
            } else if (wk != ACTIVE) H::check((who + "bus writes").c_str(), calls.size(), (size_t)0);
        }
        return want > 0;
    });
}
