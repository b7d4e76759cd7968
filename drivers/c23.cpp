// LINK: sensors/pluggable.cpp sensors/host.cpp failsafeloggers/failsafe_logger.cpp failsafeloggers/failsafe_logger_utility.cpp
#include "harness.hpp"
#include <boost/container/flat_map.hpp>
#include <sdbusplus/bus.hpp>
#include <sdbusplus/server/object.hpp>
#include <xyz/openbmc_project/Sensor/Value/server.hpp>
#include <xyz/openbmc_project/State/Host/common.hpp>
#define private public
#include "hoststatemonitor.hpp"
#undef private
#include "sensors/pluggable.hpp"
#include "sensors/host.hpp"
using namespace pid_control;
namespace
{
sdbusplus::bus_t bus;
struct Rd : ReadInterface
{
    ReadReturn r{};
    bool failed = false;
    std::string why;
    int reads = 0;
    ReadReturn read() override { reads++; return r; }
    bool getFailed() const override { return failed; }
    std::string getFailReason() const override { return why; }
};
struct Wr : WriteInterface
{
    Wr() : WriteInterface(0, 0) {}
    std::vector<std::string> log;
    int64_t* last = nullptr;
    void write(double v) override { log.push_back(H::show(v)); }
    void write(double v, bool f, int64_t* w) override { log.push_back(H::show(v) + "," + H::show(f)); last = w; if (w) *w = 77; }
};
using HV = std::variant<std::string>;
std::string anyState()
{
    static const std::vector<std::string> s{"xyz.openbmc_project.State.Host.HostState.Running", "xyz.openbmc_project.State.Host.HostState.Off",
        "xyz.openbmc_project.State.Host.HostState.Running", "xyz.openbmc_project.State.Host.HostState.TransitioningToRunning", ".Running", "Running", "", ".Running.", ".running",
        "xyz.openbmc_project.State.Host.HostState.Quiesced", "xyz.openbmc_project.State.Host.HostState.Standby", "x.Running ", "a.Runningb.Running", "xyz.openbmc_project.State.Host.HostState.DiagnosticMode"};
    return H::pick(s);
}
bool ends(const std::string& s) { std::string e = ".Running"; return s.size() >= e.size() && s.substr(s.size() - e.size()) == e; }
// a property change; updates the expected power state
sdbusplus::message_t signal(bool& on, std::string& d)
{
    sdbusplus::message_t m;
    m.d->payload.push_back(std::string(H::chance(80) ? "xyz.openbmc_project.State.Host" : "other"));
    if (H::chance(8)) { d += " sig:unreadable"; if (H::chance(50)) m.d->payload.push_back(5); return m; }
    boost::container::flat_map<std::string, HV> v;
    if (H::chance(40)) v["RequestedHostTransition"] = std::string("xyz.openbmc_project.State.Host.HostState.Running");
    if (H::chance(80)) { std::string s = anyState(); v["CurrentHostState"] = s; on = ends(s); d += " sig:" + s; }
    else d += " sig:-";
    m.d->payload.push_back(v);
    return m;
}
}
int main(int c, char** v)
{
    return H::run(c, v, 20000, [] {
        // the initial state of a monitor
        {
            int kind = (int)H::u(6);
            std::string s = anyState();
            bool asked = false;
            sdbusplus::stub::handler() = [&](sdbusplus::message_t& m) -> sdbusplus::message_t {
                if (m.d->dest == "xyz.openbmc_project.State.Host0" && m.d->path == "/xyz/openbmc_project/state/host0" && m.d->member == "Get"
                    && m.d->args.size() == 2 && *std::any_cast<std::string>(&m.d->args[1]) == "CurrentHostState") asked = true;
                if (kind == 0) throw sdbusplus::exception::SdBusError(5, "stub");
                sdbusplus::message_t r;
                if (kind == 1) r.d->readFails = true;
                else if (kind == 2) r.d->payload.push_back(7);
                else r.d->payload.push_back(HV(s));
                return r;
            };
            sdbusplus::stub::matches().clear();
            HostStateMonitor mon(bus);
            sdbusplus::stub::handler() = {};
            bool on = kind > 2 && ends(s);
            H::ctx = "host state " + (kind > 2 ? s : std::string("unreadable")) + ":";
            H::check("the monitor asks for the current host state", asked, true);
            H::check("host on", mon.isPowerOn(), on);
            size_t n0 = sdbusplus::stub::matches().size();
            mon.startMonitoring();
            mon.startMonitoring();
            H::check("one match", sdbusplus::stub::matches().size() - n0, (size_t)1);
            auto rec = sdbusplus::stub::matches().back();
            H::require(rec->rule.find("/xyz/openbmc_project/state/host0") != std::string::npos && rec->rule.find("xyz.openbmc_project.State.Host") != std::string::npos, "rule");
            for (int i = 0, n = (int)H::u(4); i < n; i++) {
                auto m = signal(on, H::ctx);
                rec->cb(m);
                H::check("host on after signal", mon.isPowerOn(), on);
            }
        }
        // the process-wide monitor
        static bool on = false;
        static std::shared_ptr<sdbusplus::stub::MatchRec> rec;
        if (!rec) {
            sdbusplus::stub::handler() = [](sdbusplus::message_t&) -> sdbusplus::message_t { throw sdbusplus::exception::SdBusError(5, "stub"); };
            auto& g = HostStateMonitor::getInstance();
            sdbusplus::stub::handler() = {};
            H::check("same monitor", &g == &HostStateMonitor::getInstance(bus), true);
            g.startMonitoring();
            rec = sdbusplus::stub::matches().back();
        }
        H::ctx = "global monitor:";
        std::string d;
        if (H::chance(70)) { auto m = signal(on, d); rec->cb(m); }
        H::ctx = std::string("host ") + (on ? "on" : "off") + ":";
        H::check("global monitor", HostStateMonitor::getInstance().isPowerOn(), on);
        bool ign = H::chance(50);
        auto rd = std::make_unique<Rd>();
        auto wr = std::make_unique<Wr>();
        Rd* r = rd.get();
        Wr* w = wr.get();
        std::string nm = H::str();
        int64_t to = H::i64();
        PluggableSensor p(nm, to, std::move(rd), std::move(wr), ign);
        H::check("name", p.getName(), nm);
        H::check("timeout", (long long)p.getTimeout(), (long long)to);
        H::check("ignore", p.getIgnoreFailIfHostOff(), ign);
        r->failed = H::chance(60);
        r->why = H::str();
        r->r.value = H::dbl();
        r->r.unscaled = H::dbl();
        r->r.updated = std::chrono::high_resolution_clock::time_point(std::chrono::nanoseconds((long long)H::u(1000000)));
        H::ctx += " pluggable, reader failed=" + H::show(r->failed) + " ignore=" + H::show(ign);
        H::check("pluggable failed", p.getFailed(), r->failed && !(ign && !on));
        H::check("fail reason", p.getFailReason(), r->why);
        auto rr = p.read();
        H::require(H::same(rr.value, r->r.value) && H::same(rr.unscaled, r->r.unscaled) && rr.updated == r->r.updated && r->reads == 1, "read passes through");
        double x = H::dbl();
        p.write(x);
        H::check("write", w->log, std::vector<std::string>{H::show(x)});
        bool f = H::chance(50);
        int64_t out = -5;
        bool nul = H::chance(30);
        p.write(x, f, nul ? nullptr : &out);
        H::check("write with force", w->log.back(), H::show(x) + "," + H::show(f));
        H::check("writes", w->log.size(), (size_t)2);
        H::check("written", (long long)out, nul ? -5LL : 77LL);
        // a sensor the host writes
        std::unique_ptr<Sensor> hs = HostSensor::createTemp(nm, to, bus, "/xyz/openbmc_project/extsensors/t/x", true, ign);
        auto* h = dynamic_cast<HostSensor*>(hs.get());
        H::require(h && hs->getName() == nm && hs->getTimeout() == to && hs->getIgnoreFailIfHostOff() == ign, "host sensor");
        H::ctx = std::string("host ") + (on ? "on" : "off") + ": host sensor ignore=" + H::show(ign);
        double cur = 0;
        for (int i = 0, n = (int)H::u(4); ; i++) {
            auto q = hs->read();
            H::check("host sensor value", H::show(q.value), H::show(cur));
            H::check("host sensor failed", hs->getFailed(), !std::isfinite(cur) && !(ign && !on));
            if (i >= n) break;
            cur = H::chance(30) ? H::nan_() : H::dbl();
            auto t0 = std::chrono::high_resolution_clock::now();
            double back = h->value(cur);
            H::ctx += " value(" + H::show(cur) + ")";
            H::check("returned", H::show(back), H::show(cur));
            H::require(hs->read().updated >= t0 && hs->read().updated <= std::chrono::high_resolution_clock::now(), "time stamp of the write");
        }
        bool threw = false;
        try { hs->write(1.0); } catch (const std::exception&) { threw = true; }
        H::check("write refused", threw, true);
        return true;
    });
}
