// LINK: pid/ec/pid.cpp pid/ec/logging.cpp pid/tuning.cpp pid/pidcontroller.cpp pid/thermalcontroller.cpp pid/util.cpp pid/zone.cpp sensors/manager.cpp failsafeloggers/failsafe_logger.cpp failsafeloggers/failsafe_logger_utility.cpp
#include "harness.hpp"
#include "zonenoise.hpp"
#include "pid/thermalcontroller.hpp"
// every control process of a real zone, as a D-Bus client sees it, while the loop runs
using Panel = sdbusplus::xyz::openbmc_project::Debug::Pid::server::ThermalPower;
struct View
{
    std::string path, type, cls, leader;
    bool on = true;
    double setpoint = 0, input = 0, output = 0;
    std::vector<conf::SensorInput> ins;
    std::unique_ptr<PIDController> c;
};
int main(int c, char** v)
{
    return H::run(c, v, 20000, [] {
        H::ctx = "";
        RZ::Rig r((int64_t)H::u(5), H::pick(std::vector<double>{0, 1000}), 75, H::chance(30));
        auto& z = *r.zone;
        std::vector<std::string> names{"in0", "in1", "t 2", "x"};
        for (auto& n : names) r.sensor(n), z.addThermalInput(n, H::chance(30));
        z.initializeCache();
        std::map<std::string, View> views;
        auto add = [&](const std::string& n) {
            View w;
            w.type = H::pick(std::vector<std::string>{"temp", "margin", "power", "powersum", "stepwise", "fan"});
            w.path = "/xyz/pid/" + n + (H::chance(20) ? "_2" : "");
            w.setpoint = H::chance(70) ? (double)H::u(100) : H::fin();
            z.addPidControlProcess(n, w.type, w.setpoint, RZ::bus, w.path, H::chance(50));
            w.cls = w.type == "temp" ? "Temperature" : w.type == "margin" ? "Margin" : w.type == "power" ? "Power" : w.type == "powersum" ? "PowerSum" : "";
            if (w.type != "stepwise" && w.type != "fan") {
                for (int i = 0, k = 1 + (int)H::u(4); i < k; i++) {
                    conf::SensorInput s;
                    s.name = H::pick(names);
                    s.convertTempToMargin = H::chance(40), s.convertMarginZero = (double)H::u(120);
                    w.ins.push_back(s);
                }
                w.c = ThermalController::createThermalPid(&z, n, w.ins, w.setpoint, ec::pidinfo{}, getThermalType(w.type));
            }
            H::ctx += " add(" + n + "," + w.type + ")";
            views[n] = std::move(w);
        };
        bool manual = false;
        auto compare = [&] {
            for (auto& [n, w] : views) {
                auto it = ProcessInterface::live().find(w.path);
                H::require(it != ProcessInterface::live().end(), "control process of '" + n + "' is not on D-Bus at " + w.path);
                auto* p = dynamic_cast<Panel*>(it->second);
                H::check("enabled of " + n, it->second->enabled(), w.on);
                H::check("zone's view of enabled of " + n, z.isPidProcessEnabled(n), w.on);
                H::check("set point of " + n, p->setpoint(), w.setpoint);
                H::check("class of " + n, p->classType(), w.cls);
                H::check("leader of " + n, p->leader(), w.leader);
                H::check("input of " + n, p->input(), w.input);
                H::check("output of " + n, p->output(), w.output);
            }
            H::check("zone's Manual", static_cast<ModeObject&>(z).ModeObject::manual(), manual);
            H::check("zone in manual mode", z.getManualMode(), manual);
            H::check("zone's FailSafe", z.failSafe(), !z._failSafeSensors.empty());
            H::check("zone's FailSafe and the loop's", z.failSafe(), z.getFailSafeMode());
            H::check("zone's Leader", z.leader(), z._maximumSetPointName);
        };
        for (int i = 0, k = 1 + (int)H::u(3); i < k; i++) add("P_" + std::to_string(i));
        compare();
        for (int t = 0, k = 1 + (int)H::u(12); t < k; t++) {
            auto it = views.begin();
            std::advance(it, H::u(views.size()));
            auto& w = it->second;
            switch (H::u(9)) {
                case 0:
                    w.on = H::chance(50);
                    H::ctx += " enable(" + it->first + "," + H::show(w.on) + ")";
                    ProcessInterface::live()[w.path]->enabled(w.on);
                    break;
                case 1:
                    manual = H::chance(50);
                    H::ctx += " manual(" + H::show(manual) + ")";
                    H::check("manual()", static_cast<ModeInterface&>(z).manual(manual), manual);
                    break;
                case 2:
                    H::ctx += " resolve";
                    if (H::chance(30)) z.addRPMCeiling(H::u(2000));
                    z.determineMaxSetPointRequest();
                    break;
                case 3:
                    H::ctx += " clear";
                    z.clearSetPoints();
                    z.clearRPMCeilings();
                    break;
                case 4:
                    for (auto& [n, s] : r.sensors)
                        s->rd.value = H::chance(80) ? (double)H::u(120) : H::nan_(), s->rd.updated = std::chrono::high_resolution_clock::now(), s->failed = H::chance(15);
                    z.updateSensors();
                    H::ctx += " read";
                    for (auto& n : names) H::ctx += " " + H::show(z.getCachedValue(n));
                    break;
                case 5:
                    if (H::chance(30)) { it->second = View{}; add(it->first); }
                    break;
                default: {
                    if (!w.c) break;
                    bool any = false;
                    double val = w.type == "margin" ? std::numeric_limits<double>::max() : w.type == "powersum" ? 0 : std::numeric_limits<double>::lowest();
                    for (auto& i : w.ins) {
                        double x = z.getCachedValue(i.name), old = val;
                        if (!std::isfinite(x)) continue;
                        any = true;
                        if (w.type == "margin" && i.convertTempToMargin) x = i.convertMarginZero - x;
                        val = w.type == "margin" ? std::min(val, x) : w.type == "powersum" ? val + x : std::max(val, x);
                        if (val != old) w.leader = i.name, w.input = val;
                    }
                    H::ctx += " run(" + it->first + ")";
                    H::check("input used by " + it->first, w.c->inputProc(), any ? val : w.setpoint);
                    w.output = H::chance(80) ? (double)H::u(5000) : H::fin();
                    H::ctx += "=" + H::show(w.output);
                    w.c->outputProc(w.output);
                }
            }
            compare();
        }
        return true;
    });
}
