// LINK: pid/builder.cpp pid/zone.cpp pid/fancontroller.cpp pid/thermalcontroller.cpp pid/stepwisecontroller.cpp pid/pidcontroller.cpp pid/ec/pid.cpp pid/ec/stepwise.cpp pid/ec/logging.cpp pid/util.cpp pid/tuning.cpp util.cpp sensors/manager.cpp failsafeloggers/failsafe_logger.cpp failsafeloggers/failsafe_logger_utility.cpp
#include "harness.hpp"
#include "realzone.hpp"
#include "pid/builder.hpp"
#include "pid/fancontroller.hpp"
#include "pid/stepwisecontroller.hpp"
#include "pid/thermalcontroller.hpp"
using Conf = std::map<int64_t, conf::PIDConf>;
using Zones = std::map<int64_t, conf::ZoneConfig>;
static std::vector<std::string> names;
static const std::vector<std::string> kinds = {"fan", "temp", "margin", "power", "powersum", "stepwise", "other", "Temp"};
static const std::map<std::string, std::pair<ThermalType, std::string>> thermal = {
    {"temp", {ThermalType::absolute, "Temperature"}}, {"margin", {ThermalType::margin, "Margin"}},
    {"power", {ThermalType::absolute, "Power"}}, {"powersum", {ThermalType::summation, "PowerSum"}}};
static conf::ControllerInfo info()
{
    conf::ControllerInfo c{};
    c.type = H::pick(kinds);
    int n = c.type == "fan" ? 1 + (int)H::u(3) : H::chance(92) ? 1 + (int)H::u(3) : 0;
    for (int i = 0; i < n; i++) {
        conf::SensorInput s;
        s.name = (c.type == "fan" ? "fan" : "") + H::pick(names);
        s.missingIsAcceptable = H::chance(25);
        if (H::chance(25)) { s.convertTempToMargin = true; s.convertMarginZero = H::smallNum() + 80; }
        c.inputs.push_back(s);
    }
    c.setpoint = H::chance(60) ? (double)H::u(60) : H::chance(50) ? H::smallNum() : (double)H::u(4000) - 2000;
    auto num = [] { return H::chance(25) ? 0 : H::smallNum(); };
    auto& p = c.pidInfo;
    p.checkHysterWithSetpt = H::chance(30);
    p.ts = H::chance(50) ? 1 : 0.1;
    p.proportionalCoeff = num(); p.integralCoeff = num(); p.derivativeCoeff = num();
    p.feedFwdOffset = num(); p.feedFwdGain = num();
    p.integralLimit = {-(double)H::u(50), (double)H::u(50)};
    p.outLim = {(double)H::u(30) - 15, (double)H::u(200)};
    p.slewNeg = H::chance(50) ? 0 : -(double)H::u(20); p.slewPos = H::chance(50) ? 0 : (double)H::u(20);
    p.positiveHysteresis = H::chance(50) ? 0 : (double)H::u(5); p.negativeHysteresis = H::chance(50) ? 0 : (double)H::u(5);
    auto& w = c.stepwiseInfo;
    w.ts = 1;
    for (size_t i = 0; i < ec::maxStepwisePoints; i++) w.reading[i] = w.output[i] = std::numeric_limits<double>::quiet_NaN();
    int pts = 1 + (int)H::u(4);
    for (int i = 0; i < pts; i++) { w.reading[i] = 10 * i + (double)H::u(10); w.output[i] = (double)H::u(100); }
    w.positiveHysteresis = (double)H::u(3); w.negativeHysteresis = (double)H::u(3);
    w.isCeiling = H::chance(30);
    c.failSafePercent = H::chance(30) ? 0 : (double)H::u(101);
    return c;
}
static std::string brief(const Conf& c)
{
    std::string s;
    for (auto& [z, m] : c) {
        s += "zone " + std::to_string(z) + ":";
        for (auto& [n, i] : m) {
            s += " " + n + "/" + i.type + "(";
            for (auto& x : i.inputs) s += x.name + (x.missingIsAcceptable ? "? " : " ");
            s += "fs " + H::show(i.failSafePercent) + ")";
        }
        s += "; ";
    }
    return s;
}
// the controllers of one zone made directly from the configuration
static void assemble(DbusPidZone& z, const conf::PIDConf& m, sdbusplus::bus_t& bus)
{
    auto params = [](PIDController* c, const ec::pidinfo& p) {
        auto* i = c->getPIDInfo();
        i->checkHysterWithSetpt = p.checkHysterWithSetpt;
        i->ts = p.ts; i->proportionalCoeff = p.proportionalCoeff; i->integralCoeff = p.integralCoeff; i->derivativeCoeff = p.derivativeCoeff;
        i->feedFwdOffset = p.feedFwdOffset; i->feedFwdGain = p.feedFwdGain;
        i->integralLimit = p.integralLimit; i->outLim = p.outLim; i->slewNeg = p.slewNeg; i->slewPos = p.slewPos;
        i->positiveHysteresis = p.positiveHysteresis; i->negativeHysteresis = p.negativeHysteresis;
    };
    for (auto& [n, c] : m) {
        std::vector<std::string> in;
        for (auto& i : c.inputs) in.push_back(i.name);
        if (c.type == "fan") {
            for (auto& i : c.inputs) z.addFanInput(i.name, i.missingIsAcceptable);
            auto f = std::make_unique<FanController>(n, in, &z);
            params(f.get(), c.pidInfo);
            z.addFanPID(std::move(f));
        } else if (thermal.count(c.type)) {
            for (auto& i : c.inputs) z.addThermalInput(i.name, i.missingIsAcceptable);
            auto t = std::make_unique<ThermalController>(n, c.inputs, thermal.at(c.type).first, &z);
            t->setSetpoint(c.setpoint);
            params(t.get(), c.pidInfo);
            z.addThermalPID(std::move(t));
        } else if (c.type == "stepwise") {
            for (auto& i : c.inputs) z.addThermalInput(i.name, i.missingIsAcceptable);
            auto s = std::make_unique<StepwiseController>(n, in, &z);
            s->setStepwiseInfo(c.stepwiseInfo);
            z.addThermalPID(std::move(s));
        } else
            continue;
        z.addPidFailSafePercent(in, c.failSafePercent);
        if (c.type != "fan") z.addPidControlProcess(n, c.type, c.setpoint, bus, "/reference/" + n, true);
    }
}
static SensorManager* manager(std::map<std::string, StubSensor*>& out)
{
    auto* m = new SensorManager(RZ::bus, RZ::bus);
    for (auto& pre : {"", "fan"})
        for (auto& n : names) {
            auto s = std::make_unique<StubSensor>(pre + n, 0);
            out[pre + n] = s.get();
            m->addSensor(*pre ? "fan" : "temp", pre + n, std::move(s));
        }
    return m;
}
int main(int c, char** v)
{
    names = {"a", "b", "c", "d"};
    return H::run(c, v, 20000, [] {
        Conf conf;
        Zones zones;
        int nz = (int)H::u(4);
        for (int i = 0; i < nz; i++) {
            int64_t id = H::chance(80) ? (int64_t)H::u(6) : H::i64();
            auto& m = conf[id];
            int np = (int)H::u(5);
            for (int j = 0; j < np; j++) m["ctl" + std::to_string(H::u(6))] = info();
        }
        for (auto& [id, m] : conf)
            if (H::chance(95)) zones[id] = {(double)H::u(5000), (double)H::u(101), {50 + H::u(100), 500 + H::u(1000)}, H::chance(30)};
        if (H::chance(30)) zones[77] = {1, 2, {}, false};
        H::ctx = brief(conf) + "settings for";
        for (auto& [id, z] : zones) H::ctx += " " + std::to_string(id);
        std::map<std::string, StubSensor*> sn, sr;
        std::unique_ptr<SensorManager> mgr(manager(sn)), ref(manager(sr));
        // which error, if any
        bool noconf = false, empty = false;
        for (auto& [id, m] : conf) {
            if (!zones.count(id)) { noconf = true; break; }
            for (auto& [n, i] : m) empty |= i.inputs.empty() && (thermal.count(i.type) || i.type == "stepwise");
            if (empty) break;
        }
        auto settings = zones;
        std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> built;
        bool threw = false;
        try { built = buildZones(conf, zones, *mgr, RZ::bus); } catch (const std::exception&) { threw = true; }
        H::require(threw == (noconf || empty), std::string("buildZones: expected ") + (noconf ? "an error for the zone without settings" : empty ? "an error for the controller without inputs" : "no error") + (threw ? ", got an error" : ", got none"));
        if (threw) return true;
        H::require(built.size() == conf.size(), "zones built: expected " + std::to_string(conf.size()) + ", got " + std::to_string(built.size()));
        for (auto& [id, m] : conf) {
            std::string in = "zone " + std::to_string(id) + ": ";
            H::require(built.count(id) && built.at(id), in + "expected a zone object");
            auto* z = dynamic_cast<DbusPidZone*>(built.at(id).get());
            H::require(z, in + "expected a zone object");
            auto& s = settings.at(id);
            H::check((in + "id").c_str(), z->getZoneID(), id);
            H::check((in + "minimum output").c_str(), z->getMinThermalSetPoint(), s.minThermalOutput);
            H::check((in + "cycle time").c_str(), z->getCycleIntervalTime(), s.cycleTime.cycleIntervalTimeMS);
            H::check((in + "thermal update time").c_str(), z->getUpdateThermalsCycle(), s.cycleTime.updateThermalsTimeMS);
            H::check((in + "accumulate set points").c_str(), z->getAccSetPoint(), s.accumulateSetPoint);
            H::check((in + "failsafe percent").c_str(), z->getFailSafePercent(), s.failsafePercent);
            std::map<std::string, double> pct;
            std::set<std::string> ok, fans, temps;
            for (auto& [n, i] : m) {
                bool th = thermal.count(i.type) || i.type == "stepwise";
                for (auto& x : i.inputs) {
                    if (i.type != "fan" && !th) continue;
                    (th ? temps : fans).insert(x.name);
                    if (x.missingIsAcceptable) ok.insert(x.name);
                    auto it = pct.find(x.name);
                    pct[x.name] = it == pct.end() ? i.failSafePercent : std::max(it->second, i.failSafePercent);
                }
                auto& live = sdbusplus::xyz::openbmc_project::Object::server::Enable::live();
                auto it = live.find("/xyz/openbmc_project/settings/fanctrl/zone" + std::to_string(id) + "/" + n);
                auto* p = it == live.end() ? nullptr : dynamic_cast<ProcessObject*>(it->second);
                H::require(!!p == th, in + n + ": " + (th ? "expected a process object under its name" : "no process object expected"));
                if (!p) continue;
                H::check((in + n + " enabled").c_str(), p->enabled(), true);
                H::check((in + n + " setpoint").c_str(), p->setpoint(), i.setpoint);
                if (thermal.count(i.type)) H::check((in + n + " class").c_str(), p->classType(), thermal.at(i.type).second);
            }
            DbusPidZone e(id, s.minThermalOutput, s.failsafePercent, s.cycleTime, *ref, RZ::bus, "/reference", true, s.accumulateSetPoint);
            assemble(e, m, RZ::bus);
            for (auto* q : {&sn, &sr}) for (auto& [n, x] : *q) { x->reads = 0; x->writes.clear(); x->failed = false; x->rd = {}; }
            z->initializeCache();
            e.initializeCache();
            // several passes over the same readings
            int steps = 2 + (int)H::u(3);
            for (int k = 0; k < steps; k++) {
                auto now = std::chrono::high_resolution_clock::now() + std::chrono::hours(1);
                std::set<std::string> bad;
                for (auto& [n, x] : sn) {
                    ReadReturn r{(double)H::u(80), now, (double)H::u(80)};
                    bool f = H::chance(20);
                    if (f) bad.insert(n);
                    for (auto* y : {x, sr.at(n)}) { y->rd = r; y->failed = f; y->reason = "why"; }
                }
                std::map<std::string, std::pair<std::string, double>> failing;
                for (auto& t : temps) // only inputs that fail and may not be missing
                    if (bad.count(t) && !ok.count(t)) failing[t] = {"why", pct.at(t) != 0 ? pct.at(t) : s.failsafePercent};
                for (auto* y : {z, &e}) {
                    y->updateFanTelemetry();
                    y->updateSensors();
                    y->clearSetPoints();
                    y->clearRPMCeilings();
                    y->processThermals();
                    y->determineMaxSetPointRequest();
                    y->processFans();
                }
                auto got = z->getFailSafeSensors();
                std::erase_if(got, [&](auto& x) { return !temps.count(x.first); });
                H::require(got == failing, in + "failing thermal inputs: expected " + H::show(failing) + ", got " + H::show(got));
                auto fgot = z->getFailSafeSensors();
                for (auto& f : fans)
                    if (bad.count(f)) H::require(fgot.count(f) == !ok.count(f), in + "failing fan input " + f + (ok.count(f) ? " may be missing" : " expected"));
                for (auto& [n, x] : fgot)
                    if (pct.count(n)) H::check((in + "failsafe percent of " + n).c_str(), x.second, pct.at(n) != 0 ? pct.at(n) : s.failsafePercent);
                H::check((in + "set point request").c_str(), z->getMaxSetPointRequest(), e.getMaxSetPointRequest());
                H::check((in + "leader").c_str(), z->leader(), e.leader());
                for (auto& [n, x] : sn) {
                    auto* y = sr.at(n);
                    H::require((x->reads > 0) == (y->reads > 0) && (x->reads > 0) == (temps.count(n) || fans.count(n)), in + "sensor " + n + (y->reads ? " is an input, not read" : " is no input, read"));
                    bool same = x->writes.size() == y->writes.size();
                    for (size_t i = 0; same && i < x->writes.size(); i++) same = H::same(x->writes[i].v, y->writes[i].v) && x->writes[i].force == y->writes[i].force;
                    H::require(same, in + "writes to fan " + n + " differ from those of controllers with the configured name, inputs and parameters");
                }
            }
        }
        return true;
    });
}
