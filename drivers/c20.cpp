// LINK: dbus/dbusconfiguration.cpp dbus/dbushelper.cpp dbus/dbusutil.cpp util.cpp pid/tuning.cpp
#include "harness.hpp"
#include <sdbusplus/bus.hpp>
#include "dbus/dbusconfiguration.hpp"
#include "dbus/dbusutil.hpp"
#include <boost/asio/io_context.hpp>
using namespace pid_control;
namespace pid_control { void tryRestartControlLoops(bool) {} }
using V = DbusVariantType;
using Attrs = std::unordered_map<std::string, V>;
using Tree = std::unordered_map<std::string, std::unordered_map<std::string, std::vector<std::string>>>;
static const std::string CFG = "xyz.openbmc_project.Configuration.Pid", ZONE = CFG + ".Zone", VALUE = "xyz.openbmc_project.Sensor.Value",
                         PWM = "xyz.openbmc_project.Control.FanPwm", OM = "org.freedesktop.DBus.ObjectManager",
                         CRIT = "xyz.openbmc_project.Sensor.Threshold.Critical", WARN = "xyz.openbmc_project.Sensor.Threshold.Warning";
static V number(double lim = 1e6)
{
    switch (H::u(5)) {
        case 0: return (uint64_t)H::u(500);
        case 1: return (int64_t)H::u(500) - 250;
        case 2: return H::chance(50);
        default: { double d = H::fin(); return std::fabs(d) < lim ? d : 1.5; }
    }
}
static bool isNum(const V& v) { return v.index() <= 2 || v.index() == 4; }
static double num(const V& v) { return v.index() == 0 ? (double)std::get<0>(v) : v.index() == 1 ? (double)std::get<1>(v) : v.index() == 2 ? std::get<2>(v) : std::get<4>(v) ? 1.0 : 0.0; }
static std::string show(const Attrs& m)
{
    std::string s;
    for (auto& [k, v] : std::map<std::string, V>(m.begin(), m.end())) s += k + "=" + (isNum(v) ? H::show(num(v)) : v.index() == 3 ? H::show(std::get<3>(v)) : "list") + " ";
    return s;
}
static std::string arg(const sdbusplus::stub::Msg& m, size_t i)
{
    if (i >= m.args.size()) return "?";
    if (auto p = std::any_cast<std::string>(&m.args[i])) return *p;
    if (auto p = std::any_cast<std::vector<std::string>>(&m.args[i])) return "[" + (p->size() == 1 ? (*p)[0] : "?") + "]";
    return "?";
}
// whether the call is about profiles, whatever list type carries the interface names
template <size_t... N> static bool profiles(const std::any& a, std::index_sequence<N...>)
{
    auto in = [](auto* p) {
        if (!p) return false;
        for (const auto& x : *p) if (std::string(x) == "xyz.openbmc_project.Control.ThermalMode") return true;
        return false;
    };
    return in(std::any_cast<std::vector<std::string>>(&a)) || in(std::any_cast<std::vector<const char*>>(&a)) ||
           (in(std::any_cast<std::array<const char*, N>>(&a)) || ...) || (in(std::any_cast<std::array<std::string, N>>(&a)) || ...);
}
int main(int c, char** v)
{
    return H::run(c, v, 30000, [] {
        static sdbusplus::bus_t bus;
        static boost::asio::io_context io;
        static boost::asio::steady_timer timer(io);
        static const std::vector<std::string> types = {"fan", "temp", "margin", "power", "powersum"};
        std::string cls = H::pick(types);
        bool fan = cls == "fan";
        std::string sensor = "S" + H::word(), path = "/xyz/openbmc_project/sensors/x/" + sensor, pwm = "/xyz/openbmc_project/control/fanpwm/p";
        Attrs a{{"Name", std::string("ctl")}, {"Class", cls}, {"Zones", std::vector<std::string>{"z"}}, {"Inputs", std::vector<std::string>{sensor}}, {"Outputs", std::vector<std::string>{"p"}}};
        static const std::vector<std::string> must = {"PCoefficient", "ICoefficient", "FFOffCoefficient", "FFGainCoefficient", "ILimitMax", "ILimitMin", "OutLimitMax", "OutLimitMin", "SlewNeg", "SlewPos"};
        static const std::vector<std::string> may = {"NegativeHysteresis", "PositiveHysteresis", "DCoefficient", "FailSafePercent"};
        for (auto& k : must) a[k] = number();
        if (!fan || H::chance(50)) a["SetPoint"] = number();
        for (auto& k : may) if (H::chance(50)) a[k] = number();
        if (H::chance(50)) a["CheckHysteresisWithSetpoint"] = H::chance(50);
        if (H::chance(15)) a.erase(H::chance(15) ? std::string("SetPoint") : H::pick(must));
        if (H::chance(15)) a[H::chance(50) ? H::pick(must) : H::chance(20) ? "SetPoint" : H::pick(may)] = H::chance(50) ? V(H::word()) : V(std::vector<double>{1});
        if (H::chance(5)) a["CheckHysteresisWithSetpoint"] = number();
        std::string offset;
        if (!fan && H::chance(30)) {
            static const std::vector<std::string> th = {"CriticalLow", "CriticalHigh", "WarningLow", "WarningHigh"};
            offset = H::pick(th);
            a["SetPointOffset"] = offset;
        }
        double reading = H::smallNum();
        int fault = H::chance(70) ? 0 : 1 + (int)H::u(2); // 1: no owner of the threshold, 2: no such threshold
        Attrs z{{"Name", std::string("z")}, {"MinThermalOutput", number()}};
        for (std::string k : {"CycleIntervalTimeMS", "UpdateThermalsTimeMS"})
            if (H::chance(60)) z[k] = H::chance(95) ? (H::chance(40) ? V((double)H::u(9) / 4) : number()) : V(H::word());
        if (H::chance(50)) z["FailSafePercent"] = number();
        if (H::chance(50)) z["AccumulateSetPoint"] = H::chance(50);
        H::ctx = "controller " + show(a) + "threshold reading " + (fault ? "fails" : H::show(reading)) + " zone " + show(z);
        std::string problem;
        sdbusplus::stub::handler() = [&](sdbusplus::message_t& q) {
            sdbusplus::message_t r;
            auto& m = *q.d;
            if (m.member == "GetSubTree") {
                bool all = !profiles(m.args.at(2), std::make_index_sequence<10>());
                r.d->payload.push_back(all ? Tree{{"/cfg", {{"em", {OM, CFG, ZONE}}}}, {path, {{"sensors", {VALUE}}}}, {pwm, {{"sensors", {PWM}}}}} : Tree{});
            } else if (m.member == "GetManagedObjects") {
                r.d->payload.push_back(ManagedObjectType{{sdbusplus::object_path("/cfg/c"), {{CFG, a}}}, {sdbusplus::object_path("/cfg/z"), {{ZONE, z}}}});
            } else if (m.member == "GetObject") {
                std::string want = offset.starts_with("Warning") ? WARN : CRIT;
                if (arg(m, 0) != path || arg(m, 1) != "[" + want + "]") problem = "asked for the owner of " + arg(m, 1) + " of " + arg(m, 0);
                if (fault == 1) throw sdbusplus::exception::SdBusError(5, "stub");
                r.d->payload.push_back(std::map<std::string, std::vector<std::string>>{{"owner", {want}}});
            } else if (m.member == "Get") {
                std::string want = offset.starts_with("Warning") ? WARN : CRIT;
                if (m.dest != "owner" || m.path != path || arg(m, 0) != want || arg(m, 1) != offset) problem = "asked for " + arg(m, 1) + " of " + m.path;
                if (fault == 2) throw sdbusplus::exception::SdBusError(5, "stub");
                r.d->payload.push_back(std::variant<double>(reading));
            }
            return r;
        };
        std::map<std::string, conf::SensorConfig> sensors;
        std::map<int64_t, conf::PIDConf> zones;
        std::map<int64_t, conf::ZoneConfig> details;
        bool threw = false;
        try { dbus_configuration::init(bus, timer, sensors, zones, details); } catch (const std::exception&) { threw = true; }
        bool bad = false;
        for (auto& k : must) bad |= !a.count(k) || !isNum(a[k]);
        for (auto& k : may) bad |= a.count(k) && !isNum(a[k]);
        if (!fan) bad |= !a.count("SetPoint") || !isNum(a["SetPoint"]);
        if (a.count("CheckHysteresisWithSetpoint")) bad |= a["CheckHysteresisWithSetpoint"].index() != 4;
        if (!offset.empty() && fault == 1) bad = true;
        for (std::string k : {"CycleIntervalTimeMS", "UpdateThermalsTimeMS"}) bad |= z.count(k) && !isNum(z[k]);
        H::require(problem.empty(), problem);
        H::check("an error is raised", threw, bad);
        if (bad) return true;
        H::require(zones.size() == 1 && zones.count(0) && zones[0].size() == 1, "one controller in the zone");
        const auto& i = zones[0].begin()->second;
        auto at = [&](const char* k) { return a.count(k) ? num(a[k]) : 0.0; };
        H::check("class", i.type, cls);
        double set = fan ? 0 : at("SetPoint");
        if (!offset.empty() && fault == 0) set += reading;
        H::check("setpoint", i.setpoint, set);
        H::check("failsafe percent", i.failSafePercent, std::trunc(at("FailSafePercent")) + 0.0);
        auto& p = i.pidInfo;
        H::check("P", p.proportionalCoeff, at("PCoefficient"));
        H::check("I", p.integralCoeff, at("ICoefficient"));
        H::check("D", p.derivativeCoeff, at("DCoefficient"));
        H::check("FF offset", p.feedFwdOffset, at("FFOffCoefficient"));
        H::check("FF gain", p.feedFwdGain, at("FFGainCoefficient"));
        H::check("integral max", p.integralLimit.max, at("ILimitMax"));
        H::check("integral min", p.integralLimit.min, at("ILimitMin"));
        H::check("output max", p.outLim.max, at("OutLimitMax"));
        H::check("output min", p.outLim.min, at("OutLimitMin"));
        H::check("slew negative", p.slewNeg, at("SlewNeg"));
        H::check("slew positive", p.slewPos, at("SlewPos"));
        H::check("negative hysteresis", p.negativeHysteresis, at("NegativeHysteresis"));
        H::check("positive hysteresis", p.positiveHysteresis, at("PositiveHysteresis"));
        H::check("check with setpoint", p.checkHysterWithSetpt, a.count("CheckHysteresisWithSetpoint") && std::get<bool>(a["CheckHysteresisWithSetpoint"]));
        H::require(details.size() == 1 && details.count(0), "one zone");
        auto ms = [&](const char* k, uint64_t d) { return z.count(k) && num(z[k]) >= 1.0 ? (uint64_t)num(z[k]) : d; };
        H::check("fan interval", details[0].cycleTime.cycleIntervalTimeMS, ms("CycleIntervalTimeMS", 100));
        H::check("thermal interval", details[0].cycleTime.updateThermalsTimeMS, ms("UpdateThermalsTimeMS", 1000));
        H::check("minimum output", details[0].minThermalOutput, num(z["MinThermalOutput"]));
        H::check("zone failsafe percent", details[0].failsafePercent, z.count("FailSafePercent") ? std::trunc(num(z["FailSafePercent"])) + 0.0 : 0.0);
        H::check("accumulate", details[0].accumulateSetPoint, z.count("AccumulateSetPoint") && std::get<bool>(z["AccumulateSetPoint"]));
        return true;
    });
}
