// LINK: dbus/dbushelper.cpp dbus/dbusutil.cpp
#include "harness.hpp"
#include <sdbusplus/bus.hpp>
#include "dbus/dbushelper.hpp"
#include "dbus/dbushelper_interface.hpp"
using namespace pid_control;
using V = std::variant<int64_t, double, std::string, bool>;
using PM = std::map<std::string, V>;
using ST = sdbusplus::stub::Msg;
static std::string show(const PM& m)
{
    std::string s = "{";
    for (auto& [k, v] : m) s += k + "=" + (v.index() == 0 ? "i" + std::to_string(std::get<0>(v)) : v.index() == 1 ? "d" + H::show(std::get<1>(v)) : v.index() == 2 ? H::show(std::get<2>(v)) : H::show(std::get<3>(v))) + " ";
    return s + "}";
}
static V anyV()
{
    switch (H::u(8)) {
        case 0: return H::str();
        case 1: return H::chance(50);
        case 2: case 3: case 4: return (int64_t)H::i64();
        default: return H::dbl();
    }
}
static bool number(const V& v, double& d)
{
    if (v.index() == 2) return false;
    d = v.index() == 0 ? (double)std::get<0>(v) : v.index() == 1 ? std::get<1>(v) : std::get<3>(v) ? 1.0 : 0.0;
    return true;
}
static std::string arg(const ST& m, size_t i)
{
    if (i >= m.args.size()) return "?";
    if (auto p = std::any_cast<std::string>(&m.args[i])) return *p;
    if (auto p = std::any_cast<std::vector<std::string>>(&m.args[i])) return "[" + (p->size() == 1 ? (*p)[0] : "?") + "]";
    return "?";
}
int main(int c, char** v)
{
    return H::run(c, v, 60000, [] {
        static sdbusplus::bus_t bus;
        DbusHelper h(bus);
        const std::string PIF = "org.freedesktop.DBus.Properties", VALUE = "xyz.openbmc_project.Sensor.Value", CRIT = "xyz.openbmc_project.Sensor.Threshold.Critical",
                          AV = "xyz.openbmc_project.State.Decorator.Availability", MAP = "xyz.openbmc_project.ObjectMapper";
        std::string svc = "svc." + H::word(), path = "/xyz/openbmc_project/sensors/temperature/" + H::word();
        int fault = H::chance(60) ? 0 : 1 + (int)H::u(3); // 1: call fails, 2: reply unreadable, 3: reply of another type
        auto answer = [](int f, std::any payload) {
            if (f == 1) throw sdbusplus::exception::SdBusError(5, "stub");
            sdbusplus::message_t r;
            if (f == 2) r.d->readFails = true;
            r.d->payload.push_back(f == 3 ? std::any(std::pair<int, int>(1, 2)) : payload);
            return r;
        };
        std::string problem;
        sdbusplus::stub::calls().clear();
        int kind = (int)H::u(3);
        if (kind == 0) {
            PM m;
            for (std::string k : {"Unit", "Scale", "MaxValue", "MinValue", "Value"}) {
                if (H::chance(25) && k != "Value") continue;
                if (k == "Unit") m[k] = H::chance(90) ? V(H::str()) : anyV();
                else if (k == "Scale") m[k] = H::chance(90) ? V((int64_t)H::u(13) - 6) : anyV();
                else m[k] = anyV();
            }
            if (H::chance(20)) m[H::word()] = anyV();
            int availKind = H::chance(60) ? 0 : 1 + (int)H::u(3);
            bool av = H::chance(50);
            H::ctx = "getProperties fault " + std::to_string(fault) + " " + show(m) + " availability " + (availKind ? "fault " + std::to_string(availKind) : H::show(av));
            sdbusplus::stub::handler() = [&](sdbusplus::message_t& q) {
                if (q.d->dest != svc || q.d->path != path || q.d->intf != PIF) problem = "question to " + q.d->dest + " " + q.d->path;
                if (q.d->member == "GetAll" && arg(*q.d, 0) == VALUE) return answer(fault, m);
                if (q.d->member == "Get" && arg(*q.d, 0) == AV && arg(*q.d, 1) == "Available") return answer(availKind, std::variant<bool>(av));
                problem = "unknown question " + q.d->member + " " + arg(*q.d, 0);
                return answer(1, 0);
            };
            SensorProperties p;
            p.unit = "before";
            p.min = p.max = 77;
            p.scale = 3;
            bool threw = false;
            try { h.getProperties(svc, path, &p); } catch (const std::exception&) { threw = true; }
            H::require(problem.empty(), problem);
            SensorProperties w;
            w.unit = "before";
            bool bad = fault != 0;
            if (!bad) {
                if (m.count("Unit")) { if (m["Unit"].index() == 2) w.unit = std::get<2>(m["Unit"]); else bad = true; }
                if (m.count("Scale")) { if (m["Scale"].index() == 0) w.scale = std::get<0>(m["Scale"]); else bad = true; }
                if (m.count("MaxValue") && !number(m["MaxValue"], w.max)) bad = true;
                if (m.count("MinValue") && !number(m["MinValue"], w.min)) bad = true;
                if (m.count("Value") && !number(m["Value"], w.value)) bad = true;
            }
            H::check("an error is raised", threw, bad);
            if (bad) return true;
            H::check("unit", p.unit, w.unit);
            H::check("scale", p.scale, w.scale);
            H::check("max", p.max, w.max);
            H::check("min", p.min, w.min);
            H::check("value", p.value, w.value);
            H::check("available", p.available, availKind ? true : av);
            return true;
        }
        if (kind == 1) {
            PM m;
            if (H::chance(70)) m["CriticalAlarmLow"] = H::chance(40);
            if (H::chance(70)) m["CriticalAlarmHigh"] = H::chance(40);
            for (std::string k : {"CriticalLow", "CriticalHigh"}) if (H::chance(50)) m[k] = H::dbl();
            if (H::chance(30)) m["WarningAlarmHigh"] = H::chance(50);
            H::ctx = "thresholdsAsserted fault " + std::to_string(fault) + " " + show(m);
            sdbusplus::stub::handler() = [&](sdbusplus::message_t& q) {
                if (q.d->dest != svc || q.d->path != path || q.d->intf != PIF || q.d->member != "GetAll" || arg(*q.d, 0) != CRIT) problem = "unknown question " + q.d->member + " " + arg(*q.d, 0);
                return answer(fault, m);
            };
            bool got = h.thresholdsAsserted(svc, path);
            H::require(problem.empty(), problem);
            auto set = [&](const char* k) { return m.count(k) && std::get<bool>(m[k]); };
            H::check("asserted", got, !fault && (set("CriticalAlarmLow") || set("CriticalAlarmHigh")));
            return true;
        }
        std::map<std::string, std::vector<std::string>> owners;
        for (int i = 0, n = (int)H::u(4); i < n; i++) {
            auto& l = owners["xyz." + H::word()];
            for (int k = (int)H::u(3); k > 0; k--) l.push_back(H::word());
        }
        std::string intf = "xyz.intf." + H::word();
        H::ctx = "getService fault " + std::to_string(fault) + " owners " + std::to_string(owners.size());
        for (auto& [k, w] : owners) H::ctx += " " + k;
        sdbusplus::stub::handler() = [&](sdbusplus::message_t& q) {
            if (q.d->dest != MAP || q.d->path != "/xyz/openbmc_project/object_mapper" || q.d->intf != MAP || q.d->member != "GetObject" || arg(*q.d, 0) != path || arg(*q.d, 1) != "[" + intf + "]")
                problem = "unknown question " + q.d->member + " " + arg(*q.d, 0) + " " + arg(*q.d, 1);
            return answer(fault, owners);
        };
        bool threw = false;
        std::string got;
        try { got = h.getService(intf, path); } catch (const std::exception&) { threw = true; }
        H::require(problem.empty(), problem);
        H::check("an error is raised", threw, fault || owners.empty());
        if (!threw) H::check("owner", got, owners.begin()->first);
        return true;
    });
}
