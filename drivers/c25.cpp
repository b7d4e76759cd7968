// LINK: dbus/dbuspassiveredundancy.cpp
#include "harness.hpp"
#include <sdbusplus/bus.hpp>
#include "dbus/dbuspassiveredundancy.hpp"
using namespace pid_control;
namespace
{
using TV = std::variant<std::string, std::vector<std::string>>;
using GM = std::unordered_map<std::string, TV>;
using Set = std::set<std::string>;
const std::string RED = "xyz.openbmc_project.Control.FanRedundancy", PIF = "org.freedesktop.DBus.Properties", MAP = "xyz.openbmc_project.ObjectMapper";
std::string arg(const sdbusplus::stub::Msg& m, size_t i)
{
    if (i >= m.args.size()) return "?";
    if (auto p = std::any_cast<std::string>(&m.args[i])) return *p;
    return "?";
}
sdbusplus::message_t answer(int f, std::any payload)
{
    if (f == 1) throw sdbusplus::exception::SdBusError(5, "stub");
    sdbusplus::message_t r;
    if (f == 2) r.d->readFails = true;
    r.d->payload.push_back(f == 3 ? std::any(std::pair<int, int>(1, 2)) : payload);
    return r;
}
int fault(int pct) { return H::chance(pct) ? 1 + (int)H::u(3) : 0; }
std::string status()
{
    return H::pick(std::vector<std::string>{"xyz.openbmc_project.Control.FanRedundancy.State.Full", "xyz.openbmc_project.Control.FanRedundancy.State.Failed",
                                            "xyz.openbmc_project.Control.FanRedundancy.State.Degraded", "Failed", "", "failed", "State.Failed.Soon", "Faile", "d.Failed"});
}
bool isFailed(const std::string& s) { return s.find("Failed") != std::string::npos; }
std::vector<std::string> members()
{
    static const std::vector<std::string> all{"/fan0", "/fan1", "/fan2", "/fan3", "/fan10", ""};
    std::vector<std::string> r;
    for (int i = 0, n = (int)H::u(5); i < n; i++) r.push_back(H::pick(all));
    return r;
}
}
int main(int c, char** v)
{
    return H::run(c, v, 40000, [] {
        static sdbusplus::bus_t bus;
        sdbusplus::stub::matches().clear();
        std::map<std::string, std::map<std::string, GM>> tree; // path -> owner -> properties
        std::map<std::pair<std::string, std::string>, int> bad;
        for (int i = 0, n = (int)H::u(4); i < n; i++) {
            std::string p = "/xyz/red" + std::to_string(i);
            for (int j = 0, m = H::chance(80) ? 1 : (int)H::u(3); j < m; j++) {
                std::string o = "svc" + std::to_string(H::u(3));
                GM g;
                if (H::chance(92)) g["Status"] = status();
                g["Collection"] = members();
                if (H::chance(40)) g["AllowedFailures"] = std::string("1");
                tree[p][o] = g;
                bad[{p, o}] = fault(6);
            }
        }
        int mapperFault = fault(8);
        std::string problem;
        Set want;
        bool stopped = mapperFault != 0;
        std::unordered_map<std::string, std::unordered_map<std::string, std::vector<std::string>>> resp;
        for (auto& [p, os] : tree) for (auto& [o, g] : os) resp[p][o] = {RED, "some.other.Interface"};
        H::ctx = "start:";
        for (auto& [p, os] : tree) for (auto& [o, g] : os) {
            H::ctx += " " + p + "@" + o + "=" + (g.count("Status") ? std::get<0>(g["Status"]) : "(none)") + H::show(std::get<1>(g["Collection"])) + (bad[{p, o}] ? " unreadable" : "");
        }
        if (mapperFault) H::ctx += " mapper fault";
        sdbusplus::stub::handler() = [&](sdbusplus::message_t& q) {
            if (q.d->dest == MAP && q.d->path == "/xyz/openbmc_project/object_mapper" && q.d->intf == MAP && q.d->member == "GetSubTree" && arg(*q.d, 0) == "/") return answer(mapperFault, resp);
            if (q.d->intf == PIF && q.d->member == "GetAll" && arg(*q.d, 0) == RED && tree.count(q.d->path) && tree[q.d->path].count(q.d->dest)) {
                int f = bad[{q.d->path, q.d->dest}];
                auto& g = tree[q.d->path][q.d->dest];
                if (f) stopped = true;
                else if (!stopped && g.count("Status") && isFailed(std::get<0>(g["Status"]))) for (auto& m : std::get<1>(g["Collection"])) want.insert(m);
                return answer(f, g);
            }
            problem = "unknown question " + q.d->dest + " " + q.d->path + " " + q.d->member;
            return answer(1, 0);
        };
        size_t asked = sdbusplus::stub::calls().size();
        DbusPassiveRedundancy r(bus);
        H::require(problem.empty(), problem);
        if (!mapperFault) {
            bool anyBad = false;
            size_t objs = 0;
            for (auto& [p, os] : tree) for (auto& [o, g] : os) { objs++; anyBad |= bad[{p, o}] != 0; }
            if (!anyBad) H::check("objects asked", sdbusplus::stub::calls().size() - asked, objs + 1);
        }
        H::check("failed members at start", r.getFailed(), want);
        H::require(sdbusplus::stub::matches().size() == 1, "one match for redundancy signals");
        auto m = sdbusplus::stub::matches().back();
        H::check("signals listened to", m->rule, "type='signal',member='PropertiesChanged',arg0namespace='" + RED + "'");
        for (int i = 0, n = (int)H::u(8); i < n; i++) {
            std::string p = "/xyz/red" + std::to_string(H::u(3)), o = "svc" + std::to_string(H::u(3));
            GM g;
            if (H::chance(85)) g["Status"] = status();
            if (H::chance(30)) g["AllowedFailures"] = std::string("2");
            auto coll = members();
            int rf = fault(10), cf = fault(15);
            sdbusplus::message_t s;
            s.d->path = p;
            s.d->sender = o;
            s.d->payload.push_back(RED);
            s.d->payload.push_back(rf == 3 ? std::any(std::pair<int, int>(1, 2)) : std::any(g));
            if (rf == 1 || rf == 2) s.d->readFails = true;
            H::ctx += " signal(" + std::string(rf ? "unreadable" : g.count("Status") ? std::get<0>(g["Status"]) : "no status") + ", " + (cf ? "collection unreadable" : H::show(coll)) + ")";
            sdbusplus::stub::handler() = [&](sdbusplus::message_t& q) {
                if (q.d->dest != o || q.d->path != p || q.d->intf != PIF || q.d->member != "Get" || arg(*q.d, 0) != RED || arg(*q.d, 1) != "Collection") problem = "unknown question " + q.d->member;
                return answer(cf, std::variant<std::vector<std::string>>(coll));
            };
            m->cb(s);
            H::require(problem.empty(), problem);
            if (!rf && g.count("Status") && !cf) for (auto& x : coll) { if (isFailed(std::get<0>(g["Status"]))) want.insert(x); else want.erase(x); }
            H::check("failed members", r.getFailed(), want);
        }
        return true;
    });
}
