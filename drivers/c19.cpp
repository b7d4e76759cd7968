// LINK: ipmi/manualcmds.cpp ipmi/dbus_mode.cpp ipmi/main_ipmi.cpp
#include "harness.hpp"
#include <sdbusplus/bus.hpp>
#include "ipmi/dbus_mode.hpp"
#include "ipmi/manualcmds.hpp"
#include <ipmid/oemrouter.hpp>
using namespace pid_control::ipmi;
namespace
{
struct Ctl : ZoneControlInterface
{
    std::vector<std::string> log;
    uint8_t code = 0;
    bool flag = false;
    uint8_t getFanCtrlProperty(uint8_t z, bool* v, const std::string& p) override
    {
        log.push_back("get " + std::to_string(z) + " " + p);
        if (!code) *v = flag;
        return code;
    }
    uint8_t setFanCtrlProperty(uint8_t z, bool v, const std::string& p) override
    {
        log.push_back("set " + std::to_string(z) + " " + p + "=" + (v ? "true" : "false"));
        return code;
    }
};
using FV = std::variant<bool>;
// what is registered when the library is loaded
struct Registered : oem::Router
{
    struct R { uint32_t number; int cmd; oem::Handler h; };
    std::vector<R> all;
    void registerHandler(uint32_t n, uint8_t c, const oem::Handler& h) override { all.push_back({n, c, h}); }
};
Registered& registered()
{
    static Registered r;
    return r;
}
}
oem::Router* oem::mutableRouter() { return &registered(); }
int main(int c, char** v)
{
    return H::run(c, v, 200000, [] {
        if (H::chance(50)) {
            auto ctl = std::make_unique<Ctl>();
            Ctl* k = ctl.get();
            k->code = H::chance(50) ? 0 : (uint8_t)(1 + H::u(255));
            k->flag = H::chance(50);
            ZoneControlIpmiHandler h(std::move(ctl));
            uint8_t req[8], rep[8], rep0[8];
            for (auto& b : req) b = (uint8_t)H::u(256);
            for (auto& b : rep) b = (uint8_t)H::u(256);
            if (H::chance(85)) req[0] = (uint8_t)H::u(4);
            if (H::chance(30)) req[2] = (uint8_t)H::u(3);
            memcpy(rep0, rep, 8);
            size_t len = H::chance(80) ? H::u(6) : H::u(9), len0 = len;
            std::string d = "request";
            for (size_t i = 0; i < len; i++) d += " " + std::to_string(req[i]);
            H::ctx = d + ", control code " + std::to_string(k->code) + " flag " + H::show(k->flag) + ":";
            // poison what lies beyond the request
            uint8_t rc = manualModeControl(&h, (uint8_t)H::u(256), req, rep, &len);
            std::vector<std::string> calls;
            uint8_t want = 0xC1;
            bool reply = false;
            std::string z = std::to_string(req[1]);
            if (len0 >= 2 && (req[0] == 0 || req[0] == 2)) {
                calls.push_back("get " + z + (req[0] ? " FailSafe" : " Manual"));
                want = k->code;
                reply = !k->code;
            }
            else if (len0 >= 3 && req[0] == 1) {
                calls.push_back("set " + z + " Manual=" + (req[2] ? "true" : "false"));
                want = k->code;
            }
            H::check("completion code", (int)rc, (int)want);
            H::check("zone calls", k->log, calls);
            if (reply) {
                H::check("reply length", len, (size_t)1);
                H::check("reply flag", (int)rep[0], (int)k->flag);
                H::require(!memcmp(rep + 1, rep0 + 1, 7), "only one reply byte is written");
            }
            else {
                H::check("length", len, len0);
                H::require(!memcmp(rep, rep0, 8), "no reply data is written");
            }
            return true;
        }
        DbusZoneControl z;
        uint8_t zone = (uint8_t)H::u(256);
        std::string prop = H::pick(std::vector<std::string>{"Manual", "FailSafe"});
        int kind = (int)H::u(6);
        std::map<std::string, FV> props;
        if (H::chance(90)) props["Manual"] = H::chance(50);
        if (H::chance(90)) props["FailSafe"] = H::chance(50);
        std::vector<std::string> calls;
        sdbusplus::stub::handler() = [&](sdbusplus::message_t& m) -> sdbusplus::message_t {
            std::string s = m.d->dest + " " + m.d->path + " " + m.d->intf + "." + m.d->member;
            for (auto& x : m.d->args)
                if (auto* p = std::any_cast<std::string>(&x)) s += " " + *p;
                else if (auto* p = std::any_cast<FV>(&x)) s += std::get<bool>(*p) ? " true" : " false";
                else s += " ?";
            calls.push_back(s);
            if (kind == 0) throw sdbusplus::exception::SdBusError(5, "stub");
            sdbusplus::message_t r;
            if (kind == 1) r.d->readFails = true;
            r.d->payload.push_back(props);
            return r;
        };
        std::string base = "xyz.openbmc_project.State.FanCtrl /xyz/openbmc_project/settings/fanctrl/zone" + std::to_string(zone) + " org.freedesktop.DBus.Properties.";
        H::ctx = "zone " + std::to_string(zone) + " " + prop + " kind " + std::to_string(kind) + ":";
        if (H::chance(30)) {
            // a request of the registered command reaches the zone on the bus
            auto& all = registered().all;
            H::check("registered commands", all.size(), (size_t)1);
            H::check("registered number", (long)all[0].number, 49871L);
            H::check("registered command", all[0].cmd, 3);
            bool b = H::chance(50), set = H::chance(50);
            uint8_t req[3] = {(uint8_t)(set ? 1 : prop == "Manual" ? 0 : 2), zone, (uint8_t)b}, rep[3] = {9, 9, 9};
            size_t len = 3;
            H::ctx += " registered handler, command " + std::to_string(req[0]);
            uint8_t rc = all[0].h(3, req, rep, &len);
            H::check("calls", calls, std::vector<std::string>{base + (set ? std::string("Set xyz.openbmc_project.Control.Mode Manual") + (b ? " true" : " false") : std::string("GetAll xyz.openbmc_project.Control.Mode"))});
            H::check("code", (int)rc, kind == 0 || (kind == 1 && !set) ? 0xC1 : 0);
            if (kind > 1 && !set) H::check("reply", (int)rep[0], (int)(props.count(prop) ? std::get<bool>(props[prop]) : false));
        }
        else if (H::chance(50)) {
            bool out = H::chance(50);
            uint8_t rc = z.getFanCtrlProperty(zone, &out, prop);
            H::check("calls", calls, std::vector<std::string>{base + "GetAll xyz.openbmc_project.Control.Mode"});
            H::check("code", (int)rc, kind <= 1 ? 0xC1 : 0);
            if (kind > 1) H::check("flag", out, props.count(prop) ? std::get<bool>(props[prop]) : false);
        }
        else {
            bool b = H::chance(50);
            uint8_t rc = z.setFanCtrlProperty(zone, b, prop);
            H::check("calls", calls, std::vector<std::string>{base + "Set xyz.openbmc_project.Control.Mode " + prop + (b ? " true" : " false")});
            H::check("code", (int)rc, kind == 0 ? 0xC1 : 0);
        }
        sdbusplus::stub::handler() = {};
        return true;
    });
}
