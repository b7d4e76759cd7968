// LINK: dbus/dbuswrite.cpp sysfs/sysfswrite.cpp sysfs/util.cpp
#include "harness.hpp"
#include <sdbusplus/bus.hpp>
#include "dbus/dbuswrite.hpp"
#include "sysfs/sysfswrite.hpp"
using namespace pid_control;
static std::string msgText(const sdbusplus::stub::Msg& m)
{
    std::string s = m.dest + " " + m.path + " " + m.intf + "." + m.member + "(";
    for (auto& a : m.args) {
        if (auto p = std::any_cast<std::string>(&a)) s += *p + ",";
        else if (auto p = std::any_cast<std::variant<uint64_t>>(&a)) s += "u64:" + std::to_string(std::get<0>(*p));
        else if (auto p = std::any_cast<std::variant<int64_t>>(&a)) s += "i64:" + std::to_string(std::get<0>(*p));
        else s += "?";
    }
    return s + ")";
}
static std::string slurp(const std::string& p)
{
    std::ifstream f(p);
    std::stringstream ss;
    ss << f.rdbuf();
    return f ? ss.str() : "(no file)";
}
struct Helper : DbusHelperInterface
{
    std::string conn, want;
    bool fail;
    Helper(std::string c, std::string w, bool f) : conn(std::move(c)), want(std::move(w)), fail(f) {}
    std::string getService(const std::string& i, const std::string& p) override
    {
        if (fail) throw sdbusplus::exception::SdBusError(5, "stub");
        return i == "xyz.openbmc_project.Control.FanPwm" && p == want ? conn : "wrong.query";
    }
    void getProperties(const std::string&, const std::string&, SensorProperties*) override {}
    bool thresholdsAsserted(const std::string&, const std::string&) override { return false; }
};
int main(int c, char** v)
{
    return H::run(c, v, 60000, [] {
        int kind = (int)H::u(4);
        bool percent = kind % 2 == 0, dbus = kind < 2;
        int64_t mn = 0, mx = 255;
        if (H::chance(60)) { mn = (int64_t)H::u(200); mx = H::chance(80) ? mn + 1 + (int64_t)H::u(20000) : (int64_t)H::u(300); }
        std::string path = dbus ? "/xyz/openbmc_project/control/fanpwm/" + H::word() : H::scratch + "/pwm" + std::to_string(H::u(3));
        std::string conn = "xyz." + H::word();
        std::unique_ptr<WriteInterface> w;
        bool made = dbus && H::chance(40), noOwner = made && H::chance(15);
        if (made) {
            auto h = std::make_unique<Helper>(conn, path, noOwner);
            w = kind == 0 ? DbusWritePercent::createDbusWrite(path, mn, mx, std::move(h)) : DbusWrite::createDbusWrite(path, mn, mx, std::move(h));
            H::ctx = "createDbusWrite " + path;
            H::check("writer made", w != nullptr, !noOwner);
            if (!w) return true;
        }
        else switch (kind) {
            case 0: w = std::make_unique<DbusWritePercent>(path, mn, mx, conn); break;
            case 1: w = std::make_unique<DbusWrite>(path, mn, mx, conn); break;
            case 2: w = std::make_unique<SysFsWritePercent>(path, mn, mx); break;
            default: w = std::make_unique<SysFsWrite>(path, mn, mx);
        }
        static const char* names[] = {"DbusWritePercent", "DbusWrite", "SysFsWritePercent", "SysFsWrite"};
        H::ctx = std::string(names[kind]) + " min=" + H::show(mn) + " max=" + H::show(mx) + ":";
        int64_t last = -1;
        int n = 1 + (int)H::u(6);
        double x = 0;
        if (!dbus) ::unlink(path.c_str());
        for (int i = 0; i < n; i++) {
            if (!H::chance(40)) {
                x = percent ? H::pick(std::vector<double>{0, 1, 0.5, 0.3, 0.999, 0.001, H::uniform(0, 1), H::uniform(0, 1)})
                            : H::pick(std::vector<double>{0, 1, 255, 99.9, 0.5, 128.5, H::uniform(0, 255), H::uniform(0, 20000)});
            }
            double ov = percent ? ((double)mx - (double)mn) * x + (double)mn : x;
            if (!dbus && H::chance(10)) { x = -x; ov = percent ? ((double)mx - (double)mn) * x + (double)mn : x; }
            if (!(ov >= 0) && dbus) continue; // no such unsigned value
            int64_t raw = (int64_t)std::trunc(ov);
            bool err = dbus && H::chance(15), plain = H::chance(20), force = !plain && H::chance(30), ask = !plain && H::chance(70);
            H::ctx += " write(" + H::show(x) + (plain ? "" : force ? ",force" : ",-") + (ask ? ",&written" : "") + ")" + (err ? " [bus error]" : "");
            sdbusplus::stub::calls().clear();
            sdbusplus::stub::handler() = [err](sdbusplus::message_t&) -> sdbusplus::message_t {
                if (err) throw sdbusplus::exception::SdBusError(5, "stub");
                return {};
            };
            int64_t out = -77;
            try {
                if (plain) w->write(x);
                else w->write(x, force, ask ? &out : nullptr);
            } catch (const std::exception& e) { H::check("exception escapes write", std::string(e.what()), std::string("none")); }
            if (dbus) {
                std::vector<std::string> got, want;
                for (auto& m : sdbusplus::stub::calls()) got.push_back(msgText(*m));
                if (force || raw != last)
                    want.push_back(conn + " " + path + " org.freedesktop.DBus.Properties.Set(xyz.openbmc_project.Control.FanPwm,Target,u64:" + std::to_string(raw) + ")");
                H::check("messages sent", got, want);
                if (ask) H::check("reported raw value", out, raw);
            } else {
                H::check("file content", slurp(path), std::to_string(raw));
                ::unlink(path.c_str());
            }
            last = raw;
        }
        sdbusplus::stub::handler() = {};
        return true;
    });
}
