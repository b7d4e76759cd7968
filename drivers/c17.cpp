// LINK: dbus/dbusutil.cpp
#include "harness.hpp"
#include "dbus/dbusutil.hpp"
using namespace pid_control;
int main(int c, char** v)
{
    return H::run(c, v, 200000, [] {
        std::map<std::string, int64_t> zones, ref;
        int pre = (int)H::u(4);
        for (int i = 0; i < pre; i++) { // unique numbers, gaps allowed
            std::string n = H::chance(10) ? "" : "p" + std::to_string(H::u(6));
            int64_t k = (int64_t)H::u(8);
            bool used = ref.count(n);
            for (auto& z : ref) used |= z.second == k;
            if (!used) ref[n] = k;
        }
        zones = ref;
        int ops = 1 + (int)H::u(8);
        for (int i = 0; i < ops; i++) {
            std::string n = H::chance(5) ? "" : (H::chance(70) ? "p" : "Zone ") + std::to_string(H::u(8));
            bool set = H::chance(60);
            int64_t want = H::chance(80) ? (int64_t)H::u(8) : H::chance(50) ? -(int64_t)H::u(4) : H::i64() % 1000;
            H::ctx = "zones=" + H::show(ref) + (set ? " setZoneIndex(" + n + ", " + H::show(want) + ")" : " getZoneIndex(" + n + ")");
            int64_t exp;
            auto it = ref.find(n);
            if (it != ref.end()) exp = it->second;
            else {
                exp = set ? want : 0;
                auto used = [&](int64_t k) { for (auto& z : ref) if (z.second == k) return true; return false; };
                while (used(exp)) exp++;
                ref[n] = exp;
            }
            int64_t got = set ? setZoneIndex(n, zones, want) : getZoneIndex(n, zones);
            H::check("zone number", got, exp);
            H::require(zones == ref, "allocations: expected " + H::show(ref) + ", got " + H::show(zones));
        }
        return true;
    });
}
