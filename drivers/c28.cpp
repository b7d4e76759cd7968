// LINK: sysfs/sysfsread.cpp sysfs/util.cpp
#include "harness.hpp"
#include "sysfs/sysfsread.hpp"
using namespace pid_control;
int main(int c, char** v)
{
    return H::run(c, v, 30000, [] {
        // dirty the stack, so that an unset value shows
        volatile char junk[512];
        for (size_t i = 0; i < sizeof junk; i++) junk[i] = (char)(0xA5 ^ i);
        std::string dir = H::scratch + "/hwmon", sub = H::chance(50) ? "hwmon3" : "x_1";
        std::filesystem::remove_all(dir);
        bool wild = H::chance(40), exists = H::chance(85), hasDir = H::chance(90);
        std::string file = dir + "/" + sub + "/fan1_input", name = wild ? dir + "/**/fan1_input" : file;
        if (hasDir) std::filesystem::create_directories(dir + "/" + sub);
        else { exists = false; if (wild) { std::filesystem::create_directories(dir); } }
        std::unique_ptr<SysFsRead> r;
        auto put = [&](const std::optional<std::string>& t) {
            ::unlink(file.c_str());
            if (t && hasDir) std::ofstream(file) << *t;
        };
        auto gen = [&](long long& want) -> std::optional<std::string> {
            want = 0;
            switch (H::u(8)) {
                case 0: return {};
                case 1: return std::string();
                case 2: return H::pick(std::vector<std::string>{"abc", "\n", " ", "N/A\n", "-", "+", "nan", ".5"});
                case 3: want = 42; return std::string("42 43\n");
                case 4: want = 7; return std::string("7.9\n");
                case 5: want = -12000; return std::string(" -12000\n");
                case 6: { // what a decimal number may look like, and what may follow it
                    std::string lead = H::pick(std::vector<std::string>{"", "", " ", "\n", "\t ", "\n\n  "}), zeros(H::u(3), '0');
                    std::string tail = H::pick(std::vector<std::string>{"", "\n", " 9\n", "\n77\n", "x1f\n", "e3\n", ".25\n", ",000", "h", "%"});
                    long long n = H::chance(50) ? (long long)H::u(200) : (long long)H::u(100000000);
                    bool neg = H::chance(20), plus = !neg && H::chance(15);
                    want = neg ? -n : n;
                    return lead + (neg ? "-" : plus ? "+" : "") + zeros + std::to_string(n) + tail;
                }
                default: want = H::i64(); return std::to_string(want) + (H::chance(80) ? "\n" : "");
            }
        };
        long long want = 0;
        auto t = exists ? gen(want) : std::nullopt;
        if (!exists || !hasDir) want = 0;
        put(t);
        H::ctx = name + ":";
        r = std::make_unique<SysFsRead>(name);
        for (int i = 0; i < 3; i++) {
            H::ctx += " [" + (t && hasDir ? H::show(*t) : std::string("no file")) + "]";
            auto t0 = std::chrono::high_resolution_clock::now();
            ReadReturn got = r->read();
            auto t1 = std::chrono::high_resolution_clock::now();
            H::check("value", got.value, (double)want);
            H::check("unscaled", got.unscaled, (double)want);
            H::check("time stamp is fresh", got.updated >= t0 && got.updated <= t1, true);
            t = gen(want);
            if (!hasDir) want = 0;
            put(t);
        }
        std::filesystem::remove_all(dir);
        return true;
    });
}
