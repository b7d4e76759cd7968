// Executable contracts: random inputs, special values and every literal of the
// functions under contract, run against the compiled sources of /repo.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <cmath>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <filesystem>
#include <format>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <random>
#include <regex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>

namespace H
{
inline std::mt19937_64 rng;
inline std::vector<double> litD;
inline std::vector<long long> litI;
inline std::vector<std::string> litS;
inline bool thorough = false;
inline std::string scratch;
inline std::string ctx; // description of the current case
inline long long iter = 0;
inline FILE* out = stdout;

inline uint64_t u(uint64_t n) { return n ? rng() % n : 0; }
inline bool chance(int pct) { return (int)u(100) < pct; }
template <class T> const T& pick(const std::vector<T>& v) { return v[u(v.size())]; }

inline double special()
{
    static const double s[] = {0.0, 1.0, -1.0, 0.5, 2.0, 10.0, 100.0, 255.0, 1e-9, -1e-9, 1e300, -1e300, 1e9,
                               std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(),
                               -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::max(),
                               std::numeric_limits<double>::lowest(), std::numeric_limits<double>::min(), 3.0, 50.0, 30.0, 75.0};
    return s[u(sizeof s / sizeof *s)];
}
inline double smallNum() { return (double)((int)u(41) - 20) / (chance(50) ? 1.0 : 4.0); }
inline double uniform(double a, double b) { return a + (b - a) * ((double)(rng() >> 11) / 9007199254740992.0); }
inline double nearLit()
{
    if (litD.empty() && litI.empty()) return smallNum();
    double v = (litI.empty() || (!litD.empty() && chance(50))) ? pick(litD) : (double)pick(litI);
    switch (u(6)) {
        case 0: return std::nextafter(v, 1e308);
        case 1: return std::nextafter(v, -1e308);
        case 2: return v + 1;
        case 3: return v - 1;
        default: return v;
    }
}
// any double
inline double dbl()
{
    switch (u(8)) {
        case 0: return special();
        case 1: return nearLit();
        case 2: return uniform(-1000, 1000);
        case 3: return uniform(0, 100);
        case 4: return uniform(0, 20000);
        default: return smallNum();
    }
}
inline double fin()
{
    double d;
    do d = dbl(); while (!std::isfinite(d));
    return d;
}
inline double nan_() { return std::numeric_limits<double>::quiet_NaN(); }
inline long long i64()
{
    switch (u(5)) {
        case 0: return litI.empty() ? 0 : pick(litI) + (long long)u(3) - 1;
        case 1: return (long long)rng();
        case 2: return (long long)u(300);
        default: return (long long)u(41) - 20;
    }
}
inline std::string word(int maxlen = 6)
{
    static const char cs[] = "abcfxz019_A-";
    std::string s;
    int n = 1 + (int)u(maxlen);
    for (int i = 0; i < n; i++) s += cs[u(sizeof cs - 1)];
    return s;
}
inline std::string str()
{
    if (!litS.empty() && chance(30)) {
        std::string s = pick(litS);
        if (chance(20)) s += word(3);
        if (chance(10)) s = word(3) + s;
        return s;
    }
    return word();
}
inline bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
// equal up to rounding (a re-associated expression is the same formula)
inline bool near(double a, double b)
{
    return same(a, b) || (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)));
}
inline std::string show(double d) { if (std::isnan(d)) return "nan"; if (d == 0) d = 0; char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
template <class T> std::string show(const std::vector<T>& v);
inline std::string show(const std::string& s) { return '"' + s + '"'; }
inline std::string show(const char* s) { return s; }
inline std::string show(bool b) { return b ? "true" : "false"; }
template <class T> std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>, std::string> show(T v) { return std::to_string(v); }
template <class T> std::enable_if_t<std::is_enum_v<T>, std::string> show(T v) { return std::to_string((long long)v); }
template <class A, class B> std::string show(const std::pair<A, B>& p) { return "(" + show(p.first) + "," + show(p.second) + ")"; }
template <class T> std::string show(const std::vector<T>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + show(v[i]);
    return s + "]";
}
template <class K, class W> std::string show(const std::map<K, W>& m)
{
    std::string s = "{";
    for (auto& [k, v] : m) s += show(k) + ":" + show(v) + " ";
    return s + "}";
}
template <class K> std::string show(const std::set<K>& m)
{
    std::string s = "{";
    for (auto& k : m) s += show(k) + " ";
    return s + "}";
}

[[noreturn]] inline void fail(const std::string& what)
{
    fflush(stdout);
    fprintf(out, "FAIL %s\n  case %lld: %s\n", what.c_str(), iter, ctx.c_str());
    fflush(out);
    _exit(1);
}
template <class T> bool eq(const T& a, const T& b) { return a == b; }
inline bool eq(double a, double b) { return near(a, b); }
template <class T, class W> void check(const char* what, const T& got, const W& want)
{
    bool ok;
    if constexpr (std::is_floating_point_v<T>) ok = near(got, (double)want);
    else ok = (got == want);
    if (!ok) fail(std::string(what) + ": expected " + show(want) + ", got " + show(got));
}
template <class T, class W> void check(const std::string& what, const T& got, const W& want) { check(what.c_str(), got, want); }
inline void require(bool c, const std::string& what) { if (!c) fail(what); }

inline void onAlarm(int)
{
    fprintf(out, "FAIL the code does not terminate on this input\n  case %lld: %s\n", iter, ctx.c_str());
    fflush(out);
    _exit(1);
}
inline void onCrash(int s)
{
    fprintf(out, "FAIL the code crashes (signal %d)\n  case %lld: %s\n", s, iter, ctx.c_str());
    fflush(out);
    _exit(1);
}
inline void readLits(const char* f)
{
    std::ifstream in(f);
    std::string l;
    while (std::getline(in, l)) {
        if (l.size() < 2) continue;
        std::string v = l.size() > 2 ? l.substr(2) : "";
        try {
            if (l[0] == 'i') { litI.push_back((long long)std::stoull(v)); }
            else if (l[0] == 'd') litD.push_back(v == "inf" ? INFINITY : v == "nan" ? NAN : std::strtod(v.c_str(), nullptr));
            else litS.push_back(v);
        } catch (...) {}
    }
}

// body: one case; returns true when the case was non-trivial
inline int run(int argc, char** argv, long long quickN, const std::function<bool()>& body)
{
    uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
    double budget = argc > 2 ? atof(argv[2]) : 10;
    if (argc > 3) readLits(argv[3]);
    thorough = argc > 4 && std::string(argv[4]) == "thorough";
    const char* sc = getenv("VERIF_SCRATCH");
    scratch = sc ? sc : ".";
    // the code under test logs to stdout/stderr: keep the report apart
    int fd = dup(1);
    out = fdopen(fd, "w");
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    dup2(nul, 2);
    signal(SIGALRM, onAlarm);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, onCrash);
    auto t0 = std::chrono::steady_clock::now();
    long long N = quickN * (thorough ? 20 : 1), nontriv = 0;
    std::string sample;
    for (iter = 0; iter < N; iter++) {
        rng.seed(seed * 1000003ULL + (uint64_t)iter * 7919ULL);
        ctx.clear();
        if (iter % 64 == 0 || N < 5000) alarm(20);
        bool nt = false;
        try { nt = body(); }
        catch (const std::exception& e) { fail(std::string("unexpected exception: ") + e.what()); }
        catch (...) { fail("unexpected exception"); }
        nontriv += nt;
        if (nt && sample.empty()) sample = ctx;
        if ((iter & 15) == 0) {
            double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (t > budget) { iter++; break; }
        }
    }
    alarm(0);
    std::string s2;
    for (char c : sample.substr(0, 600)) { if (c == '"' || c == '\\') s2 += '\\'; if ((unsigned char)c >= 32 && (unsigned char)c < 127) s2 += c; }
    fprintf(out, "STATS {\"evaluations\": %lld, \"distinct_nontrivial\": %lld, \"samples\": [\"%s\"]}\n", iter, nontriv, s2.c_str());
    fflush(out);
    _exit(0);
}
} // namespace H
#define private public
#define protected public
