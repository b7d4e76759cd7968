// LINK: sensors/buildjson.cpp buildjson/buildjson.cpp
#include "harness.hpp"
#include "sensors/buildjson.hpp"
#include "buildjson/buildjson.hpp"
#include "errors/exception.hpp"
#include <nlohmann/json.hpp>
using json = nlohmann::json;
using namespace pid_control;

static std::string text(const json& j) { return j.dump(-1, ' ', false, json::error_handler_t::replace); }
static json wrong(int what) // a value that is not what: 0 text, 1 number, 2 flag
{
    switch (what) {
        case 0: return H::chance(50) ? json(7) : json(json::array({"x"}));
        case 1: return H::chance(50) ? json("12") : json(json::object());
        default: return H::chance(50) ? json("true") : json(1.5);
    }
}
struct Want { bool bad = false; conf::SensorConfig c; };

static int64_t num(json& j, const char* key)
{
    int64_t v = H::chance(20) ? (int64_t)1 << (30 + H::u(20)) : (int64_t)H::u(20001) - 1000;
    if (H::chance(25)) j[key] = (double)v + (H::chance(50) ? 0.0 : v >= 0 ? 0.5 : -0.5);
    else if (v >= 0 && H::chance(50)) j[key] = (uint64_t)v;
    else j[key] = v;
    return v;
}
static Want entry(json& j, bool clean)
{
    Want w;
    auto spoil = [&](const char* key, int what) { if (!clean && H::chance(3)) { j[key] = wrong(what); w.bad = true; } };
    static const std::vector<std::string> types{"fan", "temp", "margin", "power", "powersum", "fans", "Fan", ""};
    w.c.type = H::pick(types);
    j["type"] = w.c.type;
    w.c.readPath = "/" + H::str();
    j["readPath"] = w.c.readPath;
    bool fan = w.c.type == "fan";
    if (H::chance(60)) { w.c.writePath = H::chance(20) ? "" : "/" + H::str(); j["writePath"] = w.c.writePath; spoil("writePath", 0); }
    w.c.ignoreDbusMinMax = false, w.c.unavailableAsFailed = true, w.c.ignoreFailIfHostOff = false, w.c.min = 0, w.c.max = 0;
    auto flag = [&](const char* key, bool& f) { if (H::chance(50)) { f = H::chance(50); j[key] = f; spoil(key, 2); } };
    flag("ignoreDbusMinMax", w.c.ignoreDbusMinMax);
    flag("unavailableAsFailed", w.c.unavailableAsFailed);
    flag("ignoreFailIfHostOff", w.c.ignoreFailIfHostOff);
    auto lim = [&](const char* key, int64_t& f) { if (H::chance(60)) { int64_t v = num(j, key); if (fan) { f = v; spoil(key, 1); } } };
    lim("min", w.c.min);
    lim("max", w.c.max);
    w.c.timeout = fan ? 0 : 2;
    if (H::chance(50)) { w.c.timeout = num(j, "timeout"); spoil("timeout", 1); }
    spoil("type", 0);
    spoil("readPath", 0);
    if (!clean && H::chance(3)) { j.erase(H::chance(50) ? "type" : "readPath"); w.bad = true; }
    return w;
}
static void same(const conf::SensorConfig& g, const conf::SensorConfig& w)
{
    H::check("type", g.type, w.type);
    H::check("readPath", g.readPath, w.readPath);
    H::check("writePath", g.writePath, w.writePath);
    H::check("min", g.min, w.min);
    H::check("max", g.max, w.max);
    H::check("timeout", g.timeout, w.timeout);
    H::check("ignoreDbusMinMax", g.ignoreDbusMinMax, w.ignoreDbusMinMax);
    H::check("unavailableAsFailed", g.unavailableAsFailed, w.unavailableAsFailed);
    H::check("ignoreFailIfHostOff", g.ignoreFailIfHostOff, w.ignoreFailIfHostOff);
}
static bool sensors()
{
    json list = json::array();
    std::map<std::string, conf::SensorConfig> want;
    bool bad = false, clean = H::chance(60);
    int n = (int)H::u(7);
    for (int i = 0; i < n; i++) {
        json j = json::object();
        Want w = entry(j, clean);
        std::string name = H::chance(40) ? std::string(1, (char)('a' + H::u(3))) : H::word();
        j["name"] = name;
        if (!clean && H::chance(2)) { j["name"] = 3; w.bad = true; }
        bad |= w.bad;
        want[name] = w.c;
        list.push_back(j);
    }
    json doc = {{"sensors", list}, {"zones", json::array()}};
    H::ctx = text(doc);
    std::map<std::string, conf::SensorConfig> got;
    bool threw = false;
    try { got = buildSensorsFromJson(doc); }
    catch (const std::exception&) { threw = true; }
    H::check("configuration refused", threw, bad);
    if (threw) return true;
    H::check("sensors", got.size(), want.size());
    for (auto& [k, w] : want) {
        H::check("sensor " + k + " present", got.count(k), (size_t)1);
        same(got.at(k), w);
    }
    return true;
}
static bool document()
{
    json doc = json::object();
    bool ok = true;
    auto some = [](int lo) { json a = json::array(); for (int i = (int)H::u(4) + lo; i > 0; i--) a.push_back(json{{"name", H::word()}}); return a; };
    if (H::chance(90)) { json s = H::chance(85) ? some(1) : H::chance(60) ? some(0) : H::chance(50) ? json(nullptr) : json::object(); ok &= !s.empty(); doc["sensors"] = s; }
    else ok = false;
    if (H::chance(92)) {
        json zs = json::array();
        for (int i = (int)H::u(5); i > 0; i--) {
            json z = {{"id", i}};
            if (H::chance(94)) { json p = H::chance(92) ? some(1) : H::chance(70) ? some(0) : H::chance(50) ? json(nullptr) : json::object(); ok &= !p.empty(); z["pids"] = p; }
            else ok = false;
            if (H::chance(20)) z["extra"] = json::array();
            zs.push_back(z);
        }
        doc["zones"] = zs;
    }
    else ok = false;
    if (H::chance(20)) doc[H::word()] = json::array();
    H::ctx = "document " + text(doc);
    bool viaFile = H::chance(15);
    std::string why = "accepted";
    bool cut = false;
    try {
        if (viaFile) {
            std::string f = H::scratch + "/c16.json", t = doc.dump();
            cut = H::chance(20);
            if (cut) t.resize(H::u(t.size()));
            std::ofstream(f) << t;
            bool missing = H::chance(10);
            if (missing || cut) ok = false;
            json got = parseValidateJson(missing ? H::scratch + "/none.json" : f);
            H::check("parsed document", text(got), text(doc));
        }
        else validateJson(doc);
    }
    catch (const ConfigurationException&) { why = "configuration error"; }
    catch (const std::exception& e) { why = std::string("other error ") + e.what(); }
    H::ctx += viaFile ? cut ? " (in a cut off file)" : " (in a file)" : "";
    H::check("document", why, std::string(ok ? "accepted" : "configuration error"));
    return true;
}
int main(int c, char** v)
{
    return H::run(c, v, 20000, [] { return H::chance(60) ? sensors() : document(); });
}
