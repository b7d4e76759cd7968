// LINK: pid/buildjson.cpp util.cpp
#include "harness.hpp"
#include "pid/buildjson.hpp"
#include "conf.hpp"
#include <nlohmann/json.hpp>
using json = nlohmann::json;
using namespace pid_control;

static std::string text(const json& j) { return j.dump(-1, ' ', false, json::error_handler_t::replace); }
static double num()
{
    double d = H::chance(50) ? (double)((int)H::u(200) - 100) : H::fin();
    return std::isfinite(d) ? d : 1;
}
static double put(json& j, const std::string& key)
{
    double d = num();
    if (d == std::floor(d) && std::fabs(d) < 1e9 && H::chance(60)) j[key] = (int64_t)d;
    else j[key] = d;
    return d;
}
static const std::vector<std::string> must{"samplePeriod", "proportionalCoeff", "integralCoeff", "feedFwdOffsetCoeff", "feedFwdGainCoeff",
    "integralLimit_min", "integralLimit_max", "outLim_min", "outLim_max", "slewNeg", "slewPos"};
struct Want { conf::ControllerInfo c; bool bad = false, stepwise = false; };

static Want controller(json& j, bool clean)
{
    Want w;
    auto spoil = [&](json& o, const std::string& k) {
        if (clean || !H::chance(2)) return;
        w.bad = true;
        if (H::chance(50)) o.erase(k);
        else o[k] = json::object({{"x", 1}});
    };
    auto wrongOpt = [&](json& o, const std::string& k) { if (!clean && H::chance(2)) { o[k] = "oops"; w.bad = true; } };
    static const std::vector<std::string> types{"fan", "temp", "margin", "power", "powersum", "stepwise", "stepwise", "stepwise2"};
    w.c.type = H::pick(types);
    w.stepwise = w.c.type == "stepwise";
    j["type"] = w.c.type;
    w.c.setpoint = put(j, "setpoint");
    json ins = json::array(), tm = json::array(), mi = json::array();
    bool useT = H::chance(40), useM = H::chance(40);
    int n = (int)H::u(4), nt = useT ? (int)H::u(n + 1) : 0;
    for (int i = 0; i < n; i++) {
        conf::SensorInput in;
        in.name = "s" + std::to_string(i) + H::word(2);
        ins.push_back(in.name);
        if (i < nt) { in.convertMarginZero = (double)(int)H::u(100); in.convertTempToMargin = true; tm.push_back(in.convertMarginZero); }
        if (useM && H::chance(40)) { in.missingIsAcceptable = true; mi.push_back(in.name); }
        w.c.inputs.push_back(in);
    }
    j["inputs"] = ins;
    if (useT) j["tempToMargin"] = tm;
    if (useM) j["missingIsAcceptable"] = mi;
    w.c.failSafePercent = 0;
    if (H::chance(50)) { int p = H::chance(90) ? (int)H::u(101) : (int)H::u(1000) - 400; w.c.failSafePercent = p; j["FailSafePercent"] = p; wrongOpt(j, "FailSafePercent"); }
    json p = json::object();
    auto& pi = w.c.pidInfo;
    auto& si = w.c.stepwiseInfo;
    auto opt = [&](const char* k, double& d) { d = 0; if (H::chance(50)) { d = put(p, k); wrongOpt(p, k); } };
    double pos, neg, der;
    opt("positiveHysteresis", pos);
    opt("negativeHysteresis", neg);
    opt("derivativeCoeff", der);
    bool chk = false;
    if (H::chance(50)) { chk = H::chance(50); p["checkHysteresisWithSetpoint"] = chk; wrongOpt(p, "checkHysteresisWithSetpoint"); }
    if (w.stepwise) {
        si.ts = put(p, "samplePeriod");
        si.isCeiling = H::chance(50);
        p["isCeiling"] = si.isCeiling;
        si.positiveHysteresis = pos, si.negativeHysteresis = neg;
        auto table = [&](const char* key, double* t) {
            for (size_t i = 0; i < ec::maxStepwisePoints; i++) t[i] = H::nan_();
            if (H::chance(15)) return;
            json o = json::object();
            size_t n = H::chance(30) ? ec::maxStepwisePoints : H::u(ec::maxStepwisePoints + 1);
            for (size_t i = 0; i < n; i++)
                if (!H::chance(8)) { t[i] = put(o, std::to_string(i)); if (!clean && H::chance(1)) { o[std::to_string(i)] = "bad"; w.bad = true; } }
            if (H::chance(10)) o[std::to_string(ec::maxStepwisePoints + H::u(3))] = 5;
            p[key] = o;
        };
        table("reading", si.reading);
        table("output", si.output);
        spoil(p, "samplePeriod");
        spoil(p, "isCeiling");
    }
    else {
        double* f[] = {&pi.ts, &pi.proportionalCoeff, &pi.integralCoeff, &pi.feedFwdOffset, &pi.feedFwdGain, &pi.integralLimit.min,
            &pi.integralLimit.max, &pi.outLim.min, &pi.outLim.max, &pi.slewNeg, &pi.slewPos};
        for (size_t i = 0; i < must.size(); i++) { *f[i] = put(p, must[i]); spoil(p, must[i]); }
        pi.positiveHysteresis = pos, pi.negativeHysteresis = neg, pi.derivativeCoeff = der, pi.checkHysterWithSetpt = chk;
        if (H::chance(10)) p["isCeiling"] = true;
    }
    j["pid"] = p;
    for (auto k : {"type", "inputs", "setpoint"}) spoil(j, k);
    if (!clean && H::chance(2)) { j.erase("pid"); w.bad = true; }
    return w;
}
static void same(const std::string& at, const conf::ControllerInfo& g, const Want& wt)
{
    auto& w = wt.c;
    H::check(at + "type", g.type, w.type);
    H::check(at + "setpoint", g.setpoint, w.setpoint);
    H::check(at + "failSafePercent", g.failSafePercent, w.failSafePercent);
    H::check(at + "inputs", g.inputs.size(), w.inputs.size());
    for (size_t i = 0; i < w.inputs.size(); i++) {
        auto a = at + "input " + std::to_string(i) + " ";
        H::check(a + "name", g.inputs[i].name, w.inputs[i].name);
        H::check(a + "margin zero", g.inputs[i].convertMarginZero, w.inputs[i].convertMarginZero);
        H::check(a + "converts", g.inputs[i].convertTempToMargin, w.inputs[i].convertTempToMargin);
        H::check(a + "missing acceptable", g.inputs[i].missingIsAcceptable, w.inputs[i].missingIsAcceptable);
    }
    if (wt.stepwise) {
        auto &a = g.stepwiseInfo, &b = w.stepwiseInfo;
        H::check(at + "ts", a.ts, b.ts);
        H::check(at + "isCeiling", a.isCeiling, b.isCeiling);
        H::check(at + "positiveHysteresis", a.positiveHysteresis, b.positiveHysteresis);
        H::check(at + "negativeHysteresis", a.negativeHysteresis, b.negativeHysteresis);
        for (size_t i = 0; i < ec::maxStepwisePoints; i++) {
            H::check(at + "reading " + std::to_string(i), a.reading[i], b.reading[i]);
            H::check(at + "output " + std::to_string(i), a.output[i], b.output[i]);
        }
        return;
    }
    auto &a = g.pidInfo, &b = w.pidInfo;
    H::check(at + "ts", a.ts, b.ts);
    H::check(at + "proportionalCoeff", a.proportionalCoeff, b.proportionalCoeff);
    H::check(at + "integralCoeff", a.integralCoeff, b.integralCoeff);
    H::check(at + "derivativeCoeff", a.derivativeCoeff, b.derivativeCoeff);
    H::check(at + "feedFwdOffset", a.feedFwdOffset, b.feedFwdOffset);
    H::check(at + "feedFwdGain", a.feedFwdGain, b.feedFwdGain);
    H::check(at + "integralLimit.min", a.integralLimit.min, b.integralLimit.min);
    H::check(at + "integralLimit.max", a.integralLimit.max, b.integralLimit.max);
    H::check(at + "outLim.min", a.outLim.min, b.outLim.min);
    H::check(at + "outLim.max", a.outLim.max, b.outLim.max);
    H::check(at + "slewNeg", a.slewNeg, b.slewNeg);
    H::check(at + "slewPos", a.slewPos, b.slewPos);
    H::check(at + "positiveHysteresis", a.positiveHysteresis, b.positiveHysteresis);
    H::check(at + "negativeHysteresis", a.negativeHysteresis, b.negativeHysteresis);
    H::check(at + "checkHysterWithSetpt", a.checkHysterWithSetpt, b.checkHysterWithSetpt);
}
int main(int c, char** v)
{
    return H::run(c, v, 10000, [] {
        bool clean = H::chance(65), bad = false;
        json zones = json::array();
        std::map<int64_t, std::map<std::string, Want>> want;
        std::map<int64_t, conf::ZoneConfig> zc;
        for (int nz = (int)H::u(4); nz > 0; nz--) {
            json z = json::object();
            int64_t id = H::chance(10) ? (int64_t)1 << 40 : (int64_t)H::u(3);
            z["id"] = id;
            conf::ZoneConfig s{};
            s.minThermalOutput = put(z, "minThermalOutput");
            s.failsafePercent = put(z, "failsafePercent");
            auto ms = [&](const char* k, uint64_t& t) { if (H::chance(60)) { uint64_t x = H::chance(75) ? H::u(5000) : H::chance(50) ? H::u(3) : H::chance(50) ? 5000 + H::u(10000000) : (uint64_t)1 << (20 + H::u(40)); z[k] = x; if (x >= 1) t = x; } };
            s.cycleTime.cycleIntervalTimeMS = 100, s.cycleTime.updateThermalsTimeMS = 1000;
            ms("cycleIntervalTimeMS", s.cycleTime.cycleIntervalTimeMS);
            ms("updateThermalsTimeMS", s.cycleTime.updateThermalsTimeMS);
            s.accumulateSetPoint = false;
            if (H::chance(50)) { s.accumulateSetPoint = H::chance(60); z["accumulateSetPoint"] = s.accumulateSetPoint; }
            json pids = json::array();
            std::map<std::string, Want> ctl;
            for (int np = (int)H::u(5); np > 0; np--) {
                json j = json::object();
                Want w = controller(j, clean);
                std::string name = H::chance(40) ? std::string(1, (char)('a' + H::u(2))) : H::word();
                j["name"] = name;
                bad |= w.bad;
                ctl.insert_or_assign(name, w);
                pids.push_back(j);
            }
            z["pids"] = pids;
            zones.push_back(z);
            want.insert_or_assign(id, ctl);
            zc.insert_or_assign(id, s);
        }
        json doc = {{"sensors", json::array()}, {"zones", zones}};
        H::ctx = text(doc);
        bool threw = false;
        std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>> got;
        try { got = buildPIDsFromJson(doc); }
        catch (const std::exception&) { threw = true; }
        H::check("configuration refused", threw, bad);
        if (threw) return true;
        H::check("zones with controllers", got.first.size(), want.size());
        H::check("zones with settings", got.second.size(), zc.size());
        for (auto& [id, ctl] : want) {
            std::string zn = "zone " + std::to_string(id) + " ";
            H::check(zn + "present", got.first.count(id) + got.second.count(id), (size_t)2);
            auto &g = got.second.at(id), &s = zc.at(id);
            H::check(zn + "minThermalOutput", g.minThermalOutput, s.minThermalOutput);
            H::check(zn + "failsafePercent", g.failsafePercent, s.failsafePercent);
            H::check(zn + "cycleIntervalTimeMS", g.cycleTime.cycleIntervalTimeMS, s.cycleTime.cycleIntervalTimeMS);
            H::check(zn + "updateThermalsTimeMS", g.cycleTime.updateThermalsTimeMS, s.cycleTime.updateThermalsTimeMS);
            H::check(zn + "accumulateSetPoint", g.accumulateSetPoint, s.accumulateSetPoint);
            H::check(zn + "controllers", got.first.at(id).size(), ctl.size());
            for (auto& [name, w] : ctl) {
                H::check(zn + "controller " + name + " present", got.first.at(id).count(name), (size_t)1);
                same(zn + "controller " + name + " ", got.first.at(id).at(name), w);
            }
        }
        return true;
    });
}
