// LINK: dbus/dbusconfiguration.cpp dbus/dbushelper.cpp dbus/dbusutil.cpp util.cpp pid/tuning.cpp
// Discovery on whole object trees: several owners, profiles, zones, shared sensors.
#include "harness.hpp"
#include <sdbusplus/bus.hpp>
#include "dbus/dbusconfiguration.hpp"
#include "dbus/dbusutil.hpp"
#include <boost/asio/io_context.hpp>
using namespace pid_control;
namespace pid_control { void tryRestartControlLoops(bool) {} }
using V = DbusVariantType;
using Names = std::vector<std::string>;
using Attrs = std::unordered_map<std::string, V>;
using Tree = std::unordered_map<std::string, std::unordered_map<std::string, Names>>;
static const std::string CFG = "xyz.openbmc_project.Configuration.Pid", ZONE = CFG + ".Zone", STEP = "xyz.openbmc_project.Configuration.Stepwise",
                         VALUE = "xyz.openbmc_project.Sensor.Value", PWM = "xyz.openbmc_project.Control.FanPwm", OM = "org.freedesktop.DBus.ObjectManager",
                         MODE = "xyz.openbmc_project.Control.ThermalMode";
static std::string underscored(std::string s)
{
    for (auto& c : s) if (c == ' ') c = '_';
    return s;
}
static std::string leaf(const std::string& p) { return p.substr(p.rfind('/') + 1); }
static std::string show(const Names& v)
{
    std::string s = "[";
    for (auto& x : v) s += (s.size() > 1 ? "," : "") + x;
    return s + "]";
}
// whether the call is about an interface, whatever list type carries the names
template <size_t... N> static bool about(const std::any& a, const std::string& what, std::index_sequence<N...>)
{
    auto in = [&](auto* p) {
        if (!p) return false;
        for (const auto& x : *p) if (what == std::string(x)) return true;
        return false;
    };
    return in(std::any_cast<Names>(&a)) || in(std::any_cast<std::vector<const char*>>(&a)) ||
           (in(std::any_cast<std::array<const char*, N>>(&a)) || ...) || (in(std::any_cast<std::array<std::string, N>>(&a)) || ...);
}
struct Ctl
{
    std::string name, cls; // cls "stepwise" too
    Names zones, inputs, outputs, acceptable, profiles;
    bool hasProfiles = false, asFailed = true, ignoreOff = false, setFailed = false, setIgnore = false, hasAcc = false, rise = false;
    std::vector<double> margin;
    double p = 0; // tells controllers apart
    int points = 2;
    std::string offset; // the threshold its setpoints move by
    Attrs attrs() const
    {
        Attrs a{{"Name", name}, {"Zones", zones}, {"Inputs", inputs}};
        if (hasProfiles) a["Profiles"] = profiles;
        if (hasAcc) a["MissingIsAcceptable"] = acceptable;
        if (setFailed) a["InputUnavailableAsFailed"] = asFailed;
        if (setIgnore) a["IgnoreFailIfHostOff"] = ignoreOff;
        if (!margin.empty()) a["TempToMargin"] = margin;
        if (cls == "stepwise") {
            a["Class"] = std::string(rise ? "Ceiling" : "Floor");
            std::vector<double> r, o;
            for (int j = 0; j < points; j++) r.push_back(p + j), o.push_back(p + 2 + j);
            a["Reading"] = r;
            a["Output"] = o;
            return a;
        }
        a["Class"] = cls;
        if (cls == "fan") a["Outputs"] = outputs;
        if (!offset.empty()) a["SetPointOffset"] = offset;
        for (auto k : {"SetPoint", "PCoefficient", "ICoefficient", "FFOffCoefficient", "FFGainCoefficient", "ILimitMax", "ILimitMin", "OutLimitMax", "OutLimitMin", "SlewNeg", "SlewPos"}) a[k] = p;
        return a;
    }
    std::string text() const
    {
        return cls + " " + name + " zones " + show(zones) + " inputs " + show(inputs) + (cls == "fan" ? " outputs " + show(outputs) : "") +
               (hasProfiles ? " profiles " + show(profiles) : "") + (hasAcc ? " acceptable " + show(acceptable) : "") + (cls == "stepwise" ? " points " + std::to_string(points) : "") + (offset.empty() ? "" : " offset " + offset) + "\n";
    }
};
struct Want
{
    std::string type, name;
    double p, sp = 0;
    bool ordered = true;
    std::vector<std::tuple<std::string, bool, double, bool>> in; // name, converted, margin zero, may be missing
    std::string text(bool sorted) const
    {
        std::vector<std::string> l;
        for (auto& [n, c, z, m] : in) l.push_back(n + (sorted ? "" : c ? "-" + H::show(z) : "") + (m ? "?" : ""));
        if (sorted) std::sort(l.begin(), l.end());
        return name + ":" + type + "(" + H::show(p) + " at " + H::show(sp) + ")" + show(l);
    }
};
struct Sens { std::string type, read, write; bool failed, ignore; };
int main(int c, char** v)
{
    return H::run(c, v, 20000, [] {
        static sdbusplus::bus_t bus;
        static boost::asio::io_context io;
        static boost::asio::steady_timer timer(io);
        // the objects on the bus
        Tree tree;
        std::map<std::string, std::string> sensors; // path -> interface
        static const Names stems = {"T1", "T2", "T10", "xT1", "Inlet_Temp", "Fan_1", "Fan_2", "Fan_10", "CPU", "Pwm1", "Power"};
        int nS = 2 + (int)H::u(9);
        for (int i = 0; i < nS; i++) {
            std::string n = H::chance(80) ? H::pick(stems) : H::word();
            std::string d = H::chance(50) ? "temperature" : H::chance(50) ? "fan_tach" : "T1";
            std::string p = "/xyz/openbmc_project/sensors/" + d + "/" + n;
            tree[p]["owner" + std::to_string(H::u(3))].push_back(VALUE);
            sensors[p] = VALUE;
        }
        int nP = (int)H::u(4);
        for (int i = 0; i < nP; i++) {
            std::string p = "/xyz/openbmc_project/control/fanpwm/" + (H::chance(70) ? "p" + std::to_string(i) : "P" + std::to_string(i) + "x");
            tree[p]["owner" + std::to_string(H::u(3))].push_back(PWM);
            sensors[p] = PWM;
            if (H::chance(50)) tree["/xyz/openbmc_project/sensors/fan_pwm/" + leaf(p)]["owner0"].push_back(VALUE); // a reading of the same name
        }
        for (auto& [p, o] : tree) if (H::chance(10)) o.begin()->second.push_back("xyz.openbmc_project.Other");
        // which are sensors in the end: pwm readings are none
        for (auto it = sensors.begin(); it != sensors.end();) it = it->second == VALUE && it->first.find("pwm") != std::string::npos ? sensors.erase(it) : std::next(it);
        auto matching = [&](const std::string& name) {
            std::vector<std::pair<std::string, std::string>> r;
            std::string n = underscored(name);
            bool re = n.find_first_of(".*[]") != std::string::npos;
            for (auto& [p, i] : sensors)
                if (re ? std::regex_search(p, std::regex("/" + n + "$")) : p.ends_with("/" + n)) r.push_back({p, i});
            return r;
        };
        auto anyInput = [&](bool mostly) -> std::string {
            if (H::chance(3)) return "T[0-9]+";
            if (H::chance(mostly ? 95 : 60) && !sensors.empty()) {
                for (int t = 0; t < 20; t++) {
                    auto it = std::next(sensors.begin(), H::u(sensors.size()));
                    if (it->second != VALUE) continue;
                    std::string s = leaf(it->first);
                    if (H::chance(20)) for (auto& ch : s) if (ch == '_') ch = ' ';
                    return s;
                }
            }
            return H::pick(stems);
        };
        static const Names profiles = {"Acoustic", "Performance", "Eco"}, zoneNames = {"Main", "Left zone", "z"};
        static const Names classes = {"fan", "temp", "margin", "power", "powersum", "stepwise", "stepwise"};
        bool oneEach = true; // no two sensors of one name
        for (auto& [p, i] : sensors) for (auto& [q, j] : sensors) oneEach &= p == q || leaf(p) != leaf(q);
        std::map<std::string, double> threshold;
        for (auto& [p, i] : sensors) if (H::chance(80)) threshold[p] = H::smallNum();
        std::vector<Ctl> ctls;
        int n = 1 + (int)H::u(4);
        for (int i = 0; i < n; i++) {
            Ctl k;
            k.name = (H::chance(30) ? "ctl " : "c_") + std::to_string(i);
            k.cls = H::pick(classes);
            k.p = i + 1;
            k.rise = H::chance(50);
            if (H::chance(60)) k.points = H::chance(60) ? 18 + (int)H::u(3) : 1 + (int)H::u(20);
            k.zones = zoneNames;
            std::shuffle(k.zones.begin(), k.zones.end(), H::rng);
            k.zones.resize(H::chance(3) ? 0 : 1 + H::u(3));
            bool mostly = H::chance(80);
            for (int j = 0, m = 1 + (int)H::u(3); j < m; j++) k.inputs.push_back(anyInput(mostly));
            std::sort(k.inputs.begin(), k.inputs.end());
            k.inputs.erase(std::unique(k.inputs.begin(), k.inputs.end()), k.inputs.end());
            std::shuffle(k.inputs.begin(), k.inputs.end(), H::rng);
            if (k.cls == "fan")
                for (int j = 0, m = H::chance(60) ? 1 : (int)k.inputs.size(); j < m; j++) k.outputs.push_back(H::chance(95) && nP ? "p" + std::to_string(H::chance(50) ? j % nP : H::u(nP)) : "gone");
            k.hasAcc = H::chance(30);
            for (auto& s : k.inputs) if (H::chance(50)) k.acceptable.push_back(s);
            if (H::chance(20)) for (auto& s : k.inputs) k.margin.push_back(H::smallNum()), (void)s;
            if ((k.hasProfiles = H::chance(60))) for (auto& p : profiles) if (H::chance(35)) k.profiles.push_back(p);
            if ((k.setFailed = H::chance(30))) k.asFailed = H::chance(50);
            if ((k.setIgnore = H::chance(30))) k.ignoreOff = H::chance(50);
            if (k.cls != "fan" && k.cls != "stepwise" && oneEach && i == 0 && H::chance(40)) k.offset = H::pick(Names{"WarningHigh", "WarningLow", "CriticalHigh", "CriticalLow"});
            ctls.push_back(k);
        }
        struct Z { std::string name; double min; int64_t index; bool hasIndex, hasProfiles; Names profiles; };
        std::vector<Z> zones;
        for (auto& zn : zoneNames) if (H::chance(85)) {
            Z z{zn, 100.0 + (double)zones.size(), (int64_t)zones.size() * 3, H::chance(50), H::chance(15), {}};
            if (z.hasProfiles) for (auto& p : profiles) if (H::chance(40)) z.profiles.push_back(p);
            zones.push_back(z);
        }
        // the owners of configuration
        int owners = 1 + (int)H::u(2);
        std::map<std::string, ManagedObjectType> managed;
        for (int o = 0; o < owners; o++) {
            std::string who = "owner" + std::to_string(o), root = H::chance(50) ? "/" : "/em" + std::to_string(o);
            if (root == "/" && tree[root].count(who)) root = "/x";
            tree[root][who].push_back(OM);
            managed[who + root];
            managed[who + root][sdbusplus::object_path("/other/" + who)] = {{"xyz.openbmc_project.Other", {{"Name", std::string("no controller")}}}};
        }
        auto place = [&](const std::string& path, const std::string& intf, const Attrs& a) {
            int o = (int)H::u(owners);
            std::string who = "owner" + std::to_string(o);
            for (auto& [key, m] : managed) if (key.starts_with(who)) m[sdbusplus::object_path(path)][intf] = a;
            tree[path][who].push_back(intf);
        };
        for (size_t i = 0; i < ctls.size(); i++) place("/cfg/c" + std::to_string(i), ctls[i].cls == "stepwise" ? STEP : CFG, ctls[i].attrs());
        for (size_t i = 0; i < zones.size(); i++) {
            Attrs a{{"Name", zones[i].name}, {"MinThermalOutput", zones[i].min}};
            if (zones[i].hasIndex) a["ZoneIndex"] = (double)zones[i].index;
            if (zones[i].hasProfiles) a["Profiles"] = zones[i].profiles;
            place("/cfg/z" + std::to_string(i), ZONE, a);
        }
        // an object with two controllers on it, only one of which may survive
        if (ctls.size() > 1 && H::chance(30) && ctls[0].cls != "stepwise" && ctls[1].cls == "stepwise") {
            for (auto& [key, m] : managed) m.erase(sdbusplus::object_path("/cfg/c0")), m.erase(sdbusplus::object_path("/cfg/c1"));
            auto& m = managed.begin()->second[sdbusplus::object_path("/cfg/both")];
            m[CFG] = ctls[0].attrs();
            m[STEP] = ctls[1].attrs();
            tree["/cfg/both"]["owner0"] = {CFG, STEP};
        }
        // the selected profiles
        Names selected;
        Tree modes;
        std::map<std::string, std::string> current;
        bool modeThere = H::chance(80);
        if (modeThere)
            for (int i = 0, m = H::chance(80) ? 1 : 2; i < m; i++) {
                std::string who = "mode" + std::to_string(i);
                current[who] = H::chance(85) ? H::pick(profiles) : std::string("None of them");
                modes["/control/mode" + std::to_string(H::u(2))][who] = {MODE};
                selected.push_back(current[who]);
            }
        int fault = H::chance(93) ? 0 : 1 + (int)H::u(4);
        H::ctx = "profiles selected " + show(selected) + (fault ? " fault " + std::to_string(fault) : "") + "\n";
        for (auto& k : ctls) H::ctx += "    " + k.text();
        for (auto& z : zones) H::ctx += "    zone " + z.name + (z.hasIndex ? " at " + std::to_string(z.index) : "") + (z.hasProfiles ? " profiles " + show(z.profiles) : "") + "\n";
        for (auto& [p, i] : sensors) H::ctx += "    sensor " + p + (i == PWM ? " (pwm)" : "") + "\n";
        std::string problem;
        bool faulted = false;
        sdbusplus::stub::handler() = [&](sdbusplus::message_t& q) {
            sdbusplus::message_t r;
            auto& m = *q.d;
            auto fail = [&](int f) { if (fault == f) { faulted = true; throw sdbusplus::exception::SdBusError(5, "stub"); } };
            if (m.member == "GetSubTree") {
                if (about(m.args.at(2), MODE, std::make_index_sequence<12>())) { fail(1); r.d->payload.push_back(modes); }
                else { fail(2); r.d->payload.push_back(tree); }
            } else if (m.member == "GetManagedObjects") {
                fail(3);
                auto it = managed.find(m.dest + m.path);
                if (it == managed.end()) { problem = "managed objects asked from " + m.dest + " at " + m.path; throw sdbusplus::exception::SdBusError(5, "stub"); }
                r.d->payload.push_back(it->second);
            } else if (m.member == "GetObject") {
                r.d->payload.push_back(std::map<std::string, Names>{{"sensors", {}}});
            } else if (m.member == "Get" && m.dest == "sensors") {
                if (!threshold.count(m.path)) throw sdbusplus::exception::SdBusError(5, "stub");
                r.d->payload.push_back(std::variant<double>(threshold[m.path]));
            } else if (m.member == "Get") {
                fail(4);
                auto it = current.find(m.dest);
                if (it == current.end()) { problem = "property asked from " + m.dest; throw sdbusplus::exception::SdBusError(5, "stub"); }
                r.d->payload.push_back(std::variant<std::string>(it->second));
            }
            return r;
        };
        std::map<std::string, conf::SensorConfig> gotS;
        std::map<int64_t, conf::PIDConf> gotZ;
        std::map<int64_t, conf::ZoneConfig> gotD;
        gotS["stale"], gotZ[77]["stale"], gotD[77]; // from a previous run
        bool threw = false, complete = false;
        try { complete = dbus_configuration::init(bus, timer, gotS, gotZ, gotD); } catch (const std::exception&) { threw = true; }
        H::require(problem.empty(), problem);
        if (faulted) { H::check("an error is raised when the bus fails", threw, true); return true; }
        // what the statement asks for
        auto kept = [&](bool has, const Names& ps) {
            if (selected.empty() || !has || ps.empty()) return true;
            for (auto& p : ps) if (std::find(selected.begin(), selected.end(), p) != selected.end()) return true;
            return false;
        };
        std::map<std::string, std::vector<Want>> want; // zone name -> controllers
        std::map<std::string, std::vector<Sens>> wantS;
        bool mismatch = false;
        for (auto& k : ctls) {
            if (!kept(k.hasProfiles, k.profiles) || k.zones.empty()) continue;
            Want w;
            w.name = underscored(k.name);
            w.type = k.cls;
            w.p = k.p;
            w.sp = k.cls == "fan" || k.cls == "stepwise" ? 0 : k.p;
            std::vector<std::pair<std::string, std::string>> in, out;
            for (auto& s : k.inputs) {
                auto m = matching(s);
                if (k.cls == "stepwise" && m.empty()) break; // inputs beyond a missing one are not used
                if (m.size() > 1) w.ordered = false;
                in.insert(in.end(), m.begin(), m.end());
            }
            for (auto& s : k.outputs) { auto m = matching(s); out.insert(out.end(), m.begin(), m.end()); }
            Names acc;
            if (k.hasAcc)
                for (auto& s : k.acceptable) {
                    auto m = matching(s);
                    if (k.cls == "stepwise" && m.empty()) break;
                    for (auto& x : m) acc.push_back(leaf(x.first));
                }
            if (k.cls != "stepwise") for (auto& x : in) mismatch |= x.second != VALUE;
            Names names;
            if (k.cls == "fan") {
                if (out.size() != 1 && out.size() != in.size()) { mismatch = true; continue; }
                if (!w.ordered && out.size() != 1) return true; // the order of several sensors under one name is open
                for (size_t i = 0; i < in.size(); i++) {
                    auto& o = out.size() == 1 ? out[0] : out[i];
                    mismatch |= o.second != PWM;
                    names.push_back(leaf(in[i].first) + leaf(o.first));
                    wantS[names.back()].push_back({"fan", in[i].first, o.first, false, false});
                }
            } else
                for (auto& x : in) {
                    names.push_back(leaf(x.first));
                    wantS[names.back()].push_back({k.cls == "stepwise" ? "temp" : k.cls, x.first, "", k.asFailed, k.ignoreOff});
                }
            if (names.empty()) continue;
            for (size_t i = 0; i < names.size(); i++)
                w.in.push_back({names[i], i < k.margin.size(), i < k.margin.size() ? k.margin[i] : 0, std::find(acc.begin(), acc.end(), names[i]) != acc.end()});
            if (k.offset.empty()) {
                for (auto& z : k.zones) want[z].push_back(w);
                continue;
            }
            for (size_t i = 0; i < in.size(); i++) { // one for each input, at its own setpoint
                if (std::count(names.begin(), names.end(), names[i]) > 1) return true;
                Want o = w;
                o.name = names[i];
                o.ordered = true;
                o.in = {w.in[i]};
                o.sp = k.p + (threshold.count(in[i].first) ? threshold[in[i].first] : 0);
                if (!w.ordered && !k.margin.empty()) return true;
                for (auto& z : k.zones) want[z].push_back(o);
            }
        }
        if (mismatch) { H::check("an error is raised when inputs and outputs do not fit", threw, true); return true; }
        H::check("an error is raised", threw, false);
        // which index each zone got
        std::map<int64_t, std::string> zoneAt;
        size_t zonesKept = 0;
        std::set<int64_t> fixed;
        for (auto& z : zones) {
            if (!kept(z.hasProfiles, z.profiles)) continue;
            zonesKept++;
            if (z.hasIndex) fixed.insert(z.index);
            int found = 0;
            for (auto& [i, d] : gotD) if (d.minThermalOutput == z.min) {
                found++;
                zoneAt[i] = z.name;
                if (z.hasIndex) H::check("index of zone " + z.name, i, z.index);
            }
            H::check("occurrences of zone " + z.name, found, 1);
        }
        H::check("number of configured zones", gotD.size(), zonesKept);
        auto render = [](std::vector<Want> l) {
            std::vector<std::string> s;
            for (auto& w : l) s.push_back(w.text(!w.ordered));
            std::sort(s.begin(), s.end());
            return show(s);
        };
        std::set<std::string> unordered;
        for (auto& [z, l] : want) for (auto& w : l) if (!w.ordered) unordered.insert(w.name);
        std::multiset<std::string> loose, gotLoose; // zones that have controllers but no configuration
        for (auto& [i, pc] : gotZ) {
            std::vector<Want> l;
            for (auto& [name, info] : pc) {
                Want w;
                w.name = name;
                w.type = info.type;
                w.ordered = !unordered.count(name);
                w.sp = info.setpoint;
                w.p = info.type == "stepwise" ? info.stepwiseInfo.reading[0] : info.pidInfo.proportionalCoeff;
                if (info.type == "stepwise") {
                    const Ctl* k = nullptr;
                    for (auto& x : ctls) if (x.p == w.p) k = &x;
                    auto& s = info.stepwiseInfo;
                    H::require(k && s.isCeiling == k->rise, "the kind of stepwise controller " + name);
                    bool points = true;
                    for (int j = 0; j < k->points; j++) points &= s.reading[j] == w.p + j && s.output[j] == w.p + 2 + j;
                    if (k->points < 20) points &= std::isnan(s.reading[k->points]) && std::isnan(s.output[k->points]);
                    H::require(points, "the points of stepwise controller " + name);
                }
                for (auto& in : info.inputs) w.in.push_back({in.name, in.convertTempToMargin, in.convertMarginZero, in.missingIsAcceptable});
                l.push_back(w);
            }
            if (l.empty()) continue; // none of its sensors is there
            if (zoneAt.count(i)) H::check("controllers of zone " + zoneAt[i], render(l), render(want[zoneAt[i]])), want.erase(zoneAt[i]);
            else gotLoose.insert(render(l));
        }
        for (auto& [z, l] : want) {
            if (l.empty()) continue;
            bool configured = false;
            for (auto& [i, n2] : zoneAt) configured |= n2 == z;
            if (configured) H::check("controllers of zone " + z, std::string("[]"), render(l));
            loose.insert(render(l));
        }
        Names a(loose.begin(), loose.end()), b(gotLoose.begin(), gotLoose.end());
        H::check("controllers of zones without a configuration", show(b), show(a));
        for (auto& [name, l] : wantS) {
            H::require(gotS.count(name), "sensor " + name + " is configured");
            auto& g = gotS[name];
            bool ok = false;
            for (auto& s : l) // the same name may belong to several
                ok |= g.type == s.type && g.readPath == s.read && g.writePath == s.write && (s.type == "fan" ? g.max == 255 && g.min == 0 : g.timeout == 0 && g.ignoreDbusMinMax && g.unavailableAsFailed == s.failed && g.ignoreFailIfHostOff == s.ignore);
            H::require(ok, "configuration of sensor " + name + ": " + g.type + " " + g.readPath + " " + g.writePath);
        }
        for (auto& [name, g] : gotS) H::require(wantS.count(name), "sensor " + name + " is asked for by no controller");
        H::check("ready", complete, !gotZ.empty() && !gotD.empty());
        return true;
    });
}
