// LINK: pid/ec/pid.cpp pid/ec/logging.cpp pid/tuning.cpp pid/pidcontroller.cpp pid/thermalcontroller.cpp pid/util.cpp
#include "harness.hpp"
#include "zonestub.hpp"
#include "pid/thermalcontroller.hpp"
#include "pid/tuning.hpp"
#include "errors/exception.hpp"
int main(int c, char** v)
{
    return H::run(c, v, 200000, [] {
        StubZone z;
        static const char* tn[] = {"margin", "temp", "power", "powersum"};
        std::string ts = H::chance(90) ? std::string(tn[H::u(4)]) : H::str();
        H::ctx = "type " + ts;
        ThermalType ty{};
        bool known = ts == "margin" || ts == "temp" || ts == "power" || ts == "powersum", threw = false;
        try { ty = getThermalType(ts); }
        catch (const ControllerBuildException&) { threw = true; }
        H::check("unknown type is an error", threw, !known);
        H::check("isThermalType", (bool)isThermalType(ts), known);
        if (!known) return false;
        H::check("class", ty, ts == "margin" ? ThermalType::margin : ts == "powersum" ? ThermalType::summation : ThermalType::absolute);
        int n = 1 + (int)H::u(4);
        std::vector<conf::SensorInput> ins;
        for (int i = 0; i < n; i++) {
            conf::SensorInput s;
            s.name = "in" + std::to_string(i);
            s.convertTempToMargin = H::chance(40);
            s.convertMarginZero = H::chance(85) ? (double)H::u(120) : H::dbl();
            ins.push_back(s);
        }
        double sp = H::dbl();
        std::string id = H::word();
        ec::pidinfo init{};
        auto p = ThermalController::createThermalPid(&z, id, ins, sp, init, ty);
        for (int t = 0; t < 3; t++) {
            debugEnabled = H::chance(10);
            bool any = false, bad = false;
            double want = 0;
            std::vector<double> vals;
            for (auto& i : ins) {
                double x = H::chance(60) ? (double)H::u(120) - 10 : H::dbl();
                z.cache[i.name] = {x, H::dbl()};
                vals.push_back(x);
                if (!std::isfinite(x) || bad) continue;
                if (ts == "margin" && i.convertTempToMargin) {
                    if (!std::isfinite(i.convertMarginZero)) { bad = true; continue; }
                    x = i.convertMarginZero - x;
                    if (!std::isfinite(x)) return false; // overflow: out of scope
                }
                if (ts == "powersum") want += x;
                else if (!any) want = x;
                else if (ts == "margin") want = std::min(want, x);
                else want = std::max(want, x);
                any = true;
            }
            std::string d;
            for (auto& i : ins) d += i.convertTempToMargin ? " Tjmax " + H::show(i.convertMarginZero) : " plain";
            H::ctx = ts + " inputs=" + H::show(vals) + d + " setpoint=" + H::show(sp);
            threw = false;
            double got = 0;
            z.setpoints.clear();
            try { got = p->inputProc(); }
            catch (const std::exception&) { threw = true; }
            H::check("non-finite TempToMargin is an error", threw, bad);
            if (!bad) H::check("thermal input", got, any ? want : sp);
            H::require(z.setpoints.empty(), "inputProc delivered a setpoint");
            H::check("setpoint", p->setptProc(), sp);
            double o = H::dbl();
            p->outputProc(o);
            H::require(z.setpoints.size() == 1 && z.ceilings.empty(), "output must be delivered exactly once as a setpoint");
            H::check("delivered output", z.setpoints[0].first, o);
            H::check("delivered name", z.setpoints[0].second, id);
        }
        return true;
    });
}
