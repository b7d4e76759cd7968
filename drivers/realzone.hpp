// a real DbusPidZone with recording controllers and scripted sensors
#pragma once
#include "zonestub.hpp"
#include "pid/zone.hpp"
#include "sensors/manager.hpp"
#include "pid/controller.hpp"
#include "pid/tuning.hpp"
#include "failsafeloggers/failsafe_logger_utility.hpp"
namespace RZ
{
inline sdbusplus::bus_t bus;
struct Rig
{
    SensorManager mgr{bus, bus};
    std::map<std::string, StubSensor*> sensors;
    std::unique_ptr<DbusPidZone> zone;
    int64_t id;
    double minOut, fsPct;
    Rig(int64_t id_ = 1, double minOut_ = 0, double fs = 75, bool acc = false, conf::CycleTime ct = {}) : id(id_), minOut(minOut_), fsPct(fs)
    {
        zone = std::make_unique<DbusPidZone>(id, minOut, fsPct, ct, mgr, bus, "/zone", false, acc);
    }
    StubSensor* sensor(const std::string& n, int64_t timeout = 0)
    {
        auto s = std::make_unique<StubSensor>(n, timeout);
        auto* p = s.get();
        mgr.addSensor("temp", n, std::move(s));
        sensors[n] = p;
        return p;
    }
};
struct RecController : Controller
{
    std::string id;
    std::function<void()> f;
    RecController(std::string i, std::function<void()> fn = {}) : id(std::move(i)), f(std::move(fn)) {}
    double inputProc() override { return 0; }
    void outputProc(double) override {}
    void process() override { if (f) f(); }
    std::string getID() override { return id; }
};
} // namespace RZ
