// recording ZoneInterface / Sensor used by the controller drivers
#pragma once
#include "pid/zone_interface.hpp"
#include "sensors/sensor.hpp"
using namespace pid_control;
struct StubSensor : Sensor
{
    std::vector<std::tuple<double, bool>>* log = nullptr;
    std::vector<std::string>* order = nullptr;
    std::vector<int> kinds; // which write overload
    std::optional<int64_t> report;
    ReadReturn rd{};
    bool failed = false;
    std::string reason;
    int reads = 0;
    StubSensor(const std::string& n, int64_t t = 0, bool ig = false) : Sensor(n, t, ig) {}
    ReadReturn read() override { reads++; return rd; }
    void write(double v) override { writes.push_back({v, false, false}); note(); }
    void write(double v, bool force, int64_t* w) override
    {
        if (w && report) *w = *report;
        writes.push_back({v, force, w != nullptr});
        note();
    }
    bool getFailed() override { return failed; }
    std::string getFailReason() override { return reason; }
    struct W { double v; bool force; bool asked; bool operator==(const W&) const = default; };
    std::vector<W> writes;
    void note() { if (order) order->push_back(getName()); }
};
struct StubZone : ZoneInterface
{
    std::map<std::string, ValueCacheEntry> cache;
    std::set<std::string> missing; // names whose lookup throws
    std::map<std::string, std::unique_ptr<StubSensor>> sensors;
    std::vector<std::string> trace;
    std::vector<std::pair<double, std::string>> setpoints;
    std::vector<double> ceilings;
    std::vector<std::tuple<std::string, double, double>> outs;
    std::vector<std::string> order;
    double maxSet = 0, fsPct = 0;
    bool fs = false, redundant = false, manual = false, acc = false;
    uint64_t cyc = 100, upd = 1000;
    int64_t id = 3;
    std::vector<std::tuple<std::string, std::string, double, double>> dbg;
    std::map<std::string, std::pair<std::string, double>> fsSensors;
    std::function<void(const std::string&)> hook;
    void ev(const std::string& s) { trace.push_back(s); if (hook) hook(s); }

    int64_t getZoneID() const override { return id; }
    void initializeLog() override { ev("initializeLog"); }
    void writeLog(const std::string&) override { ev("writeLog"); }
    Sensor* getSensor(const std::string& n) override { return sensors.at(n).get(); }
    std::vector<std::string> getSensorNames() override { std::vector<std::string> r; for (auto& s : sensors) r.push_back(s.first); return r; }
    void updateFanTelemetry() override { ev("updateFanTelemetry"); }
    void updateSensors() override { ev("updateSensors"); }
    void initializeCache() override { ev("initializeCache"); }
    void setOutputCache(std::string_view n, const ValueCacheEntry& v) override { outs.push_back({std::string(n), v.scaled, v.unscaled}); order.push_back("cache " + std::string(n)); }
    double getCachedValue(const std::string& n) override { return getCachedValues(n).scaled; }
    ValueCacheEntry getCachedValues(const std::string& n) override { if (missing.count(n)) throw std::out_of_range(n); return cache.at(n); }
    void addSetPoint(double s, const std::string& n) override { setpoints.push_back({s, n}); ev("addSetPoint"); }
    void clearSetPoints() override { ev("clearSetPoints"); }
    void addRPMCeiling(double c) override { ceilings.push_back(c); ev("addRPMCeiling"); }
    void clearRPMCeilings() override { ev("clearRPMCeilings"); }
    void determineMaxSetPointRequest() override { ev("determineMaxSetPointRequest"); }
    double getMaxSetPointRequest() const override { return maxSet; }
    bool getFailSafeMode() const override { return fs; }
    double getFailSafePercent() override { return fsPct; }
    std::map<std::string, std::pair<std::string, double>> getFailSafeSensors() const override { return fsSensors; }
    uint64_t getCycleIntervalTime() const override { return cyc; }
    uint64_t getUpdateThermalsCycle() const override { return upd; }
    bool getManualMode() const override { return manual; }
    bool getRedundantWrite() const override { return redundant; }
    bool getAccSetPoint() const override { return acc; }
    void processFans() override { ev("processFans"); }
    void processThermals() override { ev("processThermals"); }
    void updateThermalPowerDebugInterface(std::string a, std::string b, double c, double d) override { dbg.push_back({a, b, c, d}); }
};
