# (id, property, edits, sources, demo, needs, what it breaks)
seed('s01-slew-windup', 'C01', [('pid/ec/pid.cpp', '''            // Back calculate integral term for the cases where we limited the
            // output
            integralTerm = output - proportionalTerm;
''', '''            // Back calculate integral term for the cases where we limited the
            // output
            if (output != coreContext.output2)
            {
                integralTerm = output - proportionalTerm;
            }
''')], ['pid/ec/pid.cpp', 'pid/ec/logging.cpp', 'pid/tuning.cpp'], '''
#include "pid/ec/pid.hpp"
using namespace pid_control::ec;
int main()
{
    pid_info_t p{};
    p.ts = 1; p.proportionalCoeff = 1; p.integralCoeff = 1; p.feedFwdGain = 1;
    p.integralLimit = {-100, 100}; p.outLim = {-1000, 1000}; p.slewPos = 500; p.slewNeg = -500;
    std::string n = "p";
    pid(&p, 10, 12, &n);            // first step: no slew limiting yet
    double o = pid(&p, 10, 12, &n); // inside the slew limits: P 2, I 4, FF 12
    EXPECT(o == 18);
    EXPECT(p.integral == 16);       // back-calculated whenever a slew rate is set
    return bad;
}
''', 'a slew rate that is configured but not limiting, and a feed-forward or derivative term, over two steps',
     'with a slew rate set, the stored integral is no longer recalculated from the output when the slew did not limit it')

seed('s02-stepwise-drift', 'C03', [('pid/stepwisecontroller.cpp', '''    {
        output = ec::stepwise(info, input);
        lastInput = input;
    }

    lastOutput = output;
''', '''    {
        output = ec::stepwise(info, input);
    }

    lastInput = input;
    lastOutput = output;
''')], ['pid/ec/stepwise.cpp', 'pid/stepwisecontroller.cpp', 'pid/tuning.cpp'], '''
#include "zonestub.hpp"
#include "pid/stepwisecontroller.hpp"
int main()
{
    StubZone z;
    ec::StepwiseInfo i{};
    for (auto& r : i.reading) r = NAN;
    i.reading[0] = 0; i.output[0] = 10;
    i.reading[1] = 5; i.output[1] = 50;
    i.reading[2] = 9; i.output[2] = 90;
    i.positiveHysteresis = 2;
    auto c = StepwiseController::createStepwiseController(&z, "s", {"t"}, i);
    for (double t : {1.0, 2.5, 4.0, 5.5, 7.0, 8.5, 10.0}) { // slow drift, every step within the hysteresis
        z.cache["t"] = {t, t};
        c->process();
    }
    EXPECT(z.setpoints.size() == 7);
    EXPECT(z.setpoints.back().first == 90);
    return bad;
}
''', 'a reading that drifts slowly: each step within the hysteresis, all of them together beyond it',
     'the hysteresis is measured from the previous reading rather than from the last one acted on', ['zonestub.hpp'])

seed('s03-failsafe-percent-order', 'C06', [('pid/zone.cpp', '''    if (_sensorFailSafePercent[name] == 0)
    {
        _failSafeSensors[name] = std::pair(failReason, _zoneFailSafePercent);
    }
''', '''    if (_failSafeSensors.find(name) != _failSafeSensors.end())
    {
        _failSafeSensors[name].first = failReason;
    }
    else if (_sensorFailSafePercent[name] == 0)
    {
        _failSafeSensors[name] = std::pair(failReason, _zoneFailSafePercent);
    }
''')], ZONE, '''
#include "realzone.hpp"
int main()
{
    RZ::Rig r(1, 0, 75);
    auto* s = r.sensor("a");
    s->failed = true;
    s->reason = "x";
    r.zone->addThermalInput("a", false);
    r.zone->initializeCache();
    r.zone->updateSensors();
    EXPECT(r.zone->getFailSafePercent() == 75);
    r.zone->addPidFailSafePercent({"a"}, 90); // a controller with its own percentage joins later
    r.zone->updateSensors();
    EXPECT(r.zone->getFailSafePercent() == 90);
    return bad;
}
''', 'a sensor that is already in failsafe when its failsafe percentage is set or raised',
     'a sensor that stays failed keeps the failsafe percentage it was first marked with', ['zonestub.hpp', 'realzone.hpp'])

seed('s04-timeout-recovers', 'C05', [('pid/zone.hpp', '''            else if (timeout != 0 && duration >= period)
            {
                markSensorMissing''', '''            else if (timeout != 0 && duration >= period &&
                     !_failSafeSensors.contains(sensorInput))
            {
                markSensorMissing''')], ZONE, '''
#include "realzone.hpp"
int main()
{
    RZ::Rig r(1, 0, 75);
    auto* s = r.sensor("a", 2);
    s->rd.value = 20;
    s->rd.updated = std::chrono::high_resolution_clock::now();
    r.zone->addThermalInput("a", false);
    r.zone->initializeCache();
    r.zone->updateSensors();
    EXPECT(!r.zone->getFailSafeMode());
    s->rd.updated -= std::chrono::seconds(60);
    r.zone->updateSensors();
    EXPECT(r.zone->getFailSafeMode());
    r.zone->updateSensors(); // still silent
    EXPECT(r.zone->getFailSafeMode());
    return bad;
}
''', 'a sensor that stays silent for at least two update rounds after its timeout',
     'a timed-out sensor is taken as recovered on the next round although no reading came in', ['zonestub.hpp', 'realzone.hpp'])

seed('s05-remainder', 'C10', [('pid/pidloop.cpp', 'cycleCnt -= msPerThermalCycle;', 'cycleCnt %= msPerFanCycle;')],
     ['pid/pidloop.cpp', 'pid/tuning.cpp'], '''
#include "zonestub.hpp"
#include "pid/pidloop.hpp"
#include <boost/asio/io_context.hpp>
#include <boost/asio/steady_timer.hpp>
int main()
{
    auto z = std::make_shared<StubZone>();
    z->cyc = 20;
    z->upd = 50;
    boost::asio::io_context io;
    auto t = std::make_shared<boost::asio::steady_timer>(io);
    bool cancel = false;
    int fans = 0, thermals = 0;
    z->hook = [&](const std::string& e) {
        if (e == "processThermals") thermals++;
        if (e == "processFans" && ++fans == 26) cancel = true;
    };
    pidControlLoop(z, t, &cancel, true, 0);
    io.run();
    // 25 fan cycles of 20 ms have gone by before the last one: 500 ms, thermals due every 50 ms, plus the initial one
    EXPECT(thermals == 11);
    return bad;
}
''', 'a thermal interval that is no multiple of the fan interval', 'the time left over after a thermal cycle is forgotten, so thermal cycles fall behind', ['zonestub.hpp'])

seed('s06-alarm-high', 'C12', [('dbus/dbuspassive.cpp', '''        if (!asserted && criticalAlarmHigh != msgData.end())
''', '''        else if (criticalAlarmHigh != msgData.end())
''')], PASSIVE, '''
#include <sdbusplus/bus.hpp>
#include "dbus/dbuspassive.hpp"
using namespace pid_control;
struct Helper : DbusHelperInterface
{
    std::string getService(const std::string&, const std::string&) override { return "svc"; }
    void getProperties(const std::string&, const std::string&, SensorProperties* p) override { p->value = 5; p->available = true; }
    bool thresholdsAsserted(const std::string&, const std::string&) override { return false; }
};
int main()
{
    sdbusplus::bus_t bus;
    conf::SensorConfig c;
    c.type = "temp";
    c.readPath = "/xyz/openbmc_project/sensors/temperature/a";
    auto p = DbusPassive::createDbusPassive(bus, "temp", "a", std::make_unique<Helper>(), &c, nullptr);
    EXPECT(p && !p->getFailed());
    auto send = [&](std::map<std::string, std::variant<int64_t, double, bool>> m) {
        sdbusplus::stub::SdMsg s{std::make_shared<sdbusplus::stub::Msg>()};
        s.m->payload.push_back(std::string("xyz.openbmc_project.Sensor.Threshold.Critical"));
        s.m->payload.push_back(m);
        auto& h = sdbusplus::stub::matches().back();
        h->raw(reinterpret_cast<sd_bus_message*>(&s), h->ctx, nullptr);
    };
    send({{"CriticalAlarmHigh", true}});
    EXPECT(p->getFailed());
    send({{"CriticalAlarmLow", false}, {"CriticalAlarmHigh", true}}); // one lets go as the other comes up
    EXPECT(p->getFailed());
    return bad;
}
''', 'one signal that carries both critical alarms, the low one clear and the high one set', 'the high alarm is ignored when the low alarm comes in the same signal')

seed('s07-forced-write', 'C13', [('dbus/dbuswrite.cpp', '''    oldValue = static_cast<int64_t>(ovalue);
    if (written)
''', '''    if (!force)
    {
        oldValue = static_cast<int64_t>(ovalue);
    }
    if (written)
''')], ['dbus/dbuswrite.cpp'], '''
#include <sdbusplus/bus.hpp>
#include "dbus/dbuswrite.hpp"
using namespace pid_control;
int main()
{
    DbusWritePercent w("/p", 0, 100, "conn");
    auto n = [] { return sdbusplus::stub::calls().size(); };
    int64_t raw = 0;
    w.write(0.2, false, &raw);
    EXPECT(n() == 1 && raw == 20);
    w.write(0.6, true, &raw); // back from manual mode: forced
    EXPECT(n() == 2 && raw == 60);
    w.write(0.2, false, &raw); // the fan runs at 60: this must go out
    EXPECT(n() == 3 && raw == 20);
    return bad;
}
''', 'a plain write, a forced write of another value, and a return to the first value', 'a forced write is not remembered, so a later change back to the older value is never sent')

seed('s08-acc-name', 'C07', [('pid/zone.cpp', '''        profileName = name.substr(name.find('_') + 1);
''', '''        profileName = name.substr(name.rfind('_') + 1);
''')], ZONE, '''
#include "realzone.hpp"
int main()
{
    RZ::Rig r(1, 0, 75, true);
    for (std::string n : {"PID_Temp_CPU", "Stepwise_Dimm_CPU"}) r.zone->addPidControlProcess(n, "temp", 1, RZ::bus, "/x", false);
    r.zone->addSetPoint(1000, "PID_Temp_CPU");
    r.zone->addSetPoint(500, "Stepwise_Dimm_CPU"); // another profile: must not be added to the first
    EXPECT(r.zone->getMaxSetPointRequest() == 1000);
    return bad;
}
''', 'accumulated set points and two controllers whose profile names differ but end alike', 'set points of different profiles are added up', ['zonestub.hpp', 'realzone.hpp'])

seed('s09-zone-index', 'C17', [('dbus/dbusutil.cpp', '''            if (index == zi.second)
            {
                usedIndex = true;
                break;
            }
''', '''            if (index == zi.second)
            {
                usedIndex = true;
                ++index;
            }
'''), ('dbus/dbusutil.cpp', '''        if (usedIndex)
        {
            ++index;
            continue;
        }
''', '''        if (usedIndex && index < 0)
        {
            continue;
        }
''')], ['dbus/dbusutil.cpp'], '''
#include "dbus/dbusutil.hpp"
using namespace pid_control;
int main()
{
    std::map<std::string, int64_t> z;
    EXPECT(setZoneIndex("a", z, 1) == 1);
    EXPECT(setZoneIndex("b", z, 0) == 0);
    EXPECT(setZoneIndex("c", z, 0) == 2); // 0 and 1 are taken, the taken ones in the other order
    return bad;
}
''', 'three zones whose numbers are taken in an order other than their names', 'a number that is already taken is handed out again')

seed('s10-missing-dup', 'C18', [('util.cpp', '''        if (acceptableSet.find(result.name) != acceptableSet.end())
        {
            result.missingIsAcceptable = true;
        }
''', '''        if (acceptableSet.erase(result.name) != 0)
        {
            result.missingIsAcceptable = true;
        }
''')], ['util.cpp'], '''
#include "util.hpp"
using namespace pid_control;
int main()
{
    auto r = spliceInputs({"a", "b", "a"}, {}, {"a"});
    EXPECT(r.size() == 3 && r[0].missingIsAcceptable && !r[1].missingIsAcceptable && r[2].missingIsAcceptable);
    return bad;
}
''', 'an input named twice in one controller', 'only the first of two equal inputs is acceptable when missing')

seed('s11-redundancy-restore', 'C25', [('dbus/dbuspassiveredundancy.cpp', '''                  failed.insert(data.begin(), data.end());
              }
              else
              {
                  for (const auto& d : data)
                  {
                      failed.erase(d);
                  }
              }
''', '''                  failed.insert(data.begin(), data.end());
              }
              else
              {
                  failed.clear();
              }
''')], ['dbus/dbuspassiveredundancy.cpp'], '''
#include <sdbusplus/bus.hpp>
#include "dbus/dbuspassiveredundancy.hpp"
using namespace pid_control;
int main()
{
    using Set = std::vector<std::string>;
    sdbusplus::bus_t bus;
    Set now;
    sdbusplus::stub::handler() = [&](sdbusplus::message_t& q) {
        sdbusplus::message_t r;
        if (q.d->member == "Get") r.d->payload.push_back(std::variant<Set>(now));
        else throw sdbusplus::exception::SdBusError(5, "none");
        return r;
    };
    DbusPassiveRedundancy r(bus);
    auto send = [&](std::string status, Set paths) {
        now = paths;
        sdbusplus::message_t m;
        m.d->payload.push_back(std::string("xyz.openbmc_project.Control.FanRedundancy"));
        m.d->payload.push_back(std::unordered_map<std::string, std::variant<std::string, Set>>{{"Status", status}});
        sdbusplus::stub::matches().back()->cb(m);
    };
    send("x.Failed", {"/f/0", "/f/1"});
    send("x.Failed", {"/f/7"});
    EXPECT(r.getFailed().size() == 3);
    send("x.Full", {"/f/7"}); // the second group recovers, the first has not
    EXPECT((r.getFailed() == std::set<std::string>{"/f/0", "/f/1"}));
    return bad;
}
''', 'two redundancy groups failed at once, one of which recovers', 'a group that recovers clears the failures of every other group')

seed('s12-availability', 'C26', [('dbus/dbushelper.cpp', '''    bool available = true;
    try
    {
''', '''    bool available = prop->available;
    try
    {
''')], ['dbus/dbushelper.cpp', 'dbus/dbusutil.cpp'], '''
#include <sdbusplus/bus.hpp>
#include "dbus/dbushelper.hpp"
using namespace pid_control;
int main()
{
    sdbusplus::bus_t bus;
    DbusHelper h(bus);
    sdbusplus::stub::handler() = [&](sdbusplus::message_t& q) {
        sdbusplus::message_t r;
        if (q.d->member == "GetAll") r.d->payload.push_back(std::map<std::string, std::variant<int64_t, double, std::string, bool>>{{"Value", 3.0}});
        else throw sdbusplus::exception::SdBusError(5, "no such interface");
        return r;
    };
    SensorProperties p;
    p.available = false; // from an earlier object
    h.getProperties("svc", "/p", &p);
    EXPECT(p.available && p.value == 3.0);
    return bad;
}
''', 'a sensor without the availability interface, asked into properties that were filled before', 'a sensor that says nothing about its availability is not taken as available')

seed('s13-fan-percent', 'C27', [('sensors/builder.cpp', '''                case IOInterfaceType::DBUSACTIVE:
                    if (info->max > 0)
''', '''                case IOInterfaceType::DBUSACTIVE:
                    if (info->max > 0 && info->min != 0)
''')], ['sensors/builder.cpp', 'sensors/build_utils.cpp', 'sensors/manager.cpp', 'sensors/host.cpp', 'sensors/pluggable.cpp', 'dbus/dbuspassive.cpp', 'dbus/dbuspassiveredundancy.cpp',
       'dbus/dbushelper.cpp', 'dbus/dbusutil.cpp', 'dbus/dbuswrite.cpp', 'sysfs/sysfsread.cpp', 'sysfs/sysfswrite.cpp', 'sysfs/util.cpp', 'notimpl/readonly.cpp', 'notimpl/writeonly.cpp',
       'failsafeloggers/failsafe_logger_utility.cpp'], '''
#include <sdbusplus/bus.hpp>
#include "sensors/builder.hpp"
#include "sensors/manager.hpp"
using namespace pid_control;
int main()
{
    sdbusplus::bus_t a, b;
    sdbusplus::stub::handler() = [&](sdbusplus::message_t& q) {
        sdbusplus::message_t r;
        if (q.d->member == "GetObject") r.d->payload.push_back(std::map<std::string, std::vector<std::string>>{{"svc", {"x"}}});
        return r;
    };
    std::map<std::string, conf::SensorConfig> cfg;
    conf::SensorConfig s;
    s.type = "fan";
    s.writePath = "/xyz/openbmc_project/control/fanpwm/f";
    s.min = 0;
    s.max = 255;
    cfg["f"] = s;
    auto m = buildSensors(cfg, a, b);
    sdbusplus::stub::calls().clear();
    m.getSensor("f")->write(0.4);
    auto& c = sdbusplus::stub::calls();
    EXPECT(c.size() == 1 && std::get<0>(std::any_cast<std::variant<uint64_t>>(c.at(0)->args.at(2))) == 102);
    return bad;
}
''', 'a D-Bus fan whose configured minimum is 0', 'its percent command is written unscaled')

seed('s14-log-window', 'C21', [('failsafeloggers/failsafe_logger.cpp', '''           nowMs - _logTimestamps.front() >= secondInMS)
    {
        _logTimestamps.pop_front();
    }
''', '''           nowMs - _logTimestamps.front() >= secondInMS)
    {
        _logTimestamps.pop_front();
        _logsInCurrentState.clear();
    }
''')], ['failsafeloggers/failsafe_logger.cpp'], '''
#include "failsafeloggers/failsafe_logger.hpp"
#include <thread>
using namespace pid_control;
int main()
{
    std::ostringstream o;
    auto* old = std::cerr.rdbuf(o.rdbuf());
    FailsafeLogger l(20, false);
    l.outputFailsafeLog(1, true, "a", "failed");
    l.outputFailsafeLog(1, true, "a", "failed");
    std::this_thread::sleep_for(std::chrono::milliseconds(1200));
    l.outputFailsafeLog(1, true, "a", "failed"); // the same, in the same state
    std::cerr.rdbuf(old);
    std::string s = o.str();
    int n = 0;
    for (size_t p = 0; (p = s.find("is in failsafe mode", p)) != std::string::npos; p++) n++;
    EXPECT(n == 1);
    return bad;
}
''', 'the same message in the same state again, more than a second later', 'a message that was already logged in the current state is logged again')

seed('s15-fan-min', 'C08', [('pid/fancontroller.cpp', '''            if (value <= 0.0)
            {
                continue;
            }
''', '''            if (value <= 0.0)
            {
                values.clear();
                continue;
            }
''')], ['pid/ec/pid.cpp', 'pid/ec/logging.cpp', 'pid/tuning.cpp', 'pid/pidcontroller.cpp', 'pid/fancontroller.cpp', 'pid/util.cpp'], '''
#include "zonestub.hpp"
#include "pid/fancontroller.hpp"
int main()
{
    StubZone z;
    z.cache["a"] = {1, 1000};
    z.cache["b"] = {0, 0}; // does not spin
    z.cache["c"] = {3, 3000};
    auto c = FanController::createFanPid(&z, "f", {"a", "b", "c"}, ec::pidinfo());
    EXPECT(c->inputProc() == 1000);
    return bad;
}
''', 'a stopped fan listed between two that spin, the slowest one first', 'a stopped fan hides the readings of the fans before it', ['zonestub.hpp'])

seed('s16-hysteresis-reset', 'C02', [('pid/pidcontroller.cpp', '''            if (!(std::isfinite(lastInput)))
            {
                lastInput = input;
            }
''', '''            if (std::isnan(lastInput))
            {
                lastInput = input;
            }
''')], ['pid/ec/pid.cpp', 'pid/ec/logging.cpp', 'pid/tuning.cpp', 'pid/pidcontroller.cpp'], '''
#include "zonestub.hpp"
#include "pid/pidcontroller.hpp"
struct P : PIDController
{
    double in = 0, out = 0;
    P(ZoneInterface* z) : PIDController("p", z) {}
    double inputProc() override { return in; }
    double setptProc() override { return 0; }
    void outputProc(double v) override { out = v; }
};
int main()
{
    StubZone z;
    P p(&z);
    auto* i = p.getPIDInfo();
    i->ts = 1;
    i->proportionalCoeff = -1;
    i->outLim = {-1000, 1000};
    i->positiveHysteresis = INFINITY; // never follow upwards
    i->negativeHysteresis = INFINITY;
    p.in = -INFINITY; // a reading gone wrong
    p.process();
    p.in = 30;
    p.process();
    p.process();
    EXPECT(p.out == 30);
    return bad;
}
''', 'an infinite reading followed by good ones, with a wide hysteresis', 'the controller stays stuck on an infinite reading', ['zonestub.hpp'])

CTRL = ['pid/ec/pid.cpp', 'pid/ec/logging.cpp', 'pid/tuning.cpp', 'pid/pidcontroller.cpp', 'pid/util.cpp']
seed('s17-stale-raw', 'C04', [('pid/fancontroller.cpp', '''    for (const auto& it : _inputs)
    {
        auto sensor = _owner->getSensor(it);
        auto redundantWrite = _owner->getRedundantWrite();
        int64_t rawWritten = -1;
''', '''    int64_t rawWritten = -1;
    for (const auto& it : _inputs)
    {
        auto sensor = _owner->getSensor(it);
        auto redundantWrite = _owner->getRedundantWrite();
''')], CTRL + ['pid/fancontroller.cpp'], '''
#include "zonestub.hpp"
#include "pid/fancontroller.hpp"
int main()
{
    StubZone z;
    for (auto n : {"a", "b"}) z.sensors[n] = std::make_unique<StubSensor>(n);
    z.sensors["a"]->report = 77;
    auto c = FanController::createFanPid(&z, "pid", {"a", "b"}, ec::pidinfo());
    c->outputProc(30);
    EXPECT(z.outs.size() == 2 && std::get<2>(z.outs[0]) == 77);
    EXPECT(z.outs.size() == 2 && std::get<2>(z.outs[1]) == -1);
    return bad;
}
''', 'a fan whose writer reports no raw value after one whose writer does', 'the raw value of the previous fan is recorded for a fan that reports none', ['zonestub.hpp'])

seed('s18-margin-zero', 'C09', [('pid/thermalcontroller.cpp', '''                double marginValue = in.convertMarginZero - cachedValue;
''', '''                double marginValue =
                    std::max(0.0, in.convertMarginZero - cachedValue);
''')], CTRL + ['pid/thermalcontroller.cpp', 'util.cpp'], '''
#include "zonestub.hpp"
#include "pid/thermalcontroller.hpp"
int main()
{
    StubZone z;
    z.cache["cpu"] = {95, 95};
    z.cache["dimm"] = {4, 4};
    std::vector<conf::SensorInput> in(2);
    in[0].name = "cpu";
    in[0].convertTempToMargin = true;
    in[0].convertMarginZero = 90;
    in[1].name = "dimm";
    auto c = ThermalController::createThermalPid(&z, "pid", in, 10, ec::pidinfo(), ThermalType::margin);
    EXPECT(c->inputProc() == -5);
    z.cache["cpu"] = {80, 80};
    EXPECT(c->inputProc() == 4);
    return bad;
}
''', 'a converted sensor hotter than its configured zero', 'a margin below zero is reported as no margin, so the controller stops reacting to how far it is exceeded', ['zonestub.hpp'])

seed('s19-fan-unavailable', 'C11', [('dbus/dbuspassive.cpp', '''    if (!_available)
    {
        outputFailsafeLogWithSensor(_id, true, _id,
                                    "The sensor is unavailable.");
        return true;
    }
''', '''    if (!_available && _unavailableAsFailed)
    {
        outputFailsafeLogWithSensor(_id, true, _id,
                                    "The sensor is unavailable.");
        return true;
    }
''')], PASSIVE, '''
#include <sdbusplus/bus.hpp>
#include "dbus/dbuspassive.hpp"
using namespace pid_control;
struct Helper : DbusHelperInterface
{
    std::string getService(const std::string&, const std::string&) override { return "svc"; }
    void getProperties(const std::string&, const std::string&, SensorProperties* p) override { p->value = 5; p->available = false; }
    bool thresholdsAsserted(const std::string&, const std::string&) override { return false; }
};
int main()
{
    sdbusplus::bus_t bus;
    conf::SensorConfig c;
    c.readPath = "/xyz/openbmc_project/sensors/x/a";
    c.unavailableAsFailed = false;
    c.type = "temp";
    auto t = DbusPassive::createDbusPassive(bus, "temp", "a", std::make_unique<Helper>(), &c, nullptr);
    EXPECT(!t->getFailed());
    c.type = "fan"; // a fan that is gone is always a failure
    auto f = DbusPassive::createDbusPassive(bus, "fan", "a", std::make_unique<Helper>(), &c, nullptr);
    EXPECT(f->getFailed());
    return bad;
}
''', 'an unavailable fan configured with unavailable-as-failed off', 'an unavailable fan is not taken as failed')

seed('s20-redundant-stays', 'C14', [('pid/zone.cpp', '''    // If returning to automatic mode, need to restore PWM from PID loop
    if (!mode)
    {
        _redundantWrite = true;
    }
''', '''    // If returning to automatic mode, need to restore PWM from PID loop
    _redundantWrite = !mode;
''')], ZONE, '''
#include "realzone.hpp"
int main()
{
    RZ::Rig r(1, 0, 75);
    r.zone->setManualMode(false);
    EXPECT(r.zone->getRedundantWrite());
    r.zone->setManualMode(true); // before any fan pass took place
    EXPECT(r.zone->getRedundantWrite());
    r.zone->processFans();
    EXPECT(!r.zone->getRedundantWrite());
    return bad;
}
''', 'automatic mode, then manual mode again, with no fan pass in between', 'entering manual mode clears the pending full rewrite', ['zonestub.hpp', 'realzone.hpp'])

seed('s21-stepwise-shared', 'C15', [('pid/buildjson.cpp', '''        for (size_t i = 0; i < ec::maxStepwisePoints; i++)
        {
            c.stepwiseInfo.reading[i] =
                std::numeric_limits<double>::quiet_NaN();
            c.stepwiseInfo.output[i] = std::numeric_limits<double>::quiet_NaN();
        }
''', '''        for (size_t i = 1; i < ec::maxStepwisePoints; i++)
        {
            c.stepwiseInfo.reading[i] =
                std::numeric_limits<double>::quiet_NaN();
            c.stepwiseInfo.output[i] = std::numeric_limits<double>::quiet_NaN();
        }
''')], ['pid/buildjson.cpp', 'util.cpp', 'pid/tuning.cpp'], '''
#include "pid/buildjson.hpp"
#include <nlohmann/json.hpp>
using namespace pid_control;
int main()
{
    auto data = nlohmann::json::parse(R"({"zones":[{"id":1,"minThermalOutput":0,"failsafePercent":75,"pids":[
      {"name":"s","type":"stepwise","inputs":["a"],"setpoint":0,
       "pid":{"samplePeriod":1,"isCeiling":false,"reading":{"1":40,"2":50},"output":{"1":20,"2":60}}}]}]})");
    auto [pids, zones] = buildPIDsFromJson(data);
    auto& i = pids[1]["s"].stepwiseInfo;
    EXPECT(std::isnan(i.reading[0]) && std::isnan(i.output[0]));
    EXPECT(i.reading[1] == 40 && i.output[2] == 60 && std::isnan(i.reading[3]));
    return bad;
}
''', 'a stepwise table whose keys do not begin at "0"', 'a first point that is not set is not NaN')

seed('s22-empty-later-zone', 'C16', [('buildjson/buildjson.cpp', '''        if (zone["pids"].size() == 0)
        {
            throw''', '''        if (zone["pids"].size() == 0 && &zone == &data["zones"].front())
        {
            throw''')], ['buildjson/buildjson.cpp'], '''
#include "buildjson/buildjson.hpp"
#include <nlohmann/json.hpp>
using json = nlohmann::json;
static bool refused(const char* t)
{
    try { validateJson(json::parse(t)); } catch (const std::exception&) { return true; }
    return false;
}
int main()
{
    EXPECT(!refused(R"({"sensors":[{}],"zones":[{"pids":[{}]},{"pids":[{}]}]})"));
    EXPECT(refused(R"({"sensors":[{}],"zones":[{"pids":[]},{"pids":[{}]}]})"));
    EXPECT(refused(R"({"sensors":[{}],"zones":[{"pids":[{}]},{"pids":[]}]})"));
    return bad;
}
''', 'two zones, the second one with an empty pid list', 'an empty pid list is only refused in the first zone')

seed('s23-set-length', 'C19', [('ipmi/manualcmds.cpp', '''    if (*dataLen < sizeof(struct FanCtrlRequestSet))
''', '''    if (*dataLen < offsetof(struct FanCtrlRequestSet, value))
''')], ['ipmi/manualcmds.cpp'], '''
#include "ipmi/control.hpp"
#include "ipmi/manual_messages.hpp"
#include "ipmi/manualcmds.hpp"
using namespace pid_control::ipmi;
static int sets = 0;
struct Ctl : ZoneControlInterface
{
    uint8_t getFanCtrlProperty(uint8_t, bool* v, const std::string&) override { *v = true; return 0; }
    uint8_t setFanCtrlProperty(uint8_t, bool, const std::string&) override { sets++; return 0; }
};
int main()
{
    ZoneControlIpmiHandler h(std::make_unique<Ctl>());
    uint8_t req[3] = {1, 4, 1}, rep[8] = {};
    size_t n = 2; // the value byte is missing
    EXPECT(manualModeControl(&h, 0, req, rep, &n) == 0xC1 && sets == 0);
    n = 3;
    EXPECT(manualModeControl(&h, 0, req, rep, &n) == 0 && sets == 1);
    return bad;
}
''', 'a set request cut off before its value byte', 'a set request without a value changes the mode with whatever byte follows')

seed('s24-interval-fraction', 'C20', [('dbus/dbusconfiguration.cpp', '''        if (tmpAttributeValue >= 1.0)
        {
            value = static_cast<uint64_t>(tmpAttributeValue);
''', '''        if (static_cast<uint64_t>(tmpAttributeValue + 0.5) != 0)
        {
            value = static_cast<uint64_t>(tmpAttributeValue);
''')], ['dbus/dbusconfiguration.cpp', 'dbus/dbushelper.cpp', 'dbus/dbusutil.cpp', 'util.cpp', 'pid/tuning.cpp'], '''
#include <sdbusplus/bus.hpp>
#include <boost/asio/io_context.hpp>
#include "dbus/dbusconfiguration.hpp"
using namespace pid_control;
namespace pid_control { void tryRestartControlLoops(bool) {} }
static const std::string ZONE = "xyz.openbmc_project.Configuration.Pid.Zone";
using Tree = std::unordered_map<std::string, std::unordered_map<std::string, std::vector<std::string>>>;
int main()
{
    sdbusplus::bus_t bus;
    boost::asio::io_context io;
    boost::asio::steady_timer timer(io);
    auto interval = [&](double v) {
        sdbusplus::stub::handler() = [&](sdbusplus::message_t& q) {
            sdbusplus::message_t r;
            static int n = 0;
            if (q.d->member == "GetSubTree") r.d->payload.push_back(n++ % 2 ? Tree{} : Tree{{"/cfg", {{"own", {ZONE, "org.freedesktop.DBus.ObjectManager"}}}}});
            else if (q.d->member == "GetManagedObjects") r.d->payload.push_back(ManagedObjectType{{sdbusplus::object_path("/cfg/z"), {{ZONE, {{"Name", std::string("z")}, {"MinThermalOutput", 1.0}, {"CycleIntervalTimeMS", v}}}}}});
            return r;
        };
        std::map<std::string, conf::SensorConfig> s;
        std::map<int64_t, conf::PIDConf> z;
        std::map<int64_t, conf::ZoneConfig> d;
        dbus_configuration::init(bus, timer, s, z, d);
        return d.size() == 1 ? d.begin()->second.cycleTime.cycleIntervalTimeMS : 12345;
    };
    EXPECT(interval(250.9) == 250);
    EXPECT(interval(0) == 100);
    EXPECT(interval(0.75) == 100); // below one: the default
    return bad;
}
''', 'an interval attribute between 0.5 and 1', 'the fan interval becomes 0 instead of the default')

seed('s25-log-reinit', 'C22', [('pid/ec/logging.cpp', '''    pidLog.lastLog = msNow;
    pidLog.lastContext = coreContext;
''', '''    if (pidLog.lastContext != coreContext)
    {
        pidLog.lastLog = msNow;
    }
    pidLog.lastContext = coreContext;
''')], ['pid/ec/logging.cpp', 'pid/tuning.cpp'], '''
#include "pid/ec/logging.hpp"
#include "pid/ec/pid.hpp"
#include "pid/tuning.hpp"
using namespace pid_control;
using namespace pid_control::ec;
int main()
{
    coreLoggingEnabled = true;
    loggingPath = getenv("SCRATCH");
    pid_info_t p{};
    LogInit("z 1", &p);
    auto* l = LogPeek("z 1");
    PidCoreContext c{};
    c.input = 4;
    using ms = std::chrono::milliseconds;
    for (int t : {1000, 2000, 61000, 62000, 63000, 121000}) LogContext(*l, ms(t), c);
    std::ifstream f(loggingPath + "/pidcore.z1");
    std::vector<std::string> at;
    for (std::string s; std::getline(f, s);) at.push_back(s.substr(0, s.find(',')));
    EXPECT((at == std::vector<std::string>{"epoch_ms", "1000", "61000", "121000"}));
    return bad;
}
''', 'quantities that do not change for more than 60 seconds, then calls less than 60 seconds later', 'after the first minute of unchanged quantities every step is written')

seed('s26-host-state', 'C23', [('hoststatemonitor.hpp', '''        std::cerr << "Failed to handle host state change: " << e.what()
                  << std::endl;
''', '''        std::cerr << "Failed to handle host state change: " << e.what()
                  << std::endl;
        powerStatusOn = false;
''')], [], '''
#include "hoststatemonitor.hpp"
int main()
{
    sdbusplus::bus_t bus;
    sdbusplus::stub::handler() = [&](sdbusplus::message_t&) {
        sdbusplus::message_t r;
        r.d->payload.push_back(std::variant<std::string>("xyz.openbmc_project.State.Host.HostState.Running"));
        return r;
    };
    auto& m = HostStateMonitor::getInstance(bus);
    m.startMonitoring();
    EXPECT(m.isPowerOn());
    sdbusplus::message_t q; // nothing in it that can be read
    sdbusplus::stub::matches().back()->cb(q);
    EXPECT(m.isPowerOn());
    return bad;
}
''', 'a host state signal that cannot be read while the host is on', 'an unreadable signal switches the learned host state off')

seed('s27-failsafe-order', 'C24', [('pid/builder.cpp', '''                zone->addFanPID(std::move(pid));
                zone->addPidFailSafePercent(splitNames(inputs),
                                            info.failSafePercent);
''', '''                zone->addFanPID(std::move(pid));
                if (info.failSafePercent > zoneConf->second.failsafePercent)
                {
                    zone->addPidFailSafePercent(splitNames(inputs),
                                                info.failSafePercent);
                }
''')], ['pid/builder.cpp', 'pid/fancontroller.cpp', 'pid/thermalcontroller.cpp', 'pid/stepwisecontroller.cpp', 'pid/ec/stepwise.cpp', 'util.cpp'] + CTRL + [s for s in ZONE if s != 'pid/tuning.cpp'], '''
#include "realzone.hpp"
#include "pid/builder.hpp"
int main()
{
    SensorManager mgr(RZ::bus, RZ::bus);
    auto s = std::make_unique<StubSensor>("fan0");
    auto* f = s.get();
    mgr.addSensor("fan", "fan0", std::move(s));
    std::map<int64_t, conf::PIDConf> pids;
    conf::ControllerInfo i{};
    i.type = "fan";
    i.inputs.resize(1);
    i.inputs[0].name = "fan0";
    i.failSafePercent = 40; // this fan may run slower than the zone says
    pids[1]["fan"] = i;
    std::map<int64_t, conf::ZoneConfig> details;
    details[1].failsafePercent = 90;
    details[1].minThermalOutput = 0;
    auto zones = buildZones(pids, details, mgr, RZ::bus);
    f->failed = true;
    zones.at(1)->initializeCache();
    zones.at(1)->updateFanTelemetry();
    EXPECT(zones.at(1)->getFailSafePercent() == 40);
    return bad;
}
''', 'a fan controller whose own failsafe percentage is below its zone\'s', 'a lower failsafe percentage of a fan controller is not registered', ['zonestub.hpp', 'realzone.hpp'])

seed('s28-sysfs-kept-open', 'C28', [('sysfs/sysfsread.cpp', '''    std::ifstream ifs;

    ifs.open(_path);
    ifs >> value;
    ifs.close();
''', '''    // opening is what costs most: keep the files open
    static std::map<std::string, std::ifstream> opened;
    std::ifstream& ifs = opened[_path];

    if (ifs.is_open())
    {
        ifs.clear();
        ifs.seekg(0);
    }
    else
    {
        ifs.open(_path);
    }
    ifs >> value;
'''), ('sysfs/sysfsread.cpp', '''#include <iostream>
''', '''#include <iostream>
#include <map>
#include <string>
''')], ['sysfs/sysfsread.cpp', 'sysfs/util.cpp'], '''
#include "sysfs/sysfsread.hpp"
using namespace pid_control;
int main()
{
    std::string p = std::string(getenv("SCRATCH")) + "/fan1_input";
    std::ofstream(p) << "1234\\n";
    SysFsRead r(p);
    EXPECT(r.read().value == 1234);
    std::ofstream(p) << "987\\n"; // another reading
    EXPECT(r.read().value == 987);
    std::filesystem::remove(p); // the driver is bound again
    std::ofstream(p) << "777\\n";
    EXPECT(r.read().value == 777);
    return bad;
}
''', 'the file is removed and created again (its driver is bound anew) between two reads', 'the sensor goes on reporting the number of the file that is gone')

seed('s29-retry-lost', 'C29', [('main.cpp', '''            std::cerr << "Failed during restartControlLoops, try again: "
                      << e.what() << "\\n";
            tryRestartControlLoops(false);
''', '''            std::cerr << "Failed during restartControlLoops, try again: "
                      << e.what() << "\\n";
            if (state::mgmr.has_value())
            {
                // zones hold on to the sensors of the last good build
                state::mgmr.reset();
                tryRestartControlLoops(false);
            }
            else
            {
                tryRestartControlLoops(true);
                io.stop();
            }
''')], ['sensors/manager.cpp', 'pid/tuning.cpp'], '''
#include <CLI/CLI.hpp>
#include <boost/asio.hpp>
#include <nlohmann/json.hpp>
#include "conf.hpp"
#include "sensors/manager.hpp"
#include "zonestub.hpp"
#include "hoststatemonitor.hpp"
#include "buildjson/buildjson.hpp"
#define main swampd_main
#define seconds milliseconds
#include "main.cpp"
#undef main
static int tries = 0, loops = 0;
json parseValidateJson(const std::string&) { return {}; }
namespace pid_control
{
std::map<std::string, conf::SensorConfig> buildSensorsFromJson(const json&) { return {}; }
std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>> buildPIDsFromJson(const json&) { return {}; }
namespace dbus_configuration { bool init(sdbusplus::bus_t&, boost::asio::steady_timer&, std::map<std::string, conf::SensorConfig>&, std::map<int64_t, conf::PIDConf>&, std::map<int64_t, conf::ZoneConfig>&) { return true; } }
SensorManager buildSensors(const std::map<std::string, conf::SensorConfig>&, sdbusplus::bus_t& p, sdbusplus::bus_t& h)
{
    if (++tries < 3) throw std::runtime_error("not on the bus yet");
    return SensorManager(p, h);
}
std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> buildZones(const std::map<int64_t, conf::PIDConf>&, std::map<int64_t, conf::ZoneConfig>&, SensorManager&, sdbusplus::bus_t&)
{
    return {{1, std::make_shared<StubZone>()}};
}
void buildFailsafeLoggers(const std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>>&, const size_t) {}
void pidControlLoop(const std::shared_ptr<ZoneInterface>&, const std::shared_ptr<boost::asio::steady_timer>&, const bool*, bool, uint64_t) { loops++; }
}
int main()
{
    configPath = "/";
    pid_control::tryRestartControlLoops(true);
    io.run_for(std::chrono::milliseconds(2000));
    EXPECT(tries == 3 && loops == 1);
    return bad;
}
''', 'sensors that cannot be built on the first two attempts after start', 'a failed first build is not retried: the daemon ends', ['zonestub.hpp'])

seed('s30-name-suffix', 'C30', [('dbus/dbusutil.cpp', '''    std::regex reg('/' + search + '$');
''', '''    std::regex reg(search + '$');
''')], ['dbus/dbusutil.cpp'], '''
#include "dbus/dbusutil.hpp"
using namespace pid_control;
int main()
{
    std::unordered_map<std::string, std::string> s{{"/xyz/openbmc_project/sensors/temperature/inlet", "a"}, {"/xyz/openbmc_project/sensors/temperature/cpu_inlet", "b"}};
    std::vector<std::pair<std::string, std::string>> m;
    EXPECT(findSensors(s, "inlet", m));
    EXPECT(m.size() == 1 && m[0].first.ends_with("/inlet"));
    return bad;
}
''', 'two sensors of which one has a name that ends in the other\'s', 'an input is resolved to sensors whose names merely end in the name asked for')

seed('s31-torn-read', 'C31', [('dbus/dbuspassive.cpp', '''    std::lock_guard<std::mutex> guard(_lock);

    ReadReturn r = {_value, _updated, _unscaled};

    return r;
''', '''    ReadReturn r;
    {
        std::lock_guard<std::mutex> guard(_lock);
        r = {_value, _updated, 0};
    }
    std::lock_guard<std::mutex> guard(_lock);
    r.unscaled = _unscaled;

    return r;
''')], PASSIVE, '''
#include <sdbusplus/bus.hpp>
#include <atomic>
#include <thread>
#include "dbus/dbuspassive.hpp"
using namespace pid_control;
struct Helper : DbusHelperInterface
{
    std::string getService(const std::string&, const std::string&) override { return "svc"; }
    void getProperties(const std::string&, const std::string&, SensorProperties* p) override { p->value = 5; p->available = true; }
    bool thresholdsAsserted(const std::string&, const std::string&) override { return false; }
};
int main()
{
    sdbusplus::bus_t bus;
    conf::SensorConfig c;
    c.type = "temp";
    c.readPath = "/xyz/openbmc_project/sensors/temperature/a";
    auto p = DbusPassive::createDbusPassive(bus, "temp", "a", std::make_unique<Helper>(), &c, nullptr);
    auto* d = dynamic_cast<DbusPassive*>(p.get());
    d->setValue(1, 1);
    std::atomic<bool> stop = false;
    std::thread w([&] { for (double v = 0; !stop; v += 1) d->setValue(v, v); });
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(3);
    long torn = 0;
    while (std::chrono::steady_clock::now() < end) { auto r = d->read(); torn += r.value != r.unscaled; }
    stop = true;
    w.join();
    EXPECT(torn == 0);
    return bad;
}
''', 'an update that arrives between the two halves of a read', 'a reading mixes the scaled value of one update with the unscaled value of another')

seed('s32-row-of-known-fans', 'C32', [('pid/zone.cpp', '''    for (const auto& f : _fanInputs)
    {
        _log << "," << f << "," << f << "_raw";
        _log << "," << f << "_pwm," << f << "_pwm_raw";
    }
    for (const auto& t : _thermalInputs)
    {
        _log << "," << t << "," << t << "_raw";
    }
''', '''    const std::set<std::string> fans(_fanInputs.begin(), _fanInputs.end());
    for (const auto& f : fans)
    {
        _log << "," << f << "," << f << "_raw";
        _log << "," << f << "_pwm," << f << "_pwm_raw";
    }
    for (const auto& t : _thermalInputs)
    {
        _log << "," << t << "," << t << "_raw";
    }
'''), ('pid/zone.cpp', '#include <string>\n', '#include <set>\n#include <string>\n')], ZONE, '''
#include "realzone.hpp"
int main()
{
    loggingEnabled = true;
    loggingPath = std::getenv("SCRATCH");
    {
        RZ::Rig r(1);
        for (auto n : {"fan2", "fan1"}) r.sensor(n), r.zone->addFanInput(n, false);
        r.zone->initializeLog();
    }
    std::ifstream f(loggingPath + "/zone_1.log");
    std::string h;
    std::getline(f, h);
    EXPECT(h.find("fan2,fan2_raw") < h.find("fan1,fan1_raw"));
    return bad;
}
''', 'a zone whose fans are not configured in alphabetical order', 'the columns named in the header are not those of the rows', ['zonestub.hpp', 'realzone.hpp'])

seed('s33-reload-not-pushed-back', 'C33', [('dbus/dbusconfiguration.cpp', """    // do a brief sleep as we tend to get a bunch of these events at
    // once
    timer->expires_after""", """    if (timer->expiry() > std::chrono::steady_clock::now())
    {
        // a reload is due already
        return 1;
    }

    // do a brief sleep as we tend to get a bunch of these events at
    // once
    timer->expires_after""")], ['dbus/dbusconfiguration.cpp', 'dbus/dbushelper.cpp', 'dbus/dbusutil.cpp', 'util.cpp', 'pid/tuning.cpp'], """
#include <sdbusplus/bus.hpp>
#include <sdbusplus/bus/match.hpp>
#include <boost/asio/error.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/steady_timer.hpp>
#include <thread>
#include "dbus/dbusconfiguration.hpp"
static int reloads = 0;
namespace pid_control { void tryRestartControlLoops(bool) { reloads++; } }
using namespace std::chrono;
int main()
{
    boost::asio::io_context io;
    boost::asio::steady_timer timer(io);
    sdbusplus::bus_t bus;
    std::map<std::string, pid_control::conf::SensorConfig> s;
    std::map<int64_t, pid_control::conf::PIDConf> z;
    std::map<int64_t, pid_control::conf::ZoneConfig> d;
    sdbusplus::stub::handler() = [](sdbusplus::message_t&) -> sdbusplus::message_t { throw sdbusplus::exception::SdBusError(5, "stub"); };
    try { pid_control::dbus_configuration::init(bus, timer, s, z, d); } catch (const std::exception&) {}
    auto signal = [&] {
        auto r = sdbusplus::stub::matches().front();
        sdbusplus::message_t m;
        m.d->member = "PropertiesChanged";
        if (r->cb) { r->cb(m); return; }
        sdbusplus::stub::SdMsg x{m.d};
        r->raw(reinterpret_cast<sd_bus_message*>(&x), r->ctx, nullptr);
    };
    signal();
    std::this_thread::sleep_for(milliseconds(300));
    auto last = steady_clock::now();
    signal();
    EXPECT(timer.expiry() >= last + seconds(2));
    io.run();
    EXPECT(reloads == 1 && steady_clock::now() >= last + seconds(2));
    return bad;
}
""", 'a second configuration signal while a reload is already due', 'a burst of signals is reloaded two seconds after its first signal, while it may still go on, rather than after its last')

seed('s34-source-remembered', 'C34', [('main.cpp', """    const std::filesystem::path path =
        (!configPath.empty())""", """    static const std::filesystem::path path =
        (!configPath.empty())""")], ['pid/tuning.cpp', 'sensors/manager.cpp', 'dbus/dbusutil.cpp'], """
#include <fcntl.h>
#include <nlohmann/json.hpp>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "zonestub.hpp"
#include "sensors/manager.hpp"
#define main swampd_main
#include "main.cpp"
#undef main
static std::string used, top;
// /var/lib and /usr/share are looked for in the scratch folder
extern "C" int stat(const char* p, struct stat* s) noexcept
{
    std::string q = p;
    if (!top.empty() && (q.starts_with("/var/lib/swampd") || q.starts_with("/usr/share/swampd"))) q = top + q;
    return (int)syscall(SYS_newfstatat, AT_FDCWD, q.c_str(), s, 0);
}
static void put(const std::string& f)
{
    std::filesystem::create_directories(std::filesystem::path(f).parent_path());
    std::ofstream(f) << "{}";
}
json parseValidateJson(const std::string& path) { used = path; return json(1); }
namespace pid_control
{
std::map<std::string, conf::SensorConfig> buildSensorsFromJson(const json&) { return {}; }
std::pair<std::map<int64_t, conf::PIDConf>, std::map<int64_t, conf::ZoneConfig>> buildPIDsFromJson(const json&) { return {}; }
namespace dbus_configuration
{
bool init(sdbusplus::bus_t&, boost::asio::steady_timer&, std::map<std::string, conf::SensorConfig>&, std::map<int64_t, conf::PIDConf>&, std::map<int64_t, conf::ZoneConfig>&)
{
    used = "bus";
    return false;
}
}
SensorManager buildSensors(const std::map<std::string, conf::SensorConfig>&, sdbusplus::bus_t& p, sdbusplus::bus_t& h) { return SensorManager(p, h); }
std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>> buildZones(const std::map<int64_t, conf::PIDConf>&, std::map<int64_t, conf::ZoneConfig>&, SensorManager&, sdbusplus::bus_t&)
{
    return {{1, std::make_shared<StubZone>()}};
}
void pidControlLoop(const std::shared_ptr<ZoneInterface>&, const std::shared_ptr<boost::asio::steady_timer>&, const bool*, bool, uint64_t) {}
void buildFailsafeLoggers(const std::unordered_map<int64_t, std::shared_ptr<ZoneInterface>>&, const size_t) {}
}
int main()
{
    std::filesystem::path base = std::getenv("SCRATCH");
    std::filesystem::create_directories(base / "cwd");
    std::filesystem::current_path(base / "cwd");
    top = base;
    put(top + "/usr/share/swampd/config.json");
    pid_control::restartControlLoops();
    EXPECT(used == "/usr/share/swampd/config.json");
    put(top + "/var/lib/swampd/config.json"); // an override of the shipped configuration, then a reload
    pid_control::restartControlLoops();
    EXPECT(used == "/var/lib/swampd/config.json");
    std::fflush(stdout);
    _exit(bad);
}
""", 'a reload after a configuration file of higher precedence has appeared', 'a reload uses the file found at start-up: one installed later that takes precedence is ignored', ['zonestub.hpp'])

seed('s35-first-input-not-shown', 'C35', [('pid/thermalcontroller.cpp', """        if (oldValue != value)
        {
            leaderName = in.name;
            _owner->updateThermalPowerDebugInterface(_id, leaderName, value, 0);
        }
""", """        if (oldValue != value)
        {
            if (leaderName != in.name || doSummation)
            {
                _owner->updateThermalPowerDebugInterface(_id, in.name, value,
                                                         0);
            }
            leaderName = in.name;
        }
""")], ['pid/ec/pid.cpp', 'pid/ec/logging.cpp', 'pid/pidcontroller.cpp', 'pid/thermalcontroller.cpp', 'pid/util.cpp'] + ZONE, """
#include "realzone.hpp"
#include "pid/thermalcontroller.hpp"
using Panel = sdbusplus::xyz::openbmc_project::Debug::Pid::server::ThermalPower;
int main()
{
    RZ::Rig r;
    std::vector<conf::SensorInput> ins(2);
    ins[0].name = "cpu0", ins[1].name = "cpu1";
    for (auto& i : ins) r.sensor(i.name), r.zone->addThermalInput(i.name, false);
    r.zone->initializeCache();
    r.zone->addPidControlProcess("p", "temp", 30, RZ::bus, "/p", false);
    auto c = ThermalController::createThermalPid(r.zone.get(), "p", ins, 30, ec::pidinfo{}, getThermalType("temp"));
    auto run = [&](double a, double b) {
        r.sensors["cpu0"]->rd.value = a, r.sensors["cpu1"]->rd.value = b;
        r.zone->updateSensors();
        return c->inputProc();
    };
    auto* p = dynamic_cast<Panel*>(ProcessInterface::live()["/p"]);
    EXPECT(run(40, 50) == 50 && p->leader() == "cpu1" && p->input() == 50);
    EXPECT(run(60, 50) == 60 && p->leader() == "cpu0" && p->input() == 60);
    return bad;
}
""", 'the first input of a controller that has the decisive value', 'the control process goes on showing an earlier leader and input when the first input decides', ['zonestub.hpp', 'realzone.hpp'])

CONFIG = ['dbus/dbusconfiguration.cpp', 'dbus/dbushelper.cpp', 'dbus/dbusutil.cpp', 'util.cpp', 'pid/tuning.cpp']
seed('s36-sensors-of-the-zone-before', 'C30', [('dbus/dbusconfiguration.cpp', '''                std::get<std::vector<std::string>>(base.at("Zones"));
            for (const std::string& zone : zones)
            {
                auto index = getZoneIndex(zone, foundZones);

                conf::PIDConf& conf = zoneConfig[index];
                std::vector<std::string> inputSensorNames(
''', '''                std::get<std::vector<std::string>>(base.at("Zones"));
            std::vector<std::string> archivedInputSensorNames;
            for (const std::string& zone : zones)
            {
                auto index = getZoneIndex(zone, foundZones);

                conf::PIDConf& conf = zoneConfig[index];
                std::vector<std::string> inputSensorNames(
'''), ('dbus/dbusconfiguration.cpp', '''                std::vector<std::string> archivedInputSensorNames;

                auto findMissing''', '''
                auto findMissing''')], CONFIG, '''
#include <sdbusplus/bus.hpp>
#include "dbus/dbusconfiguration.hpp"
#include <boost/asio/io_context.hpp>
using namespace pid_control;
namespace pid_control { void tryRestartControlLoops(bool) {} }
using V = DbusVariantType;
using Names = std::vector<std::string>;
using Attrs = std::unordered_map<std::string, V>;
using Tree = std::unordered_map<std::string, std::unordered_map<std::string, Names>>;
int main()
{
    const std::string CFG = "xyz.openbmc_project.Configuration.Pid", P = "/xyz/openbmc_project/sensors/temperature/inlet";
    sdbusplus::bus_t bus;
    boost::asio::io_context io;
    boost::asio::steady_timer timer(io);
    Attrs c{{"Name", std::string("c")}, {"Class", std::string("temp")}, {"Zones", Names{"left", "right"}}, {"Inputs", Names{"inlet"}}};
    for (auto k : {"SetPoint", "PCoefficient", "ICoefficient", "FFOffCoefficient", "FFGainCoefficient", "ILimitMax", "ILimitMin", "OutLimitMax", "OutLimitMin", "SlewNeg", "SlewPos"}) c[k] = 1.0;
    ManagedObjectType m;
    m[sdbusplus::object_path("/c")][CFG] = c;
    m[sdbusplus::object_path("/l")][CFG + ".Zone"] = {{"Name", std::string("left")}, {"MinThermalOutput", 10.0}};
    m[sdbusplus::object_path("/r")][CFG + ".Zone"] = {{"Name", std::string("right")}, {"MinThermalOutput", 20.0}};
    Tree t;
    t["/em"]["em"] = {"org.freedesktop.DBus.ObjectManager"};
    t["/c"]["em"] = {CFG};
    t["/l"]["em"] = t["/r"]["em"] = {CFG + ".Zone"};
    t[P]["s"] = {"xyz.openbmc_project.Sensor.Value"};
    sdbusplus::stub::handler() = [&](sdbusplus::message_t& q) {
        sdbusplus::message_t r;
        if (q.d->member == "GetSubTree") r.d->payload.push_back(t);
        else if (q.d->member == "GetManagedObjects") r.d->payload.push_back(m);
        else if (q.d->member == "Get") r.d->payload.push_back(std::variant<std::string>("none"));
        return r;
    };
    std::map<std::string, conf::SensorConfig> s;
    std::map<int64_t, conf::PIDConf> z;
    std::map<int64_t, conf::ZoneConfig> d;
    EXPECT(dbus_configuration::init(bus, timer, s, z, d) || true);
    EXPECT(z.size() == 2);
    for (auto& [i, p] : z) EXPECT(p.size() == 1 && p.begin()->second.inputs.size() == 1);
    return bad;
}
''', 'a controller that is configured for two zones', 'in the second zone the controller reads each of its inputs once more for every zone before')

seed('s37-row-before-the-slew', 'C22', [('pid/ec/pid.cpp', '''    coreContext.output2 = output;
''', '''    coreContext.output2 = output;
    coreContext.integralTerm3 = integralTerm;
'''), ('pid/ec/pid.cpp', '''    coreContext.output3 = output;
    coreContext.integralTerm3 = integralTerm;
''', '''    coreContext.output3 = output;
''')], ['pid/ec/pid.cpp', 'pid/ec/logging.cpp', 'pid/tuning.cpp'], '''
#include <fstream>
#include <sstream>
#include "pid/ec/pid.hpp"
#include "pid/ec/logging.hpp"
#include "pid/tuning.hpp"
using namespace pid_control;
int main()
{
    coreLoggingEnabled = true;
    loggingPath = getenv("SCRATCH");
    ec::pid_info_t p{};
    p.ts = 1; p.proportionalCoeff = 1; p.integralCoeff = 1; p.feedFwdGain = 1;
    p.integralLimit = {-100, 100}; p.outLim = {-1000, 1000}; p.slewPos = 5;
    std::string n = "p", l, f;
    ec::pid(&p, 10, 12, &n);
    double o = ec::pid(&p, 10, 20, &n); // limited by the slew rate
    std::ifstream in(loggingPath + "/pidcore.p");
    while (std::getline(in, f)) l = f;
    std::stringstream row(l);
    std::vector<double> v;
    while (std::getline(row, f, ',')) v.push_back(std::stod(f));
    EXPECT(v.size() == 17);
    EXPECT(v.size() == 17 && v[16] == o && v[13] == o - v[4]); // the integral term that the limited output stands for
    return bad;
}
''', 'a step whose output the slew rate limits, with core logging on', 'the logged integral term is not the one that the step went on with')
