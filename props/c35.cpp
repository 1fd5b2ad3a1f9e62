// C35: the setsensor command takes zone 1 over and feeds the host's sensor.
#include "busworld.hpp"

#include "conf.hpp"
#include "pid/zone.hpp"
#include "sensors/host.hpp"
#include "sensors/manager.hpp"

#include <sys/mman.h>
#include <unistd.h>

#define main setsensor_main
#include "setsensor.cpp"
#undef main

namespace pid_control
{
void tryRestartControlLoops(bool) {}
} // namespace pid_control

namespace
{
using namespace pid_control;

const std::string kFan = "xyz.openbmc_project.State.FanCtrl", kHost = "xyz.openbmc_project.Hwmon.external";
const std::string kZones = "/xyz/openbmc_project/settings/fanctrl/zone", kExt = "/xyz/openbmc_project/extsensors/";

// What is printed meanwhile
struct Heard
{
    int fd, old;
    Heard() : fd(memfd_create("err", 0)), old(dup(2))
    {
        fflush(stderr);
        dup2(fd, 2);
    }
    std::string text()
    {
        fflush(stderr);
        std::string r;
        char b[4096];
        lseek(fd, 0, SEEK_SET);
        for (ssize_t n; (n = ::read(fd, b, sizeof b)) > 0;)
            r.append(b, static_cast<size_t>(n));
        return r;
    }
    ~Heard()
    {
        fflush(stderr);
        dup2(old, 2);
        close(old);
        close(fd);
    }
};

PBT(command, 6000, 150000, "both writes were possible, or one of them was not")
{
    sim::fabric().reset();
    auto bus = sdbusplus::bus::new_default();
    bool fanUp = s.b(90), hostUp = s.b(90), failMode = s.b(12), failValue = s.b(12);
    if (fanUp)
        sim::fabric().ownedNames.insert(kFan);
    if (hostUp)
        sim::fabric().ownedNames.insert(kHost);
    Heard ear;
    SensorManager mgr(bus, bus);
    std::map<int64_t, std::unique_ptr<DbusPidZone>> zones;
    std::map<int64_t, bool> manual;
    for (int64_t id : {0, 1, 2, 10, 11, 127})
        if (s.b(id == 1 ? 85 : 50))
        {
            zones[id] = std::make_unique<DbusPidZone>(id, 0, 75, conf::CycleTime{}, mgr, bus, (kZones + std::to_string(id)).c_str(), false, false);
            manual[id] = s.b(30);
            zones[id]->manual(manual[id]);
            c.note("zone ", id, manual[id] ? " manual" : "");
        }
    std::map<std::string, std::unique_ptr<Sensor>> sensors;
    std::map<std::string, double> value;
    for (std::string n : {"margin/sluggish0", "margin/sluggish1", "margin/sluggish", "temperature/sluggish0"})
        if (s.b(n == "margin/sluggish0" ? 85 : 40))
        {
            sensors[n] = HostSensor::createTemp(n, s.i(0, 3), bus, (kExt + n).c_str(), true, false);
            value[n] = s.q(-20, 400, 4);
            auto r = sim::setProp(kHost, kExt + n, bw::VALUE, "Value", sim::mk(value[n]));
            if (!hostUp)
                value[n] = 0;
            pbt::require(r.ok == hostUp, "a value written to ", n);
            c.note("sensor ", n, " ", value[n]);
        }
    c.note(fanUp ? "" : "no fan control ", hostUp ? "" : "no host sensors ", failMode ? "mode write fails " : "", failValue ? "value write fails" : "");
    int others = 0;
    sim::fabric().onCall = [&](sim::Msg& m) -> sim::Reply {
        bool set = m.iface == bw::PROPS && m.member == "Set";
        if (set && ((m.dest == kFan && failMode) || (m.dest == kHost && failValue)))
            return sim::fail("org.freedesktop.DBus.Error.NoReply");
        others += !set && m.iface != bw::PROPS;
        if (!sim::fabric().ownedNames.count(m.dest))
            return sim::fail("org.freedesktop.DBus.Error.ServiceUnknown", m.dest);
        return sim::fabric().callLocal(m);
    };
    char name[] = "setsensor", *argv[] = {name, nullptr};
    int rc = setsensor_main(1, argv);
    std::string said = ear.text();
    bool modeOk = fanUp && !failMode && zones.count(1), valueOk = hostUp && !failValue && sensors.count("margin/sluggish0");
    for (auto& [id, z] : zones)
    {
        bool want = manual[id] || (id == 1 && modeOk);
        pbt::require(z->getManualMode() == want, "zone ", id, " is ", want ? "not " : "", "in manual mode");
        pbt::require(sim::getProp(kFan, kZones + std::to_string(id), "xyz.openbmc_project.Control.Mode", "Manual").value_or(sim::mk(want)).u == want, "zone ", id, " shows the other mode");
    }
    for (auto& [n, x] : sensors)
    {
        double want = n == "margin/sluggish0" && valueOk ? 300 : value[n];
        pbt::require(x->read().value == want, "sensor ", n, " reads ", x->read().value, " instead of ", want);
    }
    pbt::require(others == 0, "it makes other calls");
    auto result = [&](const std::string& what) {
        size_t a = said.find("Set the " + what);
        pbt::require(a != std::string::npos, "nothing is said of the ", what);
        auto line = said.substr(a, said.find('\n', a) - a);
        return line.find("succeeded") != std::string::npos;
    };
    pbt::require(result("manual mode") == modeOk, "it says the opposite of the manual mode");
    pbt::require(result("host sensor value") == valueOk, "it says the opposite of the value");
    pbt::require(rc == 0 || !modeOk || !valueOk, "the command ends with ", rc);
    if (modeOk && valueOk)
        c.label("both");
    c.nontrivial((modeOk && valueOk) || modeOk != valueOk);
    zones.clear();
    sensors.clear();
    sim::fabric().reset();
}
} // namespace
