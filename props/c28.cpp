// C28: a configured path selects the right interface and the real device file.
#include "engine.hpp"
#include "sensors/build_utils.hpp"

#include <sys/stat.h>
#include <unistd.h>

#include <filesystem>
#include <fstream>

#include "sysfs/sysfsread.hpp"
#include "sysfs/sysfswrite.hpp"

using namespace pid_control;
namespace fs = std::filesystem;

namespace pid_control
{
std::string FixupPath(std::string original);
}

static std::string nameOf(IOInterfaceType t)
{
    switch (t)
    {
        case IOInterfaceType::NONE: return "none";
        case IOInterfaceType::EXTERNAL: return "external";
        case IOInterfaceType::DBUSPASSIVE: return "passive";
        case IOInterfaceType::DBUSACTIVE: return "active";
        case IOInterfaceType::SYSFS: return "sysfs";
        default: return "unknown";
    }
}

PBT(selection, 1000000, 20000000, "the path contained one of the deciding components")
{
    static const std::vector<std::string> parts{"/xyz/openbmc_project/extsensors/", "/xyz/openbmc_project/", "/sys/", "/xyz/openbmc_project", "None", "/sys",
                                                "sys/", "/XYZ/openbmc_project/", "temperature/t0", "fan_tach/", "hwmon/**/pwm1", "/", "x", " ", "none", "/proc/"};
    std::string p;
    int n = static_cast<int>(s.w({2, 5, 4, 2}));
    for (int k = 0; k < n; ++k)
        p += s.pick(parts);
    c.note('"', p, '"');
    auto has = [&](const char* x) { return p.find(x) != std::string::npos; };
    std::string r = p.empty() || p == "None" ? "none" : has("/xyz/openbmc_project/extsensors/") ? "external" : has("/xyz/openbmc_project/") ? "passive"
                    : has("/sys/")                                                                ? "sysfs"
                                                                                                  : "unknown";
    std::string w = p.empty() || p == "None" ? "none" : has("/sys/") ? "sysfs" : has("/xyz/openbmc_project/") ? "active" : "unknown";
    c.nontrivial(r != "unknown");
    auto gr = nameOf(getReadInterfaceType(p)), gw = nameOf(getWriteInterfaceType(p));
    pbt::require(gr == r, "\"", p, "\" is read as ", gr, " instead of ", r);
    pbt::require(gw == w, "\"", p, "\" is written as ", gw, " instead of ", w);
    c.label("read " + r);
    c.label("write " + w);
}

PBT(device, 40000, 600000, "a wildcard path resolved to a device whose file was read or written")
{
    std::string root = pbt::scratch() + "/t/sys/class/x" + std::to_string(s.i(0, 3));
    fs::remove_all(pbt::scratch() + "/t");
    fs::create_directories(root);
    bool wild = s.b(70), present = s.b(85);
    std::string dir = s.pick(std::vector<std::string>{"hwmon0", "hwmon12", "hwmon-a", "h w"}), file = s.pick(std::vector<std::string>{"pwm1", "fan1_input", "sub/pwm2"});
    if (present)
    {
        fs::create_directories(fs::path(root + "/" + dir + "/" + file).parent_path());
        std::ofstream(root + "/" + dir + "/" + file) << "0";
    }
    std::string configured = wild ? root + "/**/" + file : root + "/" + dir + "/" + file;
    if (!wild && s.b(25))
        configured = root + s.pick(std::vector<std::string>{"/*/", "/a*b/", "/"}) + file;
    std::string want = wild && present ? root + "/" + dir + "/" + file : configured;
    c.note(configured, " -> ", want);
    auto got = FixupPath(configured);
    auto norm = [](const std::string& p) { return fs::path(p).lexically_normal().string(); };
    pbt::require(norm(got) == norm(want), configured, " resolved to ", got, " instead of ", want);
    if (!present || want != root + "/" + dir + "/" + file)
        return;
    c.nontrivial(wild);
    // The device file itself is what is read and written.
    int64_t v = s.b(80) ? s.i(0, 20000) : -s.i(0, 100);
    bool nl = s.b(80);
    std::ofstream(want, std::ios::trunc) << v << (nl ? "\n" : "");
    SysFsRead rd(configured);
    auto r = rd.read();
    pbt::require(r.value == static_cast<double>(v), "read ", r.value, " from a file holding ", v);
    int64_t lo = s.i(0, 50), hi = lo + s.i(1, 300);
    double out = s.q(0, 1, 64);
    bool pct = s.b(50);
    double raw = s.q(0, 300, 4);
    if (pct)
    {
        SysFsWritePercent wr(configured, lo, hi);
        wr.write(out);
    }
    else
    {
        SysFsWrite wr(configured, lo, hi);
        wr.write(raw);
    }
    std::ifstream f(want);
    int64_t back = -1;
    f >> back;
    double exact = pct ? lo + out * (hi - lo) : raw;
    pbt::require(back == static_cast<int64_t>(exact), "the file holds ", back, " after ", pct ? "a percentage" : "a value", " meaning ", exact);
}
