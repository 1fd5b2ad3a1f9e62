// C21: the IPMI command answers exactly the zone asked, or an error.
#include "busworld.hpp"

#include <ipmid/oemrouter.hpp>

using namespace bw;

namespace
{
const std::string MODE = "xyz.openbmc_project.Control.Mode";
const std::string SVC = "xyz.openbmc_project.State.FanCtrl";
std::string zonePath(int z)
{
    return "/xyz/openbmc_project/settings/fanctrl/zone" + std::to_string(z);
}
} // namespace

PBT(requests, 90000, 3000000, "a well-formed request reached a zone, or a malformed or faulted one was refused")
{
    World w;
    sim::fabric().reset();
    w.install();
    auto& hs = oem::mutableRouter()->handlers;
    auto h = hs.find({oem::obmcOemNumber, oem::fanManualCmd});
    pbt::require(h != hs.end(), "the OEM fan command is not registered");

    struct Zone
    {
        bool manual = false, failsafe = false;
    };
    std::map<int, Zone> zones;
    int n = static_cast<int>(s.i(1, 5));
    for (int k = 0; k < n; ++k)
        zones[s.b(60) ? static_cast<int>(s.i(0, 4)) : s.b(50) ? static_cast<int>(s.i(5, 127)) : static_cast<int>(s.i(128, 255))] = {s.b(50), s.b(50)};
    for (auto& [id, z] : zones)
    {
        auto& o = w.add(zonePath(id), SVC);
        o.ifaces[MODE]["Manual"] = mk(z.manual);
        o.ifaces[MODE]["FailSafe"] = mk(z.failsafe);
    }
    // Something else with the same interface that must never be touched.
    auto& decoy = w.add("/xyz/openbmc_project/settings/fanctrl/zone-1", "xyz.openbmc_project.Other");
    decoy.ifaces[MODE]["Manual"] = mk(false);
    decoy.ifaces[MODE]["FailSafe"] = mk(true);

    int faulty = 0;
    w.fault = [&](Msg&) -> std::optional<Reply> {
        switch (faulty)
        {
            case 1: return sim::fail("local.send", "not connected");
            case 2: return sim::fail("org.freedesktop.DBus.Error.NoReply", "timeout");
            default: return std::nullopt;
        }
    };
    int steps = static_cast<int>(s.i(1, 6));
    for (int k = 0; k < steps; ++k)
    {
        std::vector<uint8_t> req;
        size_t len;
        if (s.b(80))
        {
            uint8_t sub = static_cast<uint8_t>(s.w({4, 4, 4, 1}));
            if (sub == 3)
                sub = static_cast<uint8_t>(s.i(3, 255));
            int zone = s.b(85) ? std::next(zones.begin(), s.draw(zones.size()))->first : static_cast<int>(s.i(0, 255));
            req = {sub, static_cast<uint8_t>(zone)};
            if (sub == 1 ? s.b(85) : s.b(20))
                req.push_back(s.b(80) ? static_cast<uint8_t>(s.i(0, 1)) : static_cast<uint8_t>(s.i(0, 255)));
            int extra = s.b(10) ? static_cast<int>(s.i(1, 4)) : 0;
            for (int e = 0; e < extra; ++e)
                req.push_back(static_cast<uint8_t>(s.i(0, 255)));
        }
        else
        {
            len = s.i(0, 4);
            for (size_t e = 0; e < len; ++e)
                req.push_back(static_cast<uint8_t>(s.b(50) ? s.i(0, 3) : s.i(0, 255)));
        }
        len = req.size();
        faulty = s.b(12) ? static_cast<int>(s.i(1, 2)) : 0;

        // Exact-size heap buffers: any access outside them is caught.
        std::vector<uint8_t> exact(req.begin(), req.end());
        exact.shrink_to_fit();
        uint8_t* in = new uint8_t[len ? len : 1];
        std::copy(req.begin(), req.end(), in);
        uint8_t* heapReq = in;
        uint8_t* tight = static_cast<uint8_t*>(malloc(len));
        std::copy(req.begin(), req.end(), tight);
        uint8_t* reply = static_cast<uint8_t*>(malloc(1));
        *reply = 0xEE;
        size_t dataLen = len;
        w.sets.clear();
        uint8_t rc = h->second(oem::fanManualCmd, tight, reply, &dataLen);
        uint8_t out = *reply;
        free(tight);
        free(reply);
        delete[] heapReq;

        std::string txt;
        for (auto b : req)
            txt += " " + std::to_string(b);
        c.note("request", txt, faulty ? " (fault)" : "", " -> ", static_cast<int>(rc), " len ", dataLen, " byte ", static_cast<int>(out));

        bool isGet = len >= 2 && (req[0] == 0 || req[0] == 2), isSet = len >= 3 && req[0] == 1;
        if (!isGet && !isSet)
        {
            pbt::require(rc != 0, "malformed request", txt, " answered with success");
            pbt::require(w.sets.empty(), "malformed request", txt, " set a property");
            c.nontrivial();
            c.label("malformed");
            continue;
        }
        int id = req[1];
        auto z = zones.find(id);
        if (isGet)
        {
            pbt::require(w.sets.empty(), "a read set a property");
            if (faulty || z == zones.end())
            {
                pbt::require(rc != 0, "request", txt, " answered with success", faulty ? " although the bus failed" : " for a zone that does not exist");
                c.nontrivial();
                c.label(faulty ? "get, bus failed" : "get, no such zone");
                continue;
            }
            bool want = req[0] == 0 ? z->second.manual : z->second.failsafe;
            pbt::require(rc == 0, "request", txt, " failed with ", static_cast<int>(rc));
            pbt::require(dataLen == 1, "request", txt, " answered with ", dataLen, " bytes");
            pbt::require(out == (want ? 1 : 0), "request", txt, " answered ", static_cast<int>(out), " for ", want);
            c.nontrivial();
            c.label(id >= 128 ? "get, zone of 128 or more" : "get");
            continue;
        }
        bool to = req[2] != 0;
        if (faulty == 1)
            pbt::require(rc != 0, "request", txt, " answered with success although it could not be sent");
        if (z == zones.end() || faulty)
        {
            pbt::require(w.sets.empty(), "request", txt, " set ", w.sets.empty() ? "" : w.sets[0].path);
            c.label("set, no effect");
        }
        else
        {
            pbt::require(rc == 0, "request", txt, " failed with ", static_cast<int>(rc));
            pbt::require(w.sets.size() == 1 && w.sets[0].path == zonePath(id) && w.sets[0].iface == MODE && w.sets[0].prop == "Manual" &&
                             static_cast<bool>(w.sets[0].value.u) == to,
                         "request", txt, " did not set the zone's manual mode once");
            z->second.manual = to;
            c.label(id >= 128 ? "set, zone of 128 or more" : "set");
        }
        c.nontrivial();
    }
    // What is published is what was last set, everywhere.
    for (auto& [id, z] : zones)
    {
        auto& o = w.objs[zonePath(id)].ifaces[MODE];
        pbt::require(static_cast<bool>(o["Manual"].u) == z.manual && static_cast<bool>(o["FailSafe"].u) == z.failsafe, "zone ", id, " ended in another state");
    }
    pbt::require(!decoy.ifaces[MODE]["Manual"].u, "an object that is no zone was set");
}
