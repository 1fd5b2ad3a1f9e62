#pragma once
#include <ipmid/api-types.hpp>
#include <ipmid/iana.hpp>
#include <ipmid/oemopenbmc.hpp>
#include <cstddef>
#include <functional>
#include <map>
namespace oem
{
using Handler = std::function<ipmi::Cc(uint8_t cmd, const uint8_t* reqBuf,
                                       uint8_t* replyBuf, size_t* dataLen)>;
struct Router
{
    std::map<std::pair<Number, int>, Handler> handlers;
    void registerHandler(Number n, uint8_t cmd, Handler h)
    {
        handlers[{n, cmd}] = std::move(h);
    }
};
inline Router* mutableRouter()
{
    static Router r;
    return &r;
}
} // namespace oem
