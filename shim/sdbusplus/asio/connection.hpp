#pragma once
#include "sim/simbus.hpp"

#include <boost/asio/io_context.hpp>

namespace sdbusplus::asio
{
class connection : public sdbusplus::bus_t
{
  public:
    explicit connection(boost::asio::io_context& io) : io_(io)
    {
        sim::fabric().io = &io;
    }
    connection(boost::asio::io_context& io, sdbusplus::bus_t&& b) :
        sdbusplus::bus_t(std::move(b)), io_(io)
    {
        sim::fabric().io = &io;
    }
    boost::asio::io_context& get_io_context()
    {
        return io_;
    }

  private:
    boost::asio::io_context& io_;
};
} // namespace sdbusplus::asio
