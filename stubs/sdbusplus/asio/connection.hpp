#pragma once
#include <sdbusplus/stub_core.hpp>
#include <boost/asio/io_context.hpp>
namespace sdbusplus::asio
{
struct connection : bus_t
{
    connection(boost::asio::io_context&) {}
    connection(boost::asio::io_context&, bus_t) {}
};
}
