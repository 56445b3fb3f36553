// The part of the helper module that shows what endpoints hold.
#define main bus_main
#include "bus_driver.cpp"
#undef main

#include <boost/python.hpp>

namespace py = boost::python;

static std::shared_ptr<MessageBus> bus;

static void bus_new(const std::string &kind, uint64_t salt)
{
    bus.reset();
    N.clear();
    bursts.clear();
    N.salt = salt;
    bus = kind == "zmq" ? MessageBus::construct_zmq_bus() : MessageBus::construct_cpu_bus();
}
static py::object bus_get() { return py::object(py::ptr(bus.get())); }
static UID bus_uid(const std::string &n) { return N.uid(n); }
static std::string bus_name(const UID &u) { return N.name(u); }

static std::string bus_endpoint(const std::string &name, const MessageEndpoint &e)
{
    return "{\"e\":" + q(name) + ",\"subs\":" +
           kvh::arr(
               e.get_endpoint_subscriptions(),
               [&](const auto &kv)
               {
                   return std::visit(
                       [&](const auto &s)
                       {
                           using M = typename std::decay_t<decltype(s)>::MessageType;
                           std::string t = std::is_same_v<M, SpikeMessage> ? "S" : "I";
                           std::vector<std::string> snd;
                           for (auto &u : s.get_senders()) snd.push_back(N.name(u));
                           return "{\"ty\":" + q(t) + ",\"rcv\":" + q(N.name(s.get_receiver_uid())) + ",\"snd\":" + kvh::arr(snd, q) +
                                  ",\"msgs\":" + msgs_json(t, s.get_messages()) + "}";
                       },
                       kv.second);
               }) +
           "}";
}

void bus_part()
{
    py::def("bus_new", &bus_new);
    py::def("bus_get", &bus_get);
    py::def("bus_uid", &bus_uid);
    py::def("bus_name", &bus_name);
    py::def("bus_endpoint", &bus_endpoint);
}
