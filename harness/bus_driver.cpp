// Replays message-bus scripts on the real buses and endpoints and records the visible state after every call.
#include <knp/core/message_bus.h>
#include <knp/core/messaging/messaging.h>

#include <list>
#include <memory>
#include <optional>

#include "kvh.h"

using namespace knp::core;
using namespace knp::core::messaging;
using kvh::q;

static kvh::Names N;

static std::string msg_body(const SpikeMessage &m)
{
    std::string r;
    for (auto i : m.neuron_indexes_) r += std::to_string(i) + ".";
    return r;
}

static std::string msg_body(const SynapticImpactMessage &m)
{
    std::string r = N.name(m.presynaptic_population_uid_) + "/" + N.name(m.postsynaptic_population_uid_) + "/" +
                    (m.is_forcing_ ? "f" : "n");
    for (auto &i : m.impacts_)
    {
        std::ostringstream o;
        o << "/" << i.connection_index_ << ":" << i.impact_value_ << ":" << static_cast<int>(i.synapse_type_) << ":"
          << i.presynaptic_neuron_index_ << ":" << i.postsynaptic_neuron_index_;
        r += o.str();
    }
    return r;
}

// The time of a message carries its number; every third one is beyond 32 bits.
static const uint64_t far = uint64_t(1) << 40;
static uint64_t time_of(uint64_t id) { return id + (id % 3 ? 0 : far); }
static int64_t id_of(uint64_t t) { return time_of(t % far) == t ? static_cast<int64_t>(t % far) : -1; }

static MessageVariant make(const std::string &ty, const UID &snd, uint64_t id, const std::string &body)
{
    if (ty == "S")
    {
        SpikeMessage m{{snd, time_of(id)}, {}};
        std::string t = body == "-" ? "" : body;
        std::string cur;
        for (char c : t)
        {
            if (c == '.')
            {
                m.neuron_indexes_.push_back(static_cast<uint32_t>(std::stoull(cur)));
                cur.clear();
            }
            else
                cur += c;
        }
        return m;
    }
    auto p = kvh::split(body, '/');
    SynapticImpactMessage m{{snd, time_of(id)}, N.uid(p[0]), N.uid(p[1]), p[2] == "f", {}};
    for (size_t i = 3; i < p.size(); ++i)
    {
        auto f = kvh::split(p[i], ':');
        m.impacts_.push_back(SynapticImpact{
            std::stoull(f[0]), std::stof(f[1]), static_cast<knp::synapse_traits::OutputType>(std::stoi(f[2])),
            static_cast<uint32_t>(std::stoul(f[3])), static_cast<uint32_t>(std::stoul(f[4]))});
    }
    return m;
}

template <class M>
static std::string msg_json(const M &m)
{
    return "{\"id\":" + std::to_string(id_of(m.header_.send_time_)) + ",\"snd\":" + q(N.name(m.header_.sender_uid_)) +
           ",\"b\":" + q(msg_body(m)) + "}";
}

// A burst is many small messages that the trace shows as one: only a complete, ordered, intact run of its messages
// is shown that way, anything else is listed message by message.
static std::map<uint64_t, uint64_t> bursts;  // first id -> count

static std::string burst_body(const std::string &ty, uint64_t id)
{
    return ty == "S" ? (id % 3 ? std::to_string(id % 1000) + "." : std::string("-"))
                     : "p/q/n/" + std::to_string(id) + ":1:0:3:" + std::to_string(id % 77);
}

template <class C>
static std::string msgs_json(const std::string &ty, const C &c)
{
    std::string r = "[";
    for (size_t i = 0; i < c.size();)
    {
        if (i) r += ",";
        auto b = bursts.find(id_of(c[i].header_.send_time_));
        if (b != bursts.end() && c.size() - i >= b->second)
        {
            bool all = true;
            for (uint64_t k = 0; k < b->second && all; ++k)
            {
                auto body = burst_body(ty, b->first + k);
                all = c[i + k].header_.send_time_ == time_of(b->first + k) &&
                      c[i + k].header_.sender_uid_ == c[i].header_.sender_uid_ &&
                      msg_body(c[i + k]) == (body == "-" ? "" : body);
            }
            if (all)
            {
                r += "{\"id\":" + std::to_string(b->first) + ",\"snd\":" + q(N.name(c[i].header_.sender_uid_)) +
                     ",\"b\":\"x" + std::to_string(b->second) + "\"}";
                i += b->second;
                continue;
            }
        }
        r += msg_json(c[i++]);
    }
    return r + "]";
}

int main(int argc, char **argv)
{
    kvh::quiet();
    kvh::Out out(argv[2]);
    std::shared_ptr<MessageBus> bus;
    std::map<std::string, std::unique_ptr<MessageEndpoint>> eps;

    auto state = [&]()
    {
        return kvh::arr(
            eps,
            [&](const auto &e)
            {
                std::string r = "{\"e\":" + q(e.first) + ",\"subs\":";
                r += kvh::arr(
                    e.second->get_endpoint_subscriptions(),
                    [&](const auto &kv)
                    {
                        return std::visit(
                            [&](const auto &s)
                            {
                                using M = typename std::decay_t<decltype(s)>::MessageType;
                                std::string t = std::is_same_v<M, SpikeMessage> ? "S" : "I";
                                std::string keyty = kv.first.first == 0 ? "S" : "I";
                                std::string ok = (keyty == t && kv.first.second == s.get_receiver_uid()) ? t : "BAD";
                                std::vector<std::string> snd;
                                for (auto &u : s.get_senders()) snd.push_back(N.name(u));
                                return "{\"ty\":" + q(ok) + ",\"rcv\":" + q(N.name(s.get_receiver_uid())) +
                                       ",\"snd\":" + kvh::arr(snd, q) + ",\"msgs\":" +
                                       msgs_json(t, s.get_messages()) + "}";
                            },
                            kv.second);
                    });
                return r + "}";
            });
    };

    for (auto &line : kvh::read_script(argv[1]))
    {
        auto w = kvh::words(line);
        const std::string &op = w[0];
        std::string ev = "{\"op\":" + q(op);
        if (op == "new")
        {
            eps.clear();
            bus.reset();
            N.clear();
            bursts.clear();
            N.salt = std::stoull(w[2]);
            bus = w[1] == "zmq" ? MessageBus::construct_zmq_bus() : MessageBus::construct_cpu_bus();
            ev += ",\"kind\":" + q(w[1]);
        }
        else if (op == "ep")
        {
            eps[w[1]] = std::make_unique<MessageEndpoint>(bus->create_endpoint());
            ev += ",\"e\":" + q(w[1]);
        }
        else if (op == "del")
        {
            eps.erase(w[1]);
            ev += ",\"e\":" + q(w[1]);
        }
        else if (op == "move")
        {
            auto n = std::make_unique<MessageEndpoint>(std::move(*eps[w[1]]));
            eps[w[1]] = std::move(n);
            ev += ",\"e\":" + q(w[1]);
        }
        else if (op == "sub" || op == "addsnd" || op == "rmsnd")
        {
            auto &e = *eps[w[1]];
            auto snd = N.uids(w[4]);
            size_t n = 0;
            auto act = [&](auto &s)
            {
                if (op == "addsnd") n = s.add_senders(snd);
                if (op == "rmsnd")
                    for (auto &u : snd) n += s.remove_sender(u);
            };
            std::vector<UID> direct;
            if (op == "sub") direct = snd;
            if (w[2] == "S")
                act(e.subscribe<SpikeMessage>(N.uid(w[3]), direct));
            else
                act(e.subscribe<SynapticImpactMessage>(N.uid(w[3]), direct));
            ev += ",\"e\":" + q(w[1]) + ",\"ty\":" + q(w[2]) + ",\"rcv\":" + q(w[3]) +
                  ",\"snd\":" + kvh::arr(kvh::split(w[4], ','), q) + ",\"n\":" + std::to_string(n);
        }
        else if (op == "unsub")
        {
            auto &e = *eps[w[1]];
            bool r = w[2] == "S" ? e.unsubscribe<SpikeMessage>(N.uid(w[3]))
                                 : e.unsubscribe<SynapticImpactMessage>(N.uid(w[3]));
            ev += ",\"e\":" + q(w[1]) + ",\"ty\":" + q(w[2]) + ",\"rcv\":" + q(w[3]) + ",\"res\":" +
                  (r ? "true" : "false");
        }
        else if (op == "rmrcv")
        {
            eps[w[1]]->remove_receiver(N.uid(w[2]));
            ev += ",\"e\":" + q(w[1]) + ",\"rcv\":" + q(w[2]);
        }
        else if (op == "send")
        {
            eps[w[1]]->send_message(make(w[2], N.uid(w[3]), std::stoull(w[4]), w[5]));
            ev += ",\"e\":" + q(w[1]) + ",\"ty\":" + q(w[2]) + ",\"snd\":" + q(w[3]) + ",\"id\":" + w[4] +
                  ",\"b\":" + q(w[5] == "-" ? "" : w[5]) + ",\"sz\":1";
        }
        else if (op == "burst")
        {
            uint64_t first = std::stoull(w[4]), n = std::stoull(w[5]);
            bursts[first] = n;
            for (uint64_t k = 0; k < n; ++k)
                eps[w[1]]->send_message(make(w[2], N.uid(w[3]), first + k, burst_body(w[2], first + k)));
            ev = "{\"op\":\"send\",\"e\":" + q(w[1]) + ",\"ty\":" + q(w[2]) + ",\"snd\":" + q(w[3]) + ",\"id\":" + w[4] +
                 ",\"b\":\"x" + w[5] + "\",\"sz\":" + w[5];
        }
        else if (op == "route")
        {
            ev += ",\"n\":" + std::to_string(bus->route_messages());
        }
        else if (op == "recv")
        {
            ev += ",\"e\":" + q(w[1]) + ",\"n\":" + std::to_string(eps[w[1]]->receive_all_messages());
        }
        else if (op == "recv1")
        {
            bool r = eps[w[1]]->receive_message();
            ev += ",\"e\":" + q(w[1]) + ",\"res\":" + (r ? "true" : "false");
        }
        else if (op == "unload")
        {
            std::string ms;
            if (w[2] == "S")
                ms = msgs_json("S", eps[w[1]]->unload_messages<SpikeMessage>(N.uid(w[3])));
            else
                ms = msgs_json("I", eps[w[1]]->unload_messages<SynapticImpactMessage>(N.uid(w[3])));
            ev += ",\"e\":" + q(w[1]) + ",\"ty\":" + q(w[2]) + ",\"rcv\":" + q(w[3]) + ",\"msgs\":" + ms;
        }
        else
        {
            fprintf(stderr, "bad op %s\n", op.c_str());
            return 3;
        }
        out.line(ev + ",\"st\":" + state() + "}");
    }
    return 0;
}
