// Messages through their encodings.
#include "kvh.h"

#include <knp/core/messaging/message_envelope.h>
#include <knp/core/messaging/message_header.h>
#include <knp/core/messaging/messaging.h>

#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>

#include <variant>

using namespace kvh;
using namespace knp::core::messaging;
using V = rapidjson::Value;
using knp::core::UID;

static UID uid(const char *h)
{
    std::array<uint8_t, 16> a{};
    for (int i = 0; i < 16; ++i) a[i] = static_cast<uint8_t>(std::stoi(std::string(h + 2 * i, 2), nullptr, 16));
    return UID(a);
}
static std::string hex(const UID &u)
{
    std::string r;
    char b[3];
    for (auto x : u.tag)
    {
        snprintf(b, 3, "%02x", x);
        r += b;
    }
    return q(r);
}
static std::string str(const V &v)
{
    rapidjson::StringBuffer b;
    rapidjson::Writer<rapidjson::StringBuffer> w(b);
    v.Accept(w);
    return b.GetString();
}
static std::string num(uint64_t x) { return q(std::to_string(x)); }
static std::string flt(float f)
{
    uint32_t u;
    memcpy(&u, &f, 4);
    return q(std::to_string(u));
}
static float unflt(const char *s)
{
    uint32_t u = static_cast<uint32_t>(std::stoul(s));
    float f;
    memcpy(&f, &u, 4);
    return f;
}
static MessageVariant parse(const V &v)
{
    MessageHeader h{uid(v["snd"].GetString()), std::stoull(v["time"].GetString())};
    if (std::string(v["k"].GetString()) == "spike")
    {
        SpikeMessage m{h, {}};
        for (auto &x : v["idx"].GetArray()) m.neuron_indexes_.push_back(static_cast<uint32_t>(std::stoul(x.GetString())));
        return m;
    }
    SynapticImpactMessage m{h, uid(v["pre"].GetString()), uid(v["post"].GetString()), v["forcing"].GetInt() != 0, {}};
    for (auto &x : v["imps"].GetArray())
        m.impacts_.push_back(SynapticImpact{
            std::stoull(x[0].GetString()), unflt(x[1].GetString()), static_cast<knp::synapse_traits::OutputType>(x[2].GetInt()),
            static_cast<uint32_t>(std::stoul(x[3].GetString())), static_cast<uint32_t>(std::stoul(x[4].GetString()))});
    return m;
}
static std::string show(const SpikeMessage &m)
{
    return "{\"k\":\"spike\",\"snd\":" + hex(m.header_.sender_uid_) + ",\"time\":" + num(m.header_.send_time_) + ",\"idx\":" +
           arr(m.neuron_indexes_, [](auto x) { return num(x); }) + "}";
}
static std::string show(const SynapticImpactMessage &m)
{
    return "{\"k\":\"impact\",\"snd\":" + hex(m.header_.sender_uid_) + ",\"time\":" + num(m.header_.send_time_) + ",\"pre\":" +
           hex(m.presynaptic_population_uid_) + ",\"post\":" + hex(m.postsynaptic_population_uid_) + ",\"forcing\":" +
           (m.is_forcing_ ? "1" : "0") + ",\"imps\":" +
           arr(m.impacts_,
               [](const auto &i)
               {
                   return "[" + num(i.connection_index_) + "," + flt(i.impact_value_) + "," +
                          std::to_string(static_cast<int>(i.synapse_type_)) + "," + num(i.presynaptic_neuron_index_) + "," +
                          num(i.postsynaptic_neuron_index_) + "]";
               }) +
           "}";
}

int main(int argc, char **argv)
{
    quiet();
    if (argc < 3) return 3;
    Out out(argv[2]);
    for (auto &l : read_script(argv[1]))
    {
        auto sp = l.find(' ');
        auto op = l.substr(0, sp);
        rapidjson::Document d;
        if (sp != std::string::npos) d.Parse(l.c_str() + sp + 1);
        if (op == "new") out.line("{\"op\":\"new\"}");
        else if (op == "pack")
        {
            auto e = pack_to_envelope(parse(d));
            auto r = std::visit([](const auto &m) { return show(m); }, extract_from_envelope(e));
            out.line("{\"op\":\"pack\",\"in\":" + str(d) + ",\"out\":" + r + "}");
        }
        else if (op == "text")
        {
            auto m = parse(d["in"]), o = parse(d["old"]);
            std::string r = std::visit(
                [&](const auto &x) -> std::string
                {
                    std::stringstream ss;
                    ss << x;
                    auto y = std::get<std::decay_t<decltype(x)>>(o);
                    ss >> y;
                    return ss.fail() ? "{\"k\":\"failed\"}" : show(y);
                },
                m);
            out.line("{\"op\":\"text\",\"in\":" + str(d["in"]) + ",\"old\":" + str(d["old"]) + ",\"out\":" + r + "}");
        }
        else if (op == "texts")
        {
            std::stringstream ss;
            std::vector<MessageVariant> ms;
            for (auto &x : d.GetArray())
            {
                ms.push_back(parse(x));
                std::visit([&](const auto &y) { ss << y << "\n"; }, ms.back());
            }
            std::string r;
            for (auto &m : ms)
                std::visit(
                    [&](const auto &x)
                    {
                        std::decay_t<decltype(x)> y;
                        ss >> y;
                        r += (r.empty() ? "" : ",") + (ss.fail() ? std::string("{\"k\":\"failed\"}") : show(y));
                    },
                    m);
            out.line("{\"op\":\"texts\",\"in\":" + str(d) + ",\"out\":[" + r + "]}");
        }
        else if (op == "header")
        {
            MessageHeader h{uid(d[0].GetString()), std::stoull(d[1].GetString())}, g;
            std::stringstream ss;
            ss << h;
            ss >> g;
            out.line("{\"op\":\"header\",\"in\":" + str(d) + ",\"out\":[" + hex(g.sender_uid_) + "," + num(g.send_time_) + "]}");
        }
        else if (op == "eq")
        {
            auto a = parse(d["a"]), b = parse(d["b"]);
            auto eq = [](const MessageVariant &x, const MessageVariant &y)
            {
                return x.index() == y.index() &&
                       std::visit([&](const auto &m) { return m == std::get<std::decay_t<decltype(m)>>(y); }, x);
            };
            out.line("{\"op\":\"eq\",\"a\":" + str(d["a"]) + ",\"b\":" + str(d["b"]) + ",\"res\":" + (eq(a, b) ? "true" : "false") +
                     ",\"back\":" + (eq(b, a) ? "true" : "false") + "}");
        }
        else return 3;
    }
    return 0;
}
