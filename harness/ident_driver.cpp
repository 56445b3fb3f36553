// Identifiers and tags of entities, wherever the entities go.
#include "kvh.h"

#include <knp/backends/cpu-multi-threaded/backend.h>
#include <knp/backends/cpu-single-threaded/backend.h>
#include <knp/core/population.h>
#include <knp/core/projection.h>
#include <knp/framework/model.h>
#include <knp/framework/network.h>
#include <knp/framework/synchronization.h>
#include <knp/framework/tags/name.h>

#include <any>
#include <memory>
#include <optional>
#include <set>
#include <thread>
#include <unordered_set>
#include <variant>

using namespace kvh;
namespace kc = knp::core;
namespace nt = knp::neuron_traits;
namespace st = knp::synapse_traits;
namespace fw = knp::framework;

using P0 = kc::Population<nt::BLIFATNeuron>;
using P1 = kc::Population<nt::AltAILIF>;
using P2 = kc::Population<nt::SynapticResourceSTDPBLIFATNeuron>;
using J0 = kc::Projection<st::DeltaSynapse>;
using J1 = kc::Projection<st::AdditiveSTDPDeltaSynapse>;
using J2 = kc::Projection<st::SynapticResourceSTDPDeltaSynapse>;
using Any = std::variant<kc::TagMap, P0, P1, P2, J0, J1, J2, fw::Network>;

static Names names;
static unsigned fresh_count = 0;

// Name of an identifier; one never seen gets the next name of its own.
static std::string uname(const kc::UID &u)
{
    auto n = names.name(u);
    if (n[0] != '?') return n;
    n = "f" + std::to_string(++fresh_count);
    names.set(n, u);
    return n;
}

template <class T>
constexpr bool is_net = std::is_same_v<T, fw::Network>;
template <class T>
constexpr bool is_map = std::is_same_v<T, kc::TagMap>;

template <class T>
static kc::TagMap &tags(T &x)
{
    if constexpr (is_map<T>) return x;
    else return x.get_tags();
}

// The value of a tag as <type>:<text>, read through a constant map only.
static std::string value(const kc::TagMap &m, const std::string &n)
{
    try
    {
        const std::any &a = m.get_tag(n);
        if (!a.has_value()) return "none";
        if (a.type() == typeid(std::string)) return "s:" + m.get_tag<std::string>(n);
        if (a.type() == typeid(int)) return "i:" + std::to_string(m.get_tag<int>(n));
        if (a.type() == typeid(double)) return "d:" + std::to_string(static_cast<int>(m.get_tag<double>(n) * 4));
        if (a.type() == typeid(kc::tags::IOType)) return m.get_tag<kc::tags::IOType>(n) == kc::tags::IOType::input ? "io:input" : "io:output";
        if (a.type() == typeid(std::vector<int>))
        {
            std::string r = "v:";
            for (int x : m.get_tag<std::vector<int>>(n)) r += std::to_string(x) + ".";
            return r;
        }
        return "other";
    }
    catch (const std::out_of_range &)
    {
        return "absent";
    }
}

static std::string typed(const kc::TagMap &m, const std::string &n, const std::string &t)
{
    try
    {
        if (t == "s") return "s:" + m.get_tag<std::string>(n);
        if (t == "i") return "i:" + std::to_string(m.get_tag<int>(n));
        if (t == "d") return "d:" + std::to_string(static_cast<int>(m.get_tag<double>(n) * 4));
        if (t == "io") return m.get_tag<kc::tags::IOType>(n) == kc::tags::IOType::input ? "io:input" : "io:output";
        std::string r = "v:";
        for (int x : m.get_tag<std::vector<int>>(n)) r += std::to_string(x) + ".";
        return r;
    }
    catch (const std::out_of_range &)
    {
        return "absent";
    }
    catch (const std::bad_any_cast &)
    {
        return "badtype";
    }
}

static std::any parse(const std::string &v)
{
    auto c = v.find(':');
    std::string t = v.substr(0, c), x = v.substr(c + 1);
    if (t == "s") return x;
    if (t == "i") return std::stoi(x);
    if (t == "d") return std::stoi(x) / 4.0;
    if (t == "io") return x == "input" ? kc::tags::IOType::input : kc::tags::IOType::output;
    std::vector<int> r;
    for (auto &s : split(x, '.'))
        if (!s.empty()) r.push_back(std::stoi(s));
    return r;
}

static const std::vector<std::string> TAGS{"a", "b", "name", "io_type"};

static std::string dump(const std::map<std::string, std::unique_ptr<Any>> &hs)
{
    return arr(hs, [](const auto &h)
    {
        return std::visit([&](auto &x) -> std::string
        {
            using T = std::decay_t<decltype(x)>;
            const kc::TagMap &m = tags(x);
            std::string r = "{\"h\":" + q(h.first) + ",\"uid\":";
            if constexpr (is_map<T>) r += "\"-\"";
            else r += q(uname(x.get_uid()));
            r += ",\"empty\":" + std::string(m.empty() ? "true" : "false") + ",\"tags\":[";
            bool first = true, absent = true;
            for (auto &n : TAGS)
            {
                std::string v = value(m, n);
                if (!m.exists(n))
                {
                    absent = absent && v == "absent";
                    continue;
                }
                r += (first ? "" : ",") + std::string("[") + q(n) + "," + q(v) + "]";
                first = false;
            }
            r += "],\"abs\":" + std::string(absent ? "true" : "false") + ",\"name\":";
            if constexpr (is_map<T> || is_net<T>) r += "\"-\"";
            else
            {
                const auto &cx = x;
                try
                {
                    std::string n = fw::tags::get_name(cx);
                    r += q(n == std::string(x.get_uid()) ? "uid:" + uname(x.get_uid()) : "s:" + n);
                }
                catch (const std::bad_any_cast &)
                {
                    r += "\"badtype\"";
                }
            }
            return r + "}";
        }, *h.second);
    });
}

static kc::UID pick(const std::string &u) { return names.uid(u); }

static Any make(const std::string &kind, const std::string &u)
{
    bool f = u == "fresh";
    auto pop = [&](auto *tag)
    {
        using N = std::decay_t<decltype(*tag)>;
        auto g = [](size_t) { return typename kc::Population<N>::NeuronParameters{}; };
        return f ? kc::Population<N>(g, 2) : kc::Population<N>(pick(u), g, 2);
    };
    auto proj = [&](auto *tag)
    {
        using S = std::decay_t<decltype(*tag)>;
        using J = kc::Projection<S>;
        auto g = [](size_t i) -> std::optional<typename J::Synapse> { return typename J::Synapse{{}, i, i}; };
        return f ? J(kc::UID{}, kc::UID{}, g, 2) : J(pick(u), kc::UID{}, kc::UID{}, g, 2);
    };
    if (kind == "map") return kc::TagMap{};
    if (kind == "p0") return pop(static_cast<nt::BLIFATNeuron *>(nullptr));
    if (kind == "p1") return pop(static_cast<nt::AltAILIF *>(nullptr));
    if (kind == "p2") return pop(static_cast<nt::SynapticResourceSTDPBLIFATNeuron *>(nullptr));
    if (kind == "j0") return proj(static_cast<st::DeltaSynapse *>(nullptr));
    if (kind == "j1") return proj(static_cast<st::AdditiveSTDPDeltaSynapse *>(nullptr));
    if (kind == "j2") return proj(static_cast<st::SynapticResourceSTDPDeltaSynapse *>(nullptr));
    return f ? fw::Network() : fw::Network(pick(u));
}

template <class T>
static Any through(const T &x, const std::string &how)
{
    if constexpr (is_map<T>) return Any(T(x));
    else if constexpr (is_net<T>)
    {
        if (how == "model") return Any(fw::Model(fw::Network(x)).get_network());
        return Any(T(x));
    }
    else
    {
        constexpr bool pop = std::is_same_v<T, P0> || std::is_same_v<T, P1> || std::is_same_v<T, P2>;
        using V = std::conditional_t<pop, kc::AllPopulationsVariant, kc::AllProjectionsVariant>;
        if (how == "variant")
        {
            V v(x);
            V w(v);
            V z(std::move(w));
            return Any(std::get<T>(z));
        }
        auto net = [&](fw::Network n) -> Any
        {
            if constexpr (pop) return Any(T(std::get<T>(n.get_population(x.get_uid()))));
            else return Any(T(std::get<T>(n.get_projection(x.get_uid()))));
        };
        fw::Network n;
        if (how == "netvar")
        {
            if constexpr (pop) n.add_population(V(x));
            else n.add_projection(V(x));
            return net(n);
        }
        if (how == "net" || how == "model")
        {
            T y(x);
            if constexpr (pop) n.add_population<T>(y);
            else n.add_projection<T>(y);
            if (how == "model") return net(fw::Model(std::move(n)).get_network());
            return net(std::move(n));
        }
        auto be = [&](kc::Backend &b) -> Any
        {
            if constexpr (pop) b.load_all_populations({V(x)});
            else b.load_all_projections({V(x)});
            return net(fw::synchronization::get_network_copy(b));
        };
        if (how == "st")
        {
            knp::backends::single_threaded_cpu::SingleThreadedCPUBackend b;
            return be(b);
        }
        if (how == "mt")
        {
            knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend b;
            return be(b);
        }
        return Any(T(x));
    }
}

static std::array<uint8_t, 16> bytes(const std::string &s)
{
    std::array<uint8_t, 16> a{};
    auto v = split(s, '.');
    for (size_t i = 0; i < 16; ++i) a[i] = static_cast<uint8_t>(std::stoi(v[i]));
    return a;
}

static std::string list(const kc::UID &u)
{
    std::string r = "[";
    for (size_t i = 0; i < 16; ++i) r += (i ? "," : "") + std::to_string(*(u.tag.begin() + i));
    return r + "]";
}

static std::string b(bool x) { return x ? "true" : "false"; }

template <class F>
static std::vector<kc::UID> draw(size_t n, size_t k, F f)
{
    std::vector<std::vector<kc::UID>> part(k);
    auto work = [&](size_t t)
    {
        for (size_t i = t; i < n; i += k) part[t].push_back(f());
    };
    std::vector<std::thread> th;
    for (size_t t = 1; t < k; ++t) th.emplace_back(work, t);
    work(0);
    for (auto &t : th) t.join();
    std::vector<kc::UID> r;
    for (auto &p : part)
        for (auto &u : p) r.push_back(u);
    return r;
}

int main(int argc, char **argv)
{
    quiet();
    if (argc < 3) return 3;
    Out out(argv[2]);
    std::map<std::string, std::unique_ptr<Any>> hs;
    auto say = [&](const std::string &op, const std::string &more)
    { out.line("{\"op\":" + q(op) + more + ",\"st\":" + dump(hs) + "}"); };
    for (auto &l : read_script(argv[1]))
    {
        auto w = words(l);
        if (w[0] == "new")
        {
            hs.clear();
            names.clear();
            fresh_count = 0;
            names.salt = std::stoul(w[1]);
            say("new", "");
        }
        else if (w[0] == "make")  // make <handle> <kind> <uid name or fresh>
        {
            hs[w[1]] = std::make_unique<Any>(make(w[2], w[3]));
            std::string u = std::visit([](auto &x) -> std::string
            {
                if constexpr (is_map<std::decay_t<decltype(x)>>) return "-";
                else return uname(x.get_uid());
            }, *hs[w[1]]);
            say("make", ",\"h\":" + q(w[1]) + ",\"kind\":" + q(w[2]) + ",\"ask\":" + q(w[3]) + ",\"uid\":" + q(u));
        }
        else if (w[0] == "set")  // set <handle> <tag> <value> <form>
        {
            std::visit([&](auto &x)
            {
                if (w[4] == "ref") tags(x)[w[2]] = parse(w[3]);
                else if (w[4] == "get") tags(x).get_tag(w[2]) = parse(w[3]);
                else
                {
                    // in place, through the typed reference
                    auto v = parse(w[3]);
                    if (auto *s = std::any_cast<std::string>(&v)) tags(x).template get_tag<std::string>(w[2]) = *s;
                    else tags(x).template get_tag<int>(w[2]) = std::any_cast<int>(v);
                }
            }, *hs[w[1]]);
            say("set", ",\"h\":" + q(w[1]) + ",\"n\":" + q(w[2]) + ",\"v\":" + q(w[3]));
        }
        else if (w[0] == "setname")
        {
            std::visit([&](auto &x)
            {
                if constexpr (!is_map<std::decay_t<decltype(x)>>) fw::tags::set_name(x, w[2]);
                else x["name"] = w[2];
            }, *hs[w[1]]);
            say("set", ",\"h\":" + q(w[1]) + ",\"n\":\"name\",\"v\":" + q("s:" + w[2]));
        }
        else if (w[0] == "get")  // get <handle> <tag> <type>
        {
            std::string r = std::visit([&](auto &x) { return typed(tags(x), w[2], w[3]); }, *hs[w[1]]);
            say("get", ",\"h\":" + q(w[1]) + ",\"n\":" + q(w[2]) + ",\"t\":" + q(w[3]) + ",\"res\":" + q(r));
        }
        else if (w[0] == "carry")  // carry <from> <to> <how>
        {
            if (w[3] == "assign" && hs.count(w[2]) && hs[w[2]]->index() == hs[w[1]]->index())
                std::visit([&](auto &x) { std::get<std::decay_t<decltype(x)>>(*hs[w[2]]) = x; }, *hs[w[1]]);
            else hs[w[2]] = std::make_unique<Any>(std::visit([&](auto &x) { return through(x, w[3]); }, *hs[w[1]]));
            say("carry", ",\"h\":" + q(w[1]) + ",\"to\":" + q(w[2]));
        }
        else if (w[0] == "move")
        {
            auto m = std::make_unique<Any>(std::visit([](auto &x) { return Any(std::move(x)); }, *hs[w[1]]));
            hs.erase(w[1]);
            hs[w[2]] = std::move(m);
            say("move", ",\"h\":" + q(w[1]) + ",\"to\":" + q(w[2]));
        }
        else if (w[0] == "fresh" || w[0] == "fresh2")  // fresh <n> <threads>
        {
            auto u = draw(std::stoul(w[1]), std::stoul(w[2]), [&] { return w[0] == "fresh" ? kc::UID{} : kc::UID{true}; });
            bool valid = true;
            for (auto &x : u) valid = valid && static_cast<bool>(x);
            say("fresh", ",\"us\":" + arr(u, [](auto &x) { return q(uname(x)); }) + ",\"valid\":" + b(valid));
        }
        else if (w[0] == "count")  // count <start> <n> <threads>: the counting generator
        {
            kc::continuously_uid_generator::reset(std::stoul(w[1]));
            auto u = draw(std::stoul(w[2]), std::stoul(w[3]), [] { return kc::UID(kc::continuously_uid_generator()()); });
            out.line("{\"op\":\"count\",\"start\":" + w[1] + ",\"us\":" + arr(u, [](auto &x) { return list(x); }) + "}");
        }
        else if (w[0] == "uid")  // uid <bytes>: one identifier in all its forms
        {
            auto a = bytes(w[1]);
            kc::UID u(a), c(u), fromboost{static_cast<const boost::uuids::uuid &>(u)}, parsed{false};
            std::stringstream ss, s2(static_cast<std::string>(u));
            ss << u;
            s2 >> parsed;
            out.line("{\"op\":\"uid\",\"a\":[" + [&] { std::string r; for (auto x : a) r += (r.empty() ? "" : ",") + std::to_string(x); return r; }() +
                     "],\"b\":" + list(u) + ",\"str\":" + q(std::string(u)) + ",\"out\":" + q(ss.str()) + ",\"in\":" + list(parsed) + ",\"boost\":" +
                     list(fromboost) + ",\"copy\":" + list(c) + ",\"valid\":" + b(static_cast<bool>(u)) + ",\"nil\":" + list(kc::UID{false}) + "}");
        }
        else if (w[0] == "rel")  // rel <bytes> ... : all relations between identifiers
        {
            std::vector<kc::UID> u;
            for (size_t i = 1; i < w.size(); ++i) u.push_back(kc::UID(bytes(w[i])));
            auto mat = [&](auto f)
            { return arr(u, [&](auto &x) { return arr(u, [&](auto &y) { return b(f(x, y)); }); }); };
            std::set<kc::UID> s(u.begin(), u.end());
            std::unordered_set<kc::UID, kc::uid_hash> us(u.begin(), u.end());
            kc::uid_hash h;
            out.line("{\"op\":\"rel\",\"us\":" + arr(u, [](auto &x) { return list(x); }) + ",\"eq\":" + mat([](auto &x, auto &y) { return x == y; }) +
                     ",\"ne\":" + mat([](auto &x, auto &y) { return x != y; }) + ",\"lt\":" + mat([](auto &x, auto &y) { return x < y; }) +
                     ",\"hash\":" + mat([&](auto &x, auto &y) { return h(x) == h(y); }) + ",\"set\":" + std::to_string(s.size()) + ",\"uset\":" +
                     std::to_string(us.size()) + "}");
        }
        else return 3;
    }
    return 0;
}
