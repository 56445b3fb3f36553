// N05: the graph of a network, its parts, its description and its layout.
#include "kvnet.h"

#include <knp/framework/network.h>
#include <knp/framework/visualizer/visualize_network.h>

using namespace kvh;
namespace nt = knp::neuron_traits;
namespace st = knp::synapse_traits;
namespace kf = knp::framework;
static Names N;

template <class E>
E named(E e, const std::string &name)
{
    if (name == "#") e.get_tags()["name"] = 5;
    else if (name == "_") e.get_tags()["name"] = std::string();
    else if (name != "-") e.get_tags()["name"] = name;
    return e;
}

template <class T>
void add_pop(kf::Network &n, const std::string &id, size_t size, const std::string &name)
{
    using P = knp::core::Population<T>;
    n.add_population(named(P(N.uid(id), [](size_t) { return typename P::NeuronParameters{}; }, size), name));
}

template <class S>
void add_proj(kf::Network &n, const std::string &id, const std::string &pre, const std::string &post, size_t size, const std::string &name)
{
    using J = knp::core::Projection<S>;
    n.add_projection(named(J(N.uid(id), N.uid(pre), N.uid(post),
        [](size_t i) { return typename J::Synapse{{}, static_cast<uint32_t>(i), static_cast<uint32_t>(i)}; }, size), name));
}

static std::string ints(const std::vector<long> &v) { return arr(v, [](long x) { return std::to_string(x); }); }

// The numbers behind '#' in a part of a line, -1 for inputs.
static std::vector<long> marks(const std::string &s)
{
    std::vector<long> r;
    for (size_t i = s.find('#'); i != std::string::npos; i = s.find('#', i + 1))
        r.push_back(isdigit(s[i + 1]) ? std::stol(s.substr(i + 1)) : -1);
    return r;
}

int main(int argc, char **argv)
{
    quiet();
    if (argc < 3) return 3;
    Out out(argv[2]);
    kf::Network net;
    for (auto &l : read_script(argv[1]))
    {
        auto w = words(l);
        std::string more;
        if (w[0] == "new") net = kf::Network();
        else if (w[0] == "pop")  // pop <id> <kind> <size> <name>
        {
            size_t s = std::stoul(w[3]);
            if (w[2] == "0") add_pop<nt::BLIFATNeuron>(net, w[1], s, w[4]);
            if (w[2] == "1") add_pop<nt::SynapticResourceSTDPBLIFATNeuron>(net, w[1], s, w[4]);
            if (w[2] == "2") add_pop<nt::AltAILIF>(net, w[1], s, w[4]);
            more = ",\"u\":" + q(w[1]) + ",\"kind\":" + w[2] + ",\"size\":" + w[3] + ",\"name\":" + q(w[4]);
        }
        else if (w[0] == "proj")  // proj <id> <kind> <pre> <post> <size> <name>
        {
            size_t s = std::stoul(w[5]);
            if (w[2] == "0") add_proj<st::DeltaSynapse>(net, w[1], w[3], w[4], s, w[6]);
            if (w[2] == "1") add_proj<st::SynapticResourceSTDPDeltaSynapse>(net, w[1], w[3], w[4], s, w[6]);
            if (w[2] == "2") add_proj<st::AdditiveSTDPDeltaSynapse>(net, w[1], w[3], w[4], s, w[6]);
            more = ",\"u\":" + q(w[1]) + ",\"kind\":" + w[2] + ",\"pre\":" + q(w[3]) + ",\"post\":" + q(w[4]) + ",\"size\":" + w[5] + ",\"name\":" + q(w[6]);
        }
        else if (w[0] == "rmpop")
        {
            net.remove_population(N.uid(w[1]));
            more = ",\"u\":" + q(w[1]);
        }
        else if (w[0] == "rmproj")
        {
            net.remove_projection(N.uid(w[1]));
            more = ",\"u\":" + q(w[1]);
        }
        else if (w[0] == "graph")  // graph <width> <height> <margin> <iterations>
        {
            const kf::NetworkGraph g(net);
            // Names are shown as such, or as the beginning of the identifier.
            auto name = [](const std::string &n, const knp::core::UID &u)
            {
                std::string s(u);
                return n.size() >= 4 && s.compare(0, n.size(), n) == 0 ? std::string("<uid>") : n;
            };
            // Kinds as the driver names them.
            auto pop_kind = [](size_t i)
            {
                size_t k[] = {knp::core::AllPopulationsVariant(knp::core::Population<nt::BLIFATNeuron>(nullptr, 0)).index(),
                              knp::core::AllPopulationsVariant(knp::core::Population<nt::SynapticResourceSTDPBLIFATNeuron>(nullptr, 0)).index(),
                              knp::core::AllPopulationsVariant(knp::core::Population<nt::AltAILIF>(nullptr, 0)).index()};
                return std::find(k, k + 3, i) - k;
            };
            auto proj_kind = [](size_t i)
            {
                knp::core::UID a, b;
                size_t k[] = {knp::core::AllProjectionsVariant(knp::core::Projection<st::DeltaSynapse>(a, b)).index(),
                              knp::core::AllProjectionsVariant(knp::core::Projection<st::SynapticResourceSTDPDeltaSynapse>(a, b)).index(),
                              knp::core::AllProjectionsVariant(knp::core::Projection<st::AdditiveSTDPDeltaSynapse>(a, b)).index()};
                return std::find(k, k + 3, i) - k;
            };
            more += ",\"nodes\":" + arr(g.nodes_, [&](auto &n)
            {
                return "{\"u\":" + q(N.name(n.uid_)) + ",\"size\":" + std::to_string(n.size_) + ",\"name\":" + q(name(n.name_, n.uid_)) +
                       ",\"kind\":" + std::to_string(pop_kind(n.type_)) + "}";
            });
            more += ",\"edges\":" + arr(g.edges_, [&](auto &e)
            {
                return "{\"u\":" + q(N.name(e.uid_)) + ",\"size\":" + std::to_string(e.size_) + ",\"name\":" + q(name(e.name_, e.uid_)) +
                       ",\"kind\":" + std::to_string(proj_kind(e.type_)) + ",\"f\":" + std::to_string(e.index_from_) + ",\"t\":" +
                       std::to_string(e.index_to_) + "}";
            });
            auto parts = kf::divide_graph_by_connectivity(g);
            more += ",\"parts\":" + arr(parts, [&](auto &p) { return ints(std::vector<long>(p.begin(), p.end())); });
            std::ostringstream text;
            auto *old = std::cout.rdbuf(text.rdbuf());
            kf::print_network_description(g);
            std::cout.rdbuf(old);
            // Lines [population, size, received from, sent to]; an empty line ends a part.
            std::istringstream is(text.str());
            std::string line, lines;
            while (std::getline(is, line))
            {
                std::string r;
                size_t c = line.find(':'), s = line.find(';');
                if (line.empty()) r = "[]";
                else if (c == std::string::npos || s == std::string::npos) r = "[" + ints({-9}) + "]";
                else
                {
                    auto head = marks(line.substr(0, c));
                    size_t d = c;
                    while (d && isdigit(line[d - 1])) --d;
                    head.push_back(d < c ? std::stol(line.substr(d, c - d)) : -9);
                    r = "[" + ints(head) + "," + ints(marks(line.substr(c, s - c))) + "," + ints(marks(line.substr(s))) + "]";
                }
                lines += (lines.empty() ? "" : ",") + r;
            }
            more += ",\"text\":[" + lines + "]";
            int W = std::stoi(w[1]), H = std::stoi(w[2]), M = std::stoi(w[3]), K = std::stoi(w[4]);
            more += ",\"w\":" + w[1] + ",\"h\":" + w[2] + ",\"m\":" + w[3];
            more += ",\"pos\":" + arr(parts, [&](auto &p)
            {
                auto pos = kf::position_network(g, p, cv::Size(W, H), M, K);
                return arr(pos, [](auto &x) { return ints({x.x, x.y}); });
            });
        }
        else return 3;
        out.line("{\"op\":" + q(w[0]) + more + "}");
    }
    return 0;
}
