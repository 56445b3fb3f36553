// C03: networks and models as keyed collections.
#include "kvnet.h"

#include <knp/framework/model.h>
#include <knp/framework/network.h>

#include <algorithm>
#include <memory>

using knp::core::Population;
using knp::core::Projection;
using knp::framework::Model;
using knp::framework::Network;
using kvh::q;
namespace nt = knp::neuron_traits;
namespace st = knp::synapse_traits;
static kvh::Names N;

static unsigned num(const std::string &s) { return static_cast<unsigned>(std::stoul(s)); }

template <class T>
Population<T> make_pop(const std::string &name, const std::string &list)
{
    auto items = kvh::split(list, ',');
    return Population<T>(
        N.uid(name),
        [items](size_t i) -> std::optional<typename Population<T>::NeuronParameters>
        { return kvn::tag<typename Population<T>::NeuronParameters>(num(items[i])); },
        items.size());
}

template <class S>
typename Projection<S>::SynapseGenerator syn_gen(const std::string &list)
{
    auto items = kvh::split(list, ',');
    return [items](size_t i) -> std::optional<typename Projection<S>::Synapse>
    {
        auto a = kvh::split(items.at(i), '>');
        auto b = kvh::split(a[1], ':');
        return typename Projection<S>::Synapse{
            kvn::tag<typename Projection<S>::SynapseParameters>(num(b[1])), num(a[0]), num(b[0])};
    };
}

template <class T>
std::string pop_json(const Population<T> &p)
{
    size_t kind = knp::core::AllPopulationsVariant(Population<T>(p)).index();
    std::vector<long> a(0);
    for (auto &x : p) a.push_back(kvn::untag(x));
    return "{\"u\":" + q(N.name(p.get_uid())) + ",\"k\":" + std::to_string(kind) +
           ",\"c\":" + kvh::arr(a, [](long x) { return std::to_string(x); }) + "}";
}

template <class S>
std::string proj_json(const Projection<S> &p)
{
    size_t kind = knp::core::AllProjectionsVariant(Projection<S>(p)).index();
    return "{\"u\":" + q(N.name(p.get_uid())) + ",\"k\":" + std::to_string(kind) + ",\"pre\":" +
           q(N.name(p.get_presynaptic())) + ",\"post\":" + q(N.name(p.get_postsynaptic())) + ",\"c\":" +
           kvh::arr(
               p,
               [](const auto &s)
               {
                   return "[" + std::to_string(std::get<knp::core::source_neuron_id>(s)) + "," +
                          std::to_string(std::get<knp::core::target_neuron_id>(s)) + "," +
                          std::to_string(kvn::untag(std::get<knp::core::synapse_data>(s))) + "]";
               }) +
           "}";
}

template <class V>
std::string any_json(const V &v)
{
    return std::visit(
        [](const auto &x)
        {
            using X = std::decay_t<decltype(x)>;
            if constexpr (boost::mp11::mp_contains<knp::core::AllPopulations, X>::value)
                return pop_json(x);
            else
                return proj_json(x);
        },
        v);
}

template <class F>
auto with_neuron(const std::string &k, F f)
{
    switch (num(k))
    {
        case 0: return f(static_cast<nt::BLIFATNeuron *>(nullptr));
        case 1: return f(static_cast<nt::SynapticResourceSTDPBLIFATNeuron *>(nullptr));
        case 2: return f(static_cast<nt::AltAILIF *>(nullptr));
        case 3: return f(static_cast<nt::SynapticResourceSTDPAltAILIFNeuron *>(nullptr));
        default: return f(static_cast<nt::LIFNeuron *>(nullptr));
    }
}

template <class F>
auto with_synapse(const std::string &k, F f)
{
    switch (num(k))
    {
        case 0: return f(static_cast<st::DeltaSynapse *>(nullptr));
        case 1: return f(static_cast<st::AdditiveSTDPDeltaSynapse *>(nullptr));
        default: return f(static_cast<st::SynapticResourceSTDPDeltaSynapse *>(nullptr));
    }
}

static std::string jl(const std::string &list)  // tags or connections as JSON
{
    return kvh::arr(
        kvh::split(list, ','),
        [](const std::string &s)
        {
            if (s.find('>') == std::string::npos) return s;
            auto a = kvh::split(s, '>');
            auto b = kvh::split(a[1], ':');
            return "[" + a[0] + "," + b[0] + "," + b[1] + "]";
        });
}

int main(int argc, char **argv)
{
    kvh::quiet();
    kvh::Out out(argv[2]);
    std::unique_ptr<Model> model;
    for (auto &line : kvh::read_script(argv[1]))
    {
        auto w = kvh::words(line);
        const auto &op = w[0];
        std::string ev = "{\"op\":" + q(op);
        std::string res = "\"ok\"";
        try
        {
            if (op == "new")
            {
                N.clear();
                N.salt = std::stoull(w[1]);
                model = std::make_unique<Model>(Network());
            }
            Network &net = model->get_network();
            const Network &cnet = model->get_network();
            if (op == "addpop")  // addpop u k list how
            {
                ev += ",\"u\":" + q(w[1]) + ",\"k\":" + w[2] + ",\"c\":" + jl(w[3]) + ",\"how\":" + q(w[4]);
                with_neuron(
                    w[2],
                    [&](auto *t)
                    {
                        using P = Population<std::remove_pointer_t<decltype(t)>>;
                        auto p = make_pop<std::remove_pointer_t<decltype(t)>>(w[1], w[3]);
                        if (w[4] == "variant")
                            net.add_population(knp::core::AllPopulationsVariant(std::move(p)));
                        else if (w[4] == "move")
                            net.add_population<P>(std::move(p));
                        else
                            net.add_population<P>(p);
                        return 0;
                    });
            }
            else if (op == "addproj")  // addproj u k pre post list how
            {
                ev += ",\"u\":" + q(w[1]) + ",\"k\":" + w[2] + ",\"pre\":" + q(w[3]) + ",\"post\":" + q(w[4]) +
                      ",\"c\":" + jl(w[5]) + ",\"how\":" + q(w[6]);
                with_synapse(
                    w[2],
                    [&](auto *t)
                    {
                        using S = std::remove_pointer_t<decltype(t)>;
                        using P = Projection<S>;
                        size_t n = kvh::split(w[5], ',').size();
                        if (w[6] == "gen")
                        {
                            net.add_projection<S>(N.uid(w[1]), N.uid(w[3]), N.uid(w[4]), syn_gen<S>(w[5]), n);
                            return 0;
                        }
                        P p(N.uid(w[1]), N.uid(w[3]), N.uid(w[4]), syn_gen<S>(w[5]), n);
                        if (w[6] == "variant")
                            net.add_projection(knp::core::AllProjectionsVariant(std::move(p)));
                        else if (w[6] == "move")
                            net.add_projection<P>(std::move(p));
                        else
                            net.add_projection<P>(p);
                        return 0;
                    });
            }
            else if (op == "connect")  // connect u k src dst list : src and dst are populations, perhaps foreign ones
            {
                ev += ",\"u\":" + q(w[1]) + ",\"k\":" + w[2] + ",\"pre\":" + q(w[3]) + ",\"post\":" + q(w[4]) +
                      ",\"c\":" + jl(w[5]);
                auto src = make_pop<nt::BLIFATNeuron>(w[3], "0,1,2");
                auto dst = make_pop<nt::AltAILIF>(w[4], "0,1,2");
                with_synapse(
                    w[2],
                    [&](auto *t)
                    {
                        using S = std::remove_pointer_t<decltype(t)>;
                        auto u = net.connect_populations<S, nt::BLIFATNeuron, nt::AltAILIF>(
                            src, dst, syn_gen<S>(w[5]), kvh::split(w[5], ',').size());
                        N.set(w[1], u);
                        return 0;
                    });
            }
            else if (op == "getpop" || op == "getproj")  // getpop u k how
            {
                ev += ",\"u\":" + q(w[1]) + ",\"k\":" + w[2] + ",\"how\":" + q(w[3]);
                if (op == "getpop")
                    res = w[3] == "variant" ? any_json(net.get_population(N.uid(w[1])))
                                            : with_neuron(
                                                  w[2],
                                                  [&](auto *t)
                                                  {
                                                      using T = std::remove_pointer_t<decltype(t)>;
                                                      return w[3] == "const"
                                                                 ? pop_json(cnet.get_population<T>(N.uid(w[1])))
                                                                 : pop_json(net.get_population<T>(N.uid(w[1])));
                                                  });
                else
                    res = w[3] == "variant" ? any_json(net.get_projection(N.uid(w[1])))
                                            : with_synapse(
                                                  w[2],
                                                  [&](auto *t)
                                                  {
                                                      using T = std::remove_pointer_t<decltype(t)>;
                                                      return w[3] == "const"
                                                                 ? proj_json(cnet.get_projection<T>(N.uid(w[1])))
                                                                 : proj_json(net.get_projection<T>(N.uid(w[1])));
                                                  });
            }
            else if (op == "haspop" || op == "hasproj")
            {
                ev += ",\"u\":" + q(w[1]);
                bool r = op == "haspop" ? net.is_population_exists(N.uid(w[1])) : net.is_projection_exists(N.uid(w[1]));
                res = r ? "\"yes\"" : "\"no\"";
            }
            else if (op == "rmpop")
            {
                ev += ",\"u\":" + q(w[1]);
                net.remove_population(N.uid(w[1]));
            }
            else if (op == "rmproj")
            {
                ev += ",\"u\":" + q(w[1]);
                net.remove_projection(N.uid(w[1]));
            }
            else if (op == "editpop")  // editpop u list : through the reference of the getter
            {
                ev += ",\"u\":" + q(w[1]) + ",\"c\":" + jl(w[2]);
                std::visit(
                    [&](auto &p)
                    {
                        using P = typename std::decay_t<decltype(p)>::NeuronParameters;
                        std::vector<P> v;
                        for (auto &x : kvh::split(w[2], ',')) v.push_back(kvn::tag<P>(num(x)));
                        p.set_neurons_parameters(v);
                    },
                    net.get_population(N.uid(w[1])));
            }
            else if (op == "editproj")
            {
                ev += ",\"u\":" + q(w[1]) + ",\"c\":" + jl(w[2]);
                std::visit(
                    [&](auto &p)
                    {
                        using S = typename std::decay_t<decltype(p)>::ProjectionSynapseType;
                        p.clear();
                        p.add_synapses(syn_gen<S>(w[2]), kvh::split(w[2], ',').size());
                    },
                    net.get_projection(N.uid(w[1])));
            }
            else if (op == "copynet")
            {
                Network n2 = net;
                if (n2.get_uid() != net.get_uid()) res = "\"uid\"";
                model->get_network() = n2;
            }
            else if (op == "inch" || op == "outch")  // inch ch u how
            {
                ev += ",\"ch\":" + q(w[1]) + ",\"u\":" + q(w[2]);
                if (op == "inch")
                {
                    if (w[3] == "obj")
                        model->connect_input_projection(
                            N.uid(w[1]), Projection<st::DeltaSynapse>(N.uid(w[2]), N.uid("x"), N.uid("y")));
                    else
                        model->add_input_channel(N.uid(w[1]), N.uid(w[2]));
                }
                else
                {
                    if (w[3] == "obj")
                        model->connect_output_population(N.uid(w[1]), make_pop<nt::LIFNeuron>(w[2], "0"));
                    else
                        model->add_output_channel(N.uid(w[1]), N.uid(w[2]));
                }
            }
        }
        catch (const std::exception &)
        {
            res = "\"fail\"";
        }
        const Network &n = static_cast<const Model &>(*model).get_network();
        auto pairs = [](const auto &mm)
        {
            std::vector<std::string> v;
            for (const auto &kv : mm) v.push_back("[" + q(N.name(kv.first)) + "," + q(N.name(kv.second)) + "]");
            std::sort(v.begin(), v.end());
            return kvh::arr(v, [](const std::string &s) { return s; });
        };
        std::vector<knp::core::AllPopulationsVariant> a(n.begin_populations(), n.end_populations());
        std::vector<knp::core::AllProjectionsVariant> b(n.begin_projections(), n.end_projections());
        auto sa = kvh::arr(a, [](const auto &x) { return any_json(x); });
        auto sb = kvh::arr(b, [](const auto &x) { return any_json(x); });
        bool same = sa == kvh::arr(n.get_populations(), [](const auto &x) { return any_json(x); }) &&
                    sb == kvh::arr(n.get_projections(), [](const auto &x) { return any_json(x); });
        out.line(
            ev + ",\"res\":" + res + ",\"pops\":" + sa + ",\"projs\":" + sb + ",\"np\":" +
            std::to_string(n.populations_count()) + ",\"nj\":" + std::to_string(n.projections_count()) + ",\"same\":" +
            (same ? "true" : "false") + ",\"ins\":" + pairs(model->get_input_channels()) + ",\"outs\":" +
            pairs(model->get_output_channels()) + "}");
    }
    return 0;
}
