// What a backend holds: loading, removing, running, asking what it supports.
#include "hold.h"
#include "kvh.h"

#include <knp/backends/cpu-multi-threaded/backend.h>
#include <knp/backends/cpu-single-threaded/backend.h>

#include <algorithm>
#include <memory>
#include <optional>

using namespace kvh;
namespace kc = knp::core;
namespace nt = knp::neuron_traits;
namespace st = knp::synapse_traits;
using kc::messaging::SpikeMessage;
using kc::messaging::SynapticImpactMessage;

// Neurons that fire at every step.
template <class N>
kc::AllPopulationsVariant pop(const kc::UID &u, size_t n)
{
    return kc::Population<N>(
        u,
        [](size_t) -> std::optional<nt::neuron_parameters<N>>
        {
            nt::neuron_parameters<N> x;
            if constexpr (std::is_same_v<N, nt::AltAILIF> || std::is_same_v<N, nt::SynapticResourceSTDPAltAILIFNeuron>)
                x.activation_threshold_ = 0;
            else
                x.activation_threshold_ = -100000;
            return x;
        },
        n);
}

template <class S>
kc::AllProjectionsVariant proj(const kc::UID &u, const kc::UID &a, const kc::UID &b, size_t n, uint32_t delay, bool locked)
{
    kc::Projection<S> p(
        u, a, b,
        [&](size_t i)
        {
            typename kc::Projection<S>::SynapseParameters par{};
            par.weight_ = 0;
            par.delay_ = delay;
            return std::make_optional(typename kc::Projection<S>::Synapse{par, i, i});
        },
        n);
    if (locked) p.lock_weights();
    else p.unlock_weights();
    return p;
}

int main(int argc, char **argv)
{
    quiet();
    if (argc < 3) return 3;
    Out out(argv[2]);
    Names names;
    std::unique_ptr<kc::Backend> be;
    std::optional<kc::MessageEndpoint> obs;
    kc::UID me;
    auto say = [&](const std::string &op, const std::string &more)
    {
        out.line("{\"op\":" + q(op) + more + "," + kvhold::held(*be, names) + ",\"step\":" + std::to_string(be->get_step()) + "}");
    };
    auto uids = [&](const std::vector<std::string> &w)
    {
        std::vector<kc::UID> r;
        for (size_t i = 1; i < w.size(); ++i) r.push_back(names.uid(w[i]));
        return r;
    };
    for (auto &l : read_script(argv[1]))
    {
        auto w = words(l);
        if (w[0] == "new")  // new st|mt <salt> <uids to listen to>
        {
            obs.reset();
            be.reset();
            names = Names{};
            names.salt = std::stoul(w[2]);
            if (w[1] == "st") be = std::make_unique<knp::backends::single_threaded_cpu::SingleThreadedCPUBackend>();
            else be = std::make_unique<knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend>(2, 1, 1);
            obs.emplace(be->get_message_bus().create_endpoint());
            me = names.uid("obs");
            std::vector<kc::UID> ps, js;
            for (size_t i = 3; i < w.size(); ++i) (w[i][0] == 'P' ? ps : js).push_back(names.uid(w[i]));
            obs->subscribe<SpikeMessage>(me, ps);
            obs->subscribe<SynapticImpactMessage>(me, js);
            auto idx = [](size_t x) { return std::to_string(x); };
            auto str = [](const std::string &x) { return q(x); };
            say("new", ",\"be\":" + q(w[1]) + ",\"neurons\":" + arr(be->get_supported_neurons(), str) + ",\"synapses\":" +
                           arr(be->get_supported_synapses(), str) + ",\"popidx\":" + arr(be->get_supported_population_indexes(), idx) +
                           ",\"projidx\":" + arr(be->get_supported_projection_indexes(), idx) +
                           ",\"plast\":" + (be->plasticity_supported() ? "true" : "false"));
        }
        else if (w[0] == "pops")  // pops <uid>:<kind>:<size>...
        {
            std::vector<kc::AllPopulationsVariant> v;
            std::vector<std::string> asked;
            for (size_t i = 1; i < w.size(); ++i)
            {
                auto f = split(w[i], ':');
                auto u = names.uid(f[0]);
                size_t n = std::stoul(f[2]);
                if (f[1] == "B") v.push_back(pop<nt::BLIFATNeuron>(u, n));
                else if (f[1] == "SB") v.push_back(pop<nt::SynapticResourceSTDPBLIFATNeuron>(u, n));
                else if (f[1] == "A") v.push_back(pop<nt::AltAILIF>(u, n));
                else if (f[1] == "SA") v.push_back(pop<nt::SynapticResourceSTDPAltAILIFNeuron>(u, n));
                else v.push_back(pop<nt::LIFNeuron>(u, n));
                asked.push_back("[" + q(f[0]) + "," + q(f[1]) + "," + f[2] + "," + std::to_string(v.back().index()) + "]");
            }
            std::string res = "ok";
            try
            {
                be->load_all_populations(v);
            }
            catch (const std::exception &)
            {
                res = "fail";
            }
            be->_uninit();
            say("pops", ",\"asked\":" + arr(asked, [](auto &x) { return x; }) + ",\"res\":" + q(res));
        }
        else if (w[0] == "projs")  // projs <uid>:<kind>:<pre>:<post>:<size>:<delay>:<locked>...
        {
            std::vector<kc::AllProjectionsVariant> v;
            std::vector<std::string> asked;
            for (size_t i = 1; i < w.size(); ++i)
            {
                auto f = split(w[i], ':');
                auto u = names.uid(f[0]), a = names.uid(f[2]), b = names.uid(f[3]);
                size_t n = std::stoul(f[4]);
                uint32_t dl = std::stoul(f[5]);
                bool lk = f[6] == "1";
                if (f[1] == "D") v.push_back(proj<st::DeltaSynapse>(u, a, b, n, dl, lk));
                else if (f[1] == "AD") v.push_back(proj<st::AdditiveSTDPDeltaSynapse>(u, a, b, n, dl, lk));
                else v.push_back(proj<st::SynapticResourceSTDPDeltaSynapse>(u, a, b, n, dl, lk));
                asked.push_back("[" + q(f[0]) + "," + q(f[1]) + "," + q(f[2]) + "," + q(f[3]) + "," + f[4] + "," + f[5] + "," +
                                (lk ? "true" : "false") + "," + std::to_string(v.back().index()) + "]");
            }
            std::string res = "ok";
            try
            {
                be->load_all_projections(v);
            }
            catch (const std::exception &)
            {
                res = "fail";
            }
            be->_uninit();
            say("projs", ",\"asked\":" + arr(asked, [](auto &x) { return x; }) + ",\"res\":" + q(res));
        }
        else if (w[0] == "rmpops" || w[0] == "rmprojs")
        {
            if (w[0] == "rmpops") be->remove_populations(uids(w));
            else be->remove_projections(uids(w));
            w.erase(w.begin());
            say(l.substr(0, l.find(' ')), ",\"us\":" + arr(w, [](auto &x) { return q(x); }));
        }
        else if (w[0] == "learn")
        {
            if (w[1] == "stop") be->stop_learning();
            else be->start_learning();
            say("learn", ",\"on\":" + std::string(w[1] == "stop" ? "false" : "true"));
        }
        else if (w[0] == "run")  // run <steps>
        {
            size_t n = std::stoul(w[1]);
            std::vector<std::string> seen;
            for (size_t k = 0; k < n; ++k)
            {
                size_t c = 0;
                be->start([&](kc::Step) { return c++ < 1; });
                obs->receive_all_messages();
                std::vector<std::string> s, m;
                for (auto &x : obs->unload_messages<SpikeMessage>(me))
                    s.push_back("[" + q(names.name(x.header_.sender_uid_)) + "," + std::to_string(x.neuron_indexes_.size()) + "]");
                for (auto &x : obs->unload_messages<SynapticImpactMessage>(me))
                    m.push_back("[" + q(names.name(x.header_.sender_uid_)) + "," + q(names.name(x.presynaptic_population_uid_)) + "," +
                                q(names.name(x.postsynaptic_population_uid_)) + "," + std::to_string(x.impacts_.size()) + "]");
                auto same = [](const std::string &x) { return x; };
                seen.push_back("{\"s\":" + arr(s, same) + ",\"i\":" + arr(m, same) + "}");
            }
            say("run", ",\"seen\":" + arr(seen, [](auto &x) { return x; }));
        }
        else return 3;
    }
    obs.reset();
    be.reset();
    return 0;
}
