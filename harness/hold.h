// What a backend holds, as JSON.
#pragma once
#include "kvh.h"

#include <knp/core/backend.h>

namespace kvhold
{
using namespace kvh;
namespace kc = knp::core;
namespace nt = knp::neuron_traits;
namespace st = knp::synapse_traits;

// The names of types used by the specification.
template <class T>
std::string tag()
{
    if constexpr (std::is_same_v<T, nt::BLIFATNeuron>) return "BLIFATNeuron";
    else if constexpr (std::is_same_v<T, nt::SynapticResourceSTDPBLIFATNeuron>) return "SynapticResourceSTDPBLIFATNeuron";
    else if constexpr (std::is_same_v<T, nt::AltAILIF>) return "AltAILIF";
    else if constexpr (std::is_same_v<T, nt::SynapticResourceSTDPAltAILIFNeuron>) return "SynapticResourceSTDPAltAILIFNeuron";
    else if constexpr (std::is_same_v<T, nt::LIFNeuron>) return "LIFNeuron";
    else if constexpr (std::is_same_v<T, st::DeltaSynapse>) return "DeltaSynapse";
    else if constexpr (std::is_same_v<T, st::AdditiveSTDPDeltaSynapse>) return "AdditiveSTDPDeltaSynapse";
    else if constexpr (std::is_same_v<T, st::SynapticResourceSTDPDeltaSynapse>) return "SynapticResourceSTDPDeltaSynapse";
}

// "pops":[...],"projs":[...]
inline std::string held(const kc::Backend &be, const Names &names)
{
    std::vector<std::string> ps, js;
    auto d = be.get_network_data();
    for (; *d.population_range.first != *d.population_range.second; ++*d.population_range.first)
    {
        const kc::AllPopulationsVariant v = **d.population_range.first;
        std::visit(
            [&](const auto &p)
            {
                using T = typename std::decay_t<decltype(p)>::PopulationNeuronType;
                ps.push_back("[" + q(names.name(p.get_uid())) + "," + q(tag<T>()) + "," + std::to_string(p.size()) + "]");
            },
            v);
    }
    for (; *d.projection_range.first != *d.projection_range.second; ++*d.projection_range.first)
    {
        const kc::AllProjectionsVariant v = **d.projection_range.first;
        std::visit(
            [&](const auto &p)
            {
                using T = typename std::decay_t<decltype(p)>::ProjectionSynapseType;
                js.push_back("[" + q(names.name(p.get_uid())) + "," + q(tag<T>()) + "," + q(names.name(p.get_presynaptic())) + "," +
                             q(names.name(p.get_postsynaptic())) + "," + std::to_string(p.size()) + "," +
                             (p.is_locked() ? "true" : "false") + "]");
            },
            v);
    }
    auto same = [](const std::string &x) { return x; };
    return "\"pops\":" + arr(ps, same) + ",\"projs\":" + arr(js, same);
}
}  // namespace kvhold
