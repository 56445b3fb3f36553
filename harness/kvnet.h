// Parameters of neurons and synapses: field visitors, tagging with a value and checking the tag.
#pragma once
#include "kvh.h"

#include <knp/core/population.h>
#include <knp/core/projection.h>
#include <knp/neuron-traits/all_traits.h>
#include <knp/synapse-traits/all_traits.h>

#include <type_traits>

namespace kvn
{
namespace nt = knp::neuron_traits;
namespace st = knp::synapse_traits;

template <class P, class F>
void fields(nt::neuron_parameters<nt::BLIFATNeuron> *, P &p, F f)
{
    f("n_time_steps_since_last_firing", p.n_time_steps_since_last_firing_);
    f("activation_threshold", p.activation_threshold_);
    f("additional_threshold", p.additional_threshold_);
    f("dynamic_threshold", p.dynamic_threshold_);
    f("threshold_decay", p.threshold_decay_);
    f("threshold_increment", p.threshold_increment_);
    f("postsynaptic_trace", p.postsynaptic_trace_);
    f("postsynaptic_trace_decay", p.postsynaptic_trace_decay_);
    f("postsynaptic_trace_increment", p.postsynaptic_trace_increment_);
    f("inhibitory_conductance", p.inhibitory_conductance_);
    f("inhibitory_conductance_decay", p.inhibitory_conductance_decay_);
    f("potential", p.potential_);
    f("pre_impact_potential", p.pre_impact_potential_);
    f("potential_decay", p.potential_decay_);
    f("bursting_phase", p.bursting_phase_);
    f("bursting_period", p.bursting_period_);
    f("reflexive_weight", p.reflexive_weight_);
    f("reversal_inhibitory_potential", p.reversal_inhibitory_potential_);
    f("absolute_refractory_period", p.absolute_refractory_period_);
    f("potential_reset_value", p.potential_reset_value_);
    f("min_potential", p.min_potential_);
    f("total_blocking_period", p.total_blocking_period_);
    f("dopamine_value", p.dopamine_value_);
    f("stochastic_stimulation", p.stochastic_stimulation_);
    f("random_number_generator_state", p.random_number_generator_state_);
}

template <class P, class F>
void fields(nt::neuron_parameters<nt::AltAILIF> *, P &p, F f)
{
    f("is_diff", p.is_diff_);
    f("is_reset", p.is_reset_);
    f("leak_rev", p.leak_rev_);
    f("saturate", p.saturate_);
    f("do_not_save", p.do_not_save_);
    f("potential", p.potential_);
    f("pre_impact_potential", p.pre_impact_potential_);
    f("activation_threshold", p.activation_threshold_);
    f("negative_activation_threshold", p.negative_activation_threshold_);
    f("potential_leak", p.potential_leak_);
    f("potential_reset_value", p.potential_reset_value_);
    f("dopamine_value", p.dopamine_value_);
    f("additional_threshold", p.additional_threshold_);
    f("activity_time", p.activity_time_);
}

template <class P, class F>
void fields(nt::neuron_parameters<nt::LIFNeuron> *, P &p, F f)
{
    f("potential", p.potential_);
    f("potential_reset_value", p.potential_reset_value_);
    f("activation_threshold", p.activation_threshold_);
    f("leak_coefficient", p.leak_coefficient_);
    f("refract_counter", p.refract_counter_);
    f("refract_period", p.refract_period_);
}

template <class N, class P, class F>
void fields(nt::neuron_parameters<nt::SynapticResourceSTDPNeuron<N>> *, P &p, F f)
{
    fields(static_cast<nt::neuron_parameters<N> *>(nullptr), p, f);
    f("synapse_sum_threshold_coefficient", p.synapse_sum_threshold_coefficient_);
    f("dopamine_plasticity_time", p.dopamine_plasticity_time_);
    f("free_synaptic_resource", p.free_synaptic_resource_);
    f("synaptic_resource_threshold", p.synaptic_resource_threshold_);
    f("resource_drain_coefficient", p.resource_drain_coefficient_);
    f("stability", p.stability_);
    f("stability_change_parameter", p.stability_change_parameter_);
    f("stability_change_at_isi", p.stability_change_at_isi_);
    f("isi_max", p.isi_max_);
    f("d_h", p.d_h_);
    f("isi_status", p.isi_status_);
    f("last_step", p.last_step_);
    f("last_spike_step", p.last_spike_step_);
    f("first_isi_spike", p.first_isi_spike_);
    f("is_being_forced", p.is_being_forced_);
}

template <class P, class F>
void fields(st::synapse_parameters<st::DeltaSynapse> *, P &p, F f)
{
    f("weight", p.weight_);
    f("delay", p.delay_);
    f("output_type", p.output_type_);
}

template <class P, class F>
void fields(st::synapse_parameters<st::AdditiveSTDPDeltaSynapse> *, P &p, F f)
{
    fields(static_cast<st::synapse_parameters<st::DeltaSynapse> *>(nullptr), p, f);
    f("tau_plus", p.rule_.tau_plus_);
    f("tau_minus", p.rule_.tau_minus_);
    f("presynaptic_spike_times", p.rule_.presynaptic_spike_times_);
    f("postsynaptic_spike_times", p.rule_.postsynaptic_spike_times_);
}

template <class P, class F>
void fields(st::synapse_parameters<st::SynapticResourceSTDPDeltaSynapse> *, P &p, F f)
{
    fields(static_cast<st::synapse_parameters<st::DeltaSynapse> *>(nullptr), p, f);
    f("synaptic_resource", p.rule_.synaptic_resource_);
    f("w_min", p.rule_.w_min_);
    f("w_max", p.rule_.w_max_);
    f("d_u", p.rule_.d_u_);
    f("dopamine_plasticity_period", p.rule_.dopamine_plasticity_period_);
    f("last_spike_step", p.rule_.last_spike_step_);
    f("had_hebbian_update", p.rule_.had_hebbian_update_);
    f("has_contributed", p.rule_.has_contributed_);
}

template <class P, class F>
void visit(P &p, F f)
{
    fields(static_cast<std::remove_const_t<P> *>(nullptr), p, f);
}

// --- a value of field number i for tag v
template <class T>
T tagged(unsigned v, unsigned i)
{
    if constexpr (std::is_same_v<T, bool>)
        return (v >> (i % 5)) & 1;
    else if constexpr (std::is_enum_v<T>)
        return static_cast<T>((v + i) % 3);
    else if constexpr (std::is_floating_point_v<T>)
        return static_cast<T>(v) + static_cast<T>(i) / 64 - 3;
    else if constexpr (std::is_integral_v<T>)
        return static_cast<T>(v * 64 + i);
    else
    {
        T r;
        for (unsigned k = 0; k < (v + i) % 3; ++k) r.push_back(v + i + k);
        return r;
    }
}

template <class P>
P tag(unsigned v)
{
    P p;
    unsigned i = 0;
    visit(
        p,
        [&](const char *, auto &x)
        {
            x = tagged<std::decay_t<decltype(x)>>(v, i);
            ++i;
        });
    return p;
}

// The tag of a parameter set, or -1 - <field number> when a field does not carry it.
template <class P>
long untag(const P &p)
{
    double key = 0;
    bool have = false;
    unsigned i = 0;
    visit(
        p,
        [&](const char *, const auto &x)
        {
            if constexpr (std::is_floating_point_v<std::decay_t<decltype(x)>>)
            {
                if (!have)
                {
                    key = x + 3 - static_cast<double>(i) / 64;
                    have = true;
                }
            }
            ++i;
        });
    if (key < 0 || key > 1e6 || key != static_cast<double>(static_cast<unsigned>(key))) return -1000;
    auto v = static_cast<unsigned>(key);
    long r = v;
    i = 0;
    visit(
        p,
        [&](const char *, const auto &x)
        {
            if (!(x == tagged<std::decay_t<decltype(x)>>(v, i)) && r >= 0) r = -1 - static_cast<long>(i);
            ++i;
        });
    return r;
}
}  // namespace kvn
