// Drives a real backend (single- or multi-threaded) over a network, step by step, and records what it does.
//   new <driver json>\t<specification json>   build the network, load it, start
//   step [chan=i,j,...|chan=...]              send the spikes of the channels, run one step
//   lock / unlock                             stop / start learning
#include "kvnet.h"
#ifdef KVH_SCHED
#include "csched.h"
#endif

#ifndef KVH_PY
#include <knp/backends/cpu-multi-threaded/backend.h>
#include <knp/backends/cpu-single-threaded/backend.h>
#endif
#include <knp/core/backend.h>
#include <knp/core/messaging/messaging.h>

#include <rapidjson/document.h>

#include <cmath>
#include <limits>
#include <memory>
#include <optional>
#include <thread>

using namespace kvh;
namespace nt = knp::neuron_traits;
namespace st = knp::synapse_traits;
namespace kc = knp::core;
using kc::messaging::SpikeMessage;
using kc::messaging::SynapticImpactMessage;

static long fix(double x)
{
    double y = x * 4096;
    if (!(std::fabs(y) < 1.9e9) || y != std::nearbyint(y)) return 1999999999;
    return static_cast<long>(y);
}
static long code(uint64_t n)
{
    uint64_t d = std::numeric_limits<uint64_t>::max() - n;
    if (d < 100000000) return 2000000000 - static_cast<long>(d);
    return n < 1900000000 ? static_cast<long>(n) : 1999999999;
}
static long code(int64_t n)
{
    uint64_t d = static_cast<uint64_t>(std::numeric_limits<int64_t>::max()) - static_cast<uint64_t>(n);
    if (n > 0 && d < 100000000) return 2000000000 - static_cast<long>(d);
    return std::llabs(n) < 1900000000 ? static_cast<long>(n) : 1999999999;
}
static std::string bits(float f)
{
    int32_t b;
    std::memcpy(&b, &f, 4);
    return std::to_string(b);
}
static std::string join(std::initializer_list<long> v)
{
    std::string r = "[";
    for (long x : v) r += (r.size() > 1 ? "," : "") + std::to_string(x);
    return r + "]";
}

static std::string obs(const nt::neuron_parameters<nt::BLIFATNeuron> &n, std::initializer_list<long> more = {})
{
    std::string r = join({code(static_cast<uint64_t>(n.n_time_steps_since_last_firing_)), fix(n.additional_threshold_), fix(n.dynamic_threshold_),
                          fix(n.postsynaptic_trace_), fix(n.inhibitory_conductance_), fix(n.potential_),
                          static_cast<long>(n.bursting_phase_), code(n.total_blocking_period_), fix(n.dopamine_value_)});
    for (long x : more) r.insert(r.size() - 1, "," + std::to_string(x));
    return r;
}
static std::string obs(const nt::neuron_parameters<nt::AltAILIF> &n, std::initializer_list<long> more = {})
{
    std::string r = join({fix(n.potential_), fix(n.dopamine_value_), fix(n.additional_threshold_), code(n.activity_time_)});
    for (long x : more) r.insert(r.size() - 1, "," + std::to_string(x));
    return r;
}
static std::string obs(const nt::neuron_parameters<nt::LIFNeuron> &n)
{
    return join({fix(n.potential_), static_cast<long>(n.refract_counter_)});
}
static std::string obs(const nt::neuron_parameters<nt::SynapticResourceSTDPBLIFATNeuron> &n)
{
    return obs(static_cast<const nt::neuron_parameters<nt::BLIFATNeuron> &>(n), {n.is_being_forced_ ? 1 : 0});
}
static std::string obs(const nt::neuron_parameters<nt::SynapticResourceSTDPAltAILIFNeuron> &n)
{
    return obs(static_cast<const nt::neuron_parameters<nt::AltAILIF> &>(n), {n.is_being_forced_ ? 1 : 0});
}

// fine fixed point for the learning quantities: 2^-16
static long fine(double x)
{
    double y = x * 65536;
    return std::fabs(y) < 1.9e9 ? std::lround(y) : 1999999999;
}
static long stepno(uint64_t x) { return x < 1900000000 ? static_cast<long>(x) : 1999999999; }

template <class P>
static void assign(P &p, const rapidjson::Value &o)
{
    kvn::visit(
        p,
        [&](const char *name, auto &x)
        {
            auto it = o.FindMember(name);
            if (it == o.MemberEnd()) return;
            using T = std::decay_t<decltype(x)>;
            if constexpr (std::is_same_v<T, bool>)
                x = it->value.GetInt() != 0;
            else if constexpr (std::is_enum_v<T>)
                x = static_cast<T>(it->value.GetInt());
            else if constexpr (std::is_floating_point_v<T>)
                x = static_cast<T>(it->value.GetDouble());
            else if constexpr (std::is_integral_v<T>)
                x = static_cast<T>(it->value.GetInt64());
        });
}

struct Episode
{
    Names names;
    std::shared_ptr<kc::Backend> be;
    std::optional<kc::MessageEndpoint> chan, obs;
    kc::UID me{};
    bool learn = false;

    template <class N>
    void pop(const rapidjson::Value &v, std::vector<kc::AllPopulationsVariant> &out)
    {
        const auto &ns = v["n"];
        out.emplace_back(kc::Population<N>(
            names.uid(v["id"].GetString()),
            [&](size_t i)
            {
                nt::neuron_parameters<N> p{};
                assign(p, ns[static_cast<rapidjson::SizeType>(i)]);
                return std::make_optional(p);
            },
            ns.Size()));
    }

    template <class S>
    void proj(const rapidjson::Value &v, std::vector<kc::AllProjectionsVariant> &out)
    {
        using P = kc::Projection<S>;
        auto u = [&](const char *k) { return *v[k].GetString() ? names.uid(v[k].GetString()) : kc::UID(false); };
        const auto &ss = v["syn"];
        P p(names.uid(v["id"].GetString()), u("pre"), u("post"),
            [&](size_t i) -> std::optional<typename P::Synapse>
            {
                const auto &y = ss[static_cast<rapidjson::SizeType>(i)];
                typename P::SynapseParameters sp{};
                assign(sp, y);
                return typename P::Synapse{sp, y["s"].GetUint(), y["d"].GetUint()};
            },
            ss.Size());
        if constexpr (std::is_same_v<S, st::AdditiveSTDPDeltaSynapse>)
        {
            auto &sh = p.get_shared_parameters();
            using Pt = typename std::decay_t<decltype(sh)>::ProcessingType;
            if (v.HasMember("stdp"))
                for (auto &m : v["stdp"].GetObject())
                    sh.stdp_populations_[names.uid(m.name.GetString())] =
                        m.value.GetInt() == 0 ? Pt::STDPOnly : Pt::STDPAndSpike;
        }
        if (v.HasMember("locked") && v["locked"].GetInt() == 0)
            p.unlock_weights();
        else
            p.lock_weights();
        out.emplace_back(std::move(p));
    }

    std::string state()
    {
        auto d = be->get_network_data();
        std::string s, ws, ls, ns;
        for (; *d.population_range.first != *d.population_range.second; ++*d.population_range.first)
        {
            auto p = **d.population_range.first;
            std::visit(
                [&](const auto &pop)
                {
                    s += (s.empty() ? "" : ",") + arr(pop, [](const auto &n) { return ::obs(n); });
                    if (!learn) return;
                    ns += (ns.empty() ? "" : ",") + arr(
                                                        pop,
                                                        [](const auto &n)
                                                        {
                                                            using T = std::decay_t<decltype(n)>;
                                                            if constexpr (
                                                                std::is_same_v<
                                                                    T, nt::neuron_parameters<
                                                                           nt::SynapticResourceSTDPBLIFATNeuron>> ||
                                                                std::is_same_v<
                                                                    T, nt::neuron_parameters<
                                                                           nt::SynapticResourceSTDPAltAILIFNeuron>>)
                                                                return join(
                                                                    {fine(n.free_synaptic_resource_),
                                                                     fine(n.stability_), static_cast<long>(n.isi_status_),
                                                                     stepno(n.last_step_), stepno(n.last_spike_step_),
                                                                     stepno(n.first_isi_spike_),
                                                                     n.is_being_forced_ ? 1L : 0L,
                                                                     fine(n.dopamine_value_),
                                                                     fine(n.additional_threshold_)});
                                                            else
                                                                return std::string("[]");
                                                        });
                },
                p);
        }
        for (; *d.projection_range.first != *d.projection_range.second; ++*d.projection_range.first)
        {
            auto p = **d.projection_range.first;
            std::visit(
                [&](const auto &proj)
                {
                    ws += (ws.empty() ? "" : ",") + arr(
                                                        proj,
                                                        [](const auto &y)
                                                        {
                                                            auto w = std::get<kc::synapse_data>(y).weight_;
                                                            return "[" + bits(w) + "," + std::to_string(fix(w)) + "]";
                                                        });
                    if (!learn) return;
                    ls += (ls.empty() ? "" : ",") +
                          arr(proj,
                              [](const auto &y)
                              {
                                  const auto &sp = std::get<kc::synapse_data>(y);
                                  using T = std::decay_t<decltype(sp)>;
                                  auto n = [](uint64_t x) { return std::to_string(x); };
                                  if constexpr (std::is_same_v<T, st::synapse_parameters<st::SynapticResourceSTDPDeltaSynapse>>)
                                      return join(
                                          {fine(sp.weight_), fine(sp.rule_.synaptic_resource_),
                                           stepno(sp.rule_.last_spike_step_), sp.rule_.had_hebbian_update_ ? 1L : 0L,
                                           sp.rule_.has_contributed_ ? 1L : 0L});
                                  else if constexpr (std::is_same_v<T, st::synapse_parameters<st::AdditiveSTDPDeltaSynapse>>)
                                      return "[" + std::to_string(fine(sp.weight_)) + "," +
                                             arr(sp.rule_.presynaptic_spike_times_, n) + "," +
                                             arr(sp.rule_.postsynaptic_spike_times_, n) + "]";
                                  else
                                      return join({fine(sp.weight_)});
                              });
                },
                p);
        }
        std::string r = "\"st\":[" + s + "],\"w\":[" + ws + "]";
        if (learn) r += ",\"ln\":[" + ns + "],\"ls\":[" + ls + "]";
        return r;
    }

    std::vector<std::string> popids, projids;

    static std::shared_ptr<kc::Backend> backend(const rapidjson::Value &d)
    {
#ifdef KVH_PY
        throw std::logic_error("the backend comes from Python");
#else
        if (d["mt"].GetInt())
            return std::make_shared<knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend>(
                d["threads"].GetUint(), d["pp"].GetUint(), d["jp"].GetUint());
        return knp::backends::single_threaded_cpu::SingleThreadedCPUBackend::create();
#endif
    }

    void parts(
        const rapidjson::Value &d, std::vector<kc::AllPopulationsVariant> &pops, std::vector<kc::AllProjectionsVariant> &projs,
        std::vector<kc::UID> &pu, std::vector<kc::UID> &ju)
    {
        for (auto &p : d["pops"].GetArray())
        {
            std::string k = p["kind"].GetString();
            popids.push_back(p["id"].GetString());
            pu.push_back(names.uid(popids.back()));
            if (k == "blifat") pop<nt::BLIFATNeuron>(p, pops);
            else if (k == "srblifat") pop<nt::SynapticResourceSTDPBLIFATNeuron>(p, pops);
            else if (k == "altai") pop<nt::AltAILIF>(p, pops);
            else if (k == "sraltai") pop<nt::SynapticResourceSTDPAltAILIFNeuron>(p, pops);
            else pop<nt::LIFNeuron>(p, pops);
        }
        for (auto &p : d["projs"].GetArray())
        {
            std::string k = p["kind"].GetString();
            projids.push_back(p["id"].GetString());
            ju.push_back(names.uid(projids.back()));
            if (k == "delta") proj<st::DeltaSynapse>(p, projs);
            else if (k == "sr") proj<st::SynapticResourceSTDPDeltaSynapse>(p, projs);
            else proj<st::AdditiveSTDPDeltaSynapse>(p, projs);
        }
    }

    std::string start(const std::string &djson, const std::string &sjson)
    {
        rapidjson::Document d;
        d.Parse(djson.c_str());
        if (d.HasParseError()) throw std::runtime_error("bad json");
        chan.reset();
        obs.reset();
        be.reset();
#ifdef KVH_SCHED
        sched::end();
        if (d.HasMember("sched"))
            sched::begin(d["sched"].GetUint(), [](const std::string &what) {
                std::fprintf(stderr, "the threads are stuck: %s\n", what.c_str());
                _exit(9);
            });
#endif
        names.clear();
        popids.clear();
        projids.clear();
        names.salt = d["salt"].GetUint();
        learn = d.HasMember("learn");
        me = names.uid("observer!");
        be = backend(d);
        std::vector<kc::AllPopulationsVariant> pops;
        std::vector<kc::AllProjectionsVariant> projs;
        std::vector<kc::UID> pu, ju;
        parts(d, pops, projs, pu, ju);
        be->load_all_populations(pops);
        be->load_all_projections(projs);
        for (auto &p : d["projs"].GetArray())
            if (p.HasMember("chans"))
                for (auto &c : p["chans"].GetArray())
                    be->subscribe<SpikeMessage>(names.uid(p["id"].GetString()), {names.uid(c.GetString())});
        obs.emplace(be->get_message_bus().create_endpoint());
        if (!pu.empty()) obs->subscribe<SpikeMessage>(me, pu);
        if (!ju.empty()) obs->subscribe<SynapticImpactMessage>(me, ju);
        chan.emplace(be->get_message_bus().create_endpoint());
        return "{\"ev\":\"reset\",\"net\":" + sjson + "," + state() + "}";
    }

    // Runs several steps in which nothing should happen.
    std::string calm(size_t n)
    {
        auto t = be->get_step();
        size_t seen = 0;
        for (size_t i = 0; i < n; ++i)
        {
            auto now = be->get_step();
            be->start([now](kc::Step s) { return s == now; });
            obs->receive_all_messages();
            seen += obs->unload_messages<SpikeMessage>(me).size();
            for (auto &m : obs->unload_messages<SynapticImpactMessage>(me)) seen += m.impacts_.size();
        }
        return "{\"ev\":\"calm\",\"t\":" + std::to_string(t) + ",\"to\":" + std::to_string(be->get_step()) + ",\"n\":" + std::to_string(n) +
               ",\"seen\":" + std::to_string(seen) + "," + state() + "}";
    }

    std::string step(const std::string &arg)
    {
        auto t = be->get_step();
        std::string in;
        for (auto &m : split(arg, '|'))
        {
            auto eq = m.find('=');
            SpikeMessage msg{{names.uid(m.substr(0, eq)), t}, {}};
            for (auto &i : split(m.substr(eq + 1), ',')) msg.neuron_indexes_.push_back(std::stoul(i));
            in += (in.empty() ? "" : ",") + ("[" + q(m.substr(0, eq)) + "," + std::to_string(t) + "," +
                                             arr(msg.neuron_indexes_, [](auto x) { return std::to_string(x); }) + "]");
            chan->send_message(msg);
        }
        be->start([t](kc::Step s) { return s == t; });
        if (be->get_step() != t + 1) throw std::runtime_error("the step counter did not advance by one");
        obs->receive_all_messages();
        auto spikes = obs->unload_messages<SpikeMessage>(me);
        auto impacts = obs->unload_messages<SynapticImpactMessage>(me);
        std::map<std::string, std::string> sp;
        for (auto &m : spikes)
        {
            // A spike message of another step, or from an unknown population, is shown as an impossible index.
            auto n = names.name(m.header_.sender_uid_);
            auto &s = sp[n];
            if (m.header_.send_time_ != t) s += (s.empty() ? "" : ",") + std::string("-1");
            for (auto i : m.neuron_indexes_) s += (s.empty() ? "" : ",") + std::to_string(i);
        }
        std::string sps, ims;
        for (auto &p : popids)
        {
            sps += (sps.empty() ? "" : ",") + ("[" + sp[p] + "]");
            sp.erase(p);
        }
        auto nm = [&](const kc::UID &u) { return u ? names.name(u) : std::string(); };
        for (auto &m : impacts)
            for (auto &i : m.impacts_)
                ims += (ims.empty() ? "[" : ",[") + q(nm(m.header_.sender_uid_)) + "," +
                       std::to_string(i.connection_index_) + "," + bits(i.impact_value_) + "," +
                       std::to_string(fix(i.impact_value_)) + "," + std::to_string(static_cast<int>(i.synapse_type_)) +
                       "," + std::to_string(i.presynaptic_neuron_index_) + "," +
                       std::to_string(i.postsynaptic_neuron_index_) + "," + (m.is_forcing_ ? "true" : "false") + "," +
                       q(nm(m.presynaptic_population_uid_)) + "," + q(nm(m.postsynaptic_population_uid_)) + "]";
        return "{\"ev\":\"step\",\"t\":" + std::to_string(t) + ",\"in\":[" + in + "],\"sp\":[" + sps + "],\"im\":[" + ims +
               "],\"odd\":" + std::to_string(sp.size()) + "," + state() + "}";
    }
};

#ifndef KVH_NO_MAIN
int main(int argc, char **argv)
{
    quiet();
    if (argc < 3) return 3;
    Out out(argv[2]);
    Episode ep;
    for (auto &l : read_script(argv[1]))
    {
        auto sp = l.find(' ');
        auto op = l.substr(0, sp), arg = sp == std::string::npos ? "" : l.substr(sp + 1);
        try
        {
            if (op == "new")
            {
                auto tab = arg.find('\t');
                out.line(ep.start(arg.substr(0, tab), arg.substr(tab + 1)));
            }
            else if (op == "step") out.line(ep.step(arg));
            else if (op == "calm") out.line(ep.calm(std::stoul(arg)));
            else if (op == "lock") { ep.be->stop_learning(); out.line("{\"ev\":\"lock\"}"); }
            else if (op == "unlock") { ep.be->start_learning(); out.line("{\"ev\":\"unlock\"}"); }
            else return 3;
        }
        catch (const std::exception &e)
        {
            out.line("{\"ev\":\"exception\",\"what\":" + q(e.what()) + "}");
        }
    }
    ep.chan.reset();
    ep.obs.reset();
    ep.be.reset();
#ifdef KVH_SCHED
    sched::end();
#endif
    return 0;
}
#endif
