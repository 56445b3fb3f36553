// Drives builders, network validation, data sets, scoring and normalisers.  One JSON argument per command.
//   new
//   build {"kind":..,"syn":..,"gen":..,"n":..,"m":..,...}        one projection
//   spread {... as build, "times":n}                             the same builder many times: what it produced at all
//   pop {"kind":..,"neuron":..,"n":..,"tags":[..]}
//   net {"pops":[names],"projs":[[name,pre,post],...]}           the network of the following commands
//   connectivity                                                 the validator alone
//   exec {"validators":[{"of":"pop|proj|net","name":..,"issues":[[severity,text],...]},...],"times":n}
//   data {"images":[[bytes]],"labels":[..],"cut":n,"nl":0/1,...}  a data set
//   split {"train":..,"infer":..}, gen {"steps":[...]}, infer {"spikes":[[time,[indexes]],...]}
//   norm {"what":"neurons|synapses","copy":0/1,...}
#include "kvh.h"

#include <knp/core/messaging/messaging.h>
#include <knp/framework/data_processing/classification/image.h>
#include <knp/framework/inference_evaluation/classification/processor.h>
#include <knp/framework/network.h>
#include <knp/framework/network_validation/executor.h>
#include <knp/framework/network_validation/validators/connectivity.h>
#include <knp/framework/normalization/neuron_accessors.h>
#include <knp/framework/normalization/neuron_normalizer.h>
#include <knp/framework/normalization/synapse_accessors.h>
#include <knp/framework/normalization/synapse_normalizer.h>
#include <knp/framework/population/creators.h>
#include <knp/framework/projection/connectors.h>
#include <knp/framework/projection/creators.h>

#include <rapidjson/document.h>

#include <cmath>
#include <deque>
#include <set>

using namespace kvh;
namespace kc = knp::core;
namespace st = knp::synapse_traits;
namespace nt = knp::neuron_traits;
namespace pc = knp::framework::projection::creators;
namespace pg = knp::framework::projection::parameters_generators;
namespace pop = knp::framework::population::creators;
namespace nv = knp::framework::network_validation;
namespace dp = knp::framework::data_processing::classification;
namespace ie = knp::framework::inference_evaluation::classification;
namespace nz = knp::framework::normalization;
using J = rapidjson::Value;

static long L(const J &v, const char *k, long d = 0) { return v.HasMember(k) ? v[k].GetInt64() : d; }
static std::string str(const J &v, const char *k, const char *d = "") { return v.HasMember(k) ? v[k].GetString() : d; }
static std::string num(double x)   // 10 fractional bits
{
    double y = x * 1024;
    if (!(std::fabs(y) < 1e9)) return "999999999";
    return std::to_string(std::llround(y));
}

struct Lib
{
    Names N;
    int serial = 0;

    // ------------------------------------------------------------------ builders
    template <class S>
    using Par = typename kc::Projection<S>::SynapseParameters;
    template <class S>
    static Par<S> par(size_t tag)
    {
        Par<S> p;
        p.weight_ = static_cast<float>(tag);
        p.delay_ = 1 + tag % 7;
        p.output_type_ = static_cast<st::OutputType>(tag % 3);
        return p;
    }
    template <class S>
    static std::string show(const kc::Projection<S> &p)
    {
        return arr(p, [](const auto &s) {
            const auto &d = std::get<kc::synapse_data>(s);
            return "[" + std::to_string(std::get<kc::source_neuron_id>(s)) + "," + std::to_string(std::get<kc::target_neuron_id>(s)) + "," +
                   std::to_string(std::lround(d.weight_)) + "," + std::to_string(d.delay_) + "," + std::to_string(static_cast<int>(d.output_type_)) + "]";
        });
    }
    template <class S>
    kc::Projection<S> make(const J &a, const kc::UID &u, const kc::UID &v, long &calls)
    {
        const std::string kind = str(a, "kind"), gen = str(a, "gen", "pair");
        const size_t n = L(a, "n"), m = L(a, "m"), k = L(a, "k");
        pg::SynGen2ParamsType<S> g2 = [&calls](size_t i, size_t j) { ++calls; return par<S>(1 + i * 97 + j); };
        pg::SynGen1ParamType<S> g1 = [&calls](size_t i) { ++calls; return par<S>(1 + i * 7); };
        if (gen == "copy") g2 = pg::CopySynapseGen<S>(par<S>(77));
        const bool dflt = gen == "default";
#define WITH(f, ...) return dflt ? f(__VA_ARGS__) : f(__VA_ARGS__, g2)
        if (kind == "all") WITH(pc::all_to_all<S>, u, v, n, m);
        if (kind == "aligned") WITH(pc::aligned<S>, u, v, n, m);
        if (kind == "exclusive") WITH(pc::exclusive<S>, u, v, n);
        if (kind == "one") return dflt ? pc::one_to_one<S>(u, v, n) : pc::one_to_one<S>(u, v, n, g1);
        if (kind == "prob") WITH(pc::fixed_probability<S>, u, v, n, m, L(a, "p") / 16.0);
        if (kind == "post") WITH(pc::fixed_number_post<S>, u, v, n, m, k);
        if (kind == "pre") WITH(pc::fixed_number_pre<S>, u, v, n, m, k);
        if (kind == "index")
            return pc::index_based<S>(u, v, n, m, [k, &calls](size_t i, size_t j) -> std::optional<Par<S>> {
                ++calls;
                if ((i * 2 + j) % (k + 1)) return std::nullopt;
                return par<S>(1 + i * 97 + j);
            });
        if (kind == "list" || kind == "deque" || kind == "map")
        {
            std::vector<typename kc::Projection<S>::Synapse> c;
            std::deque<typename kc::Projection<S>::Synapse> dq;
            std::map<std::tuple<size_t, size_t>, Par<S>> mp;
            for (auto &x : a["conns"].GetArray())
            {
                size_t i = x[0].GetUint(), j = x[1].GetUint(), t = x[2].GetUint();
                c.emplace_back(par<S>(t), i, j);
                dq.emplace_back(par<S>(t), i, j);
                mp[{i, j}] = par<S>(t);
            }
            if (kind == "list") return pc::from_container<S, std::vector>(u, v, c);
            if (kind == "deque") return pc::from_container<S, std::deque>(u, v, dq);
            return pc::from_map<S, std::map>(u, v, mp);
        }
        if (kind == "connect" || kind == "connectgen")
        {
            auto src = pop::make_default<nt::BLIFATNeuron>(n);
            auto dst = pop::make_default<nt::AltAILIF>(m);
            N.set("u" + std::to_string(serial), src.get_uid());
            N.set("v" + std::to_string(serial), dst.get_uid());
            if (kind == "connect")
                return dflt ? knp::framework::projection::connect_populations<S>(src, dst)
                            : knp::framework::projection::connect_populations<S>(src, dst, g2);
            typename kc::Projection<S>::SynapseGenerator sg = [k, &calls](size_t i) -> std::optional<typename kc::Projection<S>::Synapse> {
                ++calls;
                if (i % (k + 1)) return std::nullopt;
                return std::make_tuple(par<S>(1 + i * 7), i * 3, i + 2);
            };
            return knp::framework::projection::connect_populations<S>(src, dst, sg, L(a, "iter"));
        }
        throw std::runtime_error("builder " + kind);
    }
    template <class S, class F>
    kc::Projection<S> clone(const J &a, const kc::UID &u, const kc::UID &v, long &calls)
    {
        kc::Projection<F> src(u, v);
        for (auto &x : a["conns"].GetArray())
            src.add_synapses([&](size_t) -> std::optional<typename kc::Projection<F>::Synapse> {
                return std::make_tuple(par<F>(x[2].GetUint()), x[0].GetUint(), x[1].GetUint());
            }, 1);
        for (auto &x : a["drop"].GetArray()) src.remove_synapse(x.GetUint());
        pg::SynGen1ParamType<S> g1 = [&calls](size_t i) { ++calls; return par<S>(1 + i * 7); };
        std::optional<kc::UID> nu, nw;
        if (L(a, "newpre")) nu = N.uid("w" + std::to_string(serial));
        if (L(a, "newpost")) nw = N.uid("z" + std::to_string(serial));
        if (str(a, "gen") == "default") return pc::clone_projection<S, F>(src);
        return pc::clone_projection<S, F>(src, g1, nu, nw);
    }
    template <class S>
    std::string build(const J &a, bool spread)
    {
        ++serial;
        const std::string sn = std::to_string(serial);
        long calls = 0;
        auto one = [&] {
            auto u = N.uid("u" + sn), v = N.uid("v" + sn);
            if (str(a, "kind") == "clone")
            {
                const std::string f = str(a, "from");
                return f == "sr" ? clone<S, st::SynapticResourceSTDPDeltaSynapse>(a, u, v, calls)
                     : f == "add" ? clone<S, st::AdditiveSTDPDeltaSynapse>(a, u, v, calls) : clone<S, st::DeltaSynapse>(a, u, v, calls);
            }
            return make<S>(a, u, v, calls);
        };
        if (spread)
        {
            std::map<std::pair<size_t, size_t>, long> seen;
            long times = L(a, "times");
            for (long i = 0; i < times; ++i)
            {
                auto p = one();
                for (auto &s : p) ++seen[{std::get<kc::source_neuron_id>(s), std::get<kc::target_neuron_id>(s)}];
            }
            return arr(seen, [](const auto &x) { return "[" + std::to_string(x.first.first) + "," + std::to_string(x.first.second) + "," + std::to_string(x.second) + "]"; });
        }
        auto p = one();
        auto nm = [&](const kc::UID &x) { auto s = N.name(x); return s.size() > 1 && s.substr(1) == sn ? s.substr(0, 1) : "?"; };
        return show(p) + ",\"size\":" + std::to_string(p.size()) + ",\"pre\":" + q(nm(p.get_presynaptic())) + ",\"post\":" + q(nm(p.get_postsynaptic())) +
               ",\"calls\":" + std::to_string(calls);
    }

    template <class T>
    std::string population(const J &a)
    {
        const std::string kind = str(a, "kind");
        const size_t n = L(a, "n");
        auto tagged = [](long t) {
            typename kc::Population<T>::NeuronParameters p;
            p.potential_ = t;
            return p;
        };
        std::vector<typename kc::Population<T>::NeuronParameters> c;
        std::deque<typename kc::Population<T>::NeuronParameters> d;
        for (auto &x : a["tags"].GetArray())
        {
            c.push_back(tagged(x.GetInt()));
            d.push_back(tagged(x.GetInt()));
        }
        auto show = [](const auto &p) {
            std::string r = "[";
            for (size_t i = 0; i < p.size(); ++i) r += (i ? "," : "") + std::to_string(std::lround(p[i].potential_));
            return r + "],\"size\":" + std::to_string(p.size());
        };
        if (kind == "list") return show(pop::from_container<T, std::vector>(c));
        if (kind == "deque") return show(pop::from_container<T, std::deque>(d));
        if (kind == "default") return show(pop::make_default<T>(n));
        if (kind == "clone") return show(pop::make_clone<T>(n, tagged(L(a, "tag"))));
        return "[],\"size\":" + std::to_string(pop::make_random<nt::BLIFATNeuron>(n).size());
    }

    // ------------------------------------------------------------------ validation
    std::unique_ptr<knp::framework::Network> net;

    kc::UID end(const std::string &n) { return n == "0" ? kc::UID(false) : N.uid("n" + std::to_string(serial) + n); }
    std::string nm(const kc::UID &u)
    {
        if (!u) return "0";
        auto s = N.name(u), p = "n" + std::to_string(serial);
        return s.compare(0, p.size(), p) ? "?" : s.substr(p.size());
    }
    void network(const J &a)
    {
        ++serial;
        net = std::make_unique<knp::framework::Network>();
        int i = 0;
        for (auto &x : a["pops"].GetArray())
        {
            auto u = end(x.GetString());
            if (i++ % 2)
                net->add_population(kc::Population<nt::BLIFATNeuron>(u, [](size_t) { return kc::Population<nt::BLIFATNeuron>::NeuronParameters(); }, 2));
            else
                net->add_population(kc::Population<nt::LIFNeuron>(u, [](size_t) { return kc::Population<nt::LIFNeuron>::NeuronParameters(); }, 1));
        }
        for (auto &x : a["projs"].GetArray())
        {
            auto u = end(x[0].GetString()), s = end(x[1].GetString()), d = end(x[2].GetString());
            if (i++ % 2)
                net->add_projection(kc::Projection<st::DeltaSynapse>(u, s, d));
            else
                net->add_projection(kc::Projection<st::SynapticResourceSTDPDeltaSynapse>(u, s, d));
        }
    }
    // the object an issue names: the identifiers of this network occurring in its text
    std::string mentions(const std::string &text)
    {
        std::set<std::string> r;
        auto look = [&](const kc::UID &u) { if (text.find(std::string(u)) != std::string::npos) r.insert(nm(u)); };
        for (auto &p : net->get_populations()) std::visit([&](auto &x) { look(x.get_uid()); }, p);
        for (auto &p : net->get_projections()) std::visit([&](auto &x) { look(x.get_uid()); look(x.get_presynaptic()); look(x.get_postsynaptic()); }, p);
        return arr(r, [](auto &s) { return q(s); });
    }
    std::string report(const nv::Report &r)
    {
        return arr(r, [this](const nv::Issue &i) {
            std::string code = i.code_ == nv::Connectivity::make_error_code(nv::Connectivity::population_not_connected)   ? "pop"
                               : i.code_ == nv::Connectivity::make_error_code(nv::Connectivity::projection_not_connected) ? "proj"
                                                                                                                          : "other";
            return "[" + q(i.severity_ == nv::IssueSeverity::error ? "error" : i.severity_ == nv::IssueSeverity::warning ? "warning" : "info") + "," + q(code) + "," +
                   mentions(i.message_) + "]";
        });
    }
    std::string exec_validators(const J &a)
    {
        nv::Executor ex;
        std::vector<std::string> calls;
        std::vector<kc::UID> ids;
        int i = 0;
        for (auto &x : a["validators"].GetArray())
        {
            const std::string of = str(x, "of"), name = str(x, "name");
            const bool named = x.HasMember("name");
            std::vector<std::pair<nv::IssueSeverity, std::string>> issues;
            for (auto &y : x["issues"].GetArray())
            {
                std::string s = y[0].GetString();
                issues.emplace_back(s == "error" ? nv::IssueSeverity::error : s == "warning" ? nv::IssueSeverity::warning : nv::IssueSeverity::info, y[1].GetString());
            }
            auto rep = [&calls, i, issues](const std::string &obj) {
                calls.push_back("[" + std::to_string(i) + "," + q(obj) + "]");
                nv::Report r;
                for (auto &y : issues) r.push_back({y.first, y.second + "@" + obj, std::make_error_code(std::errc::invalid_argument)});
                return r;
            };
            if (of == "pop")
            {
                nv::PopulationValidator v = [this, rep](const auto &p) { return rep(std::visit([this](auto &z) { return nm(z.get_uid()); }, p)); };
                ids.push_back(named ? ex.add_validator(name, v) : ex.add_validator(v));
            }
            else if (of == "proj")
            {
                nv::ProjectionValidator v = [this, rep](const auto &p) { return rep(std::visit([this](auto &z) { return nm(z.get_uid()); }, p)); };
                ids.push_back(named ? ex.add_validator(name, v) : ex.add_validator(v));
            }
            else
            {
                auto *cur = net.get();
                nv::NetworkValidator v = [this, rep, cur](const knp::framework::Network &n) { return rep(&n == cur || n.get_uid() == cur->get_uid() ? "net" : "?"); };
                ids.push_back(named ? ex.add_validator(name, v) : ex.add_validator(v));
            }
            ++i;
        }
        std::string runs;
        for (long k = 0; k < L(a, "times", 1); ++k)
        {
            calls.clear();
            auto r = ex.run_validators(*net);
            runs += (k ? "," : "") + std::string("{\"calls\":") + arr(calls, [](auto &s) { return s; }) + ",\"results\":" + arr(r, [&](const auto &x) {
                int who = -1;
                for (size_t z = 0; z < ids.size(); ++z)
                    if (ids[z] == x.uid_) who = who < 0 ? static_cast<int>(z) : 99;
                return "{\"who\":" + std::to_string(who) + ",\"name\":" + q(x.validator_name_) + ",\"report\":" + arr(x.report_, [](const nv::Issue &y) {
                           return "[" + q(y.severity_ == nv::IssueSeverity::error ? "error" : y.severity_ == nv::IssueSeverity::warning ? "warning" : "info") + "," + q(y.message_) + "," +
                                  q(y.code_ == std::make_error_code(std::errc::invalid_argument) ? "ok" : "changed") + "]";
                       }) + "}";
            }) + "}";
        }
        return "[" + runs + "]";
    }

    // ------------------------------------------------------------------ data sets
    std::unique_ptr<dp::images::Dataset> ds;
    std::function<kc::messaging::SpikeData(kc::Step)> gl, gt, gi;

    static std::string bitstr(const std::vector<bool> &b)
    {
        std::string r = "[";
        for (size_t i = 0; i < b.size(); ++i) r += (i ? "," : "") + std::string(b[i] ? "1" : "0");
        return r + "]";
    }
    template <class T>
    static std::string recs(const T &range)
    {
        std::string r = "[";
        for (auto i = range.first; i != range.second; ++i) r += (i == range.first ? "" : ",") + std::string("[") + std::to_string(i->first) + "," + bitstr(i->second.spikes_) + "]";
        return r + "]";
    }
    std::string data(const J &a)
    {
        ds = std::make_unique<dp::images::Dataset>();
        std::string im, lb;
        for (auto &x : a["images"].GetArray())
            for (auto &b : x.GetArray()) im += static_cast<char>(b.GetInt());
        im.resize(im.size() - std::min<size_t>(im.size(), L(a, "cut")));
        for (auto &x : a["labels"].GetArray()) lb += std::to_string(x.GetInt()) + "\n";
        if (!L(a, "nl") && !lb.empty()) lb.pop_back();
        std::istringstream is(im), ls(lb);
        std::function<dp::images::Dataset::Frame(std::vector<uint8_t> const &)> conv;
        if (L(a, "conv"))
            conv = ds->make_incrementing_image_to_spikes_converter(L(a, "active"), L(a, "factor") / 1024.F);
        else
            conv = [&](const std::vector<uint8_t> &v) {
                dp::images::Dataset::Frame f;
                for (long s = 0; s < L(a, "steps"); ++s)
                    for (auto x : v) f.spikes_.push_back((x >> (s % 8)) & 1);
                return f;
            };
        ds->process_labels_and_images(is, ls, L(a, "max"), L(a, "classes"), L(a, "size"), L(a, "steps"), conv);
        // everything, through a split that trains on all of it
        std::string err;
        size_t total = 0;
        for (size_t n = a["images"].Size() + a["labels"].Size() + 2;; --n)
        {
            try
            {
                ds->split(n, 0);
                total = n;
                break;
            }
            catch (const std::runtime_error &)
            {
                if (!n) break;
            }
        }
        auto s = recs(ds->get_data_for_training());
        return s + ",\"size\":" + std::to_string(ds->get_image_size()) + ",\"classes\":" + std::to_string(ds->get_amount_of_classes()) +
               ",\"steps\":" + std::to_string(ds->get_steps_per_frame());
    }
    std::string split_(const J &a)
    {
        std::string res = "\"ok\"";
        try
        {
            ds->split(L(a, "train"), L(a, "infer"));
        }
        catch (const std::runtime_error &)
        {
            res = "\"refused\"";
        }
        return res + ",\"train\":" + recs(ds->get_data_for_training()) + ",\"infer\":" + recs(ds->get_data_for_inference()) +
               ",\"tsteps\":" + std::to_string(ds->get_steps_amount_for_training()) + ",\"isteps\":" + std::to_string(ds->get_steps_amount_for_inference());
    }
    static std::string idx(const kc::messaging::SpikeData &d)
    {
        return arr(d, [](auto x) { return std::to_string(x); });
    }
    std::string gen(const J &a)
    {
        std::string r = "[";
        bool first = true;
        for (auto &s : a["steps"].GetArray())
        {
            long k = s.GetInt();
            r += (first ? "" : ",") + std::string("[") + std::to_string(k);
            first = false;
            if (L(a, "train")) r += "," + idx(ds->make_training_labels_generator()(k)) + "," + idx(ds->make_training_images_spikes_generator()(k));
            else r += "," + idx(ds->make_inference_images_spikes_generator()(k));
            r += "]";
        }
        return r + "]";
    }
    ie::InferenceResultsProcessor proc;
    std::string infer(const J &a)
    {
        std::vector<kc::messaging::SpikeMessage> ms;
        for (auto &x : a["spikes"].GetArray())
        {
            kc::messaging::SpikeMessage m{{kc::UID(false), static_cast<kc::Step>(x[0].GetInt())}, {}};
            for (auto &i : x[1].GetArray()) m.neuron_indexes_.push_back(i.GetUint());
            ms.push_back(m);
        }
        proc.process_inference_results(ms, *ds);
        std::ostringstream os;
        os.precision(9);
        proc.write_inference_results_to_stream_as_csv(os);
        std::istringstream is(os.str());
        std::string l, rows;
        std::getline(is, l);
        const std::string head = l;
        while (std::getline(is, l))
        {
            auto c = split(l, ',');
            rows += (rows.empty() ? "[" : ",[");
            for (size_t i = 0; i < c.size(); ++i) rows += (i ? "," : "") + (i < 6 ? c[i] : std::to_string(std::llround(std::stod(c[i]) * 1000000)));
            rows += "]";
        }
        return arr(proc.get_inference_results(), [](const ie::InferenceResult &x) {
                   return "[" + std::to_string(x.true_positives_) + "," + std::to_string(x.false_negatives_) + "," + std::to_string(x.false_positives_) + "," +
                          std::to_string(x.true_negatives_) + "," + std::to_string(x.get_total_votes()) + "]";
               }) + ",\"head\":" + q(head) + ",\"csv\":[" + rows + "]";
    }

    // ------------------------------------------------------------------ normalisers
    template <class T>
    static std::string nums(const std::vector<T> &v) { return arr(v, [](double x) { return num(x); }); }
    static std::string values(const knp::framework::Network &n)
    {
        std::vector<std::string> ps, js;
        for (auto &p : n.get_populations())
            std::visit([&](auto &x) {
                std::string r = "[";
                bool first = true;
                for (auto &k : x)
                {
                    r += (first ? "" : ",") + num(k.potential_);
                    first = false;
                }
                ps.push_back(r + "]");
            }, p);
        for (auto &p : n.get_projections())
            std::visit([&](auto &x) {
                js.push_back(arr(x, [](const auto &s) {
                    auto &d = std::get<kc::synapse_data>(s);
                    return "[" + std::to_string(std::get<kc::source_neuron_id>(s)) + "," + std::to_string(std::get<kc::target_neuron_id>(s)) + "," + num(d.weight_) + "," +
                           std::to_string(d.delay_) + "," + std::to_string(static_cast<int>(d.output_type_)) + "]";
                }));
            }, p);
        auto id = [](auto &s) { return s; };
        return "{\"pops\":" + arr(ps, id) + ",\"projs\":" + arr(js, id) + "}";
    }
    template <class T>
    static void addpop(knp::framework::Network &n, const J &tags)
    {
        n.add_population(kc::Population<T>([&](size_t i) {
            typename kc::Population<T>::NeuronParameters p;
            p.potential_ = tags[i].GetInt();
            return p;
        }, tags.Size()));
    }
    template <class S>
    static void addproj(knp::framework::Network &n, const J &cs)
    {
        n.add_projection(kc::Projection<S>(kc::UID(), kc::UID(), [&](size_t i) {
            auto p = par<S>(cs[i][2].GetInt());
            return std::make_tuple(p, cs[i][0].GetUint(), cs[i][1].GetUint());
        }, cs.Size()));
    }
    std::string norm(const J &a)
    {
        knp::framework::Network n;
        int i = 0;
        for (auto &x : a["pops"].GetArray())
        {
            switch (i++ % 4)
            {
                case 0: addpop<nt::BLIFATNeuron>(n, x); break;
                case 1: addpop<nt::LIFNeuron>(n, x); break;
                case 2: addpop<nt::SynapticResourceSTDPBLIFATNeuron>(n, x); break;
                default: addpop<nt::AltAILIF>(n, x);
            }
        }
        i = 0;
        for (auto &x : a["projs"].GetArray())
        {
            switch (i++ % 3)
            {
                case 0: addproj<st::DeltaSynapse>(n, x); break;
                case 1: addproj<st::SynapticResourceSTDPDeltaSynapse>(n, x); break;
                default: addproj<st::AdditiveSTDPDeltaSynapse>(n, x);
            }
        }
        std::string before = values(n);
        std::vector<double> seen;
        const long lo = L(a, "lo"), hi = L(a, "hi"), ol = L(a, "ol"), oh = L(a, "oh");
        nz::Rescaler<double> rs(lo, hi, ol, oh);
        nz::ValueCorrector<double> f = [&seen, rs](const double &x) mutable {
            seen.push_back(x);
            return rs(x);
        };
        std::string copy = "{}";
        if (str(a, "what") == "neurons")
        {
            if (L(a, "copy"))
                copy = values(nz::normalize_neurons<nz::PotentialAccessor, nz::PotentialAccessor>(static_cast<const knp::framework::Network &>(n), f));
            else
                nz::normalize_neurons<nz::PotentialAccessor, nz::PotentialAccessor>(n, f);
        }
        else
        {
            if (L(a, "copy"))
                copy = values(nz::normalize_synapses<nz::WeightAccessor, nz::WeightAccessor>(static_cast<const knp::framework::Network &>(n), f));
            else
                nz::normalize_synapses<nz::WeightAccessor, nz::WeightAccessor>(n, f);
        }
        return "{\"before\":" + before + ",\"after\":" + values(n) + ",\"copy\":" + copy + ",\"seen\":" + nums(seen) + "}";
    }

    std::string exec(const std::string &l)
    {
        auto sp = l.find(' ');
        const std::string op = l.substr(0, sp), arg = sp == std::string::npos ? "{}" : l.substr(sp + 1);
        rapidjson::Document d;
        d.Parse(arg.c_str());
        const J &a = d;
        std::string r;
        if (op == "new")
        {
            N.clear();
            N.salt = L(a, "salt");
            net.reset();
            ds.reset();
            return "{\"ev\":\"reset\"}";
        }
        if (op == "build" || op == "spread")
        {
            const std::string s = str(a, "syn", "delta");
            try
            {
                r = s == "sr" ? build<st::SynapticResourceSTDPDeltaSynapse>(a, op == "spread")
                    : s == "add" ? build<st::AdditiveSTDPDeltaSynapse>(a, op == "spread") : build<st::DeltaSynapse>(a, op == "spread");
            }
            catch (const std::logic_error &)
            {
                return "{\"ev\":\"" + op + "\",\"a\":" + arg + ",\"r\":[],\"refused\":1}";
            }
            r += ",\"refused\":0";
        }
        else if (op == "pop")
        {
            const std::string s = str(a, "neuron");
            r = s == "lif" ? population<nt::LIFNeuron>(a) : s == "altai" ? population<nt::AltAILIF>(a)
                : s == "sr" ? population<nt::SynapticResourceSTDPBLIFATNeuron>(a) : population<nt::BLIFATNeuron>(a);
        }
        else if (op == "net") { network(a); r = "{}"; }
        else if (op == "connectivity") r = report(nv::Connectivity()(*net));
        else if (op == "exec") r = exec_validators(a);
        else if (op == "data") r = data(a);
        else if (op == "split") r = split_(a);
        else if (op == "gen") r = gen(a);
        else if (op == "infer") r = infer(a);
        else if (op == "norm") r = norm(a);
        else throw std::runtime_error("command " + op);
        return "{\"ev\":\"" + op + "\",\"a\":" + arg + ",\"r\":" + r + "}";
    }
};

int main(int argc, char **argv)
{
    quiet();
    auto script = read_script(argv[1]);
    Out out(argv[2]);
    Lib lib;
    for (auto &l : script)
    {
        try
        {
            out.line(lib.exec(l));
        }
        catch (const std::exception &e)
        {
            out.line("{\"ev\":\"exception\",\"what\":" + q(e.what()) + "}");
        }
    }
    return 0;
}
