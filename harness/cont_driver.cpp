// C01 / C02: projections and populations under arbitrary histories of their public calls.
#include "kvnet.h"

#include <algorithm>
#include <memory>

using knp::core::Population;
using knp::core::Projection;
using kvh::q;
static kvh::Names N;

struct Base
{
    virtual ~Base() = default;
    virtual std::string run(const std::vector<std::string> &w) = 0;
    virtual std::string state() = 0;
};

static unsigned num(const std::string &s) { return static_cast<unsigned>(std::stoul(s)); }

template <class S>
struct Projs : Base
{
    using P = Projection<S>;
    std::map<std::string, std::unique_ptr<P>> m;

    struct Thrown
    {
    };

    // "f>t:v" or "_" for a generator that gives nothing
    static typename P::SynapseGenerator gen(const std::string &list, long throw_at)
    {
        auto items = kvh::split(list, ',');
        auto g = [items, throw_at](size_t i) -> std::optional<typename P::Synapse>
        {
            if (static_cast<long>(i) == throw_at) throw Thrown{};
            if (items.at(i) == "_") return std::nullopt;
            auto a = kvh::split(items[i], '>');
            auto b = kvh::split(a[1], ':');
            return typename P::Synapse{kvn::tag<typename P::SynapseParameters>(num(b[1])), num(a[0]), num(b[0])};
        };
        return g;
    }

    static std::string syn(const typename P::Synapse &s)
    {
        return "[" + std::to_string(std::get<knp::core::source_neuron_id>(s)) + "," +
               std::to_string(std::get<knp::core::target_neuron_id>(s)) + "," +
               std::to_string(kvn::untag(std::get<knp::core::synapse_data>(s))) + "]";
    }

    std::string run(const std::vector<std::string> &w) override
    {
        const auto &op = w[0], &p = w[1];
        std::string r = ",\"p\":" + q(p);
        auto cnt = [](const std::string &l) { return kvh::split(l, ',').size(); };
        if (op == "make")  // make p pre post how list
        {
            auto pre = N.uid(w[2]), post = N.uid(w[3]);
            if (w[4] == "empty")
                m[p] = std::make_unique<P>(N.uid(p), pre, post);
            else if (w[4] == "gen")
                m[p] = std::make_unique<P>(N.uid(p), pre, post, gen(w[5], -1), cnt(w[5]));
            else if (w[4] == "anonempty")
            {
                m[p] = std::make_unique<P>(pre, post);
                N.set(p, m[p]->get_uid());
            }
            else
            {
                m[p] = std::make_unique<P>(pre, post, gen(w[5], -1), cnt(w[5]));
                N.set(p, m[p]->get_uid());
            }
            r += ",\"pre\":" + q(w[2]) + ",\"post\":" + q(w[3]) + ",\"list\":" + list(w[5]);
        }
        else if (op == "add" || op == "addthrow")
        {
            long at = op == "add" ? -1 : std::stol(w[3]);
            std::string n;
            try
            {
                n = std::to_string(m.at(p)->add_synapses(gen(w[2], at), cnt(w[2])));
            }
            catch (const Thrown &)
            {
                n = "-1";
            }
            r += ",\"n\":" + n + ",\"list\":" + list(w[2]) + ",\"at\":" + std::to_string(at);
        }
        else if (op == "rm")
        {
            m.at(p)->remove_synapse(num(w[2]));
            r += ",\"i\":" + w[2];
        }
        else if (op == "rmif")
        {
            unsigned mod = num(w[2]), rem = num(w[3]);
            size_t n = m.at(p)->remove_synapse_if(
                [&](const auto &s) { return kvn::untag(std::get<knp::core::synapse_data>(s)) % mod == rem; });
            r += ",\"mod\":" + w[2] + ",\"rem\":" + w[3] + ",\"n\":" + std::to_string(n);
        }
        else if (op == "rmpre" || op == "rmpost")
        {
            size_t n = op == "rmpre" ? m.at(p)->remove_presynaptic_neuron_synapses(num(w[2]))
                                     : m.at(p)->remove_postsynaptic_neuron_synapses(num(w[2]));
            r += ",\"x\":" + w[2] + ",\"n\":" + std::to_string(n);
        }
        else if (op == "clear")
            m.at(p)->clear();
        else if (op == "find")  // find p pre|post x
        {
            auto v = m.at(p)->find_synapses(
                num(w[3]), w[2] == "pre" ? P::Search::by_presynaptic : P::Search::by_postsynaptic);
            std::sort(v.begin(), v.end());
            r += ",\"by\":" + q(w[2]) + ",\"x\":" + w[3] +
                 ",\"res\":" + kvh::arr(v, [](size_t i) { return std::to_string(i); });
        }
        else if (op == "set")  // set p i v
        {
            std::get<knp::core::synapse_data>((*m.at(p))[num(w[2])]) =
                kvn::tag<typename P::SynapseParameters>(num(w[3]));
            r += ",\"i\":" + w[2] + ",\"v\":" + w[3];
        }
        else if (op == "copy" || op == "assign" || op == "move")
        {
            if (op == "copy")
                m[w[2]] = std::make_unique<P>(static_cast<const P &>(*m.at(p)));
            else if (op == "assign")
                *m.at(w[2]) = static_cast<const P &>(*m.at(p));
            else
            {
                m[w[2]] = std::make_unique<P>(std::move(*m.at(p)));
                m.erase(p);
            }
            r += ",\"to\":" + q(w[2]);
        }
        else if (op == "lock")
            m.at(p)->lock_weights();
        else if (op == "unlock")
            m.at(p)->unlock_weights();
        else
            exit(3);
        return r;
    }

    static std::string list(const std::string &l)
    {
        return kvh::arr(
            kvh::split(l, ','),
            [](const std::string &s)
            {
                if (s == "_") return std::string("[]");
                auto a = kvh::split(s, '>');
                auto b = kvh::split(a[1], ':');
                return "[" + a[0] + "," + b[0] + "," + b[1] + "]";
            });
    }

    std::string state() override
    {
        return kvh::arr(
            m,
            [](const auto &kv)
            {
                const P &p = *kv.second;
                std::vector<typename P::Synapse> it(p.begin(), p.end());
                bool same = it.size() == p.size();
                for (size_t i = 0; same && i < it.size(); ++i) same = syn(it[i]) == syn(p[i]);
                return "{\"p\":" + q(kv.first) + ",\"uid\":" + q(N.name(p.get_uid())) + ",\"pre\":" +
                       q(N.name(p.get_presynaptic())) + ",\"post\":" + q(N.name(p.get_postsynaptic())) +
                       ",\"size\":" + std::to_string(p.size()) + ",\"same\":" + (same ? "true" : "false") +
                       ",\"locked\":" + (p.is_locked() ? "true" : "false") + ",\"c\":" + kvh::arr(it, syn) + "}";
            });
    }
};

template <class T>
struct Pops : Base
{
    using P = Population<T>;
    std::map<std::string, std::unique_ptr<P>> m;
    using Params = typename P::NeuronParameters;

    static typename P::NeuronGenerator gen(const std::string &list)
    {
        auto items = kvh::split(list, ',');
        return [items](size_t i) -> std::optional<Params>
        {
            if (items.at(i) == "_") return std::nullopt;
            return kvn::tag<Params>(num(items[i]));
        };
    }
    static std::string list(const std::string &l)
    {
        return kvh::arr(kvh::split(l, ','), [](const std::string &s) { return s == "_" ? std::string("-1") : s; });
    }

    std::string run(const std::vector<std::string> &w) override
    {
        const auto &op = w[0], &p = w[1];
        std::string r = ",\"p\":" + q(p);
        auto cnt = [](const std::string &l) { return kvh::split(l, ',').size(); };
        if (op == "make")
        {
            if (w[2] == "uid")
                m[p] = std::make_unique<P>(N.uid(p), gen(w[3]), cnt(w[3]));
            else
            {
                m[p] = std::make_unique<P>(gen(w[3]), cnt(w[3]));
                N.set(p, m[p]->get_uid());
            }
            r += ",\"list\":" + list(w[3]);
        }
        else if (op == "add")
        {
            m.at(p)->add_neurons(gen(w[2]), cnt(w[2]));
            r += ",\"list\":" + list(w[2]);
        }
        else if (op == "rm")
        {
            m.at(p)->remove_neuron(num(w[2]));
            r += ",\"i\":" + w[2];
        }
        else if (op == "rmmany")
        {
            std::vector<size_t> v;
            for (auto &x : kvh::split(w[2], ',')) v.push_back(num(x));
            m.at(p)->remove_neurons(v);
            r += ",\"is\":" + kvh::arr(v, [](size_t i) { return std::to_string(i); });
        }
        else if (op == "set")
        {
            if (w[4] == "call")
                m.at(p)->set_neuron_parameters(num(w[2]), kvn::tag<Params>(num(w[3])));
            else if (w[4] == "index")
                (*m.at(p))[num(w[2])] = kvn::tag<Params>(num(w[3]));
            else
                *(m.at(p)->begin() + num(w[2])) = kvn::tag<Params>(num(w[3]));
            r += ",\"i\":" + w[2] + ",\"v\":" + w[3];
        }
        else if (op == "setall")
        {
            std::vector<Params> v;
            for (auto &x : kvh::split(w[2], ',')) v.push_back(kvn::tag<Params>(num(x)));
            if (w[3] == "move")
                m.at(p)->set_neurons_parameters(std::move(v));
            else
                m.at(p)->set_neurons_parameters(v);
            r += ",\"list\":" + list(w[2]);
        }
        else if (op == "copy" || op == "assign" || op == "move")
        {
            if (op == "copy")
                m[w[2]] = std::make_unique<P>(static_cast<const P &>(*m.at(p)));
            else if (op == "assign")
                *m.at(w[2]) = static_cast<const P &>(*m.at(p));
            else
            {
                m[w[2]] = std::make_unique<P>(std::move(*m.at(p)));
                m.erase(p);
            }
            r += ",\"to\":" + q(w[2]);
        }
        else
            exit(3);
        return r;
    }

    std::string state() override
    {
        return kvh::arr(
            m,
            [](const auto &kv)
            {
                const P &p = *kv.second;
                std::vector<long> a, b, c;
                for (const auto &x : p) a.push_back(kvn::untag(x));
                for (const auto &x : p.get_neurons_parameters()) b.push_back(kvn::untag(x));
                for (size_t i = 0; i < p.size(); ++i) c.push_back(kvn::untag(i % 2 ? p[i] : p.get_neuron_parameters(i)));
                return "{\"p\":" + q(kv.first) + ",\"uid\":" + q(N.name(p.get_uid())) + ",\"size\":" +
                       std::to_string(p.size()) + ",\"same\":" + (a == b && b == c ? "true" : "false") +
                       ",\"c\":" + kvh::arr(a, [](long x) { return std::to_string(x); }) + "}";
            });
    }
};

static std::unique_ptr<Base> make(const std::string &what, const std::string &kind)
{
    using namespace knp::neuron_traits;
    using namespace knp::synapse_traits;
    if (what == "proj")
    {
        if (kind == "0") return std::make_unique<Projs<DeltaSynapse>>();
        if (kind == "1") return std::make_unique<Projs<AdditiveSTDPDeltaSynapse>>();
        return std::make_unique<Projs<SynapticResourceSTDPDeltaSynapse>>();
    }
    if (kind == "0") return std::make_unique<Pops<BLIFATNeuron>>();
    if (kind == "1") return std::make_unique<Pops<AltAILIF>>();
    if (kind == "2") return std::make_unique<Pops<SynapticResourceSTDPBLIFATNeuron>>();
    if (kind == "3") return std::make_unique<Pops<SynapticResourceSTDPAltAILIFNeuron>>();
    return std::make_unique<Pops<LIFNeuron>>();
}

int main(int argc, char **argv)
{
    kvh::quiet();
    kvh::Out out(argv[2]);
    std::unique_ptr<Base> b;
    for (auto &line : kvh::read_script(argv[1]))
    {
        auto w = kvh::words(line);
        std::string ev = "{\"op\":" + q(w[0]);
        if (w[0] == "new")
        {
            N.clear();
            N.salt = std::stoull(w[3]);
            b = make(w[1], w[2]);
        }
        else
            ev += b->run(w);
        out.line(ev + ",\"st\":" + b->state() + "}");
    }
    return 0;
}
