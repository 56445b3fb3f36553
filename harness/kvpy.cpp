// Helper module for the Python drivers: parameter objects with chosen fields, and what the C++ side of objects holds.
#define KVH_NO_MAIN
#define KVH_PY
#include "hold.h"
#include "model_driver.cpp"

#include <boost/python.hpp>

namespace py = boost::python;

void bus_part();

static Model G;

// --- identifiers
static void reset(unsigned salt)
{
    G.close();
    G.names.salt = salt;
}
static kc::UID uid(const std::string &n) { return n.empty() ? kc::UID(false) : G.names.uid(n); }
static std::string name(const kc::UID &u) { return u ? G.names.name(u) : std::string(); }
static void called(const std::string &n, const kc::UID &u) { G.names.set(n, u); }

// --- parameters
template <class T>
static py::object value(const T &x)
{
    if constexpr (std::is_same_v<T, bool> || std::is_enum_v<T>)
        return py::object(static_cast<long>(x));
    else if constexpr (std::is_floating_point_v<T>)
        return py::object(static_cast<double>(x));
    else if constexpr (std::is_arithmetic_v<T>)
        return py::object(x);
    else
        return py::object(0);
}

template <class P>
static py::dict dict(const P &p)
{
    py::dict r;
    kvn::visit(p, [&](const char *n, const auto &x) { r[n] = value(x); });
    return r;
}

using B = nt::neuron_parameters<nt::BLIFATNeuron>;
using RB = nt::neuron_parameters<nt::SynapticResourceSTDPBLIFATNeuron>;
using A = nt::neuron_parameters<nt::AltAILIF>;
using D = st::synapse_parameters<st::DeltaSynapse>;
using RD = st::synapse_parameters<st::SynapticResourceSTDPDeltaSynapse>;

template <class P>
static py::object make(const py::object &o)
{
    P p{};
    if (PyLong_Check(o.ptr()))
        p = kvn::tag<P>(py::extract<unsigned>(o)());
    else
    {
        rapidjson::Document d;
        std::string s = py::extract<std::string>(o)();
        d.Parse(s.c_str());
        assign(p, d);
    }
    return py::object(p);
}

// parameters of a kind: fields from a JSON object, or all of them derived from a number
static py::object params(const std::string &kind, const py::object &o)
{
    if (kind == "blifat") return make<B>(o);
    if (kind == "srblifat") return make<RB>(o);
    if (kind == "altai") return make<A>(o);
    if (kind == "delta") return make<D>(o);
    if (kind == "sr") return make<RD>(o);
    throw std::invalid_argument(kind);
}

// makes an existing object hold what one made from the number holds
static void retag(const py::object &o, unsigned v)
{
    if (py::extract<RB &> x(o); x.check()) x() = kvn::tag<RB>(v);
    else if (py::extract<B &> x(o); x.check()) x() = kvn::tag<B>(v);
    else if (py::extract<A &> x(o); x.check()) x() = kvn::tag<A>(v);
    else if (py::extract<RD &> x(o); x.check()) x() = kvn::tag<RD>(v);
    else if (py::extract<D &> x(o); x.check()) x() = kvn::tag<D>(v);
    else throw std::invalid_argument("not a parameter object");
}

static py::dict fields(const py::object &o)
{
    if (py::extract<RB &> x(o); x.check()) return dict(x());
    if (py::extract<B &> x(o); x.check()) return dict(x());
    if (py::extract<A &> x(o); x.check()) return dict(x());
    if (py::extract<RD &> x(o); x.check()) return dict(x());
    if (py::extract<D &> x(o); x.check()) return dict(x());
    throw std::invalid_argument("not a parameter object");
}

// what the parameters of a kind hold that were made from the number
static py::dict tagged(const std::string &kind, unsigned v) { return fields(params(kind, py::object(v))); }

// --- containers: [uid, kind index, pre, post, contents as a list of dictionaries / (source, target, dictionary)]
template <class V>
static py::object container(const V &v)
{
    return std::visit(
        [&](const auto &c)
        {
            using C = std::decay_t<decltype(c)>;
            py::list l;
            py::dict r;
            r["uid"] = name(c.get_uid());
            r["kind"] = v.index();
            if constexpr (boost::mp11::mp_contains<kc::AllPopulations, C>::value)
            {
                for (const auto &x : c) l.append(dict(x));
            }
            else
            {
                r["pre"] = name(c.get_presynaptic());
                r["post"] = name(c.get_postsynaptic());
                for (const auto &x : c)
                    l.append(py::make_tuple(
                        std::get<kc::source_neuron_id>(x), std::get<kc::target_neuron_id>(x), dict(std::get<kc::synapse_data>(x))));
            }
            r["c"] = l;
            return py::object(r);
        },
        v);
}
static py::object pop(const kc::AllPopulationsVariant &v) { return container(v); }
static py::object proj(const kc::AllProjectionsVariant &v) { return container(v); }

static py::object network(const fw::Network &n)
{
    py::list p, j;
    for (const auto &x : n.get_populations()) p.append(container(x));
    for (const auto &x : n.get_projections()) j.append(container(x));
    return py::make_tuple(p, j);
}

static py::object channels(const fw::Model &m)
{
    py::list i, o;
    for (const auto &x : m.get_input_channels()) i.append(py::make_tuple(name(x.first), name(x.second)));
    for (const auto &x : m.get_output_channels()) o.append(py::make_tuple(name(x.first), name(x.second)));
    return py::make_tuple(i, o);
}

// --- runs
static std::string state(const std::shared_ptr<kc::Backend> &be)
{
    G.be = be;
    auto r = G.state();
    G.be.reset();
    return r;
}
static std::string copy(const std::shared_ptr<kc::Backend> &be, const fw::Network &n)
{
    G.be = be;
    auto r = G.copy(n);
    G.be.reset();
    return r;
}
static std::string held(const std::shared_ptr<kc::Backend> &be) { return "{" + kvhold::held(*be, G.names) + "}"; }
static std::string num(double v, bool as_bits) { return as_bits ? bits(static_cast<float>(v)) : std::to_string(fix(v)); }

BOOST_PYTHON_MODULE(kvpy)
{
    quiet();
    py::def("reset", &reset);
    py::def("uid", &uid);
    py::def("name", &name);
    py::def("called", &called);
    py::def("params", &params);
    py::def("fields", &fields);
    py::def("retag", &retag);
    py::def("tagged", &tagged);
    py::def("pop", &pop);
    py::def("proj", &proj);
    py::def("network", &network);
    py::def("channels", &channels);
    py::def("state", &state);
    py::def("copy", &copy);
    py::def("num", &num);
    py::def("held", &held);
    bus_part();
}
