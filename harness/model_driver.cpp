// Drives whole models: input channels, message handlers, observers, output channels over a real backend.
//   new <driver json>\t<specification json>   build the model, load it with an executor
//   run <n> [h:<handler>@<k> | o:<observer>@<k> | p:@<k>]   run up to n steps; stop() is called at the k-th of them
//   read <channel> <a> <b>                    messages of an output channel
//   update <channel>                          look for new messages of an output channel
//   copy                                      network out of the backend
//   lock / unlock
#define KVH_NO_MAIN
#include "engine_driver.cpp"

#include <knp/framework/model.h>
#include <knp/framework/model_executor.h>
#include <knp/framework/monitoring/model.h>
#include <knp/framework/network.h>
#include <knp/framework/projection/wta.h>
#include <knp/framework/synchronization.h>

#include <set>

namespace fw = knp::framework;

template <class T>
static std::string text(const T &x)
{
    std::ostringstream s;
    s.precision(17);
    if constexpr (std::is_enum_v<T>)
        s << static_cast<long>(x);
    else if constexpr (std::is_arithmetic_v<T>)
        s << +x;
    else
        for (const auto &e : x) s << text(e) << ",";
    return s.str();
}
template <class P>
static std::string all(const P &p)
{
    std::string r;
    kvn::visit(p, [&](const char *n, const auto &x) { r += std::string(n) + "=" + text(x) + ";"; });
    return r;
}

struct Model : Episode
{
    std::unique_ptr<fw::Model> model;
    std::unique_ptr<fw::ModelExecutor> ex;
    std::vector<std::string> inch, outch, hid, wid;

    // what the generators, handlers and observers saw: by step number
    struct Rec
    {
        std::map<std::string, int> asked;
        std::map<std::string, std::vector<std::string>> seen;
        std::vector<std::string> bus, im;
        std::vector<std::vector<std::string>> log, rows;
    };
    std::map<uint64_t, Rec> recs;
    uint64_t cur = 0;
    std::string stop_who;
    uint64_t stop_at = 0;

    // loggers
    struct Log
    {
        std::string kind, proj;
        std::ostringstream out;
        std::map<std::string, size_t> acc;
    };
    std::vector<std::unique_ptr<Log>> logs;

    std::vector<std::string> drain(Log &g)
    {
        std::vector<std::string> r;
        std::istringstream in(g.out.str());
        g.out.str("");
        std::string l;
        while (std::getline(in, l)) r.push_back(l);
        return r;
    }

    std::vector<std::string> rows(const Log &g)
    {
        std::vector<std::string> r;
        if (g.kind != "weights") return r;
        auto d = be->get_network_data();
        for (; *d.projection_range.first != *d.projection_range.second; ++*d.projection_range.first)
        {
            const kc::AllProjectionsVariant v = **d.projection_range.first;
            if (auto *p = std::get_if<kc::Projection<st::SynapticResourceSTDPDeltaSynapse>>(&v); p && p->get_uid() == names.uid(g.proj))
                for (const auto &y : *p)
                {
                    const auto &rule = std::get<kc::synapse_data>(y).rule_;
                    std::ostringstream s;
                    s << rule.synaptic_resource_;
                    r.push_back(
                        "[" + std::to_string(std::get<kc::target_neuron_id>(y)) + "," + std::to_string(std::get<kc::source_neuron_id>(y)) +
                        "," + q(s.str()) + "," + q(std::to_string(rule.last_spike_step_)) + "]");
                }
        }
        return r;
    }

    void collect_logs(Rec &r)
    {
        r.log.resize(logs.size());
        r.rows.clear();
        for (size_t i = 0; i < logs.size(); ++i)
        {
            for (auto &x : drain(*logs[i])) r.log[i].push_back(x);
            r.rows.push_back(rows(*logs[i]));
        }
    }

    void maybe_stop(const std::string &who)
    {
        if (who == stop_who && cur == stop_at) ex->stop();
    }

    static std::string msg(const Names &names, const SpikeMessage &m)
    {
        return "[" + q(names.name(m.header_.sender_uid_)) + "," + stepno_(m.header_.send_time_) + "," +
               arr(m.neuron_indexes_, [](auto x) { return std::to_string(x); }) + "]";
    }
    static std::string stepno_(uint64_t t) { return std::to_string(t < 1000000000 ? t : 999999999); }

    void impacts(const SynapticImpactMessage &m, std::vector<std::string> &out)
    {
        auto nm = [&](const kc::UID &u) { return u ? names.name(u) : std::string(); };
        for (auto &i : m.impacts_)
            out.push_back(
                "[" + q(nm(m.header_.sender_uid_)) + "," + std::to_string(i.connection_index_) + "," + bits(i.impact_value_) +
                "," + std::to_string(fix(i.impact_value_)) + "," + std::to_string(static_cast<int>(i.synapse_type_)) + "," +
                std::to_string(i.presynaptic_neuron_index_) + "," + std::to_string(i.postsynaptic_neuron_index_) + "," +
                (m.is_forcing_ ? "true" : "false") + "," + q(nm(m.presynaptic_population_uid_)) + "," +
                q(nm(m.postsynaptic_population_uid_)) + "]");
    }

    kc::messaging::SpikeData handler(const std::string &id, const std::string &fn, const std::vector<SpikeMessage> &ms)
    {
        auto &r = recs[cur];
        for (auto &m : ms) r.seen["h:" + id].push_back(msg(names, m));
        r.asked["h:" + id] += 1;
        maybe_stop("h:" + id);
        std::set<uint32_t> u;
        if (fn == "const") u.insert(0);
        if (fn == "count") u.insert(ms.size());
        if (fn == "union")
            for (auto &m : ms) u.insert(m.neuron_indexes_.begin(), m.neuron_indexes_.end());
        return {u.begin(), u.end()};
    }

    std::string start(const std::string &djson, const std::string &sjson)
    {
        rapidjson::Document d;
        d.Parse(djson.c_str());
        if (d.HasParseError()) throw std::runtime_error("bad json");
        close();
        names.salt = d["salt"].GetUint();
        me = names.uid("observer!");
        be = backend(d);
        std::vector<kc::AllPopulationsVariant> pops;
        std::vector<kc::AllProjectionsVariant> projs;
        std::vector<kc::UID> pu, ju, su;
        parts(d, pops, projs, pu, ju);
        // the backend may have been loaded before: with the same network (1) or parts of it (2)
        if (int pre = d.HasMember("pre") ? d["pre"].GetInt() : 0)
        {
            be->load_all_populations({pops.begin(), pops.begin() + (pre == 1 ? pops.size() : 1)});
            be->load_all_projections({projs.begin(), projs.begin() + (pre == 1 ? projs.size() : projs.size() / 2)});
        }
        fw::Network net;
        for (auto &p : pops) std::visit([&](auto &x) { net.add_population(std::move(x)); }, p);
        for (auto &p : projs) std::visit([&](auto &x) { net.add_projection(std::move(x)); }, p);
        model = std::make_unique<fw::Model>(std::move(net));
        std::set<std::string> ins, outs;
        for (auto &c : d["inch"].GetArray())
        {
            model->add_input_channel(names.uid(c[0].GetString()), names.uid(c[1].GetString()));
            if (ins.insert(c[0].GetString()).second) inch.push_back(c[0].GetString());
        }
        for (auto &c : d["outch"].GetArray())
        {
            model->add_output_channel(names.uid(c[0].GetString()), names.uid(c[1].GetString()));
            if (outs.insert(c[0].GetString()).second) outch.push_back(c[0].GetString());
        }
        fw::ModelLoader::InputChannelMap gens;
        for (auto &g : d["gens"].GetObject())
        {
            std::string ch = g.name.GetString();
            std::vector<std::vector<uint32_t>> data;
            for (auto &s : g.value.GetArray())
            {
                data.emplace_back();
                for (auto &i : s.GetArray()) data.back().push_back(i.GetUint());
            }
            gens.insert(
                {names.uid(ch), [this, ch, data](kc::Step t) -> kc::messaging::SpikeData
                 {
                     recs[t].asked[ch] += 1;
                     if (data.empty()) return {};
                     auto &x = data[t % data.size()];
                     return {x.begin(), x.end()};
                 }});
        }
        try
        {
            ex = std::make_unique<fw::ModelExecutor>(*model, be, gens);
        }
        catch (const std::logic_error &)
        {
            ex.reset();
            return "{\"ev\":\"refused\",\"m\":" + sjson + "}";
        }
        // winner-take-all handlers added all at once
        wid.clear();
        if (d.HasMember("wta") && d["wta"]["pairs"].Size())
        {
            auto &wt = d["wta"];
            std::vector<size_t> b;
            for (auto &x : wt["b"].GetArray()) b.push_back(x.GetUint());
            std::vector<std::pair<std::vector<kc::UID>, std::vector<kc::UID>>> pairs;
            for (auto &pr : wt["pairs"].GetArray())
            {
                pairs.emplace_back();
                for (auto &x : pr["from"].GetArray()) pairs.back().first.push_back(names.uid(x.GetString()));
                for (auto &x : pr["to"].GetArray()) pairs.back().second.push_back(names.uid(x.GetString()));
            }
            size_t i = 0;
            for (auto &u : fw::projection::add_wta_handlers(*ex, wt["k"].GetUint(), b, pairs))
            {
                wid.push_back("wta" + std::to_string(i++));
                names.set(wid.back(), u);
            }
        }
        for (auto &h : d["handlers"].GetArray())
        {
            std::string id = h["id"].GetString(), fn = h["fn"].GetString();
            std::vector<kc::UID> from, to;
            for (auto &x : h["from"].GetArray()) from.push_back(names.uid(x.GetString()));
            for (auto &x : h["to"].GetArray()) to.push_back(names.uid(x.GetString()));
            hid.push_back(id);
            ex->add_spike_message_handler(
                [this, id, fn](std::vector<SpikeMessage> &ms) { return handler(id, fn, ms); }, from, to, names.uid(id));
        }
        for (auto &o : d["obs"].GetArray())
        {
            std::string id = o["id"].GetString();
            std::vector<kc::UID> from;
            for (auto &x : o["from"].GetArray()) from.push_back(names.uid(x.GetString()));
            if (o["kind"].GetInt() == 0)
                ex->add_observer<SpikeMessage>(
                    [this, id](const std::vector<SpikeMessage> &ms)
                    {
                        for (auto &m : ms) recs[cur].seen["o:" + id].push_back(msg(names, m));
                        maybe_stop("o:" + id);
                    },
                    from);
            else
                ex->add_observer<SynapticImpactMessage>(
                    [this, id](const std::vector<SynapticImpactMessage> &ms)
                    {
                        for (auto &m : ms) impacts(m, recs[cur].seen["o:" + id]);
                        maybe_stop("o:" + id);
                    },
                    from);
        }
        logs.clear();
        if (d.HasMember("logs"))
            for (auto &x : d["logs"].GetArray())
            {
                logs.push_back(std::make_unique<Log>());
                auto &g = *logs.back();
                g.kind = x["kind"].GetString();
                g.proj = x["proj"].GetString();
                size_t period = x["period"].GetUint();
                std::map<kc::UID, std::string> who;
                for (auto &n : x["names"].GetArray()) who.insert({names.uid(n[0].GetString()), n[1].GetString()});
                namespace mm = fw::monitoring::model;
                if (g.kind == "spikes") mm::add_spikes_logger(*ex, who, g.out);
                if (g.kind == "agg") mm::add_aggregated_spikes_logger(*model, who, *ex, g.acc, g.out, period);
                if (g.kind == "weights") mm::add_projection_weights_logger(g.out, *ex, names.uid(g.proj), period);
                if (g.kind == "status") mm::add_status_logger(*ex, *model, g.out, period);
            }
        obs.emplace(be->get_message_bus().create_endpoint());
        su = pu;
        for (auto &c : inch) su.push_back(names.uid(c));
        for (auto &c : hid) su.push_back(names.uid(c));
        for (auto &c : wid) su.push_back(names.uid(c));
        obs->subscribe<SpikeMessage>(me, su);
        if (!ju.empty()) obs->subscribe<SynapticImpactMessage>(me, ju);
        return "{\"ev\":\"reset\",\"log\":" + arr(logs, [&](auto &g) { return strings(drain(*g)); }) + ",\"m\":" + sjson + "," + state() + "," + copy() + "}";
    }

    void close()
    {
        obs.reset();
        ex.reset();
        be.reset();
        model.reset();
        names.clear();
        popids.clear();
        projids.clear();
        inch.clear();
        outch.clear();
        hid.clear();
        logs.clear();
        recs.clear();
    }

    static std::string list(const std::vector<std::string> &v)
    {
        return arr(v, [](const std::string &s) { return s; });
    }

    static std::string strings(const std::vector<std::string> &v)
    {
        return arr(v, [](const std::string &x) { return q(x); });
    }
    static std::string tokens(const std::vector<std::string> &v)
    {
        return arr(v, [](const std::string &x) { return strings(words(x)); });
    }

    std::string run(const std::vector<std::string> &a)
    {
        auto from = be->get_step();
        auto n = std::stoul(a[1]);
        stop_who.clear();
        if (a.size() > 2)
        {
            auto at = a[2].find('@');
            stop_who = a[2].substr(0, at);
            stop_at = from + std::stoul(a[2].substr(at + 1)) - 1;
        }
        recs.clear();
        cur = 999999;
        std::string err;
        // impact messages of a step are collected when the next one begins
        auto collect = [&]
        {
            obs->receive_all_messages();
            for (auto &m : obs->unload_messages<SynapticImpactMessage>(me)) impacts(m, recs[cur].im);
            if (cur != 999999) collect_logs(recs[cur]);
        };
        ex->start(
            [&](kc::Step s)
            {
                collect();
                cur = s;
                maybe_stop("p:");
                return s < from + n;
            });
        auto to = be->get_step();
        if (to > from) cur = to - 1;
        collect();
        for (auto &m : obs->unload_messages<SpikeMessage>(me)) recs[m.header_.send_time_].bus.push_back(msg(names, m));
        std::string steps, out;
        for (auto &[t, r] : recs)
        {
            // steps that were not executed and for which nothing happened are of no interest
            bool any = !r.bus.empty() || !r.im.empty() || !r.seen.empty();
            for (auto &x : r.asked) any = any || x.second;
            std::string s = "{\"t\":" + stepno_(t) + ",\"ask\":" +
                            arr(inch, [&](const std::string &c) { return std::to_string(r.asked[c]); }) + ",\"bus\":" + list(r.bus) +
                            ",\"im\":" + list(r.im) + ",\"h\":" + arr(hid, [&](const std::string &h) { return list(r.seen["h:" + h]); }) +
                            ",\"o\":[";
            bool first = true;
            for (auto &o : obsids)
            {
                s += (first ? "" : ",") + list(r.seen["o:" + o]);
                first = false;
            }
            r.log.resize(logs.size());
            r.rows.resize(logs.size());
            s += "],\"log\":" + arr(r.log, strings) + ",\"tok\":" + arr(r.log, tokens) + ",\"rows\":" + arr(r.rows, list) + "}";
            if (any || (t >= from && t < to)) steps += (steps.empty() ? "" : ",") + s;
        }
        return "{\"ev\":\"run\",\"from\":" + stepno_(from) + ",\"to\":" + stepno_(to) + ",\"n\":" + a[1] + ",\"stop\":" +
               q(stop_who.empty() ? "none" : stop_who == "p:" ? "p" : "in") + ",\"k\":" + std::to_string(stop_who.empty() ? 0 : stop_at - from + 1) +
               ",\"running\":" + (be->running() ? "true" : "false") +
               ",\"steps\":[" + steps + "]}";
    }

    std::vector<std::string> obsids;

    template <class Pops, class Projs>
    std::string dump(const Pops &pops, const Projs &projs)
    {
        auto nm = [&](const kc::UID &u) { return u ? names.name(u) : std::string(); };
        std::vector<std::string> ps, js;
        for (const auto &v : pops)
            std::visit(
                [&](const auto &p)
                {
                    ps.push_back(
                        "{\"id\":" + q(nm(p.get_uid())) + ",\"kind\":" + std::to_string(v.index()) + ",\"n\":" +
                        arr(p, [](const auto &n) { return q(all(n)); }) + "}");
                },
                v);
        for (const auto &v : projs)
            std::visit(
                [&](const auto &p)
                {
                    using S = typename std::decay_t<decltype(p)>::ProjectionSynapseType;
                    std::string sh;
                    if constexpr (std::is_same_v<S, st::AdditiveSTDPDeltaSynapse>)
                    {
                        std::set<std::string> x;
                        for (auto &e : p.get_shared_parameters().stdp_populations_)
                            x.insert(nm(e.first) + "=" + std::to_string(static_cast<int>(e.second)));
                        for (auto &e : x) sh += e + ";";
                    }
                    js.push_back(
                        "{\"id\":" + q(nm(p.get_uid())) + ",\"kind\":" + std::to_string(v.index()) + ",\"pre\":" + q(nm(p.get_presynaptic())) +
                        ",\"post\":" + q(nm(p.get_postsynaptic())) + ",\"locked\":" + (p.is_locked() ? "true" : "false") + ",\"sh\":" + q(sh) +
                        ",\"syn\":" +
                        arr(p,
                            [](const auto &y)
                            {
                                const auto &par = std::get<kc::synapse_data>(y);
                                return "[" + std::to_string(std::get<kc::source_neuron_id>(y)) + "," +
                                       std::to_string(std::get<kc::target_neuron_id>(y)) + "," + std::to_string(par.delay_) + "," +
                                       std::to_string(static_cast<int>(par.output_type_)) + "," + q(all(par)) + "]";
                            }) +
                        "}");
                },
                v);
        std::sort(ps.begin(), ps.end());
        std::sort(js.begin(), js.end());
        return "{\"pops\":" + list(ps) + ",\"projs\":" + list(js) + "}";
    }

    std::string copy() { return copy(model->get_network()); }
    std::string copy(const fw::Network &m)
    {
        std::vector<kc::AllPopulationsVariant> bp;
        std::vector<kc::AllProjectionsVariant> bj;
        auto d = be->get_network_data();
        for (; *d.population_range.first != *d.population_range.second; ++*d.population_range.first) bp.push_back(**d.population_range.first);
        for (; *d.projection_range.first != *d.projection_range.second; ++*d.projection_range.first) bj.push_back(**d.projection_range.first);
        auto c = fw::synchronization::get_network_copy(*be);
        return "\"be\":" + dump(bp, bj) + ",\"copy\":" + dump(c.get_populations(), c.get_projections()) + ",\"orig\":" +
               dump(m.get_populations(), m.get_projections());
    }

    std::string exec(const std::string &l)
    {
        auto a = words(l);
        if (a[0] == "new")
        {
            auto tab = l.find('\t');
            rapidjson::Document d;
            d.Parse(l.substr(4, tab - 4).c_str());
            obsids.clear();
            for (auto &o : d["obs"].GetArray()) obsids.push_back(o["id"].GetString());
            return start(l.substr(4, tab - 4), l.substr(tab + 1));
        }
        if (a[0] == "run") return run(a);
        if (a[0] == "copy") return "{\"ev\":\"copy\"," + state() + "," + copy() + "}";
        if (a[0] == "lock" || a[0] == "unlock")
        {
            a[0] == "lock" ? ex->stop_learning() : ex->start_learning();
            return "{\"ev\":" + q(a[0]) + "}";
        }
        if (a[0] == "update")
        {
            auto r = ex->get_loader().get_output_channel(names.uid(a[1])).update();
            return "{\"ev\":\"update\",\"ch\":" + q(a[1]) + ",\"r\":" + arr(r, [&](auto &m) { return msg(names, m); }) + "}";
        }
        if (a[0] == "read")
        {
            auto r = ex->get_loader().get_output_channel(names.uid(a[1])).read_some_from_buffer(std::stoul(a[2]), std::stoul(a[3]));
            return "{\"ev\":\"read\",\"ch\":" + q(a[1]) + ",\"a\":" + a[2] + ",\"b\":" + a[3] + ",\"r\":" +
                   arr(r, [&](auto &m) { return msg(names, m); }) + "}";
        }
        throw std::runtime_error("unknown command " + l);
    }
};

#ifndef KVH_PY
int main(int argc, char **argv)
{
    quiet();
    if (argc < 3) return 3;
    Out out(argv[2]);
    Model ep;
    for (auto &l : read_script(argv[1]))
    {
        try
        {
            out.line(ep.exec(l));
        }
        catch (const std::exception &e)
        {
            out.line("{\"ev\":\"exception\",\"what\":" + q(e.what()) + "}");
        }
    }
    ep.close();
    return 0;
}
#endif
