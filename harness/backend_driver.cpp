// Runs of a backend with scripted callbacks.
#include "kvh.h"

#include <knp/backends/cpu-multi-threaded/backend.h>
#include <knp/backends/cpu-single-threaded/backend.h>

#include <deque>
#include <memory>
#include <set>
#include <thread>

using namespace kvh;
namespace kc = knp::core;

struct Dev : kc::Device
{
    explicit Dev(const kc::UID &u) { const_cast<kc::UID &>(get_uid()) = u; }
    kc::DeviceType get_type() const override { return kc::DeviceType::CPU; }
    const std::string get_name() const override { return "dev"; }
    float get_power() const override { return 0; }
};

struct Script
{
    std::map<std::string, std::deque<std::string>> q;
    std::string calls;
    kc::Backend *be = nullptr;
    Names names;
    std::vector<std::string> avail;
    bool real = false;  // the backend's own devices

    std::string next(const std::string &k, const std::string &dflt)
    {
        auto &d = q[k];
        if (d.empty()) return dflt;
        auto r = d.front();
        d.pop_front();
        return r;
    }
    // Decisions look like "ok", "stop", "xstop", "uninit", "throw", with "+" or "-" in front for a condition's result.
    bool act(const std::string &k, std::string d)
    {
        bool r = true;
        if (k == "pre" || k == "post")
        {
            r = d[0] == '+';
            d = d.substr(1);
        }
        calls += (calls.empty() ? "" : ",") + ("{\"k\":" + q_(k) + ",\"d\":" + q_(d) + ",\"r\":" + (r ? "true" : "false") +
                                               ",\"step\":" + std::to_string(be->get_step()) + ",\"running\":" +
                                               (be->running() ? "true" : "false") + "}");
        if (d == "stop") be->stop();
        if (d == "xstop") std::thread([this] { be->stop(); }).join();
        if (d == "uninit") be->_uninit();
        if (d == "throw") throw std::runtime_error("scripted");
        return r;
    }
    static std::string q_(const std::string &s) { return kvh::q(s); }
};

template <class B>
struct Probe : B
{
    Script *s;
    explicit Probe(Script *x) : s(x) {}
    void _init() override
    {
        s->act("init", s->next("init", "ok"));
        B::_init();
    }
    void _step() override
    {
        s->act("step", s->next("step", "stop"));
        B::_step();
    }
    std::vector<std::unique_ptr<kc::Device>> get_devices() const override
    {
        if (s->real) return B::get_devices();
        std::vector<std::unique_ptr<kc::Device>> r;
        for (auto &n : s->avail) r.push_back(std::make_unique<Dev>(s->names.uid(n)));
        return r;
    }
};

// A backend that does nothing.
struct Null : kc::Backend
{
    void _init() override {}
    void _step() override { gad_step(); }
    bool plasticity_supported() const override { return false; }
    std::vector<std::string> get_supported_neurons() const override { return {}; }
    std::vector<std::string> get_supported_synapses() const override { return {}; }
    std::vector<size_t> get_supported_population_indexes() const override { return {}; }
    std::vector<size_t> get_supported_projection_indexes() const override { return {}; }
    void load_all_projections(const std::vector<kc::AllProjectionsVariant> &) override {}
    void load_all_populations(const std::vector<kc::AllPopulationsVariant> &) override {}
    void remove_projections(const std::vector<kc::UID> &) override {}
    void remove_populations(const std::vector<kc::UID> &) override {}
    std::vector<std::unique_ptr<kc::Device>> get_devices() const override { return {}; }
    void stop_learning() override {}
    void start_learning() override {}
    DataRanges get_network_data() const override { return {}; }
};

int main(int argc, char **argv)
{
    quiet();
    if (argc < 3) return 3;
    Out out(argv[2]);
    Script s;
    std::unique_ptr<kc::Backend> be;
    auto seen = [&](const std::string &op, const std::string &more)
    {
        std::string sel = arr(be->get_current_devices(), [&](const auto &d) { return q(s.names.name(d->get_uid())); });
        out.line("{\"op\":" + q(op) + more + ",\"step\":" + std::to_string(be->get_step()) + ",\"running\":" +
                 (be->running() ? "true" : "false") + ",\"sel\":" + sel + "}");
    };
    for (auto &l : read_script(argv[1]))
    {
        auto w = words(l);
        if (w[0] == "new")  // new <kind> <devices> <salt>
        {
            be.reset();
            s = Script{};
            s.names.salt = std::stoul(w[3]);
            s.avail = split(w[2], ',');
            s.real = w[1] == "rst" || w[1] == "rmt";
            if (s.real) w[1] = w[1].substr(1);
            if (w[1] == "st") be = std::make_unique<Probe<knp::backends::single_threaded_cpu::SingleThreadedCPUBackend>>(&s);
            else if (w[1] == "mt") be = std::make_unique<Probe<knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend>>(&s);
            else be = std::make_unique<Probe<Null>>(&s);
            s.be = be.get();
            if (s.real)
            {
                s.avail.clear();
                for (auto &d : be->get_devices())
                {
                    s.avail.push_back("d" + std::to_string(s.avail.size() + 1));
                    s.names.set(s.avail.back(), d->get_uid());
                }
            }
            seen("new", "");
        }
        else if (w[0] == "start")  // start plain|pred|two|twopre|twopost|twonone init=.. pre=.. step=.. post=..
        {
            s.q.clear();
            s.calls.clear();
            for (size_t i = 2; i < w.size(); ++i)
            {
                auto eq = w[i].find('=');
                for (auto &d : split(w[i].substr(eq + 1), ',')) s.q[w[i].substr(0, eq)].push_back(d);
            }
            kc::Backend::RunPredicate pre = [&](kc::Step n)
            {
                if (n != be->get_step()) s.calls += (s.calls.empty() ? "" : ",") + std::string("{\"k\":\"wrong step\"}");
                return s.act("pre", s.next("pre", "-ok"));
            };
            kc::Backend::RunPredicate post = [&](kc::Step n)
            {
                if (n != be->get_step()) s.calls += (s.calls.empty() ? "" : ",") + std::string("{\"k\":\"wrong step\"}");
                return s.act("post", s.next("post", "-ok"));
            };
            std::string res = "ok";
            bool hp = w[1] == "pred" || w[1] == "two" || w[1] == "twopre", ho = w[1] == "two" || w[1] == "twopost";
            try
            {
                if (w[1] == "plain") be->start();
                else if (w[1] == "pred") be->start(pre);
                else be->start(hp ? pre : kc::Backend::RunPredicate{}, ho ? post : kc::Backend::RunPredicate{});
            }
            catch (const std::runtime_error &)
            {
                res = "throw";
            }
            seen("start", std::string(",\"pre\":") + (hp ? "true" : "false") + ",\"post\":" + (ho ? "true" : "false") +
                              ",\"calls\":[" + s.calls + "],\"res\":" + q(res));
        }
        else if (w[0] == "stop")
        {
            be->stop();
            seen("stop", "");
        }
        else if (w[0] == "uninit")
        {
            be->_uninit();
            seen("uninit", "");
        }
        else if (w[0] == "rawstep")
        {
            s.q["step"] = {"ok"};
            be->_step();
            seen("rawstep", "");
        }
        else if (w[0] == "devs")
        {
            auto list = be->get_devices();
            seen("devs", ",\"list\":" + arr(list, [&](const auto &d) { return q(s.names.name(d->get_uid())); }) + ",\"avail\":" +
                             arr(s.avail, [](auto &x) { return q(x); }) + ",\"cpu\":" +
                             (std::all_of(list.begin(), list.end(), [](auto &d) { return d->get_type() == kc::DeviceType::CPU; }) ? "true" : "false"));
        }
        else if (w[0] == "selectlisted")  // one of the devices just listed
        {
            auto list = be->get_devices();
            auto &d = list[std::stoul(w[1]) % list.size()];
            std::string n = s.names.name(d->get_uid());
            be->select_device(std::move(d));
            seen("select1", ",\"d\":" + q(n) + ",\"avail\":" + arr(s.avail, [](auto &x) { return q(x); }));
        }
        else if (w[0] == "select")
        {
            std::set<kc::UID> u;
            auto want = split(w[1], ',');
            for (auto &n : want) u.insert(s.names.uid(n));
            std::string res = "ok";
            try
            {
                be->select_devices(u);
            }
            catch (const std::exception &)
            {
                res = "fail";
            }
            seen("select", ",\"want\":" + arr(want, [](auto &x) { return q(x); }) + ",\"avail\":" +
                               arr(s.avail, [](auto &x) { return q(x); }) + ",\"res\":" + q(res));
        }
        else if (w[0] == "select1")
        {
            be->select_device(std::make_unique<Dev>(s.names.uid(w[1])));
            seen("select1", ",\"d\":" + q(w[1]));
        }
        else return 3;
    }
    be.reset();
    return 0;
}
