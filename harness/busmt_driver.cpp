// Several threads use one bus. Every line of the script is one episode in its own process.
//   new <cpu|zmq> <seed> <endpoints> <subscription>;<subscription>... <program of thread 0> <program of thread 1> ...
// subscription: endpoint:type:receiver:sender+sender; program: comma-separated S:<endpoint>:<sender>:<type>, R, C:<endpoint>.
// At the end thread 0 routes and receives everything. Run under the controlled scheduler, or freely with a third argument.
#include "kvh.h"
#include "csched.h"

#include <knp/core/message_bus.h>
#include <knp/core/messaging/messaging.h>

#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <memory>
#include <mutex>
#include <thread>

using namespace knp::core;
using namespace knp::core::messaging;
using kvh::q;

static int fd;
static bool free_run;
static std::mutex log_mutex;
static std::string log_text;
static std::atomic<int> next_id{0}, go{0};
static kvh::Names N;

static void put(const std::string &s)
{
    std::string l = s + "\n";
    if (write(fd, l.data(), l.size()) < 0) _exit(3);
}
static void ev(const std::string &s)
{
    if (free_run) { std::lock_guard l(log_mutex); log_text += s + "\n"; }
    else sched::atomically([&] { put(s); });
}
static std::string body(const SpikeMessage &m)
{
    std::string r;
    for (auto i : m.neuron_indexes_) r += std::to_string(i) + ".";
    return r;
}
static std::string body(const SynapticImpactMessage &m)
{
    std::string r = N.name(m.presynaptic_population_uid_) + "/";
    for (const auto &i : m.impacts_) r += std::to_string(i.connection_index_) + "." + std::to_string(i.postsynaptic_neuron_index_) + ".";
    return r;
}
static MessageVariant make(const std::string &ty, const UID &snd, int id)
{
    if (ty == "S")
    {
        SpikeMessage m{{snd, static_cast<Step>(id)}, {}};
        for (int i = 0; i < id % 4; ++i) m.neuron_indexes_.push_back(id * 10 + i);
        return m;
    }
    SynapticImpactMessage m{{snd, static_cast<Step>(id)}, N.uid("p"), N.uid("q"), false, {}};
    for (int i = 0; i < id % 3; ++i)
        m.impacts_.push_back(SynapticImpact{static_cast<uint64_t>(id), 1.F, knp::synapse_traits::OutputType::EXCITATORY, 0, static_cast<uint32_t>(i)});
    return m;
}
struct Sub { std::string e, ty, rcv; };
static std::vector<Sub> subscriptions;
static std::map<std::string, std::unique_ptr<MessageEndpoint>> eps;
static std::shared_ptr<MessageBus> bus;

template <class M>
static std::string list(MessageEndpoint &e, const std::string &rcv)
{
    std::string r = "[";
    for (const auto &m : e.unload_messages<M>(N.uid(rcv)))
        r += std::string(r.size() > 1 ? "," : "") + "{\"id\":" + std::to_string(m.header_.send_time_) + ",\"snd\":" + q(N.name(m.header_.sender_uid_)) + ",\"b\":" + q(body(m)) + "}";
    return r + "]";
}
static void call(int t, const std::string &o)
{
    auto w = kvh::split(o, ':');
    std::string me = ",\"t\":" + std::to_string(t);
    if (w[0] == "S")
    {
        int id = ++next_id;
        auto m = make(w[3], N.uid(w[2]), id);
        std::string b = std::visit([](const auto &x) { return body(x); }, m);
        ev("{\"op\":\"send\"" + me + ",\"e\":" + q(w[1]) + ",\"id\":" + std::to_string(id) + ",\"ty\":" + q(w[3]) + ",\"snd\":" + q(w[2]) + ",\"b\":" + q(b) + "}");
        eps.at(w[1])->send_message(m);
        ev("{\"op\":\"sent\"" + me + "}");
    }
    else if (w[0] == "R")
    {
        ev("{\"op\":\"route\"" + me + "}");
        bus->route_messages();
        ev("{\"op\":\"routed\"" + me + "}");
    }
    else
    {
        auto &e = *eps.at(w[1]);
        ev("{\"op\":\"recv\"" + me + ",\"e\":" + q(w[1]) + "}");
        e.receive_all_messages();
        std::string g = "[";
        for (const auto &s : subscriptions)
            if (s.e == w[1])
                g += std::string(g.size() > 1 ? "," : "") + "{\"ty\":" + q(s.ty) + ",\"rcv\":" + q(s.rcv) + ",\"msgs\":" +
                     (s.ty == "S" ? list<SpikeMessage>(e, s.rcv) : list<SynapticImpactMessage>(e, s.rcv)) + "}";
        ev("{\"op\":\"received\"" + me + ",\"got\":" + g + "]}");
    }
}

static void episode(const std::vector<std::string> &w)
{
    bus = w[1] == "cpu" ? MessageBus::construct_cpu_bus() : MessageBus::construct_zmq_bus();
    for (int i = 0; i < std::atoi(w[3].c_str()); ++i)
        eps["e" + std::to_string(i)] = std::make_unique<MessageEndpoint>(bus->create_endpoint());
    std::string line = "{\"op\":\"new\",\"t\":0,\"eps\":[";
    for (const auto &e : eps) line += std::string(line.back() == '[' ? "" : ",") + q(e.first);
    line += "],\"subs\":[";
    for (const auto &s : kvh::split(w[4], ';'))
    {
        auto f = kvh::split(s, ':');
        std::vector<UID> snd;
        std::string names;
        for (const auto &n : kvh::split(f[3], '+')) { snd.push_back(N.uid(n)); names += (names.empty() ? "" : ",") + q(n); }
        if (f[1] == "S") eps.at(f[0])->subscribe<SpikeMessage>(N.uid(f[2]), snd);
        else eps.at(f[0])->subscribe<SynapticImpactMessage>(N.uid(f[2]), snd);
        line += std::string(subscriptions.empty() ? "" : ",") + "{\"e\":" + q(f[0]) + ",\"ty\":" + q(f[1]) + ",\"rcv\":" + q(f[2]) + ",\"snd\":[" + names + "]}";
        subscriptions.push_back({f[0], f[1], f[2]});
    }
    // every name exists before the threads start
    N.uid("p"), N.uid("q");
    for (size_t t = 5; t < w.size(); ++t)
        for (const auto &o : kvh::split(w[t], ',')) if (o[0] == 'S') N.uid(kvh::split(o, ':')[2]);
    line += "]}";
    if (free_run) log_text = line + "\n"; else put(line);
    if (!free_run) sched::begin(std::strtoull(w[2].c_str(), nullptr, 10), [](const std::string &s) { put("{\"op\":\"" + s + "\",\"t\":-1}"); });
    {
        std::vector<std::thread> others;
        int n = static_cast<int>(w.size()) - 5;
        auto run = [&](int t) {
            if (free_run) { ++go; while (go < n) {} }
            for (const auto &o : kvh::split(w[5 + t], ',')) call(t, o);
        };
        for (int t = 1; t < n; ++t) others.emplace_back([&run, t] { run(t); });
        run(0);
        for (auto &o : others) o.join();
    }
    call(0, "R");
    for (auto &e : eps) call(0, "C:" + e.first);
    if (!free_run) sched::end();
    ev("{\"op\":\"done\",\"t\":0}");
    if (free_run && write(fd, log_text.data(), log_text.size()) < 0) _exit(3);
    _exit(0);
}

int main(int argc, char **argv)
{
    kvh::quiet();
    free_run = argc > 3 && std::string(argv[3]) == "free";
    std::ifstream in(argv[1]);
    fd = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644);
    std::string line;
    int bad = 0;
    while (std::getline(in, line))
    {
        auto w = kvh::words(line);
        if (w.empty() || w[0] != "new") continue;
        pid_t p = fork();
        if (p == 0) { alarm(free_run ? 20 : 30); episode(w); }
        int st = 0;
        waitpid(p, &st, 0);
        if (st != 0)
        {
            if (free_run) put("{\"op\":\"new\",\"t\":0,\"eps\":[],\"subs\":[]}");
            put("{\"op\":\"crash\",\"t\":-1,\"k\":" + std::to_string(st) + "}");
        }
        if (st != 0 && ++bad == 2) return 0;
    }
    return 0;
}
