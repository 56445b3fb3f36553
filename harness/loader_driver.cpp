// Backends loaded from libraries: several loaders, several backends, dropped in any order.
#include "kvh.h"

#include <knp/core/backend.h>
#include <knp/framework/backend_loader.h>

#include <knp/core/messaging/messaging.h>

#include <memory>
#include <thread>

using namespace kvh;
namespace kc = knp::core;

int main(int argc, char **argv)
{
    quiet();
    if (argc < 3) return 3;
    Out out(argv[2]);
    std::map<std::string, std::unique_ptr<knp::framework::BackendLoader>> ls;
    std::map<std::string, std::shared_ptr<kc::Backend>> bs;
    std::map<std::string, std::string> uids;
    struct Ep { knp::core::MessageEndpoint e; std::weak_ptr<kc::Backend> b; knp::core::UID id; };
    std::map<std::string, std::unique_ptr<Ep>> eps;
    // The paths the script names.
    auto path = [](const std::string &n) -> std::string
    {
        if (const char *e = getenv(("KVH_" + n).c_str())) return e;
        return "/nonexistent/" + n;
    };
    auto say = [&](const std::string &op, const std::string &more)
    {
        out.line("{\"op\":" + q(op) + more + ",\"st\":" + arr(bs, [&](auto &b)
        {
            std::string u(b.second->get_uid());
            if (!uids.count(u)) uids[u] = "u" + std::to_string(uids.size() + 1);
            auto n = b.second->get_supported_neurons();
            bool alt = false;
            for (auto &x : n) alt = alt || x == "AltAILIF";
            return "{\"b\":" + q(b.first) + ",\"uid\":" + q(uids[u]) + ",\"kind\":" + q(alt ? "ST" : "MT") + ",\"step\":" +
                   std::to_string(b.second->get_step()) + ",\"count\":" + std::to_string(b.second.use_count()) + "}";
        }) + "}");
    };
    for (auto &l : read_script(argv[1]))
    {
        auto w = words(l);
        if (w[0] == "new")
        {
            bs.clear();
            eps.clear();
            ls.clear();
            uids.clear();
            say("new", "");
        }
        else if (w[0] == "loader")
        {
            ls[w[1]] = std::make_unique<knp::framework::BackendLoader>();
            say("loader", ",\"l\":" + q(w[1]));
        }
        else if (w[0] == "droploader")
        {
            ls.erase(w[1]);
            say("droploader", ",\"l\":" + q(w[1]));
        }
        else if (w[0] == "load")  // load <loader> <path> <backend>
        {
            std::string res = "ok";
            try
            {
                auto b = ls.at(w[1])->load(path(w[2]));
                bs[w[3]] = b;
            }
            catch (const std::exception &)
            {
                res = "fail";
            }
            say("load", ",\"l\":" + q(w[1]) + ",\"p\":" + q(w[2]) + ",\"b\":" + q(w[3]) + ",\"res\":" + q(res));
        }
        else if (w[0] == "is")
        {
            std::string res;
            try
            {
                res = knp::framework::BackendLoader::is_backend(path(w[1])) ? "yes" : "no";
            }
            catch (const std::exception &)
            {
                res = "fail";
            }
            say("is", ",\"p\":" + q(w[1]) + ",\"res\":" + q(res));
        }
        else if (w[0] == "run")  // run <backend> <steps>
        {
            size_t n = std::stoul(w[2]), k = 0;
            bs.at(w[1])->start([&](kc::Step) { return k++ < n; });
            say("run", ",\"b\":" + q(w[1]) + ",\"n\":" + w[2]);
        }
        else if (w[0] == "drop")
        {
            bs.erase(w[1]);
            say("drop", ",\"b\":" + q(w[1]));
        }
        else if (w[0] == "ep")  // ep <backend> <endpoint>
        {
            auto &b = bs.at(w[1]);
            auto e = std::make_unique<Ep>(Ep{b->get_message_bus().create_endpoint(), b, knp::core::UID()});
            e->e.subscribe<knp::core::messaging::SpikeMessage>(e->id, {e->id});
            eps[w[2]] = std::move(e);
            say("ep", ",\"b\":" + q(w[1]) + ",\"e\":" + q(w[2]));
        }
        else if (w[0] == "use")
        {
            auto &e = *eps.at(w[1]);
            e.e.send_message(knp::core::messaging::SpikeMessage{{e.id, 3}, {1, 2}});
            if (auto b = e.b.lock()) b->get_message_bus().route_messages();
            e.e.receive_all_messages();
            auto got = e.e.unload_messages<knp::core::messaging::SpikeMessage>(e.id);
            size_t good = 0;
            for (auto &m : got) good += m.header_.sender_uid_ == e.id && m.header_.send_time_ == 3 && m.neuron_indexes_ == decltype(m.neuron_indexes_){1, 2};
            say("use", ",\"e\":" + q(w[1]) + ",\"got\":" + std::to_string(good + 100 * (got.size() - good)));
        }
        else if (w[0] == "dropep")
        {
            eps.erase(w[1]);
            say("dropep", ",\"e\":" + q(w[1]));
        }
        else return 3;
    }
    bs.clear();
    eps.clear();
    ls.clear();
    return 0;
}
