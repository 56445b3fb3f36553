// Runs thread-pool episodes under the controlled scheduler; every line of the script is one episode in its own process.
//   new <workers> <seed> <hb> <program of the owner> [<program of a second submitter>]
// program: P post a task, S post a task that posts two more, J wait for the pool, Y let others run; ',' separates.
#include "kvh.h"
#include "csched.h"

#include <knp/backends/thread_pool/thread_pool.h>

#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <memory>
#include <thread>

using knp::backends::cpu_executors::ThreadPool;

static int fd;
static bool free_run;
static std::atomic<int> next_task{0};
static std::mutex free_mutex;
static thread_local int free_self = -1;
static int free_threads = 100;

static int self()
{
    if (!free_run) return sched::self();
    if (free_self < 0) { std::lock_guard l(free_mutex); free_self = free_threads++; }
    return free_self;
}
static void put(const std::string &s)
{
    std::string l = s + "\n";
    if (write(fd, l.data(), l.size()) < 0) _exit(3);
}
static void ev(const std::string &op, int k = -1)
{
    std::string s = "{\"op\":\"" + op + "\",\"t\":" + std::to_string(self());
    if (k >= 0) s += ",\"k\":" + std::to_string(k);
    s += "}";
    if (free_run) { std::lock_guard l(free_mutex); put(s); }
    else sched::atomically([&] { put(s); });
}
static void breathe()
{
    if (free_run) std::this_thread::yield(); else sched::point();
}

static void post(ThreadPool &pool, bool spawns);
static void task(ThreadPool *pool, int k, bool spawns)
{
    ev("start", k);
    breathe();
    if (spawns) { post(*pool, false); breathe(); post(*pool, false); }
    breathe();
    ev("end", k);
}
static void post(ThreadPool &pool, bool spawns)
{
    int k = next_task++;
    ev("post", k);
    pool.post(task, &pool, k, spawns);
    ev("posted", k);
}
static void run(ThreadPool &pool, const std::string &prog)
{
    for (const auto &o : kvh::split(prog, ','))
    {
        if (o == "P") post(pool, false);
        if (o == "S") post(pool, true);
        if (o == "Y") breathe();
        if (o == "J") { ev("join"); pool.join(); ev("joined"); }
    }
}

static void episode(const std::vector<std::string> &w)
{
    int n = std::atoi(w[1].c_str());
    uint64_t seed = std::strtoull(w[2].c_str(), nullptr, 10);
    bool hb = w[3] == "1" && !free_run;
    std::map<const void *, int> objs;
    put("{\"op\":\"new\",\"t\":0,\"n\":" + std::to_string(n) + ",\"hb\":" + (hb ? "true" : "false") + "}");
    if (free_run) free_self = 0;
    else
    {
        sched::begin(seed, [](const std::string &s) { put("{\"op\":\"" + s + "\",\"t\":-1}"); });
        if (hb) sched::on_sync([&](char c, const void *o, int t) {
            int id = objs.insert({o, static_cast<int>(objs.size()) + 1}).first->second;
            put(std::string("{\"op\":\"") + c + "\",\"t\":" + std::to_string(t) + ",\"k\":" + std::to_string(id) + "}");
        });
    }
    {
        auto pool = std::make_unique<ThreadPool>(n);
        std::thread second;
        if (w.size() > 5) second = std::thread([&] { if (free_run) free_self = 1000; ev("client"); run(*pool, w[5]); });
        run(*pool, w[4]);
        if (second.joinable()) second.join();
        ev("destroy");
        pool.reset();
        int alive = free_run ? 0 : sched::alive();
        ev("destroyed", alive);
    }
    if (!free_run) { sched::on_sync(nullptr); sched::end(); }
    put("{\"op\":\"done\",\"t\":0}");
    _exit(0);
}

int main(int argc, char **argv)
{
    spdlog::set_level(spdlog::level::off);
    free_run = argc > 3 && std::string(argv[3]) == "free";
    std::ifstream in(argv[1]);
    fd = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0644);
    std::string line;
    int bad = 0;
    while (std::getline(in, line))
    {
        auto w = kvh::words(line);
        if (w.empty() || w[0] != "new") continue;
        pid_t p = fork();
        if (p == 0) { alarm(free_run ? 8 : 30); episode(w); }
        int st = 0;
        waitpid(p, &st, 0);
        if (st != 0) put("{\"op\":\"crash\",\"t\":-1,\"k\":" + std::to_string(st) + "}");
        if (st != 0 && ++bad == 2) return 0;
    }
    return 0;
}
