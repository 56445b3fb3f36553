#include "csched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdlib>
#include <vector>

namespace
{
enum State { RUN, WMUTEX, WCOND, WJOIN, EXTERN, DONE, WRW };
struct Thr
{
    int id = 0;
    State st = RUN;
    const void *on = nullptr;      // the object it waits for
    bool timed = false, woken = false, wantw = false;
    int64_t prio = 0;
    std::atomic<int> go{0};
    pthread_t handle{};
    bool have_handle = false;
    void *(*fn)(void *) = nullptr;
    void *arg = nullptr;
    int nopre = 0;
};
struct Mtx { const void *m; Thr *owner; int depth; };
struct Rw { const void *m; Thr *w; int readers; };

// Nothing here may use the interposed functions: a spin lock and raw futexes only.
std::atomic_flag big = ATOMIC_FLAG_INIT;
thread_local int inside = 0;     // the library code used here may be instrumented itself
void lk() { ++inside; while (big.test_and_set(std::memory_order_acquire)) syscall(SYS_sched_yield); }
void ulk() { big.clear(std::memory_order_release); --inside; }

std::atomic<bool> on{false};
thread_local Thr *me = nullptr;
std::vector<Thr *> *thr;
std::vector<Mtx> *mtx;
std::vector<Rw> *rws;
std::function<void(const std::string &)> *stuck;
Thr *cur = nullptr;
std::function<void(char, const void *, int)> *onsync = nullptr;
uint64_t rngs, nsteps;
int policy;
uint64_t memp = 64, syncp = 2, spur = 200;
uint64_t chg[4];
int64_t low = 0;
std::atomic<uint64_t> beat{0};
pthread_t dog;
std::atomic<bool> dogrun{false};

uint64_t rnd()
{
    rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17;
    return rngs * 0x2545F4914F6CDD1DULL >> 11;
}

template <class F> F real(const char *n, const char *v = nullptr)
{
    void *p = v ? dlvsym(RTLD_NEXT, n, v) : nullptr;
    if (!p) p = dlsym(RTLD_NEXT, n);
    return reinterpret_cast<F>(p);
}
#define REAL(name, ret, ...) static auto r_##name = real<ret (*)(__VA_ARGS__)>(#name)

void fwait(std::atomic<int> &a) { while (!a.load()) syscall(SYS_futex, &a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); }
void fwake(std::atomic<int> &a) { a.store(1); syscall(SYS_futex, &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

Mtx *mfind(const void *m) { for (auto &x : *mtx) if (x.m == m) return &x; return nullptr; }
Rw *rwfind(const void *m) { for (auto &x : *rws) if (x.m == m) return &x; rws->push_back({m, nullptr, 0}); return &rws->back(); }

bool enabled(Thr *t)
{
    switch (t->st)
    {
        case RUN: return true;
        case WMUTEX: { Mtx *m = mfind(t->on); return !m || !m->owner; }
        case WCOND: return t->woken;
        case WJOIN: return static_cast<const Thr *>(t->on)->st == DONE;
        case WRW: { Rw *r = rwfind(t->on); return !r->w && (!t->wantw || r->readers == 0); }
        default: return false;
    }
}

// With the big lock held: a synchronisation (A: acquires, R: releases, S: release store, Z: plain store) of the thread.
void sync(char kind, const void *obj, Thr *t = nullptr)
{
    if (!onsync) return;
    Thr *s = me;
    t = t ? t : me;
    me = nullptr;
    (*onsync)(kind, obj, t->id);
    me = s;
}

// With the big lock held: choose who runs next. nullptr: nobody can.
Thr *choose(bool force)
{
    std::vector<Thr *> e;
    for (Thr *t : *thr) if (enabled(t)) e.push_back(t);
    if (spur && rnd() % spur == 0)     // a spurious wake-up
        for (Thr *t : *thr) if (t->st == WCOND && !t->woken && rnd() % 2) { t->woken = true; e.push_back(t); break; }
    if (e.empty())
    {
        for (Thr *t : *thr) if (t->st == WCOND && t->timed) { t->woken = true; e.push_back(t); }
        if (e.empty()) return nullptr;
    }
    if (policy == 1)
    {
        for (auto &c : chg) if (c == nsteps && cur) cur->prio = --low;
        Thr *b = e[0];
        for (Thr *t : e) if (t->prio > b->prio) b = t;
        return b;
    }
    if (!force && cur && cur->st == RUN && rnd() % syncp != 0) return cur;
    return e[rnd() % e.size()];
}

// With the big lock held, called by a thread that has set its own state; returns when it may go on (lock released).
void dispatch(bool force)
{
    Thr *self = me;
    ++nsteps;
    beat.fetch_add(1);
    if (self->st == RUN && cur != self)     // a thread the watchdog had given up comes back
    {
        if (cur) { self->go.store(0); ulk(); fwait(self->go); return; }
    }
    Thr *n = choose(force);
    if (!n)
    {
        bool ext = false;
        for (Thr *t : *thr) ext = ext || t->st == EXTERN;
        if (!ext)
        {
            on.store(false);
            (*stuck)("deadlock");
            _exit(0);
        }
        cur = nullptr;
        self->go.store(0);
        ulk();
        fwait(self->go);
        return;
    }
    cur = n;
    if (n == self) { ulk(); return; }
    self->go.store(0);
    bool fin = self->st == DONE;
    ulk();
    fwake(n->go);
    if (!fin) fwait(self->go);
}

bool managed() { return on.load(std::memory_order_relaxed) && me && !inside; }

void *dogmain(void *)
{
    uint64_t last = 0;
    int still = 0;
    while (dogrun.load())
    {
        timespec ts{0, 100000000};
        syscall(SYS_nanosleep, &ts, nullptr);
        uint64_t b = beat.load();
        if (b != last) { last = b; still = 0; continue; }
        if (++still < 10) continue;      // one second without a step: the running thread is blocked elsewhere
        lk();
        if (on.load() && beat.load() == last)
        {
            if (still > 100)
            {
                on.store(false);
                (*stuck)("hang");
                _exit(0);
            }
            if (cur) { cur->st = EXTERN; }
            Thr *n = choose(true);
            cur = n;
            if (n) { beat.fetch_add(1); ulk(); fwake(n->go); continue; }
        }
        ulk();
    }
    return nullptr;
}

void enter()     // every modelled call begins here: with the lock held and the caller marked as running
{
    lk();
    if (me->st == EXTERN) me->st = RUN;
}

void lock_mutex(const void *m, bool recursive)
{
    for (;;)
    {
        enter();
        Mtx *x = mfind(m);
        if (x && x->owner == me && recursive) { ++x->depth; ulk(); return; }
        me->st = WMUTEX;
        me->on = m;
        dispatch(true);
        lk();
        me->st = RUN;
        x = mfind(m);
        if (!x) { mtx->push_back({m, me, 1}); sync('A', m); ulk(); return; }
        if (!x->owner) { x->owner = me; x->depth = 1; sync('A', m); ulk(); return; }
        ulk();
    }
}

void unlock_locked(const void *m)
{
    Mtx *x = mfind(m);
    sync('R', m);
    if (x && --x->depth <= 0) { x->owner = nullptr; x->depth = 0; }
}

void yield_here(bool force)
{
    enter();
    dispatch(force);
}

void *start(void *p)
{
    Thr *t = static_cast<Thr *>(p);
    me = t;
    fwait(t->go);
    lk();
    sync('A', t);
    ulk();
    void *r = t->fn(t->arg);
    enter();
    sync('R', t);
    t->st = DONE;
    // hand over and leave without waiting
    ++nsteps;
    beat.fetch_add(1);
    if (cur == t || !cur)
    {
        Thr *n = choose(true);
        cur = n;
        if (!n)
        {
            bool ext = false;
            for (Thr *q : *thr) ext = ext || q->st == EXTERN;
            if (!ext) { on.store(false); (*stuck)("deadlock"); _exit(0); }
            ulk();
        }
        else { ulk(); fwake(n->go); }
    }
    else ulk();
    me = nullptr;
    return r;
}
}  // namespace

namespace sched
{
void begin(uint64_t seed, std::function<void(const std::string &)> on_stuck)
{
    thr = new std::vector<Thr *>;
    mtx = new std::vector<Mtx>;
    rws = new std::vector<Rw>;
    stuck = new std::function<void(const std::string &)>(std::move(on_stuck));
    rngs = seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
    if (!rngs) rngs = 1;
    for (int i = 0; i < 8; ++i) rnd();
    nsteps = 0;
    low = 0;
    policy = seed % 3 == 1 ? 1 : 0;
    static const uint64_t mp[] = {0, 16, 64, 256, 1024};
    memp = mp[rnd() % 5];
    syncp = 1 + rnd() % 6;
    static const uint64_t sp[] = {0, 20, 100};
    spur = sp[rnd() % 3];
    uint64_t span = 1ULL << (5 + rnd() % 8);
    for (auto &c : chg) c = rnd() % span;
    Thr *t = new Thr;
    t->prio = rnd() % 1000 + 1;
    thr->push_back(t);
    me = t;
    cur = t;
    if (!dogrun.exchange(true)) real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create", "GLIBC_2.34")(
        &dog, nullptr, dogmain, nullptr);
    on.store(true);
}
void end()
{
    on.store(false);
    me = nullptr;
}
void on_sync(std::function<void(char, const void *, int)> f)
{
    onsync = f ? new std::function<void(char, const void *, int)>(std::move(f)) : nullptr;
}
int alive()
{
    int n = 0;
    for (Thr *t : *thr) n += t->st != DONE && t != me;
    return n;
}
bool active() { return managed(); }
void point() { if (managed() && !me->nopre) yield_here(false); }
int self() { return me ? me->id : -1; }
uint64_t steps() { return nsteps; }
void atomically(const std::function<void()> &f)
{
    Thr *t = me;
    if (t) ++t->nopre;
    if (on.load()) lk();
    bool held = on.load();
    Thr *s = me;
    me = nullptr;           // interposed calls made by f go to the real functions
    f();
    me = s;
    if (held) ulk();
    if (t) --t->nopre;
}
}  // namespace sched

// a memory access of instrumented code
static inline void mem()
{
    if (!managed() || me->nopre || !memp) return;
    if (policy == 1) { if (nsteps < 100000) yield_here(false); return; }
    if (rnd() % memp == 0) yield_here(true);
}

// ------------------------------------------------------------------------------------------ interposed functions
extern "C"
{
int pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!managed()) { REAL(pthread_mutex_lock, int, pthread_mutex_t *); return r_pthread_mutex_lock(m); }
    lock_mutex(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!managed()) { REAL(pthread_mutex_trylock, int, pthread_mutex_t *); return r_pthread_mutex_trylock(m); }
    yield_here(false);
    lk();
    Mtx *x = mfind(m);
    int r = 0;
    if (!x) { mtx->push_back({m, me, 1}); sync('A', m); }
    else if (!x->owner) { x->owner = me; x->depth = 1; sync('A', m); }
    else if (x->owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) ++x->depth;
    else r = EBUSY;
    ulk();
    return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!managed()) { REAL(pthread_mutex_unlock, int, pthread_mutex_t *); return r_pthread_mutex_unlock(m); }
    enter();
    unlock_locked(m);
    dispatch(false);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m)
{
    if (managed())
    {
        enter();
        for (size_t i = 0; i < mtx->size(); ++i) if ((*mtx)[i].m == m) { mtx->erase(mtx->begin() + i); break; }
        ulk();
    }
    return 0;
}
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed)
{
    enter();
    unlock_locked(m);
    me->st = WCOND;
    me->on = c;
    me->timed = timed;
    me->woken = false;
    me->wantw = false;
    dispatch(true);
    lk();
    bool sig = me->wantw;      // set by signal / broadcast
    me->st = RUN;
    ulk();
    lock_mutex(m, false);
    return timed && !sig ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
    if (!managed())
    {
        static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *)>("pthread_cond_wait", "GLIBC_2.3.2");
        return f(c, m);
    }
    return cwait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t)
{
    if (!managed())
    {
        static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, const timespec *)>("pthread_cond_timedwait", "GLIBC_2.3.2");
        return f(c, m, t);
    }
    return cwait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t)
{
    if (!managed())
    {
        static auto f = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)>("pthread_cond_clockwait");
        return f(c, m, k, t);
    }
    return cwait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t *c)
{
    if (!managed())
    {
        static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_signal", "GLIBC_2.3.2");
        return f(c);
    }
    enter();
    std::vector<Thr *> w;
    for (Thr *t : *thr) if (t->st == WCOND && t->on == c && !t->woken) w.push_back(t);
    if (!w.empty()) { Thr *t = w[rnd() % w.size()]; t->woken = t->wantw = true; }
    dispatch(false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!managed())
    {
        static auto f = real<int (*)(pthread_cond_t *)>("pthread_cond_broadcast", "GLIBC_2.3.2");
        return f(c);
    }
    enter();
    for (Thr *t : *thr) if (t->st == WCOND && t->on == c) t->woken = t->wantw = true;
    dispatch(false);
    return 0;
}
int pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    static auto f = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create", "GLIBC_2.34");
    if (!managed()) return f(h, a, fn, arg);
    enter();
    Thr *t = new Thr;
    t->id = static_cast<int>(thr->size());
    t->fn = fn;
    t->arg = arg;
    t->prio = rnd() % 1000 + 1;
    t->st = DONE;                 // until it exists
    ulk();
    int r = f(h, a, start, t);
    if (r) return r;
    lk();
    t->st = RUN;
    t->handle = *h;
    t->have_handle = true;
    thr->push_back(t);
    sync('R', t);
    dispatch(false);
    return 0;
}
int pthread_join(pthread_t h, void **ret)
{
    static auto f = real<int (*)(pthread_t, void **)>("pthread_join", "GLIBC_2.34");
    if (managed())
    {
        enter();
        for (Thr *t : *thr)
            if (t->have_handle && pthread_equal(t->handle, h))
            {
                t->have_handle = false;
                me->st = WJOIN;
                me->on = t;
                dispatch(true);
                lk();
                me->st = RUN;
                sync('A', t);
                break;
            }
        ulk();
    }
    return f(h, ret);
}
int sched_yield(void)
{
    if (managed()) yield_here(true); else syscall(SYS_sched_yield);
    return 0;
}
static int rwlock(pthread_rwlock_t *l, bool w)
{
    for (;;)
    {
        enter();
        me->st = WRW;
        me->on = l;
        me->wantw = w;
        dispatch(true);
        lk();
        me->st = RUN;
        Rw *r = rwfind(l);
        if (!r->w && (!w || r->readers == 0))
        {
            if (w) r->w = me; else ++r->readers;
            sync('A', l);
            ulk();
            return 0;
        }
        ulk();
    }
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l)
{
    if (!managed()) { REAL(pthread_rwlock_wrlock, int, pthread_rwlock_t *); return r_pthread_rwlock_wrlock(l); }
    return rwlock(l, true);
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l)
{
    if (!managed()) { REAL(pthread_rwlock_rdlock, int, pthread_rwlock_t *); return r_pthread_rwlock_rdlock(l); }
    return rwlock(l, false);
}
int pthread_rwlock_unlock(pthread_rwlock_t *l)
{
    if (!managed()) { REAL(pthread_rwlock_unlock, int, pthread_rwlock_t *); return r_pthread_rwlock_unlock(l); }
    enter();
    sync('R', l);
    Rw *r = rwfind(l);
    if (r->w == me) r->w = nullptr; else --r->readers;
    dispatch(false);
    return 0;
}

// ---------------------------------------------------------------- code compiled with -fsanitize=thread calls these
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *) { mem(); } void __tsan_write##n(void *) { mem(); } \
    void __tsan_unaligned_read##n(void *) { mem(); } void __tsan_unaligned_write##n(void *) { mem(); } \
    void __tsan_volatile_read##n(void *) { mem(); } void __tsan_volatile_write##n(void *) { mem(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_read_range(void *, unsigned long) { mem(); }
void __tsan_write_range(void *, unsigned long) { mem(); }
}  // extern "C"
static char fence_obj;
// an atomic operation: what it orders is told to the listener, atomically with the operation
static inline bool acqs(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST || o == __ATOMIC_CONSUME; }
static inline bool rels(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
template <class F> static inline auto atom(const volatile void *a, int o, char kind, F f)
{
    mem();
    if (!managed() || !onsync) return f();
    lk();
    const void *p = const_cast<const void *>(a);
    auto r = f();
    if (kind == 'L') { if (acqs(o)) sync('A', p); }
    else if (kind == 'W') sync(rels(o) ? 'S' : 'Z', p);
    else { if (acqs(o)) sync('A', p); if (rels(o)) sync('R', p); }
    ulk();
    return r;
}
extern "C"
{
void __tsan_atomic_thread_fence(int o)
{
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
    if (!managed() || !onsync) return;
    lk();
    sync('A', &fence_obj);
    sync('R', &fence_obj);
    ulk();
}
void __tsan_atomic_signal_fence(int) {}
#define CAS(b, T, W) \
    int __tsan_atomic##b##_compare_exchange_##W(volatile T *a, T *c, T v, int o, int) \
    { return atom(a, o, 'X', [&] { return (int)__atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }); }
#define RMW(b, T, N) \
    T __tsan_atomic##b##_##N(volatile T *a, T v, int o) \
    { return atom(a, o, 'X', [&] { return __atomic_##N(a, v, __ATOMIC_SEQ_CST); }); }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *a, int o) { return atom(a, o, 'L', [&] { return __atomic_load_n(a, __ATOMIC_SEQ_CST); }); } \
    void __tsan_atomic##b##_store(volatile T *a, T v, int o) { atom(a, o, 'W', [&] { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return 0; }); } \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int o) { return atom(a, o, 'X', [&] { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }); } \
    RMW(b, T, fetch_add) RMW(b, T, fetch_sub) RMW(b, T, fetch_and) RMW(b, T, fetch_or) RMW(b, T, fetch_xor) \
    CAS(b, T, strong) CAS(b, T, weak)
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
}
