#include "sched.hpp"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <malloc.h>
#include <memory>
#include <opencv2/core/parallel/parallel_backend.hpp>
#include <opencv2/core/utility.hpp>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);

namespace sched {
namespace {

constexpr int maxThreads = 28;
struct Clock
{
    uint32_t c[maxThreads] = {};
    uint32_t& operator[](const int i) { return c[i]; }
    uint32_t operator[](const int i) const { return c[i]; }
};

struct Sem
{
    std::atomic<int> v {0};
    void post()
    {
        v.store(1);
        syscall(SYS_futex, &v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    }
    void wait()
    {
        while (true)
        {
            int e = 1;
            if (v.compare_exchange_strong(e, 0))
                return;
            syscall(SYS_futex, &v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
        }
    }
};

struct Thread
{
    bool used = false, done = true;
    const void* waitMutex = nullptr;
    int waitJoin = -1; // waits for the end of this thread (-2: of all the threads of `group`)
    uint64_t group = 0;
    uint64_t waitGroup = 0;
    Clock vc;
    uintptr_t stackLo = 0, stackHi = 0;
    Sem sem;
    std::function<void()> body;
    pthread_t handle {};
    bool started = false;
};

struct Cell // one 8 byte word
{
    uintptr_t key;
    uint32_t generation;
    uint32_t wc; // last write: clock, thread, bytes
    int8_t wt;
    uint8_t wm;
    uint8_t rm[maxThreads];
    uint32_t rc[maxThreads]; // last read of each thread
    void* wpc;
    void* rpc;
};

struct Choice
{
    int taken, n;
};

struct State
{
    bool on = false;
    Options opt;
    std::vector<Choice> path;
    size_t depth = 0;
    int preemptions = 0;
    int64_t preemptPoints = 0;
    bool forcedDone = false;
    bool frozen = false;
    Thread th[maxThreads];
    int current = 0;
    uint64_t groups = 0;
    std::unordered_map<const void*, std::pair<int, int>> mutexes; // owner, count
    std::unordered_map<const void*, Clock> sync;
    std::vector<Cell> shadow;
    uint32_t generation = 1;
    size_t used = 0;
    std::string race, problem, log;
    uint64_t decisions = 0;
    int live = 0; // threads that exist
};
State* S = nullptr;
thread_local int self = -1;
thread_local int inside = 0;

struct Guard
{
    Guard() { ++inside; }
    ~Guard() { --inside; }
};

inline bool managed() { return S and S->on and self >= 0 and not inside; }

void own_stack(Thread& t)
{
    pthread_attr_t a;
    pthread_getattr_np(pthread_self(), &a);
    void* p;
    size_t n;
    pthread_attr_getstack(&a, &p, &n);
    pthread_attr_destroy(&a);
    t.stackLo = uintptr_t(p);
    t.stackHi = uintptr_t(p) + n;
}

bool runnable(const int i)
{
    const Thread& t = S->th[i];
    if (not t.used or t.done)
        return false;
    if (t.waitMutex)
    {
        auto m = S->mutexes.find(t.waitMutex);
        return m == S->mutexes.end() or m->second.second == 0 or m->second.first == i;
    }
    if (t.waitJoin >= 0)
        return S->th[t.waitJoin].done;
    if (t.waitGroup)
    {
        for (int j = 0; j < maxThreads; ++j)
            if (S->th[j].used and not S->th[j].done and S->th[j].group == t.waitGroup)
                return false;
        return true;
    }
    return true;
}
int choose(const int n)
{
    if (n <= 1)
        return 0;
    ++S->decisions;
    if (S->depth < S->path.size())
    {
        const int k = S->path[S->depth++].taken;
        if (k < n)
            return k;
        S->problem = "the execution did not follow the schedule";
        return 0;
    }
    S->path.push_back({0, n});
    ++S->depth;
    return 0;
}
void merge(Clock& a, const Clock& b)
{
    for (int i = 0; i < maxThreads; ++i)
        a[i] = std::max(a[i], b[i]);
}
void acquire(const void* o) { merge(S->th[self].vc, S->sync[o]); }
void release(const void* o)
{
    merge(S->sync[o], S->th[self].vc);
    ++S->th[self].vc[self];
}

// gives the processor to `next`; returns when this thread is chosen again
void hand_over(const int next)
{
    if (next == self)
        return;
    const int me = self;
    S->current = next;
    S->th[next].sem.post();
    S->th[me].sem.wait();
}
// Who runs next.  Without intervention: the current thread if it can, otherwise the next one that can.  Choosing another one costs
// one unit of the bound.
int pick(const char* what, const bool canContinue)
{
    int options[maxThreads], n = 0;
    for (int i = 0; i < maxThreads; ++i)
    {
        const int t = (self + i) % maxThreads;
        if (i == 0 ? canContinue : runnable(t))
            options[n++] = t;
    }
    if (n == 0)
    {
        // nobody can continue: this execution is lost
        fprintf(stderr, "deadlock at %s\n", what);
        abort();
    }
    if (n == 1 or S->frozen)
        return options[0];
    int k = 0;
    const bool forced = S->opt.first >= 0 and not S->forcedDone and S->preemptPoints == S->opt.first;
    const bool wait = S->opt.first >= 0 and not S->forcedDone and S->preemptPoints < S->opt.first;
    ++S->preemptPoints;
    if (forced)
    {
        S->forcedDone = true;
        k = 1 + choose(n - 1);
    }
    else if (not wait and S->preemptions < S->opt.bound)
        k = choose(n);
    if (k > 0)
    {
        ++S->preemptions;
        if (S->log.size() < 4000)
            S->log += " thread " + std::to_string(options[k]) + " runs after thread " + std::to_string(self) + " at point " + std::to_string(S->preemptPoints - 1) + " (" + what + ");";
    }
    return options[k];
}
// the current thread is at a synchronisation (or blocked): decide who continues
void reschedule(const char* what)
{
    const bool canContinue = runnable(self);
    if (canContinue and S->live <= 1)
        return;
    hand_over(pick(what, canContinue));
}

int real_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p)
{
    static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
    return real(t, a, f, p);
}
int real_join(pthread_t t, void** r)
{
    static auto real = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
    return real(t, r);
}
void* entry(void* p)
{
    const int id = int(intptr_t(p));
    self = id;
    {
        Guard g;
        Thread& t = S->th[id];
        own_stack(t);
        t.started = true;
        t.sem.wait();
    }
    try
    {
        S->th[id].body();
    }
    catch (...)
    {
        std::terminate();
    }
    Guard g;
    Thread& t = S->th[id];
    t.done = true;
    // somebody else continues; this thread never runs again
    const int k = pick("end of a thread", false);
    S->current = k;
    S->th[k].sem.post();
    self = -1;
    return nullptr;
}
int create(const std::function<void()>& f, const uint64_t group)
{
    int id = -1;
    for (int i = 1; i < maxThreads; ++i)
        if (not S->th[i].used)
        {
            id = i;
            break;
        }
    if (id < 0)
    {
        fprintf(stderr, "too many threads\n");
        abort();
    }
    Thread& t = S->th[id];
    t.used = true;
    t.done = false;
    t.waitMutex = nullptr;
    t.waitJoin = -1;
    t.waitGroup = 0;
    t.group = group;
    t.vc = S->th[self].vc;
    ++t.vc[id];
    ++S->th[self].vc[self];
    ++S->live;
    t.sem.v = 0;
    t.body = f;
    t.started = false;
    real_create(&t.handle, nullptr, entry, (void*)(intptr_t)id);
    return id;
}
void finish(const int id)
{
    Thread& t = S->th[id];
    real_join(t.handle, nullptr);
    merge(S->th[self].vc, t.vc);
    t.used = false;
    t.body = nullptr;
    --S->live;
}

std::string where(void* pc)
{
    Dl_info i;
    if (dladdr(pc, &i) and i.dli_sname)
        return i.dli_sname;
    char b[32];
    snprintf(b, sizeof b, "%p", pc);
    return b;
}
void report_race(const char* a, const int ta, void* pa, const char* b, const int tb, void* pb)
{
    if (S->race.empty())
        S->race = std::string(a) + " by thread " + std::to_string(ta) + " in " + where(pa) + " and " + b + " by thread " + std::to_string(tb) + " in " + where(pb) + " are not ordered";
}
Cell* cell(const uintptr_t w, const bool create)
{
    if (S->shadow.empty())
        S->shadow.resize(size_t(1) << 16);
    if (create and S->used * 2 > S->shadow.size())
    {
        std::vector<Cell> old;
        old.swap(S->shadow);
        S->shadow.resize(old.size() * 2);
        S->used = 0;
        for (const Cell& c: old)
            if (c.generation == S->generation)
                *cell(c.key, true) = c;
    }
    const size_t mask = S->shadow.size() - 1;
    for (size_t h = (w * 0x9e3779b97f4a7c15ULL) >> 20;; ++h)
    {
        Cell& c = S->shadow[h & mask];
        if (c.generation != S->generation)
        {
            if (not create)
                return nullptr;
            ++S->used;
            memset(&c, 0, sizeof c);
            c.key = w;
            c.generation = S->generation;
            c.wt = -1;
            return &c;
        }
        if (c.key == w)
            return &c;
    }
}
// the accesses that are already recorded for the current period of a thread
struct Recorded
{
    uintptr_t word;
    uint32_t generation, clock;
    uint8_t r, w;
};
constexpr size_t cacheSize = 1 << 13;
Recorded g_cache[maxThreads][cacheSize];

void access_word(const uintptr_t w, const uint8_t m, const bool write, void* pc)
{
    const Clock& vc = S->th[self].vc;
    Cell& c = *cell(w, true);
    if (c.wt == self and c.wc == vc[self] and (c.wm & m) == m and not write)
        return;
    if (c.wt >= 0 and c.wt != self and (c.wm & m) and c.wc > vc[c.wt])
        report_race("write", c.wt, c.wpc, write ? "write" : "read", self, pc);
    if (write)
    {
        for (int k = 0; k < maxThreads; ++k)
            if (k != self and (c.rm[k] & m) and c.rc[k] > vc[k])
                report_race("read", k, c.rpc, "write", self, pc);
        c.wm = c.wt == self ? c.wm | m : m;
        c.wt = int8_t(self);
        c.wc = vc[self];
        c.wpc = pc;
    }
    else
    {
        c.rm[self] = c.rc[self] == vc[self] ? c.rm[self] | m : m;
        c.rc[self] = vc[self];
        c.rpc = pc;
    }
}
void access(const uintptr_t addr, const size_t n, const bool write, void* pc)
{
    if (not managed() or not S->opt.raceCheck or S->live <= 1)
        return;
    Thread& t = S->th[self];
    if (addr >= t.stackLo and addr < t.stackHi and self != 0)
        return;
    for (uintptr_t a = addr; a < addr + n;)
    {
        const uintptr_t end = std::min(addr + n, (a | 7) + 1);
        const uint8_t m = uint8_t(((1u << (end - a)) - 1) << (a & 7));
        const uintptr_t w = a >> 3;
        a = end;
        Recorded& k = g_cache[self][w & (cacheSize - 1)];
        if (k.word == w and k.generation == S->generation and k.clock == t.vc[self])
        {
            if (write ? (k.w & m) == m : ((k.r | k.w) & m) == m)
                continue;
        }
        else
            k = {w, S->generation, t.vc[self], 0, 0};
        (write ? k.w : k.r) |= m;
        Guard g;
        access_word(w, m, write, pc);
    }
}
void forget(const uintptr_t addr, const size_t n)
{
    if (S->used == 0)
        return;
    for (uintptr_t w = addr >> 3; w <= (addr + n - 1) >> 3; ++w)
    {
        Recorded& k = g_cache[self][w & (cacheSize - 1)];
        if (k.word == w)
            k.generation = 0;
        if (Cell* c = cell(w, false))
        {
            c->wt = -1;
            c->wm = 0;
            memset(c->rm, 0, sizeof c->rm);
        }
    }
}

struct Backend : public cv::parallel::ParallelForAPI
{
    bool shared = true;
    void parallel_for(int tasks, FN_parallel_for_body_cb_t body, void* data) override
    {
        if (not shared or not managed() or tasks <= 1)
            body(0, tasks, data);
        else
            parallel(size_t(tasks), [&](const size_t i) { body(int(i), int(i) + 1, data); });
    }
    int getThreadNum() const override { return std::max(0, self); }
    int getNumThreads() const override { return S ? S->opt.workers : 1; }
    int setNumThreads(int) override { return S ? S->opt.workers : 1; }
    const char* getName() const override { return "verif"; }
};

} // namespace

void begin(const Options& o)
{
    if (not S)
        S = new State;
    S->opt = o;
    S->path.clear();
}
void start()
{
    S->depth = 0;
    S->preemptions = 0;
    S->preemptPoints = 0;
    S->forcedDone = false;
    S->frozen = false;
    S->decisions = 0;
    S->race.clear();
    S->problem.clear();
    S->log.clear();
    S->mutexes.clear();
    S->sync.clear();
    ++S->generation;
    S->used = 0;
    for (Thread& t: S->th)
    {
        t.used = false;
        t.done = true;
    }
    Thread& m = S->th[0];
    m.used = true;
    m.done = false;
    m.waitMutex = nullptr;
    m.waitJoin = -1;
    m.waitGroup = 0;
    m.vc = Clock();
    m.vc[0] = 1;
    m.sem.v = 0;
    own_stack(m);
    self = 0;
    S->live = 1;
    S->current = 0;
    S->on = true;
}
void stop()
{
    S->on = false;
    self = -1;
}
bool next()
{
    S->path.resize(std::min(S->path.size(), S->depth));
    while (not S->path.empty())
    {
        Choice& c = S->path.back();
        if (++c.taken < c.n)
            return true;
        S->path.pop_back();
    }
    return false;
}
bool void_run() { return S->opt.first >= 0 and not S->forcedDone; }
uint64_t decisions() { return S->decisions; }
std::string race() { return S->race; }
std::string problem() { return S->problem; }
std::string schedule() { return S->log.empty() ? "no preemption" : S->log; }
bool active() { return managed(); }
void freeze()
{
    if (S and S->on)
        S->frozen = true;
}
void point(const char* what)
{
    if (not managed())
        return;
    Guard g;
    reschedule(what);
}
void parallel(const size_t n, const std::function<void(size_t)>& f)
{
    if (not managed())
    {
        for (size_t i = 0; i < n; ++i)
            f(i);
        return;
    }
    size_t nextIteration = 0;
    const size_t workers = std::min<size_t>(std::max(1, S->opt.workers), n);
    const int mode = S->opt.mode;
    uint64_t group;
    std::vector<int> ids;
    {
        Guard g;
        group = ++S->groups;
        for (size_t w = 0; w < workers; ++w)
            ids.push_back(create(
                    [&, w] {
                        if (mode == 1)
                        {
                            const size_t a = w * n / workers, b = (w + 1) * n / workers;
                            for (size_t i = a; i < b; ++i)
                                f(i);
                        }
                        else
                            while (true)
                            {
                                size_t i;
                                {
                                    Guard g2;
                                    if (nextIteration >= n)
                                        break;
                                    i = nextIteration++;
                                }
                                f(mode == 2 ? n - 1 - i : i);
                            }
                    },
                    group));
        S->th[self].waitGroup = group;
        reschedule("start of a parallel loop");
        S->th[self].waitGroup = 0;
        for (const int id: ids)
            finish(id);
    }
}
int spawn(const std::function<void()>& f)
{
    Guard g;
    const int id = create(f, 0);
    reschedule("start of a task");
    return id;
}
void join(const int id)
{
    Guard g;
    S->th[self].waitJoin = id;
    reschedule("join");
    S->th[self].waitJoin = -1;
    finish(id);
}
void use_for_opencv(const bool shared)
{
    static std::shared_ptr<Backend> b = std::make_shared<Backend>();
    b->shared = shared;
    cv::parallel::setParallelForBackend(b, true);
}

} // namespace sched

/** ------------------------------------------------------------------ interception ---------------- **/
using namespace sched;

#define PC __builtin_return_address(0)

extern "C" {

// threads started by the code under test (std::thread, std::async)
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* p)
{
    if (not managed())
        return real_create(t, a, f, p);
    Guard g;
    const int id = create([f, p] { f(p); }, 0);
    *t = S->th[id].handle;
    reschedule("start of a thread");
    return 0;
}
int pthread_join(pthread_t t, void** r)
{
    if (managed())
        for (int i = 1; i < maxThreads; ++i)
            if (S->th[i].used and pthread_equal(S->th[i].handle, t))
            {
                sched::join(i);
                if (r)
                    *r = nullptr;
                return 0;
            }
    return real_join(t, r);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (not managed())
    {
        static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
        return real(m);
    }
    Guard g;
    {
        auto& o = S->mutexes[m];
        if (o.second > 0 and o.first == self)
        {
            ++o.second; // recursive
            return 0;
        }
    }
    S->th[self].waitMutex = nullptr;
    reschedule("lock");
    while (S->mutexes[m].second > 0)
    {
        S->th[self].waitMutex = m;
        reschedule("wait for a lock");
        S->th[self].waitMutex = nullptr;
    }
    S->mutexes[m] = {self, 1};
    acquire(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (not managed())
    {
        static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
        return real(m);
    }
    Guard g;
    reschedule("trylock");
    auto& o = S->mutexes[m];
    if (o.second > 0 and o.first != self)
        return EBUSY;
    o = {self, o.second + 1};
    acquire(m);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (not managed())
    {
        static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
        return real(m);
    }
    Guard g;
    auto& o = S->mutexes[m];
    if (o.second > 0)
        --o.second;
    if (o.second == 0)
    {
        release(m);
        reschedule("unlock");
    }
    return 0;
}
// readers are treated like writers
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (not managed())
    {
        static auto real = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_wrlock");
        return real(m);
    }
    return pthread_mutex_lock((pthread_mutex_t*)m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (not managed())
    {
        static auto real = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_rdlock");
        return real(m);
    }
    return pthread_mutex_lock((pthread_mutex_t*)m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (not managed())
    {
        static auto real = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_unlock");
        return real(m);
    }
    return pthread_mutex_unlock((pthread_mutex_t*)m);
}
void free(void* p)
{
    if (p and S and S->on and self >= 0 and not inside)
    {
        Guard g;
        forget(uintptr_t(p), malloc_usable_size(p));
    }
    __libc_free(p);
}
// a fixed seed for the random engine of the code under test
time_t time(time_t* t)
{
    const char* e = getenv("VERIF_TIME");
    const time_t v = e ? atol(e) : 12345;
    if (t)
        *t = v;
    return v;
}

int __cxa_guard_acquire(long long int* g)
{
    if (*(volatile char*)g)
    {
        if (managed())
        {
            Guard gg;
            acquire(g);
        }
        return 0;
    }
    if (managed())
    {
        // initialisation of a function static by one thread; the others wait
        while (true)
        {
            Guard gg;
            auto& o = S->mutexes[g];
            if (*(volatile char*)g)
            {
                acquire(g);
                return 0;
            }
            if (o.second == 0)
            {
                o = {self, 1};
                return 1;
            }
            S->th[self].waitMutex = g;
            reschedule("initialisation of a static");
            S->th[self].waitMutex = nullptr;
        }
    }
    return 1;
}
void __cxa_guard_release(long long int* g)
{
    *(volatile char*)g = 1;
    if (managed())
    {
        Guard gg;
        S->mutexes[g].second = 0;
        release(g);
    }
}
void __cxa_guard_abort(long long int* g)
{
    if (managed())
    {
        Guard gg;
        S->mutexes[g].second = 0;
    }
}

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                                                              \
    void __tsan_read##N(void* a) { access(uintptr_t(a), N, false, PC); }                                                    \
    void __tsan_write##N(void* a) { access(uintptr_t(a), N, true, PC); }                                                    \
    void __tsan_unaligned_read##N(void* a) { access(uintptr_t(a), N, false, PC); }                                          \
    void __tsan_unaligned_write##N(void* a) { access(uintptr_t(a), N, true, PC); }                                          \
    void __tsan_volatile_read##N(void* a) { access(uintptr_t(a), N, false, PC); }                                           \
    void __tsan_volatile_write##N(void* a) { access(uintptr_t(a), N, true, PC); }                                           \
    void __tsan_unaligned_volatile_read##N(void* a) { access(uintptr_t(a), N, false, PC); }                                 \
    void __tsan_unaligned_volatile_write##N(void* a) { access(uintptr_t(a), N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(uintptr_t(a), n, false, PC); }
void __tsan_write_range(void* a, size_t n) { access(uintptr_t(a), n, true, PC); }
void __tsan_vptr_update(void** a, void* v)
{
    if (*a != v)
        access(uintptr_t(a), 8, true, PC);
}
void __tsan_vptr_read(void** a) { access(uintptr_t(a), 8, false, PC); }
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}

// reads of atomics are ordered by the points before the writes
static inline void atomic_read(const volatile void* a)
{
    if (not managed())
        return;
    Guard g;
    acquire((const void*)a);
}
static inline void atomic_write(const volatile void* a, const bool isPoint)
{
    if (not managed())
        return;
    Guard g;
    if (isPoint)
        reschedule("write of an atomic");
    acquire((const void*)a);
    release((const void*)a);
}
#define ATOMIC(B, T)                                                                                                       \
    T __tsan_atomic##B##_load(const volatile T* a, int)                                                                    \
    {                                                                                                                      \
        atomic_read(a);                                                                                                    \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                       \
    }                                                                                                                      \
    void __tsan_atomic##B##_store(volatile T* a, T v, int)                                                                 \
    {                                                                                                                      \
        atomic_write(a, true);                                                                                             \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                          \
    }                                                                                                                      \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int)                                                                 \
    {                                                                                                                      \
        atomic_write(a, true);                                                                                             \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                \
    }                                                                                                                      \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int)                                                                \
    {                                                                                                                      \
        if (B != 32)                                                                                                       \
            atomic_write(a, true);                                                                                            \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                                 \
    }                                                                                                                      \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int)                                                                \
    {                                                                                                                      \
        atomic_write(a, B != 32);                                                                                            \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                                 \
    }                                                                                                                      \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int)                                                                \
    {                                                                                                                      \
        atomic_write(a, B != 32);                                                                                            \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                                 \
    }                                                                                                                      \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int)                                                                 \
    {                                                                                                                      \
        atomic_write(a, B != 32);                                                                                            \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                                  \
    }                                                                                                                      \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int)                                                                \
    {                                                                                                                      \
        atomic_write(a, B != 32);                                                                                            \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                                 \
    }                                                                                                                      \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int)                                                               \
    {                                                                                                                      \
        atomic_write(a, B != 32);                                                                                            \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                                \
    }                                                                                                                      \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int, int)                                     \
    {                                                                                                                      \
        atomic_write(a, S and S->opt.casPoints);                                                                           \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                            \
    }                                                                                                                      \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int, int)                                       \
    {                                                                                                                      \
        atomic_write(a, S and S->opt.casPoints);                                                                           \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                            \
    }                                                                                                                      \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int, int)                                           \
    {                                                                                                                      \
        atomic_write(a, false);                                                                                            \
        __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                  \
        return e;                                                                                                          \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
}
