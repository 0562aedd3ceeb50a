#include "threads.hpp"
#include "alloc.hpp"
#include "core.hpp"

#include <atomic>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>

#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <errno.h>

// (not <cxxabi.h>: it declares the guard functions defined below differently)
extern "C" char* __cxa_demangle(const char*, char*, size_t*, int*);

namespace sim
{
namespace threads
{
namespace
{
enum { MAXT = 8 };
enum State { kReady, kBlocked, kDone };

struct Clock { uint32_t c[MAXT]; };

struct Thr
{
    int id;
    std::atomic<int> go;
    State state;
    const void* key;                     // what it waits for
    unsigned stalled;                    // scheduling decisions it sits out
    uint64_t budget;                     // accesses until it may be preempted
    Clock vc;
    const char* label;
    std::function<void()> fn;
    void* (*start)(void*);
    void* arg;
    void* ret;
    pthread_t real;
    uintptr_t stack_lo, stack_hi;
};

Thr g_thr[MAXT];
int g_n = 0;
bool g_on = false;
std::atomic<int> g_main_go;
uint64_t g_accesses = 0, g_switches = 0;
unsigned g_mean = 0;                     // accesses between preemptions: up to this many
bool g_stalls = false;
unsigned g_left = 0;                     // preemptions left in this run
thread_local Thr* t_cur = nullptr;
thread_local int t_quiet = 0;

void futex_wait(std::atomic<int>& a)
{
    while (a.load() == 0) { syscall(SYS_futex, (int*)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); }
    a.store(0);
}
void futex_post(std::atomic<int>& a)
{
    a.store(1);
    syscall(SYS_futex, (int*)&a, FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0);
}

uint64_t draw_budget()
{
    if (g_mean == 0) { return ~0ull; }
    if (g_left == 0) { return ~0ull; }
    g_left--;
    if (choose(4, "long stretch") == 3) { return 1 + choose(4096, "run for"); }
    return 1 + choose(g_mean, "run for");
}

// The thread to run next, or null when none can.
Thr* pick(const Thr* not_this)
{
    Thr* ready[MAXT];
    for (int pass = 0; pass < 2; ++pass)
    {
        unsigned n = 0;
        for (int i = 0; i < g_n; ++i)
        {
            Thr& t = g_thr[i];
            if (t.state != kReady || &t == not_this) { continue; }
            if (t.stalled && pass == 0) { t.stalled--; continue; }
            ready[n++] = &t;
        }
        if (n)
        {
            Thr* t = ready[n == 1 ? 0 : choose(n, "next thread")];
            t->stalled = 0;
            return t;
        }
    }
    return nullptr;
}

void resume(Thr* t)
{
    g_switches++;
    t->budget = draw_budget();
    state((uint64_t)t->id * 1000003 + g_accesses % 64);
    futex_post(t->go);
}

// Give up the processor; the caller stays ready or is blocked.
void switch_away(Thr* me, bool forced)
{
    Thr* next = pick(me);
    if (!next)
    {
        if (!forced) { me->budget = draw_budget(); return; }
        if (me->state == kReady) { me->budget = draw_budget(); return; }
        alloc::Exempt e;
        std::string who;
        for (int i = 0; i < g_n; ++i) { if (g_thr[i].state == kBlocked) { who += std::string(who.empty() ? "" : ", ") + g_thr[i].label; } }
        violation("deadlock", "no thread can continue; waiting in: %s", who.c_str());
    }
    resume(next);
    futex_wait(me->go);
}

void preempt(Thr* me)
{
    count("fault.preemption");
    if (g_stalls && choose(8, "stall") == 7) { me->stalled = 1 + choose(6, "stalled for"); count("fault.stalled_thread"); }
    switch_away(me, false);
}

// ---- happens-before ----------------------------------------------------------
struct Cell
{
    uintptr_t granule;                   // address / 8, 0 when free
    uint32_t wclk[8];
    uint8_t wtid[8];
    uint32_t rclk[MAXT][8];
    const char* wlabel;
    const char* rlabel[MAXT];
};
const size_t SLOTS = 1u << 18, CELLS = 1u << 17;
uint32_t* g_slots = nullptr;             // index + 1 into g_cells, by hash
Cell* g_cells = nullptr;
size_t g_used = 0;

void* fresh_pages(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { broken("no memory for the shadow"); }
    return p;
}

Cell* cell(uintptr_t g, bool make)
{
    if (!g_cells)
    {
        if (!make) { return nullptr; }
        g_cells = static_cast<Cell*>(fresh_pages(CELLS * sizeof(Cell)));
        g_slots = static_cast<uint32_t*>(fresh_pages(SLOTS * sizeof(uint32_t)));
    }
    size_t i = (g * 11400714819323198485ull) >> 46;
    while (g_slots[i] && g_cells[g_slots[i] - 1].granule != g) { i = (i + 1) % SLOTS; }
    if (!g_slots[i])
    {
        if (!make) { return nullptr; }
        if (g_used == CELLS) { broken("shadow full"); }
        g_slots[i] = (uint32_t)++g_used;
        g_cells[g_used - 1].granule = g;
    }
    return &g_cells[g_slots[i] - 1];
}

void forget(const void* p, size_t n)
{
    if (!g_cells || !n) { return; }
    const uintptr_t a = (uintptr_t)p, e = a + n;
    for (uintptr_t g = a >> 3; g <= (e - 1) >> 3; ++g)
    {
        Cell* c = cell(g, false);
        if (c) { const uintptr_t k = c->granule; memset(c, 0, sizeof *c); c->granule = k; }
    }
}

std::string where(void* pc)
{
    Dl_info i;
    if (!pc || !dladdr(pc, &i) || !i.dli_sname) { return "?"; }
    int st = 0;
    char* d = __cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string s = st == 0 && d ? d : i.dli_sname;
    free(d);
    return s.substr(0, 120);
}

void race(Thr* me, bool write, int other, const char* olabel, bool owrite, void* pc)
{
    alloc::disarm();
    violation("data-race", "thread %d, doing '%s' (in %s), %s memory that thread %d %s while doing '%s', with nothing ordering the two",
              me->id, me->label, where(pc).c_str(), write ? "writes" : "reads", other, owrite ? "wrote" : "read", olabel ? olabel : "?");
}

void touch(Thr* me, uintptr_t a, size_t n, bool write, void* pc)
{
    if (!n || (a >= me->stack_lo && a < me->stack_hi)) { return; }
    const uintptr_t e = a + n;
    for (uintptr_t g = a >> 3; g <= (e - 1) >> 3; ++g)
    {
        Cell* c = cell(g, true);
        const unsigned lo = g == a >> 3 ? a & 7 : 0;
        const unsigned hi = g == (e - 1) >> 3 ? ((e - 1) & 7) + 1 : 8;
        for (unsigned b = lo; b < hi; ++b)
        {
            if (c->wclk[b] && c->wtid[b] != me->id && c->wclk[b] > me->vc.c[c->wtid[b]]) { race(me, write, c->wtid[b], c->wlabel, true, pc); }
            if (write)
            {
                for (int t = 0; t < g_n; ++t) { if (t != me->id && c->rclk[t][b] > me->vc.c[t]) { race(me, true, t, c->rlabel[t], false, pc); } }
                c->wclk[b] = me->vc.c[me->id];
                c->wtid[b] = (uint8_t)me->id;
            }
            else { c->rclk[me->id][b] = me->vc.c[me->id]; }
        }
        if (write) { c->wlabel = me->label; } else { c->rlabel[me->id] = me->label; }
    }
}

struct Sync { Clock vc; int owner; int depth; int readers; int once; };
std::map<const void*, Sync>* g_sync = nullptr;
Sync& sync(const void* k)
{
    alloc::Exempt e;
    if (!g_sync) { g_sync = new std::map<const void*, Sync>; }
    auto it = g_sync->find(k);
    if (it == g_sync->end()) { Sync s; memset(&s, 0, sizeof s); s.owner = -1; it = g_sync->emplace(k, s).first; }
    return it->second;
}
void join(Clock& a, const Clock& b) { for (int i = 0; i < MAXT; ++i) { if (b.c[i] > a.c[i]) { a.c[i] = b.c[i]; } } }
void acquire(Thr* t, Sync& s) { join(t->vc, s.vc); }
void release(Thr* t, Sync& s) { join(s.vc, t->vc); t->vc.c[t->id]++; }

void wake(const void* key) { for (int i = 0; i < g_n; ++i) { if (g_thr[i].state == kBlocked && g_thr[i].key == key) { g_thr[i].state = kReady; } } }
void block(Thr* me, const void* key)
{
    me->state = kBlocked;
    me->key = key;
    switch_away(me, true);
}

Thr* current() { return g_on && t_quiet == 0 ? t_cur : nullptr; }

void tick(Thr* me)
{
    g_accesses++;
    if (me->budget != ~0ull && --me->budget == 0) { t_quiet++; preempt(me); t_quiet--; }
}

void* entry(void* p)
{
    Thr* me = static_cast<Thr*>(p);
    t_cur = me;
    t_quiet = 1;
    pthread_attr_t at;
    void* lo = nullptr;
    size_t sz = 0;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    me->stack_lo = (uintptr_t)lo;
    me->stack_hi = (uintptr_t)lo + sz;
    futex_wait(me->go);
    t_quiet = 0;
    if (me->start) { me->ret = me->start(me->arg); }
    else { me->fn(); }
    t_quiet = 1;
    release(me, sync(me));
    me->state = kDone;
    wake(me);
    Thr* next = pick(me);
    if (next) { resume(next); }
    else
    {
        bool blocked = false;
        alloc::Exempt e;
        std::string who;
        for (int i = 0; i < g_n; ++i) { if (g_thr[i].state == kBlocked) { blocked = true; who += std::string(who.empty() ? "" : ", ") + g_thr[i].label; } }
        if (blocked) { violation("deadlock", "no thread can continue; waiting in: %s", who.c_str()); }
        futex_post(g_main_go);
    }
    return me->ret;
}

template <typename F> F real(const char* name, F) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }

Thr* add_thread()
{
    if (g_n >= MAXT) { violation("too-many-threads", "more than %d threads were started", (int)MAXT); }
    Thr& t = g_thr[g_n];
    t.id = g_n;
    t.go.store(0);
    t.state = kReady;
    t.key = nullptr;
    t.stalled = 0;
    t.budget = ~0ull;
    memset(&t.vc, 0, sizeof t.vc);
    t.vc.c[g_n] = 1;
    t.label = "starting";
    t.start = nullptr;
    t.arg = t.ret = nullptr;
    g_n++;
    return &t;
}
} // namespace

void start_real(Thr* t)
{
    static auto create = real("pthread_create", &pthread_create);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 4u << 20);
    if (create(&t->real, &at, entry, t) != 0) { broken("cannot create a thread"); }
    pthread_attr_destroy(&at);
}

Quiet::Quiet() { t_quiet++; }
Quiet::~Quiet() { t_quiet--; }

void label(const char* what) { if (t_cur) { t_cur->label = what; } }
int self() { return t_cur ? t_cur->id : -1; }
uint64_t accesses() { return g_accesses; }
void yield_point()
{
    Thr* me = current();
    if (!me || g_mean == 0) { return; }
    t_quiet++;
    if (choose(3, "switch here") == 1) { preempt(me); }
    t_quiet--;
}
void access(const void* p, size_t n, bool write)
{
    Thr* me = current();
    if (!me) { return; }
    touch(me, (uintptr_t)p, n, write, __builtin_return_address(0));
    tick(me);
}

void run(const std::vector<std::function<void()>>& bodies)
{
    alloc::Exempt e;
    static const unsigned means[] = {0, 8, 64, 512, 4096, 2, 32};
    const unsigned m = choose(7, "preemption");
    g_mean = means[m];
    g_stalls = g_mean && choose(3, "stalls") == 2;
    g_left = 300;
    g_n = 0;
    g_accesses = g_switches = 0;
    for (auto& b : bodies) { add_thread()->fn = b; }
    if (g_sync) { g_sync->clear(); }
    if (g_cells) { munmap(g_cells, CELLS * sizeof(Cell)); munmap(g_slots, SLOTS * sizeof(uint32_t)); g_cells = nullptr; g_slots = nullptr; g_used = 0; }
    const int n = g_n;
    for (int i = 0; i < n; ++i) { start_real(&g_thr[i]); }
    g_on = true;
    alloc::on_new = [](void* p, size_t s) { if (current()) { t_quiet++; forget(p, s); t_quiet--; } };
    alloc::on_delete = [](void* p, size_t s) { Thr* me = current(); if (me) { t_quiet++; touch(me, (uintptr_t)p, s, true, __builtin_return_address(0)); forget(p, s); t_quiet--; } };
    g_main_go.store(0);
    Thr* first = pick(nullptr);
    resume(first);
    futex_wait(g_main_go);
    g_on = false;
    alloc::on_new = nullptr;
    alloc::on_delete = nullptr;
    static auto rjoin = real("pthread_join", &pthread_join);
    for (int i = 0; i < n; ++i) { rjoin(g_thr[i].real, nullptr); g_thr[i].fn = nullptr; }
    steps(g_accesses);
    count("probe.context_switches", g_switches);
    count("probe.observed_accesses", g_accesses);
}
} // namespace threads
} // namespace sim

using namespace sim::threads;

// ---- synchronisation functions -------------------------------------------------
#define CUR Thr* me = current()
namespace
{
struct Q { Q() { t_quiet++; } ~Q() { t_quiet--; } };

void mutex_lock(Thr* me, void* m, bool recursive)
{
    Q q;
    if (me->budget != ~0ull && me->budget > 1 && sim::choose(4, "switch at lock") == 1) { preempt(me); }
    for (;;)
    {
        Sync& s = sync(m);
        if (s.owner < 0 && s.readers == 0) { s.owner = me->id; s.depth = 1; acquire(me, s); return; }
        if (s.owner == me->id && recursive) { s.depth++; return; }
        block(me, m);
    }
}
bool mutex_trylock(Thr* me, void* m, bool recursive)
{
    Q q;
    Sync& s = sync(m);
    if (s.owner < 0 && s.readers == 0) { s.owner = me->id; s.depth = 1; acquire(me, s); return true; }
    if (s.owner == me->id && recursive) { s.depth++; return true; }
    return false;
}
void mutex_unlock(Thr* me, void* m)
{
    Q q;
    Sync& s = sync(m);
    if (s.owner == me->id && --s.depth > 0) { return; }
    if (s.owner != me->id && s.readers > 0) { s.readers--; release(me, s); if (s.readers == 0) { wake(m); } return; }
    s.owner = -1;
    release(me, s);
    wake(m);
}
bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
}

extern "C"
{
int pthread_mutex_lock(pthread_mutex_t* m)
{
    static auto r = real("pthread_mutex_lock", &pthread_mutex_lock);
    CUR;
    if (!me) { return r(m); }
    mutex_lock(me, m, is_recursive(m));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    static auto r = real("pthread_mutex_trylock", &pthread_mutex_trylock);
    CUR;
    if (!me) { return r(m); }
    return mutex_trylock(me, m, is_recursive(m)) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static auto r = real("pthread_mutex_unlock", &pthread_mutex_unlock);
    CUR;
    if (!me) { return r(m); }
    mutex_unlock(me, m);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    static auto r = real("pthread_rwlock_wrlock", &pthread_rwlock_wrlock);
    CUR;
    if (!me) { return r(m); }
    mutex_lock(me, m, false);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    static auto r = real("pthread_rwlock_rdlock", &pthread_rwlock_rdlock);
    CUR;
    if (!me) { return r(m); }
    Q q;
    for (;;)
    {
        Sync& s = sync(m);
        if (s.owner < 0) { s.readers++; acquire(me, s); return 0; }
        block(me, m);
    }
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    static auto r = real("pthread_rwlock_unlock", &pthread_rwlock_unlock);
    CUR;
    if (!me) { return r(m); }
    mutex_unlock(me, m);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static auto r = real("pthread_cond_wait", &pthread_cond_wait);
    CUR;
    if (!me) { return r(c, m); }
    mutex_unlock(me, m);
    { Q q; block(me, c); acquire(me, sync(c)); }
    mutex_lock(me, m, is_recursive(m));
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c)
{
    static auto r = real("pthread_cond_signal", &pthread_cond_signal);
    CUR;
    if (!me) { return r(c); }
    Q q;
    release(me, sync(c));
    wake(c);                                  // spurious wake-ups of the others are allowed
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    static auto r = real("pthread_cond_broadcast", &pthread_cond_broadcast);
    CUR;
    if (!me) { return r(c); }
    Q q;
    release(me, sync(c));
    wake(c);
    return 0;
}
static void once_begin_end(Thr* me, void* o, void (*fn)())
{
    for (;;)
    {
        int st;
        { Q q; Sync& s = sync(o); st = s.once; if (st == 2) { acquire(me, s); return; } if (st == 0) { s.once = 1; } else { block(me, o); continue; } }
        try { fn(); }
        catch (...) { Q q; sync(o).once = 0; wake(o); throw; }
        Q q;
        Sync& s = sync(o);
        s.once = 2;
        release(me, s);
        wake(o);
        return;
    }
}
int pthread_once(pthread_once_t* o, void (*fn)())
{
    static auto r = real("pthread_once", &pthread_once);
    CUR;
    if (!me || *o != PTHREAD_ONCE_INIT) { return r(o, fn); }
    once_begin_end(me, o, fn);
    return 0;
}
int pthread_create(pthread_t* id, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    static auto r = real("pthread_create", &pthread_create);
    CUR;
    if (!me) { return r(id, at, fn, arg); }
    Q q;
    Thr* t = add_thread();
    t->start = fn;
    t->arg = arg;
    join(t->vc, me->vc);
    me->vc.c[me->id]++;
    start_real(t);
    *id = t->real;
    return 0;
}
int pthread_join(pthread_t id, void** ret)
{
    static auto r = real("pthread_join", &pthread_join);
    CUR;
    if (me)
    {
        Q q;
        for (int i = 0; i < g_n; ++i)
        {
            Thr& t = g_thr[i];
            if (!pthread_equal(t.real, id)) { continue; }
            while (t.state != kDone) { block(me, &t); }
            acquire(me, sync(&t));
        }
    }
    return r(id, ret);
}

// Function-local statics.
static int guard_acquire_real(void* g) { static int (*r)(void*) = (int (*)(void*))dlsym(RTLD_NEXT, "__cxa_guard_acquire"); return r(g); }
int __cxa_guard_acquire(char* g)
{
    CUR;
    if (!me) { return guard_acquire_real(g); }
    Q q;
    for (;;)
    {
        Sync& s = sync(g);
        if (*g == 1) { acquire(me, s); return 0; }
        if (s.once == 0) { s.once = 1; return 1; }
        block(me, g);
    }
}
void __cxa_guard_release(char* g)
{
    CUR;
    if (!me) { static void (*r)(void*) = (void (*)(void*))dlsym(RTLD_NEXT, "__cxa_guard_release"); r(g); return; }
    Q q;
    Sync& s = sync(g);
    *g = 1;
    s.once = 0;
    release(me, s);
    wake(g);
}
void __cxa_guard_abort(char* g)
{
    CUR;
    if (!me) { static void (*r)(void*) = (void (*)(void*))dlsym(RTLD_NEXT, "__cxa_guard_abort"); r(g); return; }
    Q q;
    sync(g).once = 0;
    wake(g);
}

// ---- the instrumentation's runtime ------------------------------------------------
#define PC __builtin_return_address(0)
static inline void acc(void* p, size_t n, bool w, void* pc)
{
    CUR;
    if (!me) { return; }
    t_quiet++;                               // the simulator's own copies and clears are not the threads' accesses
    touch(me, (uintptr_t)p, n, w, pc);
    t_quiet--;
    tick(me);
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void* v) { if (*p != v) { acc(p, 8, true, PC); } }
void __tsan_vptr_read(void** p) { acc(p, 8, false, PC); }
void __tsan_read_range(void* p, size_t n) { acc(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { acc(p, n, true, PC); }
#define RW(N) \
    void __tsan_read##N(void* p) { acc(p, N, false, PC); } \
    void __tsan_write##N(void* p) { acc(p, N, true, PC); } \
    void __tsan_read_write##N(void* p) { acc(p, N, true, PC); } \
    void __tsan_volatile_read##N(void* p) { acc(p, N, false, PC); } \
    void __tsan_volatile_write##N(void* p) { acc(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(N) \
    void __tsan_unaligned_read##N(void* p) { acc(p, N, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { acc(p, N, true, PC); } \
    void __tsan_unaligned_read_write##N(void* p) { acc(p, N, true, PC); } \
    void __tsan_unaligned_volatile_read##N(void* p) { acc(p, N, false, PC); } \
    void __tsan_unaligned_volatile_write##N(void* p) { acc(p, N, true, PC); }
URW(2) URW(4) URW(8) URW(16)

// Calls the compiler leaves as calls (linked with --wrap for the instrumented objects).
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { acc((void*)s, n, false, PC); acc(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { acc((void*)s, n, false, PC); acc(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { acc(d, n, true, PC); return __real_memset(d, c, n); }

void* __tsan_memcpy(void* d, const void* s, size_t n) { acc((void*)s, n, false, PC); acc(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { acc((void*)s, n, false, PC); acc(d, n, true, PC); return __real_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { acc(d, n, true, PC); return __real_memset(d, c, n); }

static void at_acquire(void* a, int mo) { CUR; if (!me) { return; } Q q; if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE) { acquire(me, sync(a)); } }
static void at_release(void* a, int mo) { CUR; if (!me) { return; } Q q; if (mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) { release(me, sync(a)); } }
static void at_tick() { CUR; if (!me) { return; } tick(me); }
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* a, int mo) { at_tick(); at_acquire((void*)a, mo); return *a; } \
    void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { at_tick(); at_release((void*)a, mo); *a = v; } \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { at_tick(); at_acquire((void*)a, mo); at_release((void*)a, mo); T o = *a; *a = v; return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { at_tick(); at_acquire((void*)a, mo); at_release((void*)a, mo); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { at_tick(); at_acquire((void*)a, mo); at_release((void*)a, mo); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { at_tick(); at_acquire((void*)a, mo); at_release((void*)a, mo); T o = *a; *a = (T)(o & v); return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { at_tick(); at_acquire((void*)a, mo); at_release((void*)a, mo); T o = *a; *a = (T)(o | v); return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { at_tick(); at_acquire((void*)a, mo); at_release((void*)a, mo); T o = *a; *a = (T)(o ^ v); return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { at_tick(); at_acquire((void*)a, mo); at_release((void*)a, mo); T o = *a; *a = (T)~(o & v); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) \
    { at_tick(); at_acquire((void*)a, mo | fmo); if (*a == *e) { at_release((void*)a, mo); *a = v; return 1; } *e = *a; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, e, v, mo, fmo); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { CUR; if (!me) { return; } Q q; static char fence; acquire(me, sync(&fence)); release(me, sync(&fence)); }
void __tsan_atomic_signal_fence(int) {}
}
