#include "alloc.hpp"
#include "core.hpp"
#include <cstdlib>
#include <malloc.h>
#include <cstring>
#include <new>

namespace sim
{
namespace alloc
{
extern void (*on_new)(void*, size_t);
extern void (*on_delete)(void*, size_t);
namespace
{
// Live tracked blocks: open addressing, no allocation of its own.
struct Slot { void* p; size_t n; };
const size_t CAP = 1u << 20;
Slot* g_tab = nullptr;
uint64_t g_live = 0, g_bytes = 0, g_total = 0, g_capped = 0;
uint64_t g_nth = ~0ull;
bool g_sticky = false, g_fired = false, g_on = false;
thread_local int g_exempt = 0;
unsigned char g_fill = 0xA5;
size_t g_cap1 = 256u << 20, g_capall = 512u << 20;

size_t slot_of(void* p)
{
    return (reinterpret_cast<uintptr_t>(p) >> 4) * 11400714819323198485ull >> 44;
}

void insert(void* p, size_t n)
{
    if (!g_tab) { g_tab = static_cast<Slot*>(calloc(CAP, sizeof(Slot))); }
    if (g_live * 2 > CAP) { broken("too many live blocks"); }
    size_t i = slot_of(p);
    while (g_tab[i].p) { i = (i + 1) % CAP; }
    g_tab[i].p = p;
    g_tab[i].n = n;
    g_live++;
    g_bytes += n;
}

void erase(void* p)
{
    if (!g_tab || !g_live) { return; }
    size_t i = slot_of(p);
    while (g_tab[i].p && g_tab[i].p != p) { i = (i + 1) % CAP; }
    if (!g_tab[i].p) { return; }
    g_live--;
    g_bytes -= g_tab[i].n;
    size_t j = i;
    for (;;)
    {
        g_tab[i].p = nullptr;
        for (;;)
        {
            j = (j + 1) % CAP;
            if (!g_tab[j].p) { return; }
            size_t k = slot_of(g_tab[j].p);
            if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) { continue; }
            break;
        }
        g_tab[i] = g_tab[j];
        i = j;
    }
}

void reset()
{
    g_live = g_bytes = g_total = g_capped = 0;
    g_nth = ~0ull;
    g_sticky = g_fired = false;
    g_exempt = 0;
    g_on = true;
    g_fill = 0xA5;
}

AtRunStart at_start(reset);

// Not memset: the thread world observes the calls to that.
void fill(void* p, size_t n)
{
    for (unsigned char* c = static_cast<unsigned char*>(p), *e = c + n; c != e; ++c) { *c = g_fill; asm volatile(""); }
}

void* do_alloc(size_t n, bool nothrow)
{
    const bool tracked = g_on && g_exempt == 0;
    if (tracked)
    {
        const uint64_t idx = g_total++;
        bool fail = false;
        if (idx == g_nth || (g_sticky && idx >= g_nth))
        {
            g_fired = true;
            fail = true;
            count("fault.alloc_failure");
        }
        else if (n > g_cap1 || g_bytes + n > g_capall)
        {
            g_capped++;
            fail = true;
            count("fault.out_of_memory_cap");
        }
        if (fail)
        {
            if (nothrow) { return nullptr; }
            throw std::bad_alloc();
        }
    }
    void* p = malloc(n ? n : 1);
    if (!p)
    {
        if (nothrow) { return nullptr; }
        throw std::bad_alloc();
    }
    if (tracked)
    {
        fill(p, n);
        insert(p, n);
    }
    if (on_new) { on_new(p, malloc_usable_size(p)); }
    return p;
}

void do_free(void* p)
{
    if (!p) { return; }
    if (on_delete) { on_delete(p, malloc_usable_size(p)); }
    erase(p);
    free(p);
}
} // namespace

void (*on_new)(void*, size_t) = nullptr;
void (*on_delete)(void*, size_t) = nullptr;

void set_fill(unsigned char b) { g_fill = b; }
void set_cap(size_t a, size_t b) { g_cap1 = a; g_capall = b; }
void arm(uint64_t nth, bool sticky)
{
    g_nth = g_total + nth;
    g_sticky = sticky;
    g_fired = false;
}
void disarm() { g_nth = ~0ull; g_sticky = false; }
bool fired() { return g_fired; }
uint64_t total() { return g_total; }
uint64_t live() { return g_live; }
uint64_t capped() { return g_capped; }
Exempt::Exempt() { g_exempt++; }
Exempt::~Exempt() { g_exempt--; }
Track::Track() : saved(g_exempt) { g_exempt = 0; }
Track::~Track() { g_exempt = saved; }
void tracking(bool on) { g_on = on; }

} // namespace alloc
} // namespace sim

void* operator new(size_t n) { return sim::alloc::do_alloc(n, false); }
void* operator new[](size_t n) { return sim::alloc::do_alloc(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::alloc::do_alloc(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::alloc::do_alloc(n, true); }
void operator delete(void* p) noexcept { sim::alloc::do_free(p); }
void operator delete[](void* p) noexcept { sim::alloc::do_free(p); }
void operator delete(void* p, size_t) noexcept { sim::alloc::do_free(p); }
void operator delete[](void* p, size_t) noexcept { sim::alloc::do_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::alloc::do_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::alloc::do_free(p); }
