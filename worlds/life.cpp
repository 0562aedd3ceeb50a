// World "life": every operation of the library with the allocator failing at a
// chosen allocation inside it (P04).
#include <exception>
#include <memory>
#include <new>

#include "catalog.hpp"

#include "../sim/alloc.hpp"
#include "../sim/core.hpp"

using namespace cat;
using sim::alloc::Exempt;
using sim::alloc::Track;
using sim::choose;
using sim::violation;

namespace
{

struct Out
{
    bool threw = false;
    std::string what;
};

template <typename F>
Out attempt(F f)
{
    Out o;
    try
    {
        Track track;
        f();
    }
    catch (const std::exception& e)
    {
        o.threw = true;
        o.what = e.what();
    }
    catch (...)
    {
        violation("foreign-exception", "something other than a std::exception was thrown");
    }
    return o;
}

std::string changed(const Snap& a, const Snap& b, const std::vector<bool>* may_change = nullptr)
{
    for (size_t i = 0; i < a.size(); ++i)
    {
        if (may_change && (*may_change)[i]) { continue; }
        const std::string d = differs(a[i].second, b[i].second);
        if (!d.empty()) { return std::string(a[i].first) + ": " + d; }
    }
    return "";
}

std::vector<uint64_t> fail_points(uint64_t n)
{
    std::vector<uint64_t> k;
    if (n <= 6)
    {
        for (uint64_t i = 0; i < n; ++i) { k.push_back(i); }
    }
    else
    {
        const unsigned c = 1 + choose(5, "points");
        for (unsigned i = 0; i < c; ++i) { k.push_back(choose((unsigned)std::min<uint64_t>(n, 100000), "fail at")); }
    }
    return k;
}

void const_ops()
{
    Exempt exempt;
    const Spec spec = draw(6);
    const Pool pool(spec);
    Snap before;
    snapshot(pool, before);
    const unsigned rounds = 1 + choose(3, "rounds");
    for (unsigned r = 0; r < rounds; ++r)
    {
        const unsigned which = choose((unsigned)NOPS, "operation");
        const Op& op = OPS[which];
        D first, want;
        attempt([&] { op.fn(pool, first); });                // whatever is set up on first use is there now
        uint64_t t0 = sim::alloc::total();
        const uint64_t live0 = sim::alloc::live();
        Out o = attempt([&] { op.fn(pool, want); });
        const uint64_t n = sim::alloc::total() - t0;
        if (o.threw) { violation("refused", "%s failed with all memory available: %s", op.name, o.what.c_str()); }
        if (sim::alloc::live() != live0) { violation("leak", "%s leaked", op.name); }
        sim::state(which);
        sim::event("%s allocates %llu times", op.name, (unsigned long long)n);
        for (uint64_t k : fail_points(n))
        {
            const bool sticky = choose(2, "sticky");
            D got;
            sim::alloc::arm(k, sticky);
            o = attempt([&] { op.fn(pool, got); });
            const bool fired = sim::alloc::fired();
            sim::alloc::disarm();
            sim::event("%s: allocation %llu fails%s: %s", op.name, (unsigned long long)k, sticky ? " for good" : "", o.threw ? "exception" : "returned");
            if (!fired) { continue; }
            sim::nontrivial();
            sim::count(sticky ? "fault.allocation_failure_sticky" : "fault.allocation_failure_once");
            sim::state((uint64_t)which << 32 | (k << 1) | sticky);
            if (!o.threw && !(op.flags & PRINTS))
            {
                const std::string d = differs(want, got);
                if (!d.empty()) { violation("silent-failure", "%s returned normally although an allocation failed, with a wrong result: %s", op.name, d.c_str()); }
                sim::count("probe.recovered_from_allocation_failure");
            }
            if (sim::alloc::live() != live0) { violation("leak", "%s leaked when allocation %llu failed", op.name, (unsigned long long)k); }
            Snap after;
            snapshot(pool, after);
            const std::string c = changed(before, after);
            if (!c.empty()) { violation("operand-changed", "%s only reads, but after a failed allocation %s", op.name, c.c_str()); }
            const std::string bad = invalid(pool);
            if (!bad.empty()) { violation("broken-object", "after %s failed: %s", op.name, bad.c_str()); }
            D again;
            o = attempt([&] { op.fn(pool, again); });
            if (o.threw) { violation("refused", "%s failed when repeated with memory available: %s", op.name, o.what.c_str()); }
            const std::string d = differs(want, again);
            if (!d.empty()) { violation("wrong-after-failure", "%s gives another result after a failed attempt: %s", op.name, d.c_str()); }
        }
    }
}

// Which objects an operation modifies, seen on objects where no two values coincide.
std::vector<bool> modified_by(const MOp& op)
{
    const Spec spec = generic();
    Pool p(spec);
    Snap before, after;
    snapshot(p, before);
    D ignore;
    op.fn(p, ignore);
    snapshot(p, after);
    std::vector<bool> may(before.size());
    for (size_t i = 0; i < before.size(); ++i) { may[i] = !differs(before[i].second, after[i].second).empty(); }
    return may;
}

void mutations()
{
    Exempt exempt;
    const Spec spec = draw(6);
    const unsigned which = choose((unsigned)NMOPS, "operation");
    const MOp& op = MOPS[which];
    std::vector<bool> may = modified_by(op);
    { Pool p(spec); D first; attempt([&] { op.fn(p, first); }); }         // whatever is set up on first use is there now
    const uint64_t live0 = sim::alloc::live();
    Snap before, want;
    D wres;
    uint64_t n;
    {
        Pool p(spec);
        snapshot(p, before);
        const uint64_t t0 = sim::alloc::total();
        Out o = attempt([&] { op.fn(p, wres); });
        n = sim::alloc::total() - t0;
        if (o.threw) { violation("refused", "%s failed with all memory available: %s", op.name, o.what.c_str()); }
        const std::string bad = invalid(p);
        if (!bad.empty()) { violation("broken-object", "after %s: %s", op.name, bad.c_str()); }
        snapshot(p, want);
    }
    if (sim::alloc::live() != live0) { violation("leak", "%s leaked", op.name); }
    for (size_t i = 0; i < before.size(); ++i) { may[i] = may[i] || !differs(before[i].second, want[i].second).empty(); }
    sim::state(which);
    sim::event("%s allocates %llu times", op.name, (unsigned long long)n);
    for (uint64_t k : fail_points(n))
    {
        const bool sticky = choose(2, "sticky");
        const bool use_after = choose(2, "use before repair");
        {
            const Pool fresh(spec);
            Pool p(spec);
            D res;
            sim::alloc::arm(k, sticky);
            Out o = attempt([&] { op.fn(p, res); });
            const bool fired = sim::alloc::fired();
            sim::alloc::disarm();
            sim::event("%s: allocation %llu fails%s: %s", op.name, (unsigned long long)k, sticky ? " for good" : "", o.threw ? "exception" : "returned");
            if (!fired) { continue; }
            sim::nontrivial();
            sim::count(sticky ? "fault.allocation_failure_sticky" : "fault.allocation_failure_once");
            sim::state((uint64_t)which << 32 | (k << 1) | sticky);
            const std::string bad = invalid(p);
            if (!bad.empty()) { violation("broken-object", "after %s ran out of memory: %s", op.name, bad.c_str()); }
            Snap after;
            snapshot(p, after);
            // Objects the operation can modify may have more entries than any unmodified one, so only compare the others.
            std::string c = changed(before, after, &may);
            if (!c.empty() && std::string(c).compare(0, 3, "out") != 0 && std::string(c).compare(0, 4, "dout") != 0)
            {
                violation("operand-changed", "%s ran out of memory and changed an object it does not modify: %s", op.name, c.c_str());
            }
            if (!o.threw)
            {
                c = changed(want, after);
                if (!c.empty()) { violation("silent-failure", "%s returned normally although an allocation failed: %s", op.name, c.c_str()); }
                sim::count("probe.recovered_from_allocation_failure");
            }
            if (use_after)
            {
                // The object that was being modified is still usable without being assigned first.
                D ignore;
                Out u = attempt([&] { std::ostringstream os; p.A.Print("", os); p.coo.Print("", os); p.lil.Print("", os); p.bm.Print("", os);
                                      ignore.add(p.lil.ToSparse()); ignore.add(p.A.Transpose()); ignore.add(p.G.Transpose()); ignore.add(p.bm.Combine());
                                      ignore.add(p.coo_free.ToDense()); ignore.add(p.lil_free.ToSparse()); });
                if (u.threw) { violation("refused", "after %s ran out of memory, an object it modified can no longer be read: %s", op.name, u.what.c_str()); }
            }
            Out a = attempt([&] { reassign(p, fresh); });
            if (a.threw) { violation("refused", "objects cannot be assigned after %s ran out of memory: %s", op.name, a.what.c_str()); }
            D res2;
            o = attempt([&] { op.fn(p, res2); });
            if (o.threw) { violation("refused", "%s failed when repeated with memory available: %s", op.name, o.what.c_str()); }
            const std::string d = differs(wres, res2);
            if (!d.empty()) { violation("wrong-after-failure", "%s gives another result after a failed attempt: %s", op.name, d.c_str()); }
            Snap final_;
            snapshot(p, final_);
            c = changed(want, final_);
            if (!c.empty()) { violation("wrong-after-failure", "%s leaves another state after a failed attempt: %s", op.name, c.c_str()); }
        }
        if (sim::alloc::live() != live0) { violation("leak", "%s leaked when allocation %llu failed", op.name, (unsigned long long)k); }
    }
}

void warm()
{
    Exempt exempt;
    try { throw std::bad_alloc(); } catch (const std::exception&) {}
    try { throw std::runtime_error("x"); } catch (const std::exception&) {}
}

sim::Scenario s1("P04", "reading_operations", const_ops, warm, 3);
sim::Scenario s2("P04", "modifying_operations", mutations, warm, 2);

} // namespace
