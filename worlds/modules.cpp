// World "modules": partitioning through METIS (P12) and the sparse direct solver on UMFPACK (P13).
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include "partition.hpp"
#include "sparsesolve.hpp"
#include "SuiteSparse_config.h"

#include "../sim/alloc.hpp"
#include "../sim/core.hpp"

using namespace linalgcpp;
using sim::alloc::Exempt;
using sim::alloc::Track;
using sim::choose;
using sim::violation;

typedef std::vector<double> V;
typedef std::vector<std::vector<double>> M;

namespace
{
struct Out
{
    bool threw = false;
    std::string what;
};

template <typename F>
Out attempt(F f)
{
    Out o;
    try
    {
        Track track;
        f();
    }
    catch (const std::exception& e)
    {
        o.threw = true;
        o.what = e.what();
    }
    catch (...)
    {
        violation("foreign-exception", "something other than a std::exception was thrown");
    }
    return o;
}

template <typename T> bool same(const std::vector<T>& a, const std::vector<T>& b)
{
    return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(T)) == 0);
}

// ---- METIS ------------------------------------------------------------------------
int g_metis_fail;                     // 0 as is, else the status it reports
unsigned g_metis_how;                 // 0 before doing anything, 1 with the partition half written
bool g_metis_failed;
std::vector<int> g_metis_merge;       // METIS answers with these parts in place of its own (some stay empty)
long g_metis_calls;

// What the caller asked for, and what METIS answered last.
struct Asked { const std::vector<std::vector<int>>* w; int parts; double unb; bool contig, weighted, connected; };
const Asked* g_asked;
std::vector<int> g_answer;
}

extern "C"
{
int __real_METIS_PartGraphKway(idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t*);
int __real_METIS_PartGraphRecursive(idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t*);
typedef int (*metis_fn)(idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t*);
static int metis(metis_fn real, idx_t* n, idx_t* ncon, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t* vsize, idx_t* adjwgt, idx_t* nparts, real_t* tp, real_t* ub,
                 idx_t* options, idx_t* objval, idx_t* part)
{
    g_metis_calls++;
    // What it is given is a graph: the undirected neighbours of each vertex, without itself.
    for (idx_t i = 0; i < *n; ++i)
    {
        for (idx_t j = xadj[i]; j < xadj[i + 1]; ++j)
        {
            if (adjncy[j] < 0 || adjncy[j] >= *n || adjncy[j] == i) { violation("bad-graph", "METIS was given vertex %d as a neighbour of %d of %d vertices", (int)adjncy[j], (int)i, (int)*n); }
        }
    }
    if (g_asked)
    {
        const auto& w = *g_asked->w;
        if (*n != (idx_t)w.size()) { violation("bad-graph", "METIS was given %d vertices, not %zu", (int)*n, w.size()); }
        for (idx_t i = 0; i < *n; ++i)
        {
            std::vector<int> row(w.size(), 0);
            for (idx_t j = xadj[i]; j < xadj[i + 1]; ++j) { row[adjncy[j]] += g_asked->weighted && adjwgt ? (int)adjwgt[j] : 1; }
            for (size_t j = 0; j < w.size(); ++j)
            {
                const int want = g_asked->weighted ? w[i][j] : w[i][j] != 0;
                if (row[j] != want) { violation("bad-graph", "METIS was given weight %d for the edge between %d and %zu, not %d", row[j], (int)i, j, want); }
            }
            if (!g_asked->weighted && adjwgt) { for (idx_t j = xadj[i]; j < xadj[i + 1]; ++j) { if (adjwgt[j] != adjwgt[xadj[0]]) { violation("bad-graph", "edges weigh differently although no weights were asked for"); } } }
        }
        if (*nparts != g_asked->parts) { violation("bad-request", "METIS was asked for %d parts, not %d", (int)*nparts, g_asked->parts); }
        if (g_asked->contig && g_asked->connected && !(options && options[METIS_OPTION_CONTIG] == 1)) { violation("bad-request", "contiguous parts were not asked for"); }
        if (!(ub && std::fabs(*ub - g_asked->unb) < 1e-6)) { violation("bad-request", "the unbalance factor was not passed on"); }
    }
    if (!g_metis_fail)
    {
        const int st = real(n, ncon, xadj, adjncy, vwgt, vsize, adjwgt, nparts, tp, ub, options, objval, part);
        if (st == METIS_OK && !g_metis_merge.empty()) { for (idx_t i = 0; i < *n; ++i) { part[i] = g_metis_merge[(size_t)part[i]]; } sim::count("fault.metis_leaves_parts_empty"); }
        { Exempt e; g_answer.assign(part, part + *n); }
        return st;
    }
    g_metis_failed = true;
    if (g_metis_how == 1)
    {
        real(n, ncon, xadj, adjncy, vwgt, vsize, adjwgt, nparts, tp, ub, options, objval, part);
        for (idx_t i = 0; i < *n; i += 2) { part[i] = *nparts - 1; }
    }
    return g_metis_fail;
}
int __wrap_METIS_PartGraphKway(idx_t* n, idx_t* ncon, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t* vsize, idx_t* adjwgt, idx_t* nparts, real_t* tp, real_t* ub,
                               idx_t* options, idx_t* objval, idx_t* part)
{
    return metis(__real_METIS_PartGraphKway, n, ncon, xadj, adjncy, vwgt, vsize, adjwgt, nparts, tp, ub, options, objval, part);
}
int __wrap_METIS_PartGraphRecursive(idx_t* n, idx_t* ncon, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t* vsize, idx_t* adjwgt, idx_t* nparts, real_t* tp, real_t* ub,
                                    idx_t* options, idx_t* objval, idx_t* part)
{
    return metis(__real_METIS_PartGraphRecursive, n, ncon, xadj, adjncy, vwgt, vsize, adjwgt, nparts, tp, ub, options, objval, part);
}
}

namespace
{
struct Graph
{
    int n = 0;
    std::vector<std::vector<int>> w;      // 0: no edge
    bool diag = false, connected = true;
};

// Inside a Bulk scope many small choices come from a generator seeded by one recorded choice.
uint64_t g_bulk;
struct Bulk
{
    explicit Bulk(bool on) { g_bulk = on ? sim::bits("bulk seed") | 1 : 0; }
    ~Bulk() { g_bulk = 0; }
};
unsigned small(unsigned n, const char* label)
{
    if (!g_bulk) { return choose(n, label); }
    g_bulk ^= g_bulk << 13; g_bulk ^= g_bulk >> 7; g_bulk ^= g_bulk << 17;
    return (unsigned)((g_bulk >> 20) % n);
}

Graph draw_graph()
{
    Graph g;
    const unsigned large = sim::weighted({30, 10, 1}, "large");
    g.n = 1 + (large == 2 ? 60 + choose(340, "vertices") : choose(large ? 60 : 14, "vertices"));
    Bulk bulk(large == 2);
    g.w.assign(g.n, std::vector<int>(g.n, 0));
    const unsigned shape = small(6, "shape");
    auto edge = [&](int i, int j) { if (i != j) { g.w[i][j] = g.w[j][i] = 1 + (int)small(5, "weight"); } };
    switch (shape)
    {
        case 0: for (int i = 1; i < g.n; ++i) { edge(i, i - 1); } break;                              // a path
        case 1: for (int i = 1; i < g.n; ++i) { edge(i, (int)small((unsigned)i, "parent")); } break;               // a tree
        case 2: { int k = 1; while (k * k < g.n) { ++k; } for (int i = 0; i < g.n; ++i) { if (i % k) { edge(i, i - 1); } if (i >= k) { edge(i, i - k); } } break; }
        case 3: for (int i = 1; i < g.n; ++i) { edge(i, (int)small((unsigned)i, "parent")); } for (int e = (int)small(2 * (unsigned)g.n, "edges"); e > 0; --e) { edge((int)small((unsigned)g.n, "from"), (int)small((unsigned)g.n, "to")); } break;
        case 4: for (int e = (int)small((unsigned)g.n + 1, "edges"); e > 0; --e) { edge((int)small((unsigned)g.n, "from"), (int)small((unsigned)g.n, "to")); } break;       // may be disconnected, isolated vertices
        default: for (int i = 1; i < g.n; ++i) { edge(i, 0); }                                         // a star
    }
    g.diag = small(2, "diagonal");
    std::vector<int> seen(g.n, 0), todo(1, 0);
    seen[0] = 1;
    int reached = 1;
    while (!todo.empty())
    {
        const int i = todo.back();
        todo.pop_back();
        for (int j = 0; j < g.n; ++j) { if (g.w[i][j] && !seen[j]) { seen[j] = 1; ++reached; todo.push_back(j); } }
    }
    g.connected = reached == g.n;
    return g;
}

template <typename T>
SparseMatrix<T> matrix_of(const Graph& g, bool shuffled, bool pattern = false)   // pattern: the stored values mean nothing, and some are zero
{
    static const double any[] = {0.0, 0.25, -3.0, 1e6, 0.0};
    std::vector<int> p(1, 0), c;
    std::vector<T> d;
    Bulk bulk(shuffled && g.n > 60);
    for (int i = 0; i < g.n; ++i)
    {
        std::vector<std::pair<int, T>> row;
        for (int j = 0; j < g.n; ++j)
        {
            if (i == j && g.diag) { row.push_back(std::make_pair(j, (T)7)); }
            if (g.w[i][j]) { row.push_back(std::make_pair(j, pattern ? (T)any[(i * 3 + j * 7) % 5] : (T)(-g.w[i][j]))); }
        }
        if (shuffled) { for (size_t k = row.size(); k > 1; --k) { std::swap(row[k - 1], row[small((unsigned)k, "order")]); } }
        for (auto& e : row) { c.push_back(e.first); d.push_back(e.second); }
        p.push_back((int)c.size());
    }
    return SparseMatrix<T>(p, c, d, g.n, g.n);
}

bool part_connected(const Graph& g, const std::vector<int>& part, int k)
{
    int first = -1, total = 0, reached = 0;
    for (int i = 0; i < g.n; ++i) { if (part[i] == k) { if (first < 0) { first = i; } ++total; } }
    if (first < 0) { return true; }
    std::vector<int> seen(g.n, 0), todo(1, first);
    seen[first] = 1;
    while (!todo.empty())
    {
        const int i = todo.back();
        todo.pop_back();
        ++reached;
        for (int j = 0; j < g.n; ++j) { if (g.w[i][j] && !seen[j] && part[j] == k) { seen[j] = 1; todo.push_back(j); } }
    }
    return reached == total;
}

struct Call { int type, parts; double unb; bool contig, weighted; };

template <typename T>
Out partition(const SparseMatrix<T>& m, const Call& c, std::vector<int>& out)
{
    return attempt([&] { out = Partition(m, c.parts, c.unb, c.contig, c.weighted); });
}

struct Mats
{
    SparseMatrix<double> d;
    SparseMatrix<int> i;
};

Out call(const Mats& m, const Call& c, std::vector<int>& out) { return c.type ? partition(m.i, c, out) : partition(m.d, c, out); }

void partitions()
{
    Exempt exempt;
    const unsigned ng = 1 + choose(2, "graphs");
    std::vector<Graph> gs;
    std::vector<Mats> ms, patterns;
    for (unsigned i = 0; i < ng; ++i)
    {
        gs.push_back(draw_graph());
        const bool sh = choose(2, "unsorted");
        ms.push_back(Mats{matrix_of<double>(gs.back(), sh), matrix_of<int>(gs.back(), sh)});
        if (choose(2, "values that mean nothing")) { patterns.push_back(Mats{matrix_of<double>(gs.back(), sh, true), matrix_of<int>(gs.back(), sh, true)}); }
        else { patterns.push_back(ms.back()); }
    }
    struct Rec { unsigned g; Call c; std::vector<int> part; };
    std::vector<Rec> done;
    const int steps = 1 + choose(6, "steps");
    for (int st = 0; st < steps; ++st)
    {
        sim::steps(1);
        unsigned gi = choose(ng, "graph");
        Call c;
        if (!done.empty() && choose(3, "again") == 2) { const Rec& r = done[choose((unsigned)done.size(), "which")]; gi = r.g; c = r.c; }
        else
        {
            c.type = choose(2, "type");
            c.parts = 1 + choose(std::min(gs[gi].n, 1 + (int)choose(gs[gi].n, "many")), "parts");
            c.unb = 1.0 + choose(5, "unbalance") * 0.25;
            c.contig = choose(2, "not contiguous") == 0;
            c.weighted = choose(2, "weighted");
        }
        const Graph& g = gs[gi];
        const bool inject = choose(4, "METIS fails") == 3;
        static const int codes[] = {METIS_ERROR_MEMORY, METIS_ERROR, METIS_ERROR_INPUT};
        g_metis_fail = inject ? codes[choose(3, "status")] : 0;
        g_metis_how = choose(2, "half written");
        g_metis_failed = false;
        g_metis_merge.clear();
        if (!inject && choose(8, "METIS leaves parts empty") == 7) { for (int k = 0; k < c.parts; ++k) { g_metis_merge.push_back((int)choose((unsigned)c.parts, "part")); } }
        const bool nomem = !inject && choose(5, "no memory") == 4;
        // Somebody else uses the C library's random numbers.
        if (choose(3, "rand used") == 2) { srand(choose(1000, "srand")); for (int k = choose(5, "rand calls"); k > 0; --k) { rand(); } }
        const uint64_t live0 = sim::alloc::live();
        Out o;
        {
            std::vector<int> part;
            if (nomem) { sim::alloc::arm(choose(6, "fail at"), false); }
            const Asked asked = {&g.w, c.parts, c.unb, c.contig, c.weighted, g.connected};
            g_asked = &asked;
            g_metis_calls = 0;
            o = call(c.weighted ? ms[gi] : patterns[gi], c, part);
            g_asked = nullptr;
            const bool ran_out = nomem && sim::alloc::fired();
            sim::alloc::disarm();
            g_metis_fail = 0;
            sim::event("graph %u (%d vertices%s) in %d parts%s%s%s: %s", gi, g.n, g.connected ? "" : ", disconnected", c.parts, c.contig ? ", contiguous" : "", c.weighted ? ", weighted" : "",
                       g_metis_failed ? ", METIS failing" : "", o.threw ? "exception" : "returned");
            sim::state((uint64_t)g.n * 64 + c.parts);
            if (ran_out) { sim::count("fault.alloc_failure"); }
            if (g_metis_failed) { sim::count("fault.metis_reports_failure"); sim::nontrivial(); }
            if (!o.threw)
            {
                if (g_metis_failed) { violation("failure-hidden", "Partition returned a partition although METIS failed"); }
                if ((int)part.size() != g.n) { violation("wrong-size", "a partition of %d vertices has %zu entries", g.n, part.size()); }
                int most = -1;
                for (int p : part) { if (p < 0 || p >= c.parts) { violation("bad-part", "vertex in part %d of %d", p, c.parts); } most = std::max(most, p); }
                std::vector<int> cnt(most + 1, 0);
                for (int p : part) { cnt[p]++; }
                for (int k = 0; k <= most; ++k) { if (!cnt[k]) { violation("empty-part", "part %d of %d is empty", k, most + 1); } }
                if (g_metis_calls > 0)
                {
                    // Vertices are together exactly when METIS put them together.
                    std::vector<int> to(c.parts, -1), back(c.parts, -1);
                    for (int v = 0; v < g.n; ++v)
                    {
                        int& a = to[g_answer[v]];
                        int& b = back[part[v]];
                        if ((a >= 0 && a != part[v]) || (b >= 0 && b != g_answer[v])) { violation("regrouped", "the partition returned is not the one METIS found (vertex %d)", v); }
                        a = part[v];
                        b = g_answer[v];
                    }
                    bool contiguous = true;
                    for (int k = 0; k <= most; ++k) { contiguous = contiguous && part_connected(g, part, k); }
                    if (c.contig && g.connected && g_metis_merge.empty() && c.parts * 8 <= g.n && !contiguous) { sim::count("probe.not_contiguous_in_spite_of_metis"); }
                    sim::count("probe.compared_with_metis");
                }
                else if (c.parts > 1) { violation("bad-part", "a partition in %d parts appeared without METIS", c.parts); }
                sim::nontrivial();
                for (auto& r : done)
                {
                    if (g_metis_merge.empty() && r.g == gi && r.c.type == c.type && r.c.parts == c.parts && r.c.unb == c.unb && r.c.contig == c.contig && r.c.weighted == c.weighted)
                    {
                        if (!same(r.part, part)) { violation("history-dependent", "partitioning the same graph again in %d parts gave another partition", c.parts); }
                        sim::count("probe.repeated_partitions");
                    }
                }
                if (g_metis_merge.empty()) { done.push_back(Rec{gi, c, part}); }
            }
            else if (!g_metis_failed && !ran_out && !(c.contig && !g.connected)) { violation("refused", "partitioning %d vertices in %d parts failed: %s", g.n, c.parts, o.what.c_str()); }
        }
        if (sim::alloc::live() != live0) { violation("leak", "Partition leaked"); }
    }
}

void renumbering()
{
    Exempt exempt;
    const int n = 1 + choose(20, "vertices"), k = 1 + choose(25, "parts");
    std::vector<int> part(n);
    for (int& p : part) { p = choose(k, "part"); }
    const std::vector<int> was = part;
    const bool nomem = choose(4, "no memory") == 3;
    if (nomem) { sim::alloc::arm(choose(2, "fail at"), false); }
    const uint64_t live0 = sim::alloc::live();
    Out o = attempt([&] { RemoveEmpty(part); });
    const bool ran_out = nomem && sim::alloc::fired();
    sim::alloc::disarm();
    if (sim::alloc::live() != live0) { violation("leak", "RemoveEmpty leaked"); }
    if (ran_out) { sim::count("fault.alloc_failure"); }
    if (o.threw)
    {
        if (!ran_out) { violation("refused", "RemoveEmpty failed: %s", o.what.c_str()); }
        if (!same(part, was)) { violation("half-done", "RemoveEmpty failed but changed the partition"); }
        return;
    }
    sim::nontrivial();
    sim::event("renumbered %d vertices, %d parts", n, k);
    std::set<int> used(was.begin(), was.end());
    const int m = (int)used.size();
    for (int i = 0; i < n; ++i)
    {
        if (part[i] < 0 || part[i] >= m) { violation("bad-part", "part %d after renumbering %d parts", part[i], m); }
        for (int j = 0; j < i; ++j)
        {
            if ((part[i] == part[j]) != (was[i] == was[j])) { violation("regrouped", "renumbering changed which vertices are together"); }
        }
    }
    sim::state((uint64_t)n * 100 + m);
    // The graph handed to METIS.
    const Graph g = draw_graph();
    const bool weighted = choose(2, "weighted");
    const bool unsorted = choose(2, "unsorted");
    const SparseMatrix<double> mat = matrix_of<double>(g, unsorted, !weighted && choose(2, "values that mean nothing"));
    std::tuple<std::vector<int>, std::vector<int>, std::vector<int>> adj;
    o = attempt([&] { adj = MakeAdjacencyInfo<double, int>(mat, weighted); });
    if (o.threw) { violation("refused", "MakeAdjacencyInfo failed on %d vertices: %s", g.n, o.what.c_str()); }
    std::vector<std::vector<int>> got(g.n, std::vector<int>(g.n, 0));
    const auto& p = std::get<0>(adj);
    if ((int)p.size() != g.n + 1 || p[0] != 0 || p.back() != (int)std::get<1>(adj).size() || std::get<1>(adj).size() != std::get<2>(adj).size()) { violation("bad-graph", "row pointers do not match"); }
    for (int i = 0; i < g.n; ++i)
    {
        for (int j = p[i]; j < p[i + 1]; ++j) { got[i][std::get<1>(adj)[j]] += std::get<2>(adj)[j]; }
        for (int j = 0; j < g.n; ++j)
        {
            const int want = i == j ? 0 : weighted ? g.w[i][j] : g.w[i][j] != 0;
            if (got[i][j] != want) { violation("bad-graph", "edge (%d, %d) has weight %d, not %d", i, j, got[i][j], want); }
        }
    }
}

// ---- UMFPACK ------------------------------------------------------------------------
long g_um_live, g_um_calls, g_um_fail = -1;
bool g_um_sticky, g_um_fired;
bool um_fails()
{
    g_um_calls++;
    if (g_um_fail < 0) { return false; }
    if (g_um_fail > 0) { g_um_fail--; return false; }
    g_um_fired = true;
    if (!g_um_sticky) { g_um_fail = -1; }
    return true;
}
void* um_malloc(size_t n) { if (um_fails()) { return nullptr; } void* p = malloc(n ? n : 1); if (p) { memset(p, 0xA5, n); ++g_um_live; } return p; }
void* um_calloc(size_t n, size_t s) { if (um_fails()) { return nullptr; } void* p = calloc(n ? n : 1, s ? s : 1); if (p) { ++g_um_live; } return p; }
void* um_realloc(void* p, size_t n) { if (um_fails()) { return nullptr; } void* q = realloc(p, n ? n : 1); if (q && !p) { ++g_um_live; } return q; }
void um_free(void* p) { if (p) { --g_um_live; } free(p); }
int um_quiet(const char*, ...) { return 0; }
void um_reset()
{
    g_um_live = g_um_calls = 0;
    g_um_fail = -1;
    g_um_fired = false;
    g_metis_fail = 0;
    g_asked = nullptr;
    SuiteSparse_config_malloc_func_set(um_malloc);
    SuiteSparse_config_calloc_func_set(um_calloc);
    SuiteSparse_config_realloc_func_set(um_realloc);
    SuiteSparse_config_free_func_set(um_free);
}
sim::AtRunStart at_start(um_reset);

struct Sys { M a; SparseMatrix<double> s; int unit = 0; bool singular = false, dependent = false, empty = false; };

Sys draw_system(int n)
{
    Sys y;
    Bulk bulk(n > 12);
    const unsigned thin = n > 12 ? 1 + small(8, "entries per row") : 0;
    y.a.assign(n, V(n, 0.0));
    const unsigned kind = small(8, "kind");
    for (int i = 0; i < n; ++i)
    {
        for (int j = 0; j < n; ++j) { if (i != j && (thin ? small((unsigned)n, "entry") < thin : small(3, "entry"))) { y.a[i][j] = ((int)small(9, "value") - 4) / 4.0; } }
    }
    for (int i = 0; i < n; ++i)
    {
        double s = 0.5;
        for (int j = 0; j < n; ++j) { s += std::fabs(y.a[i][j]); }
        y.a[i][i] = s * (small(2, "negative") ? -1 : 1);
    }
    if (kind == 6 && n > 0)
    {
        y.singular = true;
        const int i = (int)small((unsigned)n, "row");
        if (small(2, "structurally") || n == 1) { for (int j = 0; j < n; ++j) { y.a[i][j] = 0; } if (n == 1) { y.empty = true; } }
        else { const int k = (i + 1) % n; for (int j = 0; j < n; ++j) { y.a[i][j] = 2 * y.a[k][j]; } y.dependent = true; }
    }
    if (kind == 7) { for (auto& r : y.a) { for (double& x : r) { x = 0; } } y.empty = true; }
    if (n > 1 && kind < 6) { for (int k = (int)small(3, "row swaps"); k > 0; --k) { std::swap(y.a[small((unsigned)n, "row")], y.a[small((unsigned)n, "row")]); } }
    const bool zeros = small(4, "stored zeros") == 3;
    std::vector<int> p(1, 0), c;
    std::vector<double> d;
    for (int i = 0; i < n; ++i)
    {
        std::vector<int> cols;
        for (int j = 0; j < n; ++j) { if (y.a[i][j] != 0 || (zeros && small(3, "stored zero") == 2)) { cols.push_back(j); } }
        if (small(2, "unsorted")) { for (size_t k = cols.size(); k > 1; --k) { std::swap(cols[k - 1], cols[small((unsigned)k, "order")]); } }
        for (int j : cols) { c.push_back(j); d.push_back(y.a[i][j]); }
        p.push_back((int)c.size());
    }
    y.empty = d.empty();
    if (kind == 7 && !y.empty) { y.singular = true; }
    // The solver sees the matrix in other units now and then: every entry times a power of two.
    if (small(6, "unit") == 5) { y.unit = (int[]) {60, -60, 250, -250}[small(4, "power")]; }
    for (double& v : d) { v = std::ldexp(v, y.unit); }
    y.s = SparseMatrix<double>(p, c, d, n, n);
    return y;
}

void direct_solver()
{
    Exempt exempt;
    const uint64_t live0 = sim::alloc::live();
    {
        std::vector<Sys> sys;
        const int ns = 1 + choose(3, "systems");
        { Track t; for (int i = 0; i < ns; ++i) { Exempt e; sys.push_back(draw_system((int)(choose(20, "large") == 19 ? 7 + choose(120, "size") : choose(7, "size")))); } }
        std::unique_ptr<SparseSolver> slot[3];
        int of[3] = {-1, -1, -1};                 // which system; -1: empty
        const int steps = 2 + choose(12, "steps");
        for (int st = 0; st < steps; ++st)
        {
            sim::steps(1);
            const int i = choose(3, "object"), j = choose(3, "other object");
            unsigned what = choose(10, "step");
            if (!slot[i]) { what = 0; }
            // A fault for this step: in UMFPACK's memory, or in the library's.
            const unsigned fault = choose(4, "fault");
            if (fault == 2) { g_um_fail = choose(2, "early") ? choose(12, "fails at") : choose(60, "fails at"); g_um_sticky = choose(2, "sticky"); }
            if (fault == 3) { sim::alloc::arm(choose(10, "fails at"), choose(2, "sticky")); }
            g_um_fired = false;
            auto calm = [&]
            {
                const bool f = g_um_fired || sim::alloc::fired();
                if (g_um_fired) { sim::count("fault.umfpack_out_of_memory"); }
                if (sim::alloc::fired()) { sim::count("fault.alloc_failure"); }
                g_um_fail = -1;
                sim::alloc::disarm();
                return f;
            };
            Out o;
            sim::state(what * 10 + fault);
            if (what == 0)
            {
                const int k = choose((unsigned)ns + 1, "system") - 1;
                o = attempt([&] { std::unique_ptr<SparseSolver> n(k < 0 ? new SparseSolver() : new SparseSolver(sys[k].s)); slot[i] = std::move(n); });
                const bool f = calm();
                sim::event("object %d for system %d%s: %s", i, k, f ? " (fault)" : "", o.threw ? "exception" : "created");
                if (k >= 0 && sys[k].singular && !sys[k].empty)
                {
                    sim::count("fault.singular_matrix");
                    if (!o.threw)
                    {
                        // Rounding may hide dependent rows, not an empty one.
                        if (!sys[k].dependent) { violation("failure-hidden", "a solver for a matrix with an empty row was created"); }
                        of[i] = -2;
                    }
                    sim::nontrivial();
                    continue;
                }
                if (o.threw) { if (!f) { violation("refused", "a regular %d x %d matrix could not be factored: %s", sys[k].s.Rows(), sys[k].s.Rows(), o.what.c_str()); } sim::nontrivial(); continue; }
                of[i] = k;
            }
            else if (what == 1 && slot[j] )
            {
                o = attempt([&] { *slot[i] = *slot[j]; });
                const bool f = calm();
                sim::event("object %d = copy of %d%s: %s", i, j, f ? " (fault)" : "", o.threw ? "exception" : "done");
                if (o.threw) { if (!f) { violation("refused", "copying a solver failed: %s", o.what.c_str()); } }
                else { of[i] = of[j]; }
            }
            else if (what == 2 && slot[j] && i != j)
            {
                o = attempt([&] { *slot[i] = std::move(*slot[j]); });
                calm();
                if (o.threw) { violation("refused", "moving a solver failed: %s", o.what.c_str()); }
                of[i] = of[j];
                of[j] = -2;                       // whatever it is, it may be assigned to and destroyed
                sim::event("object %d = moved %d", i, j);
            }
            else if (what == 3 && slot[j])
            {
                o = attempt([&] { swap(*slot[i], *slot[j]); });
                calm();
                if (o.threw) { violation("refused", "swapping solvers failed: %s", o.what.c_str()); }
                std::swap(of[i], of[j]);
                sim::event("swapped %d and %d", i, j);
            }
            else if (what == 4)
            {
                o = attempt([&] { std::unique_ptr<SparseSolver> n(new SparseSolver(*slot[i])); slot[j] = std::move(n); });
                const bool f = calm();
                sim::event("object %d newly copied from %d%s: %s", j, i, f ? " (fault)" : "", o.threw ? "exception" : "done");
                if (o.threw) { if (!f) { violation("refused", "copying a solver failed: %s", o.what.c_str()); } }
                else { of[j] = of[i]; }
            }
            else if (what == 5) { slot[i].reset(); calm(); of[i] = -1; sim::event("object %d destroyed", i); }
            else if (of[i] >= 0)
            {
                const Sys& y = sys[of[i]];
                const int n = y.s.Rows();
                const bool at = choose(2, "transposed");
                V b(n), x(n, 3.0);
                { Bulk bulk(n > 12); for (double& v : b) { v = ((int)small(17, "right hand side") - 8) / 4.0; } }
                Vector<double> bv(b), xv(x);
                const unsigned form = choose(3, "form");
                o = attempt([&]
                {
                    const SparseSolver& s = *slot[i];
                    const Operator& op = s;
                    if (form == 0) { if (at) { op.MultAT(bv, VectorView<double>(xv)); } else { op.Mult(bv, VectorView<double>(xv)); } }
                    else if (form == 1) { xv = at ? op.MultAT(bv) : op.Mult(bv); }
                    else { if (at) { s.MultAT(bv, VectorView<double>(xv)); } else { s.Mult(bv, VectorView<double>(xv)); } }
                });
                const bool f = calm();
                sim::event("object %d solves%s%s: %s", i, at ? " transposed" : "", f ? " (fault)" : "", o.threw ? "exception" : "done");
                if (!same(V(bv.begin(), bv.end()), b)) { violation("rhs-changed", "a solve changed its right hand side"); }
                if (slot[i]->Rows() != n || slot[i]->Cols() != n) { violation("wrong-size", "a solver of size %d reports %d x %d", n, slot[i]->Rows(), slot[i]->Cols()); }
                if (o.threw)
                {
                    if (!f) { violation("refused", "a solve failed: %s", o.what.c_str()); }
                    sim::nontrivial();
                    continue;
                }
                if (xv.size() != n) { violation("wrong-size", "a solution has %d entries, not %d", xv.size(), n); }
                if (y.empty)                      // documented in the code: UMFPACK takes no empty matrices, their solver gives zeros
                {
                    for (int q = 0; q < n; ++q) { if (xv[q] != 0) { violation("wrong-solution", "the solver of a matrix without entries gives %g", xv[q]); } }
                    continue;
                }
                for (int q = 0; q < n; ++q) { xv[q] = std::ldexp(xv[q], y.unit); }
                for (int r = 0; r < n; ++r)
                {
                    double s = 0, sc = 1;
                    for (int q = 0; q < n; ++q) { const double aij = at ? y.a[q][r] : y.a[r][q]; s += aij * xv[q]; sc += std::fabs(aij * xv[q]); }
                    if (!(std::fabs(s - b[r]) <= 1e-9 * sc)) { violation("wrong-solution", "%sequation %d is off by %.3e", at ? "transposed " : "", r, s - b[r]); }
                }
                sim::nontrivial();
            }
            calm();
        }
        // Every object still holds what it held.
        for (int i = 0; i < 3; ++i)
        {
            if (!slot[i] || of[i] < 0) { continue; }
            const Sys& y = sys[of[i]];
            const int n = y.s.Rows();
            Vector<double> b(n, 1.0), x(n);
            Out o = attempt([&] { slot[i]->Mult(b, VectorView<double>(x)); });
            if (o.threw) { violation("refused", "a solve failed at the end: %s", o.what.c_str()); }
            if (y.empty) { for (int q = 0; q < n; ++q) { if (x[q] != 0) { violation("wrong-solution", "the solver of a matrix without entries gives %g", x[q]); } } continue; }
            for (int q = 0; q < n; ++q) { x[q] = std::ldexp(x[q], y.unit); }
            for (int r = 0; r < n; ++r)
            {
                double s = 0, sc = 1;
                for (int q = 0; q < n; ++q) { s += y.a[r][q] * x[q]; sc += std::fabs(y.a[r][q] * x[q]); }
                if (!(std::fabs(s - 1.0) <= 1e-9 * sc)) { violation("wrong-solution", "after its history a solver is off by %.3e in equation %d", s - 1.0, r); }
            }
        }
    }
    if (g_um_live != 0) { violation("leak", "%ld blocks of UMFPACK's memory were never freed", g_um_live); }
    if (sim::alloc::live() != live0) { violation("leak", "%lld blocks were never freed", (long long)(sim::alloc::live() - live0)); }
}

void warm()
{
    Exempt exempt;
    try { throw std::bad_alloc(); } catch (const std::exception&) {}
    try { throw std::runtime_error("x"); } catch (const std::exception&) {}
}

sim::Scenario s1("P12", "partitions", partitions, warm, 3);
sim::Scenario s2("P12", "renumbering", renumbering, warm, 1);
sim::Scenario s3("P13", "direct_solver", direct_solver, warm, 1);
} // namespace
