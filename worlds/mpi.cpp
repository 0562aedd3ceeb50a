// World "mpi": the distributed module on a simulated MPI job (P16 parallel results
// equal serial ones, P17 ownership of distributed objects, P18 solvers keep what
// they were set up with).
//
// The script of a run - objects, partitions, operations and what each of them must
// give - is drawn by the main thread on plain dense global matrices; every rank
// then carries the script out on the real library, the simulator deciding which
// rank goes on, when messages arrive and who leaves a collective early, and
// compares its own piece of every object with the model after every step.
#include <cfenv>
#include <cmath>
#include <functional>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

#include "parlinalgcpp.hpp"
#include "parsmoother.hpp"
#include "parsolvers.hpp"

#include "../sim/alloc.hpp"
#include "../sim/core.hpp"
#include "../sim/host.hpp"
#include "../sim/hypre.hpp"
#include "../sim/ranks.hpp"

using namespace linalgcpp;
using sim::alloc::Exempt;
using sim::alloc::Track;
using sim::chance;
using sim::choose;
using sim::violation;
namespace ranks = sim::ranks;

namespace
{

// ---- model ---------------------------------------------------------------------------
struct Rig                              // one group of ranks working together
{
    int comm = 0;
    bool world = false;                 // comm is MPI_COMM_WORLD
    int np = 0;
    std::vector<std::vector<int>> parts;      // bounds, np + 1 each
    int size(int p) const { return parts[p].back(); }
    int lo(int p, int r) const { return parts[p][r]; }
    int hi(int p, int r) const { return parts[p][r + 1]; }
    std::vector<HYPRE_Int> starts(int p, int r) const { return {lo(p, r), hi(p, r), size(p)}; }
};

struct GM                               // a global matrix
{
    bool live = false;
    int rp = 0, cp = 0, R = 0, C = 0;
    std::vector<double> v;
    std::vector<char> s;                // stored entries
    bool exact = true;                  // s is known to be what is stored
    double& at(int i, int j) { return v[(size_t)i * C + j]; }
    double at(int i, int j) const { return v[(size_t)i * C + j]; }
    char& st(int i, int j) { return s[(size_t)i * C + j]; }
    char st(int i, int j) const { return s[(size_t)i * C + j]; }
    double top() const { double m = 0; for (double x : v) { m = std::max(m, std::fabs(x)); } return m; }
};

struct GV { bool live = false; int p = 0; std::vector<double> v; };

struct Local                            // what one rank holds
{
    const Rig* rig;
    int me;
    std::vector<ParMatrix> M;
    std::vector<ParVector> V;
};

struct Step
{
    std::string name;
    std::function<void(Local&)> run;
    std::vector<GM> M;
    std::vector<GV> V;
};

enum { NM = 4, NV = 4 };

struct Script
{
    Rig rig;
    std::vector<GM> M = std::vector<GM>(NM);
    std::vector<GV> V = std::vector<GV>(NV);
    std::vector<Step> steps;
    void add(const char* name, std::function<void(Local&)> f)
    {
        Step s;
        s.name = name;
        s.run = std::move(f);
        s.M = M;
        s.V = V;
        steps.push_back(std::move(s));
    }
};

// Now and then all values are multiples of a huge or tiny power of two.
// Then nothing is small enough to ignore, unless something rounded already in the reference.
double g_unit = 1.0, g_floor = 1.0;
bool near(double want, double got, double scale) { return std::fabs(want - got) <= 1e-9 * (g_floor + scale) || want == got; }

double small(const char* label) { return g_unit * 0.25 * ((int)choose(17, label) - 8); }

// gaps: processes other than the last may own nothing
std::vector<int> draw_bounds(int np, bool gaps)
{
    std::vector<int> b(1, 0);
    gaps = gaps && choose(4, "empty processes") == 3;
    const bool many = choose(12, "many rows") == 11;
    for (int r = 0; r < np; ++r)
    {
        const int least = gaps && r + 1 < np ? 0 : 1;
        b.push_back(b.back() + least + (int)choose(many && choose(2, "many here") ? 24 : 4 - !least, "rows owned"));
    }
    return b;
}

GM blank(const Rig& g, int rp, int cp)
{
    GM m;
    m.live = true;
    m.rp = rp;
    m.cp = cp;
    m.R = g.size(rp);
    m.C = g.size(cp);
    m.v.assign((size_t)m.R * m.C, 0.0);
    m.s.assign((size_t)m.R * m.C, 0);
    return m;
}

GM draw_matrix(const Rig& g, int rp, int cp, bool local_only)
{
    GM m = blank(g, rp, cp);
    const unsigned density = 1 + choose(4, "density");
    const bool full_diag = rp == cp && choose(2, "full diagonal");
    for (int r = 0; r < g.np; ++r)
    {
        for (int i = g.lo(rp, r); i < g.hi(rp, r); ++i)
        {
            for (int j = 0; j < m.C; ++j)
            {
                const bool mine = j >= g.lo(cp, r) && j < g.hi(cp, r);
                if (local_only && !mine) { continue; }
                if ((full_diag && i == j) || choose(5, "entry") < density)
                {
                    m.st(i, j) = 1;
                    m.at(i, j) = small("value");
                }
            }
        }
    }
    return m;
}

// The rows of a rank, restricted to given global columns, as a local matrix.
SparseMatrix<double> block(const GM& m, int lo, int hi, const std::vector<int>& cols, unsigned order)
{
    std::vector<int> p(1, 0), ind;
    std::vector<double> val;
    for (int i = lo; i < hi; ++i)
    {
        std::vector<int> k;
        for (int c = 0; c < (int)cols.size(); ++c) { if (m.st(i, cols[c])) { k.push_back(c); } }
        sim::Rng rng(order * 1000003u + i);
        if (order) { for (size_t a = k.size(); a > 1; --a) { std::swap(k[a - 1], k[rng.next() % a]); } }
        for (int c : k) { ind.push_back(c); val.push_back(m.at(i, cols[c])); }
        p.push_back((int)ind.size());
    }
    return SparseMatrix<double>(p, ind, val, hi - lo, (int)cols.size());
}

struct Pieces { SparseMatrix<double> diag, offd; std::vector<int> map; };
// `wide`: columns without entries may appear in the column map
Pieces pieces(const Rig& g, const GM& m, int r, unsigned order, bool wide)
{
    Pieces x;
    std::vector<int> own;
    const int lo = g.lo(m.rp, r), hi = g.hi(m.rp, r);
    for (int j = g.lo(m.cp, r); j < g.hi(m.cp, r); ++j) { own.push_back(j); }
    for (int j = 0; j < m.C; ++j)
    {
        if (j >= g.lo(m.cp, r) && j < g.hi(m.cp, r)) { continue; }
        bool used = wide && sim::Rng(order * 77u + j * 13u + r).next() % 4 == 0;
        for (int i = lo; i < hi; ++i) { used = used || m.st(i, j); }
        if (used) { x.map.push_back(j); }
    }
    x.diag = block(m, lo, hi, own, order);
    x.offd = block(m, lo, hi, x.map, order);
    return x;
}

// ---- comparison ----------------------------------------------------------------------
template <typename T>
std::string malformed(const SparseMatrix<T>& m)
{
    const auto& p = m.GetIndptr();
    if (p.size() != (size_t)m.Rows() + 1 || p[0] != 0) { return "row pointers"; }
    for (size_t i = 0; i + 1 < p.size(); ++i) { if (p[i] > p[i + 1]) { return "row pointers decrease"; } }
    if ((size_t)p.back() != m.GetIndices().size() || m.GetIndices().size() != m.GetData().size()) { return "number of entries"; }
    for (int c : m.GetIndices()) { if (c < 0 || c >= m.Cols()) { return "column index out of range"; } }
    return "";
}

void check_matrix(ParMatrix& A, const GM& m, const Rig& g, int me, const std::string& after, int slot)
{
    const char* n = after.c_str();
    hypre_ParCSRMatrix* H = A;
    if (!m.live)
    {
        if (H || A.Rows() != 0 || A.Cols() != 0 || A.GlobalRows() != 0 || A.GlobalCols() != 0 || A.nnz() != 0)
        {
            violation("wrong-matrix", "after %s: matrix %d should be empty on rank %d but is %d x %d", n, slot, me, A.Rows(), A.Cols());
        }
        return;
    }
    const int lo = g.lo(m.rp, me), hi = g.hi(m.rp, me), cl = g.lo(m.cp, me), ch = g.hi(m.cp, me);
    if (A.Rows() != hi - lo || A.Cols() != ch - cl || A.GlobalRows() != m.R || A.GlobalCols() != m.C)
    {
        violation("wrong-size", "after %s: matrix %d is %d x %d of %d x %d on rank %d, not %d x %d of %d x %d", n, slot, A.Rows(), A.Cols(), A.GlobalRows(),
                  A.GlobalCols(), me, hi - lo, ch - cl, m.R, m.C);
    }
    if (A.GetRowStarts() != g.starts(m.rp, me) || A.GetColStarts() != g.starts(m.cp, me))
    {
        violation("wrong-size", "after %s: matrix %d reports other row or column starts on rank %d", n, slot, me);
    }
    if (A.GetComm() != g.comm || A.GetMyId() != me) { violation("wrong-communicator", "after %s: matrix %d reports another communicator or rank", n, slot); }
    const SparseMatrix<double>& D = A.GetDiag();
    const SparseMatrix<double>& O = A.GetOffd();
    std::string bad = malformed(D);
    if (bad.empty()) { bad = malformed(O); }
    if (!bad.empty()) { violation("malformed-matrix", "after %s: matrix %d on rank %d: %s", n, slot, me, bad.c_str()); }
    if (D.Rows() != hi - lo || D.Cols() != ch - cl || O.Rows() != hi - lo || O.Cols() != (int)A.GetColMap().size())
    {
        violation("malformed-matrix", "after %s: matrix %d on rank %d: block sizes", n, slot, me);
    }
    const auto& map = A.GetColMap();
    for (size_t k = 0; k < map.size(); ++k)
    {
        if (map[k] < 0 || map[k] >= m.C || (map[k] >= cl && map[k] < ch) || (k && map[k] <= map[k - 1]))
        {
            violation("malformed-matrix", "after %s: matrix %d on rank %d: column map", n, slot, me);
        }
    }
    if (!H || H->diag->data != D.GetData().data() || H->diag->i != D.GetIndptr().data() || H->diag->j != D.GetIndices().data() ||
        H->offd->data != O.GetData().data() || H->offd->i != O.GetIndptr().data() || H->offd->j != O.GetIndices().data() ||
        H->col_map_offd != map.data() || H->row_starts != A.GetRowStarts().data() || H->col_starts != A.GetColStarts().data() ||
        H->diag->num_rows != D.Rows() || H->offd->num_cols != O.Cols() || H->comm != g.comm)
    {
        violation("stale-hypre-view", "after %s: hypre's view of matrix %d on rank %d does not show its data", n, slot, me);
    }
    const double top = m.top();
    const int rows = hi - lo;
    std::vector<double> got((size_t)rows * m.C, 0.0);
    std::vector<int> times((size_t)rows * m.C, 0);
    auto spread = [&](const SparseMatrix<double>& B, bool diag)
    {
        for (int i = 0; i < rows; ++i)
        {
            for (int k = B.GetIndptr()[i]; k < B.GetIndptr()[i + 1]; ++k)
            {
                const int c = B.GetIndices()[k];
                const int j = diag ? c + cl : map[c];
                got[(size_t)i * m.C + j] += B.GetData()[k];
                times[(size_t)i * m.C + j]++;
            }
        }
    };
    spread(D, true);
    spread(O, false);
    for (int i = 0; i < rows; ++i)
    {
        for (int j = 0; j < m.C; ++j)
        {
            const double w = m.at(lo + i, j), x = got[(size_t)i * m.C + j];
            if (!near(w, x, top)) { violation("wrong-matrix", "after %s: matrix %d entry (%d,%d) is %.17g, not %.17g", n, slot, lo + i, j, x, w); }
            const int t = times[(size_t)i * m.C + j];
            if (m.exact && t != m.st(lo + i, j))
            {
                violation("wrong-pattern", "after %s: matrix %d entry (%d,%d) is stored %d times, not %d", n, slot, lo + i, j, t, (int)m.st(lo + i, j));
            }
        }
    }
}

void check_vector(const ParVector& x, const GV& v, const Rig& g, int me, const std::string& after, int slot)
{
    const int lo = v.live ? g.lo(v.p, me) : 0, hi = v.live ? g.hi(v.p, me) : 0;
    if (x.size() != hi - lo || x.GlobalSize() != (v.live ? g.size(v.p) : 0))
    {
        violation("wrong-size", "after %s: vector %d has %d of %d entries on rank %d", after.c_str(), slot, x.size(), x.GlobalSize(), me);
    }
    double top = 0;
    for (double y : v.v) { top = std::max(top, std::fabs(y)); }
    for (int i = lo; i < hi; ++i)
    {
        if (!near(v.v[i], x[i - lo], top))
        {
            violation("wrong-vector", "after %s: vector %d entry %d is %.17g, not %.17g", after.c_str(), slot, i, x[i - lo], v.v[i]);
        }
    }
}

void same(double want, double got, double scale, const char* what)
{
    if (!near(want, got, scale)) { Exempt e; violation("wrong-number", "%s on rank %d gave %.17g, not %.17g", what, ranks::self(), got, want); }
}

void same_local(const VectorView<double>& got, const std::vector<double>& want, int lo, const char* what)
{
    Exempt e;
    double top = 0;
    for (double y : want) { top = std::max(top, std::fabs(y)); }
    for (int i = 0; i < got.size(); ++i)
    {
        if (!near(want[lo + i], got[i], top)) { violation("wrong-vector", "%s: entry %d is %.17g, not %.17g", what, lo + i, got[i], want[lo + i]); }
    }
}

// ---- reference algebra ----------------------------------------------------------------
std::vector<double> mult(const GM& a, const std::vector<double>& x, bool t)
{
    std::vector<double> y(t ? a.C : a.R, 0.0);
    for (int i = 0; i < a.R; ++i) { for (int j = 0; j < a.C; ++j) { if (t) { y[j] += a.at(i, j) * x[i]; } else { y[i] += a.at(i, j) * x[j]; } } }
    return y;
}

GM product(const Rig& g, const GM& a, const GM& b)
{
    GM c = blank(g, a.rp, b.cp);
    c.exact = false;
    for (int i = 0; i < a.R; ++i)
    {
        for (int k = 0; k < a.C; ++k)
        {
            if (a.at(i, k) == 0) { continue; }
            for (int j = 0; j < b.C; ++j) { c.at(i, j) += a.at(i, k) * b.at(k, j); }
        }
    }
    return c;
}

GM transposed(const Rig& g, const GM& a)
{
    GM t = blank(g, a.cp, a.rp);
    t.exact = a.exact;
    for (int i = 0; i < a.R; ++i) { for (int j = 0; j < a.C; ++j) { t.at(j, i) = a.at(i, j); t.st(j, i) = a.st(i, j); } }
    return t;
}

double dot(const std::vector<double>& x, const std::vector<double>& y) { double s = 0; for (size_t i = 0; i < x.size(); ++i) { s += x[i] * y[i]; } return s; }
double dot_abs(const std::vector<double>& x, const std::vector<double>& y) { double s = 0; for (size_t i = 0; i < x.size(); ++i) { s += std::fabs(x[i] * y[i]); } return s; }

std::vector<double> local_of(const Rig& g, int p, const std::vector<double>& v, int r) { return std::vector<double>(v.begin() + g.lo(p, r), v.begin() + g.hi(p, r)); }

std::vector<double> draw_values(int n) { std::vector<double> v(n); for (double& x : v) { x = small("value"); } return v; }

// ---- drawing a script -------------------------------------------------------------------
Rig draw_rig(const std::vector<int>& members, bool world, bool gaps)
{
    Rig g;
    g.world = world;
    g.np = (int)members.size();
    g.comm = world ? MPI_COMM_WORLD : ranks::make_comm(members);
    const int n = 1 + (int)choose(3, "partitions");
    for (int k = 0; k < n; ++k) { g.parts.push_back(draw_bounds(g.np, gaps)); }
    return g;
}

template <typename F>
int pick(const std::vector<GM>& m, F ok)
{
    std::vector<int> c;
    for (int i = 0; i < (int)m.size(); ++i) { if (m[i].live && m[i].top() < 1e5 && ok(m[i])) { c.push_back(i); } }
    return c.empty() ? -1 : c[choose((unsigned)c.size(), "operand")];
}

void add_construct(Script& S)
{
    const Rig& g = S.rig;
    const int d = choose(NM, "slot");
    unsigned form = choose(6, "constructor");
    const int rp = choose((unsigned)g.parts.size(), "rows"), cp = form == 2 ? rp : (int)choose((unsigned)g.parts.size(), "columns");
    const bool local = form >= 2 && form <= 4;
    const GM m = draw_matrix(g, rp, cp, local);
    const unsigned order = choose(4, "column order");
    const bool wide = choose(3, "unused columns") == 2;
    S.M[d] = m;
    static const char* const N[] = {"ParMatrix(comm, starts, starts, diag, offd, map)", "ParMatrix(comm, diag, offd, map)", "ParMatrix(comm, starts, diag)",
                                    "ParMatrix(comm, starts, starts, diag)", "ParMatrix(comm, diag)", "ParMatrix(comm, starts, starts, diag, offd, map)"};
    S.add(N[form], [=](Local& L)
    {
        const Rig& g = *L.rig;
        Pieces x = pieces(g, m, L.me, order, wide);
        switch (form)
        {
            default: L.M[d] = ParMatrix(g.comm, g.starts(rp, L.me), g.starts(cp, L.me), x.diag, x.offd, x.map); break;
            case 1: L.M[d] = ParMatrix(g.comm, x.diag, x.offd, x.map); break;
            case 2: L.M[d] = ParMatrix(g.comm, g.starts(rp, L.me), x.diag); break;
            case 3: L.M[d] = ParMatrix(g.comm, g.starts(rp, L.me), g.starts(cp, L.me), x.diag); break;
            case 4: L.M[d] = ParMatrix(g.comm, x.diag); break;
        }
    });
}

void add_split(Script& S)
{
    const Rig& g = S.rig;
    const int d = choose(NM, "slot"), p = choose((unsigned)g.parts.size(), "rows"), n = g.size(p);
    std::vector<int> owner;
    for (int r = 0; r < g.np; ++r) { for (int i = g.lo(p, r); i < g.hi(p, r); ++i) { owner.push_back(r); } }
    for (int k = n; k > 1; --k) { std::swap(owner[k - 1], owner[choose((unsigned)k, "vertex to rank")]); }
    std::vector<int> number(n);                     // new number of each vertex
    std::vector<int> next(g.np);
    for (int r = 0; r < g.np; ++r) { next[r] = g.lo(p, r); }
    for (int i = 0; i < n; ++i) { number[i] = next[owner[i]]++; }
    GM m = draw_matrix(g, p, p, false);             // in the new numbering
    if (choose(2, "symmetric")) { for (int i = 0; i < n; ++i) { for (int j = 0; j < i; ++j) { m.at(j, i) = m.at(i, j); m.st(j, i) = m.st(i, j); } } }
    GM old = m;
    for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { old.at(i, j) = m.at(number[i], number[j]); old.st(i, j) = m.st(number[i], number[j]); } }
    const unsigned order = choose(4, "column order");
    S.M[d] = m;
    S.add("ParSplit", [=](Local& L)
    {
        std::vector<int> all;
        for (int j = 0; j < n; ++j) { all.push_back(j); }
        const SparseMatrix<double> A = block(old, 0, n, all, order);
        L.M[d] = ParSplit(L.rig->comm, A, owner);
    });
}

void add_vector(Script& S)
{
    const Rig& g = S.rig;
    const int d = choose(NV, "slot"), p = choose((unsigned)g.parts.size(), "rows");
    const unsigned form = choose(3, "constructor");
    GV v;
    v.live = true;
    v.p = p;
    const double x = small("value");
    v.v = form == 0 ? std::vector<double>(g.size(p), 0.0) : form == 1 ? std::vector<double>(g.size(p), x) : draw_values(g.size(p));
    S.V[d] = v;
    static const char* const N[] = {"ParVector(comm, starts)", "ParVector(comm, value, starts)", "ParVector(comm, local, starts)"};
    S.add(N[form], [=](Local& L)
    {
        const Rig& g = *L.rig;
        if (form == 0) { L.V[d] = ParVector(g.comm, g.starts(p, L.me)); }
        else if (form == 1) { L.V[d] = ParVector(g.comm, x, g.starts(p, L.me)); }
        else { const Vector<double> w(local_of(g, p, v.v, L.me)); L.V[d] = ParVector(g.comm, w, g.starts(p, L.me)); }
    });
}

// Vector in the partition p; constructs one when there is none.
int need_vector(Script& S, int p)
{
    std::vector<int> c;
    for (int i = 0; i < NV; ++i)
    {
        double top = 0;
        for (double x : S.V[i].v) { top = std::max(top, std::fabs(x)); }
        if (S.V[i].live && S.V[i].p == p && top < 1e5) { c.push_back(i); }
    }
    if (!c.empty() && choose(4, "new vector") < 3) { return c[choose((unsigned)c.size(), "operand")]; }
    const int d = choose(NV, "slot");
    GV v;
    v.live = true;
    v.p = p;
    v.v = draw_values(S.rig.size(p));
    S.V[d] = v;
    S.add("ParVector(comm, local, starts)", [=](Local& L)
    {
        const Vector<double> w(local_of(*L.rig, p, v.v, L.me));
        L.V[d] = ParVector(L.rig->comm, w, L.rig->starts(p, L.me));
    });
    return d;
}

void add_matvec(Script& S)
{
    const Rig& g = S.rig;
    const int a = pick(S.M, [](const GM&) { return true; });
    if (a < 0) { add_construct(S); return; }
    const bool t = choose(2, "transposed");
    const int ip = t ? S.M[a].rp : S.M[a].cp, op = t ? S.M[a].cp : S.M[a].rp;
    const int in = need_vector(S, ip);
    const std::vector<double> want = mult(S.M[a], S.V[in].v, t);
    const unsigned form = choose(5, "form");
    static const char* const N[] = {"Mult(view, view)", "Mult(view)", "Mult(ParVector, ParVector)", "Mult(ParVector)", "Operator::Mult",
                                    "MultAT(view, view)", "MultAT(view)", "MultAT(ParVector, ParVector)", "MultAT(ParVector)", "Operator::MultAT"};
    const char* name = N[form + (t ? 5 : 0)];
    int out = -1;
    if (form == 2)
    {
        for (int k = 0; k < NV; ++k) { if (k != in && S.V[k].live && S.V[k].p == op) { out = k; } }
    }
    else if (form == 3) { out = choose(NV, "slot"); }
    const double junk = small("junk");
    if (out >= 0)
    {
        S.V[out].live = true;
        S.V[out].p = op;
        S.V[out].v = want;
    }
    (void)g;
    S.add(name, [=](Local& L)
    {
        const ParMatrix& A = L.M[a];
        const ParVector& x = L.V[in];
        const int lo = L.rig->lo(op, L.me);
        switch (form)
        {
            case 0: { Vector<double> y(L.rig->hi(op, L.me) - lo, junk); if (t) { A.MultAT((const VectorView<double>&)x, (VectorView<double>)y); } else { A.Mult((const VectorView<double>&)x, (VectorView<double>)y); } same_local(y, want, lo, name); break; }
            case 1: { const Vector<double> y = t ? A.MultAT((const VectorView<double>&)x) : A.Mult((const VectorView<double>&)x); if (y.size() != L.rig->hi(op, L.me) - lo) { violation("wrong-size", "%s returned %d entries", name, y.size()); } same_local(y, want, lo, name); break; }
            case 2:
            {
                if (out >= 0) { if (t) { A.MultAT(x, L.V[out]); } else { A.Mult(x, L.V[out]); } break; }
                ParVector y(L.rig->comm, junk, L.rig->starts(op, L.me));
                if (t) { A.MultAT(x, y); } else { A.Mult(x, y); }
                same_local(y, want, lo, name);
                break;
            }
            case 3: L.V[out] = t ? A.MultAT(x) : A.Mult(x); break;
            case 4:
            {
                const Operator& o = A;
                Vector<double> y(L.rig->hi(op, L.me) - lo, junk);
                if (t) { o.MultAT((const VectorView<double>&)x, (VectorView<double>)y); } else { o.Mult((const VectorView<double>&)x, (VectorView<double>)y); }
                same_local(y, want, lo, name);
                break;
            }
        }
    });
}

void add_algebra(Script& S)
{
    const Rig& g = S.rig;
    const unsigned op = choose(7, "algebra");
    const int d = choose(NM, "slot");
    if (op == 0)
    {
        const int a = pick(S.M, [](const GM&) { return true; });
        if (a < 0) { add_construct(S); return; }
        const unsigned form = choose(2, "form");
        S.M[d] = transposed(g, GM(S.M[a]));
        S.add("Transpose", [=](Local& L) { L.M[d] = form ? Transpose(L.M[a]) : L.M[a].Transpose(); });
    }
    else if (op <= 2)
    {
        const int a = pick(S.M, [](const GM&) { return true; });
        if (a < 0) { add_construct(S); return; }
        const int cp = S.M[a].cp;
        const int b = pick(S.M, [&](const GM& m) { return m.rp == cp; });
        if (b < 0) { add_construct(S); return; }
        const unsigned form = choose(3, "form");
        const GM r = product(g, S.M[a], S.M[b]);
        S.M[d] = r;
        S.add("matrix product", [=](Local& L) { L.M[d] = form == 0 ? L.M[a].Mult(L.M[b]) : form == 1 ? L.M[a] * L.M[b] : Mult(L.M[a], L.M[b]); });
    }
    else if (op == 3)
    {
        const int a = pick(S.M, [](const GM& m) { return m.rp == m.cp; });
        if (a < 0) { add_construct(S); return; }
        const int p = S.M[a].cp;
        const int b = pick(S.M, [&](const GM& m) { return m.rp == p; });
        if (b < 0) { add_construct(S); return; }
        const GM r = product(g, product(g, transposed(g, S.M[b]), S.M[a]), S.M[b]);
        S.M[d] = r;
        S.add("RAP(A, P)", [=](Local& L) { L.M[d] = RAP(L.M[a], L.M[b]); });
    }
    else if (op == 4)
    {
        const int a = pick(S.M, [](const GM&) { return true; });
        if (a < 0) { add_construct(S); return; }
        const int rp = S.M[a].rp, cp = S.M[a].cp;
        const int r = pick(S.M, [&](const GM& m) { return m.rp == rp; });
        const int b = pick(S.M, [&](const GM& m) { return m.rp == cp; });
        if (r < 0 || b < 0) { add_construct(S); return; }
        const GM x = product(g, product(g, transposed(g, S.M[r]), S.M[a]), S.M[b]);
        S.M[d] = x;
        S.add("RAP(R, A, P)", [=](Local& L) { L.M[d] = RAP(L.M[r], L.M[a], L.M[b]); });
    }
    else
    {
        const int a = pick(S.M, [](const GM&) { return true; });
        if (a < 0) { add_construct(S); return; }
        const int rp = S.M[a].rp, cp = S.M[a].cp;
        const int b = pick(S.M, [&](const GM& m) { return m.rp == rp && m.cp == cp; });
        const unsigned form = choose(6, "form");
        const double al = form == 0 || form == 3 ? 1.0 : small("alpha"), be = form == 0 ? 1.0 : form == 3 ? 1.0 : small("beta");
        GM c = blank(g, rp, cp);
        const GM A = S.M[a], B = S.M[b];
        c.exact = A.exact && B.exact;
        for (size_t k = 0; k < c.v.size(); ++k)
        {
            c.v[k] = al * A.v[k] + (form >= 3 ? -be : be) * B.v[k];
            c.s[k] = A.s[k] || B.s[k];
        }
        S.M[d] = c;
        const int more = choose(3, "workspace");
        const int cols = c.C;
        static const char* const N[] = {"ParAdd", "ParAdd(alpha, beta)", "ParAdd(alpha, beta, marker)", "ParSub", "ParSub(alpha, beta)", "ParSub(alpha, beta, marker)"};
        S.add(N[form], [=](Local& L)
        {
            std::vector<int> marker(cols + more, more == 2 ? 1 : -1);
            switch (form)
            {
                case 0: L.M[d] = ParAdd(L.M[a], L.M[b]); break;
                case 1: L.M[d] = ParAdd(al, L.M[a], be, L.M[b]); break;
                case 2: L.M[d] = ParAdd(al, L.M[a], be, L.M[b], marker); break;
                case 3: L.M[d] = ParSub(L.M[a], L.M[b]); break;
                case 4: L.M[d] = ParSub(al, L.M[a], be, L.M[b]); break;
                case 5: L.M[d] = ParSub(al, L.M[a], be, L.M[b], marker); break;
            }
        });
    }
}

void add_change(Script& S)
{
    const Rig& g = S.rig;
    const unsigned op = choose(9, "change");
    const int a = pick(S.M, [&](const GM& m)
    {
        if (op == 1) { return m.exact; }
        if (op >= 7 && op <= 8)
        {
            if (m.rp != m.cp || !m.exact) { return false; }
            for (int i = 0; i < m.R; ++i) { if (!m.st(i, i)) { return false; } }
        }
        return true;
    });
    if (a < 0) { add_construct(S); return; }
    GM& m = S.M[a];
    static const double SC[] = {2.0, -1.0, 0.5, 1.5, 0.25, 1.0};
    const double x = SC[choose(6, "factor")];
    if (op == 0)
    {
        for (double& y : m.v) { y *= x; }
        S.add("operator*=", [=](Local& L) { L.M[a] *= x; });
    }
    else if (op == 1)
    {
        for (size_t k = 0; k < m.v.size(); ++k) { m.v[k] = m.s[k] ? x : 0.0; }
        S.add("operator=(value)", [=](Local& L) { L.M[a] = x; });
    }
    else if (op == 2)
    {
        const int d = choose(NM, "slot");
        GM n = m;
        for (double& y : n.v) { y = -y; }
        S.M[d] = n;
        S.add("unary minus", [=](Local& L) { L.M[d] = -L.M[a]; });
    }
    else if (op <= 5)
    {
        const bool inv = op == 5;
        std::vector<double> f(m.R);
        for (double& y : f) { y = inv ? (choose(2, "sign") ? -1 : 1) * std::ldexp(1.0, (int)choose(3, "power") - 1) : small("factor"); }
        for (int i = 0; i < m.R; ++i) { for (int j = 0; j < m.C; ++j) { if (inv) { m.at(i, j) /= f[i]; } else { m.at(i, j) *= f[i]; } } }
        const bool as_matrix = choose(2, "as matrix");
        const int p = m.rp;
        S.add(inv ? "InverseScaleRows" : "ScaleRows", [=](Local& L)
        {
            const std::vector<double> mine = local_of(*L.rig, p, f, L.me);
            if (as_matrix)
            {
                const SparseMatrix<double> D(mine);
                if (inv) { L.M[a].InverseScaleRows(D); } else { L.M[a].ScaleRows(D); }
            }
            else if (inv) { L.M[a].InverseScaleRows(mine); } else { L.M[a].ScaleRows(mine); }
        });
    }
    else if (op == 6)
    {
        std::vector<int> row(g.np, -1);
        for (int r = 0; r < g.np; ++r)
        {
            const int n = g.hi(m.rp, r) - g.lo(m.rp, r);
            row[r] = (int)choose((unsigned)n + 1, "row") - 1;
            if (row[r] >= 0) { for (int j = 0; j < m.C; ++j) { m.at(g.lo(m.rp, r) + row[r], j) = 0.0; } }
        }
        S.add("EliminateRow", [=](Local& L) { if (row[L.me] >= 0) { L.M[a].EliminateRow(row[L.me]); } });
    }
    else if (op == 7)
    {
        for (int i = 0; i < m.R; ++i) { m.at(i, i) += x; }
        S.add("AddDiag(value)", [=](Local& L) { L.M[a].AddDiag(x); });
    }
    else
    {
        const std::vector<double> f = draw_values(m.R);
        for (int i = 0; i < m.R; ++i) { m.at(i, i) += f[i]; }
        const int p = m.rp;
        S.add("AddDiag(values)", [=](Local& L) { L.M[a].AddDiag(local_of(*L.rig, p, f, L.me)); });
    }
}

void add_number(Script& S)
{
    const Rig& g = S.rig;
    const unsigned op = choose(5, "number");
    const int a = pick(S.M, [](const GM&) { return true; });
    if (op == 4)
    {
        const int k = 1 + choose(3, "sizes");
        const bool single = k == 1 && choose(2, "single");
        std::vector<std::vector<int>> n(k, std::vector<int>(g.np));
        for (auto& x : n) { for (int& y : x) { y = choose(6, "size"); } }
        S.add("GenerateOffsets", [=](Local& L)
        {
            std::vector<int> mine;
            for (auto& x : n) { mine.push_back(x[L.me]); }
            std::vector<std::vector<HYPRE_Int>> o;
            if (single) { o.push_back(GenerateOffsets(L.rig->comm, mine[0])); } else { o = GenerateOffsets(L.rig->comm, mine); }
            bool ok = o.size() == n.size();
            for (size_t q = 0; ok && q < n.size(); ++q)
            {
                int before = 0, all = 0;
                for (int r = 0; r < L.rig->np; ++r) { if (r < L.me) { before += n[q][r]; } all += n[q][r]; }
                ok = o[q].size() == 3 && o[q][0] == before && o[q][1] == before + mine[q] && o[q][2] == all;
            }
            if (!ok) { violation("wrong-offsets", "GenerateOffsets on rank %d of %d", L.me, L.rig->np); }
        });
        return;
    }
    if (a < 0) { add_construct(S); return; }
    const GM m = S.M[a];
    if (op == 0)
    {
        S.add("MaxNorm", [=](Local& L) { same(m.top(), L.M[a].MaxNorm(), m.top(), "MaxNorm"); });
    }
    else if (op == 1)
    {
        S.add("nnz", [=](Local& L)
        {
            int mine = L.M[a].GetDiag().nnz() + L.M[a].GetOffd().nnz(), all = 0;
            MPI_Allreduce(&mine, &all, 1, MPI_INT, MPI_SUM, L.rig->comm);
            if (m.exact) { all = 0; for (char c : m.s) { all += c; } }
            same(all, L.M[a].nnz(), 0, "nnz");
        });
    }
    else if (op == 2)
    {
        S.add("MakeCommPkg", [=](Local& L)
        {
            // exchange global column numbers along the package
            const ParCommPkg p = L.M[a].MakeCommPkg();
            const auto& map = L.M[a].GetColMap();
            Exempt e;
            bool ok = p.comm_ == L.rig->comm && (int)p.send_procs_.size() == p.num_sends_ && (int)p.recv_procs_.size() == p.num_recvs_ &&
                      (int)p.send_map_starts_.size() == p.num_sends_ + 1 && (int)p.recv_vec_starts_.size() == p.num_recvs_ + 1 &&
                      (int)p.send_map_elmts_.size() == p.send_map_starts_.back() && p.recv_vec_starts_.back() == (int)map.size();
            if (!ok) { violation("wrong-package", "MakeCommPkg on rank %d is inconsistent", L.me); }
            const int cl = L.rig->lo(m.cp, L.me), nc = L.rig->hi(m.cp, L.me) - cl;
            std::vector<int> out;
            for (int k : p.send_map_elmts_)
            {
                if (k < 0 || k >= nc) { violation("wrong-package", "MakeCommPkg on rank %d sends entry %d of %d", L.me, k, nc); }
                out.push_back(cl + k);
            }
            std::vector<int> in(map.size(), -1);
            std::vector<ranks::Send*> s;
            std::vector<ranks::Recv*> r;
            for (int k = 0; k < p.num_recvs_; ++k)
            {
                const int b = p.recv_vec_starts_[k], n = p.recv_vec_starts_[k + 1] - b;
                r.push_back(ranks::irecv(L.rig->comm, p.recv_procs_[k], in.data() + b, sizeof(int) * n));
            }
            for (int k = 0; k < p.num_sends_; ++k)
            {
                const int b = p.send_map_starts_[k], n = p.send_map_starts_[k + 1] - b;
                s.push_back(ranks::isend(L.rig->comm, p.send_procs_[k], out.data() + b, sizeof(int) * n));
            }
            ranks::wait_all(s, r);
            for (size_t k = 0; k < map.size(); ++k)
            {
                if (in[k] != map[k]) { violation("wrong-package", "along MakeCommPkg rank %d receives column %d where it needs %d", L.me, in[k], map[k]); }
            }
        });
    }
    else
    {
        const bool fixed = choose(2, "notation");
        S.add("Print", [=](Local& L)
        {
            std::ostringstream o;
            o.precision(17);
            if (fixed) { o << std::scientific; }
            L.M[a].Print("the label", o);
            Exempt e;
            // "(i, j) value" after the name of each block, then the column map
            std::istringstream in(o.str());
            std::multiset<std::tuple<int, int, double>> shown[2], held[2];
            std::vector<int> map;
            std::string w;
            int part = -1;
            bool ok = (bool)(in >> w) && w == "the" && (bool)(in >> w) && w == "label";
            while (ok && in >> w)
            {
                if (w == "Diag:") { ok = part == -1; part = 0; }
                else if (w == "Offd:") { ok = part == 0; part = 1; }
                else if (w == "ColMap:") { ok = part == 1; part = 2; }
                else if (part == 2) { map.push_back(atoi(w.c_str())); }
                else
                {
                    int i = -1, j = -1;
                    double x = 0;
                    ok = part >= 0 && sscanf(w.c_str(), "(%d,", &i) == 1 && in >> w && sscanf(w.c_str(), "%d)", &j) == 1 && in >> x;
                    if (ok) { shown[part].emplace(i, j, x); }
                }
            }
            const SparseMatrix<double>* B[] = {&L.M[a].GetDiag(), &L.M[a].GetOffd()};
            for (int b = 0; b < 2; ++b)
            {
                for (int i = 0; i < B[b]->Rows(); ++i)
                {
                    for (int k = B[b]->GetIndptr()[i]; k < B[b]->GetIndptr()[i + 1]; ++k) { held[b].emplace(i, B[b]->GetIndices()[k], B[b]->GetData()[k]); }
                }
            }
            const std::vector<int> want(L.M[a].GetColMap().begin(), L.M[a].GetColMap().end());
            if (!ok || part != 2 || shown[0] != held[0] || shown[1] != held[1] || map != want)
            {
                violation("wrong-print", "matrix %d on rank %d does not print what it holds: '%s'", a, L.me, o.str().c_str());
            }
        });
    }
}

void add_vector_op(Script& S)
{
    const Rig& g = S.rig;
    const int p = choose((unsigned)g.parts.size(), "rows");
    const int a = need_vector(S, p), b = need_vector(S, p);
    if (!S.V[a].live || S.V[a].p != p) { return; }
    const unsigned op = choose(12, "vector operation");
    GV& x = S.V[a];
    const GV y = S.V[b];
    const double s = small("value");
    const double n2 = dot(x.v, y.v), na = dot_abs(x.v, y.v);
    switch (op)
    {
        case 0: for (size_t i = 0; i < x.v.size(); ++i) { x.v[i] += y.v[i]; } S.add("ParVector +=", [=](Local& L) { L.V[a] += L.V[b]; }); break;
        case 1: for (size_t i = 0; i < x.v.size(); ++i) { x.v[i] -= y.v[i]; } S.add("ParVector -=", [=](Local& L) { L.V[a] -= L.V[b]; }); break;
        case 2: for (size_t i = 0; i < x.v.size(); ++i) { x.v[i] *= y.v[i]; } S.add("ParVector *=", [=](Local& L) { L.V[a] *= L.V[b]; }); break;
        case 3:
        {
            for (double q : y.v) { if (q == 0) { return; } }
            for (size_t i = 0; i < x.v.size(); ++i) { x.v[i] /= y.v[i]; }
            S.add("ParVector /=", [=](Local& L) { L.V[a] /= L.V[b]; });
            break;
        }
        case 4: for (double& q : x.v) { q = s; } S.add("ParVector = value", [=](Local& L) { L.V[a] = s; }); break;
        case 5: S.add("ParVector dot", [=](Local& L) { same(n2, L.V[a].Mult(L.V[b]), na, "ParVector::Mult"); same(n2, Mult(L.V[a], L.V[b]), na, "Mult(ParVector, ParVector)"); }); break;
        case 6:
        {
            const double q = dot(x.v, x.v);
            S.add("L2Norm", [=](Local& L)
            {
                same(std::sqrt(q), L.V[a].L2Norm(), std::sqrt(q), "ParVector::L2Norm");
                same(std::sqrt(q), L2Norm(L.V[a]), std::sqrt(q), "L2Norm(ParVector)");
                same(std::sqrt(q), ParL2Norm(L.rig->comm, L.V[a]), std::sqrt(q), "ParL2Norm");
            });
            break;
        }
        case 7:
        {
            double all = 0, abs = 0;
            for (double q : x.v) { all += q; abs += std::fabs(q); }
            S.add("GlobalSum", [=](Local& L)
            {
                double mine = 0;
                same(all, L.V[a].GlobalSum(), abs, "GlobalSum");
                for (int i = 0; i < L.V[a].size(); ++i) { mine += L.V[a][i]; }
                same(mine, L.V[a].LocalSum(), abs, "LocalSum");
            });
            break;
        }
        case 8:
        {
            double all = 0;
            for (double q : x.v) { all += q; }
            for (double& q : x.v) { q -= all / x.v.size(); }
            S.add("SubAvg", [=](Local& L) { SubAvg(L.V[a]); });
            break;
        }
        case 9: S.add("ParMult(comm)", [=](Local& L) { same(n2, ParMult(L.rig->comm, L.V[a], L.V[b]), na, "ParMult(comm)"); }); break;
        case 10:
            if (g.world) { S.add("ParMult", [=](Local& L) { same(n2, ParMult(L.V[a], L.V[b]), na, "ParMult"); }); }
            break;
        case 11:
        {
            for (double& q : x.v) { q *= s; }
            S.add("Vector *= value", [=](Local& L) { static_cast<Vector<double>&>(L.V[a]) *= s; });
            break;
        }
    }
}

void add_ownership(Script& S)
{
    const unsigned op = choose(16, "ownership");
    if (op < 8)
    {
        const int a = choose(NM, "from"), d = choose(NM, "to");
        const GM old = S.M[a];
        switch (op)
        {
            case 0: case 1: S.M[d] = old; S.add("matrix copy assignment", [=](Local& L) { L.M[d] = L.M[a]; }); break;
            case 2:
                if (a == d) { return; }
                S.M[a] = GM();
                S.M[d] = old;
                S.add("matrix move assignment", [=](Local& L) { L.M[d] = std::move(L.M[a]); });
                break;
            case 3: std::swap(S.M[a], S.M[d]); S.add("matrix swap", [=](Local& L) { swap(L.M[a], L.M[d]); }); break;
            case 4: S.M[a] = GM(); S.add("matrix move construction and destruction", [=](Local& L) { ParMatrix t(std::move(L.M[a])); }); break;
            case 5: S.M[a] = GM(); S.add("matrix reset", [=](Local& L) { L.M[a] = ParMatrix(); }); break;
            case 6:
                if (a == d) { return; }
                S.M[d] = old;
                S.M[a] = GM();
                S.add("matrix moved on twice", [=](Local& L) { ParMatrix t(std::move(L.M[a])); ParMatrix u; u = std::move(t); ParMatrix w(u); swap(w, L.M[d]); });
                break;
            case 7: S.add("matrix in a growing list", [=](Local& L) { std::vector<ParMatrix> v; v.push_back(L.M[a]); v.push_back(L.M[d]); v.emplace_back(); swap(v[0], v[2]); L.M[a] = v[2]; }); break;
        }
        return;
    }
    const int a = choose(NV, "from"), d = choose(NV, "to");
    const GV old = S.V[a];
    switch (op)
    {
        case 8: case 9: S.V[d] = old; S.add("vector copy assignment", [=](Local& L) { L.V[d] = L.V[a]; }); break;
        case 10:
            if (a == d) { return; }
            S.V[a] = GV();
            S.V[d] = old;
            S.add("vector move assignment", [=](Local& L) { L.V[d] = std::move(L.V[a]); });
            break;
        case 11: std::swap(S.V[a], S.V[d]); S.add("vector swap", [=](Local& L) { swap(L.V[a], L.V[d]); }); break;
        case 12: S.V[a] = GV(); S.add("vector move construction and destruction", [=](Local& L) { ParVector t(std::move(L.V[a])); }); break;
        case 13: S.V[a] = GV(); S.add("vector reset", [=](Local& L) { L.V[a] = ParVector(); }); break;
        case 14: S.add("vector in a growing list", [=](Local& L) { std::vector<ParVector> v; v.push_back(L.V[a]); v.push_back(L.V[d]); v.emplace_back(); L.V[a] = v[0]; }); break;
        case 15:
            if (!old.live) { return; }
            S.V[d] = old;
            S.add("vector copy through a temporary", [=](Local& L) { ParVector t(L.V[a]); ParVector u(std::move(t)); swap(u, L.V[d]); });
            break;
    }
}

void carry_out(Script& S, int me)
{
    Exempt exempt;
    Local L;
    L.rig = &S.rig;
    L.me = me;
    {
        Track t;
        L.M.resize(NM);
        L.V.resize(NV);
    }
    for (size_t k = 0; k < S.steps.size(); ++k)
    {
        Step& s = S.steps[k];
        ranks::label(s.name.c_str());
        try
        {
            Track t;
            s.run(L);
        }
        catch (const std::exception& e) { violation("refused", "%s threw on rank %d: %s", s.name.c_str(), me, e.what()); }
        for (int i = 0; i < NM; ++i) { check_matrix(L.M[i], s.M[i], S.rig, me, s.name, i); }
        for (int i = 0; i < NV; ++i) { check_vector(L.V[i], s.V[i], S.rig, me, s.name, i); }
    }
    ranks::label("destruction");
}

// Groups of ranks: all of them (in some order), or two disjoint groups.
std::vector<std::vector<int>> draw_groups(int n, bool& world)
{
    std::vector<int> order;
    for (int i = 0; i < n; ++i) { order.push_back(i); }
    const unsigned kind = choose(4, "communicators");
    world = kind <= 1;
    if (world) { return {order}; }
    for (int k = n; k > 1; --k) { std::swap(order[k - 1], order[choose((unsigned)k, "rank order")]); }
    if (kind == 2 || n < 2) { return {order}; }
    const int cut = 1 + choose((unsigned)n - 1, "first group");
    return {std::vector<int>(order.begin(), order.begin() + cut), std::vector<int>(order.begin() + cut, order.end())};
}

// What the library writes to the standard output without being asked.
struct Quiet
{
    char text[200];
    FILE* file;
    FILE* old;
    std::ostringstream stream;
    std::streambuf* oldbuf;
    Quiet() : file(fmemopen(text, sizeof text, "w")), old(stdout) { text[0] = 0; stdout = file; oldbuf = std::cout.rdbuf(stream.rdbuf()); }
    ~Quiet() { if (file) { stop(); } }
    std::string stop()
    {
        fclose(file);
        file = nullptr;
        stdout = old;
        std::cout.rdbuf(oldbuf);
        text[sizeof text - 1] = 0;
        return text + stream.str();
    }
};

void finish(uint64_t live, const std::string& printed)
{
    if (!printed.empty()) { violation("unasked-output", "the library wrote to the standard output: %s", printed.substr(0, 60).c_str()); }
    if (sim::hypre::live_blocks() || sim::hypre::live_solvers()) { violation("hypre-leak", "hypre objects never freed: %s", sim::hypre::leftovers().c_str()); }
    if (sim::alloc::live() != live) { violation("leak", "%d blocks of memory were never freed", (int)(sim::alloc::live() - live)); }
}

void distributed(bool owning)
{
    Exempt exempt;
    const int n = 1 + (int)sim::weighted({1, 3, 3, 2, 1}, "ranks");
    sim::hypre::mpi_init(n);
    bool world;
    const auto groups = draw_groups(n, world);
    std::vector<Script> scripts(groups.size());
    const bool units = choose(6, "other units") == 5;
    g_unit = units ? std::ldexp(1.0, (int[]) {-60, -40, -20, -80}[choose(4, "power")]) : 1.0;
    std::feclearexcept(FE_ALL_EXCEPT);
    for (size_t q = 0; q < groups.size(); ++q)
    {
        Script& S = scripts[q];
        S.rig = draw_rig(groups[q], world, true);
        add_construct(S);
        const int k = units ? 1 + (int)choose(4, "steps") : 2 + (int)choose(9, "steps");
        for (int i = 0; i < k; ++i)
        {
            switch (owning ? sim::weighted({2, 1, 1, 2, 1, 1, 1, 1, 8}, "step") : sim::weighted({3, 2, 1, 4, 4, 3, 2, 3, 2}, "step"))
            {
                case 0: add_construct(S); break;
                case 1: add_split(S); break;
                case 2: add_vector(S); break;
                case 3: add_matvec(S); break;
                case 4: add_algebra(S); break;
                case 5: add_change(S); break;
                case 6: add_number(S); break;
                case 7: add_vector_op(S); break;
                case 8: add_ownership(S); break;
            }
        }
        for (auto& s : S.steps) { sim::event("group %zu: %s", q, s.name.c_str()); sim::state(s.name.c_str()); }
    }
    const bool exact = units && !std::fetestexcept(FE_INEXACT | FE_UNDERFLOW | FE_OVERFLOW);
    g_floor = exact ? 0.0 : 1.0;
    if (units) { sim::count(exact ? "probe.other_units" : "probe.other_units_rounded"); }
    sim::nontrivial();
    Quiet quiet;
    const uint64_t live = sim::alloc::live();
    ranks::run(n, [&](int r)
    {
        for (size_t q = 0; q < groups.size(); ++q)
        {
            for (size_t k = 0; k < groups[q].size(); ++k) { if (groups[q][k] == r) { carry_out(scripts[q], (int)k); } }
        }
    });
    finish(live, quiet.stop());
}

void p16() { distributed(false); }
void p17() { distributed(true); }


// ---- solvers (P18) ------------------------------------------------------------------------
enum Kind { K_AMG, K_SAILS, K_CG, K_DIAG, K_SMOOTH, K_PLAIN, KINDS };
const char* const KIND[] = {"BoomerAMG", "ParaSails", "ParCG", "ParDiagScale", "ParSmoother", "ParSolver"};
enum { NS = 2 };
const SmoothType TYPES[] = {SmoothType::Jacobi, SmoothType::L1_Jacobi, SmoothType::L1_GS, SmoothType::Kaczmarz, SmoothType::GS_par, SmoothType::Hybrid_forward,
                            SmoothType::Hybrid_SSOR};

struct SM                               // what a solver was set up with
{
    bool live = false;
    Kind kind = K_AMG;
    int a = 0;                          // which system
    int max_iter = 0;
    double tol = 0;
    bool verbose = false;
    double thresh = 0.1, filter = 0.1, loadbal = 0;
    int levels = 1, sym = 0, reuse = 0;
    int type = 0, times = 1;
    double weight = 1, omega = 1;
    int precond = -1;                   // index into the fixed preconditioners
    bool diag_scaling = false;
    int given = 7;                      // how many of the constructor's parameters were given; the others keep their documented defaults
};

typedef std::vector<double> Vec;

struct SolverScript
{
    Rig rig;
    int p = 0;
    std::vector<GM> A;
    std::vector<SM> pre;
    SM slots[KINDS][NS];
    struct SStep
    {
        std::string name;
        std::function<void(struct SolverLocal&)> run;
        SM slots[KINDS][NS];
    };
    std::vector<SStep> steps;
    void add(const std::string& name, std::function<void(struct SolverLocal&)> f)
    {
        SStep s;
        s.name = name;
        s.run = std::move(f);
        for (int k = 0; k < KINDS; ++k) { for (int i = 0; i < NS; ++i) { s.slots[k][i] = slots[k][i]; } }
        steps.push_back(std::move(s));
    }
};

struct SolverLocal
{
    const SolverScript* S;
    const Rig* rig;
    int me;
    std::vector<std::unique_ptr<ParSolver>> pre;
    BoomerAMG amg[NS];
    ParaSails sails[NS];
    ParCG cg[NS];
    ParDiagScale diag[NS];
    ParSmoother smooth[NS];
    ParSolver plain[NS];
    ParSolver& get(int k, int i)
    {
        switch (k)
        {
            case K_AMG: return amg[i];
            case K_SAILS: return sails[i];
            case K_CG: return cg[i];
            case K_DIAG: return diag[i];
            case K_PLAIN: return plain[i];
            default: return smooth[i];
        }
    }
};

Vec residual(const GM& A, const Vec& b, const Vec& x)
{
    Vec r = b;
    const Vec y = mult(A, x, false);
    for (size_t i = 0; i < r.size(); ++i) { r[i] -= y[i]; }
    return r;
}

Vec l1_norms(const GM& A, const Rig& g, int option)
{
    Vec n(A.R, 0.0);
    for (int r = 0; r < g.np; ++r)
    {
        for (int i = g.lo(A.rp, r); i < g.hi(A.rp, r); ++i)
        {
            for (int j = 0; j < A.C; ++j)
            {
                const bool mine = j >= g.lo(A.cp, r) && j < g.hi(A.cp, r);
                const double x = A.at(i, j);
                if (option == 1) { n[i] += std::fabs(x); }
                if (option == 2 && (i == j || !mine)) { n[i] += std::fabs(x); }
                if (option == 3) { n[i] += x * x; }
            }
            if (A.at(i, i) < 0) { n[i] = -n[i]; }
        }
    }
    return n;
}

// What the solver gives for b, from x as the initial guess where it takes one.
Vec apply(const SolverScript& S, const SM& s, const Vec& b, const Vec& guess)
{
    const GM& A = S.A[s.a];
    const int n = A.R;
    Vec x(n, 0.0);
    switch (s.kind)
    {
        case K_AMG:
        {
            const double w = sim::hypre::amg_weight(true, s.verbose ? 2 : 0, s.max_iter, s.tol);
            for (int it = 0; it < s.max_iter; ++it)
            {
                const Vec r = residual(A, b, x);
                if (s.tol > 0 && dot(r, r) <= s.tol * s.tol * dot(b, b)) { break; }
                for (int i = 0; i < n; ++i) { x[i] += w * r[i] / A.at(i, i); }
            }
            return x;
        }
        case K_SAILS:
        {
            const double w = sim::hypre::sails_scale(s.thresh, s.levels, s.filter, s.sym, s.loadbal, s.reuse, s.verbose);
            for (int i = 0; i < n; ++i) { x[i] = w * b[i] / A.at(i, i); }
            return x;
        }
        case K_DIAG:
            for (int i = 0; i < n; ++i) { x[i] = b[i] / A.at(i, i); }
            return x;
        case K_PLAIN:
            for (int i = 0; i < n; ++i) { x[i] = 0.5 * b[i]; }
            return x;
        case K_SMOOTH:
        {
            x = guess;
            const double w = s.weight * s.omega * sim::hypre::relax_weight(s.type);
            const Vec l1 = l1_norms(A, S.rig, s.type);
            for (int it = 0; it < s.times; ++it)
            {
                const Vec r = residual(A, b, x);
                for (int i = 0; i < n; ++i) { x[i] += w * r[i] / (s.type >= 1 && s.type <= 4 ? l1[i] : A.at(i, i)); }
            }
            return x;
        }
        default: break;
    }
    auto precond = [&](const Vec& r)
    {
        if (s.diag_scaling) { Vec z(n); for (int i = 0; i < n; ++i) { z[i] = r[i] / A.at(i, i); } return z; }
        if (s.precond >= 0) { return apply(S, S.pre[s.precond], r, Vec(n, 0.0)); }
        return r;
    };
    Vec pv = precond(b);
    const double bi = dot(pv, b);
    if (bi == 0.0) { return b; }
    const double eps = s.tol * s.tol * bi;
    Vec r = b;
    pv = precond(r);
    double gamma = dot(r, pv);
    for (int it = 0; it < s.max_iter && gamma != 0.0; ++it)
    {
        const Vec t = mult(A, pv, false);
        const double sp = dot(t, pv);
        if (sp == 0.0) { break; }
        const double alpha = gamma / sp;
        for (int i = 0; i < n; ++i) { x[i] += alpha * pv[i]; r[i] -= alpha * t[i]; }
        const Vec z = precond(r);
        const double g = dot(r, z);
        if (g < eps) { break; }
        const double beta = g / gamma;
        gamma = g;
        for (int i = 0; i < n; ++i) { pv[i] = z[i] + beta * pv[i]; }
    }
    return x;
}

SM draw_solver(Kind k, const SolverScript& S, bool preconditioner)
{
    static const double TH[] = {0.1, 0.25, 0.0, 0.05, -0.5};
    static const double LB[] = {0.0, 0.5, 0.9, 1.0};
    static const double TOL[] = {0.0, 1e-2, 1e-4, 1e-8};
    SM s;
    s.live = true;
    s.kind = k;
    s.a = (int)choose((unsigned)S.A.size(), "system");
    if (k == K_CG || preconditioner) { s.a = 0; }
    s.verbose = choose(2, "verbose");
    switch (k)
    {
        case K_AMG: s.max_iter = preconditioner ? 1 : 1 + (int)choose(4, "iterations"); s.tol = preconditioner ? 0.0 : TOL[choose(3, "tolerance")]; break;
        case K_SAILS:
            s.thresh = TH[choose(5, "threshold")];
            s.filter = TH[choose(5, "filter")];
            s.levels = (int)choose(3, "levels");
            s.sym = (int)choose(3, "symmetry");
            s.loadbal = LB[choose(4, "load balance")];
            s.reuse = (int)choose(2, "reuse");
            break;
        case K_CG: s.max_iter = 1 + (int)choose(8, "iterations"); s.tol = TOL[choose(4, "tolerance")]; s.precond = S.pre.empty() ? -1 : (int)choose((unsigned)S.pre.size() + 1, "preconditioner") - 1; break;
        case K_SMOOTH:
            s.type = (int)TYPES[choose(7, "type")];
            s.times = 1 + (int)choose(3, "times");
            s.weight = 0.25 * (1 + choose(4, "weight"));
            s.omega = 0.5 * (1 + choose(2, "omega"));
            break;
        default: break;
    }
    if (!preconditioner && choose(4, "defaults") == 3)
    {
        s.given = (int)choose(k == K_SAILS ? 7 : k == K_SMOOTH ? 4 : 3, "given");
        const int n = s.given;
        if (k == K_AMG) { if (n < 1) { s.max_iter = 1; } if (n < 2) { s.tol = 0; } if (n < 3) { s.verbose = false; } }
        if (k == K_CG) { if (n < 1) { s.max_iter = 1000; } if (n < 2) { s.tol = 1e-8; } if (n < 3) { s.verbose = false; } }
        if (k == K_SAILS)
        {
            if (n < 1) { s.verbose = false; }
            if (n < 2) { s.reuse = 0; }
            if (n < 3) { s.sym = 0; }
            if (n < 4) { s.loadbal = 0; }
            if (n < 5) { s.thresh = 0.1; }
            if (n < 6) { s.filter = 0.1; }
            if (n < 7) { s.levels = 1; }
        }
        if (k == K_SMOOTH)
        {
            if (n < 1) { s.type = (int)SmoothType::Jacobi; }
            if (n < 2) { s.times = 1; }
            if (n < 3) { s.weight = 1; }
            if (n < 4) { s.omega = 1; }
        }
    }
    return s;
}

ParMatrix make_matrix(const SolverScript& S, int a, int me, unsigned order)
{
    Pieces x = pieces(S.rig, S.A[a], me, order, false);
    return ParMatrix(S.rig.comm, S.rig.starts(S.p, me), S.rig.starts(S.p, me), x.diag, x.offd, x.map);
}

BoomerAMG make_amg(const SM& s, const ParMatrix& A)
{
    switch (s.given)
    {
        case 0: return BoomerAMG(A);
        case 1: return BoomerAMG(A, s.max_iter);
        case 2: return BoomerAMG(A, s.max_iter, s.tol);
        default: return BoomerAMG(A, s.max_iter, s.tol, s.verbose);
    }
}
ParaSails make_sails(const SM& s, const ParMatrix& A)
{
    switch (s.given)
    {
        case 0: return ParaSails(A);
        case 1: return ParaSails(A, s.verbose);
        case 2: return ParaSails(A, s.verbose, s.reuse);
        case 3: return ParaSails(A, s.verbose, s.reuse, s.sym);
        case 4: return ParaSails(A, s.verbose, s.reuse, s.sym, s.loadbal);
        case 5: return ParaSails(A, s.verbose, s.reuse, s.sym, s.loadbal, s.thresh);
        case 6: return ParaSails(A, s.verbose, s.reuse, s.sym, s.loadbal, s.thresh, s.filter);
        default: return ParaSails(A, s.verbose, s.reuse, s.sym, s.loadbal, s.thresh, s.filter, s.levels);
    }
}
ParCG make_cg(const SM& s, const ParMatrix& A, const ParSolver* M)
{
    switch (s.given)
    {
        case 0: return M ? ParCG(A, *M) : ParCG(A);
        case 1: return M ? ParCG(A, *M, s.max_iter) : ParCG(A, s.max_iter);
        case 2: return M ? ParCG(A, *M, s.max_iter, s.tol) : ParCG(A, s.max_iter, s.tol);
        default: return M ? ParCG(A, *M, s.max_iter, s.tol, s.verbose) : ParCG(A, s.max_iter, s.tol, s.verbose);
    }
}
// A user's solver, given to ParSolver as functions.
HYPRE_Int user_create(HYPRE_Solver* s) { *s = (HYPRE_Solver) new double(0.5); return 0; }
HYPRE_Int user_destroy(HYPRE_Solver s) { if (!s) { violation("solver-misuse", "a solver without data was destroyed"); } delete (double*)s; return 0; }
HYPRE_Int user_solve(HYPRE_Solver s, HYPRE_ParCSRMatrix, HYPRE_ParVector b, HYPRE_ParVector x)
{
    const int n = hypre_VectorSize(hypre_ParVectorLocalVector(b));
    for (int i = 0; i < n; ++i) { hypre_VectorData(hypre_ParVectorLocalVector(x))[i] = *(double*)s * hypre_VectorData(hypre_ParVectorLocalVector(b))[i]; }
    return 0;
}
ParSolver make_plain(const SM& s, const ParMatrix& A) { return ParSolver(A, 1, 0.0, s.verbose, &user_create, &user_destroy, &no_setup, &user_solve); }
ParDiagScale make_diag(const SM&, const ParMatrix& A) { return ParDiagScale(A); }
ParSmoother make_smooth(const SM& s, const ParMatrix& A)
{
    switch (s.given)
    {
        case 0: return ParSmoother(A);
        case 1: return ParSmoother(A, (SmoothType)s.type);
        case 2: return ParSmoother(A, (SmoothType)s.type, s.times);
        case 3: return ParSmoother(A, (SmoothType)s.type, s.times, s.weight);
        default: return ParSmoother(A, (SmoothType)s.type, s.times, s.weight, s.omega);
    }
}

template <typename T>
void own(unsigned op, T* x, int a, int d)
{
    using std::swap;
    switch (op)
    {
        case 0: x[d] = x[a]; break;
        case 1: x[d] = std::move(x[a]); break;
        case 2: swap(x[a], x[d]); break;
        case 3: { T t(std::move(x[a])); break; }
        case 4: x[a] = T(); break;
        case 5: { T t(x[a]); T u(std::move(t)); T w; w = u; swap(w, x[d]); break; }
        case 6: { std::vector<T> v; v.push_back(x[a]); v.push_back(x[d]); v.emplace_back(); x[d] = v[0]; break; }
    }
}

void add_solver(SolverScript& S)
{
    const Kind k = (Kind)choose(KINDS, "kind");
    const int d = (int)choose(NS, "slot");
    const SM s = draw_solver(k, S, false);
    const unsigned order = choose(4, "column order");
    S.slots[k][d] = s;
    S.add(std::string("new ") + KIND[k], [=](SolverLocal& L)
    {
        ParMatrix A = make_matrix(*L.S, s.a, L.me, order);
        switch (k)
        {
            case K_AMG: L.amg[d] = make_amg(s, A); break;
            case K_SAILS: L.sails[d] = make_sails(s, A); break;
            case K_CG:
                L.cg[d] = make_cg(s, A, s.precond >= 0 ? L.pre[s.precond].get() : nullptr);
                break;
            case K_DIAG: L.diag[d] = make_diag(s, A); break;
            case K_PLAIN: L.plain[d] = make_plain(s, A); break;
            default: L.smooth[d] = make_smooth(s, A); break;
        }
        A *= 2.0;                       // the solver has a matrix of its own
    });
}

void add_solver_ownership(SolverScript& S)
{
    const Kind k = (Kind)choose(KINDS, "kind");
    const unsigned op = choose(7, "ownership");
    const int a = (int)choose(NS, "from"), d = (int)choose(NS, "to");
    if (op == 1 && a == d) { return; }
    const SM old = S.slots[k][a];
    static const char* const N[] = {"copy assignment", "move assignment", "swap", "move construction and destruction", "reset", "copies and moves", "growing list"};
    switch (op)
    {
        case 0: case 5: case 6: S.slots[k][d] = old; break;
        case 1: S.slots[k][a] = SM(); S.slots[k][d] = old; break;
        case 2: std::swap(S.slots[k][a], S.slots[k][d]); break;
        case 3: case 4: S.slots[k][a] = SM(); break;
    }
    S.add(std::string(KIND[k]) + ": " + N[op], [=](SolverLocal& L)
    {
        switch (k)
        {
            case K_AMG: own(op, L.amg, a, d); break;
            case K_SAILS: own(op, L.sails, a, d); break;
            case K_CG: own(op, L.cg, a, d); break;
            case K_DIAG: own(op, L.diag, a, d); break;
            case K_PLAIN: own(op, L.plain, a, d); break;
            default: own(op, L.smooth, a, d); break;
        }
    });
}

void add_solve(SolverScript& S)
{
    std::vector<std::pair<int, int>> c;
    for (int k = 0; k < KINDS; ++k) { for (int i = 0; i < NS; ++i) { if (S.slots[k][i].live) { c.push_back({k, i}); } } }
    if (c.empty()) { add_solver(S); return; }
    const auto w = c[choose((unsigned)c.size(), "solver")];
    const SM s = S.slots[w.first][w.second];
    const int n = S.rig.size(S.p);
    const Vec b = draw_values(n), guess = draw_values(n);
    const Vec want = apply(S, s, b, guess);
    const std::string name = std::string(KIND[w.first]) + "::Mult";
    S.add(name, [=](SolverLocal& L)
    {
        const Rig& g = *L.rig;
        const int p = L.S->p;
        const Vec bl = local_of(g, p, b, L.me), xl = local_of(g, p, guess, L.me);
        const Vector<double> rhs(bl);
        Vector<double> x(xl);
        const Operator& o = L.get(w.first, w.second);
        o.Mult(rhs, x);
        Exempt e;
        double top = 0;
        for (double y : want) { top = std::max(top, std::fabs(y)); }
        for (int i = 0; i < x.size(); ++i)
        {
            if (std::fabs(want[g.lo(p, L.me) + i] - x[i]) > 1e-7 * (1 + top))
            {
                violation("wrong-solution", "%s: entry %d is %.17g, not %.17g", name.c_str(), g.lo(p, L.me) + i, x[i], want[g.lo(p, L.me) + i]);
            }
        }
        for (size_t i = 0; i < bl.size(); ++i) { if (rhs[i] != bl[i]) { violation("operand-changed", "%s changed its right hand side", name.c_str()); } }
    });
}

// An operator of the user's own, for which the base class keeps the distribution and two vectors.
struct Users : ParOperator
{
    ParMatrix A;
    explicit Users(const ParMatrix& m) : ParOperator(m.GetComm(), m.GetRowStarts()), A(m) {}
    Users(const ParMatrix& m, int) : ParOperator(m.GetComm(), m.GetRowStarts(), m.GetColStarts()), A(m) {}
    void Mult(const VectorView<double>& in, VectorView<double> out) const override { A.Mult(in, out); }
    using ParOperator::Mult;
    bool right(int n) const { return x_ && b_ && GlobalRows() == n && GlobalCols() == n && Rows() == A.Rows() && Cols() == A.Cols() && GetMyId() == A.GetMyId(); }
};

void add_eigen(SolverScript& S)
{
    const int n = S.rig.size(S.p);
    const int k = 1 + (int)choose(3, "vectors");
    const int pre = S.pre.empty() ? -1 : (int)choose((unsigned)S.pre.size() + 1, "preconditioner") - 1;
    const unsigned order = choose(4, "column order");
    const bool verbose = choose(2, "verbose");
    const unsigned own = choose(6, "operator of the user");
    const GM& A = S.A[0];
    // LOBPCG with the matrix, or with an operator around it (sometimes a copy of one that is gone).
    auto eigen = [=](SolverLocal& L, const ParMatrix& M, std::function<std::vector<double>(const ParOperator&)> f)
    {
        if (own < 3) { return f(M); }
        std::unique_ptr<Users> a(own == 3 ? new Users(M) : new Users(M, 0));
        if (own == 5) { std::unique_ptr<Users> b(new Users(*a)); a = std::move(b); }
        if (!a->right(n)) { violation("wrong-operator", "an operator derived from ParOperator on rank %d does not have the distribution it was given", L.me); }
        sim::count("probe.user_operator");
        return f(*a);
    };
    if (choose(4, "random start") == 3)
    {
        double hi = 0;
        for (int i = 0; i < n; ++i) { double r = 0; for (int j = 0; j < n; ++j) { r += std::fabs(A.at(i, j)); } hi = std::max(hi, r); }
        S.add("LOBPCG from random vectors", [=](SolverLocal& L)
        {
            const ParMatrix M = make_matrix(*L.S, 0, L.me, order);
            const std::vector<double> ev = eigen(L, M, [&](const ParOperator& op) { return LOBPCG(op, k, pre >= 0 ? L.pre[pre].get() : nullptr, verbose); });
            bool ok = (int)ev.size() == k;
            for (double e : ev) { ok = ok && e >= 0 && e <= hi * (1 + 1e-9); }
            if (!ok) { violation("wrong-eigenvalues", "LOBPCG on rank %d: outside the spectrum", L.me); }
        });
        return;
    }
    std::vector<Vec> x0, x1;
    Vec want;
    for (int q = 0; q < k; ++q)
    {
        Vec x = draw_values(n);
        x[choose((unsigned)n, "component")] += 1.0 + q;
        if (dot(x, x) == 0) { x[0] = 1; }
        x0.push_back(x);
        double theta = 0;
        for (int it = 0; it < 2; ++it)
        {
            Vec a = mult(A, x, false);
            theta = dot(x, a) / dot(x, x);
            for (int i = 0; i < n; ++i) { a[i] -= theta * x[i]; }
            const Vec t = pre >= 0 ? apply(S, S.pre[pre], a, Vec(n, 0.0)) : a;
            for (int i = 0; i < n; ++i) { x[i] -= 0.0625 * t[i]; }
        }
        want.push_back(theta);
        x1.push_back(x);
    }
    S.add("LOBPCG", [=](SolverLocal& L)
    {
        const Rig& g = *L.rig;
        const int p = L.S->p;
        const ParMatrix M = make_matrix(*L.S, 0, L.me, order);
        std::vector<Vector<double>> x;
        for (auto& v : x0) { const Vec l = local_of(g, p, v, L.me); x.push_back(Vector<double>(l)); }
        const std::vector<double> ev = eigen(L, M, [&](const ParOperator& op) { return LOBPCG(op, x, pre >= 0 ? L.pre[pre].get() : nullptr, verbose); });
        Exempt e;
        if ((int)ev.size() != k) { violation("wrong-eigenvalues", "LOBPCG returned %zu values for %d vectors", ev.size(), k); }
        for (int q = 0; q < k; ++q)
        {
            same(want[q], ev[q], std::fabs(want[q]), "LOBPCG eigenvalue");
            same_local(x[q], x1[q], g.lo(p, L.me), "LOBPCG eigenvector");
        }
    });
}

void carry_out_solvers(SolverScript& S, int me)
{
    Exempt exempt;
    std::unique_ptr<SolverLocal> L;
    auto guarded = [&](const char* what, std::function<void()> f)
    {
        ranks::label(what);
        try { Track t; f(); }
        catch (const std::exception& e) { Exempt x; violation("refused", "%s threw on rank %d: %s", what, me, e.what()); }
    };
    L.reset(new SolverLocal());
    L->S = &S;
    L->rig = &S.rig;
    L->me = me;
    guarded("preconditioners", [&]
    {
        for (size_t k = 0; k < S.pre.size(); ++k)
        {
            const SM& s = S.pre[k];
            const ParMatrix A = make_matrix(S, s.a, me, (unsigned)k);
            switch (s.kind)
            {
                case K_AMG: L->pre.emplace_back(new BoomerAMG(make_amg(s, A))); break;
                case K_SAILS: L->pre.emplace_back(new ParaSails(make_sails(s, A))); break;
                case K_DIAG: L->pre.emplace_back(new ParDiagScale(make_diag(s, A))); break;
                default: L->pre.emplace_back(new ParSmoother(make_smooth(s, A))); break;
            }
        }
    });
    for (auto& s : S.steps)
    {
        guarded(s.name.c_str(), [&] { s.run(*L); });
        for (int k = 0; k < KINDS; ++k)
        {
            for (int i = 0; i < NS; ++i)
            {
                ParSolver& x = L->get(k, i);
                const SM& m = s.slots[k][i];
                check_matrix(const_cast<ParMatrix&>(x.GetMatrix()), m.live ? S.A[m.a] : GM(), S.rig, me, s.name + " (matrix of a " + KIND[k] + ")", i);
                const int rows = m.live ? S.rig.hi(S.p, me) - S.rig.lo(S.p, me) : 0;
                if (x.Rows() != rows || x.Cols() != rows || x.GlobalRows() != (m.live ? S.rig.size(S.p) : 0)) { violation("wrong-size", "after %s: %s %d has the wrong size", s.name.c_str(), KIND[k], i); }
            }
        }
    }
    guarded("destruction", [&] { L.reset(); });
}

void solvers()
{
    Exempt exempt;
    const int n = 1 + (int)sim::weighted({1, 3, 3, 2, 1}, "ranks");
    sim::hypre::mpi_init(n);
    bool world;
    const auto groups = draw_groups(n, world);
    std::vector<SolverScript> scripts(groups.size());
    for (size_t q = 0; q < groups.size(); ++q)
    {
        SolverScript& S = scripts[q];
        S.rig = draw_rig(groups[q], world, false);
        for (int a = 0; a < 3; ++a)
        {
            // symmetric and diagonally dominant; the third one negative definite
            GM m = blank(S.rig, 0, 0);
            for (int i = 0; i < m.R; ++i)
            {
                m.st(i, i) = 1;
                m.at(i, i) += 1 + (int)choose(4, "diagonal");
                for (int j = 0; j < i; ++j)
                {
                    if (choose(3, "entry") != 2) { continue; }
                    const double v = small("value");
                    m.st(i, j) = m.st(j, i) = 1;
                    m.at(i, j) = m.at(j, i) = v;
                    m.at(i, i) += std::fabs(v);
                    m.at(j, j) += std::fabs(v);
                }
            }
            if (a == 2) { for (double& v : m.v) { v = -v; } }
            S.A.push_back(m);
        }
        const unsigned np = choose(4, "preconditioners");
        for (unsigned k = 0; k < np; ++k)
        {
            static const Kind PK[] = {K_SMOOTH, K_AMG, K_SAILS, K_DIAG};
            S.pre.push_back(draw_solver(PK[choose(4, "preconditioner kind")], S, true));
        }
        add_solver(S);
        const int k = 2 + (int)choose(9, "steps");
        for (int i = 0; i < k; ++i)
        {
            switch (sim::weighted({4, 4, 6, 1}, "step"))
            {
                case 0: add_solver(S); break;
                case 1: add_solver_ownership(S); break;
                case 2: add_solve(S); break;
                case 3: add_eigen(S); break;
            }
        }
        const unsigned cgs = choose(2, "diagonal scaling");
        if (cgs)
        {
            for (int i = 0; i < NS; ++i)
            {
                if (!S.slots[K_CG][i].live || S.slots[K_CG][i].precond >= 0) { continue; }
                S.slots[K_CG][i].diag_scaling = true;
                S.add("ParCG::EnableDiagScaling", [=](SolverLocal& L) { L.cg[i].EnableDiagScaling(); });
                add_solve(S);
                add_solver_ownership(S);
                add_solve(S);
            }
        }
        for (auto& s : S.steps) { sim::event("group %zu: %s", q, s.name.c_str()); sim::state(s.name.c_str()); }
    }
    sim::nontrivial();
    sim::host::entropy_on(true);
    sim::host::entropy_seed(sim::bits("entropy"));
    Quiet quiet;
    const uint64_t live = sim::alloc::live();
    ranks::run(n, [&](int r)
    {
        for (size_t q = 0; q < groups.size(); ++q)
        {
            for (size_t k = 0; k < groups[q].size(); ++k) { if (groups[q][k] == r) { carry_out_solvers(scripts[q], (int)k); } }
        }
    });
    finish(live, quiet.stop());
}

void warm()
{
    Exempt exempt;
    try { throw std::runtime_error("x"); } catch (const std::exception&) {}
}

sim::Scenario s1("P16", "distributed", p16, warm);
sim::Scenario s2("P17", "ownership", p17, warm);
sim::Scenario s3("P18", "solvers", solvers, warm);

} // namespace
