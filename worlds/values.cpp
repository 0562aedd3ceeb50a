// World "values": histories of operations on many live objects, checked after
// every step against a small executable reference model, with allocation
// failures and recovery in between (P08, P15), and assembly of matrices from
// contributions that arrive in any order, with crashes and checkpoints (P07).
//
// All values are dyadic and kept small, so every operation is exact and results
// are compared with ==.
#include <algorithm>
#include <cfenv>
#include <cmath>
#include <cstdarg>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <tuple>

#include "linalgcpp.hpp"

#include "../sim/alloc.hpp"
#include "../sim/core.hpp"

using namespace linalgcpp;
using sim::alloc::Exempt;
using sim::alloc::Track;
using sim::choose;
using sim::violation;

namespace
{

typedef VectorView<double> VV;

// ---- the reference model ---------------------------------------------------
struct MS                                   // sparse: stored entries by row and column
{
    int r = 0, c = 0;
    std::vector<std::map<int, double>> row;
    MS() {}
    MS(int r_, int c_) : r(r_), c(c_), row((size_t)r_) {}
    double get(int i, int j) const { auto it = row[(size_t)i].find(j); return it == row[(size_t)i].end() ? 0.0 : it->second; }
};
struct MG                                   // dense
{
    int r = 0, c = 0;
    std::vector<double> a;
    MG() {}
    MG(int r_, int c_, double v = 0.0) : r(r_), c(c_), a((size_t)r_ * c_, v) {}
    double& at(int i, int j) { return a[(size_t)i * c + j]; }
    double at(int i, int j) const { return a[(size_t)i * c + j]; }
};
typedef std::vector<double> MV;
struct MBV { MV v; std::vector<int> off; };
struct MBM { std::vector<int> ro, co; std::vector<std::vector<MS>> b; };   // unset blocks are 0 x 0
struct ME                                   // entry list (coordinate and list matrices)
{
    bool sized = false;
    int r = 0, c = 0;
    std::vector<std::tuple<int, int, double>> e;
    int rows() const { int m = 0; if (sized) { return r; } for (auto& t : e) { m = std::max(m, std::get<0>(t)); } return m + 1; }
    int cols() const { int m = 0; if (sized) { return c; } for (auto& t : e) { m = std::max(m, std::get<1>(t)); } return m + 1; }
    MS sparse() const { MS s(rows(), cols()); for (auto& t : e) { s.row[(size_t)std::get<0>(t)][std::get<1>(t)] += std::get<2>(t); } return s; }
};

MG dense(const MS& s) { MG g(s.r, s.c); for (int i = 0; i < s.r; ++i) { for (auto& p : s.row[(size_t)i]) { g.at(i, p.first) = p.second; } } return g; }
MG transpose(const MG& g) { MG t(g.c, g.r); for (int i = 0; i < g.r; ++i) { for (int j = 0; j < g.c; ++j) { t.at(j, i) = g.at(i, j); } } return t; }
MS transpose(const MS& s) { MS t(s.c, s.r); for (int i = 0; i < s.r; ++i) { for (auto& p : s.row[(size_t)i]) { t.row[(size_t)p.first][i] = p.second; } } return t; }
MG mul(const MG& a, const MG& b)
{
    MG o(a.r, b.c);
    for (int i = 0; i < a.r; ++i) { for (int j = 0; j < b.c; ++j) { double s = 0; for (int k = 0; k < a.c; ++k) { s += a.at(i, k) * b.at(k, j); } o.at(i, j) = s; } }
    return o;
}
MS mul(const MS& a, const MS& b)
{
    MS o(a.r, b.c);
    for (int i = 0; i < a.r; ++i) { for (auto& p : a.row[(size_t)i]) { for (auto& q : b.row[(size_t)p.first]) { o.row[(size_t)i][q.first] += p.second * q.second; } } }
    return o;
}
MV mul(const MG& a, const MV& x) { MV y((size_t)a.r); for (int i = 0; i < a.r; ++i) { for (int j = 0; j < a.c; ++j) { y[(size_t)i] += a.at(i, j) * x[(size_t)j]; } } return y; }
MS combine(const MBM& m)
{
    MS o(m.ro.back(), m.co.back());
    for (size_t i = 0; i + 1 < m.ro.size(); ++i)
    {
        for (size_t j = 0; j + 1 < m.co.size(); ++j)
        {
            const MS& b = m.b[i][j];
            for (int k = 0; k < b.r; ++k) { for (auto& p : b.row[(size_t)k]) { o.row[(size_t)(m.ro[i] + k)][m.co[j] + p.first] = p.second; } }
        }
    }
    return o;
}

// ---- comparison -------------------------------------------------------------
std::string str(const char* f, ...)
{
    char b[300];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

template <typename T>
std::string diff(const SparseMatrix<T>& a, const MS& m)
{
    if (a.Rows() != m.r || a.Cols() != m.c) { return str("is %d x %d, expected %d x %d", a.Rows(), a.Cols(), m.r, m.c); }
    const auto& p = a.GetIndptr();
    if (p.size() != (size_t)m.r + 1 || p[0] != 0 || (size_t)p.back() != a.GetIndices().size() || a.GetIndices().size() != a.GetData().size())
    {
        return "has inconsistent arrays";
    }
    for (int i = 0; i < m.r; ++i)
    {
        if (p[(size_t)i] > p[(size_t)i + 1]) { return "has decreasing row pointers"; }
        std::set<int> seen;
        for (int k = p[(size_t)i]; k < p[(size_t)i + 1]; ++k)
        {
            const int j = a.GetIndices()[(size_t)k];
            if (j < 0 || j >= m.c) { return str("row %d has column %d", i, j); }
            if (!seen.insert(j).second) { return str("has entry (%d,%d) twice", i, j); }
            auto it = m.row[(size_t)i].find(j);
            if (it == m.row[(size_t)i].end()) { return str("has an entry (%d,%d) = %g that should not be stored", i, j, (double)a.GetData()[(size_t)k]); }
            if (!((double)a.GetData()[(size_t)k] == it->second)) { return str("entry (%d,%d) is %.17g, expected %.17g", i, j, (double)a.GetData()[(size_t)k], it->second); }
        }
        if (seen.size() != m.row[(size_t)i].size()) { return str("row %d has %zu entries, expected %zu", i, seen.size(), m.row[(size_t)i].size()); }
    }
    if (a.nnz() != (int)a.GetData().size()) { return "nnz() is wrong"; }
    return "";
}
std::string diff(const DenseMatrix& a, const MG& m)
{
    if (a.Rows() != m.r || a.Cols() != m.c) { return str("is %d x %d, expected %d x %d", a.Rows(), a.Cols(), m.r, m.c); }
    for (int i = 0; i < m.r; ++i) { for (int j = 0; j < m.c; ++j) { if (!(a(i, j) == m.at(i, j))) { return str("entry (%d,%d) is %.17g, expected %.17g", i, j, a(i, j), m.at(i, j)); } } }
    std::vector<double> copy;
    a.CopyData(copy);
    if (copy.size() != m.a.size()) { return "holds the wrong number of values"; }
    return "";
}
template <typename T>
std::string diff(const VectorView<T>& a, const MV& m)
{
    if (a.size() != (int)m.size() || a.end() - a.begin() != (long)m.size()) { return str("has size %d, expected %zu", a.size(), m.size()); }
    for (size_t i = 0; i < m.size(); ++i) { if (!((double)a[(int)i] == m[i])) { return str("element %zu is %.17g, expected %.17g", i, (double)a[(int)i], m[i]); } }
    return "";
}
std::string diff(const std::vector<double>& a, const MV& m)
{
    if (a.size() != m.size()) { return str("has size %zu, expected %zu", a.size(), m.size()); }
    for (size_t i = 0; i < m.size(); ++i) { if (!(a[i] == m[i])) { return str("element %zu is %.17g, expected %.17g", i, a[i], m[i]); } }
    return "";
}
std::string diff(const BlockVector<double>& a, const MBV& m)
{
    std::string d = diff((const VV&)a, m.v);
    if (!d.empty()) { return d; }
    if (a.GetOffsets() != m.off) { return "has wrong offsets"; }
    for (size_t b = 0; b + 1 < m.off.size(); ++b)
    {
        d = diff(a.GetBlock((int)b), MV(m.v.begin() + m.off[b], m.v.begin() + m.off[b + 1]));
        if (!d.empty()) { return str("block %zu: ", b) + d; }
    }
    return "";
}
std::string diff(const BlockMatrix<double>& a, const MBM& m)
{
    if (a.GetRowOffsets() != m.ro || a.GetColOffsets() != m.co) { return "has wrong offsets"; }
    if (a.Rows() != m.ro.back() || a.Cols() != m.co.back()) { return "has the wrong size"; }
    for (size_t i = 0; i + 1 < m.ro.size(); ++i)
    {
        for (size_t j = 0; j + 1 < m.co.size(); ++j)
        {
            const MS& want = m.b[i][j];
            const auto& got = a.GetBlock((int)i, (int)j);
            if ((want.r == 0 || want.c == 0) && (got.Rows() == 0 || got.Cols() == 0)) { continue; }   // unset or without entries
            const std::string d = diff(got, want);
            if (!d.empty()) { return str("block (%zu,%zu) ", i, j) + d; }
        }
    }
    return "";
}
template <typename M>
std::string diff_entries(const M& a, const ME& m)
{
    if (a.Rows() != m.rows() || a.Cols() != m.cols()) { return str("is %d x %d, expected %d x %d", a.Rows(), a.Cols(), m.rows(), m.cols()); }
    std::string d = diff(a.template ToSparse<double>(), m.sparse());
    if (!d.empty()) { return "ToSparse " + d; }
    d = diff(a.ToDense(), dense(m.sparse()));
    if (!d.empty()) { return "ToDense " + d; }
    return "";
}
std::string diff(const CooMatrix<double>& a, const ME& m) { return diff_entries(a, m); }
std::string diff(const LilMatrix<double>& a, const ME& m) { return diff_entries(a, m); }

// ---- drawing ----------------------------------------------------------------
// Inside a Bulk scope many small choices come from a generator seeded by one recorded choice.
uint64_t g_bulk = 0;
struct Bulk
{
    bool on;
    explicit Bulk(bool big) : on(big && !g_bulk) { if (on) { g_bulk = sim::bits("bulk seed") | 1; } }
    ~Bulk() { if (on) { g_bulk = 0; } }
};
unsigned small(unsigned n, const char* label)
{
    if (!g_bulk) { return choose(n, label); }
    g_bulk ^= g_bulk << 13; g_bulk ^= g_bulk >> 7; g_bulk ^= g_bulk << 17;
    return (unsigned)((g_bulk >> 20) % n);
}
// Now and then a history has values in other units: objects in multiples of a huge or tiny power of two.
// Sums of unlike units may round; a step in which anything rounded decides nothing.
double g_unit = 1.0, g_other_unit = 1.0;
bool units() { return g_other_unit != 1.0; }
void draw_unit() { if (units() && !g_bulk) { g_unit = choose(3, "unit") ? g_other_unit : 1.0; } }
double val() { return (double)((int)small(33, "value") - 16) * 0.25 * g_unit; }
double nz() { const double v = val(); return v == 0.0 ? 1.5 * g_unit : v; }
double pow2() { static const double p[] = {2.0, 0.5, -1.0, 1.0, -2.0, 4.0}; return p[small(6, "power of two")]; }
MV vec(int n) { draw_unit(); Bulk b(n > 60); MV v((size_t)n); for (double& x : v) { x = val(); } return v; }
MV pows(int n) { Bulk b(n > 60); MV v((size_t)n); for (double& x : v) { x = pow2(); } return v; }

MS draw_sparse(int r, int c)
{
    MS s(r, c);
    draw_unit();
    Bulk bulk(r * c > 300);
    const unsigned dens = choose(5, "density");
    const unsigned of = r * c > 40000 ? 400 : r * c > 4000 && choose(3, "sparser") ? 60 : 5;
    for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) { if (small(of, "entry") < dens) { s.row[(size_t)i][j] = val(); } } }
    return s;
}
MG draw_dense(int r, int c) { MG g(r, c); g.a = vec(r * c); return g; }

struct Rows { std::vector<int> indptr, indices; std::vector<double> data; };
Rows csr(const MS& s, bool shuffled)
{
    Rows o;
    o.indptr.push_back(0);
    for (auto& r : s.row)
    {
        std::vector<std::pair<int, double>> e(r.begin(), r.end());
        if (shuffled && e.size() > 1)
        {
            std::reverse(e.begin(), e.end());
            if (e.size() > 2) { std::swap(e[0], e[1]); }
        }
        for (auto& p : e) { o.indices.push_back(p.first); o.data.push_back(p.second); }
        o.indptr.push_back((int)o.indices.size());
    }
    return o;
}
SparseMatrix<double> mk(const MS& s, bool shuffled = false) { Rows o = csr(s, shuffled); return SparseMatrix<double>(o.indptr, o.indices, o.data, s.r, s.c); }
DenseMatrix mk(const MG& g)
{
    std::vector<double> d(g.a.size());
    for (int i = 0; i < g.r; ++i) { for (int j = 0; j < g.c; ++j) { d[(size_t)j * g.r + i] = g.at(i, j); } }
    return DenseMatrix(g.r, g.c, d);
}
Vector<double> mk(const MV& v) { return Vector<double>(v); }
BlockVector<double> mk(const MBV& m) { MV v = m.v; return BlockVector<double>(VV(v), m.off); }
BlockMatrix<double> mk(const MBM& m)
{
    BlockMatrix<double> o = m.ro == m.co ? BlockMatrix<double>(m.ro) : BlockMatrix<double>(m.ro, m.co);
    for (size_t i = 0; i + 1 < m.ro.size(); ++i) { for (size_t j = 0; j + 1 < m.co.size(); ++j) { if (m.b[i][j].r && m.b[i][j].c) { o.SetBlock((int)i, (int)j, mk(m.b[i][j])); } } }
    return o;
}
template <typename M>
M mk_entries(const ME& m)
{
    M o;
    if (m.sized) { M s(m.r, m.c); o = s; }
    for (auto& t : m.e) { o.Add(std::get<0>(t), std::get<1>(t), std::get<2>(t)); }
    return o;
}

// Matrices and vectors of integers share the models; their values are small integers.
double ival() { return (double)((int)small(9, "integer") - 4); }
double iunit() { return small(2, "unit") ? 1.0 : -1.0; }
MV ivec(int n) { Bulk b(n > 60); MV v((size_t)n); for (double& x : v) { x = ival(); } return v; }
MS draw_int(int r, int c)
{
    MS s(r, c);
    Bulk bulk(r * c > 300);
    const unsigned dens = choose(5, "density");
    for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) { if (small(r * c > 40000 ? 400 : 5, "entry") < dens) { s.row[(size_t)i][j] = ival(); } } }
    return s;
}
std::vector<int> ints(const MV& v) { std::vector<int> o; for (double x : v) { o.push_back((int)x); } return o; }
SparseMatrix<int> mk_int(const MS& s, bool shuffled = false) { Rows o = csr(s, shuffled); return SparseMatrix<int>(o.indptr, o.indices, ints(o.data), s.r, s.c); }
bool tame_int(const MV& v) { for (double x : v) { if (std::abs(x) > 500.0 || x != std::floor(x)) { return false; } } return true; }
bool tame_int(const MS& s) { for (auto& r : s.row) { for (auto& p : r) { if (std::abs(p.second) > 500.0 || p.second != std::floor(p.second)) { return false; } } } return true; }

bool tame(double v) { if (units()) { return v == 0 || (std::fabs(v) < 1e120 && std::fabs(v) > 1e-120); } return std::abs(v) <= 1024.0 && v * 256.0 == std::floor(v * 256.0); }
// Entries in the same place add up; in unlike units the sum may depend on the order, which nobody promises.
bool exact(const ME& m)
{
    if (!units()) { return true; }
    std::map<std::pair<int, int>, std::pair<double, int>> at;       // sum of magnitudes and the lowest bit
    for (auto& t : m.e)
    {
        double x = std::fabs(std::get<2>(t));
        if (x == 0) { continue; }
        int e = 0;
        long long mantissa = (long long)std::ldexp(std::frexp(x, &e), 53);
        int low = e - 53;
        while (!(mantissa & 1)) { mantissa >>= 1; ++low; }
        auto& p = at.insert(std::make_pair(std::make_pair(std::get<0>(t), std::get<1>(t)), std::make_pair(0.0, low))).first->second;
        p.first += x;
        p.second = std::min(p.second, low);
        if (p.first >= std::ldexp(1.0, p.second + 52)) { return false; }
    }
    return true;
}
bool tame(const MV& v) { for (double x : v) { if (!tame(x)) { return false; } } return true; }
const size_t TOO_LARGE = 400000;             // stacked objects do not grow for ever
bool tame(const MG& g) { return g.a.size() < TOO_LARGE && g.r + g.c < 4000 && tame(g.a); }
bool tame(const MS& s) { if (s.r + s.c > 4000) { return false; } for (auto& r : s.row) { for (auto& p : r) { if (!tame(p.second)) { return false; } } } return true; }
bool tame(const ME& e) { if (e.e.size() > 200) { return false; } for (auto& t : e.e) { if (!tame(std::get<2>(t))) { return false; } } return true; }

// ---- the world ----------------------------------------------------------------
enum { NS = 3, NG = 3, NV = 4, NBV = 2, NBM = 2, NC = 2, NL = 2, NI = 3, NU = 2 };
enum Kind { kS, kG, kV, kBV, kBM, kC, kL, kI, kU };
struct Ref { Kind k; int i; };
const char* const KIND[] = {"SparseMatrix", "DenseMatrix", "Vector", "BlockVector", "BlockMatrix", "CooMatrix", "LilMatrix", "SparseMatrix<int>", "Vector<int>"};

struct Out { bool threw = false; std::string what; };
template <typename F>
Out attempt(F f)
{
    Out o;
    try { Track t; f(); }
    catch (const std::exception& e) { o.threw = true; o.what = e.what(); }
    catch (...) { violation("foreign-exception", "something other than a std::exception was thrown"); }
    return o;
}

struct W
{
    SparseMatrix<double> S[NS]; MS s[NS];
    DenseMatrix G[NG]; MG g[NG];
    Vector<double> V[NV]; MV v[NV];
    BlockVector<double> BV[NBV]; MBV bv[NBV];
    BlockMatrix<double> BM[NBM]; MBM bm[NBM];
    CooMatrix<double> C[NC]; ME c[NC];
    LilMatrix<double> L[NL]; ME l[NL];
    SparseMatrix<int> I[NI]; MS mi[NI];
    Vector<int> U[NU]; MV u[NU];
    std::vector<int> marker;                     // workspace reused across calls, as documented
    std::vector<int> submarker;                  // kept at -1 by GetSubMatrix
    std::vector<int> dims;
    bool faults = true;

    bool wide = false, after_large = false;      // very large in one direction only
    int dim(const char* l)
    {
        if (!wide) { return dims[choose((unsigned)dims.size(), l)]; }
        const unsigned i = after_large && l[0] == 'c' ? 1 + choose(2, l) : choose(3, l);
        after_large = i == 0 && l[0] == 'r';
        return dims[i];
    }
    std::vector<int> split(int n)
    {
        std::vector<int> off(1, 0);
        while (off.back() < n) { off.push_back(off.back() + 1 + (int)choose((unsigned)std::min(n - off.back(), n > 47 ? 40 : 4), "block")); }
        if (off.size() == 1) { off.push_back(0); }
        return off;
    }
    MBM draw_bm()
    {
        MBM m;
        m.ro = split(dim("rows"));
        m.co = split(dim("cols"));
        m.b.assign(m.ro.size() - 1, std::vector<MS>(m.co.size() - 1));
        for (size_t i = 0; i + 1 < m.ro.size(); ++i)
        {
            for (size_t j = 0; j + 1 < m.co.size(); ++j)
            {
                const int r = m.ro[i + 1] - m.ro[i], c_ = m.co[j + 1] - m.co[j];
                if (r && c_ && choose(3, "set block")) { m.b[i][j] = draw_sparse(r, c_); }
            }
        }
        return m;
    }
    MBV draw_bv() { MBV m; m.off = split(dim("size")); m.v = vec(m.off.back()); return m; }
    ME draw_e()
    {
        ME m;
        m.sized = choose(2, "sized");
        m.r = std::max(1, dim("rows"));
        m.c = std::max(1, dim("cols"));
        const unsigned n = m.r > 7 && choose(2, "many") ? choose(150, "entries") : choose(8, "entries");
        Bulk bulk(n > 30);
        for (unsigned k = 0; k < n; ++k)
        {
            const int i = (int)small((unsigned)m.r, "row");
            const int j = (int)small((unsigned)m.c, "col");
            m.e.emplace_back(i, j, val());
        }
        if (!m.sized) { m.r = m.c = 0; }
        return m;
    }

    void fresh(Ref t)
    {
        switch (t.k)
        {
        case kS: s[t.i] = draw_sparse(dim("rows"), dim("cols")); break;
        case kG: g[t.i] = draw_dense(dim("rows"), dim("cols")); break;
        case kV: v[t.i] = vec(dim("size")); break;
        case kBV: bv[t.i] = draw_bv(); break;
        case kBM: bm[t.i] = draw_bm(); break;
        case kC: c[t.i] = draw_e(); break;
        case kL: l[t.i] = draw_e(); break;
        case kI: mi[t.i] = draw_int(dim("rows"), dim("cols")); break;
        case kU: u[t.i] = ivec(dim("size")); break;
        }
        restore(t);
    }
    // Give the real object the model's value, whatever state it is in.
    void restore(Ref t)
    {
        Out o = attempt([&] { assign_model(t); });
        if (o.threw) { violation("refused", "a %s cannot be assigned: %s", KIND[t.k], o.what.c_str()); }
    }
    void assign_model(Ref t)
    {
        switch (t.k)
        {
        case kS: S[t.i] = mk(s[t.i], true); break;
        case kG: G[t.i] = mk(g[t.i]); break;
        case kV: V[t.i] = mk(v[t.i]); break;
        case kBV: BV[t.i] = mk(bv[t.i]); break;
        case kBM: BM[t.i] = mk(bm[t.i]); break;
        case kC: C[t.i] = mk_entries<CooMatrix<double>>(c[t.i]); break;
        case kL: L[t.i] = mk_entries<LilMatrix<double>>(l[t.i]); break;
        case kI: I[t.i] = mk_int(mi[t.i], true); break;
        case kU: U[t.i] = Vector<int>(ints(u[t.i])); break;
        }
    }
    std::string check(Ref t)
    {
        switch (t.k)
        {
        case kS: return diff(S[t.i], s[t.i]);
        case kG: return diff(G[t.i], g[t.i]);
        case kV: return diff(V[t.i], v[t.i]);
        case kBV: return diff(BV[t.i], bv[t.i]);
        case kBM: return diff(BM[t.i], bm[t.i]);
        case kC: return diff(C[t.i], c[t.i]);
        case kL: return diff(L[t.i], l[t.i]);
        case kI: return diff(I[t.i], mi[t.i]);
        case kU: return diff((const VectorView<int>&)U[t.i], u[t.i]);
        }
        return "";
    }
    bool is_tame(Ref t)
    {
        switch (t.k)
        {
        case kS: return tame(s[t.i]);
        case kG: return tame(g[t.i]);
        case kV: return tame(v[t.i]);
        case kBV: return tame(bv[t.i].v);
        case kBM: for (auto& r : bm[t.i].b) { for (auto& m : r) { if (!tame(m)) { return false; } } } return true;
        case kC: return tame(c[t.i]);
        case kL: return tame(l[t.i]);
        case kI: return tame_int(mi[t.i]);
        case kU: return tame_int(u[t.i]);
        }
        return true;
    }
    static std::vector<Ref> all()
    {
        std::vector<Ref> r;
        const int n[] = {NS, NG, NV, NBV, NBM, NC, NL, NI, NU};
        for (int k = 0; k < 9; ++k) { for (int i = 0; i < n[k]; ++i) { r.push_back(Ref{(Kind)k, i}); } }
        return r;
    }
    void check_all(const char* name, const char* klass, const char* how, const std::vector<Ref>& except = {})
    {
        // Wide histories look at what a step wrote, and at a changing part of the rest; at the end, at everything.
        const bool part = wide && !last;
        ++looked;
        unsigned at = looked;
        for (Ref t : all())
        {
            bool skip = false;
            if (part)
            {
                bool wrote = false;
                for (Ref x : targets_now) { wrote = wrote || (x.k == t.k && x.i == t.i); }
                if (!wrote && ++at % 4) { continue; }
            }
            for (Ref x : except) { skip = skip || (x.k == t.k && x.i == t.i); }
            if (skip) { continue; }
            const std::string d = check(t);
            if (!d.empty()) { violation(klass, "after %s%s, %s %d %s", name, how, KIND[t.k], t.i, d.c_str()); }
        }
    }

    // One step: the real operation, possibly interrupted by a failing allocation and then repeated from restored operands.
    template <typename R, typename M>
    void step(const char* name, std::vector<Ref> targets, R real, M model)
    {
        sim::event("%s", name);
        sim::state(name);
        sim::steps(1);
        targets_now = targets;
        dirty = choose(4, "what the output held") == 3;
        Out o;
        if (faults && sim::chance(1, 8, "allocation fails"))
        {
            sim::alloc::arm(choose(12, "fail at"), choose(2, "sticky"));
            std::feclearexcept(FE_ALL_EXCEPT);
            o = attempt(real);
            const bool fired = sim::alloc::fired();
            sim::alloc::disarm();
            if (o.threw && !fired) { violation("refused", "%s failed: %s", name, o.what.c_str()); }
            if (fired) { sim::event("  allocation failed: %s", o.threw ? "exception" : "recovered"); }
            if (o.threw)
            {
                check_all(name, "operand-changed", " ran out of memory", targets);
                for (Ref t : targets) { restore(t); }
                submarker.assign(submarker.size(), -1);
                std::feclearexcept(FE_ALL_EXCEPT);
                o = attempt(real);
            }
        }
        else { std::feclearexcept(FE_ALL_EXCEPT); o = attempt(real); }
        rounded = units() && std::fetestexcept(FE_INEXACT | FE_OVERFLOW | FE_UNDERFLOW);
        if (o.threw) { violation("refused", "%s failed: %s", name, o.what.c_str()); }
        std::feclearexcept(FE_ALL_EXCEPT);
        model();
        rounded = rounded || (units() && std::fetestexcept(FE_INEXACT | FE_OVERFLOW | FE_UNDERFLOW));
        for (Ref t : targets)
        {
            rounded = rounded || (t.k == kC && !exact(c[t.i])) || (t.k == kL && !exact(l[t.i]));
        }
        if (units()) { sim::count(rounded ? "probe.rounded_step" : "probe.step_in_other_units"); }
        if (rounded)
        {
            sim::event("  rounded");
            check_all(name, "wrong-result", "", targets);
            for (Ref t : targets) { fresh(t); }
            return;
        }
        check_all(name, "wrong-result", "");
        for (Ref t : targets) { if (!is_tame(t)) { sim::event("  fresh values"); fresh(t); } }
    }
    // A step that only reads: f returns a description of what is wrong.
    // An output argument whose old content must not matter.
    DenseMatrix& stale(DenseMatrix& m)
    {
        if (dirty) { m = std::numeric_limits<double>::quiet_NaN(); }
        return m;
    }
    Vector<double>& stale(Vector<double>& x)
    {
        if (dirty) { x = std::numeric_limits<double>::quiet_NaN(); }
        return x;
    }
    bool dirty = false, rounded = false;
    bool last = false;                  // the history is over
    unsigned looked = 0;
    std::vector<Ref> targets_now;

    template <typename F>
    void read(const char* name, F f)
    {
        std::string d;
        step(name, {}, [&] { d = f(); }, [] {});
        if (!d.empty() && !rounded) { violation("wrong-result", "%s: %s", name, d.c_str()); }
    }

    int is() { return (int)choose(NS, "S"); }
    int ig() { return (int)choose(NG, "G"); }
    int iv() { return (int)choose(NV, "V"); }
    int other(int a, int n) { return (a + 1 + (int)choose((unsigned)n - 1, "other")) % n; }
    int sized_s(int avoid, int r, int cc)       // an S slot other than avoid with the given size (-1: any)
    {
        const int k = avoid < 0 ? is() : other(avoid, NS);
        if ((r >= 0 && s[k].r != r) || (cc >= 0 && s[k].c != cc)) { s[k] = draw_sparse(r >= 0 ? r : dim("rows"), cc >= 0 ? cc : dim("cols")); restore(Ref{kS, k}); }
        return k;
    }
    int sized_g(int avoid, int r, int cc)
    {
        const int k = avoid < 0 ? ig() : other(avoid, NG);
        if ((r >= 0 && g[k].r != r) || (cc >= 0 && g[k].c != cc)) { g[k] = draw_dense(r >= 0 ? r : dim("rows"), cc >= 0 ? cc : dim("cols")); restore(Ref{kG, k}); }
        return k;
    }
    int sized_v(int avoid, int n)
    {
        const int k = avoid < 0 ? iv() : other(avoid, NV);
        if ((int)v[k].size() != n) { v[k] = vec(n); restore(Ref{kV, k}); }
        return k;
    }
    int sized_i(int avoid, int r, int cc)
    {
        const int k = avoid < 0 ? (int)choose(NI, "I") : other(avoid, NI);
        if ((r >= 0 && mi[k].r != r) || (cc >= 0 && mi[k].c != cc)) { mi[k] = draw_int(r >= 0 ? r : dim("rows"), cc >= 0 ? cc : dim("cols")); restore(Ref{kI, k}); }
        return k;
    }
    int sized_u(int avoid, int n)
    {
        const int k = avoid < 0 ? (int)choose(NU, "U") : other(avoid, NU);
        if ((int)u[k].size() != n) { u[k] = ivec(n); restore(Ref{kU, k}); }
        return k;
    }
    int square_s() { const int k = is(); if (s[k].r != s[k].c) { const int n = dim("size"); s[k] = draw_sparse(n, n); restore(Ref{kS, k}); } return k; }
    int nonempty_s() { const int k = is(); if (s[k].r == 0 || s[k].c == 0) { s[k] = draw_sparse(std::max(1, dim("rows")), std::max(1, dim("cols"))); restore(Ref{kS, k}); } return k; }
    int nonempty_g() { const int k = ig(); if (g[k].r == 0 || g[k].c == 0) { g[k] = draw_dense(std::max(1, dim("rows")), std::max(1, dim("cols"))); restore(Ref{kG, k}); } return k; }
    int nonempty_v() { const int k = iv(); if (v[k].empty()) { v[k] = vec(std::max(1, dim("size"))); restore(Ref{kV, k}); } return k; }
    std::vector<int> sel(int n)                  // distinct indices in any order
    {
        std::vector<int> o;
        Bulk bulk(n > 60);
        for (int i = 0; i < n; ++i) { if (small(2, "select")) { o.push_back(i); } }
        if (o.size() > 1 && choose(2, "order")) { std::swap(o.front(), o.back()); }
        return o;
    }
    std::vector<int> sel_repeats(int n)          // row lists may name a row more than once
    {
        std::vector<int> o = sel(n);
        if (!o.empty() && choose(3, "repeat") == 0) { o.push_back(o[choose((unsigned)o.size(), "which")]); std::swap(o.back(), o[o.size() / 2]); }
        return o;
    }
    std::vector<int> perm(int n)
    {
        std::vector<int> p((size_t)n);
        for (int i = 0; i < n; ++i) { p[(size_t)i] = i; }
        Bulk bulk(n > 60);
        for (int i = n - 1; i > 0; --i) { std::swap(p[(size_t)i], p[small((unsigned)i + 1, "perm")]); }
        return p;
    }
    Vector<int> marks(int n, std::vector<char>& m)
    {
        Vector<int> o(n, 0);
        m.assign((size_t)n, 0);
        Bulk bulk(n > 60);
        for (int i = 0; i < n; ++i) { if (small(3, "mark") == 0) { o[i] = 1; m[(size_t)i] = 1; } }
        return o;
    }
};

struct Op { const char* name; void (*fn)(W&, const char*); };
#define OP(name, ...) {name, [](W& w, const char* N) { (void)N; __VA_ARGS__ }}
#define T(...) std::vector<Ref>{__VA_ARGS__}

// Value operations for one kind: X real array, x model array.
#define VALUE_OPS(NAME, K, COUNT, X, x, TYPE) \
    OP(NAME " copy construct", const int a = (int)choose(COUNT, "slot"), b = w.other(a, COUNT); \
       w.step(N, T(Ref{K, b}), [&] { TYPE t(w.X[a]); swap(w.X[b], t); }, [&] { w.x[b] = w.x[a]; });), \
    OP(NAME " copy assign", const int a = (int)choose(COUNT, "slot"), b = w.other(a, COUNT); \
       w.step(N, T(Ref{K, b}), [&] { w.X[b] = w.X[a]; }, [&] { w.x[b] = w.x[a]; });), \
    OP(NAME " self assign", const int a = (int)choose(COUNT, "slot"); \
       w.step(N, T(Ref{K, a}), [&] { TYPE& r = w.X[a]; w.X[a] = r; }, [&] { });), \
    OP(NAME " move construct", const int a = (int)choose(COUNT, "slot"), b = w.other(a, COUNT); auto old = w.x[b]; \
       w.step(N, T(Ref{K, a}, Ref{K, b}), [&] { TYPE t(std::move(w.X[a])); w.X[a] = w.X[b]; swap(w.X[b], t); }, [&] { auto t = w.x[a]; w.x[a] = old; w.x[b] = t; });), \
    OP(NAME " move assign", const int a = (int)choose(COUNT, "slot"), b = w.other(a, COUNT); auto keep = w.x[a]; \
       w.step(N, T(Ref{K, a}, Ref{K, b}), [&] { w.X[b] = std::move(w.X[a]); TYPE again(w.X[b]); w.X[a] = std::move(again); }, [&] { w.x[b] = keep; });), \
    OP(NAME " swap", const int a = (int)choose(COUNT, "slot"), b = w.other(a, COUNT); \
       w.step(N, T(Ref{K, a}, Ref{K, b}), [&] { swap(w.X[a], w.X[b]); }, [&] { std::swap(w.x[a], w.x[b]); });), \
    OP(NAME " swap with itself", const int a = (int)choose(COUNT, "slot"); \
       w.step(N, T(Ref{K, a}), [&] { swap(w.X[a], w.X[a]); }, [&] { });), \
    OP(NAME " by value", const int a = (int)choose(COUNT, "slot"); \
       w.read(N, [&] { std::vector<TYPE> many; for (int k = 0; k < 3; ++k) { many.push_back(w.X[a]); } many.erase(many.begin()); many.insert(many.begin(), w.X[a]); \
                       for (auto& t : many) { const std::string d = diff(t, w.x[a]); if (!d.empty()) { return "a stored copy " + d; } } return std::string(); });), \
    OP(NAME " copies are independent", const int a = (int)choose(COUNT, "slot"), b = w.other(a, COUNT); \
       w.step(N, T(Ref{K, b}), [&] { { TYPE t(w.X[a]); TYPE u; u = t; w.X[b] = u; } }, [&] { w.x[b] = w.x[a]; });), \
    OP(NAME " default construct and assign", const int a = (int)choose(COUNT, "slot"); \
       w.step(N, T(Ref{K, a}), [&] { TYPE t; TYPE u(t); t = w.X[a]; w.X[a] = u; w.X[a] = t; }, [&] { });)

const Op VALUE[] =
{
    VALUE_OPS("SparseMatrix", kS, NS, S, s, SparseMatrix<double>),
    VALUE_OPS("DenseMatrix", kG, NG, G, g, DenseMatrix),
    VALUE_OPS("Vector", kV, NV, V, v, Vector<double>),
    VALUE_OPS("BlockVector", kBV, NBV, BV, bv, BlockVector<double>),
    VALUE_OPS("BlockMatrix", kBM, NBM, BM, bm, BlockMatrix<double>),
    VALUE_OPS("CooMatrix", kC, NC, C, c, CooMatrix<double>),
    VALUE_OPS("LilMatrix", kL, NL, L, l, LilMatrix<double>),
    VALUE_OPS("SparseMatrix<int>", kI, NI, I, mi, SparseMatrix<int>),
    VALUE_OPS("Vector<int>", kU, NU, U, u, Vector<int>),

    OP("Vector from vector data", const int a = w.iv(); const MV n = vec(w.dim("size")); w.step(N, T(Ref{kV, a}), [&] { w.V[a] = Vector<double>(n); }, [&] { w.v[a] = n; });),
    OP("Vector of one value", const int a = w.iv(); const int n = w.dim("size"); const double x = val(); w.step(N, T(Ref{kV, a}), [&] { w.V[a] = Vector<double>(n, x); }, [&] { w.v[a] = MV((size_t)n, x); });),
    OP("Vector resized", const int a = w.iv(); const int n = w.dim("size"); const double x = val(); w.step(N, T(Ref{kV, a}), [&] { w.V[a].SetSize(n, x); }, [&] { w.v[a].resize((size_t)n, x); });),
    OP("Vector grown and filled", const int a = w.iv(); const int n = w.dim("size"); const double x = val(); w.step(N, T(Ref{kV, a}), [&] { w.V[a].SetSize(n); w.V[a] = x; }, [&] { w.v[a].assign((size_t)n, x); });),
    OP("Vector = view of another", const int a = w.nonempty_v(); const int b = w.other(a, NV); const int n = (int)w.v[a].size(); const int i = (int)choose((unsigned)n, "from"); const int k = 1 + (int)choose((unsigned)(n - i), "count");
       w.step(N, T(Ref{kV, b}), [&] { VV view(w.V[a].begin() + i, k); w.V[b] = view; }, [&] { w.v[b] = MV(w.v[a].begin() + i, w.v[a].begin() + i + k); });),
    OP("Vector = view of itself", const int a = w.nonempty_v(); const int n = (int)w.v[a].size(); const int i = (int)choose((unsigned)n, "from"); const int k = 1 + (int)choose((unsigned)(n - i), "count");
       w.step(N, T(Ref{kV, a}), [&] { VV view(w.V[a].begin() + i, k); w.V[a] = view; }, [&] { MV t(w.v[a].begin() + i, w.v[a].begin() + i + k); w.v[a] = t; });),
    OP("Vector from view", const int a = w.nonempty_v(); const int b = w.other(a, NV); w.step(N, T(Ref{kV, b}), [&] { VV view(w.V[a]); Vector<double> t(view); w.V[b] = std::move(t); }, [&] { w.v[b] = w.v[a]; });),
    OP("write through a view", const int a = w.nonempty_v(); const int n = (int)w.v[a].size(); const int i = (int)choose((unsigned)n, "from"); const int k = 1 + (int)choose((unsigned)(n - i), "count"); const double x = val();
       w.step(N, T(Ref{kV, a}), [&] { VV view(w.V[a].begin() + i, k); VV again(view); again = x; }, [&] { std::fill(w.v[a].begin() + i, w.v[a].begin() + i + k, x); });),
    OP("assign a view", const int a = w.nonempty_v(); const int b = w.sized_v(a, (int)w.v[a].size());
       w.step(N, T(Ref{kV, b}), [&] { VV to(w.V[b]); const VV from(w.V[a]); to = from; }, [&] { w.v[b] = w.v[a]; });),
    OP("assign a temporary view", const int a = w.nonempty_v(); const int b = w.sized_v(a, (int)w.v[a].size());
       w.step(N, T(Ref{kV, b}), [&] { VV to(w.V[b]); to = VV(w.V[a]); VV from(w.V[a]); to = from; }, [&] { w.v[b] = w.v[a]; });),
    OP("shift within a vector", const int a = w.nonempty_v(); const int n = (int)w.v[a].size(); const int i = (int)choose((unsigned)n, "from"); const int j = (int)choose((unsigned)i + 1, "to"); const int k = 1 + (int)choose((unsigned)(n - std::max(i, j)), "count");
       w.step(N, T(Ref{kV, a}), [&] { const VV from(w.V[a].begin() + i, k); VV to(w.V[a].begin() + j, k); to = from; }, [&] { MV t(w.v[a].begin() + i, w.v[a].begin() + i + k); std::copy(t.begin(), t.end(), w.v[a].begin() + j); });),
    OP("view over a std::vector", const int a = w.iv(); MV data = w.v[a]; const double x = val(); w.read(N, [&] { MV d = data; VV view(d); view += x; for (size_t i = 0; i < d.size(); ++i) { if (d[i] != data[i] + x) { return std::string("the vector behind a view was not updated"); } } return std::string(); });),
    OP("swap views", const int a = w.nonempty_v(); const int b = w.other(a, NV); const double x = val();
       w.step(N, T(Ref{kV, a}), [&] { VV p(w.V[a]); VV q(w.V[b]); swap(p, q); q = x; }, [&] { std::fill(w.v[a].begin(), w.v[a].end(), x); });),
    OP("write into a block", const int a = (int)choose(NBV, "BV"); const int k = (int)choose((unsigned)w.bv[a].off.size() - 1, "block"); const double x = val();
       w.step(N, T(Ref{kBV, a}), [&] { VV b(w.BV[a].GetBlock(k)); b = x; }, [&] { std::fill(w.bv[a].v.begin() + w.bv[a].off[(size_t)k], w.bv[a].v.begin() + w.bv[a].off[(size_t)k + 1], x); });),
    OP("BlockVector = value", const int a = (int)choose(NBV, "BV"); const double x = val(); w.step(N, T(Ref{kBV, a}), [&] { VV b(w.BV[a]); b = x; }, [&] { std::fill(w.bv[a].v.begin(), w.bv[a].v.end(), x); });),
    OP("BlockVector by offsets", const int a = (int)choose(NBV, "BV"); const double x = val(); const auto off = w.split(w.dim("size")); w.step(N, T(Ref{kBV, a}), [&] { w.BV[a] = BlockVector<double>(off, x); }, [&] { w.bv[a].off = off; w.bv[a].v.assign((size_t)off.back(), x); });),
    OP("Vector from BlockVector", const int a = (int)choose(NBV, "BV"); const int b = w.iv(); w.step(N, T(Ref{kV, b}), [&] { Vector<double> t(w.BV[a]); w.V[b] = t; }, [&] { w.v[b] = w.bv[a].v; });),
    OP("write an element", const int a = w.nonempty_v(); const int i = (int)choose((unsigned)w.v[a].size(), "at"); const double x = val(); w.step(N, T(Ref{kV, a}), [&] { w.V[a][i] = x; }, [&] { w.v[a][(size_t)i] = x; });),
    OP("write a matrix entry", const int a = w.nonempty_g(); const int i = (int)choose((unsigned)w.g[a].r, "row"); const int j = (int)choose((unsigned)w.g[a].c, "col"); const double x = val(); w.step(N, T(Ref{kG, a}), [&] { w.G[a](i, j) = x; }, [&] { w.g[a].at(i, j) = x; });),
    OP("write through a column view", const int a = w.nonempty_g(); const int j = (int)choose((unsigned)w.g[a].c, "col"); const double x = val(); w.step(N, T(Ref{kG, a}), [&] { VV c(w.G[a].GetColView(j)); c = x; }, [&] { for (int i = 0; i < w.g[a].r; ++i) { w.g[a].at(i, j) = x; } });),
    OP("write through GetData", const int a = w.is(); const double x = nz(); w.step(N, T(Ref{kS, a}), [&] { for (double& d : w.S[a].GetData()) { d = x; } }, [&] { for (auto& r : w.s[a].row) { for (auto& p : r) { p.second = x; } } });),
    OP("DenseMatrix resized and filled", const int a = w.ig(); const int r = w.dim("rows"); const int c = w.dim("cols"); const double x = val(); w.step(N, T(Ref{kG, a}), [&] { w.G[a].SetSize(r, c); w.G[a] = x; }, [&] { w.g[a] = MG(r, c, x); });),
    OP("DenseMatrix from data", const int a = w.ig(); const MG n = draw_dense(w.dim("rows"), w.dim("cols")); w.step(N, T(Ref{kG, a}), [&] { w.G[a] = mk(n); }, [&] { w.g[a] = n; });),
    OP("SparseMatrix from arrays", const int a = w.is(); const MS n = draw_sparse(w.dim("rows"), w.dim("cols")); const bool u = choose(2, "unsorted"); w.step(N, T(Ref{kS, a}), [&] { w.S[a] = mk(n, u); }, [&] { w.s[a] = n; });),
    OP("empty SparseMatrix", const int a = w.is(); const int r = w.dim("rows"); const int c = w.dim("cols"); w.step(N, T(Ref{kS, a}), [&] { w.S[a] = SparseMatrix<double>(r, c); }, [&] { w.s[a] = MS(r, c); });),
    OP("square matrices by size", const int a = w.ig(); const int b = w.is(); const int n = w.dim("size"); const double x = val(); const unsigned how = choose(3, "how");
       w.step(N, T(Ref{kG, a}, Ref{kS, b}), [&] { if (how == 0) { w.G[a] = DenseMatrix(n); w.G[a] = x; } else if (how == 1) { w.G[a].SetSize(n); w.G[a] = x; } else { w.G[a].SetSize(0); w.G[a].SetSize(n, x); } w.S[b] = SparseMatrix<double>(n); }, [&] { w.g[a] = MG(n, n, x); w.s[b] = MS(n, n); });),
    OP("Vector = temporary view", const int a = w.nonempty_v(); const int b = w.iv(); w.step(N, T(Ref{kV, b}), [&] { w.V[b] = VV(w.V[a]); }, [&] { w.v[b] = w.v[a]; });),
    OP("BlockMatrix block set from a slot", const int a = (int)choose(NBM, "BM"); const int i = (int)choose((unsigned)w.bm[a].ro.size() - 1, "i"); const int j = (int)choose((unsigned)w.bm[a].co.size() - 1, "j");
       const int k = w.sized_s(-1, w.bm[a].ro[(size_t)i + 1] - w.bm[a].ro[(size_t)i], w.bm[a].co[(size_t)j + 1] - w.bm[a].co[(size_t)j]);
       w.step(N, T(Ref{kBM, a}), [&] { w.BM[a].SetBlock(i, j, w.S[k]); }, [&] { w.bm[a].b[(size_t)i][(size_t)j] = w.s[k]; });),
    OP("CooMatrix Add", const int a = (int)choose(NC, "C"); const int i = (int)choose((unsigned)std::max(1, w.c[a].rows()), "row"); const int j = (int)choose((unsigned)std::max(1, w.c[a].cols()), "col"); const double x = val();
       w.step(N, T(Ref{kC, a}), [&] { w.C[a].Add(i, j, x); }, [&] { w.c[a].e.emplace_back(i, j, x); });),
    OP("LilMatrix Add", const int a = (int)choose(NL, "L"); const int i = (int)choose((unsigned)std::max(1, w.l[a].rows()), "row"); const int j = (int)choose((unsigned)std::max(1, w.l[a].cols()), "col"); const double x = val();
       w.step(N, T(Ref{kL, a}), [&] { w.L[a].Add(i, j, x); }, [&] { w.l[a].e.emplace_back(i, j, x); });),
};

MG scaled(MG g, double x) { for (double& d : g.a) { d *= x; } return g; }
void map(MS& s, std::function<double(int, int, double)> f) { for (int i = 0; i < s.r; ++i) { for (auto& p : s.row[(size_t)i]) { p.second = f(i, p.first, p.second); } } }
MV zip(const MV& a, const MV& b, std::function<double(double, double)> f) { MV o(a); for (size_t i = 0; i < o.size(); ++i) { o[i] = f(a[i], b[i]); } return o; }
SparseMatrix<double> diag(const MV& d) { return SparseMatrix<double>(d); }
double sum(const MV& v) { double t = 0; for (double x : v) { t += x; } return t; }
std::string same(double a, double b) { return a == b ? "" : str("is %.17g, expected %.17g", a, b); }

const Op ALGEBRA[] =
{
    // sparse, in place
    OP("S *= x", const int a = w.is(); const double x = pow2(); w.step(N, T(Ref{kS, a}), [&] { w.S[a] *= x; }, [&] { map(w.s[a], [&](int, int, double d) { return d * x; }); });),
    OP("S /= x", const int a = w.is(); const double x = pow2(); w.step(N, T(Ref{kS, a}), [&] { w.S[a] /= x; }, [&] { map(w.s[a], [&](int, int, double d) { return d / x; }); });),
    OP("S = x", const int a = w.is(); const double x = nz(); w.step(N, T(Ref{kS, a}), [&] { w.S[a] = x; }, [&] { map(w.s[a], [&](int, int, double) { return x; }); });),
    OP("S ScaleRows", const int a = w.is(); const MV d = vec(w.s[a].r); const bool m = choose(2, "by matrix"); w.step(N, T(Ref{kS, a}), [&] { if (m) { w.S[a].ScaleRows(diag(d)); } else { w.S[a].ScaleRows(d); } }, [&] { map(w.s[a], [&](int i, int, double x) { return x * d[(size_t)i]; }); });),
    OP("S ScaleCols", const int a = w.is(); const MV d = vec(w.s[a].c); const bool m = choose(2, "by matrix"); w.step(N, T(Ref{kS, a}), [&] { if (m) { w.S[a].ScaleCols(diag(d)); } else { w.S[a].ScaleCols(d); } }, [&] { map(w.s[a], [&](int, int j, double x) { return x * d[(size_t)j]; }); });),
    OP("S InverseScaleRows", const int a = w.is(); const MV d = pows(w.s[a].r); const bool m = choose(2, "by matrix"); w.step(N, T(Ref{kS, a}), [&] { if (m) { w.S[a].InverseScaleRows(diag(d)); } else { w.S[a].InverseScaleRows(d); } }, [&] { map(w.s[a], [&](int i, int, double x) { return x / d[(size_t)i]; }); });),
    OP("S InverseScaleCols", const int a = w.is(); const MV d = pows(w.s[a].c); const bool m = choose(2, "by matrix"); w.step(N, T(Ref{kS, a}), [&] { if (m) { w.S[a].InverseScaleCols(diag(d)); } else { w.S[a].InverseScaleCols(d); } }, [&] { map(w.s[a], [&](int, int j, double x) { return x / d[(size_t)j]; }); });),
    OP("S AddDiag", const int a = w.square_s(); const MV d = vec(w.s[a].r); const double x = val(); const bool one = choose(2, "one value");
       w.step(N, T(Ref{kS, a}), [&] { if (one) { w.S[a].AddDiag(x); } else { w.S[a].AddDiag(d); } }, [&] { map(w.s[a], [&](int i, int j, double y) { return i == j ? y + (one ? x : d[(size_t)i]) : y; }); });),
    OP("S PermuteCols", const int a = w.is(); const auto p = w.perm(w.s[a].c); w.step(N, T(Ref{kS, a}), [&] { w.S[a].PermuteCols(p); }, [&] { MS n(w.s[a].r, w.s[a].c); for (int i = 0; i < n.r; ++i) { for (auto& q : w.s[a].row[(size_t)i]) { n.row[(size_t)i][p[(size_t)q.first]] = q.second; } } w.s[a] = n; });),
    OP("S EliminateRowCol", const int a = w.nonempty_s(); const int k = (int)choose((unsigned)std::min(w.s[a].r, w.s[a].c), "index"); w.step(N, T(Ref{kS, a}), [&] { w.S[a].EliminateRowCol(k); }, [&] { map(w.s[a], [&](int i, int j, double x) { return i == k || j == k ? (i == j ? 1.0 : 0.0) : x; }); });),
    OP("S EliminateRowCol marked", const int a = w.square_s(); std::vector<char> m; const Vector<int> mk_ = w.marks(w.s[a].r, m); w.step(N, T(Ref{kS, a}), [&] { w.S[a].EliminateRowCol(mk_); }, [&] { map(w.s[a], [&](int i, int j, double x) { return m[(size_t)i] || m[(size_t)j] ? (i == j ? 1.0 : 0.0) : x; }); });),
    OP("S EliminateRow", const int a = w.nonempty_s(); const int k = (int)choose((unsigned)w.s[a].r, "index"); w.step(N, T(Ref{kS, a}), [&] { w.S[a].EliminateRow(k); }, [&] { map(w.s[a], [&](int i, int, double x) { return i == k ? 0.0 : x; }); });),
    OP("S EliminateCol", const int a = w.nonempty_s(); const int k = (int)choose((unsigned)w.s[a].c, "index"); w.step(N, T(Ref{kS, a}), [&] { w.S[a].EliminateCol(k); }, [&] { map(w.s[a], [&](int, int j, double x) { return j == k ? 0.0 : x; }); });),
    OP("S EliminateCol marked", const int a = w.is(); std::vector<char> m; const Vector<int> mk_ = w.marks(w.s[a].c, m); w.step(N, T(Ref{kS, a}), [&] { w.S[a].EliminateCol(mk_); }, [&] { map(w.s[a], [&](int, int j, double x) { return m[(size_t)j] ? 0.0 : x; }); });),
    OP("S EliminateCol into rhs", const int a = w.is(); std::vector<char> m; const Vector<int> mk_ = w.marks(w.s[a].c, m); const int x = w.sized_v(-1, w.s[a].c); const int b = w.sized_v(x, w.s[a].r);
       w.step(N, T(Ref{kS, a}, Ref{kV, b}), [&] { w.S[a].EliminateCol(mk_, w.V[x], VV(w.V[b])); },
              [&] { map(w.s[a], [&](int i, int j, double d) { if (m[(size_t)j]) { w.v[b][(size_t)i] -= d * w.v[x][(size_t)j]; return 0.0; } return d; }); });),
    OP("S EliminateZeros", const int a = w.is(); const double tol = choose(2, "tolerance") ? 1.0 : 0.0; w.step(N, T(Ref{kS, a}), [&] { if (tol) { w.S[a].EliminateZeros(tol); } else { w.S[a].EliminateZeros(); } }, [&] { for (auto& r : w.s[a].row) { for (auto it = r.begin(); it != r.end();) { if (std::abs(it->second) > tol) { ++it; } else { it = r.erase(it); } } } });),
    OP("S SortIndices", const int a = w.is(); w.step(N, T(Ref{kS, a}), [&] { w.S[a].SortIndices(); }, [] {});
       for (int i = 0; !w.rounded && i < w.S[a].Rows(); ++i) { const auto idx = w.S[a].GetIndices(i); if (!std::is_sorted(idx.begin(), idx.end())) { violation("wrong-result", "SortIndices left row %d unsorted", i); } }),
    // sparse, out of place
    OP("S Transpose", const int a = w.is(); const int b = w.other(a, NS); w.step(N, T(Ref{kS, b}), [&] { w.S[b] = w.S[a].Transpose(); }, [&] { w.s[b] = transpose(w.s[a]); });),
    OP("S = its transpose", const int a = w.is(); w.step(N, T(Ref{kS, a}), [&] { w.S[a] = w.S[a].Transpose(); }, [&] { w.s[a] = transpose(w.s[a]); });),
    OP("S Mult S", const int a = w.is(); const int b = w.sized_s(a, w.s[a].c, -1); const int o = w.is(); w.step(N, T(Ref{kS, o}), [&] { w.S[o] = w.S[a].Mult(w.S[b]); }, [&] { w.s[o] = mul(w.s[a], w.s[b]); });),
    OP("S Mult S with shared marker", const int a = w.is(); const int b = w.sized_s(a, w.s[a].c, -1); const int o = w.is(); w.step(N, T(Ref{kS, o}), [&] { w.S[o] = w.S[a].Mult(w.S[b], w.marker); }, [&] { w.s[o] = mul(w.s[a], w.s[b]); });),
    OP("S squared", const int a = w.square_s(); w.step(N, T(Ref{kS, a}), [&] { w.S[a] = w.S[a].Mult(w.S[a]); }, [&] { w.s[a] = mul(w.s[a], w.s[a]); });),
    OP("S GetSubMatrix", const int a = w.is(); const int o = w.is(); const auto r = w.sel_repeats(w.s[a].r); const auto c = w.sel(w.s[a].c); const bool mine = choose(2, "own marker");
       w.step(N, T(Ref{kS, o}), [&] { if (mine) { if (w.submarker.size() < (size_t)w.S[a].Cols()) { w.submarker.resize((size_t)w.S[a].Cols(), -1); } w.S[o] = w.S[a].GetSubMatrix(r, c, w.submarker); } else { w.S[o] = w.S[a].GetSubMatrix(r, c); } },
              [&] { MS n((int)r.size(), (int)c.size()); for (size_t i = 0; i < r.size(); ++i) { for (size_t j = 0; j < c.size(); ++j) { auto it = w.s[a].row[(size_t)r[i]].find(c[j]); if (it != w.s[a].row[(size_t)r[i]].end()) { n.row[i][(int)j] = it->second; } } } w.s[o] = n; });),
    OP("x * S", const int a = w.is(); const int o = w.is(); const double x = pow2(); const bool left = choose(2, "left"); w.step(N, T(Ref{kS, o}), [&] { w.S[o] = left ? x * w.S[a] : w.S[a] * x; }, [&] { MS n = w.s[a]; map(n, [&](int, int, double d) { return d * x; }); w.s[o] = n; });),
    OP("diagonal S", const int o = w.is(); const MV d = vec(w.dim("size")); w.step(N, T(Ref{kS, o}), [&] { w.S[o] = SparseMatrix<double>(d); }, [&] { MS n((int)d.size(), (int)d.size()); for (int i = 0; i < n.r; ++i) { n.row[(size_t)i][i] = d[(size_t)i]; } w.s[o] = n; });),
    OP("S ToDense", const int a = w.is(); const int o = w.ig(); const bool into = choose(2, "into"); w.step(N, T(Ref{kG, o}), [&] { if (into) { w.S[a].ToDense(w.stale(w.G[o])); } else { w.G[o] = w.S[a].ToDense(); } }, [&] { w.g[o] = dense(w.s[a]); });),
    OP("S TransposeDense", const int a = w.is(); const int o = w.ig(); const bool into = choose(2, "into"); w.step(N, T(Ref{kG, o}), [&] { if (into) { w.S[a].TransposeDense(w.stale(w.G[o])); } else { w.G[o] = w.S[a].TransposeDense(); } }, [&] { w.g[o] = transpose(dense(w.s[a])); });),
    OP("S Mult G", const int a = w.is(); const int b = w.sized_g(-1, w.s[a].c, -1); const int o = w.other(b, NG); const bool into = choose(2, "into"); w.step(N, T(Ref{kG, o}), [&] { if (into) { w.S[a].Mult(w.G[b], w.stale(w.G[o])); } else { w.G[o] = w.S[a].Mult(w.G[b]); } }, [&] { w.g[o] = mul(dense(w.s[a]), w.g[b]); });),
    OP("S MultAT G", const int a = w.is(); const int b = w.sized_g(-1, w.s[a].r, -1); const int o = w.other(b, NG); const bool into = choose(2, "into"); w.step(N, T(Ref{kG, o}), [&] { if (into) { w.S[a].MultAT(w.G[b], w.stale(w.G[o])); } else { w.G[o] = w.S[a].MultAT(w.G[b]); } }, [&] { w.g[o] = mul(transpose(dense(w.s[a])), w.g[b]); });),
    OP("S MultCT G", const int a = w.is(); const int b = w.sized_g(-1, w.s[a].c, -1); const int o = w.other(b, NG); const bool into = choose(2, "into"); w.step(N, T(Ref{kG, o}), [&] { if (into) { w.S[a].MultCT(w.G[b], w.stale(w.G[o])); } else { w.G[o] = w.S[a].MultCT(w.G[b]); } }, [&] { w.g[o] = transpose(mul(dense(w.s[a]), w.g[b])); });),
    OP("S Mult v", const int a = w.is(); const int x = w.sized_v(-1, w.s[a].c); const int y = w.other(x, NV); const unsigned how = choose(4, "how");
       w.step(N, T(Ref{kV, y}), [&] { const Operator& A = w.S[a]; if (how == 0) { w.V[y] = w.S[a].Mult(w.V[x]); } else if (how == 1) { A.Mult(w.V[x], w.stale(w.V[y])); } else if (how == 2) { w.V[y].SetSize(w.S[a].Rows()); A.Mult(w.V[x], VV(w.stale(w.V[y]))); } else { w.V[y] = w.S[a].Mult((const VV&)w.V[x]); } }, [&] { w.v[y] = mul(dense(w.s[a]), w.v[x]); });),
    OP("S MultAT v", const int a = w.is(); const int x = w.sized_v(-1, w.s[a].r); const int y = w.other(x, NV); const unsigned how = choose(3, "how");
       w.step(N, T(Ref{kV, y}), [&] { const Operator& A = w.S[a]; if (how == 0) { w.V[y] = w.S[a].MultAT(w.V[x]); } else if (how == 1) { A.MultAT(w.V[x], w.stale(w.V[y])); } else { w.V[y].SetSize(w.S[a].Cols()); A.MultAT(w.V[x], VV(w.stale(w.V[y]))); } }, [&] { w.v[y] = mul(transpose(dense(w.s[a])), w.v[x]); });),
    OP("S queries", const int a = w.is(); w.read(N, [&] {
        const MS& m = w.s[a]; double t = 0, n = 0; for (auto& r : m.row) { for (auto& p : r) { t += p.second; n += std::abs(p.second); } }
        std::string d = same(w.S[a].Sum(), t); if (!d.empty()) { return "Sum " + d; }
        d = same(w.S[a].MaxNorm(), n); if (!d.empty()) { return "MaxNorm " + d; }
        if (m.r == m.c) { const auto g = w.S[a].GetDiag(); for (int i = 0; i < m.r; ++i) { if (g[(size_t)i] != m.get(i, i)) { return str("GetDiag %d ", i); } } }
        const SparseMatrix<double>& cs = w.S[a];
        for (int i = 0; i < m.r; ++i)
        {
            if (cs.RowSize(i) != (int)m.row[(size_t)i].size()) { return str("RowSize of row %d is wrong", i); }
            const auto idx = cs.GetIndices(i); const auto dat = cs.GetData(i); const VectorView<int>& view = cs.GetIndicesView(i); const VectorView<int> mut = w.S[a].GetIndicesView(i);
            if (mut.size() != view.size() || mut.begin() != view.begin()) { return str("the two views of row %d differ", i); }
            if (idx.size() != m.row[(size_t)i].size() || dat.size() != idx.size() || view.size() != (int)idx.size()) { return str("row %d has the wrong length", i); }
            for (size_t k = 0; k < idx.size(); ++k) { if (!m.row[(size_t)i].count(idx[k]) || m.row[(size_t)i].at(idx[k]) != dat[k] || view[(int)k] != idx[k]) { return str("row %d differs", i); } }
        }
        return std::string(); });),
    OP("S InnerProduct", const int a = w.is(); const int x = w.sized_v(-1, w.s[a].c); const int y = w.sized_v(x, w.s[a].r); w.read(N, [&] { const MV ax = mul(dense(w.s[a]), w.v[x]); double t = 0; for (size_t i = 0; i < ax.size(); ++i) { t += ax[i] * w.v[y][i]; } return same(w.S[a].InnerProduct(w.V[x], w.V[y]), t); });),
    // dense
    OP("G += G", const int a = w.ig(); const int b = choose(3, "self") ? w.sized_g(a, w.g[a].r, w.g[a].c) : a; w.step(N, T(Ref{kG, a}), [&] { w.G[a] += w.G[b]; }, [&] { w.g[a].a = zip(w.g[a].a, w.g[b].a, [](double x, double y) { return x + y; }); });),
    OP("G -= G", const int a = w.ig(); const int b = choose(3, "self") ? w.sized_g(a, w.g[a].r, w.g[a].c) : a; w.step(N, T(Ref{kG, a}), [&] { w.G[a] -= w.G[b]; }, [&] { w.g[a].a = zip(w.g[a].a, w.g[b].a, [](double x, double y) { return x - y; }); });),
    OP("G scaled", const int a = w.ig(); const double x = pow2(); const bool d = choose(2, "divide"); w.step(N, T(Ref{kG, a}), [&] { if (d) { w.G[a] /= x; } else { w.G[a] *= x; } }, [&] { w.g[a] = scaled(w.g[a], d ? 1.0 / x : x); });),
    OP("G + G", const int a = w.ig(); const int b = w.sized_g(a, w.g[a].r, w.g[a].c); const int o = w.ig(); const bool minus = choose(2, "minus"); w.step(N, T(Ref{kG, o}), [&] { w.G[o] = minus ? w.G[a] - w.G[b] : w.G[a] + w.G[b]; }, [&] { MG n = w.g[a]; n.a = zip(w.g[a].a, w.g[b].a, [&](double x, double y) { return minus ? x - y : x + y; }); w.g[o] = n; });),
    OP("x * G", const int a = w.ig(); const int o = w.ig(); const double x = pow2(); const unsigned how = choose(3, "how"); w.step(N, T(Ref{kG, o}), [&] { if (how == 0) { w.G[o] = x * w.G[a]; } else if (how == 1) { w.G[o] = w.G[a] * x; } else { w.G[o] = w.G[a] / x; } }, [&] { w.g[o] = scaled(w.g[a], how == 2 ? 1.0 / x : x); });),
    OP("G = x", const int a = w.ig(); const double x = val(); w.step(N, T(Ref{kG, a}), [&] { w.G[a] = x; }, [&] { w.g[a] = MG(w.g[a].r, w.g[a].c, x); });),
    OP("G Transpose", const int a = w.ig(); const int o = w.other(a, NG); const bool into = choose(2, "into"); w.step(N, T(Ref{kG, o}), [&] { if (into) { w.G[a].Transpose(w.stale(w.G[o])); } else { w.G[o] = w.G[a].Transpose(); } }, [&] { w.g[o] = transpose(w.g[a]); });),
    OP("G Mult G", const int a = w.ig(); const int b = w.sized_g(a, w.g[a].c, -1); const int o = 3 - a - b; const bool into = choose(2, "into"); w.step(N, T(Ref{kG, o}), [&] { if (into) { w.G[a].Mult(w.G[b], w.stale(w.G[o])); } else { w.G[o] = w.G[a].Mult(w.G[b]); } }, [&] { w.g[o] = mul(w.g[a], w.g[b]); });),
    OP("G MultAT G", const int a = w.ig(); const int b = w.sized_g(a, w.g[a].r, -1); const int o = 3 - a - b; const bool into = choose(2, "into"); w.step(N, T(Ref{kG, o}), [&] { if (into) { w.G[a].MultAT(w.G[b], w.stale(w.G[o])); } else { w.G[o] = w.G[a].MultAT(w.G[b]); } }, [&] { w.g[o] = mul(transpose(w.g[a]), w.g[b]); });),
    OP("G MultBT G", const int a = w.ig(); const int b = w.sized_g(a, -1, w.g[a].c); const int o = 3 - a - b; const bool into = choose(2, "into"); w.step(N, T(Ref{kG, o}), [&] { if (into) { w.G[a].MultBT(w.G[b], w.stale(w.G[o])); } else { w.G[o] = w.G[a].MultBT(w.G[b]); } }, [&] { w.g[o] = mul(w.g[a], transpose(w.g[b])); });),
    OP("G MultABT G", const int a = w.ig(); const int b = w.sized_g(a, -1, w.g[a].r); const int o = 3 - a - b; const bool into = choose(2, "into"); w.step(N, T(Ref{kG, o}), [&] { if (into) { w.G[a].MultABT(w.G[b], w.stale(w.G[o])); } else { w.G[o] = w.G[a].MultABT(w.G[b]); } }, [&] { w.g[o] = mul(transpose(w.g[a]), transpose(w.g[b])); });),
    OP("G = G * G", const int a = w.ig(); const int b = w.sized_g(a, w.g[a].c, -1); w.step(N, T(Ref{kG, a}), [&] { w.G[a] = w.G[a].Mult(w.G[b]); }, [&] { w.g[a] = mul(w.g[a], w.g[b]); });),
    OP("G Mult v", const int a = w.ig(); const int x = w.sized_v(-1, w.g[a].c); const int y = w.other(x, NV); const unsigned how = choose(3, "how"); w.step(N, T(Ref{kV, y}), [&] { const Operator& A = w.G[a]; if (how == 0) { w.V[y] = w.G[a].Mult(w.V[x]); } else if (how == 1) { A.Mult(w.V[x], w.stale(w.V[y])); } else { w.V[y] = A.Mult(w.V[x]); } }, [&] { w.v[y] = mul(w.g[a], w.v[x]); });),
    OP("G MultAT v", const int a = w.ig(); const int x = w.sized_v(-1, w.g[a].r); const int y = w.other(x, NV); const unsigned how = choose(3, "how"); w.step(N, T(Ref{kV, y}), [&] { const Operator& A = w.G[a]; if (how == 0) { w.V[y] = w.G[a].MultAT(w.V[x]); } else if (how == 1) { A.MultAT(w.V[x], w.stale(w.V[y])); } else { w.V[y] = A.MultAT(w.V[x]); } }, [&] { w.v[y] = mul(transpose(w.g[a]), w.v[x]); });),
    OP("G SetRow", const int a = w.nonempty_g(); const int i = (int)choose((unsigned)w.g[a].r, "row"); const int x = w.sized_v(-1, w.g[a].c); w.step(N, T(Ref{kG, a}), [&] { w.G[a].SetRow(i, w.V[x]); }, [&] { for (int j = 0; j < w.g[a].c; ++j) { w.g[a].at(i, j) = w.v[x][(size_t)j]; } });),
    OP("G SetCol", const int a = w.nonempty_g(); const int j = (int)choose((unsigned)w.g[a].c, "col"); const int x = w.sized_v(-1, w.g[a].r); w.step(N, T(Ref{kG, a}), [&] { w.G[a].SetCol(j, w.V[x]); }, [&] { for (int i = 0; i < w.g[a].r; ++i) { w.g[a].at(i, j) = w.v[x][(size_t)i]; } });),
    OP("G GetRow", const int a = w.nonempty_g(); const int i = (int)choose((unsigned)w.g[a].r, "row"); const int y = w.iv(); const bool into = choose(2, "into"); w.step(N, T(Ref{kV, y}), [&] { if (into) { w.V[y].SetSize(w.G[a].Cols()); const DenseMatrix& cg = w.G[a]; VV& to = w.stale(w.V[y]); cg.GetRow(i, to); } else { w.V[y] = w.G[a].GetRow(i); } }, [&] { MV n; for (int j = 0; j < w.g[a].c; ++j) { n.push_back(w.g[a].at(i, j)); } w.v[y] = n; });),
    OP("G GetCol", const int a = w.nonempty_g(); const int j = (int)choose((unsigned)w.g[a].c, "col"); const int y = w.iv(); const bool into = choose(2, "into"); w.step(N, T(Ref{kV, y}), [&] { const DenseMatrix& cg = w.G[a]; if (into) { w.V[y].SetSize(cg.Rows()); VV& to = w.stale(w.V[y]); cg.GetCol(j, to); } else { w.V[y] = cg.GetCol(j); } }, [&] { MV n; for (int i = 0; i < w.g[a].r; ++i) { n.push_back(w.g[a].at(i, j)); } w.v[y] = n; });),
    OP("G GetSubMatrix", const int a = w.nonempty_g(); const int o = w.other(a, NG); const int i = (int)choose((unsigned)w.g[a].r, "row"); const int j = (int)choose((unsigned)w.g[a].c, "col"); const int r = 1 + (int)choose((unsigned)(w.g[a].r - i), "rows"); const int c = 1 + (int)choose((unsigned)(w.g[a].c - j), "cols"); const bool into = choose(2, "into");
       w.step(N, T(Ref{kG, o}), [&] { if (into) { w.G[a].GetSubMatrix(i, j, i + r, j + c, w.stale(w.G[o])); } else { w.G[o] = w.G[a].GetSubMatrix(i, j, i + r, j + c); } }, [&] { MG n(r, c); for (int p = 0; p < r; ++p) { for (int q = 0; q < c; ++q) { n.at(p, q) = w.g[a].at(i + p, j + q); } } w.g[o] = n; });),
    OP("G GetSubMatrix by lists", const int a = w.ig(); const int o = w.other(a, NG); const auto r = w.sel_repeats(w.g[a].r); const auto c = w.sel_repeats(w.g[a].c); const bool into = choose(2, "into");
       w.step(N, T(Ref{kG, o}), [&] { if (into) { w.G[a].GetSubMatrix(r, c, w.stale(w.G[o])); } else { w.G[o] = w.G[a].GetSubMatrix(r, c); } }, [&] { MG n((int)r.size(), (int)c.size()); for (int p = 0; p < n.r; ++p) { for (int q = 0; q < n.c; ++q) { n.at(p, q) = w.g[a].at(r[(size_t)p], c[(size_t)q]); } } w.g[o] = n; });),
    OP("G rows by list", const int a = w.ig(); const int o = w.other(a, NG); const auto r = w.sel_repeats(w.g[a].r); const bool into = choose(2, "into"); w.step(N, T(Ref{kG, o}), [&] { if (into) { w.G[o].SetSize((int)r.size(), w.G[a].Cols()); w.G[a].GetRow(r, w.stale(w.G[o])); } else { w.G[o] = w.G[a].GetRow(r); } }, [&] { MG n((int)r.size(), w.g[a].c); for (int p = 0; p < n.r; ++p) { for (int q = 0; q < n.c; ++q) { n.at(p, q) = w.g[a].at(r[(size_t)p], q); } } w.g[o] = n; });),
    OP("G SetSubMatrix", const int a = w.nonempty_g(); const int i = (int)choose((unsigned)w.g[a].r, "row"); const int j = (int)choose((unsigned)w.g[a].c, "col"); const int r = 1 + (int)choose((unsigned)(w.g[a].r - i), "rows"); const int c = 1 + (int)choose((unsigned)(w.g[a].c - j), "cols"); const bool tr = choose(2, "transposed"); const int b = tr ? w.sized_g(a, c, r) : w.sized_g(a, r, c);
       w.step(N, T(Ref{kG, a}), [&] { if (tr) { w.G[a].SetSubMatrixTranspose(i, j, w.G[b]); } else { w.G[a].SetSubMatrix(i, j, w.G[b]); } }, [&] { for (int p = 0; p < r; ++p) { for (int q = 0; q < c; ++q) { w.g[a].at(i + p, j + q) = tr ? w.g[b].at(q, p) : w.g[b].at(p, q); } } });),
    OP("G row and column ranges", const int a = w.nonempty_g(); const int o = w.other(a, NG); const bool rows = choose(2, "rows"); const int n = rows ? w.g[a].r : w.g[a].c; const int i = (int)choose((unsigned)n, "from"); const int k = 1 + (int)choose((unsigned)(n - i), "count");
       w.step(N, T(Ref{kG, o}), [&] { if (w.dirty && rows) { w.G[a].GetRow(i, i + k, w.stale(w.G[o])); } else if (w.dirty) { w.G[a].GetCol(i, i + k, w.stale(w.G[o])); } else { w.G[o] = rows ? w.G[a].GetRow(i, i + k) : w.G[a].GetCol(i, i + k); } }, [&] { MG m(rows ? k : w.g[a].r, rows ? w.g[a].c : k); for (int p = 0; p < m.r; ++p) { for (int q = 0; q < m.c; ++q) { m.at(p, q) = rows ? w.g[a].at(i + p, q) : w.g[a].at(p, i + q); } } w.g[o] = m; });),
    OP("G set row and column ranges", const int a = w.nonempty_g(); const bool rows = choose(2, "rows"); const int n = rows ? w.g[a].r : w.g[a].c; const int i = (int)choose((unsigned)n, "from"); const int k = 1 + (int)choose((unsigned)(n - i), "count"); const int b = rows ? w.sized_g(a, k, w.g[a].c) : w.sized_g(a, w.g[a].r, k);
       w.step(N, T(Ref{kG, a}), [&] { if (rows) { w.G[a].SetRow(i, w.G[b]); } else { w.G[a].SetCol(i, w.G[b]); } }, [&] { for (int p = 0; p < w.g[b].r; ++p) { for (int q = 0; q < w.g[b].c; ++q) { w.g[a].at(rows ? i + p : p, rows ? q : i + q) = w.g[b].at(p, q); } } });),
    OP("G AddSubMatrix", const int a = w.ig(); const auto r = w.sel_repeats(w.g[a].r); auto c = w.sel_repeats(w.g[a].c); const int b = w.sized_g(a, (int)r.size(), (int)c.size());
       w.step(N, T(Ref{kG, a}), [&] { auto cc = c; w.G[a].AddSubMatrix(r, cc, w.G[b]); }, [&] { for (size_t p = 0; p < r.size(); ++p) { for (size_t q = 0; q < c.size(); ++q) { w.g[a].at(r[p], c[q]) += w.g[b].at((int)p, (int)q); } } });),
    OP("G scale rows", const int a = w.ig(); const bool inv = choose(2, "inverse"); const MV d = inv ? pows(w.g[a].r) : vec(w.g[a].r); w.step(N, T(Ref{kG, a}), [&] { if (inv) { w.G[a].InverseScaleRows(d); } else { w.G[a].ScaleRows(d); } }, [&] { for (int i = 0; i < w.g[a].r; ++i) { for (int j = 0; j < w.g[a].c; ++j) { double& x = w.g[a].at(i, j); x = inv ? x / d[(size_t)i] : x * d[(size_t)i]; } } });),
    OP("G scale cols", const int a = w.ig(); const bool inv = choose(2, "inverse"); const MV d = inv ? pows(w.g[a].c) : vec(w.g[a].c); w.step(N, T(Ref{kG, a}), [&] { if (inv) { w.G[a].InverseScaleCols(d); } else { w.G[a].ScaleCols(d); } }, [&] { for (int i = 0; i < w.g[a].r; ++i) { for (int j = 0; j < w.g[a].c; ++j) { double& x = w.g[a].at(i, j); x = inv ? x / d[(size_t)j] : x * d[(size_t)j]; } } });),
    OP("G HStack", const int a = w.nonempty_g(); std::vector<int> st(1, a); const unsigned k = choose(8, "many") ? 1 : 1 + choose(11, "how many");
       for (unsigned i = 0; i < k; ++i) { int b = choose(3, "same again") ? w.sized_g(a, w.g[a].r, -1) : a; if (w.g[b].c == 0 || w.g[b].r != w.g[a].r) { b = a; } st.push_back(b); }
       for (int& b : st) { if (w.g[b].r != w.g[a].r || w.g[b].c == 0) { b = a; } }
       int total = 0; for (int b : st) { total += w.g[b].c; } if (total > 400) { st.resize(2); total = w.g[st[0]].c + w.g[st[1]].c; } const int o = w.ig();
       w.step(N, T(Ref{kG, o}), [&] { std::vector<DenseMatrix> d; for (int b : st) { d.push_back(w.G[b]); } if (w.dirty) { HStack(d, w.stale(w.G[o])); } else { w.G[o] = HStack(d); } }, [&] { MG n(w.g[a].r, total); int at = 0; for (int b : st) { for (int j = 0; j < w.g[b].c; ++j, ++at) { for (int i = 0; i < n.r; ++i) { n.at(i, at) = w.g[b].at(i, j); } } } w.g[o] = n; });),
    OP("G queries", const int a = w.nonempty_g(); const int b = w.ig(); w.read(N, [&] {
        const MG& m = w.g[a]; std::string d = same(w.G[a].Sum(), sum(m.a)); if (!d.empty()) { return "Sum " + d; }
        d = same(w.G[a].Max(), *std::max_element(m.a.begin(), m.a.end())); if (!d.empty()) { return "Max " + d; }
        d = same(w.G[a].Min(), *std::min_element(m.a.begin(), m.a.end())); if (!d.empty()) { return "Min " + d; }
        if (m.r == m.c) { MV e; for (int i = 0; i < m.r; ++i) { e.push_back(m.at(i, i)); } d = diff(w.G[a].GetDiag(), e); if (!d.empty()) { return "GetDiag " + d; } }
        const bool eq = m.r == w.g[b].r && m.c == w.g[b].c && m.a == w.g[b].a; if (!units() && (w.G[a] == w.G[b]) != eq) { return std::string("== is wrong"); }
        return std::string(); });),
    // vectors
    OP("v op= v", const int a = w.iv(); const int b = choose(3, "self") ? w.sized_v(a, (int)w.v[a].size()) : a; const unsigned how = choose(3, "how");
       w.step(N, T(Ref{kV, a}), [&] { if (how == 0) { w.V[a] += w.V[b]; } else if (how == 1) { w.V[a] -= w.V[b]; } else { w.V[a] *= w.V[b]; } }, [&] { w.v[a] = zip(w.v[a], w.v[b], [&](double x, double y) { return how == 0 ? x + y : how == 1 ? x - y : x * y; }); });),
    OP("v /= v", const int a = w.iv(); const MV d = pows((int)w.v[a].size()); w.step(N, T(Ref{kV, a}), [&] { Vector<double> t(d); w.V[a] /= t; }, [&] { w.v[a] = zip(w.v[a], d, [](double x, double y) { return x / y; }); });),
    OP("v op= x", const int a = w.iv(); const double x = pow2(); const unsigned how = choose(5, "how");
       w.step(N, T(Ref{kV, a}), [&] { if (how == 0) { w.V[a] += x; } else if (how == 1) { w.V[a] -= x; } else if (how == 2) { w.V[a] *= x; } else if (how == 3) { w.V[a] /= x; } else { w.V[a] = x; } }, [&] { for (double& d : w.v[a]) { d = how == 0 ? d + x : how == 1 ? d - x : how == 2 ? d * x : how == 3 ? d / x : x; } });),
    OP("v Add Sub Set", const int a = w.iv(); const int b = choose(3, "self") ? w.sized_v(a, (int)w.v[a].size()) : a; const double x = pow2(); const unsigned how = choose(6, "how");
       w.step(N, T(Ref{kV, a}), [&] { switch (how) { case 0: w.V[a].Add(x, w.V[b]); break; case 1: w.V[a].Sub(x, w.V[b]); break; case 2: w.V[a].Set(x, w.V[b]); break; case 3: w.V[a].Add(w.V[b]); break; case 4: w.V[a].Sub(w.V[b]); break; default: w.V[a].Set(w.V[b]); } },
              [&] { w.v[a] = zip(w.v[a], w.v[b], [&](double p, double q) { return how == 0 ? p + x * q : how == 1 ? p - x * q : how == 2 ? x * q : how == 3 ? p + q : how == 4 ? p - q : q; }); });),
    OP("Add(a, x, b, y, c, z)", const int a = w.iv(); const int n = (int)w.v[a].size(); const int b = choose(3, "self") ? w.sized_v(a, n) : a; const int z = w.sized_v(-1, n); const double p = pow2(), q = pow2(), r = choose(2, "keep z") ? pow2() : 0.0; const unsigned how = choose(3, "how");
       if ((int)w.v[a].size() == n && (int)w.v[b].size() == n) { w.step(N, T(Ref{kV, z}), [&] { if (how == 0) { Add(p, w.V[a], q, w.V[b], r, VV(w.V[z])); } else if (how == 1) { linalgcpp::Add((const VV&)w.V[a], (const VV&)w.V[b], VV(z == a || z == b ? w.V[z] : w.stale(w.V[z]))); } else { Sub((const VV&)w.V[a], (const VV&)w.V[b], VV(z == a || z == b ? w.V[z] : w.stale(w.V[z]))); } },
              [&] { MV o(w.v[z]); for (size_t i = 0; i < o.size(); ++i) { o[i] = how == 0 ? p * w.v[a][i] + q * w.v[b][i] + r * w.v[z][i] : how == 1 ? w.v[a][i] + w.v[b][i] : w.v[a][i] - w.v[b][i]; } w.v[z] = o; }); }),
    OP("v + v", const int a = w.iv(); const int b = w.sized_v(a, (int)w.v[a].size()); const int o = w.iv(); const unsigned how = choose(5, "how"); const double x = pow2();
       w.step(N, T(Ref{kV, o}), [&] { switch (how) { case 0: w.V[o] = w.V[a] + w.V[b]; break; case 1: w.V[o] = w.V[a] - w.V[b]; break; case 2: w.V[o] = w.V[a] * x; break; case 3: w.V[o] = x * w.V[a]; break; default: w.V[o] = w.V[a] / x; } }, [&] { w.v[o] = zip(w.v[a], w.v[b], [&](double p, double q) { return how == 0 ? p + q : how == 1 ? p - q : how == 4 ? p / x : p * x; }); });),
    OP("v GetSubVector", const int a = w.iv(); const int o = w.other(a, NV); const auto k = w.sel((int)w.v[a].size()); const bool into = choose(2, "into"); w.step(N, T(Ref{kV, o}), [&] { if (into) { w.V[a].GetSubVector(k, w.stale(w.V[o])); } else { w.V[o] = w.V[a].GetSubVector(k); } }, [&] { MV n; for (int i : k) { n.push_back(w.v[a][(size_t)i]); } w.v[o] = n; });),
    OP("v queries", const int a = w.nonempty_v(); const int b = w.sized_v(a, (int)w.v[a].size()); w.read(N, [&] {
        const MV& x = w.v[a]; const MV& y = w.v[b]; double dot = 0, mn = 1e300, mx = 0, sq = 0; for (size_t i = 0; i < x.size(); ++i) { dot += x[i] * y[i]; sq += x[i] * x[i]; mn = std::min(mn, std::abs(x[i])); mx = std::max(mx, std::abs(x[i])); }
        std::string d = same(w.V[a].Mult(w.V[b]), dot); if (!d.empty()) { return "Mult " + d; }
        d = same(InnerProduct(w.V[a], w.V[b]), dot); if (!d.empty()) { return "InnerProduct " + d; }
        d = same(w.V[a] * w.V[b], dot); if (!d.empty()) { return "v * v " + d; }
        d = same(w.V[a].Sum(), sum(x)); if (!d.empty()) { return "Sum " + d; }
        d = same(Sum(w.V[a]), sum(x)); if (!d.empty()) { return "Sum " + d; }
        d = same(Max(w.V[a]), *std::max_element(x.begin(), x.end())); if (!d.empty()) { return "Max " + d; }
        d = same(Min(w.V[a]), *std::min_element(x.begin(), x.end())); if (!d.empty()) { return "Min " + d; }
        d = same(AbsMax(w.V[a]), mx); if (!d.empty()) { return "AbsMax " + d; }
        d = same(AbsMin(w.V[a]), mn); if (!d.empty()) { return "AbsMin " + d; }
        d = same(w.V[a].L2Norm(), std::sqrt(sq)); if (!d.empty()) { return "L2Norm " + d; }
        d = same(Mean(w.V[a]), sum(x) / (double)x.size()); if (!d.empty()) { return "Mean " + d; }
        if (!units() && (w.V[a] == w.V[b]) != (x == y)) { return std::string("== is wrong"); }
        return std::string(); });),
    // equality over what separates two values: a size, one entry by more than rounding, a NaN, an infinity
    OP("equality", const int a = w.iv(); const int u = (int)choose(NU, "U"); const int g = w.ig(); const MV x = w.v[a], z = w.u[u]; const MG m = w.g[g]; const unsigned how = choose(6, "how");
       const size_t at = x.empty() ? 0 : (size_t)choose((unsigned)x.size(), "at"), atz = z.empty() ? 0 : (size_t)choose((unsigned)z.size(), "atz"), atm = m.a.empty() ? 0 : (size_t)choose((unsigned)m.a.size(), "atm"); const double by = sim::chance(1, 3, "slightly") ? 1e-6 : 1.0; const bool left = choose(2, "left");
       w.read(N, [&] {
           const double odd = how == 4 ? std::nan("") : HUGE_VAL;
           MV y = x; MV q = z; MG n = m; bool ex = true, ez = true, em = true;
           if (how == 1) { if (!y.empty()) { y[at] += by; ex = false; } if (!q.empty()) { q[atz] += 1; ez = false; } if (!n.a.empty()) { n.a[atm] -= by; em = false; } }
           if (how == 2) { y.push_back(0); q.push_back(z.empty() ? 0 : z[0]); n = MG(m.r + 1, m.c, 0.0); for (int i = 0; i < m.r; ++i) { for (int j = 0; j < m.c; ++j) { n.at(i, j) = m.at(i, j); } } ex = ez = em = false; }
           if (how == 3) { if (!y.empty()) { y.pop_back(); ex = false; } if (!q.empty()) { q.pop_back(); ez = false; } n = MG(m.r, m.c + 1, 0.0); for (int i = 0; i < m.r; ++i) { for (int j = 0; j < m.c; ++j) { n.at(i, j) = m.at(i, j); } } em = false; }
           if (how >= 4) { if (!y.empty()) { y[at] = odd; ex = false; } if (!n.a.empty()) { n.a[atm] = odd; em = false; } }
           const Vector<double> Y(y); const std::vector<int> qi(q.begin(), q.end()); const Vector<int> Q(qi); const Vector<double> QD(q); DenseMatrix G(n.r, n.c); for (int i = 0; i < n.r; ++i) { for (int j = 0; j < n.c; ++j) { G(i, j) = n.at(i, j); } }
           const VectorView<double>& vx = w.V[a]; const VectorView<int>& vu = w.U[u];
           if ((left ? Y == vx : vx == Y) != ex) { return str("%s real vectors compare wrongly", ex ? "equal" : "different"); }
           if ((left ? Q == vu : vu == Q) != ez) { return str("%s integer vectors compare wrongly", ez ? "equal" : "different"); }
           if ((left ? QD == vu : vu == QD) != ez) { return str("%s mixed vectors compare wrongly", ez ? "equal" : "different"); }
           if ((left ? G == w.G[g] : w.G[g] == G) != em) { return str("%s dense matrices compare wrongly", em ? "equal" : "different"); }
           if (how == 5 && !y.empty()) { const Vector<double> same_y(y); if (!(Y == same_y)) { return std::string("vectors with the same infinity compare as different"); } y[at] = -odd; const Vector<double> minus(y); if (Y == minus) { return std::string("opposite infinities compare as equal"); } }
           return std::string(); });),
    // block and entry matrices
    OP("BM Combine", const int a = (int)choose(NBM, "BM"); const int o = w.is(); w.step(N, T(Ref{kS, o}), [&] { w.S[o] = w.BM[a].Combine(); }, [&] { w.s[o] = combine(w.bm[a]); });),
    OP("BM Transpose", const int a = (int)choose(NBM, "BM"); const int b = w.other(a, NBM); w.step(N, T(Ref{kBM, b}), [&] { w.BM[b] = w.BM[a].Transpose(); }, [&] { MBM t; t.ro = w.bm[a].co; t.co = w.bm[a].ro; t.b.assign(t.ro.size() - 1, std::vector<MS>(t.co.size() - 1));
       for (size_t i = 0; i + 1 < t.ro.size(); ++i) { for (size_t j = 0; j + 1 < t.co.size(); ++j) { const MS& x = w.bm[a].b[j][i]; if (x.r && x.c) { t.b[i][j] = transpose(x); } } } w.bm[b] = t; });),
    OP("BM SetBlock", const int a = (int)choose(NBM, "BM"); const int i = (int)choose((unsigned)w.bm[a].ro.size() - 1, "i"); const int j = (int)choose((unsigned)w.bm[a].co.size() - 1, "j");
       const MS n = draw_sparse(w.bm[a].ro[(size_t)i + 1] - w.bm[a].ro[(size_t)i], w.bm[a].co[(size_t)j + 1] - w.bm[a].co[(size_t)j]);
       if (n.r && n.c) { w.step(N, T(Ref{kBM, a}), [&] { w.BM[a].SetBlock(i, j, mk(n)); }, [&] { w.bm[a].b[(size_t)i][(size_t)j] = n; }); }),
    OP("BM Mult v", const int a = (int)choose(NBM, "BM"); const int x = w.sized_v(-1, w.bm[a].co.back()); const int y = w.other(x, NV); w.step(N, T(Ref{kV, y}), [&] { const Operator& A = w.BM[a]; A.Mult(w.V[x], w.stale(w.V[y])); }, [&] { w.v[y] = mul(dense(combine(w.bm[a])), w.v[x]); });),
    OP("BM MultAT v", const int a = (int)choose(NBM, "BM"); const int x = w.sized_v(-1, w.bm[a].ro.back()); const int y = w.other(x, NV); w.step(N, T(Ref{kV, y}), [&] { const Operator& A = w.BM[a]; A.MultAT(w.V[x], w.stale(w.V[y])); }, [&] { w.v[y] = mul(transpose(dense(combine(w.bm[a]))), w.v[x]); });),
    OP("BlockOperator over slots", const int a = w.nonempty_s(); const int b = w.sized_s(a, w.s[a].r, -1); const int x = w.sized_v(-1, w.s[a].c + w.s[b].c); const bool both = choose(2, "two rows"); const bool at = choose(2, "transposed");
       MS m((both ? 2 : 1) * w.s[a].r, w.s[a].c + w.s[b].c); for (int i = 0; i < w.s[a].r; ++i) { for (auto& p : w.s[a].row[(size_t)i]) { m.row[(size_t)i][p.first] = p.second; } for (auto& p : w.s[b].row[(size_t)i]) { m.row[(size_t)i][w.s[a].c + p.first] = p.second; if (both) { m.row[(size_t)(i + w.s[a].r)][w.s[a].c + p.first] = p.second; } } }
       const MV xt = vec(m.r); const int y = w.other(x, NV);
       w.step(N, T(Ref{kV, y}), [&] { std::vector<int> ro(1, 0); ro.push_back(w.S[a].Rows()); if (both) { ro.push_back(2 * w.S[a].Rows()); } std::vector<int> co(1, 0); co.push_back(w.S[a].Cols()); co.push_back(w.S[a].Cols() + w.S[b].Cols());
                BlockOperator bo(ro, co); bo.SetBlock(0, 0, w.S[a]); bo.SetBlock(0, 1, w.S[b]); if (both) { bo.SetBlock(1, 1, w.S[b]); } BlockOperator copy(bo); BlockOperator moved(std::move(copy)); const Operator& A = moved;
                if (at) { Vector<double> t(xt); w.V[y] = A.MultAT(t); } else { A.Mult(w.V[x], w.stale(w.V[y])); } },
              [&] { w.v[y] = at ? mul(transpose(dense(m)), xt) : mul(dense(m), w.v[x]); });),
    OP("BlockOperator by one list", const int a = w.square_s(); const int b = w.sized_s(a, w.s[a].r, w.s[a].c); const int n = w.s[a].r; const int x = w.sized_v(-1, 2 * n); const int y = w.other(x, NV); const bool at = choose(2, "transposed");
       MS m(2 * n, 2 * n); for (int i = 0; i < n; ++i) { for (auto& p : w.s[a].row[(size_t)i]) { m.row[(size_t)(n + i)][p.first] = p.second; } for (auto& p : w.s[b].row[(size_t)i]) { m.row[(size_t)(n + i)][n + p.first] = p.second; } }
       w.step(N, T(Ref{kV, y}), [&] { std::vector<int> o(1, 0); o.push_back(n); o.push_back(2 * n); BlockOperator bo(o); bo.SetBlock(1, 0, w.S[a]); bo.SetBlock(1, 1, w.S[b]); BlockOperator none; BlockOperator nothing(std::move(none)); BlockOperator moved(std::move(bo)); const Operator& A = moved; w.V[y].SetSize(2 * n);
                if (at) { A.MultAT(w.V[x], VV(w.stale(w.V[y]))); } else { A.Mult(w.V[x], VV(w.stale(w.V[y]))); } },
              [&] { w.v[y] = mul(at ? transpose(dense(m)) : dense(m), w.v[x]); });),
    OP("v Normalize", const int a = w.nonempty_v(); double sq = 0; for (double d : w.v[a]) { sq += d * d; } const bool member = choose(2, "member");
       if (sq > 0) { w.read(N, [&] { Vector<double> t(w.V[a]); VV view(t); if (member) { view.Normalize(); } else { Normalize(view); }
                for (size_t i = 0; i < w.v[a].size(); ++i) { if (std::abs(t[(int)i] * std::sqrt(sq) - w.v[a][i]) > 1e-12 * std::sqrt(sq)) { return str("entry %zu of a normalized vector is wrong", i); } } return std::string(); }); }),
    OP("Coo to S", const int a = (int)choose(NC, "C"); const int o = w.is(); w.step(N, T(Ref{kS, o}), [&] { w.S[o] = w.C[a].ToSparse(); }, [&] { w.s[o] = w.c[a].sparse(); });),
    OP("Lil to S", const int a = (int)choose(NL, "L"); const int o = w.is(); w.step(N, T(Ref{kS, o}), [&] { w.S[o] = w.L[a].ToSparse(); }, [&] { w.s[o] = w.l[a].sparse(); });),
    OP("Coo Mult v", const int a = (int)choose(NC, "C"); const bool at = choose(2, "transposed"); const int x = w.sized_v(-1, at ? w.c[a].rows() : w.c[a].cols()); const int y = w.other(x, NV); w.step(N, T(Ref{kV, y}), [&] { const Operator& A = w.C[a]; if (at) { A.MultAT(w.V[x], w.stale(w.V[y])); } else { A.Mult(w.V[x], w.stale(w.V[y])); } }, [&] { const MG g = dense(w.c[a].sparse()); w.v[y] = mul(at ? transpose(g) : g, w.v[x]); });),
    OP("Lil Mult v", const int a = (int)choose(NL, "L"); const bool at = choose(2, "transposed"); const int x = w.sized_v(-1, at ? w.l[a].rows() : w.l[a].cols()); const int y = w.other(x, NV); w.step(N, T(Ref{kV, y}), [&] { const Operator& A = w.L[a]; if (at) { A.MultAT(w.V[x], w.stale(w.V[y])); } else { A.Mult(w.V[x], w.stale(w.V[y])); } }, [&] { const MG g = dense(w.l[a].sparse()); w.v[y] = mul(at ? transpose(g) : g, w.v[x]); });),
    OP("Coo EliminateZeros", const int a = (int)choose(NC, "C"); const double tol = choose(2, "tolerance") ? 1.0 : 0.0; w.step(N, T(Ref{kC, a}), [&] { w.C[a].EliminateZeros(tol); }, [&] { auto& e = w.c[a].e; e.erase(std::remove_if(e.begin(), e.end(), [&](const std::tuple<int, int, double>& t) { return std::abs(std::get<2>(t)) <= tol; }), e.end()); });),
    OP("Lil EliminateZeros", const int a = (int)choose(NL, "L"); if (!w.l[a].sized) { const int r = w.l[a].rows(), c = w.l[a].cols(); w.l[a].sized = true; w.l[a].r = r; w.l[a].c = c; w.restore(Ref{kL, a}); } const double tol = choose(2, "tolerance") ? 1.0 : 0.0; w.step(N, T(Ref{kL, a}), [&] { w.L[a].EliminateZeros(tol); }, [&] { auto& e = w.l[a].e; e.erase(std::remove_if(e.begin(), e.end(), [&](const std::tuple<int, int, double>& t) { return std::abs(std::get<2>(t)) <= tol; }), e.end()); });),
    OP("Coo permute", const int a = (int)choose(NC, "C"); const int r = w.c[a].rows(), c = w.c[a].cols(); const auto p = w.perm(r); const auto q = w.perm(c); const unsigned how = choose(3, "how");
       w.c[a].sized = true; w.c[a].r = r; w.c[a].c = c; w.restore(Ref{kC, a});
       w.step(N, T(Ref{kC, a}), [&] { if (how == 0) { w.C[a].PermuteRows(p); } else if (how == 1) { w.C[a].PermuteCols(q); } else { w.C[a].PermuteRowsCols(p, q); } }, [&] { for (auto& t : w.c[a].e) { if (how != 1) { std::get<0>(t) = p[(size_t)std::get<0>(t)]; } if (how != 0) { std::get<1>(t) = q[(size_t)std::get<1>(t)]; } } });),
    OP("entry matrix SetSize", const int a = (int)choose(NC, "C"); const int r = w.c[a].rows() + (int)choose(3, "more"), c = w.c[a].cols() + (int)choose(3, "more"); w.step(N, T(Ref{kC, a}), [&] { w.C[a].SetSize(r, c); }, [&] { w.c[a].sized = true; w.c[a].r = r; w.c[a].c = c; });
       const int b = (int)choose(NL, "L"); const int r2 = w.l[b].rows() + (int)choose(3, "more"), c2 = w.l[b].cols() + (int)choose(3, "more"); w.step(N, T(Ref{kL, b}), [&] { w.L[b].SetSize(r2, c2); }, [&] { w.l[b].sized = true; w.l[b].r = r2; w.l[b].c = c2; });),
    // matrices and vectors of integers, and mixtures with double
    OP("I *= x", const int a = w.sized_i(-1, -1, -1); const double x = iunit() * (1 + (int)choose(3, "factor")); const bool dbl = choose(2, "double factor"); w.step(N, T(Ref{kI, a}), [&] { if (dbl) { w.I[a] *= x; } else { w.I[a] *= (int)x; } }, [&] { map(w.mi[a], [&](int, int, double d) { return d * x; }); });),
    OP("I = x", const int a = w.sized_i(-1, -1, -1); const int x = 1 + (int)choose(4, "value"); w.step(N, T(Ref{kI, a}), [&] { w.I[a] = x; }, [&] { map(w.mi[a], [&](int, int, double) { return (double)x; }); });),
    OP("I scaled", const int a = w.sized_i(-1, -1, -1); const bool rows = choose(2, "rows"); MV d = ivec(rows ? w.mi[a].r : w.mi[a].c); const bool inv = choose(2, "inverse"); if (inv) { for (double& x : d) { x = x < 0 ? -1.0 : 1.0; } } const bool m = choose(2, "by matrix");
       w.step(N, T(Ref{kI, a}), [&] { const std::vector<int> v = ints(d); const SparseMatrix<int> D(v);
                if (rows) { if (inv) { if (m) { w.I[a].InverseScaleRows(D); } else { w.I[a].InverseScaleRows(v); } } else { if (m) { w.I[a].ScaleRows(D); } else { w.I[a].ScaleRows(v); } } }
                else { if (inv) { if (m) { w.I[a].InverseScaleCols(D); } else { w.I[a].InverseScaleCols(v); } } else { if (m) { w.I[a].ScaleCols(D); } else { w.I[a].ScaleCols(v); } } } },
              [&] { map(w.mi[a], [&](int i, int j, double x) { return x * d[(size_t)(rows ? i : j)]; }); });),
    OP("I AddDiag", const int n = w.dim("size"); const int a = w.sized_i(-1, n, n); const MV d = ivec(n); const bool one = choose(2, "one value"); const double x = ival();
       w.step(N, T(Ref{kI, a}), [&] { if (one) { w.I[a].AddDiag((int)x); } else { w.I[a].AddDiag(ints(d)); } }, [&] { map(w.mi[a], [&](int i, int j, double y) { return i == j ? y + (one ? x : d[(size_t)i]) : y; }); });),
    OP("I PermuteCols", const int a = w.sized_i(-1, -1, -1); const auto p = w.perm(w.mi[a].c); w.step(N, T(Ref{kI, a}), [&] { w.I[a].PermuteCols(p); }, [&] { MS n(w.mi[a].r, w.mi[a].c); for (int i = 0; i < n.r; ++i) { for (auto& q : w.mi[a].row[(size_t)i]) { n.row[(size_t)i][p[(size_t)q.first]] = q.second; } } w.mi[a] = n; });),
    OP("I EliminateZeros", const int a = w.sized_i(-1, -1, -1); const int tol = (int)choose(3, "tolerance"); w.step(N, T(Ref{kI, a}), [&] { w.I[a].EliminateZeros(tol); }, [&] { for (auto& r : w.mi[a].row) { for (auto it = r.begin(); it != r.end();) { if (std::abs(it->second) > tol) { ++it; } else { it = r.erase(it); } } } });),
    OP("I EliminateRowCol marked", const int n = w.dim("size"); const int a = w.sized_i(-1, n, n); std::vector<char> m; const Vector<int> mk_ = w.marks(n, m); w.step(N, T(Ref{kI, a}), [&] { w.I[a].EliminateRowCol(mk_); }, [&] { map(w.mi[a], [&](int i, int j, double x) { return m[(size_t)i] || m[(size_t)j] ? (i == j ? 1.0 : 0.0) : x; }); });),
    OP("I SortIndices", const int a = w.sized_i(-1, -1, -1); w.step(N, T(Ref{kI, a}), [&] { w.I[a].SortIndices(); }, [] {});
       for (int i = 0; !w.rounded && i < w.I[a].Rows(); ++i) { const auto idx = w.I[a].GetIndices(i); if (!std::is_sorted(idx.begin(), idx.end())) { violation("wrong-result", "SortIndices left row %d unsorted", i); } }),
    OP("I Transpose", const int a = w.sized_i(-1, -1, -1); const int b = w.other(a, NI); w.step(N, T(Ref{kI, b}), [&] { w.I[b] = w.I[a].Transpose(); }, [&] { w.mi[b] = transpose(w.mi[a]); });),
    OP("I Transpose to double", const int a = w.sized_i(-1, -1, -1); const int o = w.is(); w.step(N, T(Ref{kS, o}), [&] { w.S[o] = w.I[a].Transpose<double>(); }, [&] { w.s[o] = transpose(w.mi[a]); });),
    OP("I Mult I", const int a = w.sized_i(-1, -1, -1); const int b = w.sized_i(a, w.mi[a].c, -1); const int o = (int)choose(NI, "I"); const bool mark = choose(2, "marker"); w.step(N, T(Ref{kI, o}), [&] { if (mark) { w.I[o] = w.I[a].Mult(w.I[b], w.marker); } else { w.I[o] = w.I[a].Mult(w.I[b]); } }, [&] { w.mi[o] = mul(w.mi[a], w.mi[b]); });),
    OP("I Mult S", const int a = w.sized_i(-1, -1, -1); const int b = w.sized_s(-1, w.mi[a].c, -1); const int o = w.is(); const bool mark = choose(2, "marker"); w.step(N, T(Ref{kS, o}), [&] { if (mark) { w.S[o] = w.I[a].Mult(w.S[b], w.marker); } else { w.S[o] = w.I[a].Mult(w.S[b]); } }, [&] { w.s[o] = mul(w.mi[a], w.s[b]); });),
    OP("S Mult I", const int a = w.is(); const int b = w.sized_i(-1, w.s[a].c, -1); const int o = w.is(); const bool mark = choose(2, "marker"); w.step(N, T(Ref{kS, o}), [&] { if (mark) { w.S[o] = w.S[a].Mult(w.I[b], w.marker); } else { w.S[o] = w.S[a].Mult(w.I[b]); } }, [&] { w.s[o] = mul(w.s[a], w.mi[b]); });),
    OP("I GetSubMatrix", const int a = w.sized_i(-1, -1, -1); const int o = (int)choose(NI, "I"); const auto r = w.sel_repeats(w.mi[a].r); const auto c = w.sel(w.mi[a].c); const bool mine = choose(2, "own marker");
       w.step(N, T(Ref{kI, o}), [&] { if (mine) { if (w.submarker.size() < (size_t)w.I[a].Cols()) { w.submarker.resize((size_t)w.I[a].Cols(), -1); } w.I[o] = w.I[a].GetSubMatrix(r, c, w.submarker); } else { w.I[o] = w.I[a].GetSubMatrix(r, c); } },
              [&] { MS n((int)r.size(), (int)c.size()); for (size_t i = 0; i < r.size(); ++i) { for (size_t j = 0; j < c.size(); ++j) { auto it = w.mi[a].row[(size_t)r[i]].find(c[j]); if (it != w.mi[a].row[(size_t)r[i]].end()) { n.row[i][(int)j] = it->second; } } } w.mi[o] = n; });),
    OP("I ToDense", const int a = w.sized_i(-1, -1, -1); const int o = w.ig(); const unsigned how = choose(4, "how"); w.step(N, T(Ref{kG, o}), [&] { if (how == 0) { w.I[a].ToDense(w.stale(w.G[o])); } else if (how == 1) { w.G[o] = w.I[a].ToDense(); } else if (how == 2) { w.I[a].TransposeDense(w.stale(w.G[o])); } else { w.G[o] = w.I[a].TransposeDense(); } }, [&] { w.g[o] = how < 2 ? dense(w.mi[a]) : transpose(dense(w.mi[a])); });),
    OP("I Mult G", const int a = w.sized_i(-1, -1, -1); const unsigned how = choose(3, "how"); const int b = w.sized_g(-1, how == 1 ? w.mi[a].r : w.mi[a].c, -1); const int o = w.other(b, NG); const bool into = choose(2, "into");
       w.step(N, T(Ref{kG, o}), [&] { if (how == 0) { if (into) { w.I[a].Mult(w.G[b], w.stale(w.G[o])); } else { w.G[o] = w.I[a].Mult(w.G[b]); } } else if (how == 1) { if (into) { w.I[a].MultAT(w.G[b], w.stale(w.G[o])); } else { w.G[o] = w.I[a].MultAT(w.G[b]); } } else { if (into) { w.I[a].MultCT(w.G[b], w.stale(w.G[o])); } else { w.G[o] = w.I[a].MultCT(w.G[b]); } } },
              [&] { const MG d = dense(w.mi[a]); w.g[o] = how == 0 ? mul(d, w.g[b]) : how == 1 ? mul(transpose(d), w.g[b]) : transpose(mul(d, w.g[b])); });),
    OP("I Mult v", const int a = w.sized_i(-1, -1, -1); const bool at = choose(2, "transposed"); const int x = w.sized_v(-1, at ? w.mi[a].r : w.mi[a].c); const int y = w.other(x, NV); w.step(N, T(Ref{kV, y}), [&] { const Operator& A = w.I[a]; if (at) { A.MultAT(w.V[x], w.stale(w.V[y])); } else { A.Mult(w.V[x], w.stale(w.V[y])); } }, [&] { const MG d = dense(w.mi[a]); w.v[y] = mul(at ? transpose(d) : d, w.v[x]); });),
    OP("I Mult u", const int a = w.sized_i(-1, -1, -1); const bool at = choose(2, "transposed"); const int x = w.sized_u(-1, at ? w.mi[a].r : w.mi[a].c); const int y = w.other(x, NU); w.step(N, T(Ref{kU, y}), [&] { if (at) { w.U[y] = w.I[a].MultAT((const VectorView<int>&)w.U[x]); } else { w.U[y] = w.I[a].Mult((const VectorView<int>&)w.U[x]); } }, [&] { const MG d = dense(w.mi[a]); w.u[y] = mul(at ? transpose(d) : d, w.u[x]); });),
    OP("S Mult u", const int a = w.is(); const bool at = choose(2, "transposed"); const int x = w.sized_u(-1, at ? w.s[a].r : w.s[a].c); const int y = w.iv(); w.step(N, T(Ref{kV, y}), [&] { if (at) { w.V[y] = w.S[a].MultAT<int>(w.U[x]); } else { w.V[y] = w.S[a].Mult<int>(w.U[x]); } }, [&] { const MG d = dense(w.s[a]); w.v[y] = mul(at ? transpose(d) : d, w.u[x]); });),
    OP("I queries", const int a = w.sized_i(-1, -1, -1); w.read(N, [&] {
        const MS& m = w.mi[a]; double t = 0, n = 0; for (auto& r : m.row) { for (auto& p : r) { t += p.second; n += std::abs(p.second); } }
        std::string d = same(w.I[a].Sum(), t); if (!d.empty()) { return "Sum " + d; }
        d = same(w.I[a].MaxNorm(), n); if (!d.empty()) { return "MaxNorm " + d; }
        for (int i = 0; i < m.r; ++i)
        {
            const SparseMatrix<int>& ci = w.I[a]; const VectorView<int>& cv = ci.GetIndicesView(i); const VectorView<int> mv = w.I[a].GetIndicesView(i); const auto dat = ci.GetData(i); const int len = (int)m.row[(size_t)i].size();
            if (ci.RowSize(i) != len || cv.size() != len || mv.size() != len || (int)dat.size() != len || mv.begin() != cv.begin()) { return str("row %d has the wrong length", i); }
            for (int k = 0; k < len; ++k) { if (!m.row[(size_t)i].count(cv[k]) || m.row[(size_t)i].at(cv[k]) != dat[(size_t)k]) { return str("row %d differs", i); } }
        }
        if (m.r == m.c) { const auto g = w.I[a].GetDiag(); for (int i = 0; i < m.r; ++i) { if (g[(size_t)i] != m.get(i, i)) { return str("GetDiag %d ", i); } } }
        return std::string(); });),
    OP("u op= u", const int a = w.sized_u(-1, w.dim("size")); const int b = choose(3, "self") ? w.sized_u(a, (int)w.u[a].size()) : a; const unsigned how = choose(6, "how");
       w.step(N, T(Ref{kU, a}), [&] { switch (how) { case 0: w.U[a] += w.U[b]; break; case 1: w.U[a] -= w.U[b]; break; case 2: w.U[a] *= w.U[b]; break; case 3: w.U[a].Add(w.U[b]); break; case 4: w.U[a].Sub(w.U[b]); break; default: w.U[a].Set(w.U[b]); } }, [&] { w.u[a] = zip(w.u[a], w.u[b], [&](double x, double y) { return how == 0 || how == 3 ? x + y : how == 1 || how == 4 ? x - y : how == 2 ? x * y : y; }); });),
    OP("v += u", const int a = w.iv(); const int b = w.sized_u(-1, (int)w.v[a].size()); w.step(N, T(Ref{kV, a}), [&] { VV to(w.V[a]); const VectorView<int>& from = w.U[b]; to += from; }, [&] { w.v[a] = zip(w.v[a], w.u[b], [](double x, double y) { return x + y; }); });),
    OP("u op= x", const int a = (int)choose(NU, "U"); const int x = 1 + (int)choose(3, "value"); const unsigned how = choose(4, "how"); w.step(N, T(Ref{kU, a}), [&] { if (how == 0) { w.U[a] += x; } else if (how == 1) { w.U[a] -= x; } else if (how == 2) { w.U[a] *= x; } else { w.U[a] = x; } }, [&] { for (double& d : w.u[a]) { d = how == 0 ? d + x : how == 1 ? d - x : how == 2 ? d * x : x; } });),
    OP("u + u", const int a = (int)choose(NU, "U"); const int b = w.sized_u(a, (int)w.u[a].size()); const int o = (int)choose(NU, "U"); const unsigned how = choose(4, "how"); const int x = 1 + (int)choose(3, "value");
       w.step(N, T(Ref{kU, o}), [&] { switch (how) { case 0: w.U[o] = w.U[a] + w.U[b]; break; case 1: w.U[o] = w.U[a] - w.U[b]; break; case 2: w.U[o] = w.U[a] * x; break; default: w.U[o] = x * w.U[a]; } }, [&] { w.u[o] = zip(w.u[a], w.u[b], [&](double p, double q) { return how == 0 ? p + q : how == 1 ? p - q : p * x; }); });),
    OP("u scaled Add", const int a = (int)choose(NU, "U"); const int b = choose(3, "self") ? w.sized_u(a, (int)w.u[a].size()) : a; const int x = (int)choose(7, "value") - 3; const unsigned how = choose(3, "how");
       w.step(N, T(Ref{kU, a}), [&] { if (how == 0) { w.U[a].Add(x, w.U[b]); } else if (how == 1) { w.U[a].Sub(x, w.U[b]); } else { w.U[a].Set(x, w.U[b]); } }, [&] { w.u[a] = zip(w.u[a], w.u[b], [&](double p, double q) { return how == 0 ? p + x * q : how == 1 ? p - x * q : x * q; }); });),
    OP("views of integers", const int a = (int)choose(NU, "U"); const int b = w.sized_u(a, (int)w.u[a].size()); const unsigned how = choose(3, "how");
       w.step(N, T(Ref{kU, a}), [&] { VectorView<int> to(w.U[a]); if (how == 0) { VectorView<int> from(w.U[b]); to = from; } else if (how == 1) { to = VectorView<int>(w.U[b]); } else { std::vector<int> keep(w.U[b].begin(), w.U[b].end()); VectorView<int> from(keep); to = from; } }, [&] { w.u[a] = w.u[b]; });),
    OP("u GetSubVector", const int a = (int)choose(NU, "U"); const int o = w.other(a, NU); const auto k = w.sel_repeats((int)w.u[a].size()); const bool into = choose(2, "into"); w.step(N, T(Ref{kU, o}), [&] { if (into) { w.U[a].GetSubVector(k, w.U[o]); } else { w.U[o] = w.U[a].GetSubVector(k); } }, [&] { MV n; for (int i : k) { n.push_back(w.u[a][(size_t)i]); } w.u[o] = n; });),
    OP("u queries", const int a = (int)choose(NU, "U"); if (!w.u[a].empty()) { const int b = w.sized_u(a, (int)w.u[a].size()); w.read(N, [&] {
        const MV& x = w.u[a]; const MV& y = w.u[b]; double dot = 0, mn = 1e300, mx = 0; for (size_t i = 0; i < x.size(); ++i) { dot += x[i] * y[i]; mn = std::min(mn, std::abs(x[i])); mx = std::max(mx, std::abs(x[i])); }
        std::string d = same(w.U[a].Mult(w.U[b]), dot); if (!d.empty()) { return "Mult " + d; }
        d = same(w.U[a].Sum(), sum(x)); if (!d.empty()) { return "Sum " + d; }
        d = same(Max(w.U[a]), *std::max_element(x.begin(), x.end())); if (!d.empty()) { return "Max " + d; }
        d = same(Min(w.U[a]), *std::min_element(x.begin(), x.end())); if (!d.empty()) { return "Min " + d; }
        d = same(AbsMax(w.U[a]), mx); if (!d.empty()) { return "AbsMax " + d; }
        d = same(AbsMin(w.U[a]), mn); if (!d.empty()) { return "AbsMin " + d; }
        if ((w.U[a] == w.U[b]) != (x == y)) { return std::string("== is wrong"); }
        return std::string(); }); }),
};

void setup(W& w)
{
    const unsigned size = sim::weighted({192, 8, 5, 2}, "big");
    const unsigned nd = size == 3 ? 0 : 1 + choose(3, "dims");
    w.wide = size == 3;
    if (w.wide) { w.dims = {sim::extent(150, 550, "large dim"), 1 + (int)choose(4, "dim"), (int)choose(6, "dim")}; }
    for (unsigned i = 0; i < nd; ++i) { w.dims.push_back(size == 2 ? sim::extent(48, 147, "dim") : size ? 8 + (int)choose(40, "dim") : (int)choose(6, "dim")); }
    w.faults = choose(3, "faults") != 0;
    g_unit = g_other_unit = 1.0;
    if (choose(6, "other units") == 5) { g_other_unit = std::ldexp(1.0, (int[]) {-50, -90, 60, -20}[choose(4, "power")]); }
    for (Ref t : W::all()) { w.fresh(t); }
}

template <size_t N>
void step_from(W& w, const Op (&ops)[N], const std::vector<unsigned>& only)
{
    const unsigned k = only.empty() ? choose((unsigned)N, "operation") : only[choose((unsigned)only.size(), "operation of the few")];
    sim::state(k);
    ops[k].fn(w, ops[k].name);
}

void history(bool algebra)
{
    Exempt exempt;
    const uint64_t live0 = sim::alloc::live();
    {
        std::unique_ptr<W> w(new W);
        setup(*w);
        // Many histories use a few operations only, over and over: what one leaves behind meets the same one again.
        std::vector<unsigned> few_a, few_v;
        if (w->wide) { sim::count("probe.wide_history"); }
        if (choose(2, "a few operations only"))
        {
            for (unsigned i = 0, k = 1 + choose(6, "algebra operations"); i < k; ++i) { few_a.push_back(choose((unsigned)(sizeof(ALGEBRA) / sizeof(ALGEBRA[0])), "one of them")); }
            for (unsigned i = 0, k = 1 + choose(6, "value operations"); i < k; ++i) { few_v.push_back(choose((unsigned)(sizeof(VALUE) / sizeof(VALUE[0])), "one of them")); }
        }
        const unsigned n = 2 + choose(w->wide ? 8 : few_a.empty() ? 24 : 40, "steps");
        sim::nontrivial();
        for (unsigned i = 0; i < n; ++i)
        {
            const unsigned mixed = choose(4, "kind");
            if ((mixed == 3) != algebra) { step_from(*w, ALGEBRA, few_a); } else { step_from(*w, VALUE, few_v); }
        }
        w->last = true;
        w->check_all("the last step", "wrong-result", "");
    }
    if (sim::alloc::live() != live0) { violation("leak", "objects of a finished history leaked"); }
}
void value_history() { history(false); }
void algebra_history() { history(true); }

// ---- P07: assembly -------------------------------------------------------------
struct Batch
{
    unsigned form;
    std::vector<int> rows, cols;
    MG d;
    MV x;
    double scale;
    int worker;
    ME effect() const
    {
        ME m;
        switch (form)
        {
        case 0: m.e.emplace_back(rows[0], cols[0], x[0]); break;
        case 1: m.e.emplace_back(rows[0], cols[0], x[0]); if (rows[0] != cols[0]) { m.e.emplace_back(cols[0], rows[0], x[0]); } break;
        case 2: case 3: case 4: case 5:
            for (size_t j = 0; j < cols.size(); ++j) { for (size_t i = 0; i < rows.size(); ++i) { m.e.emplace_back(rows[i], cols[j], (form >= 4 ? scale : 1.0) * d.at((int)i, (int)j)); } }
            break;
        case 6: case 7: for (size_t i = 0; i < rows.size(); ++i) { m.e.emplace_back(rows[i], cols[0], (form == 7 ? scale : 1.0) * x[i]); } break;
        case 8: case 9: for (size_t j = 0; j < cols.size(); ++j) { m.e.emplace_back(rows[0], cols[j], (form == 9 ? scale : 1.0) * x[j]); } break;
        case 10: case 11: for (size_t i = 0; i < rows.size(); ++i) { m.e.emplace_back(rows[i], cols[i], (form == 11 ? scale : 1.0) * x[i]); } break;
        }
        return m;
    }
};
enum { FORMS = 12 };

Batch draw_batch(int n, int m)
{
    Batch b;
    b.form = choose(FORMS, "form");
    b.scale = pow2();
    const bool square = b.form == 1 || b.form == 2 || b.form == 4;
    const int cap = std::min(n, m);
    auto list = [&](int dim, int len) { std::vector<int> v; for (int i = 0; i < len; ++i) { v.push_back((int)small((unsigned)dim, "index")); } return v; };
    const bool wide = n > 7 && m > 7 && choose(6, "wide") == 5;
    Bulk bulk(wide);
    const int len = 1 + (int)small(wide ? 40 : 4, "length");
    b.rows = list(square ? cap : n, b.form <= 1 || b.form == 8 || b.form == 9 ? 1 : len);
    if (b.form == 1) { b.cols = list(cap, 1); }
    else if (square) { b.cols = b.rows; }
    else if (b.form == 0 || b.form == 6 || b.form == 7) { b.cols = list(m, 1); }
    else if (b.form == 10 || b.form == 11) { b.cols = list(m, len); }
    else { b.cols = list(m, 1 + (int)small(wide ? 40 : 4, "length")); }
    b.d = MG((int)b.rows.size(), (int)b.cols.size());
    for (double& y : b.d.a) { y = val(); }
    b.x = vec((int)std::max(b.rows.size(), b.cols.size()));
    if (b.form == 6 || b.form == 7 || b.form == 10 || b.form == 11) { b.x.resize(b.rows.size()); }
    if (b.form == 8 || b.form == 9) { b.x.resize(b.cols.size()); }
    return b;
}

void apply(CooMatrix<double>& c, const Batch& b)
{
    switch (b.form)
    {
    case 0: c.Add(b.rows[0], b.cols[0], b.x[0]); break;
    case 1: c.AddSym(b.rows[0], b.cols[0], b.x[0]); break;
    case 2: c.Add(b.rows, mk(b.d)); break;
    case 3: c.Add(b.rows, b.cols, mk(b.d)); break;
    case 4: c.Add(b.rows, b.scale, mk(b.d)); break;
    case 5: c.Add(b.rows, b.cols, b.scale, mk(b.d)); break;
    case 6: { Vector<double> x(b.x); c.Add(b.rows, b.cols[0], (const VV&)x); break; }
    case 7: { Vector<double> x(b.x); c.Add(b.rows, b.cols[0], b.scale, (const VV&)x); break; }
    case 8: { Vector<double> x(b.x); c.Add(b.rows[0], b.cols, (const VV&)x); break; }
    case 9: { Vector<double> x(b.x); c.Add(b.rows[0], b.cols, b.scale, (const VV&)x); break; }
    case 10: c.Add(b.rows, b.cols, b.x); break;
    case 11: c.Add(b.rows, b.cols, b.scale, b.x); break;
    }
}
void apply(LilMatrix<double>& l, const Batch& b)
{
    switch (b.form)
    {
    case 0: l.Add(b.rows[0], b.cols[0], b.x[0]); break;
    case 1: l.AddSym(b.rows[0], b.cols[0], b.x[0]); break;
    case 2: l.Add(b.rows, mk(b.d)); break;
    case 3: l.Add(b.rows, b.cols, mk(b.d)); break;
    default: { const ME m = b.effect(); for (auto& t : m.e) { l.Add(std::get<0>(t), std::get<1>(t), std::get<2>(t)); } }
    }
}

struct Assembler                       // the process that collects contributions
{
    CooMatrix<double> coo;
    LilMatrix<double> lil;
    CooMatrix<int> icoo;
    LilMatrix<int> ilil;
    DenseMatrix dense_;
};

void apply(Assembler& a, const Batch& b, bool sized)
{
    apply(a.coo, b);
    apply(a.lil, b);
    const ME m = b.effect();
    for (auto& t : m.e)
    {
        a.icoo.Add(std::get<0>(t), std::get<1>(t), (int)(std::get<2>(t) * 16.0 / g_unit));
        a.ilil.Add(std::get<0>(t), std::get<1>(t), (int)(std::get<2>(t) * 16.0 / g_unit));
    }
    if (sized && b.form >= 2 && b.form <= 5)
    {
        // element by element through AddSubMatrix, as a dense consumer would
        std::vector<int> cols(b.cols);
        DenseMatrix d = mk(b.d);
        if (b.form >= 4) { d *= b.scale; }
        a.dense_.AddSubMatrix(b.rows, cols, d);
    }
    else if (sized) { for (auto& t : m.e) { a.dense_(std::get<0>(t), std::get<1>(t)) += std::get<2>(t); } }
}

void check_assembly(const Assembler& a, const ME& m, bool sized, const char* when)
{
    std::string d;
    Out o = attempt([&] { d = diff(a.coo, m); });
    if (o.threw) { violation("refused", "CooMatrix cannot be read %s: %s", when, o.what.c_str()); }
    if (!d.empty()) { violation("wrong-matrix", "%s, CooMatrix %s", when, d.c_str()); }
    o = attempt([&] { d = diff(a.lil, m); });
    if (o.threw) { violation("refused", "LilMatrix cannot be read %s: %s", when, o.what.c_str()); }
    if (!d.empty()) { violation("wrong-matrix", "%s, LilMatrix %s", when, d.c_str()); }
    ME im = m;
    for (auto& t : im.e) { std::get<2>(t) = (double)(int)(std::get<2>(t) * 16.0 / g_unit); }
    o = attempt([&] { d = diff(a.icoo.ToSparse(), im.sparse()); if (d.empty()) { d = diff(a.icoo.ToSparse<double>(), im.sparse()); } if (d.empty()) { d = diff(a.ilil.ToSparse(), im.sparse()); } if (d.empty()) { d = diff(a.ilil.ToSparse<double>(), im.sparse()); } });
    if (o.threw) { violation("refused", "a matrix of integers cannot be read %s: %s", when, o.what.c_str()); }
    if (!d.empty()) { violation("wrong-matrix", "%s, the matrix of integers %s", when, d.c_str()); }
    if (sized) { d = diff(a.dense_, dense(m.sparse())); if (!d.empty()) { violation("wrong-matrix", "%s, DenseMatrix %s", when, d.c_str()); } }
    if (choose(3, "product") == 0)
    {
        const bool at = choose(2, "transposed");
        const MV x = vec(at ? m.rows() : m.cols());
        const MG g = dense(m.sparse());
        const MV want = mul(at ? transpose(g) : g, x);
        o = attempt([&] { Vector<double> v(x); const Operator* ops[] = {&a.coo, &a.lil}; for (auto* A : ops) { d = diff(at ? A->MultAT(v) : A->Mult(v), want); if (!d.empty()) { break; } } });
        if (o.threw) { violation("refused", "an assembled matrix cannot be applied %s: %s", when, o.what.c_str()); }
        if (!d.empty()) { violation("wrong-matrix", "%s, the product with an assembled matrix %s", when, d.c_str()); }
    }
}

void assembly()
{
    Exempt exempt;
    const uint64_t live0 = sim::alloc::live();
    {
        const bool big = choose(20, "big") == 19;
        const int n = 1 + (int)choose(big ? 60 : 6, "rows");
        const int m = 1 + (int)choose(big ? 60 : 6, "cols");
        const bool sized = choose(2, "sized");
        if (choose(6, "other units") == 5) { g_unit = std::ldexp(1.0, (int[]) {-50, -90, 60, -20}[choose(4, "power")]); }
        const unsigned workers = 1 + choose(4, "workers");
        std::vector<Batch> todo;
        for (unsigned w = 0; w < workers; ++w)
        {
            const unsigned k = choose(6, "batches");
            for (unsigned i = 0; i < k; ++i) { todo.push_back(draw_batch(n, m)); todo.back().worker = (int)w; }
        }
        auto start = [&]
        {
            std::unique_ptr<Assembler> a(new Assembler);
            Out o = attempt([&]
            {
                if (sized)
                {
                    if (n == m) { a->coo = CooMatrix<double>(n); a->lil = LilMatrix<double>(n); }
                    else { a->coo = CooMatrix<double>(n, m); a->lil = LilMatrix<double>(n, m); }
                    a->icoo = CooMatrix<int>(n, m);
                    a->ilil = LilMatrix<int>(n, m);
                    a->dense_ = DenseMatrix(n, m);
                    a->dense_ = 0.0;
                }
            });
            if (o.threw) { violation("refused", "an empty assembly cannot be created: %s", o.what.c_str()); }
            return a;
        };
        std::unique_ptr<Assembler> live = start();
        std::unique_ptr<Assembler> durable = start();    // the last checkpoint
        std::vector<char> done(todo.size(), 0), saved(todo.size(), 0);
        bool live_sized = sized, durable_sized = sized;
        auto model = [&](const std::vector<char>& in, bool sz) { ME e; e.sized = sz; e.r = sz ? n : 0; e.c = sz ? m : 0; for (size_t i = 0; i < todo.size(); ++i) { if (in[i]) { const ME x = todo[i].effect(); e.e.insert(e.e.end(), x.e.begin(), x.e.end()); } } return e; };
        auto recover = [&]
        {
            live.reset();
            live.reset(new Assembler);
            Out o = attempt([&] { live->coo = durable->coo; live->lil = durable->lil; live->icoo = durable->icoo; live->ilil = durable->ilil; live->dense_ = durable->dense_; });
            if (o.threw) { violation("refused", "a checkpoint cannot be restored: %s", o.what.c_str()); }
            done = saved;
            live_sized = durable_sized;
        };
        unsigned guard = 0;
        for (;;)
        {
            std::vector<size_t> pending;
            for (size_t i = 0; i < todo.size(); ++i) { if (!done[i]) { pending.push_back(i); } }
            if (pending.empty() && choose(3, "finish") != 2) { break; }
            const bool quiet = ++guard > 60;                  // faults stop, progress must follow
            sim::steps(1);
            const unsigned what = quiet ? 0 : sim::weighted({12, 2, 2, 2, 2, 2, 1}, "event");
            if (what == 0 || (what == 5 && pending.empty()))
            {
                if (pending.empty()) { if (quiet) { break; } continue; }
                const size_t i = pending[choose((unsigned)pending.size(), "next message")];
                sim::event("batch %zu of worker %d (form %u) arrives", i, todo[i].worker, todo[i].form);
                Out o = attempt([&] { apply(*live, todo[i], sized); });
                if (o.threw) { violation("refused", "contribution refused: %s", o.what.c_str()); }
                done[i] = 1;
                sim::nontrivial();
                sim::state(((uint64_t)i << 8) | todo[i].form);
            }
            else if (what == 1)
            {
                sim::event("checkpoint");
                sim::count("fault.checkpoint");
                const unsigned how = choose(3, "how");
                Out o = attempt([&]
                {
                    if (how == 0) { durable->coo = live->coo; durable->lil = live->lil; durable->icoo = live->icoo; durable->ilil = live->ilil; durable->dense_ = live->dense_; }
                    else if (how == 1)
                    {
                        CooMatrix<double> c(live->coo); LilMatrix<double> l(live->lil); CooMatrix<int> ic(live->icoo); LilMatrix<int> il(live->ilil); DenseMatrix d(live->dense_);
                        swap(durable->coo, c); swap(durable->lil, l); swap(durable->icoo, ic); swap(durable->ilil, il); swap(durable->dense_, d);
                    }
                    else
                    {
                        CooMatrix<double> c(std::move(live->coo)); LilMatrix<double> l(std::move(live->lil)); CooMatrix<int> ic(std::move(live->icoo)); LilMatrix<int> il(std::move(live->ilil)); DenseMatrix d(std::move(live->dense_));
                        live->coo = c; live->lil = l; live->icoo = ic; live->ilil = il; live->dense_ = d;
                        durable->coo = std::move(c); durable->lil = std::move(l); durable->icoo = std::move(ic); durable->ilil = std::move(il); durable->dense_ = std::move(d);
                    }
                });
                if (o.threw) { violation("refused", "checkpoint failed: %s", o.what.c_str()); }
                saved = done;
                durable_sized = live_sized;
            }
            else if (what == 2)
            {
                sim::event("the assembler crashes and restarts from its checkpoint");
                sim::count("fault.crash_restart");
                recover();
            }
            else if (what == 3)
            {
                check_assembly(*live, model(done, live_sized), sized, "while assembling");
            }
            else if (what == 4 && !live_sized)
            {
                sim::event("the size becomes known");
                Out o = attempt([&] { live->coo.SetSize(n, m); live->lil.SetSize(n, m); live->icoo.SetSize(n, m); live->ilil.SetSize(n, m); });
                if (o.threw) { violation("refused", "SetSize failed: %s", o.what.c_str()); }
                live_sized = true;
                sim::state("setsize");
            }
            else if (what == 5)
            {
                const size_t i = pending[choose((unsigned)pending.size(), "next message")];
                const unsigned at = choose(10, "fail at");
                sim::alloc::arm(at, choose(2, "sticky"));
                Out o = attempt([&] { apply(*live, todo[i], sized); });
                const bool fired = sim::alloc::fired();
                sim::alloc::disarm();
                if (o.threw && !fired) { violation("refused", "contribution refused: %s", o.what.c_str()); }
                if (fired) { }
                sim::event("batch %zu arrives, %s", i, o.threw ? "memory runs out; restart from the checkpoint" : "applied");
                if (o.threw)
                {
                    // Partly applied, but still a matrix: it must be readable before it is thrown away.
                    Out r = attempt([&] { live->coo.ToSparse(); live->lil.ToSparse(); live->coo.ToDense(); live->lil.ToDense(); });
                    if (r.threw) { violation("broken-object", "an interrupted assembly cannot be read: %s", r.what.c_str()); }
                    recover();
                }
                else { done[i] = 1; }
            }
            else if (what == 6)
            {
                sim::event("capacity reserved");
                Out o = attempt([&] { live->coo.Reserve(1 + (int)todo.size() * 4); });
                if (o.threw) { violation("refused", "Reserve failed: %s", o.what.c_str()); }
            }
        }
        const ME all = model(done, live_sized);
        check_assembly(*live, all, sized, "at the end");
        check_assembly(*durable, model(saved, durable_sized), sized, "at the last checkpoint");
        // The finished matrices can be cleaned up and reordered.
        const unsigned post = choose(4, "post-processing");
        if (post == 1)
        {
            ME z = all;
            z.sized = true; z.r = all.rows(); z.c = all.cols();
            const double tol = choose(2, "tolerance") ? 0.75 : 0.0;
            z.e.erase(std::remove_if(z.e.begin(), z.e.end(), [&](const std::tuple<int, int, double>& t) { return std::abs(std::get<2>(t)) <= tol; }), z.e.end());
            std::string d;
            Out o = attempt([&] { live->coo.SetSize(z.r, z.c); live->lil.SetSize(z.r, z.c); live->coo.EliminateZeros(tol); live->lil.EliminateZeros(tol); d = diff(live->coo, z); if (d.empty()) { d = diff(live->lil, z); } });
            if (o.threw) { violation("refused", "EliminateZeros failed: %s", o.what.c_str()); }
            if (!d.empty()) { violation("wrong-matrix", "after EliminateZeros the matrix %s", d.c_str()); }
        }
        else if (post == 2)
        {
            W w;
            const auto p = w.perm(all.rows());
            const auto q = w.perm(all.cols());
            ME z = all;
            z.sized = true; z.r = all.rows(); z.c = all.cols();
            for (auto& t : z.e) { std::get<0>(t) = p[(size_t)std::get<0>(t)]; std::get<1>(t) = q[(size_t)std::get<1>(t)]; }
            std::string d;
            const bool once = choose(2, "together");
            Out o = attempt([&] { live->coo.SetSize(z.r, z.c); if (once) { live->coo.PermuteRowsCols(p, q); } else { live->coo.PermuteRows(p); live->coo.PermuteCols(q); } d = diff(live->coo, z); });
            if (o.threw) { violation("refused", "permuting failed: %s", o.what.c_str()); }
            if (!d.empty()) { violation("wrong-matrix", "after permuting the matrix %s", d.c_str()); }
        }
        else if (post == 3)
        {
            std::ostringstream a, b;
            Out o = attempt([&] { live->coo.Print("", a); live->lil.Print("", b); });
            if (o.threw) { violation("refused", "printing failed: %s", o.what.c_str()); }
            std::multiset<std::string> x, y;
            std::string line;
            std::istringstream ia(a.str()), ib(b.str());
            while (std::getline(ia, line)) { x.insert(line); }
            while (std::getline(ib, line)) { y.insert(line); }
            if (x != y) { violation("wrong-matrix", "the two assembled matrices print different entries"); }
        }
    }
    if (sim::alloc::live() != live0) { violation("leak", "an assembly leaked"); }
}

// Very wide and tall matrices: only the list of contributions is long, so the sparse form is the only one that fits.
void wide_assembly()
{
    Exempt exempt;
    const uint64_t live0 = sim::alloc::live();
    {
        const unsigned tall = choose(8, "tall");
        const int n = 1 + (int)choose(tall == 7 ? 200000 : tall > 3 ? 5000 : 12, "rows");
        const int m = choose(4, "widest") == 3 ? std::numeric_limits<int>::max() - 1 : 1 + (int)choose(1u << 30, "cols");
        const bool sized = choose(2, "sized");
        // a few columns and rows near powers of two and the ends, so that they meet again and nearly meet
        std::vector<int> is, js;
        for (unsigned k = 0, K = 1 + choose(5, "rows used"); k < K; ++k) { is.push_back(k == 0 ? n - 1 : (int)choose((unsigned)n, "row")); }
        for (unsigned k = 0, K = 1 + choose(6, "cols used"); k < K; ++k)
        {
            const int base = k && choose(2, "near another") ? js[choose((unsigned)js.size(), "which")] : (int)choose((unsigned)m, "col");
            const long at = choose(2, "shifted") ? (long)base + (1L << choose(31, "power of two")) : (long)base;
            js.push_back((int)(at < m ? at : m - 1));
        }
        CooMatrix<double> coo;
        LilMatrix<double> lil;
        CooMatrix<int> icoo;
        ME all;
        if (sized) { coo = CooMatrix<double>(n, m); lil = LilMatrix<double>(n, m); icoo = CooMatrix<int>(n, m); all.sized = true; all.r = n; all.c = m; }
        const unsigned steps = 1 + choose(30, "contributions");
        sim::nontrivial();
        for (unsigned k = 0; k < steps; ++k)
        {
            const int i = is[choose((unsigned)is.size(), "row of it")], j = js[choose((unsigned)js.size(), "col of it")];
            const double x = val();
            Out o = attempt([&] { coo.Add(i, j, x); lil.Add(i, j, x); icoo.Add(i, j, (int)(x * 16 / g_unit)); });
            if (o.threw) { violation("refused", "entry (%d,%d) of a %d x %d matrix refused: %s", i, j, n, m, o.what.c_str()); }
            all.e.emplace_back(i, j, x);
            sim::steps(1);
            if (choose(12, "check") && k + 1 < steps) { continue; }
            sim::event("checked with %u entries", k + 1);
            std::string d;
            ME ints = all;
            for (auto& e : ints.e) { std::get<2>(e) = (double)(int)(std::get<2>(e) * 16 / g_unit); }
            o = attempt([&]
            {
                if (choose(2, "a copy")) { CooMatrix<double> c2(coo); LilMatrix<double> l2(lil); std::swap(coo, c2); lil = std::move(l2); }
                d = diff(coo.ToSparse(), all.sparse());
                if (d.empty()) { d = diff(lil.ToSparse(), all.sparse()); }
                if (d.empty()) { d = diff(icoo.ToSparse(), ints.sparse()); }
                if (d.empty()) { SparseMatrix<double> s = coo.ToSparse(); s.SortIndices(); d = diff(s, all.sparse()); }
            });
            if (o.threw) { violation("refused", "a %d x %d assembled matrix cannot be read: %s", n, m, o.what.c_str()); }
            if (!d.empty()) { violation("wrong-matrix", "the wide assembled matrix %s", d.c_str()); }
        }
    }
    if (sim::alloc::live() != live0) { violation("leak", "a wide assembly leaked"); }
}

void warm()
{
    Exempt exempt;
    try { throw std::bad_alloc(); } catch (const std::exception&) {}
    try { throw std::runtime_error("x"); } catch (const std::exception&) {}
}

sim::Scenario s1("P07", "assembly", assembly, warm);
sim::Scenario s4("P07", "wide_assembly", wide_assembly, warm);
sim::Scenario s2("P08", "value_histories", value_history, warm);
sim::Scenario s3("P15", "operation_histories", algebra_history, warm);

} // namespace
