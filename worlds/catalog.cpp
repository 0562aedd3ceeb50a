#include "catalog.hpp"

#include <algorithm>

#include "../sim/alloc.hpp"

namespace cat
{

std::string differs(const D& want, const D& got)
{
    std::ostringstream o;
    o.precision(17);
    if (want.v.size() != got.v.size())
    {
        o << "result has " << got.v.size() << " numbers, expected " << want.v.size();
        return o.str();
    }
    double scale = 0.0;
    for (double x : want.v) { if (std::isfinite(x)) { scale = std::max(scale, std::abs(x)); } }
    for (size_t i = 0; i < want.v.size(); ++i)
    {
        const double a = want.v[i];
        const double b = got.v[i];
        if (std::isnan(a) && std::isnan(b)) { continue; }
        if (a == b) { continue; }
        if (std::abs(a - b) <= 1e-10 * std::max(1.0, std::min(scale, 1e6))) { continue; }
        o << "number " << i << " is " << b << ", expected " << a;
        return o.str();
    }
    return "";
}

// Choices come from the simulator, or from a fixed generator for generic().
static uint64_t g_fixed = 0;

static uint64_t fixed_next()
{
    g_fixed = g_fixed * 6364136223846793005ull + 1442695040888963407ull;
    return g_fixed >> 33;
}

static unsigned pick(unsigned n, const char* label) { return g_fixed ? (unsigned)(fixed_next() % n) : sim::choose(n, label); }
static uint64_t pick64(const char* label) { return g_fixed ? fixed_next() : sim::bits(label); }

static std::vector<int> split(int n)
{
    std::vector<int> off(1, 0);
    while (off.back() < n) { off.push_back(off.back() + 1 + (int)pick((unsigned)(n - off.back()), "block")); }
    return off;
}

Spec draw(int max_dim)
{
    Spec s;
    s.n = g_fixed ? 4 : sim::range(1, max_dim, "n");
    s.m = g_fixed ? 3 : sim::range(1, max_dim, "m");
    s.k = g_fixed ? 5 : sim::range(1, max_dim, "k");
    const unsigned density = 2 + pick(7, "density");
    auto fill = [&](int r, int c)
    {
        std::vector<double> v((size_t)r * c);
        for (double& x : v)
        {
            const uint64_t b = pick64("entry");
            x = (b & 7) < density ? (double)((int)((b >> 4) % 33) - 16) * 0.25 : 0.0;
        }
        return v;
    };
    s.A = fill(s.n, s.m);
    s.A2 = fill(s.n, s.m);
    s.B = fill(s.m, s.k);
    s.G = fill(s.n, s.m);
    s.S = fill(s.n, s.n);
    for (int i = 0; i < s.n; ++i)
    {
        for (int j = 0; j < i; ++j) { s.S[(size_t)i * s.n + j] = s.S[(size_t)j * s.n + i]; }
    }
    for (int i = 0; i < s.n; ++i)
    {
        double sum = 1.0;
        for (int j = 0; j < s.n; ++j) { if (j != i) { sum += std::abs(s.S[(size_t)i * s.n + j]); } }
        s.S[(size_t)i * s.n + i] = sum;
    }
    s.F = s.S;
    if (s.n > 1) { s.F[1] += 0.25; }
    s.I.resize((size_t)s.n * s.m);
    for (size_t i = 0; i < s.I.size(); ++i) { s.I[i] = (int)(s.A2[i] * 4); }
    auto vec = [&](int n, bool nonzero)
    {
        std::vector<double> v((size_t)n);
        for (double& x : v)
        {
            x = (double)((int)(pick64("value") % 33) - 16) * 0.25;
            if (nonzero && x == 0.0) { x = 1.5; }
        }
        return v;
    };
    s.xm = vec(s.m, false);
    s.xn = vec(s.n, false);
    s.xk = vec(s.k, false);
    s.dn = vec(s.n, true);
    s.dm = vec(s.m, true);
    for (int i = 0; i < s.m; ++i) { s.iv.push_back((int)pick(9, "int") - 4); }
    auto sel = [&](int n)
    {
        std::vector<int> v;
        for (int i = 0; i < n; ++i) { if (pick(2, "select")) { v.push_back(i); } }
        if (v.empty()) { v.push_back((int)pick((unsigned)n, "select")); }
        if (v.size() > 1 && pick(2, "order")) { std::swap(v.front(), v.back()); }
        return v;
    };
    s.rows_sel = sel(s.n);
    s.cols_sel = sel(s.m);
    auto perm = [&](int n)
    {
        std::vector<int> v((size_t)n);
        for (int i = 0; i < n; ++i) { v[(size_t)i] = i; }
        for (int i = n - 1; i > 0; --i) { std::swap(v[(size_t)i], v[pick((unsigned)i + 1, "perm")]); }
        return v;
    };
    s.perm_n = perm(s.n);
    s.perm_m = perm(s.m);
    for (int i = 0; i < s.m; ++i) { s.marker_m.push_back((int)pick(2, "marker")); }
    for (int i = 0; i < s.n; ++i) { s.marker_n.push_back((int)pick(2, "marker")); }
    s.row_off = split(s.n);
    s.col_off = split(s.m);
    s.unsorted = pick(2, "unsorted");
    s.scale = 0.5 * (1 + (double)pick(5, "scale"));
    return s;
}

Spec generic()
{
    g_fixed = 12345;
    const Spec s = draw(6);
    g_fixed = 0;
    return s;
}

template <typename T, typename S>
static SparseMatrix<T> csr(const std::vector<S>& d, int r, int c, bool unsorted, int r0 = 0, int c0 = 0, int stride = -1)
{
    if (stride < 0) { stride = c; }
    std::vector<int> indptr(1, 0), indices;
    std::vector<T> data;
    for (int i = 0; i < r; ++i)
    {
        for (int jj = 0; jj < c; ++jj)
        {
            const int j = unsorted ? c - 1 - jj : jj;
            const S x = d[(size_t)(r0 + i) * stride + c0 + j];
            if (x != S(0)) { indices.push_back(j); data.push_back((T)x); }
        }
        indptr.push_back((int)indices.size());
    }
    return SparseMatrix<T>(indptr, indices, data, r, c);
}

static DenseMatrix dense(const std::vector<double>& d, int r, int c)
{
    DenseMatrix m(r, c);
    for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) { m(i, j) = d[(size_t)i * c + j]; } }
    return m;
}

template <typename M>
static void fill_entries(M& m, const std::vector<double>& d, int r, int c)
{
    for (int i = 0; i < r; ++i)
    {
        for (int j = c - 1; j >= 0; --j)
        {
            const double x = d[(size_t)i * c + j];
            if (x != 0.0)
            {
                m.Add(i, j, x - 0.5);
                m.Add(i, j, 0.5);
            }
        }
    }
}

static double plain_dot(const VectorView<double>& a, const VectorView<double>& b)
{
    double s = 0.0;
    for (int i = 0; i < a.size(); ++i) { s += a[i] * b[i]; }
    return s;
}

Pool::Pool(const Spec& s)
    : spec(s),
      A(csr<double>(s.A, s.n, s.m, s.unsorted)), A2(csr<double>(s.A2, s.n, s.m, false)), B(csr<double>(s.B, s.m, s.k, s.unsorted)),
      S(csr<double>(s.S, s.n, s.n, false)), I(csr<int>(s.I, s.n, s.m, s.unsorted)),
      G(dense(s.G, s.n, s.m)), E(dense(s.B, s.m, s.k)), F(dense(s.F, s.n, s.n)),
      coo(s.n, s.m), lil(s.n, s.m),
      bm(s.row_off, s.col_off), bvm(s.col_off), bvn(s.row_off), bo(s.row_off, s.col_off),
      xm(s.xm), xn(s.xn), xk(s.xk), iv(s.iv),
      marker((size_t)std::max(s.n, std::max(s.m, s.k)), -1)
{
    fill_entries(coo, s.A, s.n, s.m);
    fill_entries(coo_free, s.A, s.n, s.m);
    coo_free.Add(s.n - 1, s.m - 1, 0.25);
    fill_entries(lil, s.A, s.n, s.m);
    fill_entries(lil_free, s.A, s.n, s.m);
    lil_free.Add(s.n - 1, s.m - 1, 0.25);
    const int br = (int)s.row_off.size() - 1;
    const int bc = (int)s.col_off.size() - 1;
    for (int i = 0; i < br; ++i)
    {
        for (int j = 0; j < bc; ++j)
        {
            blocks.push_back(csr<double>(s.A, s.row_off[i + 1] - s.row_off[i], s.col_off[j + 1] - s.col_off[j], s.unsorted,
                                         s.row_off[i], s.col_off[j], s.m));
            if ((i + j) % 3 != 2) { bm.SetBlock(i, j, blocks.back()); }
        }
    }
    for (int i = 0; i < br; ++i) { for (int j = 0; j < bc; ++j) { if ((i + j) % 4 != 3) { bo.SetBlock(i, j, blocks[(size_t)i * bc + j]); } } }
    for (int i = 0; i < s.m; ++i) { bvm[i] = s.xm[(size_t)i]; }
    for (int i = 0; i < s.n; ++i) { bvn[i] = s.xn[(size_t)i]; }
    std::vector<double> inv((size_t)s.n);
    for (int i = 0; i < s.n; ++i) { inv[(size_t)i] = 1.0 / s.S[(size_t)i * s.n + i]; }
    Minv = SparseMatrix<double>(inv);
    pcg = PCGSolver(S, 4 * s.n + 8, 1e-9, 1e-12, false);
    pcg_m = PCGSolver(S, Minv, 4 * s.n + 8, 1e-9, 1e-12, false, plain_dot);
    minres = MINRESSolver(S, 4 * s.n + 8, 1e-5, 1e-6, false);
    pminres = PMINRESSolver(S, Minv, 4 * s.n + 8, 1e-5, 1e-6, false, plain_dot);
    out.SetSize(1);
    dout.SetSize(2, 1);
}

void snapshot(const Pool& p, std::vector<std::pair<const char*, D>>& out)
{
#define PART(name, ...) do { out.emplace_back(name, D()); D& d = out.back().second; __VA_ARGS__ } while (0)
    PART("A", d.add(p.A););
    PART("A2", d.add(p.A2););
    PART("B", d.add(p.B););
    PART("S", d.add(p.S););
    PART("I", d.add(p.I););
    PART("G", d.add(p.G););
    PART("E", d.add(p.E););
    PART("F", d.add(p.F););
    PART("coo", std::ostringstream o; p.coo.Print("", o); d.add(o.str()); d.add((double)p.coo.Rows()); d.add((double)p.coo.Cols()););
    PART("coo_free", std::ostringstream o; p.coo_free.Print("", o); d.add(o.str()););
    // A row's entries may be kept in any order: compare what they add up to.
    PART("lil", d.add(p.lil.ToDense()););
    PART("lil_free", d.add(p.lil_free.ToDense()););
    PART("bm", d.add(p.bm););
    PART("bvm", d.addv(p.bvm); d.add(p.bvm.GetOffsets()););
    PART("bvn", d.addv(p.bvn); d.add(p.bvn.GetOffsets()););
    PART("bo",
        d.add((double)p.bo.Rows());
        d.add((double)p.bo.Cols());
        for (int i = 0; i + 1 < (int)p.bo.GetRowOffsets().size(); ++i)
        {
            for (int j = 0; j + 1 < (int)p.bo.GetColOffsets().size(); ++j) { d.add(p.bo.GetBlock(i, j) ? 1.0 : 0.0); }
        });
    PART("blocks", for (const auto& b : p.blocks) { d.add(b); });
    PART("Minv", d.add(p.Minv););
    PART("xm", d.addv(p.xm););
    PART("xn", d.addv(p.xn););
    PART("xk", d.addv(p.xk););
    PART("iv", d.addv(p.iv););
    PART("marker", d.add(p.marker););
    PART("pcg", d.add((double)p.pcg.Rows()););
    PART("pcg_m", d.add((double)p.pcg_m.Rows()););
    PART("minres", d.add((double)p.minres.Rows()););
    PART("pminres", d.add((double)p.pminres.Cols()););
    PART("dout", d.add(p.dout););
    PART("out", d.addv(p.out););
    PART("sout", d.add(p.sout););
#undef PART
}

std::string invalid(const Pool& p)
{
    std::string r;
    auto chk = [&](const char* what, const std::string& bad) { if (r.empty() && !bad.empty()) { r = std::string(what) + ": " + bad; } };
    chk("sparse matrix", malformed(p.A));
    chk("sparse matrix", malformed(p.A2));
    chk("sparse matrix", malformed(p.B));
    chk("sparse matrix", malformed(p.S));
    chk("sparse matrix", malformed(p.I));
    chk("sparse matrix", malformed(p.sout));
    for (const auto& b : p.blocks) { chk("block", malformed(b)); }
    for (int i = 0; i + 1 < (int)p.bm.GetRowOffsets().size(); ++i)
    {
        for (int j = 0; j + 1 < (int)p.bm.GetColOffsets().size(); ++j) { chk("block", malformed(p.bm.GetBlock(i, j))); }
    }
    D d;
    d.add(p.dout);
    d.addv(p.out);
    if (p.out.size() != (int)p.out.data().size() || (p.out.size() && p.out.begin() != p.out.data().data())) { chk("vector", "does not view its own data"); }
    for (const Vector<double>* v : {&p.xm, &p.xn, &p.xk, (const Vector<double>*)&p.bvm, (const Vector<double>*)&p.bvn})
    {
        if (v->size() != (int)v->data().size() || (v->size() && v->begin() != v->data().data())) { chk("vector", "does not view its own data"); }
    }
    return r;
}

void reassign(Pool& p, const Pool& q)
{
    p.A = q.A;
    p.A2 = q.A2;
    p.B = q.B;
    p.S = q.S;
    p.I = q.I;
    p.G = q.G;
    p.E = q.E;
    p.F = q.F;
    p.coo = q.coo;
    p.coo_free = q.coo_free;
    p.lil = q.lil;
    p.lil_free = q.lil_free;
    p.bm = q.bm;
    p.bvm = q.bvm;
    p.bvn = q.bvn;
    p.blocks = q.blocks;
    p.Minv = q.Minv;
    p.xm = q.xm;
    p.xn = q.xn;
    p.xk = q.xk;
    p.iv = q.iv;
    p.marker = q.marker;
    p.out = q.out;
    p.dout = q.dout;
    p.sout = q.sout;
}

#define OP(name, flags, ...) {name, flags, [](const Pool& p, D& d) { (void)p; (void)d; __VA_ARGS__ }}
#define VV(x) static_cast<const VectorView<double>&>(x)
#define OFF(...) do { sim::alloc::Exempt exempt; __VA_ARGS__ } while (0)
#define R(...) do { auto&& r_ = __VA_ARGS__; sim::alloc::Exempt exempt; d.add(r_); } while (0)
#define RV(...) do { auto&& r_ = __VA_ARGS__; sim::alloc::Exempt exempt; d.addv(r_); } while (0)

const Op OPS[] =
{
    // copies
    OP("copy SparseMatrix", 0, SparseMatrix<double> c(p.A); R(c);),
    OP("copy SparseMatrix<int>", 0, SparseMatrix<int> c(p.I); R(c);),
    OP("copy-assign SparseMatrix", 0, SparseMatrix<double> c; c = p.A; R(c);),
    OP("copy DenseMatrix", 0, DenseMatrix c(p.G); R(c);),
    OP("copy-assign DenseMatrix", 0, DenseMatrix c; c = p.G; R(c);),
    OP("copy CooMatrix", 0, CooMatrix<double> c(p.coo); R(c.ToSparse());),
    OP("copy-assign CooMatrix", 0, CooMatrix<double> c; c = p.coo; R(c.ToDense());),
    OP("copy LilMatrix", 0, LilMatrix<double> c(p.lil); R(c.ToDense());),
    OP("copy-assign LilMatrix", 0, LilMatrix<double> c; c = p.lil; R(c.ToSparse());),
    OP("copy BlockMatrix", 0, BlockMatrix<double> c(p.bm); R(c);),
    OP("copy-assign BlockMatrix", 0, BlockMatrix<double> c; c = p.bm; R(c);),
    OP("copy BlockVector", 0, BlockVector<double> c(p.bvm); RV(c);),
    OP("copy-assign BlockVector", 0, BlockVector<double> c; c = p.bvm; RV(c);),
    OP("copy BlockOperator", 0, BlockOperator c(p.bo); RV(c.Mult(p.xm));),
    OP("copy Vector", 0, Vector<double> c(p.xm); RV(c);),
    OP("copy-assign Vector", 0, Vector<double> c; c = p.xm; RV(c);),
    OP("assign Vector from view", 0, Vector<double> c; c = VV(p.xm); RV(c);),
    OP("Vector from view", 0, Vector<double> c(VV(p.xm)); RV(c);),
    OP("Vector from data", 0, Vector<double> c(p.xm.begin(), p.xm.size()); RV(c);),
    OP("copy PCGSolver", SOLVER, PCGSolver c(p.pcg_m); Vector<double> x(p.spec.n, 0.0); c.Mult(p.xn, x); RV(x);),
    OP("copy MINRESSolver", SOLVER, MINRESSolver c(p.minres); Vector<double> x(p.spec.n, 0.0); c.Mult(p.xn, x); RV(x);),
    OP("copy PMINRESSolver", SOLVER, PMINRESSolver c(p.pminres); Vector<double> x(p.spec.n, 0.0); c.Mult(p.xn, x); RV(x);),
    OP("copy EigenSolver", LAPACK, EigenSolver c(p.eigen); EigenPair e = c.Solve(p.S, 1.0, -1); R(e.first);),
    OP("move SparseMatrix", 0, SparseMatrix<double> c(p.A); SparseMatrix<double> e(std::move(c)); R(e);),
    OP("move DenseMatrix", 0, DenseMatrix c(p.G); DenseMatrix e(std::move(c)); R(e);),
    OP("move CooMatrix", 0, CooMatrix<double> c(p.coo); CooMatrix<double> e(std::move(c)); R(e.ToSparse());),
    OP("move LilMatrix", 0, LilMatrix<double> c(p.lil); LilMatrix<double> e(std::move(c)); R(e.ToSparse());),
    OP("move BlockMatrix", 0, BlockMatrix<double> c(p.bm); BlockMatrix<double> e(std::move(c)); R(e);),
    OP("move BlockVector", 0, BlockVector<double> c(p.bvm); BlockVector<double> e(std::move(c)); RV(e);),
    OP("move BlockOperator", 0, BlockOperator c(p.bo); BlockOperator e(std::move(c)); RV(e.Mult(p.xm));),
    OP("move Vector", 0, Vector<double> c(p.xm); Vector<double> e(std::move(c)); RV(e);),
    OP("vector of SparseMatrix", 0, std::vector<SparseMatrix<double>> v; v.push_back(p.A); v.push_back(p.A2); v.push_back(p.A); R(v[0]); R(v[2]);),
    OP("vector of Vector", 0, std::vector<Vector<double>> v; v.push_back(p.xm); v.push_back(p.xn); v.emplace_back(3, 1.0); RV(v[0]); RV(v[1]);),
    OP("construct from diagonal", 0, SparseMatrix<double> c(p.spec.dn); R(c);),
    OP("construct empty", 0, SparseMatrix<double> c(p.spec.n, p.spec.m); DenseMatrix e(p.spec.n, p.spec.m); R(c); R(e);),
    // vectors
    OP("v+v", 0, RV(p.xm + p.xm);),
    OP("v-v", 0, RV(p.xm - p.xm);),
    OP("v*a", 0, RV(p.xm * 2.5);),
    OP("a*v", 0, RV(2.5 * p.xm);),
    OP("v/a", 0, RV(p.xm / 2.0);),
    OP("a/v", 0, Vector<double> c(p.spec.dm); RV(2.0 / c);),
    OP("InnerProduct", 0, R(InnerProduct(p.xm, p.xm));),
    OP("v*v", 0, R(p.xm * p.xm);),
    OP("norms and reductions", 0, R(L2Norm(p.xm)); R(Max(p.xm)); R(Min(p.xm)); R(AbsMax(p.xm)); R(AbsMin(p.xm)); R(Sum(p.xm)); R(Mean(p.xm));),
    OP("int reductions", 0, R((double)Max(p.iv)); R((double)Min(p.iv)); R((double)Sum(p.iv)); R(Mean(p.iv));),
    OP("GetSubVector", 0, RV(p.xm.GetSubVector(p.spec.cols_sel));),
    OP("GetSubVector into", 0, Vector<double> o; p.xm.GetSubVector(p.spec.cols_sel, o); RV(o);),
    OP("vector Add/Sub/Set", 0, Vector<double> c(p.xm); c.Add(2.0, p.xm).Sub(0.5, p.xm).Add(p.xm).Sub(p.xm); RV(c); c.Set(3.0, p.xm); RV(c); c.Set(p.xm); RV(c);),
    OP("entrywise", 0, Vector<double> c(p.xm); Vector<double> e(p.spec.dm); c *= e; c /= e; c += e; c -= e; c += 1.0; c -= 2.0; c *= 2.0; c /= 4.0; RV(c);),
    OP("Normalize/SubAvg", 0, Vector<double> c(p.spec.dm); Normalize(c); SubAvg(c); RV(c);),
    OP("free Add/Sub", 0, Vector<double> z(p.spec.m, 1.0); Add(VV(p.xm), VV(p.xm), z); RV(z); Sub(VV(p.xm), VV(p.xm), z); RV(z); Add(2.0, VV(p.xm), 1.0, VV(p.xm), 3.0, z); RV(z);),
    OP("v==v", 0, R((double)(p.xm == p.xm));),
    OP("Randomize seeded", 0, Vector<double> c(p.spec.m); Randomize(c, -1.0, 1.0, 7); RV(c); Vector<int> e(p.spec.m); Randomize(e, 0, 100, 9); RV(e);),
    OP("seeded member Randomize", 0, Vector<double> c(p.spec.m); c.Randomize(0, 1, 3); RV(c);),
    OP("print vector", PRINTS, std::ostringstream o; p.xm.Print("v", o); o << p.xm; R(o.str());),
    OP("SetSize", 0, Vector<double> c; c.SetSize(p.spec.m, 2.0); c.SetSize(p.spec.n); OFF(d.add((double)c.size()););),
    // block vectors
    OP("BlockVector blocks", 0, for (int b = 0; b + 1 < (int)p.bvm.GetOffsets().size(); ++b) { RV(p.bvm.GetBlock(b)); }),
    OP("BlockVector from view", 0, BlockVector<double> c(p.xm, p.spec.col_off); RV(c); BlockVector<double> e(p.spec.col_off, 2.0); RV(e);),
    // sparse
    OP("Sparse Mult", 0, RV(p.A.Mult(p.xm));),
    OP("Sparse Mult view", 0, Vector<double> y(p.spec.n); p.A.Mult(VV(p.xm), y); RV(y);),
    OP("Sparse * v", 0, RV(p.A * VV(p.xm));),
    OP("Sparse MultAT", 0, RV(p.A.MultAT(p.xn));),
    OP("Sparse<int> Mult", 0, Vector<double> y(p.spec.n); p.I.Mult(VV(p.xm), y); RV(y);),
    OP("Operator Mult resize", 0, Vector<double> y; ((const Operator&)p.A).Mult(p.xm, y); RV(y); ((const Operator&)p.A).MultAT(p.xn, y); RV(y);),
    OP("Operator Mult value", 0, RV(((const Operator&)p.A).Mult(p.xm)); RV(((const Operator&)p.A).MultAT(p.xn));),
    OP("Operator InnerProduct", 0, R(p.S.InnerProduct(p.xn, p.xn));),
    OP("Sparse Mult Dense", 0, R(p.A.Mult(p.E)); DenseMatrix o; p.A.Mult(p.E, o); R(o);),
    OP("Sparse MultAT Dense", 0, R(p.A.MultAT(p.G)); DenseMatrix o; p.A.MultAT(p.G, o); R(o);),
    OP("Sparse MultCT Dense", 0, R(p.A.MultCT(p.E)); DenseMatrix o; p.A.MultCT(p.E, o); R(o);),
    OP("Sparse Mult Sparse", 0, R(p.A.Mult(p.B));),
    OP("Sparse Mult Sparse marker", 0, std::vector<int> mk; R(p.A.Mult(p.B, mk));),
    OP("Sparse<int> Mult Sparse", 0, R(p.I.Mult(p.B));),
    OP("Transpose", 0, R(p.A.Transpose());),
    OP("Transpose int", 0, R(p.I.Transpose());),
    OP("Transpose int to double", 0, R(p.I.Transpose<double>());),
    OP("triple product", 0, R(p.A.Transpose().Mult(p.S).Mult(p.A));),
    OP("ToDense", 0, R(p.A.ToDense()); R(p.A.TransposeDense()); DenseMatrix o; p.A.ToDense(o); R(o); p.A.TransposeDense(o); R(o);),
    OP("GetDiag", 0, R(p.S.GetDiag());),
    OP("GetSubMatrix", 0, R(p.A.GetSubMatrix(p.spec.rows_sel, p.spec.cols_sel));),
    OP("GetSubMatrix marker", 0, std::vector<int> mk(p.marker); R(p.A.GetSubMatrix(p.spec.rows_sel, p.spec.cols_sel, mk));),
    OP("row access", 0, for (int i = 0; i < p.spec.n; ++i) { R(p.A.GetIndices(i)); R(p.A.GetData(i)); RV(p.A.GetIndicesView(i)); R((double)p.A.RowSize(i)); }),
    OP("scaled copies", 0, R(p.A * 2.0); R(0.5 * p.A);),
    OP("Sum/MaxNorm/nnz", 0, R(p.A.Sum()); R(p.A.MaxNorm()); R((double)p.A.nnz());),
    OP("print sparse", PRINTS, std::ostringstream o; p.A.Print("A", o); p.A.PrintDense("A", o); R(o.str());),
    OP("sort a copy", 0, SparseMatrix<double> c(p.A); c.SortIndices(); R(c);),
    // dense
    OP("Dense Mult", 0, RV(p.G.Mult(p.xm)); RV(p.G.MultAT(p.xn));),
    OP("Dense Mult int", 0, RV(p.G.Mult(p.iv));),
    OP("Dense Mult Dense", LAPACK, R(p.G.Mult(p.E)); DenseMatrix o; p.G.Mult(p.E, o); R(o);),
    OP("Dense MultAT Dense", LAPACK, R(p.G.MultAT(p.F)); R(p.G.MultBT(p.G)); R(p.G.MultABT(p.F));),
    OP("Dense Transpose", 0, R(p.G.Transpose()); DenseMatrix o; p.G.Transpose(o); R(o);),
    OP("Dense arithmetic", 0, R(p.G + p.G); R(p.G - p.G); R(p.G * 2.0); R(2.0 * p.G); R(p.G / 2.0);),
    OP("Dense reductions", 0, R(p.G.Sum()); R(p.G.Max()); R(p.G.Min()); R((double)(p.G == p.G));),
    OP("Dense rows and cols", 0, RV(p.G.GetRow(0)); RV(p.G.GetCol(0)); RV(p.G.GetColView(p.spec.m - 1)); R(p.G.GetRow(0, p.spec.n)); R(p.G.GetCol(0, p.spec.m)); R(p.G.GetRow(p.spec.rows_sel));),
    OP("Dense GetSubMatrix", 0, R(p.G.GetSubMatrix(0, 0, p.spec.n, p.spec.m)); R(p.G.GetSubMatrix(p.spec.rows_sel, p.spec.cols_sel)); DenseMatrix o; p.G.GetSubMatrix(p.spec.rows_sel, p.spec.cols_sel, o); R(o);),
    OP("Dense GetDiag", 0, R(p.F.GetDiag());),
    OP("Dense SVD", LAPACK, DenseMatrix u; R(p.G.SVD(u)); OFF(d.add((double)u.Rows()); d.add((double)u.Cols()););),
    OP("Dense QR", LAPACK, DenseMatrix q; p.F.QR(q); OFF(d.add((double)q.Rows()); d.add((double)q.Cols()); for (int j = 0; j < q.Cols(); ++j) { for (int i = 0; i < q.Rows(); ++i) { d.add(std::abs(q(i, j))); } });),
    OP("Dense QR rectangular", LAPACK, DenseMatrix q; p.G.QR(q); OFF(d.add((double)q.Rows()););),
    OP("Dense Invert", LAPACK, DenseMatrix q; p.F.Invert(q); R(q); R(q.Mult(p.F));),
    OP("Dense print", PRINTS, std::ostringstream o; p.G.Print("G", o); R(o.str());),
    OP("HStack", 0, std::vector<DenseMatrix> v; v.push_back(p.G); v.push_back(p.F); R(HStack(v));),
    OP("CopyData", 0, std::vector<double> v; p.G.CopyData(v); R(v);),
    // coo, lil
    OP("Coo ToSparse", 0, R(p.coo.ToSparse());),
    OP("Coo ToSparse unsized", 0, R(p.coo_free.ToSparse());),
    OP("Coo ToSparse int", 0, R(p.coo.ToSparse<int>());),
    OP("Coo ToDense", 0, R(p.coo.ToDense()); DenseMatrix o; p.coo.ToDense(o); R(o); R(p.coo_free.ToDense());),
    OP("Coo Mult", 0, Vector<double> y(p.spec.n); p.coo.Mult(p.xm, y); RV(y);),
    OP("Coo MultAT", 0, Vector<double> y(p.spec.m); p.coo.MultAT(p.xn, y); RV(y);),
    OP("Coo print", PRINTS, std::ostringstream o; p.coo.Print("c", o); R(o.str());),
    OP("Lil ToSparse", 0, R(p.lil.ToSparse());),
    OP("Lil ToSparse unsized", 0, R(p.lil_free.ToSparse());),
    OP("Lil ToDense", 0, R(p.lil.ToDense()); DenseMatrix o; p.lil.ToDense(o); R(o); R(p.lil_free.ToDense());),
    OP("Lil Mult", 0, Vector<double> y(p.spec.n); p.lil.Mult(p.xm, y); RV(y);),
    OP("Lil MultAT", 0, Vector<double> y(p.spec.m); p.lil.MultAT(p.xn, y); RV(y);),
    OP("Lil sizes", 0, R((double)p.lil.Rows()); R((double)p.lil.Cols()); R((double)p.lil_free.Rows()); R((double)p.lil_free.Cols());),
    OP("Lil print", PRINTS, std::ostringstream o; LilMatrix<double> c(p.lil); c.Print("l", o); OFF(d.add(0.0););),
    // block
    OP("BlockMatrix Mult", 0, RV(((const Operator&)p.bm).Mult(p.xm)); RV(((const Operator&)p.bm).MultAT(p.xn));),
    OP("BlockMatrix Combine", 0, R(p.bm.Combine());),
    OP("BlockMatrix Transpose", 0, R(p.bm.Transpose().Combine());),
    OP("BlockMatrix print", PRINTS, std::ostringstream o; p.bm.Print("b", o); p.bm.PrintDense("b", o); R(o.str());),
    OP("BlockOperator Mult", 0, RV(((const Operator&)p.bo).Mult(p.xm));),
    OP("BlockOperator MultAT", 0, RV(((const Operator&)p.bo).MultAT(p.xn));),
    // solvers built by the caller around shared operators
    OP("CG", SOLVER, Vector<double> x(p.spec.n, 0.0); CG(p.S, p.xn, x, 100, 1e-9, 1e-12); RV(x);),
    OP("PCG", SOLVER, Vector<double> x(p.spec.n, 0.0); PCG(p.S, p.Minv, p.xn, x, 100, 1e-9, 1e-12); RV(x);),
    OP("MINRES", SOLVER, Vector<double> x(p.spec.n, 0.0); MINRES(p.S, p.xn, x, 100, 1e-5, 1e-6); RV(x);),
    OP("PMINRES", SOLVER, Vector<double> x(p.spec.n, 0.0); PMINRES(p.S, p.Minv, p.xn, x, 100, 1e-5, 1e-6); RV(x);),
    OP("own PCGSolver", SOLVER, PCGSolver c(p.S, p.Minv, 100, 1e-9, 1e-12); Vector<double> x(p.spec.n, 0.0); c.Mult(p.xn, x); RV(x); x = 0.0; c.Mult(p.xn, x); RV(x);),
    OP("eigen sparse", LAPACK, EigenSolver e; EigenPair r = e.Solve(p.S, 1.0, -1); R(r.first); OFF(d.add((double)r.second.Rows()););),
    OP("eigen dense", LAPACK, EigenSolver e; EigenPair r; DenseMatrix s; p.S.ToDense(s); e.Solve(s, 0.5, -1, r); R(r.first); e.Solve(s, 1.0, 1, r); R(r.first);),
};
const int NOPS = sizeof(OPS) / sizeof(OPS[0]);

#undef OP
#define OP(name, flags, ...) {name, flags, [](Pool& p, D& d) { (void)p; (void)d; __VA_ARGS__ }}

const MOp MOPS[] =
{
    OP("SparseMatrix::SortIndices", 0, p.A.SortIndices();),
    OP("SparseMatrix::EliminateZeros", 0, p.A.EliminateZeros(1.0);),
    OP("SparseMatrix::AddDiag", 0, p.S.AddDiag(1.0); p.S.AddDiag(p.spec.dn);),
    OP("SparseMatrix::ScaleRows", 0, p.A.ScaleRows(p.spec.dn); p.A.InverseScaleRows(p.spec.dn);),
    OP("SparseMatrix::ScaleRows sparse", 0, SparseMatrix<double> m(p.spec.dn); p.A.ScaleRows(m); SparseMatrix<double> c(p.spec.dm); p.A.ScaleCols(c);),
    OP("SparseMatrix::PermuteCols", 0, p.A.PermuteCols(p.spec.perm_m);),
    OP("SparseMatrix::EliminateRowCol", 0, p.S.EliminateRowCol(0); p.S.EliminateRowCol(Vector<int>(p.spec.marker_n));),
    OP("SparseMatrix::EliminateCol", 0, p.A.EliminateRow(0); p.A.EliminateCol(0); Vector<double> b(p.spec.n, 0.0); p.A.EliminateCol(Vector<int>(p.spec.marker_m), p.xm, b); RV(b);),
    OP("SparseMatrix assign product", 0, p.A = p.A.Mult(p.B);),
    OP("SparseMatrix assign transpose", 0, p.A = p.A.Transpose();),
    OP("SparseMatrix copy assign", 0, p.A = p.B;),
    OP("SparseMatrix move assign", 0, SparseMatrix<double> c(p.B); p.A = std::move(c);),
    OP("SparseMatrix self assign", 0, SparseMatrix<double>& r = p.A; p.A = r;),
    OP("SparseMatrix scale", 0, p.A *= 2.0; p.A /= 4.0; p.A2 = 3.0;),
    OP("SparseMatrix swap", 0, swap(p.A, p.A2);),
    OP("DenseMatrix::SetSize", 0, p.dout.SetSize(p.spec.n, p.spec.m); p.dout = 1.0; R(p.dout);),
    OP("DenseMatrix::SetSize val", 0, p.dout.SetSize(p.spec.n + 3, p.spec.m + 2, 2.0); OFF(d.add((double)p.dout.Rows()););),
    OP("Mult into member", LAPACK, p.G.Mult(p.E, p.dout); R(p.dout);),
    OP("Sparse Mult into member", 0, p.A.Mult(p.E, p.dout); R(p.dout);),
    OP("Transpose into member", 0, p.G.Transpose(p.dout); R(p.dout);),
    OP("GetSubMatrix into member", 0, p.G.GetSubMatrix(p.spec.rows_sel, p.spec.cols_sel, p.dout); R(p.dout);),
    OP("HStack into member", 0, std::vector<DenseMatrix> v(2, p.G); HStack(v, p.dout); R(p.dout);),
    OP("Coo ToDense into member", 0, p.coo.ToDense(p.dout); R(p.dout);),
    OP("DenseMatrix::SVD", LAPACK, R(p.F.SVD());),
    OP("DenseMatrix::QR", LAPACK, DenseMatrix c(p.F); c.QR(); OFF(d.add((double)c.Rows());); p.F = 1.0;),
    OP("DenseMatrix::Invert", LAPACK, p.F.Invert();),
    OP("DenseMatrix arithmetic", 0, p.G += p.G; p.G *= 0.5; p.G -= DenseMatrix(p.spec.n, p.spec.m); p.G /= 2.0;),
    OP("DenseMatrix setters", 0, p.G.SetRow(0, p.xm); p.G.SetCol(0, p.xn); p.G.SetSubMatrix(0, 0, DenseMatrix(1, 1)); p.G.SetSubMatrixTranspose(0, 0, DenseMatrix(1, 1));),
    OP("DenseMatrix AddSubMatrix", 0, std::vector<int> c(p.spec.cols_sel); DenseMatrix s((int)p.spec.rows_sel.size(), (int)c.size()); s = 1.0; p.G.AddSubMatrix(p.spec.rows_sel, c, s);),
    OP("DenseMatrix scaling", 0, p.G.ScaleRows(p.spec.dn); p.G.ScaleCols(p.spec.dm); p.G.InverseScaleRows(p.spec.dn); p.G.InverseScaleCols(p.spec.dm);),
    OP("DenseMatrix assign", 0, p.G = p.E; p.dout = std::move(p.G); p.G = p.E;),
    OP("CooMatrix::Add", 0, for (int i = 0; i < 20; ++i) { p.coo.Add(i % p.spec.n, i % p.spec.m, 0.25); p.coo_free.AddSym(i, i / 2, 0.5); }),
    OP("CooMatrix::Add dense", 0, DenseMatrix v((int)p.spec.rows_sel.size(), (int)p.spec.cols_sel.size()); v = 1.0; p.coo.Add(p.spec.rows_sel, p.spec.cols_sel, v); p.coo.Add(p.spec.rows_sel, p.spec.cols_sel, 2.0, v);),
    OP("CooMatrix::Add vectors", 0, Vector<double> v((int)p.spec.rows_sel.size(), 1.0); p.coo.Add(p.spec.rows_sel, 0, v); Vector<double> w((int)p.spec.cols_sel.size(), 2.0); p.coo.Add(0, p.spec.cols_sel, 2.0, w);),
    OP("CooMatrix reserve, permute, eliminate", 0, p.coo.Reserve(1000); p.coo.PermuteRows(p.spec.perm_n); p.coo.PermuteCols(p.spec.perm_m); p.coo.EliminateZeros(0.75);),
    OP("CooMatrix assign", 0, p.coo = p.coo_free; p.coo.SetSize(p.spec.n + 1, p.spec.m + 1);),
    OP("LilMatrix::Add", 0, for (int i = 0; i < 12; ++i) { p.lil.Add(i % p.spec.n, i % p.spec.m, 0.25); p.lil_free.AddSym(i, i / 2, 0.5); }),
    OP("LilMatrix::Add dense", 0, DenseMatrix v((int)p.spec.rows_sel.size(), (int)p.spec.cols_sel.size()); v = 1.0; p.lil.Add(p.spec.rows_sel, p.spec.cols_sel, v); p.lil.EliminateZeros(0.75);),
    OP("LilMatrix assign", 0, p.lil = p.lil_free;),
    OP("LilMatrix::SetSize", 0, p.lil_free.SetSize(p.spec.n + 5, p.spec.m + 5); p.lil_free.Add(p.spec.n + 4, p.spec.m + 4, 1.0);),
    OP("BlockMatrix::SetBlock", 0, p.bm.SetBlock(0, 0, p.blocks[0]);),
    OP("BlockMatrix assign", 0, p.bm = BlockMatrix<double>(p.spec.col_off, p.spec.row_off);),
    OP("BlockVector assign", 0, p.bvm = p.bvn; p.bvn = 2.0;),
    OP("BlockVector blocks write", 0, for (int b = 0; b + 1 < (int)p.bvm.GetOffsets().size(); ++b) { p.bvm.GetBlock(b) = 1.0 + b; }),
    OP("Vector::SetSize", 0, p.xk.SetSize(p.spec.k + 9, 1.5);),
    OP("Vector assign", 0, p.xk = p.xm;),
    OP("Vector assign view", 0, p.xk = VV(p.xm);),
    OP("Vector move assign", 0, Vector<double> c(p.xm); p.xk = std::move(c);),
    OP("Vector self assign", 0, Vector<double>& r = p.xk; p.xk = r;),
    OP("Vector swap", 0, swap(p.xk, p.xm);),
    OP("Operator Mult into member", 0, p.A.Mult(p.xm, p.out); RV(p.out); ((const Operator&)p.A).Mult(p.xm, p.out); RV(p.out); ((const Operator&)p.A).MultAT(p.xn, p.out); RV(p.out);),
    OP("GetSubVector into member", 0, p.xm.GetSubVector(p.spec.cols_sel, p.out); RV(p.out);),
    OP("solve with member PCG", SOLVER, Vector<double> x(p.spec.n, 0.0); p.pcg.Mult(p.xn, x); RV(x); x = 0.0; p.pcg_m.Mult(p.xn, x); RV(x);),
    OP("solve with member MINRES", SOLVER, Vector<double> x(p.spec.n, 0.0); p.minres.Mult(p.xn, x); RV(x); x = 0.0; p.pminres.Mult(p.xn, x); RV(x);),
    OP("assign member solvers", SOLVER, p.pcg = PCGSolver(p.S, p.Minv, 50, 1e-9, 1e-12); p.pcg_m = p.pcg; swap(p.pcg, p.pcg_m); p.minres = MINRESSolver(p.S, 50, 1e-5, 1e-6); p.pminres = PMINRESSolver(p.S, p.Minv, 50, 1e-5, 1e-6);
       Vector<double> x(p.spec.n, 0.0); p.pcg.Mult(p.xn, x); RV(x);),
    OP("member EigenSolver", LAPACK, EigenPair r = p.eigen.Solve(p.S, 1.0, -1); R(r.first); OFF(d.add((double)r.second.Rows()); d.add((double)r.second.Cols()););),
    OP("member EigenSolver growing", LAPACK, EigenPair r; DenseMatrix one(1, 1); one = 2.0; p.eigen.Solve(one, 1.0, -1, r); R(r.first); p.eigen.Solve(p.S, 1.0, -1, r); R(r.first); OFF(d.add((double)r.second.Cols()););),
};
const int NMOPS = sizeof(MOPS) / sizeof(MOPS[0]);

} // namespace cat
