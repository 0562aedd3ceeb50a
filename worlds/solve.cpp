// World "solve": histories of reusable solver objects whose operators fail (P09), timers under clock changes (P10),
// random vectors under entropy faults (P11), dense factorisations whose LAPACK calls fail (P14).
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

#include <unistd.h>

#include "linalgcpp.hpp"

#include "../sim/alloc.hpp"
#include "../sim/core.hpp"
#include "../sim/host.hpp"

using namespace linalgcpp;
using sim::alloc::Exempt;
using sim::alloc::Track;
using sim::choose;
using sim::violation;

typedef std::vector<double> V;
typedef std::vector<std::vector<double>> M;

namespace
{

struct Out
{
    bool threw = false;
    std::string what;
};

template <typename F>
Out attempt(F f)
{
    Out o;
    try
    {
        Track track;
        f();
    }
    catch (const std::exception& e)
    {
        o.threw = true;
        o.what = e.what();
    }
    catch (...)
    {
        violation("foreign-exception", "something other than a std::exception was thrown");
    }
    return o;
}

bool same(const double* a, const double* b, size_t n) { return std::memcmp(a, b, n * sizeof(double)) == 0; }
bool same(const V& a, const V& b) { return a.size() == b.size() && (a.empty() || same(a.data(), b.data(), a.size())); }
template <typename T> V copy_of(const T& v) { return V(v.begin(), v.end()); }
double norm(const V& v) { double s = 0; for (double x : v) { s += x * x; } return std::sqrt(s); }
double dot(const V& a, const V& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) { s += a[i] * b[i]; } return s; }
V times(const M& A, const V& x)
{
    V y(A.size(), 0.0);
    for (size_t i = 0; i < A.size(); ++i) { y[i] = dot(A[i], x); }
    return y;
}

// ==================================================================================
// P09: iterative solvers
// ==================================================================================

struct Failure : std::runtime_error { explicit Failure(const char* w) : std::runtime_error(w) {} };

// An operator that can fail: a distributed or out-of-core one whose application is interrupted.
struct Op : Operator
{
    M a;
    mutable long applied = 0;
    mutable long fail_at = -1;               // applications left before one fails
    mutable int fail_how = 0;
    explicit Op(const M& m) : Operator((int)m.size()), a(m) {}
    void Mult(const VectorView<double>& x, VectorView<double> y) const override
    {
        if (x.size() != rows_ || y.size() != rows_) { violation("bad-application", "an operator of size %d was applied to %d entries, giving %d", rows_, x.size(), y.size()); }
        applied++;
        const bool fail = fail_at == 0;
        if (fail_at >= 0) { fail_at--; }
        for (int i = 0; i < rows_; ++i)
        {
            if (fail && i >= rows_ / 2) { break; }                  // half the answer arrived
            double s = 0;
            for (int j = 0; j < rows_; ++j) { s += a[i][j] * x[j]; }
            y[i] = s;
        }
        if (fail && fail_how >= 2)                                  // the answer arrived damaged, and nobody noticed
        {
            for (int i = 0; i < rows_; ++i) { y[i] = std::numeric_limits<double>::quiet_NaN(); }
        }
        else if (fail) { if (fail_how == 0) { throw Failure("operator failed"); } throw std::bad_alloc(); }
    }
    using Operator::Mult;
};

long g_dot_calls, g_dot_fail_at = -1;
double failing_dot(const VectorView<double>& a, const VectorView<double>& b)
{
    g_dot_calls++;
    if (g_dot_fail_at >= 0 && g_dot_fail_at-- == 0) { throw Failure("reduction failed"); }
    double s = 0;
    for (int i = 0; i < a.size(); ++i) { s += a[i] * b[i]; }
    return s;
}

enum Kind { CG_, PCG_, MIN_, PMIN_, KINDS };
const char* const KIND[] = {"PCGSolver without preconditioner", "PCGSolver", "MINRESSolver", "PMINRESSolver"};

struct Settings
{
    int a = 0, m = 0, max_iter = 0;
    double rel = 0, abs = 0;
    bool live = false, dot = false, verbose = false;
    int given = 4;                                        // how many of the four optional arguments are spelled out
};

// The same settings with every argument spelled out.
Settings spelled(Settings c) { c.given = 4; return c; }
Settings spelled(Settings c, bool dot) { c.dot = dot; return spelled(c); }

struct World
{
    int n;
    std::vector<std::unique_ptr<Op>> spd, sym, pre;       // operators every solver refers to
};

M draw_matrix(int n, bool definite)
{
    M a(n, V(n, 0.0));
    for (int i = 0; i < n; ++i)
    {
        for (int j = 0; j < i; ++j)
        {
            if (choose(3, "link")) { a[i][j] = a[j][i] = sim::range(-4, 4, "link weight") / 4.0; }
        }
    }
    for (int i = 0; i < n; ++i)
    {
        double s = 0;
        for (int j = 0; j < n; ++j) { s += std::fabs(a[i][j]); }
        a[i][i] = s + (1 + choose(8, "diagonal")) / 4.0;
        if (!definite && choose(2, "negative")) { a[i][i] = -a[i][i]; }
    }
    return a;
}

template <typename S> struct Slots
{
    std::unique_ptr<S> s[3];
    Settings m[3];
};

template <typename S> S* make(Kind k, const World& w, const Settings& c);
// Calls f with as many of its optional arguments as the settings spell out; the others keep their documented defaults.
#define WITH(c, f, ...) \
    ((c).given == 0 ? f(__VA_ARGS__) : (c).given == 1 ? f(__VA_ARGS__, (c).max_iter) : \
     (c).given == 2 ? f(__VA_ARGS__, (c).max_iter, (c).rel) : (c).given == 3 ? f(__VA_ARGS__, (c).max_iter, (c).rel, (c).abs) : \
     f(__VA_ARGS__, (c).max_iter, (c).rel, (c).abs, (c).verbose))

template <> PCGSolver* make<PCGSolver>(Kind k, const World& w, const Settings& c)
{
    const Op& A = *w.spd[c.a];
    if (k == CG_)
    {
        if (c.dot) { return new PCGSolver(A, c.max_iter, c.rel, c.abs, c.verbose, failing_dot); }
        return WITH(c, new PCGSolver, A);
    }
    if (c.dot) { return new PCGSolver(A, *w.pre[c.m], c.max_iter, c.rel, c.abs, c.verbose, failing_dot); }
    return WITH(c, new PCGSolver, A, *w.pre[c.m]);
}
template <> MINRESSolver* make<MINRESSolver>(Kind, const World& w, const Settings& c)
{
    if (c.dot) { return new MINRESSolver(*w.sym[c.a], c.max_iter, c.rel, c.abs, c.verbose, failing_dot); }
    return WITH(c, new MINRESSolver, *w.sym[c.a]);
}
template <> PMINRESSolver* make<PMINRESSolver>(Kind, const World& w, const Settings& c)
{
    if (c.dot) { return new PMINRESSolver(*w.sym[c.a], *w.pre[c.m], c.max_iter, c.rel, c.abs, c.verbose, failing_dot); }
    return WITH(c, new PMINRESSolver, *w.sym[c.a], *w.pre[c.m]);
}
const Op& op_of(Kind k, const World& w, const Settings& c) { return k == CG_ || k == PCG_ ? *w.spd[c.a] : *w.sym[c.a]; }
const Op* pre_of(Kind k, const World& w, const Settings& c) { return k == PCG_ || k == PMIN_ ? w.pre[c.m].get() : nullptr; }

Settings draw_settings(const World& w)
{
    static const double rels[] = {1e-16, 1e-8, 1e-4, 1e-2, 0.5, 0.0};
    static const double abss[] = {1e-16, 0.0, 1e-8, 1e-3, 1e-1};
    Settings c;
    c.live = true;
    c.a = choose(2, "operator");
    c.m = choose(2, "preconditioner");
    c.rel = rels[choose(6, "relative tolerance")];
    c.abs = abss[choose(5, "absolute tolerance")];
    c.dot = choose(2, "own inner product");
    c.verbose = choose(4, "verbose") == 3;
    c.max_iter = choose(2, "few iterations") ? (int)choose(w.n + 2, "iterations") : 4 * w.n + 12;
    if (c.rel == 0.0 && c.abs == 0.0) { c.abs = 1e-16; }
    if (choose(4, "default arguments") == 3) { c.given = choose(4, "arguments given"); c.dot = false; }
    if (c.given < 1) { c.max_iter = 1000; }
    if (c.given < 2) { c.rel = 1e-16; }
    if (c.given < 3) { c.abs = 1e-16; }
    if (c.given < 4) { c.verbose = false; sim::count("probe.default_arguments"); }
    return c;
}

V draw_vec(int n, const char* what)
{
    V v(n);
    const bool zero = choose(6, "zero vector") == 5;
    for (auto& x : v) { x = zero ? 0.0 : sim::range(-8, 8, what) / 4.0; }
    return v;
}

// What k steps of a Krylov method give by definition: the minimiser over x0 + span{z, (MA)z, ...} of the A-norm of the
// error (CG) or of the M-norm of the residual (MINRES); independent of any recurrence.
struct Krylov
{
    typedef long double L;
    int n;
    std::vector<std::vector<L>> basis;
    bool exact = false;                       // the subspace became invariant
    Krylov(const M& A, const V* md, const V& r0, int k) : n((int)A.size())
    {
        std::vector<L> v(n);
        for (int i = 0; i < n; ++i) { v[i] = (md ? (*md)[i] : 1.0) * r0[i]; }
        L scale0 = 0;
        for (L x : v) { scale0 += x * x; }
        scale0 = std::sqrt(scale0);
        for (int s = 0; s < k; ++s)
        {
            L before = 0;
            for (L x : v) { before += x * x; }
            before = std::sqrt(before);
            for (int pass = 0; pass < 2; ++pass)
            {
                for (auto& b : basis)
                {
                    L d = 0;
                    for (int i = 0; i < n; ++i) { d += b[i] * v[i]; }
                    for (int i = 0; i < n; ++i) { v[i] -= d * b[i]; }
                }
            }
            L nv = 0;
            for (L x : v) { nv += x * x; }
            nv = std::sqrt(nv);
            if (nv <= 1e-7L * before || nv == 0) { exact = nv <= 1e-15L * before || nv == 0; degenerate = !exact; break; }
            for (L& x : v) { x /= nv; }
            basis.push_back(v);
            std::vector<L> u(n, 0);
            for (int i = 0; i < n; ++i)
            {
                for (int j = 0; j < n; ++j) { u[i] += (L)A[i][j] * v[j]; }
                u[i] *= md ? (*md)[i] : 1.0;
            }
            v = u;
        }
        if ((int)basis.size() == n) { exact = true; }
    }
    bool degenerate = false;
    // Minimise over the first k basis vectors; false when the small system is too ill-conditioned to be an oracle.
    bool iterate(const M& A, const V* md, const V& r0, const V& x0, int k, bool minres, V& out) const
    {
        k = std::min<int>(k, (int)basis.size());
        std::vector<std::vector<L>> ab(k, std::vector<L>(n, 0));
        for (int s = 0; s < k; ++s) { for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { ab[s][i] += (L)A[i][j] * basis[s][j]; } } }
        std::vector<std::vector<L>> g(k, std::vector<L>(k + 1, 0));
        for (int s = 0; s < k; ++s)
        {
            for (int t = 0; t < k; ++t)
            {
                for (int i = 0; i < n; ++i) { g[s][t] += (minres ? ab[s][i] * (md ? (L)(*md)[i] : 1) : basis[s][i]) * ab[t][i]; }
            }
            for (int i = 0; i < n; ++i) { g[s][k] += (minres ? ab[s][i] * (md ? (L)(*md)[i] : 1) : basis[s][i]) * (L)r0[i]; }
        }
        L big = 0;
        for (auto& row : g) { for (int t = 0; t < k; ++t) { big = std::max(big, std::fabs(row[t])); } }
        for (int c = 0; c < k; ++c)
        {
            int p = c;
            for (int r = c; r < k; ++r) { if (std::fabs(g[r][c]) > std::fabs(g[p][c])) { p = r; } }
            std::swap(g[c], g[p]);
            if (std::fabs(g[c][c]) < 1e-8L * big) { return false; }
            for (int r = 0; r < k; ++r)
            {
                if (r == c) { continue; }
                const L f = g[r][c] / g[c][c];
                for (int t = c; t <= k; ++t) { g[r][t] -= f * g[c][t]; }
            }
        }
        out = x0;
        for (int i = 0; i < n; ++i)
        {
            L s = 0;
            for (int c = 0; c < k; ++c) { s += g[c][k] / g[c][c] * basis[c][i]; }
            out[i] = (double)(x0[i] + s);
        }
        return true;
    }
};

void check_solution(Kind k, const World& w, const Settings& c, const V& b, const V& x0, const V& x, int iters)
{
    const Op& A = op_of(k, w, c);
    const Op* P = pre_of(k, w, c);
    V md;
    if (P) { for (int i = 0; i < w.n; ++i) { md.push_back(P->a[i][i]); } }
    const V* mp = P ? &md : nullptr;
    if (iters < 0 || iters > std::max(0, c.max_iter)) { violation("too-many-iterations", "%s: %d iterations with a limit of %d", KIND[k], iters, c.max_iter); }
    for (double v : x) { if (!std::isfinite(v)) { violation("not-finite", "%s: the solution of a well-posed system is not finite", KIND[k]); } }

    V r0 = times(A.a, x0), r = times(A.a, x);
    for (int i = 0; i < w.n; ++i) { r0[i] = b[i] - r0[i]; r[i] = b[i] - r[i]; }
    const bool minres = k == MIN_ || k == PMIN_;
    auto measure = [&](const V& v) { V z = v; if (P) { for (int i = 0; i < w.n; ++i) { z[i] *= md[i]; } } return std::sqrt(std::max(0.0, dot(z, v))); };
    const double m0 = measure(r0), m1 = measure(r);
    const double scale = measure(b) + measure(times(A.a, x0)) + 1.0;
    const double tol = std::max(m0 * c.rel, c.abs);
    if (iters < c.max_iter && m1 > tol * 1.001 + 1e-12 * scale)
    {
        violation("stopped-early", "%s stopped after %d of %d iterations with residual %.3e, tolerance %.3e", KIND[k], iters, c.max_iter, m1, tol);
    }
    if (c.max_iter >= 4 * w.n + 12 && m1 > tol * 1.001 + 1e-8 * scale)
    {
        violation("not-solved", "%s: residual %.3e (tolerance %.3e) after %d iterations on %d unknowns", KIND[k], m1, tol, iters, w.n);
    }
    if (m1 > m0 * (1 + 1e-9) + 1e-9 * scale && minres) { violation("worse", "%s: the residual grew from %.3e to %.3e", KIND[k], m0, m1); }

    // Step by step: the number of iterations and the iterate.  Rounding takes over in long runs.
    if (w.n > 7 && iters > 8) { return; }
    Krylov kr(A.a, mp, r0, std::max(iters, 1));
    V want;
    if (kr.degenerate) { return; }
    if (iters <= (int)kr.basis.size() || kr.exact)
    {
        if (iters == 0) { if (!same(x, x0)) { violation("guess-changed", "%s changed the initial guess in 0 iterations", KIND[k]); } }
        else if (kr.iterate(A.a, mp, r0, x0, iters, minres, want))
        {
            V d = x;
            for (int i = 0; i < w.n; ++i) { d[i] -= want[i]; }
            if (norm(d) > 1e-6 * (1 + norm(want) + norm(x0))) { violation("wrong-iterate", "%s: after %d iterations the iterate is off by %.3e", KIND[k], iters, norm(d)); }
            sim::count("probe.compared_iterates");
        }
        // Not one iteration more than needed.
        V prev;
        if (iters >= 1 && iters <= (int)kr.basis.size() && kr.iterate(A.a, mp, r0, x0, iters - 1, minres, prev))
        {
            V rp = times(A.a, prev);
            for (int i = 0; i < w.n; ++i) { rp[i] = b[i] - rp[i]; }
            const double mp1 = measure(rp);
            if (mp1 < tol * 0.999 && tol > 1e-7 * scale) { violation("did-not-stop", "%s went on to iteration %d although the residual %.3e was below the tolerance %.3e", KIND[k], iters, mp1, tol); }
        }
    }
}

// Lines printed on the screen (the run's own capture file) since the last call.
long g_screen_at = -1;
int lines_shown()
{
    fflush(stdout);
    const long end = lseek(1, 0, SEEK_END);
    int n = 0;
    if (g_screen_at >= 0)
    {
        char buf[4096];
        for (long at = g_screen_at; at < end; )
        {
            const long k = pread(1, buf, sizeof buf, at);
            if (k <= 0) { break; }
            n += (int)std::count(buf, buf + k, '\n');
            at += k;
        }
    }
    g_screen_at = end;
    return n;
}

int g_lines = 0;                         // printed during the last solve

template <typename S>
int run_solver(const S& s, const V& b, const V& x0, V& x, Out& o)
{
    Vector<double> bv(b), xv(x0);
    lines_shown();
    o = attempt([&] { s.Mult(bv, VectorView<double>(xv)); });
    g_lines = lines_shown();
    x = copy_of(xv);
    if (!same(copy_of(bv), b)) { violation("rhs-changed", "a solve changed its right hand side"); }
    return s.GetNumIterations();
}

void heal(const World& w)
{
    for (auto* v : {&w.spd, &w.sym, &w.pre}) { for (auto& o : *v) { o->fail_at = -1; } }
    g_dot_fail_at = -1;
}

template <typename S>
void solve(Kind k, const World& w, S& s, const Settings& c, const V& b, const V& x0)
{
    Out o;
    V x;
    const int it = run_solver(s, b, x0, x, o);
    if (o.threw) { violation("refused", "%s failed although nothing else did: %s", KIND[k], o.what.c_str()); }
    if (g_lines != (c.verbose ? it : 0)) { violation("wrong-report", "%s, %s, printed %d lines in %d iterations", KIND[k], c.verbose ? "verbose" : "silent", g_lines, it); }
    std::unique_ptr<S> fresh(make<S>(k, w, spelled(c)));
    V x2;
    const int it2 = run_solver(*fresh, b, x0, x2, o);
    sim::event("%s solves, %d iterations", KIND[k], it);
    sim::state((uint64_t)k * 100 + it);
    if (it != it2 || !same(x, x2))
    {
        V d = x;
        for (size_t i = 0; i < d.size(); ++i) { d[i] -= x2[i]; }
        violation("history-dependent", "%s: a solve with a used object took %d iterations, with a new one of the same settings %d; results differ by %.3e", KIND[k], it, it2, norm(d));
    }
    if (s.Rows() != w.n || s.Cols() != w.n) { violation("wrong-size", "%s reports size %d x %d, not %d", KIND[k], s.Rows(), s.Cols(), w.n); }
    if (s.GetOperator() != &op_of(k, w, c)) { violation("wrong-operator", "%s does not refer to the operator it was given", KIND[k]); }
    check_solution(k, w, c, b, x0, x, it);
    if (choose(4, "in other units") == 3)
    {
        // The same system with its operator, preconditioner and right hand side in other units: the same steps.
        static const int powers[] = {0, 20, -20, 60, -60};
        const int ea = powers[choose(5, "operator")], eb = powers[choose(5, "right hand side")], ep = powers[choose(5, "preconditioner")];
        auto scaled = [](const Op& from, int e) { M a = from.a; for (auto& row : a) { for (double& v : row) { v = std::ldexp(v, e); } } return std::unique_ptr<Op>(new Op(a)); };
        World u;
        u.n = w.n;
        for (auto& o2 : w.spd) { u.spd.push_back(scaled(*o2, ea)); }
        for (auto& o2 : w.sym) { u.sym.push_back(scaled(*o2, ea)); }
        for (auto& o2 : w.pre) { u.pre.push_back(scaled(*o2, ep)); }
        Settings cu = spelled(c);
        cu.abs = std::ldexp(c.abs, eb + (pre_of(k, w, c) ? ep / 2 : 0));
        V bu = b, xu = x0, x3;
        for (double& v : bu) { v = std::ldexp(v, eb); }
        for (double& v : xu) { v = std::ldexp(v, eb - ea); }
        std::unique_ptr<S> other(make<S>(k, u, cu));
        const int it3 = run_solver(*other, bu, xu, x3, o);
        if (o.threw) { violation("refused", "%s failed on a system in other units: %s", KIND[k], o.what.c_str()); }
        for (double& v : x3) { v = std::ldexp(v, ea - eb); }
        V d = x3;
        for (size_t i = 0; i < d.size(); ++i) { d[i] -= x[i]; }
        if (it3 != it || !(norm(d) <= 1e-9 * (1 + norm(x)))) { violation("unit-dependent", "%s: %d iterations, and %d when the system is multiplied by powers of two; the solutions differ by %.3e", KIND[k], it, it3, norm(d)); }
        sim::count("probe.other_units");
    }
    sim::nontrivial();
}

template <typename S> void precondition(S&, const Op&) {}
template <> void precondition<PCGSolver>(PCGSolver& s, const Op& m) { s.SetPreconditioner(m); }

template <typename S>
void history(Kind k)
{
    Exempt exempt;
    World w;
    w.n = 1 + (choose(16, "more unknowns") == 15 ? 7 + choose(14, "size") : choose(7, "size"));
    for (int i = 0; i < 2; ++i)
    {
        w.spd.emplace_back(new Op(draw_matrix(w.n, true)));
        w.sym.emplace_back(new Op(draw_matrix(w.n, false)));
        M d(w.n, V(w.n, 0.0));
        for (int j = 0; j < w.n; ++j) { d[j][j] = (1 + choose(8, "preconditioner")) / 4.0; }
        w.pre.emplace_back(new Op(d));
    }
    const uint64_t live0 = sim::alloc::live();
    {
        Slots<S> sl;
        const int steps = 2 + choose(10, "steps");
        for (int st = 0; st < steps; ++st)
        {
            const int i = choose(3, "object"), j = choose(3, "other object");
            sim::steps(1);
            const unsigned what = choose(17, "step");
            sim::state(what);
            if (!sl.s[i] || what == 0)
            {
                sl.m[i] = draw_settings(w);
                if (choose(3, "created empty") == 2) { Track t; sl.s[i].reset(new S()); S tmp(*std::unique_ptr<S>(make<S>(k, w, sl.m[i]))); *sl.s[i] = std::move(tmp); }
                else { Track t; sl.s[i].reset(make<S>(k, w, sl.m[i])); }
                sim::event("object %d created", i);
                continue;
            }
            S& s = *sl.s[i];
            Settings& c = sl.m[i];
            if (what == 1 && sl.s[j] && i != j) { sim::event("object %d = copy of %d", i, j); Track t; s = *sl.s[j]; c = sl.m[j]; continue; }
            if (what == 2 && sl.s[j] && i != j)
            {
                sim::event("object %d = moved %d", i, j);
                Track t;
                s = std::move(*sl.s[j]);
                c = sl.m[j];
                sl.m[j].live = false;
                continue;
            }
            if (what == 3 && sl.s[j])
            {
                sim::event("objects %d and %d swapped", i, j);
                Track t;
                swap(s, *sl.s[j]);
                std::swap(c, sl.m[j]);
                continue;
            }
            if (what == 4)
            {
                sim::event("object %d replaced by a copy of %d", i, j);
                if (!sl.s[j]) { continue; }
                Track t;
                std::unique_ptr<S> n(new S(*sl.s[j]));
                c = sl.m[j];
                sl.s[i] = std::move(n);
                continue;
            }
            if (what == 5 && i != j)
            {
                sim::event("object %d moved into a new object %d", i, j);
                Track t;
                std::unique_ptr<S> n(new S(std::move(s)));
                sl.s[j] = std::move(n);
                sl.m[j] = c;
                c.live = false;
                continue;
            }
            if (!c.live) { continue; }
            if (what == 6) { S& self = s; Track t; s = self; continue; }
            if (what == 7) { c.max_iter = choose(2, "few iterations") ? (int)choose(w.n + 2, "iterations") : 4 * w.n + 12; s.SetMaxIter(c.max_iter); continue; }
            if (what == 8) { c.rel = choose(2, "tight") ? 1e-2 : 1e-12; s.SetRelTol(c.rel); c.abs = choose(2, "tight") ? 1e-1 : 1e-16; s.SetAbsTol(c.abs); continue; }
            if (what == 15) { c.verbose = choose(3, "now verbose") == 2; s.SetVerbose(c.verbose); continue; }
            if (what == 9) { c.a = 1 - c.a; s.SetOperator(op_of(k, w, c)); continue; }
            if (what == 10 && k == PCG_) { c.m = 1 - c.m; precondition(s, *w.pre[c.m]); continue; }
            const V b = draw_vec(w.n, "right hand side");
            V x0 = choose(3, "zero guess") ? draw_vec(w.n, "guess") : V(w.n, 0.0);
            if (choose(8, "exact guess") == 7)
            {
                const V rhs = times(op_of(k, w, c).a, x0);
                solve(k, w, s, c, rhs, x0);
                continue;
            }
            if (what <= 12)
            {
                // A solve in which the operator, the preconditioner or the inner product fails.
                const unsigned who = choose(3, "what fails");
                const long at = choose(2, "early") ? (long)choose(3, "fails at") : (long)choose(3 * w.n + 3, "fails at");
                const Op* f = who == 1 && pre_of(k, w, c) ? pre_of(k, w, c) : &op_of(k, w, c);
                const bool dot_fails = who == 2 && c.dot;
                const int how = (int)choose(dot_fails ? 2 : 3, "how");
                if (who == 2 && c.dot) { g_dot_fail_at = at; }
                else { f->fail_at = at; f->fail_how = how; }
                Out o;
                V x;
                run_solver(s, b, x0, x, o);
                const bool fired = who == 2 && c.dot ? g_dot_fail_at < 0 : f->fail_at < 0;
                heal(w);
                if (fired)
                {
                    sim::count(who == 2 && c.dot ? "fault.inner_product_throws" : f == pre_of(k, w, c) ? "fault.preconditioner_throws" : "fault.operator_throws");
                    sim::event("object %d: solve interrupted", i);
                    if (how >= 2)
                    {
                        // Whatever comes of it, it comes within the limit, and the next solve knows nothing of it.
                        sim::count("fault.damaged_product");
                        if (!o.threw && s.GetNumIterations() > c.max_iter) { violation("too-many-iterations", "%s took %d of at most %d iterations after a damaged product", KIND[k], s.GetNumIterations(), c.max_iter); }
                        if (choose(2, "repeat")) { solve(k, w, s, c, b, x0); }
                        continue;
                    }
                    const bool right = who == 2 && c.dot ? o.what == "reduction failed" : how ? o.what == std::bad_alloc().what() : o.what == "operator failed";
                    if (!o.threw) { violation("failure-swallowed", "%s returned although its operator failed", KIND[k]); }
                    if (!right) { violation("failure-changed", "%s reported '%s' when its operator failed", KIND[k], o.what.c_str()); }
                    if (choose(2, "repeat")) { solve(k, w, s, c, b, x0); }
                    continue;
                }
            }
            if (choose(6, "no memory") == 5)
            {
                sim::alloc::arm(choose(3, "fail at"), false);
                Out o;
                V x;
                run_solver(s, b, x0, x, o);
                if (sim::alloc::fired()) { sim::count("fault.alloc_failure"); }
                sim::alloc::disarm();
                continue;
            }
            solve(k, w, s, c, b, x0);
        }
    }
    if (sim::alloc::live() != live0) { violation("leak", "solver objects leaked"); }
}

// The free functions, with and without an initial guess.
void one_shot()
{
    Exempt exempt;
    World w;
    w.n = 1 + choose(7, "size");
    w.spd.emplace_back(new Op(draw_matrix(w.n, true)));
    w.sym.emplace_back(new Op(draw_matrix(w.n, false)));
    M d(w.n, V(w.n, 0.0));
    for (int j = 0; j < w.n; ++j) { d[j][j] = (1 + choose(8, "preconditioner")) / 4.0; }
    w.pre.emplace_back(new Op(d));
    const Kind k = (Kind)choose(KINDS, "method");
    Settings c = draw_settings(w);
    c.a = c.m = 0;
    const Op& A = op_of(k, w, c);
    const Op* P = pre_of(k, w, c);
    const V b = draw_vec(w.n, "right hand side");
    const bool guess = choose(2, "initial guess");
    V x0 = guess ? draw_vec(w.n, "guess") : V(w.n, 0.0);
    Vector<double> bv(b), x(x0);
    sim::host::entropy_on(true);
    sim::host::entropy_seed(sim::bits("entropy"));
    const bool dead = !guess && choose(6, "no entropy") == 5;
    sim::host::entropy_fail(dead);
    const long fail = choose(4, "operator fails") == 3 ? (long)choose(2 * w.n, "fails at") : -1;
    A.fail_at = fail;
    A.fail_how = 0;
    lines_shown();
    Out o = attempt([&]
    {
        if (guess)
        {
            VectorView<double> v(x);
            switch (k)
            {
                case CG_: WITH(c, CG, A, bv, v); break;
                case PCG_: WITH(c, PCG, A, *P, bv, v); break;
                case MIN_: WITH(c, MINRES, A, bv, v); break;
                default: WITH(c, PMINRES, A, *P, bv, v);
            }
        }
        else
        {
            switch (k)
            {
                case CG_: x = WITH(c, CG, A, bv); break;
                case PCG_: x = WITH(c, PCG, A, *P, bv); break;
                case MIN_: x = WITH(c, MINRES, A, bv); break;
                default: x = WITH(c, PMINRES, A, *P, bv);
            }
        }
    });
    const int lines = lines_shown();
    if (!c.verbose && lines) { violation("wrong-report", "%s, silent, printed %d lines", KIND[k], lines); }
    sim::host::entropy_on(false);
    const bool fired = fail >= 0 && A.fail_at < 0;
    heal(w);
    sim::event("%s%s: %s", KIND[k], guess ? "" : ", random guess", o.threw ? o.what.c_str() : "returned");
    sim::state((uint64_t)k * 2 + guess);
    if (!same(copy_of(bv), b)) { violation("rhs-changed", "a solve changed its right hand side"); }
    if (fired)
    {
        sim::count("fault.operator_throws");
        if (!o.threw) { violation("failure-swallowed", "%s returned although its operator failed", KIND[k]); }
        return;
    }
    if (dead)
    {
        sim::count("fault.entropy_unavailable");
        if (o.threw) { return; }
    }
    if (o.threw) { violation("refused", "%s failed although nothing else did: %s", KIND[k], o.what.c_str()); }
    const V xv = copy_of(x);
    if ((int)xv.size() != w.n) { violation("wrong-size", "%s returned %zu entries for %d unknowns", KIND[k], xv.size(), w.n); }
    sim::nontrivial();
    if (guess)
    {
        // The same as the reusable object does.
        Out o2;
        V x2;
        int it = 0;
        if (k == CG_ || k == PCG_) { std::unique_ptr<PCGSolver> s(make<PCGSolver>(k, w, spelled(c, false))); it = run_solver(*s, b, x0, x2, o2); }
        else if (k == MIN_) { const Settings q = spelled(c, false); std::unique_ptr<MINRESSolver> s(make<MINRESSolver>(k, w, q)); it = run_solver(*s, b, x0, x2, o2); }
        else { const Settings q = spelled(c, false); std::unique_ptr<PMINRESSolver> s(make<PMINRESSolver>(k, w, q)); it = run_solver(*s, b, x0, x2, o2); }
        if (c.verbose && lines != g_lines) { violation("wrong-report", "the free function of verbose %s printed %d lines, the solver object %d in %d iterations", KIND[k], lines, g_lines, it); }
        V dif = xv;
        for (size_t q = 0; q < dif.size(); ++q) { dif[q] -= x2[q]; }
        if (!(norm(dif) <= 1e-12 * (1 + norm(xv)))) { violation("function-differs", "the free function and the solver object of %s differ by %.3e", KIND[k], norm(dif)); }
        check_solution(k, w, c, b, x0, xv, it);
        return;
    }
    if (c.max_iter >= 4 * w.n + 12)
    {
        // Whatever the random guess was (entries in [0,1)), its residual is bounded, and so is what remains of it.
        V r = times(A.a, xv);
        double rows = 0;
        for (int i = 0; i < w.n; ++i) { r[i] = b[i] - r[i]; double s = 0; for (double q : A.a[i]) { s += std::fabs(q); } rows = std::max(rows, s); }
        const double m0 = (norm(b) + rows * w.n) * 2;
        if (!(norm(r) <= std::max(m0 * c.rel, c.abs) * 6 + 1e-7 * m0))
        {
            violation("not-solved", "%s from a random guess left residual %.3e", KIND[k], norm(r));
        }
    }
}

// Long iterations: systems of 10-90 unknowns whose spectrum is known, so that the error after k steps has a bound from theory
// (Chebyshev), whatever the history of the solver object and wherever an earlier solve was interrupted.
struct Big
{
    int n, blocks;                            // unknowns; 1: positive definite, 2: eigenvalues on both sides
    double lo, hi;                            // (preconditioned) spectrum in absolute value
    M a;
    V md;                                     // diagonal of the preconditioner
};

Big draw_big(bool indefinite, bool preconditioned)
{
    Big g;
    const int m = 10 + (int)choose(indefinite ? 36 : 81, "unknowns");
    g.blocks = indefinite ? 2 : 1;
    g.n = m * g.blocks;
    static const double shifts[] = {0.0, 0.01, 0.1, 1.0};
    const double sigma = shifts[choose(4, "shift")];
    const double pi = std::acos(-1.0);
    g.lo = 2 - 2 * std::cos(pi / (m + 1)) + sigma;
    g.hi = 2 + 2 * std::cos(pi / (m + 1)) + sigma;
    M t(m, V(m, 0.0));
    for (int i = 0; i < m; ++i) { t[i][i] = 2 + sigma; if (i) { t[i][i - 1] = t[i - 1][i] = -1; } }
    g.a.assign(g.n, V(g.n, 0.0));
    for (int i = 0; i < m; ++i) { for (int j = 0; j < m; ++j) { if (indefinite) { g.a[i][m + j] = g.a[m + i][j] = t[i][j]; } else { g.a[i][j] = t[i][j]; } } }
    g.md.assign(g.n, 1.0);
    if (preconditioned)
    {
        static const double d[] = {1.0, 2.0, 0.5};
        for (int i = 0; i < g.n; ++i)
        {
            const double x = d[choose(3, "scaling")];
            g.md[i] = 1 / (x * x);
            for (int j = 0; j < g.n; ++j) { g.a[i][j] *= x; }
            for (int j = 0; j < g.n; ++j) { g.a[j][i] *= x; }
        }
    }
    return g;
}

template <typename S>
void long_run(Kind k)
{
    Exempt exempt;
    World w;
    const bool minres = k == MIN_ || k == PMIN_, pre = k == PCG_ || k == PMIN_;
    const Big g = draw_big(minres && choose(2, "indefinite"), pre);
    w.n = g.n;
    M d(w.n, V(w.n, 0.0));
    for (int j = 0; j < w.n; ++j) { d[j][j] = g.md[j]; }
    w.spd.emplace_back(new Op(g.a));
    w.sym.emplace_back(new Op(g.a));
    w.pre.emplace_back(new Op(d));
    Settings c;
    c.live = true;
    c.dot = choose(2, "own inner product");
    c.rel = choose(2, "relative tolerance") ? 1e-5 : 1e-9;
    c.abs = 0.0;
    c.max_iter = choose(2, "iterations") ? 8 * w.n + 50 : 1 + (int)choose(3 * w.n, "iteration limit");
    if (choose(8, "default arguments") == 7) { c.given = choose(2, "arguments given"); c.dot = false; c.rel = c.abs = 1e-16; if (!c.given) { c.max_iter = 1000; } }
    const uint64_t live0 = sim::alloc::live();
    {
        std::unique_ptr<S> s;
        { Track t; s.reset(make<S>(k, w, c)); }
        const unsigned solves = 1 + choose(3, "solves");
        for (unsigned q = 0; q < solves; ++q)
        {
            sim::steps(1);
            const double scale = (double)(1 << choose(12, "scale")) / 64;
            uint64_t seed = sim::bits("system") | 1;
            auto next = [&] { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return ((double)(int)(seed % 2001) - 1000) / 1000 * scale; };
            V x0(w.n, 0.0), xs(w.n);
            for (double& x : xs) { x = next(); }
            if (choose(2, "guess")) { for (double& x : x0) { x = next(); } }
            const V b = times(g.a, xs);
            if (choose(3, "interrupt") == 2)
            {
                const Op& A = op_of(k, w, c);
                A.fail_at = (long)choose(2 * w.n, "fails at");
                A.fail_how = 0;
                Out o;
                V x;
                run_solver(*s, b, x0, x, o);
                const bool fired = A.fail_at < 0;
                heal(w);
                if (fired) { sim::count("fault.operator_throws"); if (!o.threw) { violation("failure-swallowed", "%s returned although its operator failed", KIND[k]); } }
            }
            Out o;
            V x, x2;
            const int it = run_solver(*s, b, x0, x, o);
            if (o.threw) { violation("refused", "%s failed although nothing else did: %s", KIND[k], o.what.c_str()); }
            std::unique_ptr<S> fresh(make<S>(k, w, spelled(c)));
            const int it2 = run_solver(*fresh, b, x0, x2, o);
            sim::event("%s: %d iterations of at most %d on %d unknowns", KIND[k], it, c.max_iter, w.n);
            sim::state(((uint64_t)k << 20) + it);
            if (it != it2 || !same(x, x2)) { violation("history-dependent", "%s: a used object took %d iterations on %d unknowns, a new one %d, or gave another solution", KIND[k], it, w.n, it2); }
            if (it < 0 || it > c.max_iter) { violation("too-many-iterations", "%s: %d iterations with a limit of %d", KIND[k], it, c.max_iter); }
            V e = x, e0 = x0;
            for (int i = 0; i < w.n; ++i) { e[i] -= xs[i]; e0[i] -= xs[i]; }
            const V r = times(g.a, e), r0 = times(g.a, e0);
            auto mnorm = [&](const V& v) { double t = 0; for (int i = 0; i < w.n; ++i) { t += v[i] * v[i] * g.md[i]; } return std::sqrt(t); };
            auto anorm = [&](const V& v, const V& av) { return std::sqrt(std::max(0.0, dot(v, av))); };
            // Conjugate gradients are bounded in the error, minimal residuals in the residual.
            const double before = minres ? mnorm(r0) : anorm(e0, r0), after = minres ? mnorm(r) : anorm(e, r);
            const double kappa = g.hi / g.lo;
            const double rho = g.blocks == 2 ? (kappa - 1) / (kappa + 1) : (std::sqrt(kappa) - 1) / (std::sqrt(kappa) + 1);
            const int steps = g.blocks == 2 ? it / 2 : it;
            const double bound = std::min(1.0, 2 * std::pow(rho, steps));
            if (!(after <= before * bound * 1.05 + 1e-9 * before))
            {
                violation("too-slow", "%s: after %d iterations on %d unknowns the error went from %.3e to %.3e; the method guarantees %.3e", KIND[k], it, w.n, before, after, before * bound);
            }
            const double m0 = mnorm(r0), m1 = mnorm(r);
            const double tol = m0 * c.rel;
            if (it < c.max_iter && m1 > tol * 1.01 + 1e-11 * m0 * kappa) { violation("stopped-early", "%s stopped after %d of %d iterations with residual %.3e, tolerance %.3e", KIND[k], it, c.max_iter, m1, tol); }
            sim::count("probe.long_solve");
            sim::nontrivial();
        }
    }
    if (sim::alloc::live() != live0) { violation("leak", "solver objects leaked"); }
}
void long_cg() { long_run<PCGSolver>(CG_); }
void long_pcg() { long_run<PCGSolver>(PCG_); }
void long_min() { long_run<MINRESSolver>(MIN_); }
void long_pmin() { long_run<PMINRESSolver>(PMIN_); }

// A solver as the preconditioner, or as the operator, of another one.
void nested()
{
    Exempt exempt;
    World w;
    w.n = 1 + choose(9, "size");
    w.spd.emplace_back(new Op(draw_matrix(w.n, true)));
    const Op& A = *w.spd[0];
    const int solves = 1 + (int)choose(3, "solves");
    const uint64_t live0 = sim::alloc::live();
    {
        std::unique_ptr<PCGSolver> inner, outer;
        const bool as_operator = choose(2, "as operator");
        { Track t; inner.reset(new PCGSolver(A, 10 * w.n + 20, 1e-15, 0.0)); }
        if (as_operator) { Track t; outer.reset(new PCGSolver(*inner, 10 * w.n + 20, 1e-9, 0.0)); }
        else { Track t; outer.reset(new PCGSolver(A, *inner, 10 * w.n + 20, 1e-9, 0.0)); }
        for (int q = 0; q < solves; ++q)
        {
            sim::steps(1);
            const V want = draw_vec(w.n, "solution");
            Out o;
            V x;
            if (choose(3, "interrupt") == 2)
            {
                A.fail_at = (long)choose(6 * w.n, "fails at");
                A.fail_how = 0;
                run_solver(*outer, want, V(w.n, 0.0), x, o);
                const bool fired = A.fail_at < 0;
                heal(w);
                if (fired) { sim::count("fault.operator_throws"); if (!o.threw) { violation("failure-swallowed", "a nested solve returned although the operator failed"); } }
            }
            // outer over inner solves inv(A) x = b, that is x = A b
            const V b = as_operator ? want : times(A.a, want);
            const V sol = as_operator ? times(A.a, want) : want;
            const int it = run_solver(*outer, b, V(w.n, 0.0), x, o);
            if (o.threw) { violation("refused", "a nested solve failed although nothing else did: %s", o.what.c_str()); }
            V e = x;
            for (int i = 0; i < w.n; ++i) { e[i] -= sol[i]; }
            sim::event("nested %s: %d iterations", as_operator ? "operator" : "preconditioner", it);
            sim::state(it);
            // The convergence test is in the norm of the preconditioned residual; systems are well conditioned.
            if (norm(e) > 1e-5 * (1 + norm(sol))) { violation("not-solved", "a nested solve is off by %.3e after %d iterations", norm(e), it); }
            if (!as_operator && it > 2) { violation("too-slow", "%d iterations with an exact preconditioner", it); }
            sim::count("probe.nested_solve");
            sim::nontrivial();
        }
    }
    if (sim::alloc::live() != live0) { violation("leak", "solver objects leaked"); }
}

void hist_cg() { history<PCGSolver>(CG_); }
void hist_pcg() { history<PCGSolver>(PCG_); }
void hist_min() { history<MINRESSolver>(MIN_); }
void hist_pmin() { history<PMINRESSolver>(PMIN_); }

// ==================================================================================
// P10: timers
// ==================================================================================

void timers()
{
    Exempt exempt;
    using namespace sim::host;
    struct T { std::unique_ptr<Timer> t; std::vector<uint64_t> clicks; };
    T slot[3];
    clock_on(true);
    const int steps = 3 + choose(20, "steps");
    auto check = [&](T& s, int i)
    {
        if (!s.t) { return; }
        const size_t n = s.clicks.size();
        const double total = s.t->TotalTime();
        const double want = n < 2 ? 0.0 : (s.clicks.back() - s.clicks.front()) * 1e-9;
        if (!(std::fabs(total - want) <= 1e-11 * want + 2e-9)) { violation("wrong-total", "timer %d reports %.9f s in total; %.9f s went by", i, total, want); }
        double sum = 0;
        for (size_t q = 0; q + 1 < n; ++q)
        {
            const double lap = (*s.t)[(int)q], wl = (s.clicks[q + 1] - s.clicks[q]) * 1e-9;
            sum += lap;
            if (!(lap >= 0)) { violation("negative-time", "timer %d: lap %zu took %.9f s", i, q, lap); }
            if (!(std::fabs(lap - wl) <= 1e-11 * wl + 2e-9)) { violation("wrong-lap", "timer %d: lap %zu is %.9f s; %.9f s went by", i, q, lap, wl); }
        }
        if (n >= 2 && !(std::fabs(sum - total) <= 1e-11 * total + 4e-9)) { violation("laps-differ", "timer %d: the laps add up to %.9f s, the total is %.9f s", i, sum, total); }
        if (n >= 2) { sim::nontrivial(); }
    };
    for (int st = 0; st < steps; ++st)
    {
        const int i = choose(3, "timer"), j = choose(3, "other timer");
        T& s = slot[i];
        sim::steps(1);
        // Time goes by: nothing, nanoseconds, a stall, days.
        static const uint64_t mags[] = {0, 1000, 1000000, 1000000000ull, 3600ull * 1000000000, 86400ull * 30 * 1000000000};
        const unsigned mag = choose(6, "time passes");
        if (mag) { pass(1 + sim::bits("elapsed") % mags[mag]); }
        if (choose(3, "clock changed") == 2)
        {
            static const int64_t js[] = {1000000000ll, 3600ll * 1000000000, 86400ll * 365 * 1000000000, 1000000ll, 1ll};
            const int64_t by = js[choose(5, "by")] * (choose(2, "back") ? -1 : 1);
            jump_wall(by);
            sim::count(by < 0 ? "fault.clock_set_back" : "fault.clock_set_forward");
            sim::event("wall clock set by %lld ns", (long long)by);
        }
        const unsigned what = choose(8, "step");
        if (!s.t || what == 0)
        {
            const bool start = choose(2, "started");
            { Track t; s.t.reset(start ? new Timer(Timer::Start::True) : choose(2, "explicit") ? new Timer(Timer::Start::False) : new Timer()); }
            s.clicks.clear();
            if (start) { s.clicks.push_back(true_time()); }
            sim::event("timer %d created%s", i, start ? " and started" : "");
        }
        else if (what == 1 && slot[j].t) { Track t; *s.t = *slot[j].t; s.clicks = slot[j].clicks; sim::event("timer %d = timer %d", i, j); }
        else if (what == 2) { check(s, i); }
        else if (what == 3)
        {
            sim::alloc::arm(0, false);
            Out o = attempt([&] { s.t->Click(); });
            if (sim::alloc::fired()) { sim::count("fault.alloc_failure"); }
            sim::alloc::disarm();
            if (!o.threw) { s.clicks.push_back(true_time()); }
            sim::event("timer %d clicked%s", i, o.threw ? ", in vain" : "");
        }
        else if (what == 4 && slot[j].t && i != j)
        {
            // what was moved from is used no more before it is assigned to
            Track t;
            if (choose(2, "constructed")) { s.t.reset(new Timer(std::move(*slot[j].t))); } else { *s.t = std::move(*slot[j].t); }
            s.clicks = slot[j].clicks;
            if (choose(2, "swapped back")) { std::unique_ptr<Timer> n(new Timer); slot[j].t = std::move(n); } else { *slot[j].t = Timer(); }
            slot[j].clicks.clear();
            sim::event("timer %d moved to timer %d", j, i);
        }
        else if (what == 5 && choose(20, "a long series") == 19)
        {
            const int n = 50 + (int)choose(3000, "clicks");
            uint64_t g = sim::bits("bulk seed") | 1;
            for (int k = 0; k < n; ++k)
            {
                g ^= g << 13; g ^= g >> 7; g ^= g << 17;
                pass(1 + (g >> 20) % 1000003);
                { Track t; s.t->Click(); }
                s.clicks.push_back(true_time());
            }
            sim::count("probe.long_series");
            sim::event("timer %d clicked %d times", i, n);
        }
        else { Track t; s.t->Click(); s.clicks.push_back(true_time()); sim::event("timer %d clicked", i); }
        sim::state((uint64_t)what * 16 + mag);
        check(s, i);
    }
    for (int i = 0; i < 3; ++i) { check(slot[i], i); }
    clock_on(false);
}

// ==================================================================================
// P11: random vectors
// ==================================================================================

struct RCall
{
    bool ints;
    int n, lo, hi, seed, form;
    double scale;
    int given;                                 // how many of the arguments are spelled out
    double low() const { return lo * scale; }
    double high() const { return hi * scale; }
};

RCall draw_rcall()
{
    RCall c;
    c.form = choose(4, "form");
    c.ints = c.form == 1 || c.form == 3;
    c.n = choose(5, "no entries") == 4 ? 0 : choose(30, "many entries") == 29 ? sim::extent(100, 5100, "entries") : 1 + (int)choose(12, "entries");
    c.lo = sim::range(-5, 5, "low");
    c.hi = c.lo + (choose(4, "single value") == 3 ? 0 : 1 + (int)choose(10, "width"));
    c.scale = 1;
    c.given = 3;
    if (c.form == 0) { static const double scales[] = {1, 0.125, 1e-3, 1e9, 1e-200}; c.scale = scales[choose(5, "scale")]; }
    else if (choose(5, "wide") == 4) { c.lo = choose(2, "lowest") ? -2147483647 - 1 : -2000000000; c.hi = choose(2, "highest") ? 2147483647 : 1900000000; }
    c.seed = choose(3, "seeded") ? (choose(4, "big seed") == 3 ? (int)(sim::bits("seed") & 0x7fffffff) : (int)choose(5, "seed")) : -1 - (int)choose(3, "no seed");
    if (choose(6, "default arguments") == 5)
    {
        c.given = (int)choose(3, "given");
        c.seed = -1;
        if (c.given < 2) { c.hi = 1; c.lo = std::min(c.lo, 1); c.scale = 1; }
        if (c.given < 1) { c.lo = 0; }
    }
    return c;
}

// Runs the call; the result as doubles.
Out rcall(const RCall& c, V& out, unsigned guard)
{
    Out o;
    if (c.ints)
    {
        Vector<int> big(c.n + 2, (int)(1000 + guard));
        int* p = &big[0];
        VectorView<int> v(p + 1, c.n);
        o = attempt([&] { 
            switch (c.given)
            {
                case 0: if (c.form == 1) { Randomize(v); } else { v.Randomize(); } break;
                case 1: if (c.form == 1) { Randomize(v, c.lo); } else { v.Randomize(c.lo); } break;
                case 2: if (c.form == 1) { Randomize(v, c.lo, c.hi); } else { v.Randomize(c.lo, c.hi); } break;
                default: if (c.form == 1) { Randomize(v, c.lo, c.hi, c.seed); } else { v.Randomize(c.lo, c.hi, c.seed); }
            } });
        out.assign(p + 1, p + 1 + c.n);
        if (p[0] != (int)(1000 + guard) || p[c.n + 1] != (int)(1000 + guard)) { violation("outside-written", "Randomize changed entries outside its vector"); }
        if (o.threw) { for (double x : out) { if (x != 1000 + guard) { violation("half-done", "Randomize failed but changed its vector"); } } }
        return o;
    }
    Vector<double> big(c.n + 2, 1000.0 + guard);
    double* p = &big[0];
    VectorView<double> v(p + 1, c.n);
    o = attempt([&] { 
        switch (c.given)
        {
            case 0: if (c.form == 0) { Randomize(v); } else { v.Randomize(); } break;
            case 1: if (c.form == 0) { Randomize(v, c.low()); } else { v.Randomize(c.lo); } break;
            case 2: if (c.form == 0) { Randomize(v, c.low(), c.high()); } else { v.Randomize(c.lo, c.hi); } break;
            default: if (c.form == 0) { Randomize(v, c.low(), c.high(), c.seed); } else { v.Randomize(c.lo, c.hi, c.seed); }
        } });
    out.assign(p + 1, p + 1 + c.n);
    if (p[0] != 1000.0 + guard || p[c.n + 1] != 1000.0 + guard) { violation("outside-written", "Randomize changed entries outside its vector"); }
    if (o.threw) { for (double x : out) { if (x != 1000 + guard) { violation("half-done", "Randomize failed but changed its vector"); } } }
    return o;
}

void random_vectors()
{
    Exempt exempt;
    using namespace sim::host;
    entropy_on(true);
    struct Rec { RCall c; V v; };
    std::vector<Rec> done;
    const int steps = 2 + choose(10, "steps");
    uint64_t last_entropy = 0;
    for (int st = 0; st < steps; ++st)
    {
        sim::steps(1);
        RCall c = !done.empty() && choose(2, "again") ? done[choose((unsigned)done.size(), "which")].c : draw_rcall();
        const bool fail = choose(5, "no entropy") == 4;
        const uint64_t e = 1 + st * 7919ull + (uint64_t)sim::bits("entropy") * 65536;
        entropy_seed(e);
        entropy_fail(fail);
        if (fail) { sim::count("fault.entropy_unavailable"); }
        V v;
        const uint64_t reads = entropy_reads();
        Out o = rcall(c, v, st);
        entropy_fail(false);
        sim::event("Randomize %s n=%d [%d,%d] seed %d form %d%s: %s", c.ints ? "int" : "double", c.n, c.lo, c.hi, c.seed, c.form, fail ? " without entropy" : "",
                   o.threw ? "exception" : "done");
        sim::state((uint64_t)c.form * 8 + (c.seed >= 0) * 4 + fail * 2 + (c.lo == c.hi));
        if (o.threw)
        {
            if (!fail) { violation("refused", "Randomize failed: %s", o.what.c_str()); }
            if (c.seed >= 0) { violation("needs-entropy", "Randomize with seed %d failed because the entropy source did", c.seed); }
            continue;
        }
        (void)reads;
        for (double x : v)
        {
            if (!(x >= c.low() && x <= c.high())) { violation("out-of-range", "Randomize between %g and %g gave %g", c.low(), c.high(), x); }
            if (c.ints && x != (int)x) { violation("out-of-range", "not an integer"); }
        }
        sim::nontrivial();
        if (c.ints ? (double)c.hi - c.lo > 3.5e9 : c.lo < c.hi)          // of 5000 numbers from so many, no three repeat an earlier one
        {
            V sorted(v);
            std::sort(sorted.begin(), sorted.end());
            int twice = 0;
            for (size_t i = 1; i < sorted.size(); ++i) { twice += sorted[i] == sorted[i - 1]; }
            if (twice >= 3) { violation("not-random", "%d of %d random values are repeats", twice, c.n); }
        }
        for (auto& r : done)
        {
            if (r.c.ints != c.ints || r.c.n != c.n || r.c.lo != c.lo || r.c.hi != c.hi || r.c.scale != c.scale) { continue; }
            if (c.seed >= 0 && r.c.seed == c.seed)
            {
                if (!same(r.v, v)) { violation("not-reproducible", "Randomize with seed %d, %d entries in [%d,%d] gave different values the second time", c.seed, c.n, c.lo, c.hi); }
                sim::count("probe.seeded_repeats");
            }
            if (!c.ints && c.seed < 0 && r.c.seed < 0 && c.n >= 3 && c.lo < c.hi && e != last_entropy)
            {
                if (same(r.v, v)) { violation("not-random", "two unseeded calls gave the same values although the entropy differs"); }
                sim::count("probe.unseeded_repeats");
            }
            if (!c.ints && c.seed >= 0 && r.c.seed >= 0 && c.seed != r.c.seed && c.n >= 3 && c.lo < c.hi && c.seed > 1 && r.c.seed > 1)
            {
                if (same(r.v, v)) { violation("seed-ignored", "seeds %d and %d gave the same values", c.seed, r.c.seed); }
            }
        }
        last_entropy = e;
        done.push_back(Rec{c, v});
    }
    entropy_on(false);
}

} // namespace

// ==================================================================================
// P14: LAPACK failing
// ==================================================================================
namespace
{
long g_lapack_calls, g_lapack_fail = -1;
int g_lapack_info;
const char* g_lapack_failed;
unsigned g_work_mode;                 // what a workspace query answers: 0 as LAPACK does, 1 the least allowed, 2 more than it needs
int g_least, g_least_n;
bool lapack_fails(const char* who)
{
    g_lapack_calls++;
    if (g_lapack_fail < 0 || g_lapack_fail-- != 0) { return false; }
    g_lapack_failed = who;
    return true;
}
void spoil(double* a, long n) { for (long i = 0; i < n; ++i) { a[i] = i % 3 ? a[i] * 1.5 + 0.25 : -7.0; } }
}

extern "C"
{
#define QUERY(min) \
    if (*lwork == -1) { if (g_work_mode == 1) { *work = (double)std::max(1, (min)); } else if (g_work_mode == 2) { *work = *work + 17; } return; }

void __real_dgesvd_(const char*, const char*, const int*, const int*, double*, const int*, double*, double*, const int*, double*, const int*, double*, const int*, int*);
void __wrap_dgesvd_(const char* ju, const char* jv, const int* m, const int* n, double* a, const int* lda, double* s, double* u, const int* ldu, double* vt, const int* ldvt,
                    double* work, const int* lwork, int* info)
{
    __real_dgesvd_(ju, jv, m, n, a, lda, s, u, ldu, vt, ldvt, work, lwork, info);
    QUERY(std::max(3 * std::min(*m, *n) + std::max(*m, *n), 5 * std::min(*m, *n)))
    if (lapack_fails("dgesvd")) { spoil(a, (long)*lda * *n); spoil(s, std::min(*m, *n)); *info = g_lapack_info; }
}
void __real_dgeqp3_(const int*, const int*, double*, const int*, int*, double*, double*, const int*, int*);
void __wrap_dgeqp3_(const int* m, const int* n, double* a, const int* lda, int* jpvt, double* tau, double* work, const int* lwork, int* info)
{
    __real_dgeqp3_(m, n, a, lda, jpvt, tau, work, lwork, info);
    QUERY(3 * *n + 1)
    if (lapack_fails("dgeqp3")) { spoil(a, (long)*lda * *n); spoil(tau, std::min(*m, *n)); *info = g_lapack_info; }
}
void __real_dorgqr_(const int*, const int*, const int*, double*, const int*, const double*, double*, const int*, int*);
void __wrap_dorgqr_(const int* m, const int* n, const int* k, double* a, const int* lda, const double* tau, double* work, const int* lwork, int* info)
{
    __real_dorgqr_(m, n, k, a, lda, tau, work, lwork, info);
    QUERY(*n)
    if (lapack_fails("dorgqr")) { spoil(a, (long)*lda * *n); *info = g_lapack_info; }
}
void __real_dgetrf_(const int*, const int*, double*, const int*, int*, int*);
void __wrap_dgetrf_(const int* m, const int* n, double* a, const int* lda, int* ipiv, int* info)
{
    __real_dgetrf_(m, n, a, lda, ipiv, info);
    if (lapack_fails("dgetrf")) { spoil(a, (long)*lda * *n); for (int i = 0; i < std::min(*m, *n); ++i) { a[i + (long)i * *lda] += 3; } *info = g_lapack_info; }
}
void __real_dgetri_(const int*, double*, const int*, const int*, double*, const int*, int*);
void __wrap_dgetri_(const int* n, double* a, const int* lda, const int* ipiv, double* work, const int* lwork, int* info)
{
    __real_dgetri_(n, a, lda, ipiv, work, lwork, info);
    QUERY(*n)
    if (lapack_fails("dgetri")) { spoil(a, (long)*lda * *n); *info = g_lapack_info; }
}
void __real_dsytrd_(char*, const int*, double*, const int*, double*, double*, double*, double*, int*, int*);
void __wrap_dsytrd_(char* uplo, const int* n, double* a, const int* lda, double* d, double* e, double* tau, double* work, int* lwork, int* info)
{
    __real_dsytrd_(uplo, n, a, lda, d, e, tau, work, lwork, info);
    QUERY(1)
    if (lapack_fails("dsytrd")) { spoil(d, *n); *info = g_lapack_info; }
}
void __real_dsterf_(const int*, double*, double*, int*);
void __wrap_dsterf_(const int* n, double* d, double* e, int* info)
{
    __real_dsterf_(n, d, e, info);
    if (lapack_fails("dsterf")) { spoil(d, *n); *info = g_lapack_info; }
}
void __real_dstein_(const int*, const double*, const double*, int*, const double*, const int*, const int*, double*, const int*, double*, int*, int*, int*);
void __wrap_dstein_(const int* n, const double* d, const double* e, int* m, const double* w, const int* ib, const int* is, double* z, const int* ldz, double* work, int* iwork,
                    int* ifail, int* info)
{
    __real_dstein_(n, d, e, m, w, ib, is, z, ldz, work, iwork, ifail, info);
    if (lapack_fails("dstein")) { spoil(z, (long)*ldz * *m); if (*m > 0) { ifail[0] = 1; } *info = g_lapack_info; }
}
void __real_dormtr_(char*, char*, char*, const int*, const int*, const double*, const int*, const double*, double*, const int*, double*, int*, int*);
void __wrap_dormtr_(char* side, char* uplo, char* trans, const int* m, const int* n, const double* a, const int* lda, const double* tau, double* c, const int* ldc, double* work,
                    int* lwork, int* info)
{
    __real_dormtr_(side, uplo, trans, m, n, a, lda, tau, c, ldc, work, lwork, info);
    QUERY(*n)
    if (lapack_fails("dormtr")) { spoil(c, (long)*ldc * *n); *info = g_lapack_info; }
}
}

namespace
{
M draw_dense(int r, int c)
{
    M a(r, V(c, 0.0));
    if (r > 9 || c > 9)                     // one recorded choice stands for all entries
    {
        uint64_t q = sim::bits("entries") | 1;
        for (auto& row : a) { for (double& x : row) { q ^= q << 13; q ^= q >> 7; q ^= q << 17; x = (q >> 8) % 3 ? (double)((int)((q >> 20) % 17) - 8) / 4.0 : 0.0; } }
        return a;
    }
    for (auto& row : a) { for (double& x : row) { x = choose(3, "zero") ? sim::range(-8, 8, "entry") / 4.0 : 0.0; } }
    return a;
}
DenseMatrix dense(const M& a, int r, int c)
{
    DenseMatrix d(r, c);
    for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) { d(i, j) = a[i][j]; } }
    return d;
}
M model(const DenseMatrix& d)
{
    M a(d.Rows(), V(d.Cols()));
    for (int i = 0; i < d.Rows(); ++i) { for (int j = 0; j < d.Cols(); ++j) { a[i][j] = d(i, j); } }
    return a;
}
double frob(const M& a) { double s = 0; for (auto& r : a) { for (double x : r) { s += x * x; } } return std::sqrt(s); }
M mul(const M& a, const M& b, int k, int c)
{
    M o(a.size(), V(c, 0.0));
    for (size_t i = 0; i < a.size(); ++i) { for (int j = 0; j < c; ++j) { for (int l = 0; l < k; ++l) { o[i][j] += a[i][l] * b[l][j]; } } }
    return o;
}
M tr(const M& a, int c) { M o(c, V(a.size())); for (size_t i = 0; i < a.size(); ++i) { for (int j = 0; j < c; ++j) { o[j][i] = a[i][j]; } } return o; }
double off_identity(const M& a)
{
    double s = 0;
    for (size_t i = 0; i < a.size(); ++i) { for (size_t j = 0; j < a[i].size(); ++j) { s = std::max(s, std::fabs(a[i][j] - (i == j))); } }
    return s;
}
// Eigenvalues of a symmetric matrix by Jacobi rotations, ascending.
V jacobi(M a)
{
    const int n = (int)a.size();
    for (int sweep = 0; sweep < 60; ++sweep)
    {
        double off = 0;
        for (int p = 0; p < n; ++p)
        {
            for (int q = p + 1; q < n; ++q)
            {
                off += a[p][q] * a[p][q];
                if (a[p][q] == 0) { continue; }
                const double th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
                const double t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
                const double c = 1 / std::sqrt(t * t + 1), s = t * c;
                for (int k = 0; k < n; ++k) { const double x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
                for (int k = 0; k < n; ++k) { const double x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; }
            }
        }
        if (off < 1e-30) { break; }
    }
    V e(n);
    for (int i = 0; i < n; ++i) { e[i] = a[i][i]; }
    std::sort(e.begin(), e.end());
    return e;
}

void check_svd(const M& a, int r, int c, const V& s)
{
    const int k = std::min(r, c);
    if ((int)s.size() != k) { violation("wrong-result", "SVD of a %d x %d matrix gave %zu singular values", r, c, s.size()); }
    if (k == 0) { return; }
    V e = jacobi(mul(tr(a, c), a, r, c));
    std::reverse(e.begin(), e.end());
    const double sc = frob(a) + 1;
    for (int i = 0; i < k; ++i)
    {
        const double w = std::sqrt(std::max(0.0, e[i]));
        if (!(std::fabs(s[i] * s[i] - w * w) <= 1e-10 * sc * sc)) { violation("wrong-result", "singular value %d is %.9g, not %.9g", i, s[i], w); }
    }
}
void check_qr(const M& a, int r, int c, const M& q)
{
    const int k = std::min(r, c);
    if ((r == 0 || c == 0)) { return; }
    if ((int)q.size() != r || (int)q[0].size() != k) { violation("wrong-result", "QR of a %d x %d matrix gave %zu x %zu", r, c, q.size(), q.empty() ? 0 : q[0].size()); }
    if (!(off_identity(mul(tr(q, k), q, r, k)) <= 1e-10)) { violation("wrong-result", "the columns of Q are not orthonormal"); }
    // The columns of A lie in the span of Q (always so: pivoting puts the independent ones first).
    const M back = mul(q, mul(tr(q, k), a, r, c), k, c);
    M d = a;
    for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) { d[i][j] -= back[i][j]; } }
    if (!(frob(d) <= 1e-10 * (frob(a) + 1))) { violation("wrong-result", "Q does not span the columns of the matrix (off by %.3e)", frob(d)); }
}
void check_eig(const M& a, int n, double rel, int want, const EigenPair& p)
{
    const V& ev = p.first;
    const V ref = jacobi(a);
    const double sc = frob(a) + 1;
    if (n == 0)
    {
        if (!ev.empty() || p.second.Rows() || p.second.Cols()) { violation("wrong-result", "an empty matrix has %zu eigenvalues", ev.size()); }
        return;
    }
    if ((int)ev.size() != n) { violation("wrong-result", "%zu eigenvalues of a %d x %d matrix", ev.size(), n, n); }
    for (int i = 0; i < n; ++i) { if (!(std::fabs(ev[i] - ref[i]) <= 1e-10 * sc)) { violation("wrong-result", "eigenvalue %d is %.9g, not %.9g", i, ev[i], ref[i]); } }
    const int most = want < 0 || want > n ? n : want;
    int lo = 1, hi = 1;
    while (lo < most && ref[lo] <= ref.back() * rel - 1e-9 * sc) { ++lo; }
    while (hi < most && ref[hi] <= ref.back() * rel + 1e-9 * sc) { ++hi; }
    if (rel == 1.0) { lo = hi = most; }                     // the largest eigenvalue is as large as itself
    const M z = model(p.second);
    const int m = p.second.Cols();
    if (p.second.Rows() != n || m < lo || m > hi) { violation("wrong-result", "%d x %d eigenvectors; %d to %d were asked for", p.second.Rows(), m, lo, hi); }
    if (!(off_identity(mul(tr(z, m), z, n, m)) <= 1e-7)) { violation("wrong-result", "the eigenvectors are not orthonormal (off by %.3e)", off_identity(mul(tr(z, m), z, n, m))); }
    M az = mul(a, z, n, m);
    for (int i = 0; i < n; ++i) { for (int j = 0; j < m; ++j) { az[i][j] -= z[i][j] * ev[j]; } }
    if (!(frob(az) <= 1e-7 * sc)) { violation("wrong-result", "A z - lambda z is %.3e", frob(az)); }
}

void factorisations()
{
    Exempt exempt;
    EigenSolver solver;
    EigenPair kept;
    const int steps = 1 + choose(5, "steps");
    for (int st = 0; st < steps; ++st)
    {
        sim::steps(1);
        const unsigned what = choose(7, "operation");
        const bool square = what >= 2;
        // Now and then large enough for the blocked forms of the LAPACK routines.
        const int top = choose(24, "large") == 23 ? 75 : 9;
        const int r = choose(top, "rows") + (what >= 4 && choose(12, "may be empty") != 11 ? 1 : 0), c = square ? r : (int)choose(top, "cols");
        M a = draw_dense(r, c);
        const bool singular = what == 2 && r > 0 && choose(3, "singular") == 2;
        if (what == 2 || what == 3)
        {
            for (int i = 0; i < r; ++i) { double s = 0.5; for (double x : a[i]) { s += std::fabs(x); } a[i][i] += a[i][i] < 0 ? -s : s; }
            if (choose(2, "permuted") && r > 1) { std::swap(a[0], a[choose(r, "row")]); }
            if (singular)
            {
                const int i = choose(r, "row"), j = choose(r, "other row");
                for (int q = 0; q < r; ++q) { a[i][q] = i == j ? 0.0 : a[j][q]; }
            }
        }
        double rel = 1.0;
        int want = -1;
        if (what >= 4)
        {
            const unsigned shape = choose(4, "shape");
            // A graph of few edges: eigenvalues that repeat, several of them zero.
            if (choose(3, "few entries") == 2)
            {
                uint64_t q = sim::bits("entries kept") | 1;
                const unsigned one_in = 2 + choose(4, "kept one in");
                for (auto& row : a) { for (double& x : row) { q ^= q << 13; q ^= q >> 7; q ^= q << 17; if ((q >> 8) % one_in) { x = 0; } } }
            }
            for (int i = 0; i < r; ++i)
            {
                for (int j = 0; j <= i; ++j)
                {
                    if (i == j) { a[i][j] = shape == 3 ? 1.0 : shape == 2 ? 2.0 : a[i][j]; }
                    else if (shape == 3) { a[i][j] = a[j][i] = 0; }
                    else if (shape == 2) { a[i][j] = a[j][i] = i == j + 1 ? -1.0 : 0.0; }
                    else { a[j][i] = a[i][j]; }
                }
            }
            rel = (double[]) {1.0, 0.5, 1e-3, 0.0, 2.0}[choose(5, "relative tolerance")];
            want = (int)choose(r + 3, "vectors") - 1;
            if (want == 0) { want = 1; }
        }
        // The same matrix in other units: every entry times a power of two.
        const int unit = choose(6, "unit") == 5 ? (int[]) {60, -60, 300, -300}[choose(4, "power")] : 0;
        // What LAPACK will do.
        g_work_mode = choose(3, "workspace");
        g_lapack_calls = 0;
        g_lapack_failed = nullptr;
        g_lapack_info = choose(2, "info") ? -1 - (int)choose(3, "argument") : 1 + (int)choose(3, "info value");
        const bool inject = choose(2, "LAPACK fails");
        g_lapack_fail = inject ? (long)choose(4, "which call") : -1;
        const bool nomem = !inject && choose(5, "no memory") == 4;
        DenseMatrix A = dense(a, r, c), B;
        for (int j = 0; j < c; ++j) { for (int i = 0; i < r; ++i) { A(i, j) = std::ldexp(A(i, j), unit); } }
        V sv;
        EigenPair ep;
        bool kept_result = false;
        const char* const name[] = {"SVD", "QR", "Invert", "Invert in place", "Eigen", "Eigen of a sparse matrix", "Eigen into a used pair"};
        SparseMatrix<double> sp;
        if (what == 5)
        {
            CooMatrix<double> coo(r, r);
            for (int i = 0; i < r; ++i) { for (int j = 0; j < r; ++j) { if (a[i][j] != 0) { coo.Add(i, j, A(i, j)); } } }
            sp = coo.ToSparse();
        }
        const unsigned in_place = choose(2, "in place");
        const DenseMatrix A0 = A;
        if (nomem) { sim::alloc::arm(choose(6, "fail at"), false); }
        Out o = attempt([&]
        {
            switch (what)
            {
                case 0: if (in_place) { DenseMatrix t = A; sv = t.SVD(); } else { sv = static_cast<const DenseMatrix&>(A).SVD(B); } break;
                case 1: if (in_place) { B = A; B.QR(); } else { A.QR(B); } break;
                case 2: A.Invert(B); break;
                case 3: B = A; B.Invert(); break;
                case 4: ep = solver.Solve(A, rel, want); break;
                case 5: ep = solver.Solve(sp, rel, want); break;
                default: kept_result = true; solver.Solve(A, rel, want, kept);
            }
        });
        const bool ran_out = nomem && sim::alloc::fired();
        sim::alloc::disarm();
        g_lapack_fail = -1;
        g_work_mode = 0;
        const char* failed = g_lapack_failed;
        if (failed) { sim::count(g_lapack_info > 0 ? "fault.lapack_no_convergence" : "fault.lapack_refused_argument"); sim::nontrivial(); }
        if (singular) { sim::count("fault.singular_matrix"); sim::nontrivial(); }
        if (ran_out) { sim::count("fault.alloc_failure"); }
        sim::event("%s %d x %d%s%s%s: %s", name[what], r, c, singular ? " singular" : "", failed ? ", failing: " : "", failed ? failed : "", o.threw ? "exception" : "returned");
        sim::state((uint64_t)what * 1000 + (failed ? failed[2] * 7 + failed[3] : 0));
        if (!same(V(A.GetData(), A.GetData() + (size_t)r * c), V(A0.GetData(), A0.GetData() + (size_t)r * c)) || A.Rows() != r || A.Cols() != c)
        {
            violation("operand-changed", "%s changed its operand", name[what]);
        }
        if (o.threw)
        {
            if (!failed && !singular && !ran_out) { violation("refused", "%s of a %d x %d matrix failed: %s", name[what], r, c, o.what.c_str()); }
            continue;
        }
        if (failed) { violation("failure-hidden", "%s returned a result although %s reported info = %d", name[what], failed, g_lapack_info); }
        // Back in the units of the model.
        for (double& x : sv) { x = std::ldexp(x, -unit); }
        if (what == 2 || what == 3) { for (int j = 0; j < B.Cols(); ++j) { for (int i = 0; i < B.Rows(); ++i) { B(i, j) = std::ldexp(B(i, j), unit); } } }
        auto in_units = [&](EigenPair p) { for (double& x : p.first) { x = std::ldexp(x, -unit); } return p; };
        if (singular)
        {
            // Rounding may hide the singularity; then the inverse is huge.
            double big = 0;
            for (auto& row : model(B)) { for (double x : row) { if (!(std::fabs(x) <= big)) { big = std::fabs(x); } } }
            if (!(big > 1e8)) { violation("failure-hidden", "a singular matrix was inverted"); }
            continue;
        }
        switch (what)
        {
            case 0: check_svd(a, r, c, sv); break;
            case 1: check_qr(a, r, c, model(B)); break;
            case 2: case 3:
                if (r > 0 && !(off_identity(mul(a, model(B), r, r)) <= 1e-9)) { violation("wrong-result", "A times its inverse is off by %.3e", off_identity(mul(a, model(B), r, r))); }
                break;
            default: check_eig(a, r, rel, want, in_units(kept_result ? kept : ep));
        }
        sim::nontrivial();
        if (what >= 4)
        {
            // The same as with a new solver.
            EigenSolver fresh;
            EigenPair p2;
            Out o2 = attempt([&] { p2 = what == 5 ? fresh.Solve(sp, rel, want) : fresh.Solve(A, rel, want); });
            if (o2.threw) { violation("refused", "Eigen failed: %s", o2.what.c_str()); }
            const EigenPair& p1 = kept_result ? kept : ep;
            check_eig(a, r, rel, want, in_units(p2));
            if (p1.second.Cols() != p2.second.Cols()) { violation("history-dependent", "a used and a new EigenSolver return a different number of vectors"); }
            if (choose(3, "copied") == 2) { EigenSolver other(solver); EigenSolver third(std::move(other)); solver = third; }
        }
    }
}

void warm()
{
    Exempt exempt;
    try { throw std::bad_alloc(); } catch (const std::exception&) {}
    try { throw std::runtime_error("x"); } catch (const std::exception&) {}
}

sim::Scenario s1("P09", "PCG_without_preconditioner", hist_cg, warm, 2);
sim::Scenario s2("P09", "PCG", hist_pcg, warm, 3);
sim::Scenario s3("P09", "MINRES", hist_min, warm, 3);
sim::Scenario s4("P09", "PMINRES", hist_pmin, warm, 3);
sim::Scenario s5("P09", "free_functions", one_shot, warm, 2);
sim::Scenario l1("P09", "long_CG", long_cg, warm);
sim::Scenario l2("P09", "long_PCG", long_pcg, warm);
sim::Scenario l3("P09", "long_MINRES", long_min, warm);
sim::Scenario l4("P09", "long_PMINRES", long_pmin, warm);
sim::Scenario l5("P09", "nested", nested, warm);
sim::Scenario s6("P10", "timers", timers, warm);
sim::Scenario s7("P11", "random_vectors", random_vectors, warm);
sim::Scenario s8("P14", "factorisations", factorisations, warm);

} // namespace
