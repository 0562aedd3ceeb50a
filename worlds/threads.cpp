// World "threads": the library used from several threads, every memory access
// seen and every switch decided by the simulator (P05: objects shared for
// reading, P06: each thread with its own objects).
#include <exception>
#include <memory>
#include <new>

#include "catalog.hpp"
#include "sparsesolve.hpp"

#include "../sim/alloc.hpp"
#include "../sim/core.hpp"
#include "../sim/threads.hpp"

using namespace cat;
using sim::alloc::Exempt;
using sim::alloc::Track;
using sim::choose;
using sim::threads::Quiet;
using sim::violation;

namespace
{

struct Out { bool threw = false; bool memory = false; std::string what; };

template <typename F>
Out attempt(F f)
{
    Out o;
    try { Track t; f(); }
    catch (const std::bad_alloc& e) { o.threw = o.memory = true; o.what = e.what(); }
    catch (const std::exception& e) { o.threw = true; o.what = e.what(); }
    catch (...) { violation("foreign-exception", "something other than a std::exception was thrown"); }
    return o;
}

// Operations beyond the catalogue: objects of the solver module and whole pipelines.
void x_sparse_solver(const Pool& p, D& d) { SparseSolver s(p.S); d.addv(s.Mult(p.xn)); SparseSolver c(s); Vector<double> y(p.spec.n); ((const Operator&)c).MultAT(p.xn, y); d.addv(y); }
void x_copy_modify(const Pool& p, D& d)
{
    SparseMatrix<double> a(p.A); a *= 2.0; a.SortIndices(); a.ScaleRows(p.spec.dn); d.add(a);
    DenseMatrix g(p.G); g += p.G; g.ScaleCols(p.spec.dm); d.add(g);
    CooMatrix<double> c(p.coo); c.Add(0, 0, 1.0); c.EliminateZeros(0.0); d.add(c.ToSparse());
    LilMatrix<double> l(p.lil); l.Add(0, 0, 1.0); d.add(l.ToSparse());
    Vector<double> v(p.xm); v += 1.0; d.addv(v);
    BlockVector<double> b(p.bvm); b = 3.0; d.addv(b);
    BlockMatrix<double> m(p.bm); m.SetBlock(0, 0, p.blocks[0]); d.add(m.Combine());
}
void x_pipeline(const Pool& p, D& d)
{
    CooMatrix<double> c(p.spec.n, p.spec.n);
    for (int i = 0; i < p.spec.n; ++i) { c.Add(i, i, 4.0); if (i) { c.AddSym(i, i - 1, -1.0); } }
    SparseMatrix<double> s = c.ToSparse();
    s.EliminateRowCol(0);
    Vector<double> x(p.spec.n, 0.0);
    PCGSolver pcg(s, 50, 1e-9, 1e-12);
    pcg.Mult(p.xn, x);
    d.addv(x);
    d.add(s.Transpose().Mult(s));
}
const Op EXTRA[] = {{"own SparseSolver over shared matrix", LAPACK, x_sparse_solver}, {"modify copies of shared objects", 0, x_copy_modify}, {"assemble and solve", SOLVER, x_pipeline}};
enum { NEXTRA = 3 };

// The shared objects of P05 that are not in the pool.
struct Shared
{
    explicit Shared(const Spec& s) : pool(s), solver(pool.S) {}
    const Pool pool;
    const SparseSolver solver;
};

const Op& pick_op(unsigned k) { return k < (unsigned)NOPS ? OPS[k] : EXTRA[k - NOPS]; }

struct Task { unsigned op; bool shared_solver; };

const char* name_of(const Task& t) { return t.shared_solver ? "shared SparseSolver" : pick_op(t.op).name; }
void perform(const Task& t, const Shared& s, D& d)
{
    if (t.shared_solver)
    {
        Vector<double> y(s.pool.spec.n);
        s.solver.Mult(s.pool.xn, y);
        d.addv(y);
        s.solver.MultAT(s.pool.xn, y);
        d.addv(y);
        return;
    }
    pick_op(t.op).fn(s.pool, d);
}

unsigned thread_count() { return 2 + choose(3, "threads"); }

void shared_reading()
{
    Exempt exempt;
    const Spec spec = draw(6);
    // What the operations give alone is found on a twin, so that nothing has
    // been read from the shared objects before the threads get to them.
    Shared shared(spec), twin(spec);
    Snap before;
    snapshot(twin.pool, before);
    const unsigned n = thread_count();
    const bool same = choose(3, "all the same") == 0;
    std::vector<std::vector<Task>> todo(n);
    std::vector<std::vector<D>> want(n), got(n);
    Task t0;
    for (unsigned i = 0; i < n; ++i)
    {
        const unsigned k = 1 + choose(3, "operations");
        for (unsigned j = 0; j < k; ++j)
        {
            Task t;
            t.shared_solver = choose(20, "shared solver") == 19;
            t.op = t.shared_solver ? 0 : choose((unsigned)NOPS + NEXTRA, "operation");
            if (i == 0 && j == 0) { t0 = t; }
            else if (same && j == 0) { t = t0; }
            todo[i].push_back(t);
            sim::state(t.op * 2 + t.shared_solver);
        }
        want[i].resize(todo[i].size());
        got[i].resize(todo[i].size());
        for (size_t j = 0; j < todo[i].size(); ++j)
        {
            const Out o = attempt([&] { perform(todo[i][j], twin, want[i][j]); });
            if (o.threw) { violation("refused", "%s failed: %s", name_of(todo[i][j]), o.what.c_str()); }
            sim::event("thread %u: %s", i, name_of(todo[i][j]));
        }
    }
    const bool oom = choose(4, "memory runs out") == 3;
    const unsigned at = choose(200, "fail at");
    std::vector<std::function<void()>> bodies;
    for (unsigned i = 0; i < n; ++i)
    {
        bodies.push_back([&, i]
        {
            for (size_t j = 0; j < todo[i].size(); ++j)
            {
                sim::threads::label(name_of(todo[i][j]));
                sim::threads::yield_point();
                Out o;
                {
                    D d;
                    o = attempt([&] { perform(todo[i][j], shared, d); });
                    if (o.threw && o.memory && oom)
                    {
                        { Quiet q; sim::event("thread %u: %s ran out of memory", i, name_of(todo[i][j])); sim::alloc::disarm(); }
                        d = D();
                        o = attempt([&] { perform(todo[i][j], shared, d); });
                    }
                    Quiet q;
                    Exempt e;
                    got[i][j] = d;
                }
                if (o.threw) { Quiet q; violation("refused", "%s failed while other threads were reading the same objects: %s", name_of(todo[i][j]), o.what.c_str()); }
            }
        });
    }
    sim::nontrivial();
    if (oom) { sim::alloc::arm(at, false); }
    sim::threads::run(bodies);
    sim::alloc::disarm();
    for (unsigned i = 0; i < n; ++i)
    {
        for (size_t j = 0; j < todo[i].size(); ++j)
        {
            if (oom && !todo[i][j].shared_solver && (pick_op(todo[i][j].op).flags & PRINTS)) { continue; }   // streams swallow the failure
            const std::string d = differs(want[i][j], got[i][j]);
            if (!d.empty()) { violation("wrong-result", "%s gave another result with other threads reading the same objects: %s", name_of(todo[i][j]), d.c_str()); }
        }
    }
    Snap after;
    snapshot(shared.pool, after);
    for (size_t i = 0; i < before.size(); ++i)
    {
        const std::string d = differs(before[i].second, after[i].second);
        if (!d.empty()) { violation("operand-changed", "a shared object changed although it was only read: %s: %s", before[i].first, d.c_str()); }
    }
}

struct Step { bool modify; unsigned op; };

const char* name_of(const Step& s) { return s.modify ? MOPS[s.op].name : pick_op(s.op).name; }
void perform(const Step& s, Pool& p, D& d) { if (s.modify) { MOPS[s.op].fn(p, d); } else { pick_op(s.op).fn(p, d); } }

void separate_objects()
{
    Exempt exempt;
    const unsigned n = thread_count();
    const bool same = choose(3, "all the same") == 0;
    std::vector<Spec> specs;
    std::vector<std::vector<Step>> todo(n);
    for (unsigned i = 0; i < n; ++i)
    {
        specs.push_back(same && i ? specs[0] : draw(5));
        if (same && i) { todo[i] = todo[0]; continue; }
        const unsigned k = 1 + choose(4, "operations");
        for (unsigned j = 0; j < k; ++j)
        {
            Step s;
            s.modify = choose(2, "modifying");
            s.op = s.modify ? choose((unsigned)NMOPS, "operation") : choose((unsigned)NOPS + NEXTRA, "operation");
            todo[i].push_back(s);
        }
    }
    for (unsigned i = 0; i < n; ++i) { for (auto& s : todo[i]) { sim::state(s.op * 2 + s.modify); sim::event("thread %u: %s", i, name_of(s)); } }
    const bool oom = choose(4, "memory runs out") == 3;
    const unsigned at = choose(300, "fail at");
    const bool build_inside = choose(2, "build inside");
    std::vector<std::unique_ptr<Pool>> pools(n);
    std::vector<std::vector<D>> got(n), want(n);
    std::vector<std::vector<char>> failed(n);
    std::vector<std::vector<Snap>> left(n);              // every object after a modifying step
    if (!build_inside) { for (unsigned i = 0; i < n; ++i) { pools[i].reset(new Pool(specs[i])); } }
    for (unsigned i = 0; i < n; ++i) { got[i].resize(todo[i].size()); want[i].resize(todo[i].size()); left[i].resize(todo[i].size()); failed[i].assign(todo[i].size(), 0); }
    std::vector<std::function<void()>> bodies;
    for (unsigned i = 0; i < n; ++i)
    {
        bodies.push_back([&, i]
        {
            if (build_inside)
            {
                sim::threads::label("building objects");
                Exempt e;                        // keep the failing allocation for the operations
                pools[i].reset(new Pool(specs[i]));
            }
            for (size_t j = 0; j < todo[i].size(); ++j)
            {
                sim::threads::label(name_of(todo[i][j]));
                sim::threads::yield_point();
                D d;
                const Out o = attempt([&] { perform(todo[i][j], *pools[i], d); });
                if (!o.threw && todo[i][j].modify)
                {
                    { Quiet q; Exempt e; snapshot(*pools[i], left[i][j]); }
                    Exempt e;
                    const Pool fresh(specs[i]);
                    reassign(*pools[i], fresh);
                }
                if (o.threw && o.memory && oom)
                {
                    { Quiet q; Exempt e; sim::event("thread %u: %s ran out of memory", i, name_of(todo[i][j])); sim::alloc::disarm(); failed[i][j] = 1; }
                    Exempt e;
                    const Pool fresh(specs[i]);
                    reassign(*pools[i], fresh);
                }
                else if (o.threw) { Quiet q; violation("refused", "%s failed while other threads used other objects: %s", name_of(todo[i][j]), o.what.c_str()); }
                else { Quiet q; Exempt e; got[i][j] = d; }
            }
        });
    }
    sim::nontrivial();
    if (oom) { sim::alloc::arm(at, false); }
    sim::threads::run(bodies);
    sim::alloc::disarm();
    for (unsigned i = 0; i < n; ++i)
    {
        Pool ref(specs[i]);
        for (size_t j = 0; j < todo[i].size(); ++j)
        {
            if (failed[i][j]) { const Pool fresh(specs[i]); reassign(ref, fresh); continue; }
            const Out o = attempt([&] { perform(todo[i][j], ref, want[i][j]); });
            if (o.threw) { violation("refused", "%s failed on its own: %s", name_of(todo[i][j]), o.what.c_str()); }
            const bool streams = oom && !todo[i][j].modify && (pick_op(todo[i][j].op).flags & PRINTS);   // these swallow the failure
            std::string d = streams ? "" : differs(want[i][j], got[i][j]);
            if (!d.empty()) { violation("wrong-result", "%s gave another result with other threads using other objects: %s", name_of(todo[i][j]), d.c_str()); }
            if (!todo[i][j].modify) { continue; }
            Snap a;
            snapshot(ref, a);
            for (size_t k = 0; k < a.size(); ++k)
            {
                d = differs(a[k].second, left[i][j][k].second);
                if (!d.empty()) { violation("wrong-state", "%s leaves another value than on its own: %s: %s", name_of(todo[i][j]), a[k].first, d.c_str()); }
            }
            const Pool fresh(specs[i]);
            reassign(ref, fresh);
        }
    }
}

void warm()
{
    Exempt exempt;
    try { throw std::bad_alloc(); } catch (const std::exception&) {}
    try { throw std::runtime_error("x"); } catch (const std::exception&) {}
}

sim::Scenario s1("P05", "shared_reading", shared_reading, warm);
sim::Scenario s2("P06", "separate_objects", separate_objects, warm);

} // namespace

// LAPACK and BLAS are not instrumented: say what they touch.
extern "C"
{
void __real_dgemm_(const char*, const char*, const int*, const int*, const int*, const double*, const double*, const int*, const double*, const int*, const double*, double*, const int*);
void __wrap_dgemm_(const char* ta, const char* tb, const int* m, const int* n, const int* k, const double* al, const double* A, const int* lda, const double* B, const int* ldb, const double* be, double* C, const int* ldc)
{
    const int ca = *ta == 'N' ? *k : *m, cb = *tb == 'N' ? *n : *k;
    if (*m && *n && *k) { sim::threads::access(A, sizeof(double) * *lda * ca, false); sim::threads::access(B, sizeof(double) * *ldb * cb, false); }
    if (*m && *n) { sim::threads::access(C, sizeof(double) * *ldc * *n, true); }
    __real_dgemm_(ta, tb, m, n, k, al, A, lda, B, ldb, be, C, ldc);
}
#define WORK(w, l) if (*(l) > 0) { sim::threads::access(w, sizeof(double) * *(l), true); }
void __real_dgesvd_(const char*, const char*, const int*, const int*, double*, const int*, double*, double*, const int*, double*, const int*, double*, const int*, int*);
void __wrap_dgesvd_(const char* ju, const char* jv, const int* m, const int* n, double* A, const int* lda, double* S, double* U, const int* ldu, double* V, const int* ldv, double* w, const int* lw, int* info)
{
    if (*lw > 0) { sim::threads::access(A, sizeof(double) * *lda * *n, true); sim::threads::access(S, sizeof(double) * std::min(*m, *n), true); }
    WORK(w, lw)
    __real_dgesvd_(ju, jv, m, n, A, lda, S, U, ldu, V, ldv, w, lw, info);
}
void __real_dgeqp3_(const int*, const int*, double*, const int*, int*, double*, double*, const int*, int*);
void __wrap_dgeqp3_(const int* m, const int* n, double* A, const int* lda, int* p, double* tau, double* w, const int* lw, int* info)
{
    if (*lw > 0) { sim::threads::access(A, sizeof(double) * *lda * *n, true); sim::threads::access(p, sizeof(int) * *n, true); }
    WORK(w, lw)
    __real_dgeqp3_(m, n, A, lda, p, tau, w, lw, info);
}
void __real_dorgqr_(const int*, const int*, const int*, double*, const int*, double*, double*, const int*, int*);
void __wrap_dorgqr_(const int* m, const int* n, const int* k, double* A, const int* lda, double* tau, double* w, const int* lw, int* info)
{
    if (*lw > 0) { sim::threads::access(A, sizeof(double) * *lda * *n, true); sim::threads::access(tau, sizeof(double) * *k, true); }
    WORK(w, lw)
    __real_dorgqr_(m, n, k, A, lda, tau, w, lw, info);
}
void __real_dgetrf_(const int*, const int*, double*, const int*, int*, int*);
void __wrap_dgetrf_(const int* m, const int* n, double* A, const int* lda, int* p, int* info)
{
    sim::threads::access(A, sizeof(double) * *lda * *n, true);
    sim::threads::access(p, sizeof(int) * std::min(*m, *n), true);
    __real_dgetrf_(m, n, A, lda, p, info);
}
void __real_dgetri_(const int*, double*, const int*, int*, double*, const int*, int*);
void __wrap_dgetri_(const int* n, double* A, const int* lda, int* p, double* w, const int* lw, int* info)
{
    if (*lw > 0) { sim::threads::access(A, sizeof(double) * *lda * *n, true); sim::threads::access(p, sizeof(int) * *n, false); }
    WORK(w, lw)
    __real_dgetri_(n, A, lda, p, w, lw, info);
}
void __real_dsytrd_(char*, const int*, double*, const int*, double*, double*, double*, double*, int*, int*);
void __wrap_dsytrd_(char* u, const int* n, double* a, const int* lda, double* d, double* e, double* tau, double* w, int* lw, int* info)
{
    if (*lw > 0) { sim::threads::access(a, sizeof(double) * *lda * *n, true); sim::threads::access(d, sizeof(double) * *n, true); }
    WORK(w, lw)
    __real_dsytrd_(u, n, a, lda, d, e, tau, w, lw, info);
}
void __real_dsterf_(const int*, double*, double*, int*);
void __wrap_dsterf_(const int* n, double* d, double* e, int* info)
{
    sim::threads::access(d, sizeof(double) * *n, true);
    __real_dsterf_(n, d, e, info);
}
}
