// The MPI calls and the part of hypre that parlinalgcpp uses, carried out by the simulated ranks.
#include "hypre.hpp"

#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <numeric>
#include <vector>

#include "alloc.hpp"
#include "core.hpp"
#include "mpi/hypre_sim.h"
#include "ranks.hpp"

using sim::alloc::Exempt;
using sim::choose;
using sim::count;
using sim::violation;
namespace ranks = sim::ranks;

// ---- MPI ----------------------------------------------------------------------------------------------
namespace
{
std::vector<int> g_self;             // MPI_COMM_SELF of each rank

int comm_of(MPI_Comm comm, const char* call)
{
    if (comm == MPI_COMM_SELF) { return g_self.at(ranks::self()); }
    if (!ranks::is_comm(comm)) { violation("invalid-communicator", "%s is called with the communicator %d, which does not exist (%s)", call, comm, ranks::label()); }
    if (ranks::rank_in(comm) < 0) { violation("foreign-communicator", "%s is called on a communicator the rank is not part of (%s)", call, ranks::label()); }
    return comm;
}

size_t size_of(MPI_Datatype t)
{
    switch (t)
    {
        case MPI_CHAR: return 1;
        case MPI_INT: return sizeof(int);
        case MPI_LONG: return sizeof(long);
        case MPI_DOUBLE: return sizeof(double);
    }
    violation("mpi-misuse", "unknown MPI datatype (%s)", ranks::label());
}

template <typename T>
void fold_one(MPI_Op op, T& a, T b)
{
    if (op == MPI_SUM) { a += b; }
    else if (op == MPI_MAX) { a = std::max(a, b); }
    else if (op == MPI_MIN) { a = std::min(a, b); }
    else { violation("mpi-misuse", "unknown MPI operation (%s)", ranks::label()); }
}

void fold(MPI_Op op, MPI_Datatype t, void* acc, const void* in, int n)
{
    for (int i = 0; i < n; ++i)
    {
        switch (t)
        {
            case MPI_INT: fold_one(op, static_cast<int*>(acc)[i], static_cast<const int*>(in)[i]); break;
            case MPI_LONG: fold_one(op, static_cast<long*>(acc)[i], static_cast<const long*>(in)[i]); break;
            case MPI_DOUBLE: fold_one(op, static_cast<double*>(acc)[i], static_cast<const double*>(in)[i]); break;
            default: violation("mpi-misuse", "cannot reduce this MPI datatype (%s)", ranks::label());
        }
    }
}

std::string shape(const char* call, int n, MPI_Datatype t, MPI_Op op)
{
    char buf[100];
    snprintf(buf, sizeof(buf), "%s(count %d, type %x, op %x)", call, n, t, op);
    return buf;
}

const void* in_place(const void* s, const void* r, std::vector<char>& copy, size_t bytes, const char* call)
{
    if (s == MPI_IN_PLACE) { return r; }
    if (s == r && bytes) { violation("mpi-misuse", "%s with the same send and receive buffer (%s)", call, ranks::label()); }
    return s;
}
} // namespace

namespace sim { namespace hypre {
void mpi_init(int n)
{
    std::vector<int> all(n);
    std::iota(all.begin(), all.end(), 0);
    if (ranks::make_comm(all) != MPI_COMM_WORLD) { broken("communicators"); }
    ranks::make_comm({});              // the number of MPI_COMM_SELF
    g_self.clear();
    for (int r = 0; r < n; ++r) { g_self.push_back(ranks::make_comm({r})); }
}
} }

int MPI_Init(int*, char***) { return 0; }
int MPI_Finalize() { return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { Exempt e; *n = ranks::members(comm_of(c, "MPI_Comm_size")).size(); return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { Exempt e; *r = ranks::rank_in(comm_of(c, "MPI_Comm_rank")); return 0; }

int MPI_Barrier(MPI_Comm comm)
{
    Exempt e;
    const int c = comm_of(comm, "MPI_Barrier");
    size_t slot;
    ranks::collective(c, "MPI_Barrier", ranks::Need::all, -1, nullptr, 0, slot);
    ranks::leave(c, slot);
    return 0;
}

int MPI_Bcast(void* buf, int n, MPI_Datatype t, int root, MPI_Comm comm)
{
    Exempt e;
    const int c = comm_of(comm, "MPI_Bcast");
    if (root < 0 || root >= (int)ranks::members(c).size()) { violation("mpi-misuse", "MPI_Bcast from rank %d, which does not exist (%s)", root, ranks::label()); }
    const bool me = ranks::rank_in(c) == root;
    size_t slot;
    const size_t bytes = n * size_of(t);
    auto& parts = ranks::collective(c, shape("MPI_Bcast", n, t, 0), ranks::Need::root, root, buf, me ? bytes : 0, slot);
    if (!me) { std::copy_n(parts[root].data(), bytes, static_cast<char*>(buf)); }
    ranks::leave(c, slot);
    return 0;
}

int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm)
{
    Exempt e;
    const int c = comm_of(comm, "MPI_Allreduce");
    size_t slot;
    const size_t bytes = n * size_of(t);
    std::vector<char> tmp;
    s = in_place(s, r, tmp, bytes, "MPI_Allreduce");
    auto& parts = ranks::collective(c, shape("MPI_Allreduce", n, t, op), ranks::Need::all, -1, s, bytes, slot);
    // the sum is taken in some order, the same on every rank
    const int p = parts.size();
    const int first = slot * 7 % p, dir = slot % 2 ? 1 : p - 1;
    std::vector<char> acc(parts[first]);
    for (int k = 1; k < p; ++k) { fold(op, t, acc.data(), parts[(first + k * dir) % p].data(), n); }
    std::copy_n(acc.data(), bytes, static_cast<char*>(r));
    ranks::leave(c, slot);
    return 0;
}

int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm)
{
    Exempt e;
    const int c = comm_of(comm, "MPI_Scan");
    size_t slot;
    const size_t bytes = n * size_of(t);
    std::vector<char> tmp;
    s = in_place(s, r, tmp, bytes, "MPI_Scan");
    auto& parts = ranks::collective(c, shape("MPI_Scan", n, t, op), ranks::Need::prefix, -1, s, bytes, slot);
    const int me = ranks::rank_in(c);
    std::vector<char> acc(parts[0]);
    for (int k = 1; k <= me; ++k) { fold(op, t, acc.data(), parts[k].data(), n); }
    std::copy_n(acc.data(), bytes, static_cast<char*>(r));
    ranks::leave(c, slot);
    return 0;
}

int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm)
{
    Exempt e;
    const int c = comm_of(comm, "MPI_Exscan");
    size_t slot;
    const size_t bytes = n * size_of(t);
    std::vector<char> tmp;
    s = in_place(s, r, tmp, bytes, "MPI_Exscan");
    auto& parts = ranks::collective(c, shape("MPI_Exscan", n, t, op), ranks::Need::prefix, -1, s, bytes, slot);
    const int me = ranks::rank_in(c);
    if (me > 0)
    {
        std::vector<char> acc(parts[0]);
        for (int k = 1; k < me; ++k) { fold(op, t, acc.data(), parts[k].data(), n); }
        std::copy_n(acc.data(), bytes, static_cast<char*>(r));
    }
    ranks::leave(c, slot);
    return 0;
}

int MPI_Allgather(const void* s, int ns, MPI_Datatype ts, void* r, int nr, MPI_Datatype tr, MPI_Comm comm)
{
    Exempt e;
    const int c = comm_of(comm, "MPI_Allgather");
    size_t slot;
    const size_t bytes = ns * size_of(ts);
    auto& parts = ranks::collective(c, shape("MPI_Allgather", ns, ts, 0), ranks::Need::all, -1, s, bytes, slot);
    for (size_t k = 0; k < parts.size(); ++k) { std::copy_n(parts[k].data(), bytes, static_cast<char*>(r) + k * nr * size_of(tr)); }
    ranks::leave(c, slot);
    return 0;
}

HYPRE_Int hypre_MPI_Comm_size(MPI_Comm c, HYPRE_Int* n) { return MPI_Comm_size(c, n); }
HYPRE_Int hypre_MPI_Comm_rank(MPI_Comm c, HYPRE_Int* r) { return MPI_Comm_rank(c, r); }

// ---- memory and errors --------------------------------------------------------------------------------
namespace
{
struct Block { const char* what; int rank; size_t bytes; };
std::map<void*, Block> g_blocks;
std::map<int, HYPRE_Int> g_error;

enum Kind { AMG, SAILS, PCG, LOBPCG_, KINDS };
const char* const KIND_NAME[] = {"BoomerAMG", "ParaSails", "PCG", "LOBPCG"};
} // namespace

struct hypre_Solver_struct
{
    Kind kind;
    int rank;
    bool setup = false;
    // AMG
    double amg[9] = {6, 0, 3, 1, 0.25, 0, 0, 25, 0};    // coarsen, agg, relax, sweeps, theta, interp, pmax, levels, print
    // shared
    int max_iter = 1000;
    double tol = 1e-6;
    // ParaSails
    double thresh = 0.1, filter = 0.1, loadbal = 0.0;
    int levels = 1, sym = 0, reuse = 0, logging = 0;
    std::vector<double> dinv;
    // PCG, LOBPCG
    HYPRE_PtrToSolverFcn precond = nullptr, precond_setup = nullptr;
    HYPRE_Solver precond_solver = nullptr;
    HYPRE_MatvecFunctions* mv = nullptr;
    mv_InterfaceInterpreter* interp = nullptr;
    void* A = nullptr;
    void* matvec_data = nullptr;
};

namespace
{
std::map<HYPRE_Solver, std::unique_ptr<hypre_Solver_struct>> g_solvers;

void reset()
{
    g_blocks.clear();
    g_error.clear();
    g_solvers.clear();
}

sim::AtRunStart at_start(reset);

hypre_Solver_struct* check(HYPRE_Solver s, Kind k, const char* call)
{
    auto it = g_solvers.find(s);
    if (it == g_solvers.end()) { violation("solver-misuse", "%s is called with %s (%s)", call, s ? "something that is not a live hypre solver" : "a null solver", ranks::label()); }
    if (it->second->kind != k) { violation("solver-misuse", "%s is called with a %s solver (%s)", call, KIND_NAME[it->second->kind], ranks::label()); }
    if (it->second->rank != ranks::self()) { violation("solver-misuse", "%s is called with a solver of another rank (%s)", call, ranks::label()); }
    return it->second.get();
}

HYPRE_Solver create(Kind k)
{
    Exempt e;
    std::unique_ptr<hypre_Solver_struct> p(new hypre_Solver_struct());
    p->kind = k;
    p->rank = ranks::self();
    if (k == AMG) { p->max_iter = 20; p->tol = 1e-7; }
    HYPRE_Solver s = p.get();
    g_solvers[s] = std::move(p);
    return s;
}

HYPRE_Int destroy(HYPRE_Solver s, Kind k, const char* call)
{
    Exempt e;
    check(s, k, call);
    g_solvers.erase(s);
    return 0;
}
} // namespace

void* hypre_sim_calloc(size_t n, size_t size, const char* what)
{
    Exempt e;
    if (n * size == 0) { return nullptr; }
    if (n > (1u << 26)) { violation("absurd-allocation", "hypre_CTAlloc(%s, %zu) (%s)", what, n, ranks::label()); }
    void* p = calloc(n, size);
    g_blocks[p] = Block{what, ranks::self(), n * size};
    return p;
}

void hypre_sim_free(void* p, const char* what)
{
    Exempt e;
    if (!p) { return; }
    if (!g_blocks.erase(p)) { violation("bad-free", "hypre_TFree(%s) of memory that hypre does not own (%s)", what, ranks::label()); }
    free(p);
}

HYPRE_Int* hypre_sim_error() { Exempt e; return &g_error[ranks::self()]; }

namespace sim { namespace hypre {
size_t live_blocks() { return g_blocks.size(); }
size_t live_solvers() { return g_solvers.size(); }
std::string leftovers()
{
    std::string s;
    std::map<std::string, int> by;
    for (auto& b : g_blocks) { by[b.second.what]++; }
    for (auto& x : g_solvers) { by[KIND_NAME[x.second->kind]]++; }
    for (auto& b : by) { s += (s.empty() ? "" : ", ") + std::to_string(b.second) + " x " + b.first; }
    return s;
}
} }

HYPRE_Int hypre_BinarySearch(HYPRE_Int* list, HYPRE_Int value, HYPRE_Int n)
{
    HYPRE_Int low = 0, high = n - 1;
    while (low <= high)
    {
        const HYPRE_Int m = (low + high) / 2;
        if (value < list[m]) { high = m - 1; }
        else if (value > list[m]) { low = m + 1; }
        else { return m; }
    }
    return -1;
}

// ---- vectors --------------------------------------------------------------------------------------------
HYPRE_Int hypre_SeqVectorSetDataOwner(hypre_Vector* v, HYPRE_Int o) { v->owns_data = o; return 0; }
HYPRE_Int hypre_ParVectorSetDataOwner(hypre_ParVector* v, HYPRE_Int o) { v->owns_data = o; return 0; }
HYPRE_Int hypre_ParVectorSetPartitioningOwner(hypre_ParVector* v, HYPRE_Int o) { v->owns_partitioning = o; return 0; }

hypre_ParVector* hypre_ParVectorCreate(MPI_Comm comm, HYPRE_Int global_size, HYPRE_Int* part)
{
    Exempt e;
    if (global_size < 0) { hypre_error_in_arg(2); return nullptr; }
    if (!part) { violation("hypre-misuse", "hypre_ParVectorCreate without a partitioning (%s)", ranks::label()); }
    comm_of(comm, "hypre_ParVectorCreate");
    hypre_ParVector* v = hypre_CTAlloc(hypre_ParVector, 1);
    v->comm = comm;
    v->global_size = global_size;
    v->first_index = part[0];
    v->last_index = part[1] - 1;
    v->partitioning = part;
    v->local_vector = hypre_CTAlloc(hypre_Vector, 1);
    v->local_vector->size = part[1] - part[0];
    v->local_vector->num_vectors = 1;
    v->local_vector->owns_data = 1;
    v->owns_data = 1;
    v->owns_partitioning = 1;
    if (part[0] < 0 || part[1] < part[0] || part[1] > global_size)
    {
        violation("bad-partition", "a hypre vector is made over [%d, %d) of %d (%s)", part[0], part[1], global_size, ranks::label());
    }
    return v;
}

HYPRE_Int hypre_ParVectorInitialize(hypre_ParVector* v)
{
    Exempt e;
    hypre_Vector* l = v->local_vector;
    if (!l->data) { l->data = hypre_CTAlloc(HYPRE_Complex, l->size); }
    return 0;
}

HYPRE_Int hypre_ParVectorDestroy(hypre_ParVector* v)
{
    Exempt e;
    if (!v) { return 0; }
    if (!g_blocks.count(v)) { violation("bad-free", "hypre_ParVectorDestroy of something that is not a live hypre vector (%s)", ranks::label()); }
    if (v->owns_data)
    {
        if (v->local_vector->owns_data) { hypre_TFree(v->local_vector->data); }
        hypre_TFree(v->local_vector);
    }
    if (v->owns_partitioning) { hypre_TFree(v->partitioning); }
    hypre_TFree(v);
    return 0;
}

namespace
{
double* data_of(hypre_ParVector* v) { return v->local_vector->data; }
int size_of(hypre_ParVector* v) { return v->local_vector->size; }

hypre_ParVector* like(hypre_ParVector* x)
{
    hypre_ParVector* v = hypre_ParVectorCreate(x->comm, x->global_size, x->partitioning);
    v->owns_partitioning = 0;
    hypre_ParVectorInitialize(v);
    return v;
}
} // namespace

HYPRE_Int hypre_ParVectorSetConstantValues(hypre_ParVector* v, HYPRE_Complex c) { std::fill_n(data_of(v), size_of(v), c); return 0; }
HYPRE_Int hypre_ParVectorCopy(hypre_ParVector* x, hypre_ParVector* y) { std::copy_n(data_of(x), std::min(size_of(x), size_of(y)), data_of(y)); return 0; }
HYPRE_Int hypre_ParVectorScale(HYPRE_Complex a, hypre_ParVector* y)
{
    for (int i = 0; i < size_of(y); ++i) { data_of(y)[i] *= a; }
    return 0;
}
HYPRE_Int hypre_ParVectorAxpy(HYPRE_Complex a, hypre_ParVector* x, hypre_ParVector* y)
{
    for (int i = 0; i < size_of(y); ++i) { data_of(y)[i] += a * data_of(x)[i]; }
    return 0;
}
HYPRE_Real hypre_ParVectorInnerProd(hypre_ParVector* x, hypre_ParVector* y)
{
    double l = 0.0, g = 0.0;
    for (int i = 0; i < size_of(x); ++i) { l += data_of(x)[i] * data_of(y)[i]; }
    MPI_Allreduce(&l, &g, 1, MPI_DOUBLE, MPI_SUM, x->comm);
    return g;
}

// ---- matrices -------------------------------------------------------------------------------------------
hypre_CSRMatrix* hypre_CSRMatrixCreate(HYPRE_Int rows, HYPRE_Int cols, HYPRE_Int nnz)
{
    hypre_CSRMatrix* m = hypre_CTAlloc(hypre_CSRMatrix, 1);
    m->num_rows = rows;
    m->num_cols = cols;
    m->num_nonzeros = nnz;
    m->owns_data = 1;
    m->num_rownnz = rows;
    return m;
}

HYPRE_Int hypre_CSRMatrixDestroy(hypre_CSRMatrix* m)
{
    Exempt e;
    if (!m) { return 0; }
    if (!g_blocks.count(m)) { violation("bad-free", "hypre_CSRMatrixDestroy of something that is not a live hypre matrix (%s)", ranks::label()); }
    hypre_TFree(m->i);
    if (m->rownnz) { hypre_TFree(m->rownnz); }
    if (m->owns_data)
    {
        hypre_TFree(m->data);
        hypre_TFree(m->j);
    }
    hypre_TFree(m);
    return 0;
}

HYPRE_Int hypre_CSRMatrixSetRownnz(hypre_CSRMatrix* m)
{
    HYPRE_Int n = 0;
    for (HYPRE_Int i = 0; i < m->num_rows; ++i) { n += m->i[i + 1] > m->i[i]; }
    m->num_rownnz = n;
    if (n == 0 || n == m->num_rows) { m->rownnz = nullptr; }
    else
    {
        m->rownnz = hypre_CTAlloc(HYPRE_Int, n);
        n = 0;
        for (HYPRE_Int i = 0; i < m->num_rows; ++i)
        {
            if (m->i[i + 1] > m->i[i]) { m->rownnz[n++] = i; }
        }
    }
    return 0;
}

HYPRE_Int hypre_CSRMatrixReorder(hypre_CSRMatrix* m)
{
    if (m->num_rows != m->num_cols) { return -1; }
    for (HYPRE_Int i = 0; i < m->num_rows; ++i)
    {
        for (HYPRE_Int j = m->i[i]; j < m->i[i + 1]; ++j)
        {
            if (m->j[j] == i)
            {
                if (j != m->i[i])
                {
                    std::swap(m->j[m->i[i]], m->j[j]);
                    std::swap(m->data[m->i[i]], m->data[j]);
                }
                break;
            }
            if (j == m->i[i + 1] - 1) { return -2; }
        }
    }
    return 0;
}

hypre_ParCSRMatrix* hypre_ParCSRMatrixCreate(MPI_Comm comm, HYPRE_Int rows, HYPRE_Int cols, HYPRE_Int* rs, HYPRE_Int* cs,
                                             HYPRE_Int num_cols_offd, HYPRE_Int nnz_diag, HYPRE_Int nnz_offd)
{
    Exempt e;
    comm_of(comm, "hypre_ParCSRMatrixCreate");
    hypre_ParCSRMatrix* m = hypre_CTAlloc(hypre_ParCSRMatrix, 1);
    m->comm = comm;
    m->global_num_rows = rows;
    m->global_num_cols = cols;
    m->first_row_index = rs[0];
    m->last_row_index = rs[1] - 1;
    m->first_col_diag = cs[0];
    m->last_col_diag = cs[1] - 1;
    m->row_starts = rs;
    m->col_starts = cs;
    m->diag = hypre_CSRMatrixCreate(rs[1] - rs[0], cs[1] - cs[0], nnz_diag);
    m->offd = hypre_CSRMatrixCreate(rs[1] - rs[0], num_cols_offd, nnz_offd);
    m->owns_data = m->owns_row_starts = m->owns_col_starts = 1;
    if (rs == cs) { m->owns_col_starts = 0; }
    return m;
}

HYPRE_Int hypre_MatvecCommPkgDestroy(hypre_ParCSRCommPkg* p)
{
    Exempt e;
    if (!g_blocks.count(p)) { violation("bad-free", "hypre_MatvecCommPkgDestroy of something that is not a live package (%s)", ranks::label()); }
    hypre_TFree(p->send_procs);
    hypre_TFree(p->send_map_starts);
    hypre_TFree(p->send_map_elmts);
    hypre_TFree(p->recv_procs);
    hypre_TFree(p->recv_vec_starts);
    hypre_TFree(p);
    return 0;
}

HYPRE_Int hypre_ParCSRMatrixDestroy(hypre_ParCSRMatrix* m)
{
    Exempt e;
    if (!m) { return 0; }
    if (!g_blocks.count(m)) { violation("bad-free", "hypre_ParCSRMatrixDestroy of something that is not a live hypre matrix (%s)", ranks::label()); }
    if (m->owns_data)
    {
        hypre_CSRMatrixDestroy(m->diag);
        hypre_CSRMatrixDestroy(m->offd);
        if (m->col_map_offd) { hypre_TFree(m->col_map_offd); }
        if (m->comm_pkg) { hypre_MatvecCommPkgDestroy(m->comm_pkg); }
    }
    if (m->owns_row_starts) { hypre_TFree(m->row_starts); }
    if (m->owns_col_starts) { hypre_TFree(m->col_starts); }
    hypre_TFree(m);
    return 0;
}

HYPRE_Int hypre_ParCSRMatrixSetNumNonzeros(hypre_ParCSRMatrix* m)
{
    HYPRE_Int l = m->diag->i[m->diag->num_rows] + m->offd->i[m->offd->num_rows], g = 0;
    MPI_Allreduce(&l, &g, 1, MPI_INT, MPI_SUM, m->comm);
    m->num_nonzeros = g;
    return 0;
}

HYPRE_Int hypre_MatvecCommPkgCreate(hypre_ParCSRMatrix* m)
{
    Exempt e;
    const int c = comm_of(m->comm, "hypre_MatvecCommPkgCreate");
    const int me = ranks::rank_in(c);
    const int np = ranks::members(c).size();
    std::vector<int> mine{m->first_col_diag, m->last_col_diag + 1, m->global_num_cols, m->offd->num_cols};
    mine.insert(mine.end(), m->col_map_offd, m->col_map_offd + m->offd->num_cols);
    size_t slot;
    auto& parts = ranks::collective(c, "hypre_MatvecCommPkgCreate", ranks::Need::all, -1, mine.data(), mine.size() * sizeof(int), slot);
    auto at = [&](int r, int k) { int v; memcpy(&v, parts[r].data() + k * sizeof(int), sizeof(int)); return v; };
    for (int r = 0; r < np; ++r)
    {
        if (at(r, 0) != (r ? at(r - 1, 1) : 0) || at(r, 2) != at(0, 2) || (r == np - 1 && at(r, 1) != at(r, 2)))
        {
            violation("bad-partition", "the ranks' column ranges do not tile the columns: rank %d has [%d, %d) of %d (%s)", r, at(r, 0), at(r, 1), at(r, 2), ranks::label());
        }
    }
    auto owner = [&](int col)
    {
        for (int r = 0; r < np; ++r)
        {
            if (col >= at(r, 0) && col < at(r, 1)) { return r; }
        }
        violation("bad-column-map", "column %d of the off-diagonal block does not exist (%s)", col, ranks::label());
    };
    if (m->comm_pkg) { hypre_MatvecCommPkgDestroy(m->comm_pkg); }
    hypre_ParCSRCommPkg* p = hypre_CTAlloc(hypre_ParCSRCommPkg, 1);
    p->comm = m->comm;
    std::vector<int> procs, starts{0};
    int last = -1;
    for (int k = 0; k < m->offd->num_cols; ++k)
    {
        const int col = m->col_map_offd[k];
        if (k && col <= m->col_map_offd[k - 1]) { violation("bad-column-map", "the column map is not sorted (%s)", ranks::label()); }
        const int o = owner(col);
        if (o == me) { violation("bad-column-map", "column %d of the off-diagonal block is this rank's own (%s)", col, ranks::label()); }
        if (o != last)
        {
            if (last >= 0) { starts.push_back(k); }
            procs.push_back(o);
            last = o;
        }
    }
    if (!procs.empty()) { starts.push_back(m->offd->num_cols); }
    p->num_recvs = procs.size();
    p->recv_procs = hypre_CTAlloc(HYPRE_Int, procs.size());
    p->recv_vec_starts = hypre_CTAlloc(HYPRE_Int, procs.size() + 1);
    std::copy(procs.begin(), procs.end(), p->recv_procs);
    std::copy(starts.begin(), starts.end(), p->recv_vec_starts);
    // those who need something from here announce themselves in any order
    std::vector<std::pair<int, std::vector<int>>> out;
    for (int r = 0; r < np; ++r)
    {
        std::vector<int> need;
        for (int k = 0; k < at(r, 3); ++k)
        {
            const int col = at(r, 4 + k);
            if (r != me && col >= m->first_col_diag && col <= m->last_col_diag) { need.push_back(col - m->first_col_diag); }
        }
        if (!need.empty()) { out.emplace_back(r, need); }
    }
    for (size_t k = out.size(); k > 1; --k) { std::swap(out[k - 1], out[k - 1 - choose(k, "announcement order")]); }
    p->num_sends = out.size();
    p->send_procs = hypre_CTAlloc(HYPRE_Int, out.size());
    p->send_map_starts = hypre_CTAlloc(HYPRE_Int, out.size() + 1);
    int total = 0;
    for (size_t k = 0; k < out.size(); ++k)
    {
        p->send_procs[k] = out[k].first;
        total += out[k].second.size();
        p->send_map_starts[k + 1] = total;
    }
    p->send_map_elmts = hypre_CTAlloc(HYPRE_Int, total);
    total = 0;
    for (auto& o : out)
    {
        for (int v : o.second) { p->send_map_elmts[total++] = v; }
    }
    m->comm_pkg = p;
    ranks::leave(c, slot);
    return 0;
}

struct hypre_ParCSRCommHandle_struct
{
    std::vector<ranks::Send*> sends;
    std::vector<ranks::Recv*> recvs;
};

hypre_ParCSRCommHandle* hypre_ParCSRCommHandleCreate(HYPRE_Int job, hypre_ParCSRCommPkg* p, void* sd, void* rd)
{
    Exempt e;
    const int c = comm_of(p->comm, "hypre_ParCSRCommHandleCreate");
    if (job != 1 && job != 2 && job != 11 && job != 12) { violation("hypre-misuse", "hypre_ParCSRCommHandleCreate with job %d (%s)", job, ranks::label()); }
    const size_t w = job < 10 ? sizeof(double) : sizeof(int);
    const bool forward = job == 1 || job == 11;
    const HYPRE_Int* to = forward ? p->send_procs : p->recv_procs;
    const HYPRE_Int* to_starts = forward ? p->send_map_starts : p->recv_vec_starts;
    const HYPRE_Int nto = forward ? p->num_sends : p->num_recvs;
    const HYPRE_Int* from = forward ? p->recv_procs : p->send_procs;
    const HYPRE_Int* from_starts = forward ? p->recv_vec_starts : p->send_map_starts;
    const HYPRE_Int nfrom = forward ? p->num_recvs : p->num_sends;
    auto* h = new hypre_ParCSRCommHandle();
    const bool junk = choose(2, "receive buffer scribbled on");
    for (HYPRE_Int k = 0; k < nfrom; ++k)
    {
        char* dst = static_cast<char*>(rd) + from_starts[k] * w;
        const size_t bytes = (from_starts[k + 1] - from_starts[k]) * w;
        if (junk) { std::fill_n(dst, bytes, (char)0xC7); }
        h->recvs.push_back(ranks::irecv(c, from[k], dst, bytes));
    }
    for (HYPRE_Int k = 0; k < nto; ++k)
    {
        h->sends.push_back(ranks::isend(c, to[k], static_cast<char*>(sd) + to_starts[k] * w, (to_starts[k + 1] - to_starts[k]) * w));
    }
    ranks::yield();
    return h;
}

HYPRE_Int hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandle* h)
{
    Exempt e;
    if (!h) { return 0; }
    ranks::wait_all(h->sends, h->recvs);
    delete h;
    return 0;
}

namespace
{
void seq_matvec(double alpha, hypre_CSRMatrix* m, const double* x, double* y)
{
    if (m->rownnz && m->num_rownnz < 0.7 * m->num_rows)
    {
        for (int k = 0; k < m->num_rownnz; ++k)
        {
            const int i = m->rownnz[k];
            for (int j = m->i[i]; j < m->i[i + 1]; ++j) { y[i] += alpha * m->data[j] * x[m->j[j]]; }
        }
        return;
    }
    for (int i = 0; i < m->num_rows; ++i)
    {
        for (int j = m->i[i]; j < m->i[i + 1]; ++j) { y[i] += alpha * m->data[j] * x[m->j[j]]; }
    }
}

void seq_matvec_t(double alpha, hypre_CSRMatrix* m, const double* x, double* y)
{
    for (int i = 0; i < m->num_rows; ++i)
    {
        for (int j = m->i[i]; j < m->i[i + 1]; ++j) { y[m->j[j]] += alpha * m->data[j] * x[i]; }
    }
}
} // namespace

HYPRE_Int hypre_ParCSRMatrixMatvec(HYPRE_Complex alpha, hypre_ParCSRMatrix* m, hypre_ParVector* x, HYPRE_Complex beta, hypre_ParVector* y)
{
    Exempt e;
    if (!m->comm_pkg) { hypre_MatvecCommPkgCreate(m); }
    hypre_ParCSRCommPkg* p = m->comm_pkg;
    const int ns = p->send_map_starts[p->num_sends];
    std::vector<double> buf(ns), ext(m->offd->num_cols);
    const double* xd = data_of(x);
    for (int k = 0; k < ns; ++k) { buf[k] = xd[p->send_map_elmts[k]]; }
    hypre_ParCSRCommHandle* h = hypre_ParCSRCommHandleCreate(1, p, buf.data(), ext.data());
    double* yd = data_of(y);
    for (int i = 0; i < m->diag->num_rows; ++i) { yd[i] = beta == 0.0 ? 0.0 : beta * yd[i]; }
    seq_matvec(alpha, m->diag, xd, yd);
    hypre_ParCSRCommHandleDestroy(h);
    if (m->offd->num_cols) { seq_matvec(alpha, m->offd, ext.data(), yd); }
    return 0;
}

HYPRE_Int hypre_ParCSRMatrixMatvecT(HYPRE_Complex alpha, hypre_ParCSRMatrix* m, hypre_ParVector* x, HYPRE_Complex beta, hypre_ParVector* y)
{
    Exempt e;
    if (!m->comm_pkg) { hypre_MatvecCommPkgCreate(m); }
    hypre_ParCSRCommPkg* p = m->comm_pkg;
    const int ns = p->send_map_starts[p->num_sends];
    std::vector<double> buf(ns), ext(m->offd->num_cols, 0.0);
    const double* xd = data_of(x);
    if (m->offd->num_cols) { seq_matvec_t(alpha, m->offd, xd, ext.data()); }
    hypre_ParCSRCommHandle* h = hypre_ParCSRCommHandleCreate(2, p, ext.data(), buf.data());
    double* yd = data_of(y);
    for (int i = 0; i < m->diag->num_cols; ++i) { yd[i] = beta == 0.0 ? 0.0 : beta * yd[i]; }
    seq_matvec_t(alpha, m->diag, xd, yd);
    hypre_ParCSRCommHandleDestroy(h);
    for (int k = 0; k < ns; ++k) { yd[p->send_map_elmts[k]] += buf[k]; }
    return 0;
}

hypre_CSRMatrix* hypre_ParCSRMatrixExtractBExt(hypre_ParCSRMatrix* B, hypre_ParCSRMatrix* A, HYPRE_Int want_data)
{
    Exempt e;
    hypre_ParCSRCommPkg* p = A->comm_pkg;
    if (!p) { violation("hypre-misuse", "hypre_ParCSRMatrixExtractBExt without a communication package (%s)", ranks::label()); }
    const int ns = p->send_map_starts[p->num_sends];
    const int nr = A->offd->num_cols;
    std::vector<int> out_len(ns), in_len(nr);
    for (int k = 0; k < ns; ++k)
    {
        const int r = p->send_map_elmts[k];
        out_len[k] = B->diag->i[r + 1] - B->diag->i[r] + B->offd->i[r + 1] - B->offd->i[r];
    }
    hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandleCreate(11, p, out_len.data(), in_len.data()));
    std::vector<int> ss(p->num_sends + 1, 0), rs(p->num_recvs + 1, 0);
    for (int q = 0; q < p->num_sends; ++q)
    {
        ss[q + 1] = ss[q];
        for (int k = p->send_map_starts[q]; k < p->send_map_starts[q + 1]; ++k) { ss[q + 1] += out_len[k]; }
    }
    for (int q = 0; q < p->num_recvs; ++q)
    {
        rs[q + 1] = rs[q];
        for (int k = p->recv_vec_starts[q]; k < p->recv_vec_starts[q + 1]; ++k) { rs[q + 1] += in_len[k]; }
    }
    std::vector<int> out_j;
    std::vector<double> out_d;
    for (int k = 0; k < ns; ++k)
    {
        const int r = p->send_map_elmts[k];
        for (int j = B->diag->i[r]; j < B->diag->i[r + 1]; ++j)
        {
            out_j.push_back(B->diag->j[j] + B->first_col_diag);
            out_d.push_back(B->diag->data[j]);
        }
        for (int j = B->offd->i[r]; j < B->offd->i[r + 1]; ++j)
        {
            out_j.push_back(B->col_map_offd[B->offd->j[j]]);
            out_d.push_back(B->offd->data[j]);
        }
    }
    hypre_CSRMatrix* m = hypre_CSRMatrixCreate(nr, B->global_num_cols, rs.back());
    m->i = hypre_CTAlloc(HYPRE_Int, nr + 1);
    for (int k = 0; k < nr; ++k) { m->i[k + 1] = m->i[k] + in_len[k]; }
    m->j = hypre_CTAlloc(HYPRE_Int, rs.back());
    m->data = hypre_CTAlloc(HYPRE_Complex, rs.back());
    hypre_ParCSRCommPkg t = *p;
    t.send_map_starts = ss.data();
    t.recv_vec_starts = rs.data();
    hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandleCreate(11, &t, out_j.data(), m->j));
    if (want_data) { hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandleCreate(1, &t, out_d.data(), m->data)); }
    return m;
}

// ---- solvers --------------------------------------------------------------------------------------------
// Stand-ins: each is a fixed linear or Krylov method whose effect depends on every parameter it was given,
// so that the harness can tell whether the wrapper passed them on.
namespace
{
double mangle(const double* p, int n)
{
    double w = 0.0;
    for (int i = 0; i < n; ++i) { w += (i + 1) * p[i]; }
    return 0.3 + 0.3 * std::fabs(std::sin(w));
}

std::vector<double> inverse_diag(HYPRE_ParCSRMatrix A)
{
    std::vector<double> d(A->diag->num_rows, 0.0);
    for (int i = 0; i < A->diag->num_rows; ++i)
    {
        for (int j = A->diag->i[i]; j < A->diag->i[i + 1]; ++j)
        {
            if (A->diag->j[j] == i) { d[i] += A->diag->data[j]; }
        }
        d[i] = 1.0 / d[i];
    }
    return d;
}

void need_setup(hypre_Solver_struct* s, HYPRE_ParCSRMatrix A, const char* call)
{
    if (!s->setup) { violation("solver-misuse", "%s before the solver was set up (%s)", call, ranks::label()); }
    if (!g_blocks.count(A)) { violation("solver-misuse", "%s with a matrix that is not alive (%s)", call, ranks::label()); }
}
} // namespace

namespace sim { namespace hypre {
double amg_weight(bool set, int print_level, int, double)
{
    const double p[9] = {10, 1, 8, 1, 0.25, 6, 4, 25, (double)print_level};
    const double q[9] = {6, 0, 3, 1, 0.25, 0, 0, 25, 0};
    return mangle(set ? p : q, 8);
}
double sails_scale(double thresh, int levels, double filter, int sym, double loadbal, int reuse, int)
{
    const double p[6] = {thresh, (double)levels, filter, (double)sym, loadbal, (double)reuse};
    return mangle(p, 6);
}
double relax_weight(int type)
{
    const double p[1] = {(double)type};
    return 0.5 + mangle(p, 1) / 2;
}
} }

HYPRE_Int hypre_ParCSRRelax(hypre_ParCSRMatrix* A, hypre_ParVector* f, HYPRE_Int type, HYPRE_Int times, HYPRE_Real* l1, HYPRE_Real weight,
                            HYPRE_Real omega, HYPRE_Real, HYPRE_Real, HYPRE_Int, HYPRE_Real, hypre_ParVector* u, hypre_ParVector* v, hypre_ParVector*)
{
    Exempt e;
    const int n = A->diag->num_rows;
    const std::vector<double> d = inverse_diag(A);
    const double scale = weight * omega * sim::hypre::relax_weight(type);
    for (int s = 0; s < times; ++s)
    {
        hypre_ParVectorCopy(f, v);
        hypre_ParCSRMatrixMatvec(-1.0, A, u, 1.0, v);
        for (int i = 0; i < n; ++i) { data_of(u)[i] += scale * data_of(v)[i] * (type >= 1 && type <= 4 ? 1.0 / l1[i] : d[i]); }
    }
    return 0;
}

HYPRE_Int HYPRE_BoomerAMGCreate(HYPRE_Solver* s) { *s = create(AMG); return 0; }
HYPRE_Int HYPRE_BoomerAMGDestroy(HYPRE_Solver s) { return destroy(s, AMG, "HYPRE_BoomerAMGDestroy"); }
#define AMG_SET(name, type, k) HYPRE_Int HYPRE_BoomerAMGSet##name(HYPRE_Solver s, type v) { check(s, AMG, "HYPRE_BoomerAMGSet" #name)->amg[k] = v; return 0; }
AMG_SET(CoarsenType, HYPRE_Int, 0)
AMG_SET(AggNumLevels, HYPRE_Int, 1)
AMG_SET(RelaxType, HYPRE_Int, 2)
AMG_SET(NumSweeps, HYPRE_Int, 3)
AMG_SET(StrongThreshold, HYPRE_Real, 4)
AMG_SET(InterpType, HYPRE_Int, 5)
AMG_SET(PMaxElmts, HYPRE_Int, 6)
AMG_SET(MaxLevels, HYPRE_Int, 7)
AMG_SET(PrintLevel, HYPRE_Int, 8)
HYPRE_Int HYPRE_BoomerAMGSetMaxIter(HYPRE_Solver s, HYPRE_Int v) { check(s, AMG, "HYPRE_BoomerAMGSetMaxIter")->max_iter = v; return 0; }
HYPRE_Int HYPRE_BoomerAMGSetTol(HYPRE_Solver s, HYPRE_Real v) { check(s, AMG, "HYPRE_BoomerAMGSetTol")->tol = v; return 0; }

HYPRE_Int HYPRE_BoomerAMGSetup(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector, HYPRE_ParVector)
{
    Exempt e;
    auto* p = check(s, AMG, "HYPRE_BoomerAMGSetup");
    p->setup = true;
    p->dinv = inverse_diag(A);
    const double w = mangle(p->amg, 8);
    for (double& d : p->dinv) { d *= w; }
    MPI_Barrier(A->comm);
    return 0;
}

HYPRE_Int HYPRE_BoomerAMGSolve(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x)
{
    Exempt e;
    auto* p = check(s, AMG, "HYPRE_BoomerAMGSolve");
    need_setup(p, A, "HYPRE_BoomerAMGSolve");
    hypre_ParVector* r = like(b);
    const double bb = p->tol > 0 ? hypre_ParVectorInnerProd(b, b) : 0.0;
    for (int it = 0; it < p->max_iter; ++it)
    {
        hypre_ParVectorCopy(b, r);
        hypre_ParCSRMatrixMatvec(-1.0, A, x, 1.0, r);
        if (p->tol > 0 && hypre_ParVectorInnerProd(r, r) <= p->tol * p->tol * bb) { break; }
        for (int i = 0; i < size_of(r); ++i) { data_of(x)[i] += p->dinv.at(i) * data_of(r)[i]; }
    }
    hypre_ParVectorDestroy(r);
    return 0;
}

HYPRE_Int HYPRE_ParaSailsCreate(MPI_Comm c, HYPRE_Solver* s) { Exempt e; comm_of(c, "HYPRE_ParaSailsCreate"); *s = create(SAILS); return 0; }
HYPRE_Int HYPRE_ParaSailsDestroy(HYPRE_Solver s) { return destroy(s, SAILS, "HYPRE_ParaSailsDestroy"); }
HYPRE_Int HYPRE_ParaSailsSetParams(HYPRE_Solver s, HYPRE_Real t, HYPRE_Int l)
{
    auto* p = check(s, SAILS, "HYPRE_ParaSailsSetParams");
    p->thresh = t;
    p->levels = l;
    return 0;
}
#define SAILS_SET(name, type, field) HYPRE_Int HYPRE_ParaSailsSet##name(HYPRE_Solver s, type v) { check(s, SAILS, "HYPRE_ParaSailsSet" #name)->field = v; return 0; }
SAILS_SET(Filter, HYPRE_Real, filter)
SAILS_SET(Sym, HYPRE_Int, sym)
SAILS_SET(Loadbal, HYPRE_Real, loadbal)
SAILS_SET(Reuse, HYPRE_Int, reuse)
SAILS_SET(Logging, HYPRE_Int, logging)

HYPRE_Int HYPRE_ParaSailsSetup(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector, HYPRE_ParVector)
{
    Exempt e;
    auto* p = check(s, SAILS, "HYPRE_ParaSailsSetup");
    p->setup = true;
    p->dinv = inverse_diag(A);
    const double w = sim::hypre::sails_scale(p->thresh, p->levels, p->filter, p->sym, p->loadbal, p->reuse, p->logging);
    for (double& d : p->dinv) { d *= w; }
    MPI_Barrier(A->comm);
    return 0;
}

HYPRE_Int HYPRE_ParaSailsSolve(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x)
{
    Exempt e;
    auto* p = check(s, SAILS, "HYPRE_ParaSailsSolve");
    need_setup(p, A, "HYPRE_ParaSailsSolve");
    for (int i = 0; i < size_of(x); ++i) { data_of(x)[i] = p->dinv.at(i) * data_of(b)[i]; }
    return 0;
}

HYPRE_Int HYPRE_ParCSRDiagScaleSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector) { return 0; }
HYPRE_Int HYPRE_ParCSRDiagScale(HYPRE_Solver, HYPRE_ParCSRMatrix A, HYPRE_ParVector y, HYPRE_ParVector x)
{
    Exempt e;
    if (!g_blocks.count(A)) { violation("solver-misuse", "HYPRE_ParCSRDiagScale with a matrix that is not alive (%s)", ranks::label()); }
    for (int i = 0; i < A->diag->num_rows; ++i) { data_of(x)[i] = data_of(y)[i] / A->diag->data[A->diag->i[i]]; }
    return 0;
}

HYPRE_Int HYPRE_ParCSRPCGCreate(MPI_Comm c, HYPRE_Solver* s) { Exempt e; comm_of(c, "HYPRE_ParCSRPCGCreate"); *s = create(PCG); return 0; }
HYPRE_Int HYPRE_ParCSRPCGDestroy(HYPRE_Solver s) { return destroy(s, PCG, "HYPRE_ParCSRPCGDestroy"); }
HYPRE_Int HYPRE_PCGSetTol(HYPRE_Solver s, HYPRE_Real v) { check(s, PCG, "HYPRE_PCGSetTol")->tol = v; return 0; }
HYPRE_Int HYPRE_PCGSetMaxIter(HYPRE_Solver s, HYPRE_Int v) { check(s, PCG, "HYPRE_PCGSetMaxIter")->max_iter = v; return 0; }
HYPRE_Int HYPRE_PCGSetPrintLevel(HYPRE_Solver s, HYPRE_Int) { check(s, PCG, "HYPRE_PCGSetPrintLevel"); return 0; }
HYPRE_Int HYPRE_ParCSRPCGSetTol(HYPRE_Solver s, HYPRE_Real v) { return HYPRE_PCGSetTol(s, v); }
HYPRE_Int HYPRE_ParCSRPCGSetMaxIter(HYPRE_Solver s, HYPRE_Int v) { return HYPRE_PCGSetMaxIter(s, v); }
HYPRE_Int HYPRE_ParCSRPCGSetPrintLevel(HYPRE_Solver s, HYPRE_Int v) { return HYPRE_PCGSetPrintLevel(s, v); }
HYPRE_Int HYPRE_PCGSetPrecond(HYPRE_Solver s, HYPRE_PtrToSolverFcn f, HYPRE_PtrToSolverFcn g, HYPRE_Solver d)
{
    auto* p = check(s, PCG, "HYPRE_PCGSetPrecond");
    p->precond = f;
    p->precond_setup = g;
    p->precond_solver = d;
    return 0;
}
HYPRE_Int HYPRE_ParCSRPCGSetPrecond(HYPRE_Solver s, HYPRE_PtrToParSolverFcn f, HYPRE_PtrToParSolverFcn g, HYPRE_Solver d)
{
    return HYPRE_PCGSetPrecond(s, (HYPRE_PtrToSolverFcn)f, (HYPRE_PtrToSolverFcn)g, d);
}

HYPRE_Int HYPRE_ParCSRPCGSetup(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x)
{
    Exempt e;
    auto* p = check(s, PCG, "HYPRE_ParCSRPCGSetup");
    p->setup = true;
    if (p->precond_setup) { p->precond_setup(p->precond_solver, (HYPRE_Matrix)A, (HYPRE_Vector)b, (HYPRE_Vector)x); }
    return 0;
}

HYPRE_Int HYPRE_ParCSRPCGSolve(HYPRE_Solver s, HYPRE_ParCSRMatrix A, HYPRE_ParVector b, HYPRE_ParVector x)
{
    Exempt e;
    auto* c = check(s, PCG, "HYPRE_ParCSRPCGSolve");
    need_setup(c, A, "HYPRE_ParCSRPCGSolve");
    hypre_ParVector* r = like(x);
    hypre_ParVector* p = like(x);
    hypre_ParVector* t = like(x);
    auto precond = [&](hypre_ParVector* in, hypre_ParVector* out)
    {
        hypre_ParVectorSetConstantValues(out, 0.0);
        if (c->precond) { c->precond(c->precond_solver, (HYPRE_Matrix)A, (HYPRE_Vector)in, (HYPRE_Vector)out); }
        else { hypre_ParVectorCopy(in, out); }
    };
    precond(b, p);
    const double bi = hypre_ParVectorInnerProd(p, b);
    if (bi == 0.0) { hypre_ParVectorCopy(b, x); }
    else
    {
        const double eps = c->tol * c->tol * bi;
        hypre_ParVectorCopy(b, r);
        hypre_ParCSRMatrixMatvec(-1.0, A, x, 1.0, r);
        precond(r, p);
        double gamma = hypre_ParVectorInnerProd(r, p);
        for (int it = 0; it < c->max_iter && gamma != 0.0; ++it)
        {
            hypre_ParCSRMatrixMatvec(1.0, A, p, 0.0, t);
            const double sp = hypre_ParVectorInnerProd(t, p);
            if (sp == 0.0) { break; }
            const double alpha = gamma / sp;
            hypre_ParVectorAxpy(alpha, p, x);
            hypre_ParVectorAxpy(-alpha, t, r);
            precond(r, t);
            const double g = hypre_ParVectorInnerProd(r, t);
            if (g < eps) { break; }
            const double beta = g / gamma;
            gamma = g;
            hypre_ParVectorScale(beta, p);
            hypre_ParVectorAxpy(1.0, t, p);
        }
    }
    hypre_ParVectorDestroy(r);
    hypre_ParVectorDestroy(p);
    hypre_ParVectorDestroy(t);
    return 0;
}

// ---- eigensolver ----------------------------------------------------------------------------------------
namespace
{
void* krylov_create(void* v) { return like(static_cast<hypre_ParVector*>(v)); }
HYPRE_Int krylov_destroy(void* v) { return hypre_ParVectorDestroy(static_cast<hypre_ParVector*>(v)); }
} // namespace

struct mv_MultiVector { mv_TempMultiVector* data; };

HYPRE_Int HYPRE_ParCSRSetupInterpreter(mv_InterfaceInterpreter* i)
{
    i->CreateVector = krylov_create;
    i->DestroyVector = krylov_destroy;
    return 0;
}
HYPRE_Int HYPRE_ParCSRSetupMatvec(HYPRE_MatvecFunctions* m)
{
    m->Matvec = nullptr;
    m->MatvecCreate = nullptr;
    m->MatvecDestroy = nullptr;
    return 0;
}

mv_MultiVectorPtr mv_MultiVectorCreateFromSampleVector(void* ip, HYPRE_Int n, void* sample)
{
    Exempt e;
    auto* mv = hypre_CTAlloc(struct mv_MultiVector, 1);
    auto* d = hypre_CTAlloc(mv_TempMultiVector, 1);
    d->interpreter = static_cast<mv_InterfaceInterpreter*>(ip);
    d->numVectors = n;
    d->vector = hypre_CTAlloc(void*, n);
    d->ownsVectors = 1;
    for (int k = 0; k < n; ++k) { d->vector[k] = d->interpreter->CreateVector(sample); }
    mv->data = d;
    return mv;
}

void mv_MultiVectorDestroy(mv_MultiVectorPtr mv)
{
    Exempt e;
    if (!mv) { return; }
    mv_TempMultiVector* d = mv->data;
    if (d->ownsVectors)
    {
        for (int k = 0; k < d->numVectors; ++k) { d->interpreter->DestroyVector(d->vector[k]); }
        hypre_TFree(d->vector);
    }
    hypre_TFree(d);
    hypre_TFree(mv);
}
void* mv_MultiVectorGetData(mv_MultiVectorPtr mv) { return mv->data; }

HYPRE_Int HYPRE_LOBPCGCreate(mv_InterfaceInterpreter* i, HYPRE_MatvecFunctions* m, HYPRE_Solver* s)
{
    *s = create(LOBPCG_);
    (*s)->interp = i;
    (*s)->mv = m;
    return 0;
}
HYPRE_Int HYPRE_LOBPCGDestroy(HYPRE_Solver s)
{
    auto* p = check(s, LOBPCG_, "HYPRE_LOBPCGDestroy");
    if (p->setup && p->mv->MatvecDestroy) { p->mv->MatvecDestroy(p->matvec_data); }
    return destroy(s, LOBPCG_, "HYPRE_LOBPCGDestroy");
}
HYPRE_Int HYPRE_LOBPCGSetup(HYPRE_Solver s, HYPRE_Matrix A, HYPRE_Vector, HYPRE_Vector x)
{
    auto* p = check(s, LOBPCG_, "HYPRE_LOBPCGSetup");
    p->setup = true;
    p->A = A;
    if (p->mv->MatvecCreate) { p->matvec_data = p->mv->MatvecCreate(A, x); }
    return 0;
}
HYPRE_Int HYPRE_LOBPCGSetPrintLevel(HYPRE_Solver s, HYPRE_Int) { check(s, LOBPCG_, "HYPRE_LOBPCGSetPrintLevel"); return 0; }
HYPRE_Int HYPRE_LOBPCGSetMaxIter(HYPRE_Solver s, HYPRE_Int v) { check(s, LOBPCG_, "HYPRE_LOBPCGSetMaxIter")->max_iter = v; return 0; }
HYPRE_Int HYPRE_LOBPCGSetTol(HYPRE_Solver s, HYPRE_Real v) { check(s, LOBPCG_, "HYPRE_LOBPCGSetTol")->tol = v; return 0; }
HYPRE_Int HYPRE_LOBPCGSetPrecond(HYPRE_Solver s, HYPRE_PtrToSolverFcn f, HYPRE_PtrToSolverFcn g, HYPRE_Solver d)
{
    auto* p = check(s, LOBPCG_, "HYPRE_LOBPCGSetPrecond");
    p->precond = f;
    p->precond_setup = g;
    p->precond_solver = d;
    return 0;
}

HYPRE_Int HYPRE_LOBPCGSolve(HYPRE_Solver s, mv_MultiVectorPtr, mv_MultiVectorPtr mv, HYPRE_Real* lambda)
{
    Exempt e;
    auto* p = check(s, LOBPCG_, "HYPRE_LOBPCGSolve");
    if (!p->setup) { violation("solver-misuse", "HYPRE_LOBPCGSolve before the solver was set up (%s)", ranks::label()); }
    mv_TempMultiVector* d = mv->data;
    for (int k = 0; k < d->numVectors; ++k)
    {
        hypre_ParVector* x = static_cast<hypre_ParVector*>(d->vector[k]);
        hypre_ParVector* a = like(x);
        hypre_ParVector* t = like(x);
        double theta = 0.0;
        for (int it = 0; it < 2; ++it)
        {
            p->mv->Matvec(p->matvec_data, 1.0, p->A, x, 0.0, a);
            theta = hypre_ParVectorInnerProd(x, a) / hypre_ParVectorInnerProd(x, x);
            hypre_ParVectorAxpy(-theta, x, a);
            hypre_ParVectorSetConstantValues(t, 0.0);
            if (p->precond) { p->precond(p->precond_solver, (HYPRE_Matrix)p->A, (HYPRE_Vector)a, (HYPRE_Vector)t); }
            else { hypre_ParVectorCopy(a, t); }
            hypre_ParVectorAxpy(-0.0625, t, x);
        }
        lambda[k] = theta;
        hypre_ParVectorDestroy(a);
        hypre_ParVectorDestroy(t);
    }
    return 0;
}
