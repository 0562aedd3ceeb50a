// A pool of library objects and a catalogue of operations on them, shared by
// the allocation-failure, value-semantics and thread worlds.
#ifndef VERIF_CATALOG_HPP
#define VERIF_CATALOG_HPP

#include <cmath>
#include <cstring>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#include "linalgcpp.hpp"
#include "parser.hpp"

#include "../sim/core.hpp"

namespace cat
{
using namespace linalgcpp;

// What an operation returned, as plain numbers.
struct D
{
    std::vector<double> v;
    void add(double x) { v.push_back(x); }
    void add(const std::vector<double>& x) { add((double)x.size()); v.insert(v.end(), x.begin(), x.end()); }
    void add(const std::vector<int>& x) { add((double)x.size()); v.insert(v.end(), x.begin(), x.end()); }
    template <typename T> void addv(const VectorView<T>& x)
    {
        add((double)x.size());
        for (const T* p = x.begin(); p != x.end(); ++p) { v.push_back((double)*p); }
    }
    template <typename T> void add(const SparseMatrix<T>& m)
    {
        add((double)m.Rows());
        add((double)m.Cols());
        add(m.GetIndptr());
        add(m.GetIndices());
        add((double)m.GetData().size());
        for (const T& x : m.GetData()) { v.push_back((double)x); }
    }
    void add(const DenseMatrix& m)
    {
        add((double)m.Rows());
        add((double)m.Cols());
        const DenseMatrix& c = m;
        for (int j = 0; j < m.Cols(); ++j) { for (int i = 0; i < m.Rows(); ++i) { v.push_back(c(i, j)); } }
    }
    template <typename T> void add(const BlockMatrix<T>& m)
    {
        add((double)m.Rows());
        add((double)m.Cols());
        add(m.GetRowOffsets());
        add(m.GetColOffsets());
        for (int i = 0; i + 1 < (int)m.GetRowOffsets().size(); ++i)
        {
            for (int j = 0; j + 1 < (int)m.GetColOffsets().size(); ++j) { add(m.GetBlock(i, j)); }
        }
    }
    void add(const std::string& s)
    {
        add((double)s.size());
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) { h = (h ^ c) * 1099511628211ull; }
        add((double)(h >> 12));
    }
};

// Empty when equal up to rounding (external kernels may sum in another order).
std::string differs(const D& want, const D& got);
// Structural validity of a sparse matrix: empty when fine.
template <typename T>
std::string malformed(const SparseMatrix<T>& m)
{
    const auto& p = m.GetIndptr();
    if (m.Rows() < 0 || m.Cols() < 0) { return "negative size"; }
    if (p.size() != static_cast<size_t>(m.Rows()) + 1) { return "row pointer count"; }
    if (p[0] != 0) { return "row pointers do not start at 0"; }
    for (size_t i = 0; i + 1 < p.size(); ++i) { if (p[i] > p[i + 1]) { return "row pointers decrease"; } }
    if (static_cast<size_t>(p.back()) != m.GetIndices().size() || m.GetIndices().size() != m.GetData().size())
    {
        return "row pointers do not match the number of entries";
    }
    for (int c : m.GetIndices()) { if (c < 0 || c >= m.Cols()) { return "column index out of range"; } }
    return "";
}

// Plain description from which every pool object is built the same way, twice or more.
struct Spec
{
    int n, m, k;
    std::vector<double> A, A2, B, S, G, F;   // dense row-major; zeros are "no entry" for sparse objects
    std::vector<int> I;
    std::vector<double> xm, xn, xk, dn, dm;
    std::vector<int> iv, rows_sel, cols_sel, perm_n, perm_m, marker_m, marker_n;
    std::vector<int> row_off, col_off;
    bool unsorted;
    double scale;
};
Spec draw(int max_dim);
Spec generic();                            // always the same, with every dimension different

struct Pool
{
    explicit Pool(const Spec& s);
    Pool(const Pool&) = delete;

    const Spec spec;
    SparseMatrix<double> A, A2, B, S;      // n x m, n x m, m x k, n x n symmetric positive definite
    SparseMatrix<int> I;                   // n x m
    DenseMatrix G, E, F;                   // n x m, m x k, n x n well conditioned
    CooMatrix<double> coo, coo_free;       // n x m sized; unsized
    LilMatrix<double> lil, lil_free;
    BlockMatrix<double> bm;                // n x m
    BlockVector<double> bvm, bvn;          // by column and row offsets
    BlockOperator bo;                      // n x m over bm's blocks (kept in blocks)
    std::vector<SparseMatrix<double>> blocks;
    SparseMatrix<double> Minv;             // n x n diagonal preconditioner
    Vector<double> xm, xn, xk;
    Vector<int> iv;
    PCGSolver pcg, pcg_m;
    MINRESSolver minres;
    PMINRESSolver pminres;
    EigenSolver eigen;
    std::vector<int> marker;               // workspace, all -1
    Vector<double> out;                    // an output the operations may resize
    DenseMatrix dout;
    SparseMatrix<double> sout;
};

// Digest of every object (reads every element), by object.
typedef std::vector<std::pair<const char*, D>> Snap;
void snapshot(const Pool& p, Snap& out);
// Give every object of p the value the same object has in q.
void reassign(Pool& p, const Pool& q);
// Structural validity of every object that has an invariant.
std::string invalid(const Pool& p);

enum { PRINTS = 1, SOLVER = 2, LAPACK = 4 };

struct Op
{
    const char* name;
    int flags;
    void (*fn)(const Pool&, D&);
};
struct MOp
{
    const char* name;
    int flags;
    void (*fn)(Pool&, D&);
};
extern const Op OPS[];
extern const int NOPS;
extern const MOp MOPS[];
extern const int NMOPS;
}

#endif
