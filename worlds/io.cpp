// World "io": the real parser (linalgcpp/include/parser.hpp) on a simulated disk.
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "linalgcpp.hpp"
#include "parser.hpp"

#include "../sim/alloc.hpp"
#include "../sim/core.hpp"
#include "../sim/fs.hpp"

using namespace linalgcpp;
using sim::choose;
using sim::chance;
using sim::event;
using sim::range;
using sim::violation;

namespace
{

// ---- what a file holds, independent of the library -------------------------

struct Content
{
    bool is_vec = false;
    std::vector<double> vec;
    bool exact_arrays = false;          // CSR arrays are compared as stored
    int rows = 0, cols = 0;
    bool any_dims = false;              // dims are not fixed by the file (no entries at all)
    std::vector<int> indptr, indices;
    std::vector<double> data;
    std::map<std::pair<int, int>, double> entries;   // summed
};

bool same_value(double a, double b, bool bitwise)
{
    if (bitwise) { return std::memcmp(&a, &b, sizeof(a)) == 0; }
    if (a == b) { return true; }
    return std::abs(a - b) <= 1.2e-15 * std::max(std::abs(a), std::abs(b));
}

std::string diff(const Content& want, const Content& got, bool bitwise)
{
    std::ostringstream o;
    o.precision(17);
    if (want.is_vec)
    {
        if (want.vec.size() != got.vec.size())
        {
            o << "expected " << want.vec.size() << " values, got " << got.vec.size();
            return o.str();
        }
        for (size_t i = 0; i < want.vec.size(); ++i)
        {
            if (!same_value(want.vec[i], got.vec[i], bitwise))
            {
                o << "value " << i << ": expected " << want.vec[i] << ", got " << got.vec[i];
                return o.str();
            }
        }
        return "";
    }
    if (want.any_dims)
    {
        if (got.entries.empty() && got.data.empty() && got.rows <= 1 && got.cols <= 1) { return ""; }
        o << "expected no entries, got " << got.rows << "x" << got.cols << " with " << got.data.size() << " entries";
        return o.str();
    }
    if (want.rows != got.rows || want.cols != got.cols)
    {
        o << "expected " << want.rows << "x" << want.cols << ", got " << got.rows << "x" << got.cols;
        return o.str();
    }
    if (want.exact_arrays)
    {
        if (want.indptr != got.indptr) { return "row pointers differ"; }
        if (want.indices != got.indices) { return "column indices differ"; }
        if (want.data.size() != got.data.size()) { return "number of values differs"; }
        for (size_t i = 0; i < want.data.size(); ++i)
        {
            if (!same_value(want.data[i], got.data[i], bitwise))
            {
                o << "entry " << i << ": expected " << want.data[i] << ", got " << got.data[i];
                return o.str();
            }
        }
        return "";
    }
    if (want.entries.size() != got.entries.size())
    {
        o << "expected " << want.entries.size() << " distinct entries, got " << got.entries.size();
        return o.str();
    }
    for (const auto& e : want.entries)
    {
        auto it = got.entries.find(e.first);
        if (it == got.entries.end() || !same_value(e.second, it->second, bitwise))
        {
            o << "entry (" << e.first.first << "," << e.first.second << "): expected " << e.second << ", got ";
            if (it == got.entries.end()) { o << "none"; }
            else { o << it->second; }
            return o.str();
        }
    }
    return "";
}

// Structural validity: what every later operation on the matrix relies on.
template <typename T>
std::string malformed(const SparseMatrix<T>& m)
{
    const auto& p = m.GetIndptr();
    if (m.Rows() < 0 || m.Cols() < 0) { return "negative size"; }
    if (p.size() != static_cast<size_t>(m.Rows()) + 1) { return "row pointer count"; }
    if (p[0] != 0) { return "row pointers do not start at 0"; }
    for (size_t i = 0; i + 1 < p.size(); ++i) { if (p[i] > p[i + 1]) { return "row pointers decrease"; } }
    if (static_cast<size_t>(p.back()) != m.GetIndices().size() || m.GetIndices().size() != m.GetData().size())
    {
        return "row pointers do not match the number of entries";
    }
    for (int c : m.GetIndices()) { if (c < 0 || c >= m.Cols()) { return "column index out of range"; } }
    return "";
}

template <typename T>
Content content_of(const SparseMatrix<T>& m, bool exact)
{
    Content c;
    c.exact_arrays = exact;
    c.rows = m.Rows();
    c.cols = m.Cols();
    c.indptr = m.GetIndptr();
    c.indices = m.GetIndices();
    c.data.assign(m.GetData().begin(), m.GetData().end());
    for (int i = 0; i < m.Rows(); ++i)
    {
        for (int k = c.indptr[i]; k < c.indptr[i + 1]; ++k)
        {
            c.entries[std::make_pair(i, c.indices[k])] += c.data[k];
        }
    }
    return c;
}

template <typename V>
Content content_of_vec(const V& v)
{
    Content c;
    c.is_vec = true;
    for (size_t i = 0; i < static_cast<size_t>(v.size()); ++i) { c.vec.push_back(v[i]); }
    return c;
}

// ---- formats ---------------------------------------------------------------

enum Fmt
{
    TEXT_D, TEXT_I, TEXT_V, TEXT_F, TEXT_L, BINV_D, BINV_I, BINV_F, BINV_L, BINM_D, BINM_F, BINM_I, ADJ, ADJ_SYM, COO, COO_SYM, COO_I, TABLE, TABLE_D,
    CSR_D, CSR_I, MTX_D, MTX_I,
    NUM_WRITTEN,
    GRAPH = NUM_WRITTEN, MTXLIST, MTXLIST_SYM, MTX_SYM, NUM_FMT
};

const char* const FMT_NAME[] = {"text<double>", "text<int>", "text(Vector)", "text<float>", "text<long>",
    "binary-vector<double>", "binary-vector<int>", "binary-vector<float>", "binary-vector<long>",
    "binary-matrix<double>", "binary-matrix<float>", "binary-matrix<int>", "adjacency-list", "adjacency-list(sym)", "coo-list", "coo-list(sym)",
    "coo-list<int>", "table<int>", "table<double>", "csr<double>", "csr<int>", "mtx<double>", "mtx<int>", "graph-list", "mtx-list",
    "mtx-list(sym)", "mtx(sym)"};

bool is_binary(int f) { return f >= BINV_D && f <= BINM_I; }
bool is_vec(int f) { return f <= BINV_L; }
bool is_float(int f) { return f == TEXT_F || f == BINV_F || f == BINM_F; }
// formats whose header declares how much must follow
bool declares_size(int f)
{
    return is_binary(f) || f == CSR_D || f == CSR_I || f == MTX_D || f == MTX_I || f >= MTXLIST;
}
bool is_int(int f)
{
    return f == TEXT_I || f == TEXT_L || f == BINV_I || f == BINV_L || f == BINM_I || f == COO_I || f == TABLE || f == CSR_I || f == MTX_I;
}

struct Value
{
    int fmt;
    std::vector<double> vec;
    SparseMatrix<double> mat;
    std::string raw;          // read-only formats: the bytes as another program wrote them
    Content expect;           // what reading the complete file must give
};

double gen_val(bool integer)
{
    if (integer)
    {
        static const int special[] = {0, 1, -1, 7, 2147483647, -2147483647 - 1, 65536, -99};
        return chance(1, 6, "special int") ? special[choose(8, "which")] : range(-1000, 1000, "int value");
    }
    if (chance(1, 8, "special value"))
    {
        static const double special[] = {0.0, 1.0 / 3.0, 1e300, -1e-300, 123456789.123456789, 2.5e-8, -0.1, 1e22};
        return special[choose(8, "which")];
    }
    return sim::real("value");
}

// The value a file of this format can hold.
double as_stored(int fmt, double x)
{
    if (!is_float(fmt)) { return x; }
    if (std::abs(x) > 1e38 || (x != 0.0 && std::abs(x) < 1e-37)) { return 0.75; }
    return static_cast<double>(static_cast<float>(x));
}

// Random CSR; columns within a row distinct, possibly unsorted.
SparseMatrix<double> gen_mat(int rows, int cols, int maxrow, bool integer, bool sorted)
{
    std::vector<int> indptr(1, 0), indices;
    std::vector<double> data;
    for (int i = 0; i < rows; ++i)
    {
        int n = cols > 0 ? static_cast<int>(choose(std::min(cols, maxrow) + 1, "row length")) : 0;
        std::vector<int> cs;
        for (int k = 0; k < n; ++k)
        {
            int c = static_cast<int>(choose(cols, "column"));
            if (std::find(cs.begin(), cs.end(), c) == cs.end()) { cs.push_back(c); }
        }
        if (sorted) { std::sort(cs.begin(), cs.end()); }
        for (int c : cs)
        {
            indices.push_back(c);
            data.push_back(gen_val(integer));
        }
        indptr.push_back(static_cast<int>(indices.size()));
    }
    return SparseMatrix<double>(std::move(indptr), std::move(indices), std::move(data), rows, cols);
}

template <typename T>
SparseMatrix<T> cast(const SparseMatrix<double>& m)
{
    std::vector<T> d(m.GetData().begin(), m.GetData().end());
    return SparseMatrix<T>(m.GetIndptr(), m.GetIndices(), std::move(d), m.Rows(), m.Cols());
}

// size of the matrix as an unsized list of its entries determines it
void shrink_dims(Content& c)
{
    int r = 0, k = 0;
    for (auto& e : c.entries)
    {
        r = std::max(r, e.first.first + 1);
        k = std::max(k, e.first.second + 1);
    }
    c.rows = r;
    c.cols = k;
    c.any_dims = c.entries.empty();
    c.exact_arrays = false;
}

Value gen_value(int fmt, bool big)
{
    Value v;
    v.fmt = fmt;
    const bool integer = is_int(fmt);
    if (is_vec(fmt))
    {
        int n = big ? sim::extent(1000, 4200, "length") : static_cast<int>(choose(18, "length"));
        if (big && chance(1, 12, "huge")) { n *= 70; }
        for (int i = 0; i < n; ++i)
        {
            double x = big && i > 40 ? i * (integer ? 3 : 0.37) : gen_val(integer);
            if (fmt == TEXT_L || fmt == BINV_L) { x = i % 3 ? x * 1048576.0 : x; }
            v.vec.push_back(as_stored(fmt, x));
        }
        v.expect = content_of_vec(v.vec);
        return v;
    }
    int rows = 1 + static_cast<int>(choose(6, "rows")), cols = 1 + static_cast<int>(choose(6, "cols"));
    if (chance(1, 12, "no rows")) { rows = 0; }
    const bool sym = fmt == ADJ_SYM || fmt == COO_SYM || fmt == GRAPH || fmt == MTXLIST_SYM || fmt == MTX_SYM;
    if (sym) { cols = rows; }
    if (big)
    {
        // a banded matrix with many rows: several disk buffers worth of data
        // or one with a few rows of thousands of entries each
        const bool digits = chance(1, 2, "all digits");
        const bool lengthy = !sym && chance(1, 4, "long rows");
        rows = cols = sim::extent(250, 900, "rows") * (chance(1, 16, "huge") ? 25 : 1);
        if (lengthy) { rows = range(1, 4, "few rows"); cols = rows == 1 ? cols : std::min(cols, 6000); if (chance(1, 2, "columns")) { cols = sim::extent(250, 4200, "columns"); } }
        std::vector<int> ip(1, 0), ix;
        std::vector<double> d;
        for (int i = 0; i < rows; ++i)
        {
            for (int j = lengthy ? i : std::max(0, i - 1); j <= (lengthy ? cols - 1 : std::min(cols - 1, i + 1)); ++j)
            {
                ix.push_back(j);
                double val = integer ? i + j + 1 : digits ? (i - 1.7 * j + 0.3) / 7.0 : (i + j) * 1.25 + 1;
                d.push_back(val);
            }
            ip.push_back(static_cast<int>(ix.size()));
        }
        v.mat = SparseMatrix<double>(std::move(ip), std::move(ix), std::move(d), rows, cols);
    }
    else { v.mat = gen_mat(rows, cols, 4, integer, chance(1, 2, "sorted")); }
    if (is_float(fmt))
    {
        std::vector<double> d(v.mat.GetData());
        for (double& x : d) { x = as_stored(fmt, x); }
        v.mat = SparseMatrix<double>(v.mat.GetIndptr(), v.mat.GetIndices(), std::move(d), v.mat.Rows(), v.mat.Cols());
    }
    Content full = content_of(v.mat, true);
    std::ostringstream raw;
    raw.precision(16);
    switch (fmt)
    {
        case BINM_D: case BINM_F: case BINM_I: case CSR_D: case CSR_I:
            v.expect = full;
            return v;
        case ADJ:
            v.expect = full;
            for (auto& e : v.expect.entries) { e.second = 1; }
            shrink_dims(v.expect);
            return v;
        case COO: case COO_I:
            v.expect = full;
            shrink_dims(v.expect);
            return v;
        case ADJ_SYM: case COO_SYM:
        {
            // only the upper part is stored and mirrored on reading
            Content c;
            for (auto& e : full.entries)
            {
                if (e.first.second < e.first.first) { continue; }
                double x = fmt == ADJ_SYM ? 1.0 : e.second;
                c.entries[e.first] = x;
                c.entries[std::make_pair(e.first.second, e.first.first)] = x;
            }
            shrink_dims(c);
            v.expect = c;
            return v;
        }
        case TABLE: case TABLE_D:
        {
            Content c = full;
            for (double& x : c.data) { x = 1; }
            for (auto& e : c.entries) { e.second = 1; }
            c.cols = 0;
            for (int k : c.indices) { c.cols = std::max(c.cols, k + 1); }
            v.expect = c;
            return v;
        }
        case MTX_D: case MTX_I:
            v.expect = full;
            v.expect.exact_arrays = false;
            return v;
        case GRAPH:
        {
            Content c;
            for (auto& e : full.entries)
            {
                int i = e.first.first, j = e.first.second;
                raw << i << " " << j << "\n";
                if (i < j)
                {
                    c.entries[std::make_pair(i, j)] += -1;
                    c.entries[std::make_pair(j, i)] += -1;
                    c.entries[std::make_pair(i, i)] += 1;
                    c.entries[std::make_pair(j, j)] += 1;
                }
            }
            shrink_dims(c);
            v.expect = c;
            v.raw = raw.str();
            return v;
        }
        case MTXLIST: case MTXLIST_SYM: case MTX_SYM:
        {
            Content c;
            c.rows = full.rows;
            c.cols = full.cols;
            int n = 0;
            const bool whole = !sym || choose(5, "all entries stored") == 4;    // a general file, with or without saying so
            const bool upper = !whole && choose(3, "triangle") == 2;
            const bool skew = !whole && choose(4, "skew") == 3;
            std::ostringstream body;
            body.precision(16);
            for (auto& e : full.entries)
            {
                int i = e.first.first, j = e.first.second;
                if (!whole && (upper ? i > j : j > i)) { continue; }
                if (skew && i == j) { continue; }
                double x = fmt == MTX_SYM ? e.second : 1.0;
                n++;
                body << i + 1 << " " << j + 1;
                if (fmt == MTX_SYM) { body << " " << x; }
                body << "\n";
                c.entries[std::make_pair(i, j)] = x;
                if (!whole) { c.entries[std::make_pair(j, i)] = skew ? -x : x; }
            }
            std::string banner = std::string("%%MatrixMarket matrix coordinate ") + (fmt == MTX_SYM ? "real " : "pattern ")
                                 + (skew ? "skew-symmetric" : !whole ? "symmetric" : "general") + "\n";
            if (choose(4, "banner_case") == 3)
            {
                // the words of the banner may be written in any case
                for (size_t k = 14; k < banner.size(); ++k) { banner[k] = std::toupper(banner[k]); }
                sim::count("probe.banner_case");
            }
            static const char* const NOTE[] = {"% a comment\n", "", "% structure: unsymmetric\n%\n", "% not skew-symmetric\n% MatrixMarket symmetric\n"};
            if (whole && choose(2, "no banner")) { banner.clear(); sim::count("probe.no_banner"); }
            raw << banner << NOTE[choose(4, "note")] << c.rows << " " << c.cols << " " << n << "\n" << body.str();
            v.expect = c;
            v.raw = raw.str();
            return v;
        }
    }
    sim::broken("gen_value %d", fmt);
}

void write_value(const Value& v, const std::string& path)
{
    switch (v.fmt)
    {
        case TEXT_D: WriteText(v.vec, path); return;
        case TEXT_I: { std::vector<int> d(v.vec.begin(), v.vec.end()); WriteText(d, path); return; }
        case TEXT_V: { Vector<double> d(v.vec); WriteText(d, path); return; }
        case TEXT_F: { std::vector<float> d(v.vec.begin(), v.vec.end()); WriteText(d, path); return; }
        case TEXT_L: { std::vector<long> d(v.vec.begin(), v.vec.end()); WriteText(d, path); return; }
        case BINV_F: { std::vector<float> d(v.vec.begin(), v.vec.end()); WriteBinary(d, path); return; }
        case BINV_L: { std::vector<long> d(v.vec.begin(), v.vec.end()); WriteBinary(d, path); return; }
        case BINM_F: WriteBinary(cast<float>(v.mat), path); return;
        case BINV_D: WriteBinary(v.vec, path); return;
        case BINV_I: { std::vector<int> d(v.vec.begin(), v.vec.end()); WriteBinary(d, path); return; }
        case BINM_D: WriteBinary(v.mat, path); return;
        case BINM_I: WriteBinary(cast<int>(v.mat), path); return;
        case ADJ: WriteAdjList(v.mat, path); return;
        case ADJ_SYM: WriteAdjList(v.mat, path, true); return;
        case COO: WriteCooList(v.mat, path); return;
        case COO_SYM: WriteCooList(v.mat, path, true); return;
        case COO_I: WriteCooList(cast<int>(v.mat), path); return;
        case TABLE: WriteTable(cast<int>(v.mat), path); return;
        case TABLE_D: WriteTable(v.mat, path); return;
        case CSR_D: WriteCSR(v.mat, path); return;
        case CSR_I: WriteCSR(cast<int>(v.mat), path); return;
        case MTX_D: WriteMTX(v.mat, path); return;
        case MTX_I: WriteMTX(cast<int>(v.mat), path); return;
    }
    sim::broken("write_value %d", v.fmt);
}

template <typename T>
Content checked(const SparseMatrix<T>& m, bool exact, const char* what)
{
    std::string bad = malformed(m);
    if (!bad.empty()) { violation("malformed-matrix", "%s returned a malformed matrix: %s", what, bad.c_str()); }
    return content_of(m, exact);
}

Content read_value(int fmt, const std::string& path)
{
    const char* n = FMT_NAME[fmt];
    switch (fmt)
    {
        case TEXT_D: case TEXT_V: return content_of_vec(ReadText<double>(path));
        case TEXT_I: return content_of_vec(ReadText<int>(path));
        case TEXT_F: return content_of_vec(ReadText<float>(path));
        case TEXT_L: return content_of_vec(ReadText<long>(path));
        case BINV_F: return content_of_vec(ReadBinaryVect<float>(path));
        case BINV_L: return content_of_vec(ReadBinaryVect<long>(path));
        case BINM_F: return checked(ReadBinaryMat<float>(path), true, n);
        case BINV_D: return content_of_vec(ReadBinaryVect<double>(path));
        case BINV_I: return content_of_vec(ReadBinaryVect<int>(path));
        case BINM_D: return checked(ReadBinaryMat<double>(path), true, n);
        case BINM_I: return checked(ReadBinaryMat<int>(path), true, n);
        case ADJ: return checked(ReadAdjList<double>(path), false, n);
        case ADJ_SYM: return checked(ReadAdjList<double>(path, true), false, n);
        case COO: return checked(ReadCooList<double>(path), false, n);
        case COO_SYM: return checked(ReadCooList<double>(path, true), false, n);
        case COO_I: return checked(ReadCooList<int>(path), false, n);
        case TABLE: return checked(ReadTable<int>(path), true, n);
        case TABLE_D: return checked(ReadTable<double>(path), true, n);
        case CSR_D: return checked(ReadCSR<double>(path), true, n);
        case CSR_I: return checked(ReadCSR<int>(path), true, n);
        case MTX_D: case MTX_SYM: return checked(ReadMTX<double>(path), false, n);
        case MTX_I: return checked(ReadMTX<int>(path), false, n);
        case GRAPH: return checked(ReadGraphList<double>(path), false, n);
        case MTXLIST: case MTXLIST_SYM: return checked(ReadMTXList<double>(path), false, n);
    }
    sim::broken("read_value %d", fmt);
}

struct Outcome
{
    bool threw = false;
    std::string what;
    Content got;
};

// Leave the stack and the allocator full of a per-run pattern, so that reading
// something that was never written cannot look like a zero.
__attribute__((noinline)) void paint(unsigned char b)
{
    volatile char buf[24000];
    for (size_t i = 0; i < sizeof(buf); ++i) { buf[i] = static_cast<char>(b); }
}

template <typename F>
Outcome guarded(const F& f)
{
    static const unsigned char pats[] = {0x00, 0x01, 0x7F, 0xA5, 0xFF};
    unsigned char b = pats[choose(5, "memory fill")];
    sim::alloc::set_fill(b);
    Outcome o;
    paint(b);
    try { f(o); }
    catch (const std::exception& e)
    {
        sim::alloc::Exempt x;
        o.threw = true;
        o.what = e.what();
    }
    return o;
}

void check_leaks(uint64_t live0, const char* what)
{
    if (sim::alloc::live() > live0)
    {
        violation("leak", "%s leaked %llu block(s)", what, (unsigned long long)(sim::alloc::live() - live0));
    }
    if (sim::fs::leaked_fds() > 0) { violation("fd-leak", "%s left a file open", what); }
}

Outcome do_write(const Value& v, const std::string& path)
{
    const uint64_t live0 = sim::alloc::live();
    Outcome o = guarded([&](Outcome&) { write_value(v, path); });
    check_leaks(live0 + 0, FMT_NAME[v.fmt]);
    event("write %s %s: %s", FMT_NAME[v.fmt], path.c_str(), o.threw ? "exception" : "ok");
    sim::steps(1);
    return o;
}

Outcome do_read(int fmt, const std::string& path)
{
    const uint64_t live0 = sim::alloc::live();
    Outcome o = guarded([&](Outcome& out)
    {
        Content c = read_value(fmt, path);
        sim::alloc::Exempt x;
        out.got = c;
    });
    if (sim::alloc::live() > live0) { violation("leak", "reading %s leaked", FMT_NAME[fmt]); }
    if (sim::fs::leaked_fds() > 0) { violation("fd-leak", "reading %s left a file open", FMT_NAME[fmt]); }
    event("read %s %s: %s", FMT_NAME[fmt], path.c_str(), o.threw ? "exception" : "ok");
    sim::steps(1);
    return o;
}

const char* PATHS[] = {"/sim/a", "/sim/b", "/sim/dir/c.txt"};

void benign_faults(sim::fs::Faults& f)
{
    static const unsigned p[] = {0, 2, 8, 14};
    f.short_read = p[choose(4, "short read rate")];
    f.short_write = p[choose(4, "short write rate")];
    f.eintr = p[choose(3, "eintr rate")];
}

// ---- P01: round trips under benign disk behaviour --------------------------

void round_trip()
{
    struct Slot { bool used = false; Value v; };
    std::map<std::string, Slot> slots;
    int ops = 1 + static_cast<int>(choose(5, "operations"));
    for (int k = 0; k < ops; ++k)
    {
        sim::fs::Faults f;
        benign_faults(f);
        std::string path = PATHS[choose(3, "file")];
        bool rd = slots.count(path) && slots[path].used && chance(1, 4, "read again");
        if (!rd)
        {
            int fmt = static_cast<int>(choose(NUM_FMT, "format"));
            bool big = chance(1, 8, "big");
            Value v;
            {
                sim::alloc::Exempt e;
                v = gen_value(fmt, big);
            }
            event("value %s rows=%d cols=%d n=%zu", FMT_NAME[fmt], v.mat.Rows(), v.mat.Cols(),
                  v.vec.size() + v.mat.GetData().size());
            sim::state(fmt * 2 + big);
            if (fmt >= NUM_WRITTEN) { sim::fs::put(path, v.raw); }
            else
            {
                sim::fs::set(f);
                Outcome o = do_write(v, path);
                sim::fs::clear_faults();
                if (o.threw) { violation("write-refused", "writing %s failed without any fault: %s", FMT_NAME[fmt], o.what.c_str()); }
            }
            sim::alloc::Exempt e;
            slots[path].used = true;
            slots[path].v = v;
        }
        const Value& v = slots[path].v;
        sim::fs::set(f);
        Outcome o = do_read(v.fmt, path);
        sim::fs::clear_faults();
        sim::state(sim::fs::get(path).size());
        sim::nontrivial();
        if (o.threw) { violation("read-refused", "reading back %s failed without any fault: %s", FMT_NAME[v.fmt], o.what.c_str()); }
        std::string d = diff(v.expect, o.got, is_binary(v.fmt));
        if (!d.empty()) { violation("round-trip", "%s does not read back what was written: %s", FMT_NAME[v.fmt], d.c_str()); }
        for (double x : o.got.vec) { sim::hash_f64(x); }
        for (double x : o.got.data) { sim::hash_f64(x); }
    }
}

// ---- P02: an acknowledged write is complete --------------------------------

void write_faults()
{
    int fmt = static_cast<int>(choose(NUM_WRITTEN, "format"));
    bool big = chance(1, 4, "big");
    Value v;
    {
        sim::alloc::Exempt e;
        v = gen_value(fmt, big);
    }
    event("value %s n=%zu", FMT_NAME[fmt], v.vec.size() + v.mat.GetData().size());
    sim::fs::Faults none;
    sim::fs::set(none);
    Outcome clean = do_write(v, "/sim/clean");
    if (clean.threw) { violation("write-refused", "writing %s failed without any fault: %s", FMT_NAME[fmt], clean.what.c_str()); }
    const unsigned nw = sim::fs::writes();
    const std::string want = sim::fs::get("/sim/clean");

    // optionally an older, longer or shorter file is in the way
    if (chance(1, 3, "overwrite")) { sim::fs::put("/sim/f", std::string(choose(2, "old size") ? 20000 : 7, '7')); }
    int tries = 1 + static_cast<int>(choose(3, "attempts"));
    for (int t = 0; t < tries; ++t)
    {
        sim::fs::Faults f;
        benign_faults(f);
        int kind = static_cast<int>(choose(8, "fault kind"));
        std::string path = "/sim/f";
        switch (kind)
        {
            case 0: break;
            case 1: f.enospc_after = static_cast<long>(choose(want.size() + 1, "bytes that fit")); break;
            case 2: f.enospc_after = 0; break;
            case 3: f.fail_write_at = static_cast<int>(choose(nw + 1, "failing write")); break;
            case 4: f.fail_write_at = static_cast<int>(choose(nw + 1, "failing write")); f.fail_write_once = true; break;
            case 5: f.fail_close_at = 0; break;
            case 6: f.fail_open_at = 0; break;
            case 7: path = "/sim/missing/f"; break;
        }
        sim::fs::set(f);
        Outcome o = do_write(v, path);
        const bool fired = sim::fs::fired() || kind == 7;
        sim::fs::clear_faults();
        sim::state(fmt * 16 + kind);
        if (fired)
        {
            sim::nontrivial();
            sim::state(want.size());
        }
        if (kind == 7)
        {
            sim::count("fault.missing_directory");
            if (!o.threw) { violation("open-failure-ignored", "writing %s into a missing directory reported success", FMT_NAME[fmt]); }
            continue;
        }
        if (o.threw && !fired)
        {
            violation("write-refused", "writing %s failed although every disk call succeeded: %s", FMT_NAME[fmt], o.what.c_str());
        }
        if (!o.threw && sim::fs::get(path) != want)
        {
            violation("lost-write", "writing %s returned normally, but the file holds %zu of %zu bytes%s", FMT_NAME[fmt],
                      sim::fs::get(path).size(), want.size(),
                      sim::fs::get(path).size() == want.size() ? " (different content)" : "");
        }
        if (!o.threw && kind == 5 && fired)
        {
            violation("close-failure-ignored", "writing %s returned normally although closing the file failed", FMT_NAME[fmt]);
        }
        if (!o.threw) { sim::count("probe.acknowledged_write"); }
        else { sim::count("probe.reported_write_failure"); }
    }
    // once the disk is healthy again, a write must succeed and be complete
    Outcome o = do_write(v, "/sim/f");
    if (o.threw) { violation("write-refused", "writing %s failed after the faults stopped: %s", FMT_NAME[fmt], o.what.c_str()); }
    if (sim::fs::get("/sim/f") != want) { violation("lost-write", "writing %s after the faults stopped left a wrong file", FMT_NAME[fmt]); }
}

// ---- P03: damaged files and failing reads ----------------------------------

struct Verdict
{
    bool must_throw = false;
    bool may_throw = false;
    std::vector<Content> ok;
};

template <typename V>
bool take(const std::string& b, size_t& pos, V& v)
{
    if (b.size() - pos < sizeof(V)) { return false; }
    std::memcpy(&v, b.data() + pos, sizeof(V));
    pos += sizeof(V);
    return true;
}

template <typename T>
Verdict ref_binv(const std::string& b)
{
    Verdict r;
    size_t pos = 0;
    uint64_t n = 0;
    if (!take(b, pos, n) || n > (b.size() - pos) / sizeof(T))
    {
        r.must_throw = true;
        return r;
    }
    Content c;
    c.is_vec = true;
    for (uint64_t i = 0; i < n; ++i)
    {
        T x;
        take(b, pos, x);
        c.vec.push_back(x);
    }
    r.ok.push_back(c);
    r.may_throw = pos != b.size();
    return r;
}

bool build(Content& c)
{
    if (c.rows < 0 || c.cols < 0 || c.indptr.size() != static_cast<size_t>(c.rows) + 1 || c.indptr[0] != 0) { return false; }
    for (int i = 0; i < c.rows; ++i) { if (c.indptr[i] > c.indptr[i + 1]) { return false; } }
    if (static_cast<size_t>(c.indptr.back()) != c.indices.size()) { return false; }
    for (int j : c.indices) { if (j < 0 || j >= c.cols) { return false; } }
    c.exact_arrays = true;
    return true;
}

template <typename T>
Verdict ref_binm(const std::string& b)
{
    Verdict r;
    size_t pos = 0;
    uint64_t rows = 0, cols = 0, nnz = 0;
    r.must_throw = true;
    if (!take(b, pos, rows) || !take(b, pos, cols) || !take(b, pos, nnz)) { return r; }
    if (rows > 0x7ffffffeu || cols > 0x7fffffffu || nnz > 0x7fffffffu) { return r; }
    uint64_t need = (rows + 1) * sizeof(int) + nnz * (sizeof(int) + sizeof(T));
    if (b.size() - pos < need) { return r; }
    Content c;
    c.rows = static_cast<int>(rows);
    c.cols = static_cast<int>(cols);
    for (uint64_t i = 0; i <= rows; ++i) { int x; take(b, pos, x); c.indptr.push_back(x); }
    for (uint64_t i = 0; i < nnz; ++i) { int x; take(b, pos, x); c.indices.push_back(x); }
    for (uint64_t i = 0; i < nnz; ++i) { T x; take(b, pos, x); c.data.push_back(x); }
    if (!build(c)) { return r; }
    r.must_throw = false;
    r.may_throw = pos != b.size();
    r.ok.push_back(c);
    return r;
}

// Does the stream have anything but white space left?
bool leftover(std::istringstream& s)
{
    s.clear();
    char c;
    return static_cast<bool>(s >> c);
}

template <typename T>
Verdict ref_csr(const std::string& b)
{
    Verdict r;
    r.must_throw = true;
    std::istringstream s(b);
    long long rows, cols;
    if (!(s >> rows >> cols) || rows < 0 || cols < 0 || rows > 0x7ffffffe || cols > 0x7fffffff) { return r; }
    Content c;
    c.rows = static_cast<int>(rows);
    c.cols = static_cast<int>(cols);
    for (long long i = 0; i <= rows; ++i) { int x; if (!(s >> x)) { return r; } c.indptr.push_back(x); }
    int nnz = c.indptr.back();
    if (nnz < 0) { return r; }
    for (int i = 0; i < nnz; ++i) { int x; if (!(s >> x)) { return r; } c.indices.push_back(x); }
    for (int i = 0; i < nnz; ++i) { T x; if (!(s >> x)) { return r; } c.data.push_back(x); }
    if (!build(c)) { return r; }
    r.must_throw = false;
    r.may_throw = leftover(s);
    r.ok.push_back(c);
    return r;
}

// Is there anything but white space ahead?
bool ahead(std::istream& s)
{
    return static_cast<bool>(s >> std::ws) && s.peek() != EOF;
}

// Numbers that touch ("3-4") can be told apart, or refused.
template <typename T>
bool is_number(const std::string& w)
{
    std::istringstream s(w);
    T x;
    return static_cast<bool>(s >> x) && s.peek() == EOF;
}

template <typename T>
Verdict ref_text(const std::string& b)
{
    Verdict r;
    std::istringstream s(b);
    Content c;
    c.is_vec = true;
    while (ahead(s))
    {
        T x;
        if (!(s >> x)) { r.must_throw = true; return r; }
        c.vec.push_back(x);
    }
    std::istringstream t(b);
    for (std::string w; t >> w;) { r.may_throw = r.may_throw || !is_number<T>(w); }
    r.ok.push_back(c);
    return r;
}

struct Rec { long long i, j; double v; };

// the plain lists: whole records up to the end of the file
Verdict ref_list(const std::string& b, int fmt)
{
    Verdict r;
    const bool has_val = fmt == COO || fmt == COO_SYM || fmt == COO_I;
    std::istringstream s(b);
    std::vector<Rec> recs;
    while (ahead(s))
    {
        int i, j, x;
        double v = 1;
        bool good = static_cast<bool>(s >> i >> j);
        if (fmt == COO_I) { good = good && s >> x; v = x; }
        else if (has_val) { good = good && s >> v; }
        if (!good) { r.must_throw = true; return r; }
        recs.push_back(Rec{i, j, v});
    }
    std::istringstream t(b);
    size_t tokens = 0;
    for (std::string w; t >> w;) { tokens++; }
    r.may_throw = tokens != recs.size() * (has_val ? 3 : 2);
    Content c;
    bool huge = false;
    for (const Rec& q : recs)
    {
        if (fmt == GRAPH)
        {
            if (q.i >= q.j) { continue; }
            if (q.i < 0) { r.must_throw = true; return r; }
            c.entries[std::make_pair((int)q.i, (int)q.j)] += -1;
            c.entries[std::make_pair((int)q.j, (int)q.i)] += -1;
            c.entries[std::make_pair((int)q.i, (int)q.i)] += 1;
            c.entries[std::make_pair((int)q.j, (int)q.j)] += 1;
            huge |= q.j > 1000000;
            continue;
        }
        if (q.i < 0 || q.j < 0) { r.must_throw = true; return r; }
        const bool sym = fmt == ADJ_SYM || fmt == COO_SYM;
        huge |= q.i > 1000000 || (sym && q.j > 1000000) || q.j == 0x7fffffff;
        c.entries[std::make_pair((int)q.i, (int)q.j)] += q.v;
        if (sym && q.i != q.j) { c.entries[std::make_pair((int)q.j, (int)q.i)] += q.v; }
    }
    if (huge)
    {
        r.may_throw = true;
        bool max = false;
        for (const Rec& q : recs) { max |= q.i == 0x7fffffff || q.j == 0x7fffffff; }
        if (max) { r.must_throw = true; return r; }
    }
    shrink_dims(c);
    r.ok.push_back(c);
    return r;
}

Verdict ref_table(const std::string& b)
{
    Verdict r;
    Content c;
    std::istringstream f(b);
    c.indptr.push_back(0);
    for (std::string line; std::getline(f, line);)
    {
        std::istringstream s(line);
        while (ahead(s))
        {
            int x;
            if (!(s >> x)) { r.must_throw = true; return r; }
            c.indices.push_back(x);
        }
        c.indptr.push_back(static_cast<int>(c.indices.size()));
        std::istringstream t(line);
        for (std::string w; t >> w;) { r.may_throw = r.may_throw || !is_number<int>(w); }
    }
    c.rows = static_cast<int>(c.indptr.size()) - 1;
    for (int k : c.indices)
    {
        if (k < 0 || k == 0x7fffffff)
        {
            r.must_throw = true;
            return r;
        }
        c.cols = std::max(c.cols, k + 1);
    }
    c.data.assign(c.indices.size(), 1);
    c.exact_arrays = true;
    for (int i = 0; i < c.rows; ++i)
    {
        for (int k = c.indptr[i]; k < c.indptr[i + 1]; ++k) { c.entries[std::make_pair(i, c.indices[k])] += 1; }
    }
    r.ok.push_back(c);
    return r;
}

// what the numbers say when entries off the diagonal stand alone (0), also for
// their mirror image (1), or for its negative (-1)
Verdict ref_mtx_as(const std::string& b, int fmt, int mirror)
{
    const bool sym = mirror != 0;
    Verdict r;
    r.must_throw = true;
    const bool has_val = fmt == MTX_D || fmt == MTX_I || fmt == MTX_SYM;
    std::istringstream f(b);
    std::string line;
    while (std::getline(f, line) && line.size() && line[0] == '%') { }
    std::istringstream h(line);
    int rows, cols, nnz;
    if (!(h >> rows >> cols >> nnz) || rows < 0 || cols < 0 || nnz < 0) { return r; }
    bool odd_header = leftover(h);
    if (rows > 1000000) { r.may_throw = true; }
    Content c;
    c.rows = rows;
    c.cols = cols;
    int n = 0;
    bool broken_off = false;
    while (ahead(f))
    {
        int i, j, x;
        double v = 1;
        broken_off = !(f >> i >> j);
        if (fmt == MTX_I) { broken_off = broken_off || !(f >> x); v = broken_off ? 0 : x; }
        else if (has_val) { broken_off = broken_off || !(f >> v); }
        if (broken_off) { break; }
        if (n == nnz) { n++; break; }
        n++;
        if (i < 1 || j < 1 || i > rows || j > cols) { return r; }
        if (sym && i != j && (j > rows || i > cols)) { return r; }
        c.entries[std::make_pair(i - 1, j - 1)] += v;
        if (sym && i != j) { c.entries[std::make_pair(j - 1, i - 1)] += mirror * v; }
    }
    if (n < nnz) { return r; }
    if (n > nnz)
    {
        // more entries than declared: refuse, or at most the declared ones
        r.must_throw = false;
        r.may_throw = true;
        r.ok.push_back(c);
        return r;
    }
    r.must_throw = false;
    r.may_throw = r.may_throw || broken_off || odd_header;
    r.ok.push_back(c);
    return r;
}

Verdict ref_mtx(const std::string& b, int fmt)
{
    // The first line says what the numbers mean, in words of any case; the other comments do not matter.
    std::string banner;
    if (!b.empty() && b[0] == '%') { banner = b.substr(0, b.find('\n')); }
    else { return ref_mtx_as(b, fmt, 0); }
    for (char& c : banner) { c = std::tolower((unsigned char)c); }
    std::istringstream words(banner);
    std::vector<std::string> word;
    for (std::string w; words >> w; ) { word.push_back(w); }
    const bool known = word.size() == 5 && (word[0] == "%%matrixmarket" || word[0] == "%matrixmarket")
                       && word[1] == "matrix" && word[2] == "coordinate" && (word[3] == "real" || word[3] == "integer" || word[3] == "pattern")
                       && (word[4] == "general" || word[4] == "symmetric" || word[4] == "skew-symmetric");
    if (!known)
    {
        Verdict r;
        // what it means is anyone's guess: any of the readings, or none
        for (int mirror = -1; mirror <= 1; ++mirror)
        {
            Verdict one = ref_mtx_as(b, fmt, mirror);
            r.ok.insert(r.ok.end(), one.ok.begin(), one.ok.end());
        }
        r.must_throw = r.ok.empty();
        r.may_throw = true;
        return r;
    }
    return ref_mtx_as(b, fmt, word[4] == "general" ? 0 : word[4] == "symmetric" ? 1 : -1);
}
Verdict reference(int fmt, const std::string& b)
{
    switch (fmt)
    {
        case TEXT_D: case TEXT_V: return ref_text<double>(b);
        case TEXT_I: return ref_text<int>(b);
        case TEXT_F: return ref_text<float>(b);
        case TEXT_L: return ref_text<long>(b);
        case BINV_F: return ref_binv<float>(b);
        case BINV_L: return ref_binv<long>(b);
        case BINM_F: return ref_binm<float>(b);
        case BINV_D: return ref_binv<double>(b);
        case BINV_I: return ref_binv<int>(b);
        case BINM_D: return ref_binm<double>(b);
        case BINM_I: return ref_binm<int>(b);
        case TABLE: case TABLE_D: return ref_table(b);
        case CSR_D: return ref_csr<double>(b);
        case CSR_I: return ref_csr<int>(b);
        case MTX_D: case MTX_I: case MTX_SYM: case MTXLIST: case MTXLIST_SYM: return ref_mtx(b, fmt);
        default: return ref_list(b, fmt);
    }
}

void judge(int fmt, const std::string& bytes, const Outcome& o, const char* how)
{
    sim::alloc::Exempt e;
    Verdict v = reference(fmt, bytes);
    if (fmt == COO_I || fmt == MTX_I)
    {
        // sums of duplicate entries that no int can hold say nothing about the reader
        for (const Content& c : v.ok)
        {
            for (const auto& x : c.entries) { if (std::abs(x.second) > 2147483647.0) { return; } }
        }
    }
    // absurd sizes may be refused even where they could be represented
    for (const Content& c : v.ok) { v.may_throw = v.may_throw || c.rows > 1000000 || c.cols > 1000000; }
    if (o.threw)
    {
        sim::count("probe.damage_reported");
        if (!v.must_throw && !v.may_throw)
        {
            violation("read-refused", "%s (%s, %zu bytes) is readable but was refused: %s", FMT_NAME[fmt], how, bytes.size(), o.what.c_str());
        }
        return;
    }
    if (v.must_throw)
    {
        violation("damage-accepted", "%s (%s, %zu bytes) is incomplete or inconsistent but was read without an error", FMT_NAME[fmt], how,
                  bytes.size());
    }
    sim::count("probe.damaged_but_consistent");
    std::string d;
    for (const Content& c : v.ok)
    {
        d = diff(c, o.got, is_binary(fmt));
        if (d.empty()) { return; }
    }
    violation("wrong-data", "%s (%s, %zu bytes) was read as something its bytes do not say: %s", FMT_NAME[fmt], how, bytes.size(), d.c_str());
}

size_t damage_from(const Value& v, const std::string& b)
{
    // keep the MatrixMarket banner and comments as they are
    if (v.fmt < MTX_D || v.fmt == GRAPH) { return 0; }
    size_t p = 0;
    while (p < b.size() && b[p] == '%')
    {
        size_t e = b.find('\n', p);
        if (e == std::string::npos) { return b.size(); }
        p = e + 1;
    }
    return p;
}

std::string bytes_of(const Value& v)
{
    if (v.fmt >= NUM_WRITTEN) { return v.raw; }
    Outcome o = do_write(v, "/sim/clean");
    if (o.threw) { violation("write-refused", "writing %s failed without any fault: %s", FMT_NAME[v.fmt], o.what.c_str()); }
    return sim::fs::get("/sim/clean");
}

void damage()
{
    int fmt = static_cast<int>(choose(NUM_FMT, "format"));
    bool big = chance(1, 10, "big");
    Value v;
    std::string b;
    {
        sim::alloc::Exempt e;
        v = gen_value(fmt, big);
        sim::alloc::Track t;
        b = bytes_of(v);
    }
    const size_t from = damage_from(v, b);
    int n = 1 + static_cast<int>(sim::geometric(2, "number of damages"));
    std::string how;
    for (int k = 0; k < n; ++k)
    {
        int kind = static_cast<int>(choose(12, "damage kind"));
        size_t len = b.size();
        size_t lo = std::min(from, len);
        size_t p = lo + choose(static_cast<unsigned>(len - lo + 1), "where");
        static const char* const names[] = {"fault.truncated", "fault.bit_flip", "fault.zeroed_block", "fault.byte_overwritten",
                                            "fault.bytes_inserted", "fault.block_duplicated", "fault.block_lost", "fault.number_replaced",
                                            "fault.numbers_swapped", "fault.lines_swapped", "fault.header_replaced", "fault.number_respelled"};
        switch (kind)
        {
            case 0: b.resize(p); break;
            case 1: if (p < len) { b[p] = static_cast<char>(b[p] ^ (1 << choose(8, "bit"))); } break;
            case 2:
            {
                size_t m = std::min<size_t>(1 + choose(64, "block"), len - p);
                for (size_t i = 0; i < m; ++i) { b[p + i] = 0; }
                break;
            }
            case 3: if (p < len) { static const char cs[] = "0127-+. \nxe\xff"; b[p] = cs[choose(12, "byte")]; } break;
            case 4:
            {
                static const char* const in[] = {"9", "-", " 3 ", "\n", "x", "1e5", " -1 ", "99999999999", " 2147483647 ", "1 1\n", "\r"};
                b.insert(p, in[choose(11, "inserted")]);
                break;
            }
            case 5: { size_t m = std::min<size_t>(1 + choose(40, "block"), len - p); b.insert(p, b.substr(p, m)); break; }
            case 6: { size_t m = std::min<size_t>(1 + choose(40, "block"), len - p); b.erase(p, m); break; }
            case 7:
            {
                if (is_binary(fmt))
                {
                    size_t q = (p / 4) * 4;
                    static const uint32_t big_[] = {0u, 1u, 0xffffffffu, 0x7fffffffu, 0x80000000u, 1000u};
                    uint32_t x = big_[choose(6, "word")];
                    if (q + 4 <= len) { std::memcpy(&b[q], &x, 4); }
                }
                else
                {
                    size_t s = p, e = p;
                    auto num = [&](char c) { return (c >= '0' && c <= '9') || c == '-' || c == '.'; };
                    while (s > lo && num(b[s - 1])) { s--; }
                    while (e < len && num(b[e])) { e++; }
                    static const char* const in[] = {"0", "-1", "7", "2147483647", "4294967297", "1000", "-2147483648", "nan", "1.5"};
                    b.replace(s, e - s, in[choose(9, "number")]);
                }
                break;
            }
            case 8:
            {
                // the first two numbers of a line change places
                size_t s = p;
                while (s > lo && b[s - 1] != '\n') { s--; }
                size_t a = b.find(' ', s);
                if (a == std::string::npos) { break; }
                size_t e = b.find_first_of(" \n", a + 1);
                if (e == std::string::npos || b.find('\n', s) < a) { break; }
                b = b.substr(0, s) + b.substr(a + 1, e - a - 1) + " " + b.substr(s, a - s) + b.substr(e);
                break;
            }
            case 9:
            {
                // two neighbouring lines change places
                size_t s = p;
                while (s > lo && b[s - 1] != '\n') { s--; }
                size_t m = b.find('\n', s);
                if (m == std::string::npos) { break; }
                size_t e = b.find('\n', m + 1);
                if (e == std::string::npos) { break; }
                b = b.substr(0, s) + b.substr(m + 1, e - m) + b.substr(s, m + 1 - s) + b.substr(e + 1);
                break;
            }
            case 10:
            {
                // the first numbers are others, and sometimes nothing follows them
                static const int in[] = {0, 1, 2, 3, -1, -2, 5, 1000, 2147483647, (-2147483647 - 1)};
                const int words = 1 + static_cast<int>(choose(4, "header numbers"));
                std::string head;
                for (int i = 0; i < words; ++i)
                {
                    const int x = in[choose(10, "header number")];
                    if (is_binary(fmt)) { head.append(reinterpret_cast<const char*>(&x), 4); }
                    else { head += (i ? " " : "") + std::to_string(x); }
                }
                size_t e = is_binary(fmt) ? std::min(len, from + head.size()) : std::min(b.find('\n', from), len);
                if (choose(2, "nothing follows")) { e = len; if (!is_binary(fmt)) { head += '\n'; } }
                b = b.substr(0, std::min(from, len)) + head + b.substr(e);
                break;
            }
            case 11:
            {
                // a number gets more characters, before it or after it
                size_t e = p;
                auto num = [&](char c) { return (c >= '0' && c <= '9') || c == '-' || c == '.'; };
                while (e < len && !num(b[e])) { e++; }
                size_t s = e;
                while (s > lo && num(b[s - 1])) { s--; }
                while (e < len && num(b[e])) { e++; }
                if (s == e) { break; }
                static const char* const after[] = {".5", ".0", "e0", "e1", ".", "0", ".75", "f"};
                static const char* const before[] = {"+", "0", "-", "0x"};
                if (choose(4, "before")) { b.insert(e, after[choose(8, "after")]); }
                else { b.insert(s, before[choose(4, "put before")]); }
                break;
            }
        }
        sim::count(names[kind]);
        how += std::string(k ? "," : "") + (names[kind] + 6);
        event("damage %s at %zu", names[kind], p);
        sim::state(fmt * 16 + kind);
    }
    sim::fs::put("/sim/f", b);
    sim::fs::Faults f;
    if (chance(1, 3, "benign faults too")) { benign_faults(f); }
    sim::fs::set(f);
    Outcome o = do_read(fmt, "/sim/f");
    sim::fs::clear_faults();
    sim::nontrivial();
    sim::state(b.size());
    sim::state(o.threw);
    judge(fmt, b, o, how.c_str());
}

void failing_reads()
{
    int fmt = static_cast<int>(choose(NUM_FMT, "format"));
    bool big = chance(1, 2, "big");
    Value v;
    std::string b;
    {
        sim::alloc::Exempt e;
        v = gen_value(fmt, big);
        sim::alloc::Track t;
        b = bytes_of(v);
    }
    sim::fs::put("/sim/f", b);
    sim::fs::Faults f;
    benign_faults(f);
    int kind = static_cast<int>(choose(4, "fault kind"));
    std::string path = "/sim/f";
    switch (kind)
    {
        case 0: f.fail_read_at = static_cast<int>(choose(b.size() / 4096 + 3, "failing read")); break;
        case 1: f.fail_read_at = static_cast<int>(choose(b.size() / 4096 + 3, "failing read")); f.fail_read_once = true; break;
        case 2: f.fail_open_at = 0; break;
        case 3: path = chance(1, 2, "directory") ? "/sim/missing/x" : "/sim/nothing"; break;
    }
    sim::fs::set(f);
    Outcome o = do_read(fmt, path);
    bool fired = sim::fs::fired();
    sim::fs::clear_faults();
    sim::state(fmt * 4 + kind);
    sim::state(b.size());
    if (kind == 3)
    {
        sim::count("fault.missing_file");
        sim::nontrivial();
        if (!o.threw) { violation("open-failure-ignored", "reading a missing file as %s returned a value", FMT_NAME[fmt]); }
        return;
    }
    if (kind == 2)
    {
        sim::nontrivial();
        if (!o.threw) { violation("open-failure-ignored", "%s: a failed open was ignored", FMT_NAME[fmt]); }
        return;
    }
    if (fired) { sim::nontrivial(); }
    if (o.threw)
    {
        if (!fired) { violation("read-refused", "reading %s failed although no read failed: %s", FMT_NAME[fmt], o.what.c_str()); }
        sim::count("probe.read_error_reported");
        return;
    }
    std::string d = diff(v.expect, o.got, is_binary(fmt));
    if (!d.empty())
    {
        violation(fired ? "read-error-swallowed" : "wrong-data", "%s: the disk reported %s while reading, and the call returned other data: %s",
                  FMT_NAME[fmt], fired ? "an I/O error" : "nothing", d.c_str());
    }
    sim::count("probe.read_error_after_all_data");
}

void crash_while_writing()
{
    int fmt = static_cast<int>(choose(NUM_WRITTEN, "format"));
    Value v, old;
    bool have_old = chance(1, 2, "file existed");
    {
        sim::alloc::Exempt e;
        v = gen_value(fmt, chance(1, 2, "big"));
        if (have_old) { old = gen_value(fmt, chance(1, 3, "big old")); }
    }
    if (have_old)
    {
        Outcome o = do_write(old, "/sim/f");
        if (o.threw) { violation("write-refused", "writing %s failed without any fault", FMT_NAME[fmt]); }
    }
    const std::string before = sim::fs::get("/sim/f");
    sim::fs::Faults f;
    benign_faults(f);
    f.crash_at = static_cast<int>(choose(8, "crash point"));
    sim::fs::set(f);
    try
    {
        write_value(v, "/sim/f");
    }
    catch (const std::exception&) {}
    const bool crashed = sim::fs::crashed();
    sim::fs::restart();
    if (!sim::fs::exists("/sim/f")) { sim::fs::put("/sim/f", ""); }
    const std::string b = sim::fs::get("/sim/f");
    event("after the crash: %zu bytes", b.size());
    Outcome o = do_read(fmt, "/sim/f");
    if (crashed)
    {
        sim::nontrivial();
        sim::state(fmt);
        sim::state(b.size());
        sim::count(b == before ? "probe.crash_left_old_file" : "probe.crash_left_torn_or_new_file");
    }
    judge(fmt, b, o, crashed ? "after a crash while it was written" : "complete");
    // and the file is usable again
    Outcome w = do_write(v, "/sim/f");
    Outcome r = do_read(fmt, "/sim/f");
    if (w.threw || r.threw) { violation("write-refused", "%s: not writable or readable after a crash", FMT_NAME[fmt]); }
    std::string d = diff(v.expect, r.got, is_binary(fmt));
    if (!d.empty()) { violation("round-trip", "%s: wrong content when rewritten after a crash: %s", FMT_NAME[fmt], d.c_str()); }
}

// ---- P04: reading and writing with failing allocations ---------------------

void file_allocations()
{
    const int fmt = static_cast<int>(choose(NUM_FMT, "format"));
    const bool big = chance(1, 8, "big");
    Value v;
    {
        sim::alloc::Exempt e;
        v = gen_value(fmt, big);
    }
    const bool writes = fmt < NUM_WRITTEN && choose(2, "write");
    if (fmt >= NUM_WRITTEN) { sim::fs::put("/sim/clean", v.raw); }
    else if (do_write(v, "/sim/clean").threw) { violation("refused", "writing %s failed with all memory available", FMT_NAME[fmt]); }
    const std::string want = sim::fs::get("/sim/clean");
    if (do_read(fmt, "/sim/clean").threw) { violation("refused", "reading %s failed with all memory available", FMT_NAME[fmt]); }
    const uint64_t t0 = sim::alloc::total();
    if (writes) { do_write(v, "/sim/clean"); }
    else { do_read(fmt, "/sim/clean"); }
    const uint64_t n = sim::alloc::total() - t0;
    event("%s %s allocates %llu times", writes ? "writing" : "reading", FMT_NAME[fmt], (unsigned long long)n);
    const unsigned points = 1 + choose(6, "points");
    for (unsigned i = 0; i < points; ++i)
    {
        const uint64_t k = choose((unsigned)std::min<uint64_t>(n + 1, 100000), "fail at");
        const bool sticky = choose(2, "sticky");
        if (writes && chance(1, 3, "overwrite")) { sim::fs::put("/sim/f", std::string(choose(2, "old size") ? 20000 : 7, '7')); }
        const uint64_t live0 = sim::alloc::live();
        sim::alloc::arm(k, sticky);
        Outcome o = guarded([&](Outcome& out)
        {
            if (writes) { write_value(v, "/sim/f"); }
            else
            {
                Content c = read_value(fmt, "/sim/clean");
                sim::alloc::Exempt x;
                out.got = c;
            }
        });
        const bool fired = sim::alloc::fired();
        sim::alloc::disarm();
        event("allocation %llu fails%s: %s", (unsigned long long)k, sticky ? " for good" : "", o.threw ? "exception" : "returned");
        sim::steps(1);
        if (!fired)
        {
            if (o.threw) { violation("refused", "%s %s failed with all memory available: %s", writes ? "writing" : "reading", FMT_NAME[fmt], o.what.c_str()); }
        }
        else
        {
            sim::nontrivial();
            sim::count(sticky ? "fault.allocation_failure_sticky" : "fault.allocation_failure_once");
            sim::state((uint64_t)(1000 + fmt * 2 + writes) << 32 | (k << 1) | sticky);
        }
        if (sim::alloc::live() != live0) { violation("leak", "%s %s leaked when allocation %llu failed", writes ? "writing" : "reading", FMT_NAME[fmt], (unsigned long long)k); }
        if (sim::fs::leaked_fds() > 0) { violation("fd-leak", "%s %s left a file open when an allocation failed", writes ? "writing" : "reading", FMT_NAME[fmt]); }
        if (sim::fs::get("/sim/clean") != want) { violation("operand-changed", "a failed allocation changed another file"); }
        if (o.threw) { continue; }
        if (writes && sim::fs::get("/sim/f") != want)
        {
            violation("silent-failure", "writing %s returned normally although an allocation failed, but the file is not complete", FMT_NAME[fmt]);
        }
        if (!writes)
        {
            const std::string d = diff(v.expect, o.got, is_binary(fmt));
            if (!d.empty()) { violation("silent-failure", "reading %s returned normally although an allocation failed, with a wrong result: %s", FMT_NAME[fmt], d.c_str()); }
        }
        if (fired) { sim::count("probe.recovered_from_allocation_failure"); }
    }
    const std::string path = writes ? "/sim/f" : "/sim/clean";
    Outcome o = writes ? do_write(v, path) : do_read(fmt, path);
    if (o.threw) { violation("refused", "%s %s failed when repeated with memory available: %s", writes ? "writing" : "reading", FMT_NAME[fmt], o.what.c_str()); }
    if (writes && sim::fs::get(path) != want) { violation("wrong-after-failure", "writing %s gives another file after a failed attempt", FMT_NAME[fmt]); }
    if (!writes)
    {
        const std::string d = diff(v.expect, o.got, is_binary(fmt));
        if (!d.empty()) { violation("wrong-after-failure", "reading %s gives another result after a failed attempt: %s", FMT_NAME[fmt], d.c_str()); }
    }
}

void warm()
{
    // one-time initialisation inside the C++ library happens before any run is measured
    std::istringstream s("1 2.5 x");
    int i; double d; std::string x;
    s >> i >> d >> x;
    std::ostringstream o;
    o << i << d << x;
    try { throw std::runtime_error("warm"); }
    catch (const std::exception&) {}
}

sim::Scenario s1("P01", "round_trip", round_trip, warm);
sim::Scenario s2("P02", "write_faults", write_faults, warm);
sim::Scenario s3a("P03", "damage", damage, warm, 5);
sim::Scenario s3b("P03", "failing_reads", failing_reads, warm, 3);
sim::Scenario s3c("P03", "crash_while_writing", crash_while_writing, warm, 2);
sim::Scenario s4("P04", "files", file_allocations, warm, 2);

} // namespace
