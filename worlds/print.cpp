// World "print": vectors and matrices shown on streams with a history of their
// own - notations, precisions, failures, exceptions switched on - while
// allocations fail (P20).  What reached the stream is compared with the contents.
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <limits>
#include <map>
#include <new>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <string>
#include <tuple>
#include <vector>

#include "linalgcpp.hpp"

#include "../sim/alloc.hpp"
#include "../sim/core.hpp"

using namespace linalgcpp;
using sim::alloc::Exempt;
using sim::alloc::Track;
using sim::choose;
using sim::violation;

namespace
{

bool differ(const void* a, const void* b, size_t n) { return n && std::memcmp(a, b, n); }

// ---- the simulated output device ---------------------------------------------
struct Broken : std::runtime_error { Broken() : std::runtime_error("the device is gone") {} };

struct Sink : std::streambuf
{
    static char text[1 << 20];
    size_t n = 0;
    size_t room = sizeof text;               // bytes accepted before the device fails
    bool throws = false;                     // how it fails
    bool once = false;                       // and works again afterwards
    unsigned chunk = 0;                      // a buffer of its own of this many bytes, 0: none
    bool failed = false;
    char area[64];

    void fail() { failed = true; if (once) { room = sizeof text; } if (throws) { throw Broken(); } }
    bool put(const char* s, size_t k)
    {
        const size_t take = std::min(k, room);
        if (take) { std::memcpy(text + n, s, take); }
        n += take;
        room -= take;
        if (take < k) { fail(); return false; }
        return true;
    }
    bool drain()
    {
        const size_t k = (size_t)(pptr() - pbase());
        char copy[sizeof area];
        if (k) { std::memcpy(copy, pbase(), k); }
        if (chunk) { setp(area, area + chunk); }
        return k == 0 || put(copy, k);
    }
    void reset() { n = 0; failed = false; if (chunk) { setp(area, area + chunk); } else { setp(nullptr, nullptr); } }
    int_type overflow(int_type c) override
    {
        if (!drain()) { return traits_type::eof(); }
        if (traits_type::eq_int_type(c, traits_type::eof())) { return traits_type::not_eof(c); }
        const char ch = traits_type::to_char_type(c);
        if (chunk) { *pptr() = ch; pbump(1); return c; }
        return put(&ch, 1) ? c : traits_type::eof();
    }
    std::streamsize xsputn(const char* s, std::streamsize k) override
    {
        if (!drain()) { return 0; }
        const size_t before = n;
        put(s, (size_t)k);
        return (std::streamsize)(n - before);
    }
    int sync() override { return drain() ? 0 : -1; }
    std::string got() const { return std::string(text, n); }
};
char Sink::text[1 << 20];

// ---- the text that is expected --------------------------------------------------
// Lines of tokens; lines without any are left out, so that layout does not matter.
typedef std::vector<std::string> Line;
typedef std::vector<Line> Lines;

Lines lines(const std::string& s)
{
    Lines o;
    std::istringstream in(s);
    std::string l;
    while (std::getline(in, l))
    {
        std::istringstream words(l);
        Line w;
        std::string t;
        while (words >> t) { w.push_back(t); }
        if (!w.empty()) { o.push_back(w); }
    }
    return o;
}
std::string join(const Line& l) { std::string o; for (auto& t : l) { o += (o.empty() ? "" : " ") + t; } return o; }
std::string glue(const Line& l) { std::string o; for (auto& t : l) { o += t; } return o; }

enum How { ROWS, TABLE, ANY };                // as listed; cells that may touch; entries in any order
struct Part { How how; Lines l; };
struct Text
{
    std::vector<Part> p;
    void row(const Line& l) { if (p.empty() || p.back().how != ROWS) { p.push_back(Part{ROWS, {}}); } if (!l.empty()) { p.back().l.push_back(l); } }
    void label(const std::string& s) { Lines l = lines(s); for (auto& x : l) { row(x); } }
    void append(const Text& t) { p.insert(p.end(), t.p.begin(), t.p.end()); }
};

std::string compare(const Text& want, const std::string& got)
{
    const Lines g = lines(got);
    size_t at = 0;
    for (auto& part : want.p)
    {
        if (at + part.l.size() > g.size()) { return "shows " + std::to_string(g.size()) + " lines, more are expected, as \"" + join(part.l[g.size() - at]) + "\""; }
        if (part.how == ANY)
        {
            std::vector<std::string> a, b;
            for (size_t i = 0; i < part.l.size(); ++i) { a.push_back(join(part.l[i])); b.push_back(join(g[at + i])); }
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            for (size_t i = 0; i < a.size(); ++i) { if (a[i] != b[i]) { return "shows \"" + b[i] + "\" where \"" + a[i] + "\" is expected"; } }
        }
        else
        {
            for (size_t i = 0; i < part.l.size(); ++i)
            {
                const bool same = part.how == TABLE ? glue(part.l[i]) == glue(g[at + i]) : part.l[i] == g[at + i];
                if (!same) { return "shows \"" + join(g[at + i]) + "\" where \"" + join(part.l[i]) + "\" is expected"; }
            }
        }
        at += part.l.size();
    }
    if (at != g.size()) { return "shows \"" + join(g[at]) + "\" that is not there"; }
    return "";
}

// ---- the streams ----------------------------------------------------------------
struct Format                                 // notation the user chose for his stream
{
    unsigned notation = 0;
    int precision = 6;
    bool upper = false, point = false;
    void apply(std::ostream& o) const
    {
        o.unsetf(std::ios_base::floatfield);
        if (notation == 1) { o << std::scientific; }
        if (notation == 2) { o << std::fixed; }
        o.precision(precision);
        if (upper) { o << std::uppercase; } else { o << std::nouppercase; }
        if (point) { o << std::showpoint; } else { o << std::noshowpoint; }
    }
};
Format draw_format()
{
    Format f;
    f.notation = choose(3, "notation");
    f.precision = choose(3, "precision") ? (int)choose(18, "digits") : 6;
    f.upper = choose(4, "upper case") == 3;
    f.point = choose(6, "show point") == 5;
    return f;
}
template <typename T>
std::string shown(const T& x, const Format& f)
{
    std::ostringstream o;
    f.apply(o);
    o << x;
    return o.str();
}
std::string index(int i, int j) { return "(" + std::to_string(i) + ","; }
Line entry(int i, int j, const std::string& v) { return Line{"(" + std::to_string(i) + ",", std::to_string(j) + ")", v}; }

double draw_value()
{
    switch (choose(8, "kind of value"))
    {
        case 0: return 0.0;
        case 1: return -0.0;
        case 2: { static const double s[] = {1e300, -1e-300, 5e-324, 1e22, 123456789.0, -1e5, 999999.5, 0.1}; return s[choose(8, "special")]; }
        case 3: { static const double s[] = {INFINITY, -INFINITY, NAN}; return s[choose(3, "not finite")]; }
        case 4: return (sim::unit("value") - 0.5) * 20;
        case 5: return (sim::unit("value") - 0.5) * 2e6;
        default: return (double)((int)choose(33, "value") - 16) * 0.25;
    }
}
template <typename T> T draw_t() { return (T)((int)choose(2001, "integer") - 1000); }
template <> double draw_t<double>() { return draw_value(); }

const char* const LABEL[] = {"", "A", "the matrix :", "two\nlines", "   x", "(0, 0) 1"};

// ---- what can be printed -----------------------------------------------------------
struct Thing
{
    virtual ~Thing() {}
    virtual void print(std::ostream& o, const std::string& label) const = 0;
    virtual Text text(const std::string& label, const Format& f) const = 0;
    virtual void mutate() = 0;                 // one entry changes
    virtual std::string intact() const = 0;    // still holds what it should
    virtual const char* name() const = 0;
};

template <typename T>
struct Vec : Thing
{
    std::vector<T> m;
    Vector<T> v;
    unsigned form;
    Vec() : form(choose(4, "form"))
    {
        const unsigned n = choose(6, "long") == 5 ? (unsigned)sim::extent(0, 300, "size") : choose(6, "size");
        for (unsigned i = 0; i < n; ++i) { m.push_back(draw_t<T>()); }
        v = Vector<T>(m);
    }
    void print(std::ostream& o, const std::string& label) const override
    {
        if (form == 0) { v.Print(label, o); }
        else if (form == 1) { std::vector<T>& w = const_cast<std::vector<T>&>(m); const VectorView<T> view(w); view.Print(label, o); }
        else if (form == 2) { o << v; }
        else { using linalgcpp::operator<<; o << m; }
    }
    Text text(const std::string& label, const Format& f) const override
    {
        Text t;
        if (form < 2) { t.label(label); }
        for (auto& x : m) { t.row({shown(x, f)}); }
        return t;
    }
    void mutate() override { if (!m.empty()) { const size_t i = choose((unsigned)m.size(), "element"); m[i] = draw_t<T>(); v[(int)i] = m[i]; } }
    std::string intact() const override
    {
        if (v.size() != (int)m.size()) { return "has another size"; }
        return differ(v.begin(), m.data(), m.size() * sizeof(T)) ? "has changed" : "";
    }
    const char* name() const override { return "vector"; }
};

Text table(const std::vector<double>& a, int r, int c, int width, int precision)      // row by row
{
    Text t;
    for (int i = 0; i < r; ++i)
    {
        Line l;
        for (int j = 0; j < c; ++j)
        {
            char b[400];
            snprintf(b, sizeof b, "%.*f", precision, a[(size_t)i * c + j]);
            l.push_back(b);
        }
        bool wide = true;
        for (auto& x : l) { wide = wide && (int)x.size() < width; }
        t.p.push_back(Part{wide ? ROWS : TABLE, {}});
        if (!l.empty()) { t.p.back().l.push_back(l); }
    }
    return t;
}

struct Dense : Thing
{
    int r, c, width, precision;
    std::vector<double> m;
    DenseMatrix d;
    bool defaults;
    Dense()
    {
        r = (int)choose(7, "rows");
        c = choose(8, "wide") == 7 ? (int)choose(60, "cols") : (int)choose(7, "cols");
        m.resize((size_t)r * c);
        d = DenseMatrix(r, c);
        for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) { m[(size_t)i * c + j] = draw_value(); d(i, j) = m[(size_t)i * c + j]; } }
        defaults = choose(3, "default layout") == 0;
        width = defaults ? 8 : (int)choose(30, "width");
        precision = defaults ? 4 : (int)choose(18, "precision");
    }
    void print(std::ostream& o, const std::string& label) const override { if (defaults) { d.Print(label, o); } else { d.Print(label, o, width, precision); } }
    Text text(const std::string& label, const Format&) const override { Text t; t.label(label); t.append(table(m, r, c, width, precision)); return t; }
    void mutate() override { if (!m.empty()) { const int i = (int)choose((unsigned)r, "row"), j = (int)choose((unsigned)c, "col"); d(i, j) = m[(size_t)i * c + j] = draw_value(); } }
    std::string intact() const override
    {
        if (d.Rows() != r || d.Cols() != c) { return "has another size"; }
        for (int i = 0; i < r; ++i) { for (int j = 0; j < c; ++j) { const double x = d(i, j); if (std::memcmp(&x, &m[(size_t)i * c + j], sizeof x)) { return "has changed"; } } }
        return "";
    }
    const char* name() const override { return "dense matrix"; }
};

template <typename T>
struct Entries                                 // a pattern with values, column order within a row as stored
{
    int r, c;
    std::vector<int> p, j;
    std::vector<T> x;
    Entries(int r_, int c_) : r(r_), c(c_)
    {
        p.push_back(0);
        const unsigned dens = choose(4, "density");
        for (int i = 0; i < r; ++i)
        {
            std::vector<int> cols;
            for (int k = 0; k < c; ++k) { if (choose(4, "entry") < dens) { cols.push_back(k); } }
            if (cols.size() > 1 && choose(3, "unsorted") == 2) { std::reverse(cols.begin(), cols.end()); }
            for (int k : cols) { j.push_back(k); x.push_back(draw_t<T>()); }
            p.push_back((int)j.size());
        }
    }
    SparseMatrix<T> make() const { return SparseMatrix<T>(p, j, x, r, c); }
    Text list(const Format& f) const
    {
        Text t;
        for (int i = 0; i < r; ++i) { for (int k = p[(size_t)i]; k < p[(size_t)i + 1]; ++k) { t.row(entry(i, j[(size_t)k], shown(x[(size_t)k], f))); } }
        return t;
    }
    std::vector<double> full() const
    {
        std::vector<double> o((size_t)r * c, 0.0);
        for (int i = 0; i < r; ++i) { for (int k = p[(size_t)i]; k < p[(size_t)i + 1]; ++k) { o[(size_t)i * c + j[(size_t)k]] = (double)x[(size_t)k]; } }
        return o;
    }
    std::string intact(const SparseMatrix<T>& s) const
    {
        if (s.Rows() != r || s.Cols() != c || s.GetIndptr() != p || s.GetIndices() != j || s.GetData().size() != x.size()) { return "has changed its shape"; }
        return differ(s.GetData().data(), x.data(), x.size() * sizeof(T)) ? "has changed" : "";
    }
};

template <typename T>
struct Sparse : Thing
{
    Entries<T> e;
    SparseMatrix<T> s;
    bool as_table;
    Sparse() : e(dim(), dim()), s(e.make()), as_table(choose(2, "as a table")) {}
    static int dim() { return choose(10, "large") == 9 ? sim::extent(0, 70, "size") : (int)choose(6, "size"); }
    void print(std::ostream& o, const std::string& label) const override { if (as_table) { s.PrintDense(label, o); } else { s.Print(label, o); } }
    Text text(const std::string& label, const Format& f) const override
    {
        Text t;
        t.label(label);
        t.append(as_table ? table(e.full(), e.r, e.c, 8, 4) : e.list(f));
        return t;
    }
    void mutate() override { if (!e.x.empty()) { const size_t i = choose((unsigned)e.x.size(), "entry"); s.GetData()[i] = e.x[i] = draw_t<T>(); } }
    std::string intact() const override { return e.intact(s); }
    const char* name() const override { return "sparse matrix"; }
};

template <typename M, typename T>
struct Assembled : Thing                       // coordinate and list matrices; distinct positions, so the values are shown as given
{
    int r, c;
    std::vector<std::tuple<int, int, T>> m;
    M a;
    Assembled() : r(1 + (int)choose(6, "rows")), c(1 + (int)choose(6, "cols")), a(r, c)
    {
        for (unsigned k = 0, K = choose(10, "entries"); k < K; ++k) { mutate(); }
    }
    void print(std::ostream& o, const std::string& label) const override { a.Print(label, o); }
    Text text(const std::string& label, const Format& f) const override
    {
        Text t;
        t.label(label);
        t.p.push_back(Part{ANY, {}});
        for (auto& e : m) { t.p.back().l.push_back(entry(std::get<0>(e), std::get<1>(e), shown(std::get<2>(e), f))); }
        return t;
    }
    void mutate() override
    {
        const int i = (int)choose((unsigned)r, "row"), j = (int)choose((unsigned)c, "col");
        for (auto& e : m) { if (std::get<0>(e) == i && std::get<1>(e) == j) { return; } }
        T x = draw_t<T>();
        if (x != x) { x = T(1); }
        m.emplace_back(i, j, x);
        a.Add(i, j, x);
    }
    std::string intact() const override
    {
        if (a.Rows() != r || a.Cols() != c) { return "has another size"; }
        const SparseMatrix<T> s = a.template ToSparse<T>();
        std::vector<std::tuple<int, int, T>> x, y;
        for (auto& e : m) { if (std::get<2>(e) != T(0)) { x.push_back(e); } }
        for (int i = 0; i < s.Rows(); ++i)
        {
            for (int k = s.GetIndptr()[(size_t)i]; k < s.GetIndptr()[(size_t)i + 1]; ++k)
            {
                if (s.GetData()[(size_t)k] != T(0)) { y.emplace_back(i, s.GetIndices()[(size_t)k], s.GetData()[(size_t)k]); }
            }
        }
        std::sort(x.begin(), x.end());
        std::sort(y.begin(), y.end());
        return x == y ? "" : "has changed";
    }
    const char* name() const override { return "assembled matrix"; }
};

struct Blocks : Thing
{
    std::vector<int> ro, co;
    std::vector<Entries<double>> e;            // by rows of blocks
    std::vector<char> set;
    BlockMatrix<double> b;
    bool as_table;
    static std::vector<int> offsets(const char* what)
    {
        std::vector<int> o{0};
        for (unsigned k = 0, K = 1 + choose(3, what); k < K; ++k) { o.push_back(o.back() + 1 + (int)choose(3, "block size")); }
        return o;
    }
    Blocks() : ro(offsets("block rows")), co(offsets("block cols")), b(ro, co), as_table(choose(2, "as a table"))
    {
        for (size_t i = 0; i + 1 < ro.size(); ++i)
        {
            for (size_t j = 0; j + 1 < co.size(); ++j)
            {
                set.push_back((char)(choose(4, "unset") != 3));
                e.emplace_back(ro[i + 1] - ro[i], co[j + 1] - co[j]);
                if (set.back()) { b.SetBlock((int)i, (int)j, e.back().make()); }
            }
        }
    }
    void print(std::ostream& o, const std::string& label) const override { if (as_table) { b.PrintDense(label, o); } else { b.Print(label, o); } }
    Text text(const std::string& label, const Format& f) const override
    {
        Text t;
        t.label(label);
        std::vector<double> full((size_t)ro.back() * co.back(), 0.0);
        size_t k = 0;
        for (size_t i = 0; i + 1 < ro.size(); ++i)
        {
            for (size_t j = 0; j + 1 < co.size(); ++j, ++k)
            {
                if (!as_table) { t.label("block (" + std::to_string(i) + "," + std::to_string(j) + ")"); }
                if (!set[k]) { continue; }
                if (!as_table) { t.append(e[k].list(f)); continue; }
                const std::vector<double> x = e[k].full();
                for (int p = 0; p < e[k].r; ++p) { for (int q = 0; q < e[k].c; ++q) { full[(size_t)(ro[i] + p) * co.back() + co[j] + q] = x[(size_t)p * e[k].c + q]; } }
            }
        }
        if (as_table) { t.append(table(full, ro.back(), co.back(), 8, 4)); }
        return t;
    }
    void mutate() override
    {
        const size_t i = choose((unsigned)ro.size() - 1, "block row"), j = choose((unsigned)co.size() - 1, "block col"), k = i * (co.size() - 1) + j;
        e[k] = Entries<double>(ro[i + 1] - ro[i], co[j + 1] - co[j]);
        set[k] = 1;
        b.SetBlock((int)i, (int)j, e[k].make());
    }
    std::string intact() const override
    {
        if (b.GetRowOffsets() != ro || b.GetColOffsets() != co) { return "has other offsets"; }
        size_t k = 0;
        for (size_t i = 0; i + 1 < ro.size(); ++i)
        {
            for (size_t j = 0; j + 1 < co.size(); ++j, ++k)
            {
                if (!set[k]) { if (b.GetBlock((int)i, (int)j).nnz()) { return "has an entry in an unset block"; } continue; }
                const std::string d = e[k].intact(b.GetBlock((int)i, (int)j));
                if (!d.empty()) { return d; }
            }
        }
        return "";
    }
    const char* name() const override { return "block matrix"; }
};

struct BlockVec : Thing
{
    std::vector<int> off{0};
    std::vector<double> m;
    BlockVector<double> v;
    int block;                                 // -1: all of it
    BlockVec()
    {
        for (unsigned k = 0, K = 1 + choose(3, "blocks"); k < K; ++k) { off.push_back(off.back() + (int)choose(4, "block size")); }
        for (int i = 0; i < off.back(); ++i) { m.push_back(draw_value()); }
        v = BlockVector<double>(VectorView<double>(m), off);
        block = (int)choose((unsigned)off.size(), "which block") - 1;
    }
    void print(std::ostream& o, const std::string& label) const override { if (block < 0) { v.Print(label, o); } else { v.GetBlock(block).Print(label, o); } }
    Text text(const std::string& label, const Format& f) const override
    {
        Text t;
        t.label(label);
        for (int i = block < 0 ? 0 : off[(size_t)block]; i < (block < 0 ? off.back() : off[(size_t)block + 1]); ++i) { t.row({shown(m[(size_t)i], f)}); }
        return t;
    }
    void mutate() override { if (!m.empty()) { const size_t i = choose((unsigned)m.size(), "element"); v[(int)i] = m[i] = draw_value(); } }
    std::string intact() const override
    {
        if (v.size() != (int)m.size() || v.GetOffsets() != off) { return "has another shape"; }
        return differ(v.begin(), m.data(), m.size() * sizeof(double)) ? "has changed" : "";
    }
    const char* name() const override { return "block vector"; }
};

Thing* draw_thing()
{
    switch (choose(14, "kind of object"))
    {
        case 0: return new Vec<double>;
        case 1: return new Vec<int>;
        case 2: return new Vec<int>;
        case 3: case 4: return new Dense;
        case 5: case 6: return new Sparse<double>;
        case 7: return new Sparse<int>;
        case 8: return new Assembled<CooMatrix<double>, double>;
        case 9: return new Assembled<CooMatrix<int>, int>;
        case 10: return new Assembled<LilMatrix<double>, double>;
        case 11: return new Assembled<LilMatrix<int>, int>;
        case 12: return new Blocks;
        default: return new BlockVec;
    }
}

struct State                                   // formatting of a stream
{
    std::ios_base::fmtflags flags;
    std::streamsize precision, width;
    char fill;
    std::ios_base::iostate mask;
    std::ostream* tie;
    explicit State(const std::ostream& o) : flags(o.flags()), precision(o.precision()), width(o.width()), fill(o.fill()), mask(o.exceptions()), tie(o.tie()) {}
    bool operator==(const State& s) const { return flags == s.flags && precision == s.precision && width == s.width && fill == s.fill && mask == s.mask && tie == s.tie; }
};

// A print on a healthy stream shows the contents; `what` says when this was.
void healthy(const Thing& x, Sink& sink, std::ostream& out, const Format& f, const std::string& label, const char* what)
{
    sink.reset();
    sink.room = sizeof Sink::text;
    const State before(out);
    try { Track t; x.print(out, label); out.flush(); }
    catch (const std::exception& e) { violation("refused", "printing a %s %s threw: %s", x.name(), what, e.what()); }
    if (!out.good()) { violation("refused", "printing a %s %s left the stream failed", x.name(), what); }
    if (!(State(out) == before)) { violation("stream-changed", "printing a %s %s changed the format of the stream", x.name(), what); }
    const std::string d = compare(x.text(label, f), sink.got());
    if (!d.empty()) { violation("wrong-text", "a %s printed %s %s", x.name(), what, d.c_str()); }
}

void prints()
{
    Exempt exempt;
    const uint64_t live0 = sim::alloc::live();
    {
        std::vector<std::unique_ptr<Thing>> things;
        for (unsigned k = 0, K = 1 + choose(3, "objects"); k < K; ++k) { Track t; things.emplace_back(draw_thing()); }
        static Sink sink;
        sink.chunk = choose(3, "buffered") == 2 ? 1 + choose(64, "buffer") : 0;
        sink.reset();
        std::ostream out(&sink);
        Format f;
        f.apply(out);
        for (unsigned step = 0, steps = 1 + choose(8, "steps"); step < steps; ++step)
        {
            sim::steps(1);
            Thing& x = *things[choose((unsigned)things.size(), "object")];
            const std::string label = LABEL[choose(6, "label")];
            const unsigned what = sim::weighted({6, 3, 3, 3, 5}, "step");
            sim::state(((uint64_t)what << 32) ^ (uint64_t)f.notation << 8 ^ (uint64_t)x.name()[0] << 16 ^ x.name()[1]);
            sim::event("%s", what == 0 ? "print" : what == 1 ? "another notation" : what == 2 ? "an entry changes" : what == 3 ? "print, device failing" : "print, memory running out");
            if (what == 1) { f = draw_format(); f.apply(out); continue; }
            if (what == 2) { Track t; x.mutate(); continue; }
            sim::nontrivial();
            healthy(x, sink, out, f, label, step ? "in a history" : "at first");
            if (what == 3)
            {
                const std::string full = sink.got();
                sink.reset();
                sink.room = full.empty() ? 0 : choose((unsigned)full.size(), "device fails after");
                sink.throws = choose(2, "throwing");
                sink.once = choose(3, "once") == 2;
                const unsigned mask = choose(4, "exceptions");
                out.exceptions(mask == 0 ? std::ios_base::badbit : mask == 1 ? std::ios_base::badbit | std::ios_base::failbit : std::ios_base::goodbit);
                sim::count("fault.device");
                bool threw = false;
                const State before(out);
                try { Track t; x.print(out, label); out.flush(); }
                catch (const std::ios_base::failure&) { threw = true; }
                catch (const Broken&) { threw = true; if (!sink.throws) { sim::broken("a Broken from nowhere"); } }
                catch (const std::exception& e) { violation("foreign-exception", "printing a %s on a failing stream threw: %s", x.name(), e.what()); }
                out.width(before.width);                     // a pending width is left on a stream that failed: so does the standard library
                if (!(State(out) == before)) { violation("stream-changed", "printing a %s on a failing stream changed its format", x.name()); }
                if (sink.failed && out.good()) { violation("silent", "a %s was printed on a failing stream, which still says all is well", x.name()); }
                if (!sink.once && sink.got() != full.substr(0, sink.n)) { violation("wrong-text", "a %s printed on a failing stream left something else than the beginning of its text", x.name()); }
                if (!sink.failed && sink.got() != full) { violation("silent", "part of a %s is missing on a stream that did not fail", x.name()); }
                if (threw && mask >= 2) { violation("foreign-exception", "printing a %s threw though the stream does not", x.name()); }
                out.exceptions(std::ios_base::goodbit);
                sink.throws = sink.once = false;
                sink.reset();
                sink.room = sizeof Sink::text;
                out.clear();
            }
            else if (what == 4)
            {
                const std::string full = sink.got();
                sink.reset();
                sim::alloc::arm(choose(8, "fail at"), choose(2, "sticky"));
                bool threw = false;
                try { Track t; x.print(out, label); out.flush(); }
                catch (const std::exception&) { threw = true; }
                const bool fired = sim::alloc::fired();
                sim::alloc::disarm();
                if (threw && !fired) { violation("refused", "printing a %s threw for no reason", x.name()); }
                if (!threw && out.good() && sink.got() != full)
                {
                    violation("silent", "memory ran out while a %s was printed: %zu of %zu characters arrived, and neither the stream nor an exception tells", x.name(), sink.n, full.size());
                }
                if (sink.n > full.size() || (sink.got() != full.substr(0, sink.n) )) { violation("wrong-text", "memory ran out while a %s was printed, and what arrived is not the beginning of its text", x.name()); }
                if (fired) { sim::count("fault.allocation"); }
                sink.reset();
                out.clear();
                f.apply(out);
            }
            const std::string d = x.intact();
            if (!d.empty()) { violation("changed", "a printed %s %s", x.name(), d.c_str()); }
            if (what >= 3) { healthy(x, sink, out, f, label, "again after a failure"); }
        }
        Track t;
        things.clear();
    }
    if (sim::alloc::live() != live0) { violation("leak", "printing leaked"); }
}

void warm()
{
    Exempt exempt;
    try { throw std::bad_alloc(); } catch (const std::exception&) {}
    try { throw std::ios_base::failure("x"); } catch (const std::exception&) {}
    std::ostringstream o;
    o << 1.5 << 1 << "x";
}

sim::Scenario s1("P20", "prints", prints, warm);

} // namespace
