// World "args": command lines and histories of requests against them, checked
// request by request against a model, with allocations and output failing (P19).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <vector>

#include "argparser.hpp"

#include "../sim/alloc.hpp"
#include "../sim/core.hpp"

using namespace linalgcpp;
using sim::alloc::Exempt;
using sim::alloc::Track;
using sim::choose;
using sim::violation;

namespace
{

enum Type { BOOL, INT, LONG, UNSIGNED, SIZE, FLOAT, DOUBLE, STRING, TYPES };
const char* const TYPE[] = {"bool", "int", "long", "unsigned", "size_t", "float", "double", "string"};

struct Value                               // one variable of every type
{
    bool b = false;
    int i = 0;
    long l = 0;
    unsigned u = 0;
    size_t z = 0;
    float f = 0;
    double d = 0;
    std::string s;
};
bool same(Type t, const Value& a, const Value& b)
{
    switch (t)
    {
        case BOOL: return a.b == b.b;
        case INT: return a.i == b.i;
        case LONG: return a.l == b.l;
        case UNSIGNED: return a.u == b.u;
        case SIZE: return a.z == b.z;
        case FLOAT: return a.f == b.f;
        case DOUBLE: return a.d == b.d;
        default: return a.s == b.s;
    }
}
std::string shown(Type t, const Value& v)
{
    std::ostringstream o;
    switch (t)
    {
        case BOOL: return v.b ? "true" : "false";
        case INT: o << v.i; break;
        case LONG: o << v.l; break;
        case UNSIGNED: o << v.u; break;
        case SIZE: o << v.z; break;
        case FLOAT: o << v.f; break;
        case DOUBLE: o << v.d; break;
        default: return v.s;
    }
    return o.str();
}
void draw(Type t, Value& v, std::string& text)            // a value and a way to write it
{
    char b[64];
    const bool neg = choose(2, "negative");
    const unsigned long n = choose(3, "size") == 0 ? sim::bits("number") : choose(1000, "number");
    switch (t)
    {
        case BOOL: v.b = neg; break;
        case INT: v.i = neg ? -(int)n : (int)n; snprintf(b, sizeof b, choose(6, "plus") || neg ? "%d" : "+%d", v.i); text = b; break;
        case LONG: v.l = neg ? -(long)(n << 30) : (long)(n << 30); snprintf(b, sizeof b, choose(6, "zeros") || neg ? "%ld" : "00%ld", v.l); text = b; break;
        case UNSIGNED: v.u = (unsigned)n * 2 + neg; snprintf(b, sizeof b, "%u", v.u); text = b; break;
        case SIZE: v.z = (n << 30) + neg; snprintf(b, sizeof b, "%zu", v.z); text = b; break;
        case FLOAT: v.f = (float)((neg ? -1.0 : 1.0) * (double)n / (1u << choose(12, "scale"))); snprintf(b, sizeof b, choose(2, "exponent") ? "%.9g" : "%.9e", (double)v.f); text = b; break;
        case DOUBLE:
            v.d = (neg ? -1.0 : 1.0) * (double)n / (double)(1 + choose(999, "divisor"));
            switch (choose(4, "large or small")) { case 0: v.d *= 1e200; break; case 1: v.d *= 1e-200; break; default: break; }
            snprintf(b, sizeof b, choose(2, "exponent") ? "%.17g" : "%.17e", v.d);
            text = b;
            break;
        default:
        {
            static const char* const PIECE[] = {"a", "b1", " ", "-", "=", "/", ".txt", "\t", "\"", "\xc3\xa9", "0", "'", ",", "%s", "\n", "Value"};
            const unsigned k = choose(8, "pieces") == 0 ? 40 : choose(5, "pieces");
            text.clear();
            for (unsigned i = 0; i < k; ++i) { text += PIECE[choose(16, "piece")]; }
            if (text.compare(0, 2, "--") == 0) { text = "x" + text; }
            v.s = text;
        }
    }
}
std::string draw_bad(Type t)                               // text that is no value of the type
{
    static const char* const BAD[] = {"abc", "12x", "1 2", "", "-", "+", "999999999999999999999999", "5,3", "x5", "  ", "1e5000", ".", "5 --"};
    std::string s = BAD[choose(13, "bad value")];
    if (t != FLOAT && t != DOUBLE && choose(3, "fraction") == 0) { s = "2.5"; }
    if ((t == FLOAT || t == DOUBLE) && s == "999999999999999999999999") { s = "1.2.3"; }
    return s;
}

struct Option { std::string flag; Type type; bool given = false; bool good = true; std::string text; Value value; bool requested = false; std::string help; std::string shown; };

struct Broken : std::streambuf                             // a terminal that goes away after some bytes
{
    int left;
    explicit Broken(int n) : left(n) {}
    int overflow(int c) override { if (left <= 0) { return EOF; } --left; return c; }
};

template <typename F>
bool attempt(F f)                                          // false: out of memory
{
    try { Track t; f(); return true; }
    catch (const std::bad_alloc&) { return false; }
    catch (const std::exception& e) { violation("foreign-exception", "an exception: %s", e.what()); }
    catch (...) { violation("foreign-exception", "something other than a std::exception was thrown"); }
}

void request(const ArgParser& p, Type t, Value& v, const std::string& flag, const std::string& help)
{
    switch (t)
    {
        case BOOL: p.Parse(v.b, flag, help); break;
        case INT: p.Parse(v.i, flag, help); break;
        case LONG: p.Parse(v.l, flag, help); break;
        case UNSIGNED: p.Parse(v.u, flag, help); break;
        case SIZE: p.Parse(v.z, flag, help); break;
        case FLOAT: p.Parse(v.f, flag, help); break;
        case DOUBLE: p.Parse(v.d, flag, help); break;
        default: p.Parse(v.s, flag, help);
    }
}

struct Model { std::vector<Option> options; std::vector<std::string> errors; bool help = false; };

std::string show(const ArgParser& p, int what)
{
    std::ostringstream o;
    if (what == 0) { p.ShowErrors(o); } else if (what == 1) { p.ShowHelp(o); } else { p.ShowOptions(o); }
    return o.str();
}
bool has(const std::string& text, const std::string& part) { return text.find(part) != std::string::npos; }
std::string in_quotes(const std::string& s) { std::string o; for (char c : s) { if (c == '\n') { o += "\\n"; } else { o += c; } } return "'" + o.substr(0, 60) + "'"; }

void check(const ArgParser& p, const Model& m)
{
    if (p.IsGood() != (m.errors.empty() && !m.help))
    {
        violation("wrong-verdict", "IsGood() is %d with %zu errors%s%s", p.IsGood() ? 1 : 0, m.errors.size(), m.help ? " and --help" : "", m.errors.empty() ? "" : (", the first about " + in_quotes(m.errors[0])).c_str());
    }
    const std::string e = show(p, 0);
    if (m.errors.empty() != e.empty()) { violation("wrong-errors", "ShowErrors printed %s with %zu errors", in_quotes(e).c_str(), m.errors.size()); }
    for (auto& x : m.errors) { if (!has(e, x)) { violation("wrong-errors", "ShowErrors does not name %s", in_quotes(x).c_str()); } }
    const std::string h = show(p, 1), o = show(p, 2);
    for (auto& x : m.options)
    {
        if (x.requested != has(h, "  " + x.flag + " ")) { violation("wrong-help", "ShowHelp %s %s", x.requested ? "misses" : "lists", x.flag.c_str()); }
        if (!x.requested) { continue; }
        if (!has(h, x.flag + " " + x.help + "\n")) { violation("wrong-help", "ShowHelp has not the help of %s", x.flag.c_str()); }
        const size_t at = o.find("  " + x.flag + " ");
        if (at == std::string::npos) { violation("wrong-options", "ShowOptions misses %s", x.flag.c_str()); }
        const size_t v = o.find(x.shown, at + 3 + x.flag.size() - (x.shown.empty() ? 1 : 0));
        if (v == std::string::npos || o.find(x.help, v + x.shown.size()) == std::string::npos) { violation("wrong-options", "ShowOptions has not value %s and help of %s", in_quotes(x.shown).c_str(), x.flag.c_str()); }
    }
}

void command_line()
{
    Exempt exempt;
    Model m;
    // the options of the program
    const unsigned n = choose(16, "many options") == 15 ? 8 + choose(40, "options") : 1 + choose(7, "options");
    for (unsigned k = 0; k < n; ++k)
    {
        static const char* const NAME[] = {"alpha", "n", "in-file", "x", "tolerance", "verbose", "num_iter", "q", "num", "in", "nu", "X", "tolerance-2", "helper", "hel", "help"};
        const std::string name = k < 8 && choose(3, "usual name") ? NAME[k] : k < 8 ? NAME[8 + k] : "option" + std::to_string(k);
        Option o;
        o.type = (Type)choose(TYPES, "type");
        o.flag = std::string(choose(4, "dash") && name != "help" ? "--" : "-") + name;
        if (choose(6, "long") == 0) { o.flag += "-with-a-rather-long-name"; }
        if (!m.options.empty() && choose(12, "equals sign in the name") == 11)       // "--n=2" is a name of its own, not a value for "--n"
        {
            o.flag = m.options[choose((unsigned)m.options.size(), "which")].flag + "=2";
            for (auto& x : m.options) { if (x.flag == o.flag) { o.flag += std::to_string(k); } }
        }
        m.options.push_back(o);
    }
    // what the user typed: groups of arguments in any order
    struct Group { std::vector<std::string> words; int option; int kind; };      // kind 0: value, 1: open (no value follows), 2: stray
    std::vector<Group> groups;
    for (unsigned k = 0; k < n; ++k)
    {
        Option& o = m.options[k];
        const unsigned times = sim::weighted({3, 7, 1}, "given");
        for (unsigned q = 0; q < times; ++q)
        {
            if (o.type == BOOL)
            {
                // whatever follows it, a flag that was typed switches the option
                static const char* const AFTER[] = {"true", "false", "0", "1", ""};
                if (choose(10, "something after a switch") == 9) { groups.push_back({{o.flag, AFTER[choose(5, "after")]}, (int)k, 0}); } else { groups.push_back({{o.flag}, (int)k, 1}); }
                continue;
            }
            std::string text;
            Value v;
            draw(o.type, v, text);
            // a single dash does not make a flag of what follows a flag
            if (o.type == STRING && choose(10, "looks like another flag") == 9) { const std::string f = m.options[choose(n, "which")].flag; text = f.compare(0, 2, "--") == 0 ? f.substr(1) : f; }
            if (o.type != STRING && choose(8, "bad") == 0) { text = draw_bad(o.type); }
            if (o.type != STRING && choose(16, "without value") == 0) { groups.push_back({{o.flag}, (int)k, 1}); continue; }
            groups.push_back({{o.flag, text}, (int)k, 0});
        }
    }
    if (choose(6, "stray") == 0) { groups.push_back({{choose(2, "empty") ? "left over" : ""}, -1, 2}); }
    if (choose(6, "unknown") == 0) { groups.push_back({{"--unknown", "7"}, -1, 0}); }
    std::vector<std::string> words(1, choose(8, "program name") ? "program" : "");
    bool open = false;
    while (!groups.empty())
    {
        std::vector<size_t> fits;
        for (size_t k = 0; k < groups.size(); ++k)
        {
            if (open && (groups[k].kind == 2 || groups[k].words[0].compare(0, 2, "--") != 0)) { continue; }
            fits.push_back(k);
        }
        if (fits.empty()) { break; }
        const size_t k = fits[choose((unsigned)fits.size(), "next")];
        const Group g = groups[k];
        groups.erase(groups.begin() + (long)k);
        open = g.kind == 1;
        for (auto& w : g.words) { words.push_back(w); }
        if (g.kind == 2) { m.errors.push_back(g.words[0]); sim::count("fault.stray argument"); }
        if (g.option < 0) { continue; }
        Option& o = m.options[(size_t)g.option];
        if (o.given) { m.errors.push_back(o.flag); sim::count("fault.repeated flag"); continue; }
        o.given = true;
        if (o.type != BOOL) { o.text = g.words.size() > 1 ? g.words[1] : ""; }
    }
    const unsigned helps = choose(6, "help") == 0 ? 1 + choose(2, "helps") : 0;
    for (unsigned k = 0; k < helps; ++k) { words.insert(words.begin() + 1 + choose((unsigned)words.size(), "help at"), "--help"); m.help = true; }
    for (auto& w : words) { sim::event("argument %s", in_quotes(w).c_str()); sim::state(w.c_str()); }
    // each value by the standard library's own rules
    for (auto& o : m.options)
    {
        if (!o.given || o.type == BOOL) { continue; }
        if (o.type == STRING) { o.value.s = o.text; continue; }
        std::istringstream in(o.text);
        switch (o.type)
        {
            case INT: in >> o.value.i; break;
            case LONG: in >> o.value.l; break;
            case UNSIGNED: in >> o.value.u; break;
            case SIZE: in >> o.value.z; break;
            case FLOAT: in >> o.value.f; break;
            default: in >> o.value.d; break;
        }
        std::string rest;
        o.good = !in.fail() && !(in >> rest);
        if (!o.good) { sim::count("fault.unconvertible value"); }
    }

    const uint64_t live = sim::alloc::live();
    const bool faults = choose(3, "faults") == 0;
    const bool early = words.size() == 1 && choose(2, "no program name");
    std::unique_ptr<ArgParser> p;
    {
        // The arguments live only while the parser is constructed.
        std::vector<std::vector<char>> store;
        std::vector<const char*> argv;
        for (auto& w : words) { store.emplace_back(w.begin(), w.end()); store.back().push_back(0); }
        for (auto& s : store) { argv.push_back(s.data()); }
        argv.push_back(nullptr);
        const int argc = early ? 0 : (int)words.size();
        auto make = [&] { p.reset(new ArgParser(argc, argv.data())); };
        if (faults && choose(4, "construction fails") == 0)
        {
            sim::alloc::arm(choose(20, "fail at"), choose(2, "sticky"));
            const bool ok = attempt(make);
            const bool fired = sim::alloc::fired();
            sim::alloc::disarm();
            if (!ok && !fired) { violation("refused", "bad_alloc although memory was left"); }
            if (fired) { sim::count("fault.allocation failed"); sim::event("allocation failed: %s", ok ? "recovered" : "exception"); }
            if (!ok) { p.reset(); if (sim::alloc::live() != live) { violation("leak", "a failed construction leaked"); } attempt(make); }
        }
        else { attempt(make); }
        for (auto& s : store) { std::fill(s.begin(), s.end(), '#'); }
    }
    sim::nontrivial();
    check(*p, m);
    const unsigned steps = 1 + choose(12, "steps");
    for (unsigned k = 0; k < steps; ++k)
    {
        sim::steps(1);
        switch (sim::weighted({12, 1, 1, 1}, "step"))
        {
            case 0:
            {
                Option& o = m.options[choose((unsigned)m.options.size(), "option")];
                Value v, want;
                std::string text;
                draw(o.type, v, text);
                want = v;
                if (o.given && o.good) { if (o.type == BOOL) { want.b = !v.b; } else { want = o.value; } }
                const std::string help = choose(3, "help text") ? "The " + o.flag + " of it" + std::string(choose(3, "marks"), '!') : "";
                sim::event("request %s as %s", o.flag.c_str(), TYPE[o.type]);
                sim::state((uint64_t)(&o - m.options.data()));
                if (faults && choose(6, "request fails") == 0)
                {
                    sim::alloc::arm(choose(16, "fail at"), choose(2, "sticky"));
                    const Value was = v;
                    const bool ok = attempt([&] { request(*p, o.type, v, o.flag, help); });
                    const bool fired = sim::alloc::fired();
                    sim::alloc::disarm();
                    if (!ok && !fired) { violation("refused", "bad_alloc although memory was left"); }
                    if (fired) { sim::count("fault.allocation failed"); sim::event("allocation failed: %s", ok ? "recovered" : "exception"); }
                    if (!same(o.type, v, was) && !same(o.type, v, want)) { violation("wrong-value", "a failed request for %s left %s", o.flag.c_str(), in_quotes(shown(o.type, v)).c_str()); }
                    if (fired) { p.reset(); k = steps; break; }      // what an interrupted request recorded is unspecified
                }
                else { attempt([&] { request(*p, o.type, v, o.flag, help); }); }
                if (!same(o.type, v, want))
                {
                    violation("wrong-value", "%s (%s, %s%s) is %s, expected %s", o.flag.c_str(), TYPE[o.type], o.given ? "given as " : "not given", o.given && o.type != BOOL ? in_quotes(o.text).c_str() : "",
                              in_quotes(shown(o.type, v)).c_str(), in_quotes(shown(o.type, want)).c_str());
                }
                if (o.given && !o.good) { m.errors.push_back(o.flag); }
                if (o.requested) { m.errors.push_back(o.flag); } else { o.shown = shown(o.type, want); }
                o.requested = true;
                o.help = help;
                break;
            }
            case 1:
            {
                sim::event("copy");
                std::unique_ptr<ArgParser> q;
                attempt([&] { q.reset(new ArgParser(*p)); });
                check(*p, m);
                p = std::move(q);
                break;
            }
            case 2:
            {
                sim::event("output fails");
                Broken b((int)choose(60, "bytes"));
                std::ostream out(&b);
                const unsigned what = choose(3, "show");
                if (what == 0) { p->ShowErrors(out); } else if (what == 1) { p->ShowHelp(out); } else { p->ShowOptions(out); }
                if (!out) { sim::count("fault.output failed"); }
                break;
            }
            default:
                sim::event("request of an option nobody typed");
                Value v;
                v.d = 2.5;
                attempt([&] { p->Parse(v.d, "--nobody", ""); });
                if (v.d != 2.5) { violation("wrong-value", "an option that was not given changed its default"); }
                if (m.options.back().flag == "--nobody") { m.errors.push_back("--nobody"); m.options.back().help = ""; }
                else { Option o; o.flag = "--nobody"; o.type = DOUBLE; o.requested = true; o.shown = "2.5"; m.options.push_back(o); }
                break;
        }
        if (p) { check(*p, m); }
    }
    p.reset();
    if (sim::alloc::live() != live) { violation("leak", "memory was not given back"); }
}

void warm()
{
    Exempt exempt;
    std::istringstream in("1 2.5 x");
    int i = 0; double d = 0; std::string x;
    in >> i >> d >> x;
    std::ostringstream o;
    o << i << d << x;
    try { throw std::runtime_error("x"); } catch (const std::exception&) {}
}

sim::Scenario s1("P19", "command_line", command_line, warm);

} // namespace
