#include "core.hpp"

#include <algorithm>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace sim
{

namespace
{

// Raw calls: the C library's versions may be interposed by a simulator seam.
double real_now()
{
    timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

void raw_write(int fd, const void* p, size_t n)
{
    const char* c = static_cast<const char*>(p);
    while (n > 0)
    {
        long r = syscall(SYS_write, fd, c, n);
        if (r <= 0) { return; }
        c += r;
        n -= r;
    }
}

struct Choice
{
    uint32_t n;
    uint32_t v;
    const char* label;
};

const unsigned MAX_TRACE = 1u << 16;
const unsigned MAX_LOG = 1u << 16;
const unsigned MAX_CNT = 192;

struct Counter
{
    char name[56];
    uint64_t n;
};

struct Shm
{
    volatile int done;
    volatile int violated;
    volatile int broken;
    volatile int nontrivial;
    uint64_t hash;
    uint64_t sig;
    uint64_t simtime;
    uint64_t steps;
    unsigned ntrace;
    unsigned overflow;
    unsigned nlog;
    unsigned ncnt;
    char klass[160];
    char msg[2048];
    Counter cnt[MAX_CNT];
    Choice trace[MAX_TRACE];
    char log[MAX_LOG];
};

Shm* g = nullptr;
bool g_in_run = false;
bool g_verbose = false;
Rng g_rng(0);
const std::vector<uint32_t>* g_replay = nullptr;
int g_errfd = -1;           // memfd capturing the child's stdout/stderr

Scenario* g_scen = nullptr;
AtRunStart* g_start = nullptr;

uint32_t take(uint32_t n, uint32_t v, const char* label)
{
    if (g->ntrace >= MAX_TRACE)
    {
        g->overflow++;
        return 0;
    }
    if (g_replay)
    {
        v = g->ntrace < g_replay->size() ? (*g_replay)[g->ntrace] : 0;
        if (n) { v %= n; }
    }
    Choice& c = g->trace[g->ntrace++];
    c.n = n;
    c.v = v;
    c.label = label;
    return v;
}

void fold(uint64_t v)
{
    g->hash = mix(g->hash, v);
}

} // namespace

uint64_t mix(uint64_t a, uint64_t b)
{
    a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2);
    a ^= a >> 29;
    a *= 0xBF58476D1CE4E5B9ull;
    a ^= a >> 32;
    return a;
}

bool in_run() { return g_in_run; }
bool verbose() { return g_verbose; }

unsigned choose(unsigned n, const char* label)
{
    if (n <= 1) { return 0; }
    return take(n, g_replay ? 0 : static_cast<uint32_t>(g_rng.next() % n), label);
}

bool chance(unsigned num, unsigned den, const char* label)
{
    if (num == 0) { return false; }
    return take(2, g_replay ? 0 : (g_rng.next() % den < num), label) != 0;
}

unsigned weighted(std::initializer_list<unsigned> w, const char* label)
{
    unsigned total = 0;
    for (unsigned x : w) { total += x; }
    unsigned v = 0;
    if (!g_replay)
    {
        uint64_t r = g_rng.next() % total;
        for (unsigned x : w)
        {
            if (r < x) { break; }
            r -= x;
            v++;
        }
    }
    return take(w.size(), v, label);
}

int range(int lo, int hi, const char* label)
{
    return lo + static_cast<int>(choose(hi - lo + 1, label));
}

int extent(int lo, int hi, const char* label)
{
    const int v = range(lo, hi, label);
    if (choose(3, "round") != 2) { return v; }
    int p = 4;
    while (p <= hi / 2) { p *= 2; }
    p = std::max(2, p >> choose(4, "power"));
    const unsigned beside = choose(4, "beside");
    const int m = v / p * p + (beside == 2 ? 1 : beside == 3 ? -1 : 0);
    return m < lo || m > hi ? v : m;
}

unsigned geometric(unsigned cap, const char* label)
{
    unsigned v = 0;
    if (!g_replay)
    {
        while (v < cap && (g_rng.next() & 1)) { v++; }
    }
    return take(cap + 1, v, label);
}

uint64_t bits(const char* label)
{
    return take(0x80000000u, g_replay ? 0 : static_cast<uint32_t>(g_rng.next() >> 33), label);
}

double unit(const char* label)
{
    return choose(1u << 20, label) / static_cast<double>(1u << 20);
}

double real(const char* label)
{
    // 0..: small integers, simple fractions, and full-mantissa values.
    uint32_t r = static_cast<uint32_t>(bits(label));
    switch (r & 3)
    {
        case 0: return static_cast<double>(static_cast<int>((r >> 2) % 21)) - (r >> 2 ? 10.0 : 0.0);
        case 1: return (static_cast<int>((r >> 2) % 2001) - 1000) / 64.0;
        default:
        {
            Rng t(r);
            double m = (t.next() >> 11) * (1.0 / 9007199254740992.0);
            double e = static_cast<int>(t.next() % 13) - 6;
            return (r & 4 ? -1.0 : 1.0) * (0.5 + m) * std::pow(10.0, e);
        }
    }
}

void event(const char* fmt, ...)
{
    if (!g) { return; }
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (n < 0) { n = 0; }
    if (n >= static_cast<int>(sizeof(buf))) { n = sizeof(buf) - 1; }
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < n; ++i) { h = (h ^ static_cast<unsigned char>(buf[i])) * 1099511628211ull; }
    fold(h);
    if (g->nlog + n + 1 < MAX_LOG)
    {
        memcpy(g->log + g->nlog, buf, n);
        g->nlog += n;
        g->log[g->nlog++] = '\n';
    }
}

void hash_u64(uint64_t v) { if (g) { fold(v); } }

void hash_f64(double v)
{
    uint64_t u;
    memcpy(&u, &v, 8);
    hash_u64(u);
}

void count(const char* name, uint64_t n)
{
    if (!g) { return; }
    for (unsigned i = 0; i < g->ncnt; ++i)
    {
        if (strcmp(g->cnt[i].name, name) == 0)
        {
            g->cnt[i].n += n;
            return;
        }
    }
    if (g->ncnt < MAX_CNT)
    {
        Counter& c = g->cnt[g->ncnt++];
        strncpy(c.name, name, sizeof(c.name) - 1);
        c.name[sizeof(c.name) - 1] = 0;
        c.n = n;
    }
}

void state(uint64_t v) { if (g) { g->sig = mix(g->sig, v); } }

void state(const char* s)
{
    uint64_t h = 1469598103934665603ull;
    for (; *s; ++s) { h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull; }
    state(h);
}

void nontrivial() { if (g) { g->nontrivial = 1; } }
void advance_time(uint64_t ns) { if (g) { g->simtime += ns; } }
void steps(uint64_t n) { if (g) { g->steps += n; } }

void violation(const char* klass, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g->msg, sizeof(g->msg), fmt, ap);
    va_end(ap);
    strncpy(g->klass, klass, sizeof(g->klass) - 1);
    event("VIOLATED %s: %s", klass, g->msg);
    g->violated = 1;
    g->done = 1;
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

void broken(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(g->msg, sizeof(g->msg), fmt, ap);
    va_end(ap);
    g->broken = 1;
    g->done = 1;
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

Scenario::Scenario(const char* prop_in, const char* name_in, void (*fn_in)(), void (*warm_in)(),
                   unsigned weight_in, unsigned cpu)
    : prop(prop_in), name(name_in), fn(fn_in), warm(warm_in), weight(weight_in), cpu_limit_s(cpu), next(nullptr)
{
    Scenario** p = &g_scen;
    while (*p) { p = &(*p)->next; }
    *p = this;
}

AtRunStart::AtRunStart(void (*fn_in)()) : fn(fn_in), next(g_start) { g_start = this; }

namespace
{

struct Result
{
    bool violated = false;
    bool broken = false;
    std::string klass;
    std::string msg;
    uint64_t hash = 0;
    std::vector<uint32_t> values;
    std::vector<uint32_t> ns;
    std::vector<const char*> labels;
    std::string log;
    std::string err;
};

std::string read_err()
{
    std::string out;
    char buf[4096];
    off_t off = 0;
    for (;;)
    {
        long r = syscall(SYS_pread64, g_errfd, buf, sizeof(buf), off);
        if (r <= 0) { break; }
        out.append(buf, r);
        off += r;
        if (out.size() > 200000) { break; }
    }
    return out;
}

std::string between(const std::string& s, const std::string& a, const std::string& stop)
{
    size_t p = s.find(a);
    if (p == std::string::npos) { return ""; }
    p += a.size();
    size_t e = s.find_first_of(stop, p);
    return s.substr(p, e == std::string::npos ? std::string::npos : e - p);
}

std::string crash_class(int status, const std::string& err)
{
    std::string a = between(err, "ERROR: AddressSanitizer: ", " \n(:");
    if (!a.empty()) { return "crash:asan:" + a; }
    a = between(err, "Assertion `", "'");
    if (!a.empty()) { return "crash:assert:" + a; }
    a = between(err, "Assertion '", "'");
    if (!a.empty()) { return "crash:stl-assert:" + a; }
    a = between(err, "runtime error: ", "\n");
    if (!a.empty())
    {
        // strip concrete values
        std::string r;
        for (char c : a) { r += (c >= '0' && c <= '9') ? '#' : c; }
        return "crash:ubsan:" + r.substr(0, 100);
    }
    a = between(err, "terminate called after throwing an instance of '", "'");
    if (!a.empty()) { return "crash:terminate:" + a; }
    if (err.find("terminate called") != std::string::npos) { return "crash:terminate"; }
    if (WIFSIGNALED(status))
    {
        int sg = WTERMSIG(status);
        if (sg == SIGPROF || sg == SIGVTALRM || sg == SIGALRM || sg == SIGXCPU) { return "hang"; }
        return std::string("crash:signal:") + strsignal(sg);
    }
    if (WIFEXITED(status)) { return "crash:exit:" + std::to_string(WEXITSTATUS(status)); }
    return "crash:unknown";
}

void child_main(const Scenario& s)
{
    if (g_errfd >= 0)
    {
        syscall(SYS_dup2, g_errfd, 1);
        syscall(SYS_dup2, g_errfd, 2);
    }
    itimerval tv;
    memset(&tv, 0, sizeof(tv));
    tv.it_value.tv_sec = s.cpu_limit_s;
    setitimer(ITIMER_PROF, &tv, nullptr);
    signal(SIGPROF, SIG_DFL);
    g_in_run = true;
    for (AtRunStart* a = g_start; a; a = a->next) { a->fn(); }
    s.fn();
    g->done = 1;
    if (g_verbose) { fflush(nullptr); }
    syscall(SYS_exit_group, 0);
}

Result run_once(const Scenario& s, uint64_t seed, const std::vector<uint32_t>* replay)
{
    g->done = g->violated = g->broken = g->nontrivial = 0;
    g->hash = 0x1234;
    g->sig = 0x5678;
    g->simtime = g->steps = 0;
    g->ntrace = g->overflow = g->nlog = g->ncnt = 0;
    g->klass[0] = g->msg[0] = 0;
    if (ftruncate(g_errfd, 0) != 0) {}
    lseek(g_errfd, 0, SEEK_SET);
    g_rng = Rng(seed);
    g_replay = replay;
    pid_t pid = fork();
    if (pid < 0)
    {
        Result r;
        r.broken = true;
        r.msg = "fork failed";
        return r;
    }
    if (pid == 0)
    {
        child_main(s);
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    Result r;
    r.broken = g->broken;
    if (!g->done)
    {
        r.violated = true;
        r.err = read_err();
        r.klass = crash_class(status, r.err);
        r.msg = "the process died: " + r.klass;
        // killed by the out-of-memory guard or from outside: not the code's doing
        if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL)
        {
            r.violated = false;
            r.broken = true;
            r.msg = "run killed by SIGKILL";
        }
    }
    else if (g->violated)
    {
        r.violated = true;
        r.klass = g->klass;
        r.msg = g->msg;
        r.err = read_err();
    }
    else if (g->broken)
    {
        r.msg = g->msg;
    }
    r.hash = g->hash;
    if (r.violated || replay)
    {
        for (unsigned i = 0; i < g->ntrace; ++i)
        {
            r.values.push_back(g->trace[i].v);
            r.ns.push_back(g->trace[i].n);
            r.labels.push_back(g->trace[i].label);
        }
        r.log.assign(g->log, g->nlog);
    }
    return r;
}

std::string esc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') { o += "\\n"; }
        else if (c < 32 || c >= 127)
        {
            char b[8];
            snprintf(b, sizeof(b), "\\u%04x", c);
            o += b;
        }
        else { o += c; }
    }
    return o;
}

Shm* new_shm()
{
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(4); }
    return static_cast<Shm*>(p);
}

const Scenario* find_scenario(const std::string& prop, const std::string& name)
{
    for (Scenario* s = g_scen; s; s = s->next)
    {
        if (prop == s->prop && name == s->name) { return s; }
    }
    return nullptr;
}

struct Known
{
    std::string prop;
    std::string scen;
    std::string klass;
};

bool is_known(const std::vector<Known>& known, const Scenario& s, const std::string& klass)
{
    for (const auto& k : known)
    {
        if (k.prop == s.prop && (k.scen == "*" || k.scen == s.name) && k.klass == klass) { return true; }
    }
    return false;
}

std::vector<uint32_t> minimise(const Scenario& s, std::vector<uint32_t> v, const std::string& klass,
                               double budget_s, unsigned& evals)
{
    const double end = real_now() + budget_s;
    evals = 0;
    auto trim = [](std::vector<uint32_t>& x) { while (!x.empty() && x.back() == 0) { x.pop_back(); } };
    trim(v);
    auto test = [&](std::vector<uint32_t>& cand) -> bool
    {
        if (real_now() > end) { return false; }
        evals++;
        Result r = run_once(s, 0, &cand);
        if (r.violated && r.klass == klass)
        {
            std::vector<uint32_t> got = r.values;
            trim(got);
            if (got.size() <= cand.size()) { cand = got; }
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && real_now() < end)
    {
        progress = false;
        // delete spans
        for (size_t span = std::max<size_t>(1, v.size() / 2); span >= 1 && real_now() < end; span /= 2)
        {
            for (size_t i = 0; i + span <= v.size() && real_now() < end;)
            {
                std::vector<uint32_t> c(v.begin(), v.begin() + i);
                c.insert(c.end(), v.begin() + i + span, v.end());
                if (test(c)) { v = c; progress = true; }
                else { i += span; }
            }
            if (span == 1) { break; }
        }
        // zero spans
        for (size_t span = std::max<size_t>(1, v.size() / 2); span >= 1 && real_now() < end; span /= 2)
        {
            for (size_t i = 0; i + span <= v.size() && real_now() < end; i += span)
            {
                bool all0 = true;
                for (size_t k = i; k < i + span; ++k) { all0 &= v[k] == 0; }
                if (all0) { continue; }
                std::vector<uint32_t> c = v;
                for (size_t k = i; k < i + span; ++k) { c[k] = 0; }
                if (test(c)) { v = c; progress = true; if (i >= v.size()) { break; } }
            }
            if (span == 1) { break; }
        }
        // lower single values
        for (size_t i = 0; i < v.size() && real_now() < end; ++i)
        {
            uint32_t lo = 0;
            while (i < v.size() && v[i] > lo && real_now() < end)
            {
                uint32_t mid = lo + (v[i] - lo) / 2;
                std::vector<uint32_t> c = v;
                c[i] = mid;
                if (test(c)) { v = c; progress = true; }
                else if (mid + 1 >= v[i]) { break; }
                else { lo = mid + 1; }
            }
        }
    }
    return v;
}

bool load_replay(const std::string& path, std::string& prop, std::string& scen, std::string& klass,
                 uint64_t& hash, std::vector<uint32_t>& v)
{
    std::ifstream f(path.c_str());
    if (!f) { return false; }
    std::string line;
    while (std::getline(f, line))
    {
        if (line.empty() || line[0] == '#') { continue; }
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "property") { is >> prop; }
        else if (k == "scenario") { is >> scen; }
        else if (k == "class") { std::getline(is, klass); if (!klass.empty()) { klass.erase(0, 1); } }
        else if (k == "hash") { is >> std::hex >> hash >> std::dec; }
        else if (k == "c") { uint32_t x; is >> x; v.push_back(x); }
    }
    return true;
}

void write_replay(const std::string& path, const Scenario& s, uint64_t seed, uint64_t index, const Result& r,
                  size_t keep)
{
    std::ofstream f(path.c_str());
    f << "# replay file: sim run as a choice sequence; run  <binary> replay <this file>\n";
    f << "property " << s.prop << "\nscenario " << s.name << "\nseed " << seed << " index " << index << "\n";
    f << "class " << r.klass << "\nhash " << std::hex << r.hash << std::dec << "\n";
    std::istringstream m(r.msg);
    for (std::string l; std::getline(m, l);) { f << "# message: " << l << "\n"; }
    for (size_t i = 0; i < keep && i < r.values.size(); ++i)
    {
        f << "c " << r.values[i] << " of " << r.ns[i] << " " << (r.labels[i] ? r.labels[i] : "?") << "\n";
    }
    f << "# ---- event log of this run ----\n";
    std::istringstream lg(r.log);
    for (std::string l; std::getline(lg, l);) { f << "# " << l << "\n"; }
    if (!r.err.empty())
    {
        f << "# ---- output of the process ----\n";
        std::istringstream er(r.err);
        int n = 0;
        for (std::string l; std::getline(er, l) && n < 60; ++n) { f << "# " << l << "\n"; }
    }
}

struct WorkerOut
{
    volatile uint64_t runs;
    volatile uint64_t nontrivial;
    volatile uint64_t simtime;
    volatile uint64_t steps;
    volatile uint64_t overflow;
    volatile uint64_t det_checks;
    volatile int error;
    char errmsg[512];
    volatile uint64_t best;          // lowest violating index
    char klass[160];
    uint64_t known_hits;
    char known_klass[16][160];
    unsigned nknown;
    char known_msg[16][256];
    Counter cnt[MAX_CNT];
    unsigned ncnt;
    char sample[4][3000];
    unsigned nsample;
};

void merge_counts(WorkerOut* w)
{
    for (unsigned i = 0; i < g->ncnt; ++i)
    {
        unsigned k = 0;
        for (; k < w->ncnt; ++k)
        {
            if (strcmp(w->cnt[k].name, g->cnt[i].name) == 0) { break; }
        }
        if (k == w->ncnt)
        {
            if (k >= MAX_CNT) { continue; }
            w->cnt[w->ncnt++] = g->cnt[i];
        }
        else { w->cnt[k].n += g->cnt[i].n; }
    }
}

std::string g_self;

int replay_cmd(const std::string& path, bool quiet)
{
    std::string prop, scen, klass;
    uint64_t hash = 0;
    std::vector<uint32_t> v;
    if (!load_replay(path, prop, scen, klass, hash, v))
    {
        fprintf(stderr, "cannot read %s\n", path.c_str());
        return 4;
    }
    const Scenario* s = find_scenario(prop, scen);
    if (!s) { fprintf(stderr, "no scenario %s/%s here\n", prop.c_str(), scen.c_str()); return 4; }
    g = new_shm();
    g_errfd = memfd_create("simerr", 0);
    for (Scenario* p = g_scen; p; p = p->next) { if (p->warm && prop == p->prop) { p->warm(); } }
    Result r = run_once(*s, 0, &v);
    if (!quiet)
    {
        printf("%s", r.log.c_str());
        if (!r.err.empty()) { printf("---- process output ----\n%s\n", r.err.c_str()); }
    }
    printf("replay: violated=%d class=%s hash=%llx expected class=%s hash=%llx\n", r.violated ? 1 : 0,
           r.klass.c_str(), (unsigned long long)r.hash, klass.c_str(), (unsigned long long)hash);
    if (r.violated) { printf("message: %s\n", r.msg.c_str()); }
    if (r.violated && r.klass == klass && r.hash == hash)
    {
        printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
        return 1;
    }
    if (r.violated || r.broken) { return 3; }
    return 0;
}

} // namespace

int driver_main(int argc, char** argv)
{
    g_self = "/proc/self/exe";
    char self[4096];
    ssize_t sl = readlink("/proc/self/exe", self, sizeof(self) - 1);
    if (sl > 0) { self[sl] = 0; g_self = self; }

    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "replay" && argc > 2)
    {
        return replay_cmd(argv[2], argc > 3 && std::string(argv[3]) == "-q");
    }
    if (mode == "list")
    {
        for (Scenario* s = g_scen; s; s = s->next) { printf("%s %s\n", s->prop, s->name); }
        return 0;
    }
    std::string prop, out = "result.json", repdir = ".", knownfile, only;
    uint64_t seed = 1, maxruns = ~0ull, minruns = 0, one = ~0ull;
    double secs = 10;
    unsigned workers = 8;
    for (int i = 2; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], val = argv[i + 1];
        if (k == "--prop") { prop = val; }
        else if (k == "--out") { out = val; }
        else if (k == "--replays") { repdir = val; }
        else if (k == "--seed") { seed = strtoull(val.c_str(), nullptr, 10); }
        else if (k == "--seconds") { secs = atof(val.c_str()); }
        else if (k == "--runs") { maxruns = strtoull(val.c_str(), nullptr, 10); }
        else if (k == "--minruns") { minruns = strtoull(val.c_str(), nullptr, 10); }
        else if (k == "--workers") { workers = atoi(val.c_str()); }
        else if (k == "--known") { knownfile = val; }
        else if (k == "--scenario") { only = val; }
        else if (k == "--index") { one = strtoull(val.c_str(), nullptr, 10); }
        else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 4; }
    }
    if (mode != "explore" && mode != "one" && mode != "hashes") { fprintf(stderr, "usage: explore|one|hashes|replay|list\n"); return 4; }

    std::vector<Scenario*> scens;
    std::vector<Scenario*> wheel;
    for (Scenario* s = g_scen; s; s = s->next)
    {
        if (prop == s->prop && (only.empty() || only == s->name))
        {
            scens.push_back(s);
            for (unsigned k = 0; k < s->weight; ++k) { wheel.push_back(s); }
        }
    }
    if (scens.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 4; }

    std::vector<Known> known;
    if (!knownfile.empty())
    {
        std::ifstream f(knownfile.c_str());
        for (std::string l; std::getline(f, l);)
        {
            // finding <prop> <scenario> <class...>
            std::istringstream is(l);
            std::string k;
            Known x;
            is >> k;
            if (k != "finding") { continue; }
            is >> x.prop >> x.scen;
            std::getline(is, x.klass);
            if (!x.klass.empty()) { x.klass.erase(0, 1); }
            known.push_back(x);
        }
    }

    g = new_shm();
    g_errfd = memfd_create("simerr", 0);
    for (auto s : scens) { if (s->warm) { s->warm(); } }

    auto seed_of = [&](uint64_t i) { return mix(mix(seed, 0xABCDEF), i * 2654435761ull + 17); };
    auto scen_of = [&](uint64_t i) -> const Scenario& { return *wheel[i % wheel.size()]; };

    if (mode == "one")
    {
        Result r = run_once(scen_of(one), seed_of(one), nullptr);
        printf("%.*s", (int)g->nlog, g->log);
        printf("scenario=%s violated=%d class=%s msg=%s hash=%llx choices=%u\n", scen_of(one).name, r.violated, r.klass.c_str(),
               r.msg.c_str(), (unsigned long long)r.hash, g->ntrace);
        printf("%s\n", read_err().c_str());
        return r.violated ? 1 : r.broken ? 3 : 0;
    }
    if (mode == "hashes")
    {
        for (uint64_t i = 0; i < maxruns; ++i)
        {
            Result r = run_once(scen_of(i), seed_of(i), nullptr);
            printf("%llu %s %llx %u %d %s\n", (unsigned long long)i, scen_of(i).name, (unsigned long long)r.hash, g->ntrace,
                   r.violated, r.klass.c_str());
        }
        return 0;
    }

    const double t0 = real_now();
    std::vector<WorkerOut*> wo;
    std::vector<pid_t> pids;
    std::vector<std::string> sigfiles;
    volatile uint64_t* stop_at = static_cast<volatile uint64_t*>(
        mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    *stop_at = ~0ull;
    if (workers < 1) { workers = 1; }
    for (unsigned w = 0; w < workers; ++w)
    {
        WorkerOut* o = static_cast<WorkerOut*>(
            mmap(nullptr, sizeof(WorkerOut), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        memset(o, 0, sizeof(*o));
        o->best = ~0ull;
        wo.push_back(o);
        sigfiles.push_back(out + ".sig" + std::to_string(w));
    }
    fflush(nullptr);
    for (unsigned w = 0; w < workers; ++w)
    {
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 4; }
        if (p == 0)
        {
            g = new_shm();
            g_errfd = memfd_create("simerr", 0);
            WorkerOut* o = wo[w];
            std::unordered_set<uint64_t> sigs;
            for (uint64_t i = w; i < maxruns; i += workers)
            {
                if (i > *stop_at) { break; }
                if (real_now() - t0 > secs && i >= minruns) { break; }
                const Scenario& s = scen_of(i);
                Result r = run_once(s, seed_of(i), nullptr);
                o->runs++;
                if (r.broken)
                {
                    o->error = 1;
                    snprintf(o->errmsg, sizeof(o->errmsg), "run %llu (%s): harness broken: %s",
                             (unsigned long long)i, s.name, r.msg.c_str());
                    *stop_at = 0;
                    break;
                }
                o->simtime += g->simtime;
                o->steps += g->steps;
                o->overflow += g->overflow ? 1 : 0;
                if (g->nontrivial) { o->nontrivial++; sigs.insert(g->sig); }
                merge_counts(o);
                if (o->nsample < 4 && g->nontrivial && (i / workers) % 7 == 0)
                {
                    snprintf(o->sample[o->nsample++], sizeof(o->sample[0]), "run %llu scenario %s:\n%.*s",
                             (unsigned long long)i, s.name, (int)std::min(g->nlog, 2800u), g->log);
                }
                if (r.violated)
                {
                    if (is_known(known, s, r.klass))
                    {
                        o->known_hits++;
                        unsigned k = 0;
                        for (; k < o->nknown; ++k) { if (r.klass == o->known_klass[k]) { break; } }
                        if (k == o->nknown && k < 16)
                        {
                            strncpy(o->known_klass[k], r.klass.c_str(), 159);
                            strncpy(o->known_msg[k], r.msg.c_str(), 255);
                            o->nknown++;
                        }
                        continue;
                    }
                    if (i < o->best)
                    {
                        o->best = i;
                        strncpy(o->klass, r.klass.c_str(), 159);
                    }
                    if (i < *stop_at) { *stop_at = i; }
                    break;
                }
                else if ((i / workers) % 64 == 3)
                {
                    // determinism self-check: the same seed twice
                    uint64_t h = r.hash;
                    unsigned nt = g->ntrace;
                    Result r2 = run_once(s, seed_of(i), nullptr);
                    o->det_checks++;
                    if (r2.hash != h || g->ntrace != nt)
                    {
                        o->error = 1;
                        snprintf(o->errmsg, sizeof(o->errmsg), "run %llu (%s) is not deterministic",
                                 (unsigned long long)i, s.name);
                        *stop_at = 0;
                        break;
                    }
                }
            }
            std::ofstream f(sigfiles[w].c_str(), std::ios::binary);
            for (uint64_t x : sigs) { f.write(reinterpret_cast<const char*>(&x), 8); }
            f.close();
            fflush(nullptr);
            _exit(0);
        }
        pids.push_back(p);
    }
    bool worker_died = false;
    for (pid_t p : pids)
    {
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { worker_died = true; }
    }
    const double explore_s = real_now() - t0;

    uint64_t runs = 0, nontriv = 0, simtime = 0, steps_n = 0, det = 0, overflow = 0, known_hits = 0;
    std::string error;
    uint64_t best = ~0ull;
    std::map<std::string, uint64_t> counts;
    std::set<std::string> samples;
    std::map<std::string, std::string> knownk;
    std::unordered_set<uint64_t> sigs;
    std::vector<std::string> samplev;
    for (unsigned w = 0; w < workers; ++w)
    {
        WorkerOut* o = wo[w];
        runs += o->runs;
        nontriv += o->nontrivial;
        simtime += o->simtime;
        steps_n += o->steps;
        det += o->det_checks;
        overflow += o->overflow;
        known_hits += o->known_hits;
        for (unsigned k = 0; k < o->nknown; ++k) { knownk[o->known_klass[k]] = o->known_msg[k]; }
        if (o->error) { error = o->errmsg; }
        if (o->best < best) { best = o->best; }
        for (unsigned k = 0; k < o->ncnt; ++k) { counts[o->cnt[k].name] += o->cnt[k].n; }
        for (unsigned k = 0; k < o->nsample && samplev.size() < 6; ++k) { samplev.push_back(o->sample[k]); }
        std::ifstream f(sigfiles[w].c_str(), std::ios::binary);
        for (uint64_t x; f.read(reinterpret_cast<char*>(&x), 8);) { sigs.insert(x); }
        f.close();
        unlink(sigfiles[w].c_str());
    }
    if (worker_died) { error = "a worker process died"; }

    int rc = 0;
    std::string replay_path, vclass, vmsg;
    unsigned min_evals = 0;
    size_t orig_len = 0, min_len = 0;
    if (best != ~0ull)
    {
        const Scenario& s = scen_of(best);
        Result a = run_once(s, seed_of(best), nullptr);
        Result b = run_once(s, seed_of(best), nullptr);
        if (!a.violated || !b.violated || a.klass != b.klass || a.hash != b.hash)
        {
            error = "violation at index " + std::to_string(best) + " did not reproduce from its seed (" + a.klass + " / " + b.klass + ")";
            rc = 3;
        }
        else
        {
            orig_len = a.values.size();
            std::vector<uint32_t> full = a.values;
            std::vector<uint32_t> v = minimise(s, full, a.klass, 30.0, min_evals);
            Result m = run_once(s, 0, &v);
            if (!m.violated || m.klass != a.klass)
            {
                v = full;
                m = run_once(s, 0, &v);
            }
            min_len = v.size();
            replay_path = repdir + "/" + prop + "-seed" + std::to_string(seed) + "-" + std::to_string(best) + ".replay";
            write_replay(replay_path, s, seed, best, m, v.size());
            vclass = m.klass;
            vmsg = m.msg;
            // a fresh process must reproduce it exactly, twice
            for (int k = 0; k < 2; ++k)
            {
                std::string cmd = g_self + " replay '" + replay_path + "' -q > /dev/null 2>&1";
                int st = system(cmd.c_str());
                if (!WIFEXITED(st) || WEXITSTATUS(st) != 1)
                {
                    error = "fresh-process replay of " + replay_path + " did not reproduce the violation";
                    rc = 3;
                }
            }
            if (rc == 0) { rc = 1; }
        }
    }
    if (!error.empty() && rc != 1) { rc = 3; }

    std::ofstream f(out.c_str());
    f << "{\n\"property\": \"" << prop << "\", \"seed\": " << seed << ", \"rc\": " << rc << ",\n";
    f << "\"runs\": " << runs << ", \"nontrivial\": " << nontriv << ", \"distinct\": " << sigs.size()
      << ", \"simtime_ns\": " << simtime << ", \"steps\": " << steps_n << ", \"determinism_checks\": " << det
      << ", \"overlong_runs\": " << overflow << ", \"explore_s\": " << explore_s << ", \"known_hits\": " << known_hits << ",\n";
    f << "\"error\": \"" << esc(error) << "\", \"violation_class\": \"" << esc(vclass) << "\", \"violation_msg\": \"" << esc(vmsg)
      << "\", \"replay\": \"" << esc(replay_path) << "\", \"min_evals\": " << min_evals << ", \"orig_choices\": " << orig_len
      << ", \"min_choices\": " << min_len << ",\n\"counts\": {";
    bool first = true;
    for (const auto& c : counts)
    {
        f << (first ? "" : ", ") << "\"" << esc(c.first) << "\": " << c.second;
        first = false;
    }
    f << "},\n\"known\": {";
    first = true;
    for (const auto& c : knownk)
    {
        f << (first ? "" : ", ") << "\"" << esc(c.first) << "\": \"" << esc(c.second) << "\"";
        first = false;
    }
    f << "},\n\"scenarios\": [";
    first = true;
    for (auto s : scens)
    {
        f << (first ? "" : ", ") << "\"" << s->name << "\"";
        first = false;
    }
    f << "],\n\"samples\": [";
    first = true;
    for (const auto& s : samplev)
    {
        f << (first ? "" : ",\n") << "\"" << esc(s) << "\"";
        first = false;
    }
    f << "]\n}\n";
    f.close();
    return rc;
}

} // namespace sim

int main(int argc, char** argv)
{
    return sim::driver_main(argc, argv);
}
