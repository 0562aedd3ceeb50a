// Deterministic simulation core: one seed -> one choice sequence -> one run.
//
// Every decision of a run (workload, schedule, fault, entropy) is drawn through
// choose()/chance()/..., recorded in a trace shared with the supervising process,
// and can be replayed (and shrunk) from that trace alone.  0 is always the
// simplest / fault-free answer, so shrinking drives runs towards quiet ones.
#ifndef VERIF_SIM_CORE_HPP
#define VERIF_SIM_CORE_HPP

#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <string>

namespace sim
{

// ---- decisions ------------------------------------------------------------
unsigned choose(unsigned n, const char* label);                       // uniform in [0,n)
bool chance(unsigned num, unsigned den, const char* label);           // true with prob num/den
unsigned weighted(std::initializer_list<unsigned> w, const char* label);
int range(int lo, int hi, const char* label);                         // inclusive
int extent(int lo, int hi, const char* label);                        // the same, often at or beside a multiple of a power of two
unsigned geometric(unsigned cap, const char* label);                  // 0 w.p. 1/2, 1 w.p. 1/4...
uint64_t bits(const char* label);                                     // 31 random bits, one choice
double real(const char* label);                                       // "nice" finite doubles
double unit(const char* label);                                       // in [0,1), 2^-20 grid

// ---- recording ------------------------------------------------------------
void event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void hash_u64(uint64_t v);           // fold into the event hash only
void hash_f64(double v);
void count(const char* name, uint64_t n = 1);     // fault kinds and probes; name must be a literal
void state(uint64_t v);              // fold into the "distinct states" signature
void state(const char* s);
void nontrivial();                   // this run exercised what the property is about
void advance_time(uint64_t ns);      // simulated time
void steps(uint64_t n);              // simulated steps

// A property violation: records and ends the run at once.
[[noreturn]] void violation(const char* klass, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// The harness itself is broken: ends the whole check with an error.
[[noreturn]] void broken(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

bool in_run();
bool verbose();

// ---- scenario registry ----------------------------------------------------
struct Scenario
{
    const char* prop;
    const char* name;
    void (*fn)();
    void (*warm)();
    unsigned weight;
    unsigned cpu_limit_s;
    Scenario* next;
    Scenario(const char* prop, const char* name, void (*fn)(), void (*warm)() = nullptr,
             unsigned weight = 1, unsigned cpu_limit_s = 20);
};

// Called in the child at the start of each run (seams reset their state).
struct AtRunStart
{
    void (*fn)();
    AtRunStart* next;
    explicit AtRunStart(void (*fn)());
};

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

uint64_t mix(uint64_t a, uint64_t b);

} // namespace sim

#endif
