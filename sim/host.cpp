#include "host.hpp"

#include "core.hpp"

#include <cerrno>
#include <ctime>
#include <random>
#include <stdexcept>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim
{
namespace host
{
namespace
{
bool g_clock, g_entropy, g_entropy_fail;
uint64_t g_now, g_wall_reads, g_steady_reads, g_entropy_reads;
int64_t g_offset;
Rng g_rng(1);
const int64_t EPOCH = 1700000000ll * 1000000000ll;

void reset()
{
    g_clock = g_entropy = g_entropy_fail = false;
    g_now = 5000000000ull;
    g_offset = 0;
    g_wall_reads = g_steady_reads = g_entropy_reads = 0;
    g_rng = Rng(1);
}
AtRunStart at_start(reset);
}
void clock_on(bool on) { g_clock = on; }
void pass(uint64_t ns) { g_now += ns; advance_time(ns); }
void jump_wall(int64_t ns) { g_offset += ns; }
uint64_t true_time() { return g_now; }
uint64_t wall_reads() { return g_wall_reads; }
uint64_t steady_reads() { return g_steady_reads; }
void entropy_on(bool on) { g_entropy = on; }
void entropy_seed(uint64_t seed) { g_rng = Rng(seed); }
void entropy_fail(bool fail) { g_entropy_fail = fail; }
uint64_t entropy_reads() { return g_entropy_reads; }

static int64_t wall() { g_wall_reads++; return EPOCH + (int64_t)g_now + g_offset; }
static int64_t steady() { g_steady_reads++; return (int64_t)g_now; }
}
}

using namespace sim::host;

extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    if (!g_clock) { return (int)syscall(SYS_clock_gettime, id, ts); }
    int64_t t;
    switch (id)
    {
        case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI: t = wall(); break;
        case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: case CLOCK_BOOTTIME: t = steady(); break;
        default: return (int)syscall(SYS_clock_gettime, id, ts);
    }
    ts->tv_sec = (time_t)(t / 1000000000);
    ts->tv_nsec = (long)(t % 1000000000);
    return 0;
}

extern "C" int gettimeofday(struct timeval* tv, void* tz) noexcept
{
    if (!g_clock) { return (int)syscall(SYS_gettimeofday, tv, tz); }
    const int64_t t = wall();
    tv->tv_sec = (time_t)(t / 1000000000);
    tv->tv_usec = (suseconds_t)(t % 1000000000 / 1000);
    return 0;
}

extern "C" time_t time(time_t* out) noexcept
{
    time_t t;
    if (g_clock) { t = (time_t)(wall() / 1000000000); }
    else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; }
    if (out) { *out = t; }
    return t;
}

// The library's only source of entropy.
namespace std
{
void random_device::_M_init(const std::string&)
{
    if (g_entropy && g_entropy_fail) { throw std::runtime_error("random_device: device not available"); }
}
void random_device::_M_fini() {}
double random_device::_M_getentropy() const noexcept { return 32.0; }
random_device::result_type random_device::_M_getval()
{
    if (!g_entropy) { return 20240607u; }
    if (g_entropy_fail) { throw std::runtime_error("random_device could not be read"); }
    g_entropy_reads++;
    return (result_type)g_rng.next();
}
}
