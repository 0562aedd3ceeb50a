// Simulated host services: the clocks and the entropy source.
#ifndef VERIF_SIM_HOST_HPP
#define VERIF_SIM_HOST_HPP
#include <cstdint>

namespace sim
{
namespace host
{
// ---- clocks -----------------------------------------------------------------
// While on, every clock of the process is computed from one true time: the steady clocks follow it, the wall clock
// follows it with an offset that the administrator, NTP or a leap second may change at any moment.
void clock_on(bool on);
void pass(uint64_t ns);              // true time goes by
void jump_wall(int64_t ns);          // the wall clock is set
uint64_t true_time();
uint64_t wall_reads();
uint64_t steady_reads();

// ---- entropy ----------------------------------------------------------------
// While on, std::random_device hands out the given stream, or fails.
void entropy_on(bool on);
void entropy_seed(uint64_t seed);
void entropy_fail(bool fail);        // the device cannot be opened or read
uint64_t entropy_reads();
}
}
#endif
