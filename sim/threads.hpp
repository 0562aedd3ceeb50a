// Simulated threads: real pthreads of which exactly one runs at a time.  Code
// compiled with -fsanitize=thread reports every memory access, atomic and lock
// to the runtime in threads.cpp, which decides there, from the run's choices,
// when to switch, and follows happens-before to find data races.
#ifndef VERIF_SIM_THREADS_HPP
#define VERIF_SIM_THREADS_HPP
#include <cstddef>
#include <cstdint>
#include <functional>
#include <vector>

namespace sim
{
namespace threads
{
// Runs the bodies as simulated threads until all have finished.
// Returns when they have; a deadlock or a data race is a violation.
void run(const std::vector<std::function<void()>>& bodies);
void label(const char* what);          // what the calling thread is doing, for reports
void yield_point();                    // a switch may happen here
int self();                            // index of the calling simulated thread, or -1
void access(const void* p, size_t n, bool write);   // memory touched by uninstrumented code
uint64_t accesses();

struct Quiet                           // harness code inside a thread: not observed, no switch
{
    Quiet();
    ~Quiet();
};
}
}
#endif
