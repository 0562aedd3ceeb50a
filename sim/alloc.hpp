// Simulated allocator: replaces operator new/delete.  Allocation failures are
// chosen by the simulator, fresh memory is filled with a per-run byte, every
// block is accounted for (leaks), and there is a finite amount of memory.
#ifndef VERIF_SIM_ALLOC_HPP
#define VERIF_SIM_ALLOC_HPP
#include <cstddef>
#include <cstdint>

namespace sim
{
namespace alloc
{
void set_fill(unsigned char byte);
void set_cap(size_t single, size_t total);
void arm(uint64_t nth, bool sticky);     // fail the nth (0-based) tracked allocation from now on
void disarm();
bool fired();                            // an armed failure happened since arm()
uint64_t total();                        // tracked allocations so far
uint64_t live();                         // tracked blocks live
uint64_t capped();                       // allocations refused by the cap
struct Exempt                            // harness allocations: not tracked, never failed
{
    Exempt();
    ~Exempt();
};
struct Track                             // code-under-test scope inside an Exempt region
{
    Track();
    ~Track();
    int saved;
};
void tracking(bool on);
extern void (*on_new)(void*, size_t);      // observers of every block handed out and taken back
extern void (*on_delete)(void*, size_t);
}
}
#endif
