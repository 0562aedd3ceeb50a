// Simulated disk: every file whose path starts with /sim/ lives in memory behind
// the C library calls that libstdc++ and C stdio use (open, fopen, read, write,
// writev, lseek, fstat, fclose, rename, ...).  The simulator decides the outcome
// of every call.  All other paths go to the real system.
#ifndef VERIF_SIM_FS_HPP
#define VERIF_SIM_FS_HPP
#include <cstdint>
#include <string>

namespace sim
{
namespace fs
{
struct Faults
{
    // benign: legal behaviour that must not change any result
    unsigned short_read = 0;   // chance in 16 per read
    unsigned short_write = 0;
    unsigned eintr = 0;
    // hard failures
    long enospc_after = -1;    // bytes that still fit on the disk (-1: unlimited)
    int fail_write_at = -1;    // nth write call fails (EIO, or ENOSPC/EDQUOT by choice)
    bool fail_write_once = false; // only that call fails, later ones succeed
    int fail_read_at = -1;     // nth read call fails with EIO
    bool fail_read_once = false;
    int fail_close_at = -1;    // nth close of a written file fails
    int fail_open_at = -1;     // nth open fails
    int crash_at = -1;         // nth mutating call is where the machine stops: nothing after it reaches the disk
};

void reset();
void set(const Faults& f);     // also resets the per-call counters
void clear_faults();
bool fired();                  // a hard failure was delivered since set()
bool crashed();                // the crash point was reached since set()
void restart();                // after a crash: descriptors are gone, the disk works again
unsigned writes();             // write calls since set()
unsigned mutations();
unsigned reads();
unsigned opens();
unsigned leaked_fds();         // open simulated descriptors

bool exists(const std::string& path);
std::string get(const std::string& path);
void put(const std::string& path, const std::string& data);
void remove(const std::string& path);
}
}
#endif
