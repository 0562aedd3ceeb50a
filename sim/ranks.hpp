// Simulated MPI job: every rank is a real thread of which exactly one runs at a
// time.  The run's choices decide which rank goes on, when a message arrives, in
// which order sums are taken and whether a collective lets early ranks leave.
#ifndef VERIF_SIM_RANKS_HPP
#define VERIF_SIM_RANKS_HPP
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim
{
namespace ranks
{
// Runs body(rank) on n ranks until all have finished.  A deadlock, a mismatched
// collective, or a message nobody received is a violation.
void run(int n, const std::function<void(int)>& body);
int self();                                        // world rank of the caller, -1 outside
int size();
void label(const char* what);                      // what the calling rank is doing, for reports
const char* label();
void yield();                                      // another rank may run here

// Communicators: a handle and its members (world ranks in rank order).
int make_comm(const std::vector<int>& members);
bool is_comm(int comm);
const std::vector<int>& members(int comm);
int rank_in(int comm);                             // of the caller; -1: not a member

// Collectives.  `kind` and `shape` must agree on all ranks; ready says which ranks
// must have arrived before the caller may leave.
enum class Need { all, root, prefix };
using Parts = std::vector<std::vector<char>>;      // contributions, by rank in the communicator
const Parts& collective(int comm, const std::string& kind, Need need, int root, const void* data, size_t bytes, size_t& slot);
void leave(int comm, size_t slot);                 // caller has taken its result

// Point to point, non-blocking.  Messages between two ranks do not overtake each other.
struct Send;
struct Recv;
Send* isend(int comm, int dest, const void* data, size_t bytes);
Recv* irecv(int comm, int source, void* data, size_t bytes);
void wait_all(std::vector<Send*>& sends, std::vector<Recv*>& recvs);
}
}
#endif
