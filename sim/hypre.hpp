// What the harness wants to know about the simulated MPI library and hypre.
#ifndef VERIF_SIM_HYPRE_HPP
#define VERIF_SIM_HYPRE_HPP
#include <cstddef>
#include <string>
namespace sim
{
namespace hypre
{
void mpi_init(int n);                  // MPI_COMM_WORLD and MPI_COMM_SELF for n ranks; before ranks::run
size_t live_blocks();                  // hypre memory not given back
size_t live_solvers();
std::string leftovers();
double amg_weight(bool as_parlinalgcpp, int print_level, int max_iter, double tol);
double sails_scale(double thresh, int levels, double filter, int sym, double loadbal, int reuse, int logging);
double relax_weight(int type);
}
}
#endif
