/* Stand-in for <mpi.h>: the calls parlinalgcpp makes, carried out by the simulator. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
#define MPI_SUCCESS 0
#define MPI_COMM_NULL ((MPI_Comm)0x04000000)
#define MPI_COMM_WORLD ((MPI_Comm)0x44000000)
#define MPI_COMM_SELF ((MPI_Comm)0x44000001)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_CHAR ((MPI_Datatype)0x4c000101)
#define MPI_INT ((MPI_Datatype)0x4c000405)
#define MPI_LONG ((MPI_Datatype)0x4c000807)
#define MPI_DOUBLE ((MPI_Datatype)0x4c00080b)
#define MPI_MAX ((MPI_Op)0x58000001)
#define MPI_MIN ((MPI_Op)0x58000002)
#define MPI_SUM ((MPI_Op)0x58000003)
namespace MPI
{
const MPI_Datatype INT = MPI_INT;
const MPI_Datatype DOUBLE = MPI_DOUBLE;
const MPI_Op SUM = MPI_SUM;
const MPI_Op MAX = MPI_MAX;
const MPI_Op MIN = MPI_MIN;
}
int MPI_Init(int*, char***);
int MPI_Finalize();
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
#endif
