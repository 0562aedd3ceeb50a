/* Stand-in for the parts of hypre 2.10 that parlinalgcpp uses: same structures, names and rules. */
#ifndef SIM_HYPRE_H
#define SIM_HYPRE_H
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include "mpi.h"
#define HYPRE_NO_GLOBAL_PARTITION 1
typedef int HYPRE_Int;
typedef double HYPRE_Real;
typedef double HYPRE_Complex;

typedef struct
{
    HYPRE_Complex* data;
    HYPRE_Int size;
    HYPRE_Int owns_data;
    HYPRE_Int num_vectors;
    HYPRE_Int multivec_storage_method;
    HYPRE_Int vecstride;
    HYPRE_Int idxstride;
} hypre_Vector;

typedef struct
{
    HYPRE_Int* i;
    HYPRE_Int* j;
    HYPRE_Int num_rows;
    HYPRE_Int num_cols;
    HYPRE_Int num_nonzeros;
    HYPRE_Int owns_data;
    HYPRE_Complex* data;
    HYPRE_Int* rownnz;
    HYPRE_Int num_rownnz;
} hypre_CSRMatrix;

typedef struct
{
    MPI_Comm comm;
    HYPRE_Int num_sends;
    HYPRE_Int* send_procs;
    HYPRE_Int* send_map_starts;
    HYPRE_Int* send_map_elmts;
    HYPRE_Int num_recvs;
    HYPRE_Int* recv_procs;
    HYPRE_Int* recv_vec_starts;
    void* send_mpi_types;
    void* recv_mpi_types;
} hypre_ParCSRCommPkg;

struct hypre_ParCSRCommHandle_struct;
typedef struct hypre_ParCSRCommHandle_struct hypre_ParCSRCommHandle;

typedef struct hypre_ParCSRMatrix_struct
{
    MPI_Comm comm;
    HYPRE_Int global_num_rows;
    HYPRE_Int global_num_cols;
    HYPRE_Int first_row_index;
    HYPRE_Int first_col_diag;
    HYPRE_Int last_row_index;
    HYPRE_Int last_col_diag;
    hypre_CSRMatrix* diag;
    hypre_CSRMatrix* offd;
    hypre_CSRMatrix* diagT;
    hypre_CSRMatrix* offdT;
    HYPRE_Int* col_map_offd;
    HYPRE_Int* row_starts;
    HYPRE_Int* col_starts;
    hypre_ParCSRCommPkg* comm_pkg;
    hypre_ParCSRCommPkg* comm_pkgT;
    HYPRE_Int owns_data;
    HYPRE_Int owns_row_starts;
    HYPRE_Int owns_col_starts;
    HYPRE_Int num_nonzeros;
    HYPRE_Real d_num_nonzeros;
    HYPRE_Int* rowindices;
    HYPRE_Complex* rowvalues;
    HYPRE_Int getrowactive;
} hypre_ParCSRMatrix;

typedef struct hypre_ParVector_struct
{
    MPI_Comm comm;
    HYPRE_Int global_size;
    HYPRE_Int first_index;
    HYPRE_Int last_index;
    HYPRE_Int* partitioning;
    hypre_Vector* local_vector;
    HYPRE_Int owns_data;
    HYPRE_Int owns_partitioning;
} hypre_ParVector;

struct hypre_Solver_struct;
typedef struct hypre_Solver_struct* HYPRE_Solver;
struct hypre_Matrix_struct;
typedef struct hypre_Matrix_struct* HYPRE_Matrix;
struct hypre_Vector_struct;
typedef struct hypre_Vector_struct* HYPRE_Vector;
typedef struct hypre_ParCSRMatrix_struct* HYPRE_ParCSRMatrix;
typedef struct hypre_ParVector_struct* HYPRE_ParVector;
typedef HYPRE_Int (*HYPRE_PtrToSolverFcn)(HYPRE_Solver, HYPRE_Matrix, HYPRE_Vector, HYPRE_Vector);
typedef HYPRE_Int (*HYPRE_PtrToParSolverFcn)(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);

/* memory */
void* hypre_sim_calloc(size_t count, size_t size, const char* what);
void hypre_sim_free(void* p, const char* what);
#define hypre_CTAlloc(type, count) ((type*)hypre_sim_calloc((size_t)(count), sizeof(type), #type))
#define hypre_TAlloc(type, count) ((type*)hypre_sim_calloc((size_t)(count), sizeof(type), #type))
#define hypre_TFree(ptr) (hypre_sim_free((void*)(ptr), #ptr), (ptr) = NULL)

/* errors and threads */
HYPRE_Int* hypre_sim_error();
#define hypre_error_flag (*hypre_sim_error())
#define hypre_error(code) (*hypre_sim_error() |= (code))
#define hypre_error_in_arg(arg) (*hypre_sim_error() |= 4 | (arg) << 3)
inline HYPRE_Int hypre_NumThreads() { return 1; }
inline HYPRE_Int hypre_NumActiveThreads() { return 1; }
inline HYPRE_Int hypre_GetThreadNum() { return 0; }
inline HYPRE_Int HYPRE_AssumedPartitionCheck() { return 1; }
HYPRE_Int hypre_MPI_Comm_size(MPI_Comm, HYPRE_Int*);
HYPRE_Int hypre_MPI_Comm_rank(MPI_Comm, HYPRE_Int*);
HYPRE_Int hypre_BinarySearch(HYPRE_Int* list, HYPRE_Int value, HYPRE_Int n);

/* accessors */
#define hypre_VectorData(v) ((v)->data)
#define hypre_VectorSize(v) ((v)->size)
#define hypre_VectorOwnsData(v) ((v)->owns_data)
#define hypre_CSRMatrixData(m) ((m)->data)
#define hypre_CSRMatrixI(m) ((m)->i)
#define hypre_CSRMatrixJ(m) ((m)->j)
#define hypre_CSRMatrixNumRows(m) ((m)->num_rows)
#define hypre_CSRMatrixNumCols(m) ((m)->num_cols)
#define hypre_CSRMatrixNumNonzeros(m) ((m)->num_nonzeros)
#define hypre_CSRMatrixRownnz(m) ((m)->rownnz)
#define hypre_CSRMatrixNumRownnz(m) ((m)->num_rownnz)
#define hypre_CSRMatrixOwnsData(m) ((m)->owns_data)
#define hypre_ParCSRMatrixComm(m) ((m)->comm)
#define hypre_ParCSRMatrixGlobalNumRows(m) ((m)->global_num_rows)
#define hypre_ParCSRMatrixGlobalNumCols(m) ((m)->global_num_cols)
#define hypre_ParCSRMatrixFirstRowIndex(m) ((m)->first_row_index)
#define hypre_ParCSRMatrixFirstColDiag(m) ((m)->first_col_diag)
#define hypre_ParCSRMatrixLastRowIndex(m) ((m)->last_row_index)
#define hypre_ParCSRMatrixLastColDiag(m) ((m)->last_col_diag)
#define hypre_ParCSRMatrixDiag(m) ((m)->diag)
#define hypre_ParCSRMatrixOffd(m) ((m)->offd)
#define hypre_ParCSRMatrixColMapOffd(m) ((m)->col_map_offd)
#define hypre_ParCSRMatrixRowStarts(m) ((m)->row_starts)
#define hypre_ParCSRMatrixColStarts(m) ((m)->col_starts)
#define hypre_ParCSRMatrixCommPkg(m) ((m)->comm_pkg)
#define hypre_ParCSRMatrixOwnsData(m) ((m)->owns_data)
#define hypre_ParCSRMatrixOwnsRowStarts(m) ((m)->owns_row_starts)
#define hypre_ParCSRMatrixOwnsColStarts(m) ((m)->owns_col_starts)
#define hypre_ParCSRMatrixNumRows(m) (hypre_CSRMatrixNumRows(hypre_ParCSRMatrixDiag(m)))
#define hypre_ParCSRMatrixNumCols(m) (hypre_CSRMatrixNumCols(hypre_ParCSRMatrixDiag(m)))
#define hypre_ParCSRMatrixNumNonzeros(m) ((m)->num_nonzeros)
#define hypre_ParCSRCommPkgComm(p) ((p)->comm)
#define hypre_ParCSRCommPkgNumSends(p) ((p)->num_sends)
#define hypre_ParCSRCommPkgSendProcs(p) ((p)->send_procs)
#define hypre_ParCSRCommPkgSendMapStarts(p) ((p)->send_map_starts)
#define hypre_ParCSRCommPkgSendMapElmts(p) ((p)->send_map_elmts)
#define hypre_ParCSRCommPkgNumRecvs(p) ((p)->num_recvs)
#define hypre_ParCSRCommPkgRecvProcs(p) ((p)->recv_procs)
#define hypre_ParCSRCommPkgRecvVecStarts(p) ((p)->recv_vec_starts)
#define hypre_ParVectorLocalVector(v) ((v)->local_vector)
#define hypre_ParVectorGlobalSize(v) ((v)->global_size)
#define hypre_ParVectorPartitioning(v) ((v)->partitioning)
#define hypre_ParVectorOwnsData(v) ((v)->owns_data)

/* vectors */
HYPRE_Int hypre_SeqVectorSetDataOwner(hypre_Vector*, HYPRE_Int);
hypre_ParVector* hypre_ParVectorCreate(MPI_Comm, HYPRE_Int global_size, HYPRE_Int* partitioning);
HYPRE_Int hypre_ParVectorDestroy(hypre_ParVector*);
HYPRE_Int hypre_ParVectorInitialize(hypre_ParVector*);
HYPRE_Int hypre_ParVectorSetDataOwner(hypre_ParVector*, HYPRE_Int);
HYPRE_Int hypre_ParVectorSetPartitioningOwner(hypre_ParVector*, HYPRE_Int);
HYPRE_Int hypre_ParVectorSetConstantValues(hypre_ParVector*, HYPRE_Complex);
HYPRE_Int hypre_ParVectorCopy(hypre_ParVector* x, hypre_ParVector* y);
HYPRE_Int hypre_ParVectorScale(HYPRE_Complex, hypre_ParVector*);
HYPRE_Int hypre_ParVectorAxpy(HYPRE_Complex, hypre_ParVector* x, hypre_ParVector* y);
HYPRE_Real hypre_ParVectorInnerProd(hypre_ParVector*, hypre_ParVector*);

/* matrices */
hypre_CSRMatrix* hypre_CSRMatrixCreate(HYPRE_Int rows, HYPRE_Int cols, HYPRE_Int nnz);
HYPRE_Int hypre_CSRMatrixDestroy(hypre_CSRMatrix*);
HYPRE_Int hypre_CSRMatrixSetRownnz(hypre_CSRMatrix*);
HYPRE_Int hypre_CSRMatrixReorder(hypre_CSRMatrix*);
hypre_ParCSRMatrix* hypre_ParCSRMatrixCreate(MPI_Comm, HYPRE_Int, HYPRE_Int, HYPRE_Int* row_starts, HYPRE_Int* col_starts,
                                             HYPRE_Int num_cols_offd, HYPRE_Int nnz_diag, HYPRE_Int nnz_offd);
HYPRE_Int hypre_ParCSRMatrixDestroy(hypre_ParCSRMatrix*);
HYPRE_Int hypre_ParCSRMatrixSetNumNonzeros(hypre_ParCSRMatrix*);
HYPRE_Int hypre_MatvecCommPkgCreate(hypre_ParCSRMatrix*);
HYPRE_Int hypre_MatvecCommPkgDestroy(hypre_ParCSRCommPkg*);
hypre_ParCSRCommHandle* hypre_ParCSRCommHandleCreate(HYPRE_Int job, hypre_ParCSRCommPkg*, void* send_data, void* recv_data);
HYPRE_Int hypre_ParCSRCommHandleDestroy(hypre_ParCSRCommHandle*);
HYPRE_Int hypre_ParCSRMatrixMatvec(HYPRE_Complex alpha, hypre_ParCSRMatrix*, hypre_ParVector* x, HYPRE_Complex beta, hypre_ParVector* y);
HYPRE_Int hypre_ParCSRMatrixMatvecT(HYPRE_Complex alpha, hypre_ParCSRMatrix*, hypre_ParVector* x, HYPRE_Complex beta, hypre_ParVector* y);
hypre_CSRMatrix* hypre_ParCSRMatrixExtractBExt(hypre_ParCSRMatrix* B, hypre_ParCSRMatrix* A, HYPRE_Int data);

/* solvers */
HYPRE_Int hypre_ParCSRRelax(hypre_ParCSRMatrix* A, hypre_ParVector* f, HYPRE_Int relax_type, HYPRE_Int relax_times, HYPRE_Real* l1_norms,
                            HYPRE_Real relax_weight, HYPRE_Real omega, HYPRE_Real max_eig_est, HYPRE_Real min_eig_est, HYPRE_Int cheby_order,
                            HYPRE_Real cheby_fraction, hypre_ParVector* u, hypre_ParVector* v, hypre_ParVector* z);
HYPRE_Int HYPRE_BoomerAMGCreate(HYPRE_Solver*);
HYPRE_Int HYPRE_BoomerAMGDestroy(HYPRE_Solver);
HYPRE_Int HYPRE_BoomerAMGSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_BoomerAMGSolve(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_BoomerAMGSetCoarsenType(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetAggNumLevels(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetRelaxType(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetNumSweeps(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetStrongThreshold(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_BoomerAMGSetInterpType(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetPMaxElmts(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetMaxLevels(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetPrintLevel(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetMaxIter(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_BoomerAMGSetTol(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_ParaSailsCreate(MPI_Comm, HYPRE_Solver*);
HYPRE_Int HYPRE_ParaSailsDestroy(HYPRE_Solver);
HYPRE_Int HYPRE_ParaSailsSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_ParaSailsSolve(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_ParaSailsSetParams(HYPRE_Solver, HYPRE_Real thresh, HYPRE_Int nlevels);
HYPRE_Int HYPRE_ParaSailsSetFilter(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_ParaSailsSetSym(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_ParaSailsSetLoadbal(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_ParaSailsSetReuse(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_ParaSailsSetLogging(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_ParCSRPCGCreate(MPI_Comm, HYPRE_Solver*);
HYPRE_Int HYPRE_ParCSRPCGDestroy(HYPRE_Solver);
HYPRE_Int HYPRE_ParCSRPCGSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_ParCSRPCGSolve(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector, HYPRE_ParVector);
HYPRE_Int HYPRE_ParCSRPCGSetTol(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_ParCSRPCGSetMaxIter(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_ParCSRPCGSetPrintLevel(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_ParCSRPCGSetPrecond(HYPRE_Solver, HYPRE_PtrToParSolverFcn precond, HYPRE_PtrToParSolverFcn precond_setup, HYPRE_Solver precond_solver);
HYPRE_Int HYPRE_PCGSetTol(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_PCGSetMaxIter(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_PCGSetPrintLevel(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_PCGSetPrecond(HYPRE_Solver, HYPRE_PtrToSolverFcn precond, HYPRE_PtrToSolverFcn precond_setup, HYPRE_Solver precond_solver);
HYPRE_Int HYPRE_ParCSRDiagScaleSetup(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector y, HYPRE_ParVector x);
HYPRE_Int HYPRE_ParCSRDiagScale(HYPRE_Solver, HYPRE_ParCSRMatrix, HYPRE_ParVector y, HYPRE_ParVector x);

/* eigensolver */
typedef struct
{
    void* (*CreateVector)(void* vector);
    HYPRE_Int (*DestroyVector)(void* vector);
} mv_InterfaceInterpreter;
typedef struct
{
    void* (*MatvecCreate)(void* A, void* x);
    HYPRE_Int (*Matvec)(void* matvec_data, HYPRE_Complex alpha, void* A, void* x, HYPRE_Complex beta, void* y);
    HYPRE_Int (*MatvecDestroy)(void* matvec_data);
} HYPRE_MatvecFunctions;
struct mv_MultiVector;
typedef struct mv_MultiVector* mv_MultiVectorPtr;
typedef struct
{
    long numVectors;
    HYPRE_Int* mask;
    void** vector;
    HYPRE_Int ownsVectors;
    HYPRE_Int ownsMask;
    mv_InterfaceInterpreter* interpreter;
} mv_TempMultiVector;
mv_MultiVectorPtr mv_MultiVectorCreateFromSampleVector(void* interpreter, HYPRE_Int n, void* sample);
void mv_MultiVectorDestroy(mv_MultiVectorPtr);
void* mv_MultiVectorGetData(mv_MultiVectorPtr);
HYPRE_Int HYPRE_ParCSRSetupInterpreter(mv_InterfaceInterpreter*);
HYPRE_Int HYPRE_ParCSRSetupMatvec(HYPRE_MatvecFunctions*);
HYPRE_Int HYPRE_LOBPCGCreate(mv_InterfaceInterpreter*, HYPRE_MatvecFunctions*, HYPRE_Solver*);
HYPRE_Int HYPRE_LOBPCGDestroy(HYPRE_Solver);
HYPRE_Int HYPRE_LOBPCGSetup(HYPRE_Solver, HYPRE_Matrix, HYPRE_Vector, HYPRE_Vector);
HYPRE_Int HYPRE_LOBPCGSolve(HYPRE_Solver, mv_MultiVectorPtr constraints, mv_MultiVectorPtr x, HYPRE_Real* lambda);
HYPRE_Int HYPRE_LOBPCGSetPrintLevel(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_LOBPCGSetMaxIter(HYPRE_Solver, HYPRE_Int);
HYPRE_Int HYPRE_LOBPCGSetTol(HYPRE_Solver, HYPRE_Real);
HYPRE_Int HYPRE_LOBPCGSetPrecond(HYPRE_Solver, HYPRE_PtrToSolverFcn precond, HYPRE_PtrToSolverFcn precond_setup, HYPRE_Solver precond_solver);
#endif
