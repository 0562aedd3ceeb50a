"""What each simulator binary ("world") is built from, and what decides each property."""

SAN = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=vptr,signed-integer-overflow",
       "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS", "-w"]
TSAN = ["-O1", "-g", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS", "-w"]      # our own runtime: sim/threads.cpp
SIM = ["-std=c++14", "-O1", "-g", "-w"]

WORLDS = {
    "io": {
        "sim": ["sim/core.cpp", "sim/alloc.cpp", "sim/fs.cpp"],
        "sim_flags": SIM,
        "worlds": ["worlds/io.cpp"],
        "flags": ["-std=c++14"] + SAN,
        "repo": ["src/*.cpp"],
        "repo_flags": ["-std=c++11"] + SAN,
        "include": ["include"],
        "link_flags": SAN + ["-rdynamic"],
        "libs": ["-llapack", "-lblas", "-ldl"],
    },
    "life": {
        "sim": ["sim/core.cpp", "sim/alloc.cpp", "sim/fs.cpp"],
        "sim_flags": SIM,
        "worlds": ["worlds/life.cpp", "worlds/catalog.cpp", "worlds/io.cpp"],
        "flags": ["-std=c++14"] + SAN,
        "repo": ["src/*.cpp"],
        "repo_flags": ["-std=c++11"] + SAN,
        "include": ["include"],
        "link_flags": SAN + ["-rdynamic"],
        "libs": ["-llapack", "-lblas", "-ldl"],
    },
    "values": {
        "sim": ["sim/core.cpp", "sim/alloc.cpp"],
        "sim_flags": SIM,
        "worlds": ["worlds/values.cpp"],
        "flags": ["-std=c++14"] + SAN,
        "repo": ["src/*.cpp"],
        "repo_flags": ["-std=c++11"] + SAN,
        "include": ["include"],
        "link_flags": SAN + ["-rdynamic"],
        "libs": ["-llapack", "-lblas", "-ldl"],
    },
    "threads": {
        "cxx": "clang++",
        "sim": ["sim/core.cpp", "sim/alloc.cpp", "sim/threads.cpp"],
        "sim_flags": ["-std=c++14", "-O2", "-g", "-w", "-fno-threadsafe-statics"],
        "worlds": ["worlds/threads.cpp", "worlds/catalog.cpp"],
        "flags": ["-std=c++14"] + TSAN,
        "repo": ["src/*.cpp", "modules/sparsesolver/src/*.cpp"],
        "repo_flags": ["-std=c++11"] + TSAN,
        "include": ["include", "modules/sparsesolver/include", "/usr/include/suitesparse"],
        "link_flags": ["-rdynamic"] + ["-Wl,--wrap=" + f for f in ("dgemm_", "dgesvd_", "dgeqp3_", "dorgqr_", "dgetrf_", "dgetri_",
                                                                   "dsytrd_", "dsterf_", "memcpy", "memmove", "memset")],
        "libs": ["-lumfpack", "-llapack", "-lblas", "-ldl", "-lpthread"],
    },
    "solve": {
        "sim": ["sim/core.cpp", "sim/alloc.cpp", "sim/host.cpp"],
        "sim_flags": SIM,
        "worlds": ["worlds/solve.cpp"],
        "flags": ["-std=c++14"] + SAN,
        "repo": ["src/*.cpp"],
        "repo_flags": ["-std=c++11"] + SAN,
        "include": ["include"],
        "link_flags": SAN + ["-rdynamic"] + ["-Wl,--wrap=" + f for f in ("dgesvd_", "dgeqp3_", "dorgqr_", "dgetrf_", "dgetri_", "dsytrd_", "dsterf_",
                                                                         "dstein_", "dormtr_")],
        "libs": ["-llapack", "-lblas", "-ldl"],
    },
    "modules": {
        "sim": ["sim/core.cpp", "sim/alloc.cpp"],
        "sim_flags": SIM,
        "worlds": ["worlds/modules.cpp"],
        "flags": ["-std=c++14"] + SAN,
        "repo": ["src/*.cpp", "modules/sparsesolver/src/*.cpp"],
        "repo_flags": ["-std=c++11"] + SAN,
        "include": ["include", "modules/sparsesolver/include", "modules/partition/include", "/usr/include/suitesparse"],
        "link_flags": SAN + ["-rdynamic", "-Wl,--wrap=METIS_PartGraphKway", "-Wl,--wrap=METIS_PartGraphRecursive"],
        "libs": ["-lmetis", "-lumfpack", "-lsuitesparseconfig", "-llapack", "-lblas", "-ldl"],
    },
}

WORLDS["args"] = {
    "sim": ["sim/core.cpp", "sim/alloc.cpp"],
    "sim_flags": SIM,
    "worlds": ["worlds/args.cpp"],
    "flags": ["-std=c++14"] + SAN,
    "repo": ["src/argparser.cpp"],
    "repo_flags": ["-std=c++11"] + SAN,
    "include": ["include"],
    "link_flags": SAN + ["-rdynamic"],
    "libs": ["-ldl"],
}

WORLDS["print"] = {
    "sim": ["sim/core.cpp", "sim/alloc.cpp"],
    "sim_flags": SIM,
    "worlds": ["worlds/print.cpp"],
    "flags": ["-std=c++14"] + SAN,
    "repo": ["src/*.cpp"],
    "repo_flags": ["-std=c++11"] + SAN,
    "include": ["include"],
    "link_flags": SAN + ["-rdynamic"],
    "libs": ["-llapack", "-lblas", "-ldl"],
}

WORLDS["mpi"] = {
    "sim": ["sim/core.cpp", "sim/alloc.cpp", "sim/host.cpp", "sim/ranks.cpp"],
    "sim_flags": SIM,
    "worlds": ["worlds/mpi.cpp", "sim/hypre.cpp"],
    "flags": ["-std=c++14"] + SAN,
    "repo": ["src/*.cpp", "modules/parlinalgcpp/src/*.cpp"],
    "repo_flags": ["-std=c++11"] + SAN,
    "include": ["include", "modules/parlinalgcpp/include", "@sim/mpi"],
    "link_flags": SAN + ["-rdynamic"],
    "libs": ["-llapack", "-lblas", "-ldl", "-lpthread"],
}

_IO_REAL = ["include/parser.hpp, coomatrix.hpp, sparsematrix.hpp, vector.hpp (all reader and writer functions)",
            "libstdc++ file streams, as shipped"]
_IO_STUB = ["disk: in-memory files behind open/fopen/read/write/writev/lseek/fstat/close/rename",
            "operator new/delete: accounted, filled, capped at 256 MB"]
_ASSUME = ["the simulator's model of what a call may return (POSIX short reads/writes, EINTR, EIO, ENOSPC, EDQUOT, failing close) "
           "covers what the real system does", "one fork per run: no state survives from one run to the next"]

CHECKS = {
    "P01": {
        "world": "io", "level": "exploration", "quick_s": 40, "thorough_s": 700,
        "rule": "a run writes and reads 1-5 files (27 formats and value types, small and multi-buffer sizes, overwriting each other) on a disk "
                "that returns short counts and EINTR at random; non-trivial: at least one file was read back and compared",
        "measure": "hash of (format, size class, bytes on disk) along the run",
        "real": _IO_REAL, "stub": _IO_STUB, "assumptions": _ASSUME,
    },
    "P02": {
        "world": "io", "level": "exploration", "quick_s": 40, "thorough_s": 700,
        "rule": "a run writes one value of one of 23 formats up to 3 times while the disk fails at a random write, byte, open or close, then "
                "once more on a healthy disk; non-trivial: a fault was delivered inside the write",
        "measure": "hash of (format, fault kind, file size) along the run",
        "real": _IO_REAL, "stub": _IO_STUB, "assumptions": _ASSUME,
    },
    "P03": {
        "world": "io", "level": "exploration", "quick_s": 50, "thorough_s": 700,
        "rule": "a run reads one file of one of 27 formats that was damaged (truncation, bit flips, zeroed, lost, duplicated or inserted "
                "blocks, replaced numbers), torn by a crash while being written, or whose reads fail; non-trivial: a damage, crash or read "
                "fault took effect",
        "measure": "hash of (format, damage kinds, resulting size, outcome)",
        "real": _IO_REAL, "stub": _IO_STUB,
        "assumptions": _ASSUME + ["for formats without a declared size only what the bytes say can be demanded: the reference parser is the "
                                  "standard library's own number parsing on in-memory bytes"],
    },
    "P04": {
        "world": "life", "level": "exploration", "quick_s": 60, "thorough_s": 700,
        "rule": "a run builds a pool of every kind of object (or a file), counts the allocations of one of about 180 catalogued operations (or of reading or writing one of 27 "
                "formats), then repeats it "
                "with chosen allocations failing (all of them when there are at most 6), once or for good; non-trivial: a failure was delivered "
                "inside the operation",
        "measure": "hash of (operation, failing allocation, once or for good) along the run",
        "real": ["all of src/*.cpp and include/*.hpp: vectors, dense, sparse, coordinate, list and block matrices, block operators, "
                 "iterative solvers, eigensolver", "LAPACK/BLAS"],
        "stub": ["operator new/delete: counted, filled, failing on demand (std::bad_alloc)"],
        "assumptions": ["memory is only obtained through operator new (true of the library; LAPACK's own buffers are not failed)",
                        "one fork per run: no state survives from one run to the next"],
    },
    "P07": {
        "world": "values", "level": "exploration", "quick_s": 50, "thorough_s": 700,
        "rule": "a run lets up to 4 workers' contributions (12 forms of Add) reach an assembler in a random order, with checkpoints, crashes back to the "
                "last checkpoint, reads while assembling, a size that becomes known late, and allocations that fail; non-trivial: a contribution arrived",
        "measure": "hash of (which contribution arrived, its form, size fixed) along the run",
        "real": ["CooMatrix, LilMatrix, DenseMatrix, SparseMatrix"],
        "stub": ["operator new/delete: counted, filled, failing on demand", "the workers and the assembler process: objects driven by the seeded scheduler"],
        "assumptions": ["values are dyadic rationals of few bits, so sums are exact in any order"],
    },
    "P08": {
        "world": "values", "level": "exploration", "quick_s": 60, "thorough_s": 700,
        "rule": "a run keeps 19 live objects of 7 classes and applies 2-25 value operations (copies, moves, swaps, views, resizes, element writes; a quarter "
                "algebra) to them, a failing allocation interrupting some, comparing every object with a reference model after every step; non-trivial: a step ran",
        "measure": "hash of the sequence of operations",
        "real": ["Vector, VectorView, BlockVector, DenseMatrix, SparseMatrix, CooMatrix, LilMatrix, BlockMatrix, BlockOperator", "LAPACK/BLAS"],
        "stub": ["operator new/delete: counted, filled, failing on demand"],
        "assumptions": ["values are dyadic rationals of few bits, so every operation is exact"],
    },
    "P15": {
        "world": "values", "level": "exploration", "quick_s": 60, "thorough_s": 700,
        "rule": "a run keeps 19 live objects of 7 classes and applies 2-25 operations (products, sums, transposes, sub-matrices, scaling, elimination, "
                "stacking, conversions; a quarter value operations) whose results feed later ones, a failing allocation interrupting some, comparing every "
                "object with a reference model after every step; non-trivial: a step ran",
        "measure": "hash of the sequence of operations",
        "real": ["Vector, VectorView, BlockVector, DenseMatrix, SparseMatrix, CooMatrix, LilMatrix, BlockMatrix, BlockOperator", "LAPACK/BLAS"],
        "stub": ["operator new/delete: counted, filled, failing on demand"],
        "assumptions": ["values are dyadic rationals of few bits, so every operation is exact"],
    },
    "P05": {
        "world": "threads", "level": "exploration", "quick_s": 45, "thorough_s": 700,
        "rule": "a run lets 2-4 threads perform 1-3 reading operations each (about 110 catalogued ones) on one shared pool of objects, the scheduler "
                "switching at chosen memory accesses, stalling threads and failing an allocation in one of them; non-trivial: the threads ran",
        "measure": "hash of (operations, thread resumed and where) along the run",
        "real": ["all of src/*.cpp, include/*.hpp and modules/sparsesolver, compiled with -fsanitize=thread", "UMFPACK, LAPACK, BLAS (uninstrumented; "
                 "the matrices and workspaces passed to LAPACK and BLAS are declared to the race detector)"],
        "stub": ["thread scheduler: one real thread at a time, every switch drawn from the seed", "mutexes, rwlocks, once, condition variables, function-local "
                 "statics, atomics: simulated, with happens-before", "operator new/delete: counted, failing on demand"],
        "assumptions": ["sequentially consistent memory: a weak-memory outcome is only seen as the data race it needs",
                        "code inside UMFPACK, LAPACK and libstdc++ runs without switches"],
    },
    "P06": {
        "world": "threads", "level": "exploration", "quick_s": 45, "thorough_s": 700,
        "rule": "a run gives each of 2-4 threads its own pool of objects and 1-4 operations (about 180, half of them modifying), the scheduler switching at "
                "chosen memory accesses, stalling threads and failing an allocation in one of them; non-trivial: the threads ran",
        "measure": "hash of (operations, thread resumed and where) along the run",
        "real": ["all of src/*.cpp, include/*.hpp and modules/sparsesolver, compiled with -fsanitize=thread", "UMFPACK, LAPACK, BLAS (uninstrumented)"],
        "stub": ["thread scheduler: one real thread at a time, every switch drawn from the seed", "mutexes, rwlocks, once, condition variables, function-local "
                 "statics, atomics: simulated, with happens-before", "operator new/delete: counted, failing on demand"],
        "assumptions": ["sequentially consistent memory", "code inside UMFPACK, LAPACK and libstdc++ runs without switches"],
    },
    "P09": {
        "world": "solve", "level": "exploration", "quick_s": 45, "thorough_s": 600,
        "rule": "a run keeps 3 solver objects of one kind (CG, preconditioned CG, MINRES, preconditioned MINRES) and applies 2-11 steps to them: creating, copying, "
                "moving, swapping, changing settings, solving, and solves in which the operator, preconditioner, inner product, allocator or entropy source fails; "
                "non-trivial: a solve was compared with a new object's and with the Krylov minimiser",
        "measure": "hash of (solver kind, iterations) along the run",
        "real": ["PCGSolver, MINRESSolver, PMINRESSolver, CG, PCG, MINRES, PMINRES, Operator, Vector"],
        "stub": ["operators, preconditioners and inner products: simulated, failing at a chosen application", "std::random_device", "operator new/delete"],
        "assumptions": ["systems of 1-7 unknowns (up to 21 now and then, 10-90 in long runs), mostly diagonally dominant, so that rounding does not decide the outcome"],
    },
    "P10": {
        "world": "solve", "level": "exploration", "quick_s": 15, "thorough_s": 200,
        "rule": "a run clicks, copies and reads up to 3 timers over 3-22 steps while simulated time passes (nothing to months) and the wall clock is set forward and "
                "back; non-trivial: an elapsed time was compared with true time",
        "measure": "hash of (step, magnitude of the time passed) along the run",
        "real": ["Timer, std::chrono (libstdc++)"],
        "stub": ["clock_gettime, gettimeofday, time: computed from simulated time", "operator new/delete"],
        "assumptions": ["steady clocks run at the true rate; the wall clock may be set at any moment"],
    },
    "P11": {
        "world": "solve", "level": "exploration", "quick_s": 15, "thorough_s": 200,
        "rule": "a run makes 2-11 Randomize calls (4 forms), half of them repeating an earlier one, with entropy drawn from the seed and sometimes failing; "
                "non-trivial: values were produced and checked",
        "measure": "hash of (form, seeded, entropy available, single value) along the run",
        "real": ["Randomize for double and int vectors and views, std random engines and distributions"],
        "stub": ["std::random_device: simulated entropy, may be unavailable", "operator new/delete"],
        "assumptions": ["one fork per run: no state survives from one run to the next"],
    },
    "P14": {
        "world": "solve", "level": "exploration", "quick_s": 40, "thorough_s": 500,
        "rule": "a run makes 1-5 factorisations (SVD, QR, Invert, eigenpairs with one reused solver) of matrices up to 12 x 12 (now and then 75 x 75), singular ones among them, while a chosen "
                "LAPACK call reports failure with a half-computed result, the workspace queries answer the least or more than needed, or memory runs out; "
                "non-trivial: a result was checked against the definition or a failure was delivered",
        "measure": "hash of (operation, failed LAPACK routine) along the run",
        "real": ["DenseMatrix::SVD, QR, Invert, EigenSolver", "LAPACK/BLAS (results altered only when a failure is injected)"],
        "stub": ["LAPACK status and workspace answers", "operator new/delete"],
        "assumptions": ["info > 0 and info < 0 are the ways LAPACK reports failure"],
    },
    "P12": {
        "world": "modules", "level": "exploration", "quick_s": 40, "thorough_s": 500,
        "rule": "a run partitions 1-2 graphs (paths, trees, grids, stars, random, disconnected; with and without diagonal, sorted or not) 1-6 times with drawn settings, "
                "repeating some, while METIS reports failures (before or after half writing its result), memory runs out or others use the C random numbers; "
                "non-trivial: a partition was checked or a failure delivered",
        "measure": "hash of (vertices, parts) along the run",
        "real": ["Partition, MakeAdjacencyInfo, RemoveEmpty", "METIS"],
        "stub": ["METIS status and half-written results", "operator new/delete"],
        "assumptions": ["integer edge weights of 1 or more, as the documentation asks"],
    },
    "P13": {
        "world": "modules", "level": "exploration", "quick_s": 40, "thorough_s": 500,
        "rule": "a run keeps up to 3 SparseSolver objects over 1-3 systems (regular, singular, empty) and creates, copies, moves, swaps, destroys them and solves with them "
                "over 2-13 steps, UMFPACK's or the library's memory failing in half the steps; non-trivial: a solution was checked or a failure delivered",
        "measure": "hash of (step, fault) along the run",
        "real": ["SparseSolver", "UMFPACK, AMD"],
        "stub": ["SuiteSparse malloc/calloc/realloc/free: counted, failing on demand", "operator new/delete"],
        "assumptions": ["regular systems are diagonally dominant up to row permutations"],
    },
    "P16": {
        "world": "mpi", "level": "exploration", "quick_s": 40, "thorough_s": 600,
        "rule": "a run lets 1-5 simulated ranks (one job, or two disjoint communicators at once) build and use distributed matrices and vectors in 2-11 steps, "
                "every rank comparing its piece of every object with a serial model after every step; non-trivial: the ranks ran",
        "measure": "hash of the sequence of operations and of the schedule",
        "real": ["all of modules/parlinalgcpp/src and include, and the core library under it"],
        "stub": ["MPI: simulated ranks, collectives and messages, delayed, reordered, eager or rendezvous as drawn", "hypre's vectors, matrices, communication "
                 "packages and matrix-vector products: rewritten after hypre 2.10 over the simulated MPI", "operator new/delete, hypre's memory: accounted"],
        "assumptions": ["the simulated hypre does what hypre 2.10 documents"],
    },
    "P17": {
        "world": "mpi", "level": "exploration", "quick_s": 35, "thorough_s": 600,
        "rule": "as P16, with most steps copying, moving, swapping, assigning and destroying distributed objects, in a growing list and through temporaries; "
                "non-trivial: the ranks ran",
        "measure": "hash of the sequence of operations and of the schedule",
        "real": ["all of modules/parlinalgcpp/src and include, and the core library under it"],
        "stub": ["MPI: simulated ranks, collectives and messages", "hypre's objects: rewritten after hypre 2.10, every allocation and free accounted",
                 "operator new/delete: accounted"],
        "assumptions": ["the simulated hypre does what hypre 2.10 documents"],
    },
    "P18": {
        "world": "mpi", "level": "exploration", "quick_s": 35, "thorough_s": 600,
        "rule": "a run lets 1-5 simulated ranks set up, copy, move, swap and destroy distributed solvers and smoothers and solve and find eigenvectors with them over "
                "3-20 steps, comparing every solution with a serial reference of the method; non-trivial: the ranks ran",
        "measure": "hash of the sequence of operations and of the schedule",
        "real": ["parsolvers, parsmoother, hypre_ops (l1 norms), parmatrix, paroperator, the core library under them"],
        "stub": ["MPI: simulated ranks, collectives and messages", "hypre's BoomerAMG, ParaSails, relaxation and LOBPCG: simple methods whose result depends on every "
                 "parameter hypre was given; its PCG and diagonal scaling: rewritten", "operator new/delete, hypre's memory: accounted", "std::random_device"],
        "assumptions": ["what is checked is that the wrapper passes hypre what it was told, not hypre's numerics"],
    },
    "P19": {
        "world": "args", "level": "exploration", "quick_s": 30, "thorough_s": 400,
        "rule": "a run draws 1-7 (now and then up to 48) options of 8 types and a command line (flags in any order, values of every spelling, repeated flags, "
                "unconvertible values, stray arguments, --help anywhere), then up to 12 requests, copies and printouts in any order while "
                "allocations and output fail; non-trivial: the command line was taken in",
        "measure": "hash of (arguments, requested options) along the run",
        "real": ["ArgParser (src/argparser.cpp, include/argparser.hpp)", "libstdc++ streams and number conversion"],
        "stub": ["the command line: arguments that vanish after construction", "operator new/delete: counted, failing on demand",
                 "an output that fails after some bytes"],
        "assumptions": ["whether a text is a value of a type is what the standard library's stream extraction of the whole text says",
                        "one fork per run: no state survives from one run to the next"],
    },
    "P20": {
        "world": "print", "level": "exploration", "quick_s": 25, "thorough_s": 400,
        "rule": "a run keeps 1-3 objects of 13 kinds and one stream over 1-8 steps: printing them in every form and layout, changing entries, changing the "
                "notation of the stream, with the device failing at a drawn byte (short or throwing, once or for good, exceptions switched on or off) or "
                "an allocation failing; non-trivial: something was printed",
        "measure": "hash of (step, notation, kind of object) along the run",
        "real": ["Print, PrintDense and operator<< of Vector, VectorView, BlockVector, DenseMatrix, SparseMatrix, CooMatrix, LilMatrix, BlockMatrix and std::vector",
                 "libstdc++ streams and number formatting"],
        "stub": ["the output device: a stream buffer that fails after some bytes", "operator new/delete: counted, filled, failing on demand"],
        "assumptions": ["how a number is written is what the standard library makes of the stream's precision and notation; blanks and empty lines do not matter"],
    },
}
