# Executed by catalog.py: one prop() per property.

prop("P01", "Saved vectors and matrices read back as what was saved",
     "Writing a vector or a sparse matrix in any supported format and reading the file back with the matching reader yields the same "
     "sizes, sparsity and values (bit for bit in the binary formats, to the written precision of 15 or more significant digits in text), for every value "
     "type the format supports, including empty ones. This holds however the operating system splits the transfers (short reads and writes, "
     "interrupted calls) and whatever the file held before.",
     ["inputs", "schedules"],
     "every format, value type, content and file size, and every legal splitting of the transfers into partial and interrupted system calls",
     "The tests write and read a few small fixed files on a real disk that never splits a transfer; several formats have no round-trip test at all.",
     ["include/parser.hpp"],
     [("readers and writers for every format", "include/parser.hpp: ReadText/WriteText ... ReadMTX/WriteMTX")],
     ["return value of the reader against the object written", "file contents after overwriting a longer file"],
     note="Seeded sampling of contents and transfer splittings against the saved object itself; assumes the simulated libc file calls behave as POSIX allows.")

prop("P02", "A writer that returns normally has stored the complete file",
     "If a function that writes a file returns without an exception, the complete data was accepted by the operating system, including the close; if any "
     "of it could not be opened, written or closed, the caller gets an exception. A failed write leaks neither memory nor the file descriptor, leaves the object "
     "unchanged, and writing again once the disk is healthy succeeds.",
     ["fault_sequences", "inputs"],
     "every format and content, and every write, byte count, open or close at which the disk fails (ENOSPC, EIO, EDQUOT), once or persistently",
     "A unit test has no way to make the nth write or the close fail; the existing ones only ever see a healthy disk.",
     ["include/parser.hpp"],
     [("stream state check after writing", "include/parser.hpp: CloseOutput and every Write* function")],
     ["whether the call threw, against what the simulated disk accepted"],
     note="Seeded sampling of fault points; the oracle is the byte-exact content a fault-free write of the same object leaves on the simulated disk.")

prop("P03", "Readers reject damaged, torn or unreadable files and never invent data",
     "For any bytes in a file, a reader either throws an exception or returns a structurally valid object saying exactly what those bytes say in that format; "
     "a file that is missing, cannot be read to its end, or is inconsistent with its own declared sizes is refused. It never reads or writes "
     "out of bounds, hangs, aborts, or leaks memory or file descriptors.",
     ["inputs", "crash_points", "fault_sequences"],
     "every file content, including those left by a crash at any write, truncation, lost, duplicated or corrupted blocks, and every read call failing",
     "Tests read well-formed files; a torn, damaged or failing file is never presented, and out-of-bounds effects need sanitised runs over many damages.",
     ["include/parser.hpp", "include/coomatrix.hpp", "include/sparsematrix.hpp"],
     [("size, index and stream-state validation", "include/parser.hpp: CloseInput, VerifyIndices, VerifyCSR, header checks")],
     ["outcome of the reader against an independent parser of the same bytes", "address and undefined-behaviour sanitizers"],
     note="Seeded sampling of damages, crash points and read faults against an independent reference parser.")

prop("P04", "Running out of memory is survivable everywhere",
     "If any memory allocation made by any operation of the library fails, at any point inside it, the operation either completes with its normal "
     "result or throws a standard exception: the program is not terminated, nothing is leaked or freed twice, objects the operation only reads are "
     "unchanged, and objects it was modifying remain valid - they can be read, assigned and destroyed, and the same operation on restored operands "
     "then gives its normal result. Reusable solver objects keep working after a failed use.",
     ["fault_sequences", "inputs"],
     "every operation (construction, copy, move, assignment, products, conversions, factorisations, solves, printing), every operand, every failing allocation",
     "No test makes an allocation fail; each operation has many allocation sites, and only failing each of them in turn shows what is left behind.",
     ["include/vector.hpp", "include/densematrix.hpp", "include/sparsematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "include/blockmatrix.hpp",
      "include/blockvector.hpp", "include/blockoperator.hpp", "include/solvers.hpp", "include/eigensolver.hpp", "src/densematrix.cpp",
      "src/eigensolver.cpp", "src/solvers.cpp", "src/blockoperator.cpp"],
     [("RAII storage, copy-and-swap assignment, resize before recording sizes", "copy constructors and operator= of every class; DenseMatrix::SetSize; EigenSolver::AllocateWorkspace")],
     ["exception or result of each operation", "bytes still allocated afterwards", "contents of every operand, and the result of repeating the operation"],
     note="Seeded sampling of operand, operation and failing allocation; allocation failure is injected in operator new, results are compared with a fault-free run.")

prop("P07", "An assembled matrix is the sum of its contributions, whatever their order",
     "A coordinate or list matrix filled by any sequence of contributions (entries, symmetric entries, dense blocks, row and column vectors, scaled or not, "
     "with duplicate coordinates) equals the sum of exactly those contributions, whatever their order and whether the size is given first, later or never. This "
     "holds at any moment of the assembly, through copies, moves and swaps used as checkpoints and restored after a crash, and both classes agree in "
     "their sparse form, dense form, products and size.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "every set of contributions, arrival order, checkpoint and crash point, and failing allocation",
     "The tests assemble a few fixed matrices in one fixed order with the size known beforehand and read them once at the end.",
     ["include/coomatrix.hpp", "include/lilmatrix.hpp", "include/densematrix.hpp", "src/densematrix.cpp"],
     [("entry lists summed on conversion", "include/coomatrix.hpp and include/lilmatrix.hpp: Add, AddSym, SetSize, FindSize, ToSparse, ToDense")],
     ["ToSparse, ToDense, Rows, Cols, Mult, MultAT of the assembled matrices against the sum of the delivered contributions"],
     note="Seeded sampling of contributions, arrival orders, crashes and allocation failures against an exact reference sum.")

prop("P08", "Copies are independent, views alias their source, moves and swaps transfer",
     "Through any history of copying, moving, swapping, assigning (also to itself), resizing and writing, every vector and matrix holds exactly the value the "
     "history gives it: a copy never changes when its source does, a view reads and writes the memory it was made from and nothing else, a moved-from object "
     "can be assigned again, assigning to a Vector takes over the size of the source, and an operation interrupted by a lack of memory changes nothing but its target.",
     ["histories", "inputs", "fault_sequences"],
     "every sequence of operations over any number of live objects of any sizes (including empty), and every failing allocation",
     "Aliasing and stale-size mistakes show only in particular sequences of copies, moves, swaps and resizes; the tests make one or two per class.",
     ["include/vector.hpp", "include/vectorview.hpp", "include/blockvector.hpp", "include/densematrix.hpp", "include/sparsematrix.hpp", "include/coomatrix.hpp",
      "include/lilmatrix.hpp", "include/blockmatrix.hpp", "include/operator.hpp"],
     [("value semantics over owned storage", "copy/move constructors, operator=, swap, SetSize of every class; VectorView::SetData")],
     ["the full contents of every live object after every step"],
     note="Seeded sampling of operation histories over 19 live objects, each compared with an exact reference model after every step.")

prop("P15", "In every sequence, operations give the exact result and touch nothing else",
     "Products (matrix and vector, transposed or not, in every calling form), sums, transposes, sub-matrix extraction and replacement, row and column scaling, "
     "elimination, stacking, sorting, permutation, conversion between formats and reductions yield exactly the mathematical result, for any sizes "
     "including empty ones and whatever earlier operations produced the operands; reused output arguments and workspaces never influence the result, operands and "
     "unrelated objects stay unchanged, and repeating an operation after a lack of memory gives the same result.",
     ["histories", "inputs", "fault_sequences"],
     "every sequence of operations, operand sizes and sparsity patterns (empty rows, unsorted rows, explicit zeros), and every failing allocation",
     "The tests apply operations to a handful of fixed small operands, mostly freshly built and without reused outputs; interactions through leftover state need histories.",
     ["include/densematrix.hpp", "src/densematrix.cpp", "include/sparsematrix.hpp", "src/sparsematrix.cpp", "include/vectorview.hpp", "include/blockmatrix.hpp",
      "include/blockoperator.hpp", "src/blockoperator.cpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "include/operator.hpp"],
     [("kernels over CSR and column-major storage", "SparseMatrix::Mult/MultAT/Transpose/GetSubMatrix/AddSubMatrix/Eliminate*; DenseMatrix::dgemm/GetSubMatrix/SetSubMatrix; Operator::Mult")],
     ["the result of each operation and the contents of every other live object"],
     note="Seeded sampling of operation histories in exact arithmetic against a reference model.")

prop("P05", "Objects may be read by many threads at once",
     "Any number of threads may apply const operations (products, conversions, copies, sub-matrices, reductions, printing, solving with solvers of their own, and "
     "solving with one shared factorisation) to the same vectors, matrices, block operators and SparseSolver at the same time: there is no data race, no deadlock, every "
     "operation gives the result it gives alone, the shared objects do not change, and running out of memory in one thread does not disturb the others. "
     "(Mult of an iterative solver object keeps state and is excluded, as are unseeded random numbers.)",
     ["schedules", "fault_sequences", "inputs"],
     "every interleaving of the memory accesses of the threads, every choice of operations and operands, every failing allocation",
     "The tests are single threaded; hidden shared scratch in a const operation gives right answers in every sequential test.",
     ["include/operator.hpp", "include/sparsematrix.hpp", "include/densematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "include/blockmatrix.hpp",
      "include/blockoperator.hpp", "src/blockoperator.cpp", "src/densematrix.cpp", "include/vectorview.hpp", "modules/sparsesolver/src/sparsesolve.cpp"],
     [("const operations keep their scratch local", "const member functions of every class; src/blockoperator.cpp: Mult; modules/sparsesolver/src/sparsesolve.cpp: Mult")],
     ["happens-before of every memory access", "results of every operation against the serial ones", "contents of the shared objects"],
     note="Seeded sampling of schedules under a simulated scheduler with happens-before race detection; assumes sequential consistency.")

prop("P06", "Threads working on their own objects do not disturb each other",
     "Threads that create, modify, factorise, solve with and destroy objects of their own - including copies and moved or copied parts of objects other threads also "
     "copied, seeded random vectors, eigenvalue and iterative solvers - get exactly the results and final values each would get alone: the library has no hidden global "
     "or shared mutable state, no data race and no deadlock, also when one thread runs out of memory.",
     ["schedules", "fault_sequences", "inputs"],
     "every interleaving of the memory accesses of the threads, every history of operations in each, every failing allocation",
     "The tests are single threaded; a static buffer or cache shared between objects is invisible to them.",
     ["include/vector.hpp", "include/vectorview.hpp", "include/densematrix.hpp", "src/densematrix.cpp", "include/sparsematrix.hpp", "include/solvers.hpp", "src/solvers.cpp",
      "include/eigensolver.hpp", "src/eigensolver.cpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "modules/sparsesolver/src/sparsesolve.cpp"],
     [("no state outside the objects", "all sources; VectorView::Randomize builds its own generator; EigenSolver and the iterative solvers own their workspaces")],
     ["happens-before of every memory access", "results and final object values against a serial execution of each thread's history"],
     note="Seeded sampling of schedules under a simulated scheduler with happens-before race detection; assumes sequential consistency.")

prop("P09", "Reused iterative solvers solve as new ones do, and survive interrupted solves",
     "A CG, preconditioned CG, MINRES or preconditioned MINRES object gives, in every solve, exactly the iterates a new object with the same settings gives, whatever was done "
     "with it before: other solves, copies, moves, swaps, changed tolerances, iteration limits, operators or preconditioners, or solves in which the operator, preconditioner, "
     "inner product or allocator failed. Such a failure reaches the caller unchanged. After k iterations the solution is the minimiser over the k-th Krylov space; the iteration stops "
     "as soon as, and not before, the residual meets the tolerance, never exceeds the limit, never changes the right hand side, prints a line per iteration if verbose and nothing otherwise, and solves every well-posed system from any guess, random or exact.",
     ["histories", "fault_sequences", "inputs"],
     "every history of the objects, every application at which an operator, preconditioner, inner product or allocation fails, every system and initial guess",
     "The tests solve one or two fixed systems once with fresh objects and operators that never fail, and compare only with a loose tolerance.",
     ["include/solvers.hpp", "src/solvers.cpp", "include/operator.hpp", "src/operator.cpp"],
     [("mutable workspaces and settings of the solver objects", "src/solvers.cpp: PCGSolver/MINRESSolver/PMINRESSolver::Mult, swap, copy and move"),
      ("free functions building a solver and a guess", "src/solvers.cpp: CG, PCG, MINRES, PMINRES")],
     ["solution, iteration count and exception of every solve", "applications seen by the simulated operator"],
     note="Seeded sampling of histories on systems of 1-90 unknowns; oracle: a new object bit for bit, and the Krylov minimiser computed from its definition in extended precision.")

prop("P10", "Timers report the time that really went by",
     "The total and each lap of a Timer equal the time that passed between the clicks, never negative, and the laps add up to the total, however the wall clock "
     "of the machine is set forward or back in between, for copied and restarted timers, and after a click that failed for lack of memory.",
     ["schedules", "histories", "fault_sequences"],
     "every sequence of clicks, readings and copies, every amount of time between them, every adjustment of the wall clock",
     "A test cannot set the clock; the existing one measures a sleep on an undisturbed machine.",
     ["include/timer.hpp", "src/timer.cpp"],
     [("clock the clicks are taken from", "src/timer.cpp: Timer::Click"), ("differences of clicks", "src/timer.cpp: TotalTime, operator[]")],
     ["TotalTime and operator[] after every step, against simulated true time"],
     note="Seeded sampling of click histories and clock adjustments under a simulated clock (clock_gettime, gettimeofday, time).")

prop("P11", "Random vectors: seeded ones are reproducible, all stay in range",
     "Randomize fills exactly the given vector with values between the given bounds. With a seed the values depend on nothing but the arguments - not on earlier calls, other random "
     "streams or the machine's entropy source, which may even be unavailable; without one they differ from call to call with the entropy. The values of one call do not repeat each other beyond chance. A call that cannot get entropy throws and changes nothing.",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of calls, sizes (including none), bounds, seeds, entropy values and failures of the entropy source",
     "Tests call it once or twice on a machine with entropy and do not compare repeated seeded calls after other calls.",
     ["include/vectorview.hpp", "src/vectorview.cpp"],
     [("engine built per call", "src/vectorview.cpp: Randomize")],
     ["the vector and its surroundings after each call, against earlier calls with the same arguments"],
     note="Seeded sampling of call histories with a simulated std::random_device.")

prop("P12", "A partition covers the graph as METIS found it, or an error is reported",
     "Partition assigns every vertex to one of at most the requested number of parts, numbered without gaps and none of them empty, grouping vertices exactly as METIS did for the graph "
     "of the matrix: its off-diagonal entries (each of weight one whatever is stored, or weighted by their absolute value on request), whether or not it stores a diagonal, sorts its rows or is connected, with the requested number of parts, balance "
     "and contiguity. When METIS fails the caller gets an exception, never a partition. The result depends only on the arguments, not on earlier calls, random number use, or failures.",
     ["inputs", "histories", "fault_sequences"],
     "every graph, number of parts and setting, every sequence of calls, every failure status of METIS and failing allocation",
     "The tests partition a few small meshes with a METIS that always succeeds, and cannot make it fail.",
     ["modules/partition/include/partition.hpp"],
     [("adjacency without diagonal", "modules/partition/include/partition.hpp: MakeAdjacencyInfo"), ("status and renumbering", "modules/partition/include/partition.hpp: Partition, RemoveEmpty")],
     ["the returned partition or exception", "the graph and options METIS receives, and its answer"],
     note="Seeded sampling of graphs, settings and METIS failures; METIS itself is the reference for the grouping.")

prop("P13", "A SparseSolver solves its own system through any history, or reports failure",
     "Every SparseSolver solves (transposed too) the system of the matrix it was built from, whatever happened to it: copies, moves, swaps, assignments, the destruction of the objects "
     "it came from. A matrix that cannot be factored, or memory running out inside UMFPACK or the library, gives an exception and leaves every object as it was (only a matrix without any entries is taken: its solver gives zeros); no wrong solution is ever "
     "returned, and all memory of the factorisations is freed exactly once.",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of object operations and solves over regular, singular and empty matrices, every failing allocation inside UMFPACK and the library",
     "The tests factor one small regular matrix and solve once; failures inside UMFPACK and ownership of its opaque factors never come up.",
     ["modules/sparsesolver/include/sparsesolve.hpp", "modules/sparsesolver/src/sparsesolve.cpp"],
     [("ownership of the numeric factors", "modules/sparsesolver/src/sparsesolve.cpp: Init, copy and move constructors, swap, destructor"),
      ("status of every UMFPACK call", "modules/sparsesolver/src/sparsesolve.cpp: Init, Mult, MultAT")],
     ["residual of every solution", "exceptions", "blocks held from UMFPACK's and the library's allocators at the end"],
     note="Seeded sampling of object histories and allocation failures (SuiteSparse allocator hooks and operator new); oracle: residuals of the original matrix.")

prop("P14", "A factorisation is right or an error, and one failure does not spoil the next",
     "SVD, QR, Invert and the eigensolver return what their definition says for every matrix - right sizes, singular values, orthonormal factors, a true inverse, ascending eigenvalues with "
     "orthonormal eigenvectors down to the requested tolerance or count - with whatever workspace LAPACK asks for. When LAPACK reports failure, the matrix is singular, or memory runs out, the caller gets an exception "
     "instead of a result. Operands are unchanged, and a reused EigenSolver or result pair behaves like a new one after any earlier sizes and failures.",
     ["fault_sequences", "histories", "inputs"],
     "every matrix, sequence of calls, failing LAPACK call and status, workspace answer, and failing allocation",
     "LAPACK practically never fails on test matrices, so no test sees the error paths; reuse across sizes and after failures is not tested.",
     ["src/densematrix.cpp", "include/densematrix.hpp", "src/eigensolver.cpp", "include/eigensolver.hpp"],
     [("info of every LAPACK call", "src/densematrix.cpp: SVD, QR, Invert; src/eigensolver.cpp: Solve"), ("reused workspaces", "src/eigensolver.cpp: AllocateWorkspace")],
     ["result or exception of every call", "operands afterwards", "the status LAPACK reported"],
     note="Seeded sampling of matrices (1-12 rows mostly, up to 75), histories and injected LAPACK failures; oracle: the definitions, checked to rounding.")

prop("P16", "A distributed operation gives the serial result, however it is distributed",
     "Splitting, products and transposed products in every calling form, transposes, matrix products and triple products, sums and differences, scaling, constants, diagonal shifts, row elimination, "
     "norms, non-zero counts, and vector sums, norms, inner products and scalings of distributed objects equal those of the undistributed ones, for every division of rows and columns over "
     "the processes (also when processes other than the last own nothing, and in a world of one), with reused workspaces and markers, on every process alike, and however late messages and processes are. Every process makes the same sequence of "
     "collective calls, so nothing deadlocks, no message or request is left behind, and nothing is written to the standard output that was not asked for.",
     ["schedules", "inputs", "histories"],
     "every number of processes, division of rows and columns, operand, sequence of operations, and order and delay of messages",
     "The module's tests need an MPI launcher, run one fixed matrix and compare a few numbers; they are not part of the test suite, and a fast quiet network shows one order of messages.",
     ["modules/parlinalgcpp/include/parmatrix.hpp", "modules/parlinalgcpp/src/parmatrix.cpp", "modules/parlinalgcpp/src/parvector.cpp", "modules/parlinalgcpp/src/parutilities.cpp",
      "modules/parlinalgcpp/src/parcommpkg.cpp", "modules/parlinalgcpp/src/paroperator.cpp"],
     [("diagonal and off-diagonal blocks and the column map", "modules/parlinalgcpp/src/parmatrix.cpp: constructors, Mult, Transpose, RAP, ParSub/ParAdd, EliminateRow"),
      ("what is exchanged with whom", "modules/parlinalgcpp/src/parcommpkg.cpp"),
      ("splitting and collectives", "modules/parlinalgcpp/src/parutilities.cpp; modules/parlinalgcpp/src/parvector.cpp")],
     ["the gathered result of each operation on every process", "collective calls of every process", "messages and requests left at the end"],
     note="Seeded sampling of 1-5 simulated processes, message delays and schedules; MPI and the used part of hypre are stand-ins written from their documented behaviour.")

prop("P17", "Distributed objects are independent values and own what they hold once",
     "Copying, moving, swapping, assigning and destroying distributed matrices, vectors and communication packages, in any order and on default constructed objects, leaves every other object "
     "as it was and makes the target equal to the source; all objects remain usable by every operation. Every hypre object is created, used and destroyed exactly when the object that owns it exists: nothing is freed "
     "twice, used after it was freed, or left at the end.",
     ["histories", "schedules", "inputs"],
     "every history of constructions, copies, moves, swaps, assignments, in-place changes and destructions on every number of processes",
     "Double frees, sharing and stale wrappers appear only in particular histories of copies and moves; the module's tests make one or two copies of one matrix.",
     ["modules/parlinalgcpp/include/parmatrix.hpp", "modules/parlinalgcpp/src/parmatrix.cpp", "modules/parlinalgcpp/src/parvector.cpp", "modules/parlinalgcpp/include/parvector.hpp",
      "modules/parlinalgcpp/include/parcommpkg.hpp", "modules/parlinalgcpp/src/parcommpkg.cpp"],
     [("hypre matrix wrapped around the blocks", "modules/parlinalgcpp/src/parmatrix.cpp: HypreCreate, HypreDestroy, swap, copy and move constructors"),
      ("hypre vector around a view", "modules/parlinalgcpp/src/parvector.cpp")],
     ["contents of every live object after every step", "objects of the hypre stand-in, addresses they refer to, and heap at the end"],
     note="Seeded sampling of histories over a pool of distributed objects on simulated processes; hypre is a stand-in that accounts for every object.")

prop("P18", "Distributed solvers apply what they were set up with, through any history",
     "A distributed solver, preconditioner, smoother or eigensolver passes to hypre exactly the matrix, settings and preconditioner it was given - both set-up and apply - and gives in every use the result "
     "a new one with the same settings gives, whatever was done to it: copies, moves, swaps, assignments, changed settings, destruction of the object it came from. It solves to its tolerance "
     "within its iteration limit, and releases what it holds exactly once.",
     ["histories", "schedules", "inputs"],
     "every history of solver objects, settings, systems, preconditioners and smoothing options on every number of processes",
     "The module's tests build each solver once and look at the norm of one solution; settings lost in a copy or a preconditioner never applied change nothing they look at.",
     ["modules/parlinalgcpp/src/parsolvers.cpp", "modules/parlinalgcpp/include/parsolvers.hpp", "modules/parlinalgcpp/src/parsmoother.cpp", "modules/parlinalgcpp/include/parsmoother.hpp",
      "modules/parlinalgcpp/src/hypre_ops.cpp", "modules/parlinalgcpp/include/hypre_ops.hpp"],
     [("hypre solver handles and function pointers", "modules/parlinalgcpp/src/parsolvers.cpp: constructors, swap, Set*; modules/parlinalgcpp/src/parsmoother.cpp"),
      ("callbacks handed to LOBPCG", "modules/parlinalgcpp/src/hypre_ops.cpp")],
     ["what the hypre stand-in received and answered", "solutions against those of new objects", "handles alive at the end"],
     note="Seeded sampling of histories of solver objects on simulated processes; hypre's numerical methods are stand-ins (CG and simple smoothers run, AMG/ParaSails record their set-up).")

prop("P19", "A command line sets each option exactly as given",
     "Every option a program asks the ArgParser for gets exactly the value typed for it - numbers of every type and spelling, strings of any content including blanks and nothing - a flag without value "
     "toggles a boolean (whatever follows it), and options not typed keep their default, whatever the order of the arguments and of the requests and wherever --help stands. A flag typed twice (the first counts), an option "
     "requested twice, a value that is none of its type (the default stays) and an argument without a flag are errors: IsGood() is false and ShowErrors names each; --help also makes IsGood() false. Nothing typed "
     "ends the program. ShowHelp and ShowOptions list every requested option, also after output failed. The arguments need not outlive the constructor; copies are independent; running out of memory throws "
     "std::bad_alloc and leaks nothing.",
     ["inputs", "histories", "fault_sequences"],
     "every command line, every order of requests, copies and printouts, and every allocation or output failure",
     "The test parses one fixed command line with well-formed values in one order, and looks at two errors.",
     ["include/argparser.hpp", "src/argparser.cpp"],
     [("flags, values, errors and requests of the parser", "src/argparser.cpp: constructor, Parse<bool>, Parse<std::string>, Show*; include/argparser.hpp: Parse<T>")],
     ["the requested variable after every request", "IsGood, ShowErrors, ShowHelp and ShowOptions after every step", "heap at the end"],
     note="Seeded sampling of command lines and request histories against a model; whether a text is a value is what extraction by the standard library from the whole text says.")

prop("P20", "What is printed is what is held, or the stream or an exception tells",
     "Printing a vector or matrix (Print, PrintDense, operator<<) shows the label and exactly the stored entries, each at its position and in the notation and precision of the stream "
     "(or the ones asked for), whatever was done before with the object and the stream. If memory runs out or the output fails part way, the stream's state or an exception says so, and "
     "what did arrive is the beginning of the full text. Neither the object nor the stream's formatting changes, nothing leaks, and printing again on a healthy stream is complete.",
     ["histories", "inputs", "fault_sequences"],
     "every object of every kind and size, every notation, every history of the stream, every byte at which the output fails and every failing allocation",
     "No test looks at what is printed; none has an output that fails or runs out of memory while printing.",
     ["include/vectorview.hpp", "include/densematrix.hpp", "src/densematrix.cpp", "include/sparsematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "include/blockmatrix.hpp"],
     [("Print, PrintDense and operator<<", "include/vectorview.hpp, sparsematrix.hpp, coomatrix.hpp, lilmatrix.hpp, blockmatrix.hpp; src/densematrix.cpp: Print")],
     ["text that reached the output, token by token", "state and format of the stream", "contents of the object afterwards"],
     note="Seeded sampling of objects, notations and fault points; the expected text is formatted from a model by the standard library.")
