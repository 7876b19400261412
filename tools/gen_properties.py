"""Writes /verif/properties.jsonl (kept as code so that it stays easy to edit)."""
import json, os
R = []
def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    R.append(d)

VS='modred/vectorspace.py'; PA='modred/parallel.py'; UT='modred/util.py'; VE='modred/vectors.py'
POD='modred/pod.py'; BPOD='modred/bpod.py'; DMD='modred/dmd.py'; ERA='modred/era.py'; OKID='modred/okid.py'; LTI='modred/ltigalerkinproj.py'; RED='modred/reductions.py'

# ---------------------------------------------------------------- parallel
P("P01", "Parallel inner product arrays equal the entrywise definition",
  "However many workers and nodes run and however small the per-node memory limit is, the array of inner products of two lists of vectors (and the symmetric array of one list with itself) has as entry (i, j) the user's inner product of the i-th row vector with the j-th column vector, conjugation included, and every worker returns the same complete array. This holds for every pair of list lengths, real or complex vectors, integer or floating-point inner products, and every order in which messages are delivered.",
  ["configurations", "inputs", "schedules"],
  "For all worker counts, node layouts, memory limits, numbers of row and column vectors, scalar types, and all message interleavings and buffering behaviours.",
  "The tests run one layout of 3 workers on one node (and serial) with a handful of random sizes; the chunking and the ring of messages has different paths for every combination of list lengths, worker count and memory limit, and MPI picks one schedule per run.",
  [VS, PA], [("ring exchange of column chunks, triangular/square/rectangular chunks, sum of partial arrays", VS), ("task assignment", PA)])
P("P02", "Parallel linear combinations produce each output exactly once and right",
  "However many workers and nodes run and however small the memory limit is, computing linear combinations through handles stores into the j-th output handle, exactly once and by exactly one worker, the sum over basis vectors of coefficient (i, j) times basis vector i. When a list of column indices is given the outputs correspond, in the given order and with repetitions, to those columns, and no other handle is written.",
  ["configurations", "inputs", "schedules"],
  "For all worker counts, node layouts, memory limits, numbers of basis and sum vectors, coefficient arrays (1D and 2D), index lists and message interleavings.",
  "Tests use random sizes with 1 and 3 workers and never observe who writes what or how often; the passes over chunks differ for every combination of sizes, limits and worker counts.",
  [VS, PA], [("ring exchange of basis chunks, layer accumulation, put loop", VS)])
P("P03", "No parallel operation deadlocks, hangs a worker or leaves stray messages",
  "Every collective operation offered for parallel use (inner product arrays, linear combinations, each decomposition and mode computation, time derivatives, saving and loading, reductions) terminates on every worker whether the MPI library buffers messages or makes senders wait for their receivers. After it returns no message or request is left pending, so that operations can be chained in any order.",
  ["schedules", "configurations", "inputs"],
  "For all interleavings of the workers, all choices of buffered or synchronous delivery per message, and all worker counts and problem sizes within bounds, including fewer vectors than workers.",
  "The MPI library used by the tests buffers small messages, so an unsafe send order never blocks there; a test observes one schedule and only the sizes it picks.",
  [VS, PA, RED], [("isend/recv/Wait/barrier order in the rings", VS), ("tree reduction", RED), ("barriers and broadcasts", PA)])
P("P04", "Results are visible to every worker once a parallel call returns",
  "When a parallel operation that stores vectors or arrays returns on any worker, every vector and array it stores has been stored, so any worker can immediately read it. No worker reads or writes an element that another worker may concurrently write.",
  ["schedules", "configurations"],
  "For all interleavings of the workers: each store happens before every worker's return from the call.",
  "A missing synchronisation shows only if a fast worker reads before a slow one writes; the tests run one timing and rarely read what another worker wrote.",
  [VS, LTI, POD, BPOD, DMD], [("final barrier of lin_combine", VS), ("barrier after derivatives", LTI), ("barrier after put_*", POD)])
P("P05", "All workers hold identical decompositions and agree on derived results",
  "After a parallel decomposition every worker holds bitwise identical eigenvalues, singular values, eigenvectors and derived coefficients, even when the linear algebra routine is free to return eigenvectors of different sign or order on different workers. Modes computed afterwards therefore belong to one single decomposition.",
  ["configurations", "schedules"],
  "For all worker counts and all per-worker choices of eigenvector signs and scalings.",
  "On the homogeneous machine running the tests every worker computes the same bits, so results computed redundantly instead of broadcast look right.",
  [POD, BPOD, DMD, PA], [("compute on rank zero and broadcast", PA)])
P("P06", "Custom reductions equal the rank-ordered fold of all contributions",
  "For every communicator size and root, reduce and allreduce return the contributions of all ranks combined in rank order by the given associative operation, scan returns the inclusive and exscan the exclusive prefix on each rank, including non-commutative operations and the min/max-with-location operations. Only the root receives the result of reduce.",
  ["configurations", "inputs", "schedules"],
  "For all communicator sizes, roots, associative operations and message interleavings.",
  "There is no test of these functions; indirectly one size (3) with addition and root 0 is used.",
  [RED], [("binomial tree and recursive doubling", RED)])
P("P07", "Task assignment gives every task to exactly one worker, in order",
  "Assigning a list of tasks to workers partitions the list into one consecutive, possibly empty, run per worker, in order: no task is lost, duplicated or reordered, whatever the weights. With equal weights no worker is left idle while another has two or more tasks, and no worker gets more than its fair share plus one task.",
  ["inputs", "configurations"],
  "For all task lists, non-negative task weights and worker counts.",
  "Tests check fixed lists of tasks and weights for one worker count, against values computed by the same formula.",
  [PA], [("cumulative weight split", PA)])
P("P08", "The memory limit bounds how many vectors a worker holds at once",
  "While computing inner products or linear combinations, the number of vectors simultaneously alive on a worker never exceeds its share of the per-node limit (at least three) by more than a small constant of temporaries, independent of how many vectors are processed. Each vector is retrieved no more often than the chunking implied by the limit requires.",
  ["configurations", "inputs", "histories"],
  "For all list lengths, limits, worker counts and node layouts; checked at every instant of the run.",
  "Tests never measure live vectors; all test data fits into memory.",
  [VS], [("max_vecs_per_proc, row/column/sum chunks, del of chunks", VS)])
P("P09", "Results do not depend on the clock or on verbosity",
  "Timing, progress printing and the verbosity setting only affect what is printed. For any readings of the clock, including different readings on different workers, every operation returns the same results, stores the same vectors and terminates.",
  ["schedules", "fault_sequences", "configurations"],
  "For all clock behaviours (progress message at any subset of the polling points, equal or jumping time stamps, differing per worker) and verbosity levels.",
  "Tests finish long before the first progress message is due, so the progress branches inside the communication loops are never executed.",
  [VS], [("progress branches in inner product and linear combination loops", VS)])
P("P10", "Parallel save and load: one writer, every worker gets the data",
  "In a parallel run every put of an array calls the user's put function exactly once, on rank zero only, with the complete array; every get calls the user's get function exactly once, on rank zero only, and leaves every worker with the loaded data. A decomposition saved by one object and loaded by another yields the same modes and coefficients.",
  ["configurations", "schedules", "histories"],
  "For all worker counts, all put/get methods of all decomposition and projection objects, and all interleavings.",
  "Tests look at the file content after the fact; several workers writing the same file usually leave the right content, and workers reading by themselves usually succeed.",
  [POD, BPOD, DMD, LTI, PA], [("put on rank zero then barrier", POD), ("call_and_bcast", PA)])
P("P11", "Parallel computations give the results of a serial run",
  "A decomposition, projection, set of modes or time derivatives computed by any number of workers on any nodes, with any memory limit, equals what the same call on one worker gives: the same eigenvalues or singular values, correlation and Hankel arrays, number of modes, coefficients, spectrum, reduced matrices, and as stored outputs the requested modes in the requested order, each mode up to its phase and everything up to rounding.",
  ["configurations", "inputs", "schedules"],
  "For all worker counts, node layouts, memory limits, POD, BPOD, DMD, total-least-squares DMD and Galerkin projection, paired or sequential data, numbers of vectors, inputs and outputs, mode selections, truncations, verbosity, and all message orders.",
  "The tests compare with array code for one size and worker count per run; selections of modes, truncation and memory limits are hardly combined, and results for different numbers of workers are never compared.",
  [POD, BPOD, DMD, LTI, VS, PA], [("decompositions on all workers from a shared correlation array", POD), ("handle-based modes and coefficients", VS)])
# ---------------------------------------------------------------- handles
P("H01", "A vector handle always delivers (stored - base) * scale",
  "A get from a handle returns the vector most recently stored there, minus the base vector its base handle currently delivers if one is given, times the scale factor if one is given. The result does not depend on which other handles the same process read or wrote before, and neither get nor put alters a stored or returned vector.",
  ["histories", "inputs"],
  "For all sequences of get and put operations over several handles of every kind, with and without base handles and scale factors.",
  "Tests do one put and one get per handle; the base vector cache is shared by all handles of a process, so errors need a particular sequence of operations on several handles.",
  [VE], [("class-level cache of the base vector", VE)],
  state=[("cached base vector and handle", "last base vector used by any handle in the process", VE)])
P("H02", "Saving and loading an array returns the same array",
  "An array written to a text file and loaded back with the matching real/complex choice is equal to the original in every element, for any real, integer, single-precision or complex data, any memory layout, any delimiter, and any 1D or 2D shape (1D arrays come back as columns). The file has the documented layout, and the arrays written are not altered.",
  ["inputs"],
  "For all 1D and 2D arrays of every numeric type, memory order, stride and delimiter, including single rows, columns and elements.",
  "Tests round-trip one C-contiguous double and one complex array.",
  [UT, VE], [("text save/load with real view of complex data", UT)])
P("H03", "Operations never modify their input data",
  "No computation changes the arrays, lists, vectors or handles passed to it, and results handed out earlier are not changed by later calls. Repeating a computation on the same inputs gives the same result.",
  ["inputs", "histories"],
  "For all public array and handle based computations, all data layouts, and pairs of consecutive calls.",
  "Tests build fresh data per case and compare outputs only.",
  [POD, BPOD, DMD, ERA, OKID, LTI, UT, VS], [("copies via np.array, accumulation in place of fresh temporaries", VS)])
# ---------------------------------------------------------------- spaces
P("V01", "Array inner products and combinations follow X* W Y for all weights",
  "With no weights, a 1D list of weights or a 2D Hermitian weight array, the array of inner products of two sets of column vectors is X* W Y with the first argument conjugated, and linear combinations are X C restricted to the selected columns. A 1D weight w gives exactly the result of the 2D weight diag(w), for every vector length including one.",
  ["inputs"],
  "For all shapes, real and complex data, weight kinds given as arrays or lists, and column index lists.",
  "Tests use one shape with random real and complex data and never a vector space of dimension one.",
  [VS], [("selection of the weighting by number of dimensions", VS)])
P("V02", "Trapezoidal and plain inner products are the stated quadrature",
  "The grid inner product equals the tensor-product trapezoidal quadrature of conj(v1) v2 over the given grids, in the given order of dimensions, for any non-uniform grids, and rejects vectors whose shape differs from the grid shape; the uniform inner product equals the sum of conj(v1) v2 over all entries. Both are conjugate-symmetric and linear in the second argument.",
  ["inputs"],
  "For all numbers of dimensions, grid sizes and spacings, real and complex vectors.",
  "Tests evaluate one 1D and one 2D or 3D grid with random data.",
  [VE], [("repeated 1D trapezoidal integration", VE)])
P("V03", "User vectors need only + and scalar *, and sanity_check judges them right",
  "A vector class that offers nothing but addition (v + w) and multiplication by a scalar on the right (v * s) works in every handle-based operation and gives the results of the same data held in plain arrays. The Vector base class derives s * v and v - w from those two and raises NotImplementedError for what a subclass leaves undefined. sanity_check accepts every correct vector of any magnitude and floating-point precision and leaves it unaltered, and raises an error when the addition, the multiplication or the inner product alters its operands or is not consistent with scaling and adding the vector.",
  ["inputs", "configurations"],
  "For all vector classes meeting the documented minimum, all operations, magnitudes and precisions, and all single defects of addition, multiplication and inner product.",
  "Tests use arrays and one class with both multiplications, one random vector of ordinary size, and three defective variants.",
  [VE, VS, LTI], [("base subtraction and Vector base class", VE), ("sanity check, timing operations and layers of lin_combine", VS), ("derivatives", LTI)])
P("V04", "Results do not depend on how the numbers are stored",
  "Every array-based computation (POD, BPOD, DMD, TLSqrDMD and total DMD array functions, projection, derivatives, ERA, OKID, balanced truncation, simulation, decomposition and array helpers, text output) gives the same result, up to rounding and the phase of modes, whether an array is C- or Fortran-ordered, a strided or reversed view, a view of a larger array, read-only, byte-swapped, an array subclass, of integers (of any type, even where products of the values exceed it), or given as nested lists or tuples or a numpy matrix of the same values, for all arguments alike or only one of them; where arrays are made of matrices the results are plain arrays. Excepted are functions that document their arguments as arrays and use them as given: VectorSpaceArrays, impulse, Hankel_chunks and the inputs of lsim take ndarrays only.",
  ["inputs", "configurations"],
  "For all functions, data types, weights, storage layouts and combinations of stored arguments.",
  "Tests pass freshly created C-ordered arrays (and a few matrices as weights).",
  [POD, DMD, BPOD, UT, ERA, OKID, VS], [("forcing data to arrays", UT), ("array functions", POD), ("weights", VS)])
P("V05", "Results follow the units of the data",
  "Multiplying all data vectors, the inner product weights, or the signals of an identification by a constant (with absolute tolerances multiplied by the power of it that the compared values carry) multiplies every result by the power of the constant its definition implies and changes nothing else: the number of components kept, DMD eigenvalues, normalised modes, eigenvectors and reduced dynamics stay the same however large or small the numbers are. For ERA, OKID, projection and balanced truncation each input and output may be in a unit of its own.",
  ["inputs"],
  "For all factors within the range of double precision, all decompositions by arrays and handles, weights, shapes, truncations and signal units.",
  "Tests use random data of order one; thresholds that are absolute show only for other magnitudes.",
  [UT, VS, POD, DMD, BPOD, ERA, OKID, LTI], [("tolerances of svd and eigh", UT), ("weighted inner products", VS), ("truncation by number", DMD)])
# ---------------------------------------------------------------- decompositions
P("D01", "POD from arrays satisfies its definition in both methods",
  "For every data set, weights and truncation, both POD array methods return modes orthonormal in the weighted inner product, eigenvalues equal to the retained leading eigenvalues of X* W X in descending order, eigenvectors of that array, and projection coefficients equal to the inner products of modes with data, so that modes times coefficients is the orthogonal projection of the data. The two methods agree up to the phase of each mode.",
  ["inputs"],
  "For all data shapes (more rows than columns and vice versa), rank-deficient data, real/complex data, weight kinds, mode index lists and tolerances.",
  "Tests use one random full-rank data set per weight kind; the array function tests are partly broken with the installed numpy.",
  [POD, UT, VS], [("method of snapshots", POD), ("direct method", POD)])
P("D02", "BPOD from arrays yields biorthogonal balancing modes",
  "For impulse-response data with any numbers of inputs and outputs, the returned Hankel array is the array of all inner products of adjoint with direct vectors, its truncated singular value decomposition is the returned one, direct and adjoint modes are biorthonormal and equal to the data times the scaled singular vectors, and projection coefficients equal the inner products of the opposite modes with the data.",
  ["inputs"],
  "For all numbers of inputs, outputs, direct and adjoint snapshots (also unequal), weight kinds, real/complex data, tolerances and index lists.",
  "The only array test is broken with the installed numpy; the handle test uses one size.",
  [BPOD, UT], [("Hankel assembly from unique chunks, SVD", BPOD)])
P("D03", "DMD from arrays returns eigenpairs of the data-fitting linear map",
  "For sequential and paired data, any weights and truncation, both DMD array methods return eigenvalues of the projected least-squares map, projected and exact modes satisfying their eigenvector relations, adjoint modes biorthonormal to the modes, spectral coefficients equal to the magnitudes of the first projection coefficients, and (advanced) projection coefficients equal to inner products of adjoint modes with the data. The two methods agree, and paired input made from a sequence gives the sequential result.",
  ["inputs"],
  "For all shapes, real/complex data, weight kinds, rank deficiency, truncation settings and index lists.",
  "The array tests are broken with the installed numpy, so these functions are not exercised at all by the passing suite.",
  [DMD, UT], [("method of snapshots", DMD), ("direct method", DMD)])
P("D04", "Total-least-squares DMD equals DMD of the subspace-projected data",
  "For sequential and paired data, any weights and truncation, both total-least-squares DMD array methods return what DMD returns for the data projected on the leading right subspace of the stacked data: the same eigenvalues, modes, adjoint modes, spectral and projection coefficients, together with the eigenvalues of the summed and of the projected correlation array. The two methods agree.",
  ["inputs"],
  "For all shapes, real/complex data, weight kinds, truncation settings and index lists.",
  "Tests use one random real and one complex data set, compare spectral coefficients only in some methods, and never use a relative tolerance.",
  [DMD, UT], [("method of snapshots", DMD), ("direct method", DMD)])
P("D05", "Handle-based decompositions equal the array-based ones",
  "For the same data, inner product and truncation, the handle-based POD, BPOD, DMD and total-least-squares DMD objects return the same eigenvalues or singular values, correlation and Hankel arrays, coefficients and (up to a common phase per mode) the same modes as the array functions.",
  ["inputs", "configurations"],
  "For all data shapes, real/complex data, sequential/paired data, truncation settings and mode index lists, serial and parallel.",
  "Tests of handle classes use one random data set and compare to re-computations that copy the code's formulas.",
  [POD, BPOD, DMD, VS], [("correlation arrays by handles, eigendecomposition, lin_combine", VS)])
P("D06", "Asking for a subset of modes returns exactly those modes",
  "Requesting modes by any list or range of indices, in any order and with repetitions, returns in that order exactly the corresponding columns of the complete set of modes, and does not change eigenvalues, coefficients or any other result.",
  ["inputs"],
  "For all index lists (single, reordered, repeated, empty where allowed, negative excluded) on all decomposition functions and classes.",
  "Tests use contiguous ranges or one fixed list.",
  [POD, BPOD, DMD, VS], [("column selection of build coefficients", VS)])
P("D07", "Truncation settings keep exactly the components they allow",
  "Every decomposition keeps precisely the leading components exceeding the absolute tolerance, exceeding the relative tolerance times the largest, and within the maximum number where given; settings passed to any entry point are obeyed and combine by the strictest. Kept components are the same as without truncation.",
  ["inputs"],
  "For all spectra, tolerances between any two components, combinations of absolute, relative and count limits, and all entry points.",
  "Tests use tolerances that truncate nothing, except one or two fixed cases of the low-level wrappers.",
  [UT, POD, BPOD, DMD, ERA], [("tolerances in svd and eigh wrappers", UT), ("max_num_eigvals slicing", DMD)])
P("D08", "Results of an object depend only on its most recent inputs",
  "For every sequence of calls on a decomposition, identification or projection object, each result equals the one a fresh object gives for the inputs most recently supplied: recomputing with other data, other truncation, paired after sequential data or the reverse, or loading another decomposition leaves no trace of earlier calls.",
  ["histories"],
  "For all sequences of operations up to a bounded length on each class, over two or three data sets and settings.",
  "Each test constructs a new object (or reuses it once with the same kind of data) and calls its methods in one order.",
  [POD, BPOD, DMD, ERA, LTI], [("attributes overwritten by compute_decomp, get_* and compute_* calls", DMD)],
  state=[("remembered vector handles", "default handles of later mode computations", DMD), ("projection array cache", "inverse of the basis inner products", LTI)])
P("D09", "A saved decomposition can be loaded and continued without loss",
  "Saving a decomposition with put and get functions that return what was stored, and loading it into a new object of the same class, gives modes and coefficients equal to those of the original object, for every number of retained components including a single one, and real or complex data. The default text format does so for real data and real eigenvalues.",
  ["inputs", "histories"],
  "For all numbers of retained components, real/complex data, all decomposition classes, and both default text files and in-memory storage.",
  "Tests reload decompositions of one size with a real data set and compare only the loaded arrays.",
  [POD, BPOD, DMD, UT], [("get_decomp/put_decomp", POD), ("text format", UT)])
# ---------------------------------------------------------------- system identification
P("E01", "Hankel arrays have the documented constant skew diagonals",
  "The element-wise and the chunk-wise Hankel constructors return arrays of the documented size whose entry (chunk) at row i and column j depends only on i + j, starts with the given first column and ends with the given last row (its first entry ignored), with zeros when no last row is given, for any combination of lengths and chunk shapes and without altering their inputs.",
  ["inputs"],
  "For all lengths of column and row, chunk shapes (rectangular too) and data types.",
  "Tests use one or two random sizes.",
  [UT], [("index grid and chunk stacking", UT)])
P("E02", "ERA reproduces the impulse response of every low-order system",
  "Given impulse-response samples in the documented sampling of a system whose order the data can resolve, the identified model has exactly the same Markov parameters, for any number of inputs and outputs, sampling period and Hankel dimensions the data permits, whether the dimensions are given at construction or per call. The Hankel arrays hold the documented samples, and dimensions the data cannot fill are rejected.",
  ["inputs", "configurations"],
  "For all numbers of inputs, outputs, states, numbers of samples (odd and even), sampling periods and Hankel dimensions within bounds.",
  "Tests use one random system with default dimensions and one other size with loose tolerances.",
  [ERA, UT], [("Hankel assembly and truncated SVD realisation", ERA)])
P("E03", "Sampled format, impulse response and simulation agree with A, B, C",
  "Simulating a real discrete-time model for arbitrary inputs and initial states gives y(n) = C x(n), x(n+1) = A x(n) + B u(n); its impulse response is C A^i B in index order time, output, input; and converting uniformly sampled data to the identification format repeats samples and time steps as 0 1 1 2 2 3 ..., rejecting non-uniform times.",
  ["inputs"],
  "For all dimensions, numbers of time steps, initial conditions, and time vectors (any start and spacing).",
  "Tests use one single-input system or one random size and times starting at one value.",
  [UT, ERA], [("lsim, impulse", UT), ("make_sampled_format", ERA)])
P("E04", "OKID recovers the Markov parameters the data determines",
  "For noise-free input/output data that determine the observer model (sufficiently many parameters and exciting input), the estimated Markov parameters are those of the system, including the direct feed-through as the first, in index order time, output, input, for any numbers of inputs and outputs. Single-input or single-output data may be given as 1D arrays with the same result.",
  ["inputs"],
  "For all numbers of inputs, outputs, states, samples and requested parameters within bounds.",
  "Tests use stored data sets of fixed size and compare with loose tolerance.",
  [OKID], [("observer Markov parameters by least squares and recursion", OKID)])
P("E05", "Galerkin projection yields the Petrov-Galerkin reduced model",
  "For any basis, adjoint basis and weights, reduced A and B are inv(Psi* W Phi) Psi* W applied to the supplied vectors, or without the inverse when the basis is declared orthonormal, and C is the supplied outputs as columns per basis vector. Array- and handle-based projections agree, time derivatives are (next - current)/dt, and the standard basis is the unit vectors.",
  ["inputs", "configurations"],
  "For all numbers of states, modes, inputs and outputs, real/complex data, weight kinds, symmetric/non-symmetric bases, non-orthonormal included.",
  "Tests use one size with random bases and mostly orthonormal or real data.",
  [LTI, VS], [("projection by inner product arrays and cached inverse", LTI)])
P("E06", "Factorisation wrappers return valid, ordered, complete factorisations",
  "The SVD wrapper returns orthonormal factors reproducing the array up to the truncated part with descending singular values; the Hermitian eigensolver wrapper returns orthonormal eigenvectors sorted by descending magnitude and, when told the array is positive definite, only positive eigenvalues for any tolerance setting; the biorthogonal eigensolver returns right and left eigenvectors with the chosen side scaled so that their products are the identity, and the other side of unit norm.",
  ["inputs"],
  "For all shapes, real/complex data, rank-deficient and indefinite arrays, tolerances given or disabled, both scaling choices.",
  "Tests use random full-rank arrays and one fixed tolerance pair.",
  [UT], [("svd, eigh, eig_biorthog", UT)])
P("E07", "Balanced truncation balances discrete-time systems",
  "For a stable, controllable and observable discrete-time system, the balanced realisation has equal and diagonal controllability and observability Gramians holding the returned Hankel singular values in descending order, and without truncation it has the same impulse response as the original. Truncation to a given order keeps the leading states of that realisation.",
  ["inputs"],
  "For all numbers of states, inputs, outputs, real/complex systems and orders within bounds.",
  "The test compares impulse responses of one random system with a tolerance that hides unbalanced coordinates.",
  [UT], [("Gramians, square-root balancing", UT)])
P("E08", "Signal files load into time and [path, time, signal] arrays",
  "Loading a signal file gives its first column as times and the rest as signals, always 2D; loading several files stacks them in the order given, for any number of files, rows, columns and any delimiter. Files without signals or with differing time values are rejected, whatever the unit and the start of the times.",
  ["inputs"],
  "For all numbers of files, time steps (one included), signals, and delimiters.",
  "Tests use a fixed number of files and steps.",
  [UT], [("load_signals, load_multiple_signals", UT)])
P("E09", "Inconsistent inputs are rejected before anything is stored",
  "Inputs whose sizes do not fit together (numbers of vectors, advanced vectors, coefficients, outputs, basis and adjoint basis vectors, samples, grid shapes, mode handles) raise an exception of the documented kind instead of giving a result, and no output vector or array is stored. Array-only functions refuse to run with several workers.",
  ["inputs", "configurations"],
  "For all size combinations within bounds that are inconsistent, on every public entry point, serial and parallel.",
  "Tests check one inconsistent size for some entry points and never look at partially written outputs.",
  [VS, POD, BPOD, DMD, ERA, OKID, LTI, VE, UT], [("size checks", VS), ("parallel refusal", POD)])
P("E10", "Generated test systems have the requested sizes and stable real poles",
  "Whatever values the random number generator delivers, the generators of discrete- and continuous-time state-space systems return real arrays A, B, C of the requested numbers of states, inputs and outputs, and all poles are real and stable: of magnitude below one in discrete time, negative in continuous time.",
  ["inputs"],
  "For all numbers of states, inputs and outputs and all random draws that give an invertible transformation.",
  "Tests draw one system per run and simulate it for a few steps; a system that is unstable or oscillating only for some draws passes.",
  [UT], [("random similarity transformation of a stable diagonal array", UT)])
P("E11", "Helper functions for lists, shapes and equality keep their contracts",
  "The public helpers do exactly what they state: flatten_list concatenates in order, make_iterable wraps only what is not iterable, atleast_2d_row and atleast_2d_col turn 1D data into one row or column and leave 2D arrays alone, sum_arrays and sum_lists add elementwise, smart_eq is true exactly for objects of one type equal in shape and every element, get_file_list returns exactly the files with the extension, get_data_members exactly the data members, InnerProductBlock the array of inner products, print_msg one line to the chosen channel, run_script runs in the given or calling name space. None modifies its arguments.",
  ["inputs"],
  "For all nested lists, shapes, scalar types, pairs of values, sets of files and extensions within bounds.",
  "Tests use one example per helper, if any.",
  [UT, 'modred/py2to3.py'], [("helpers", UT), ("printing and scripts", 'modred/py2to3.py')])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in R: f.write(json.dumps(d, ensure_ascii=True) + '\n')
    print(len(R), 'properties')
