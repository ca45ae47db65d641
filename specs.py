"""What each property's check runs (see DESIGN.md)."""
REF = "the dense reference (LAPACK dgesv on an independently assembled system) is right; agreement is up to rounding (relative 1e-7)"
SHIM = "built with -DUSE_PETSC"
FISH = "FISHPACK90 is not installed: its hstcrt_ is a stand-in written from its documented contract (harness/shim.cpp)"
MPX_WRAP = "MPI_Barrier MPI_Bcast MPI_Allreduce MPI_Reduce MPI_Allgather MPI_Allgatherv MPI_Gather MPI_Gatherv MPI_Scatter MPI_Alltoall MPI_Comm_create_group MPI_Comm_create MPI_Comm_split MPI_Comm_dup MPI_Send MPI_Ssend MPI_Recv MPI_Isend MPI_Irecv MPI_Probe MPI_Iprobe MPI_Sendrecv MPI_Ibcast p4est_new_ext p4est_refine p4est_refine_ext p4est_balance p4est_partition p4est_partition_given p4est_vtk_write_header p4est_vtk_write_footer".split()
MPX_LIBS = tuple("-Wl,--wrap=" + w for w in MPX_WRAP)
import os, sys
MPILAUNCH = [sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools", "mpilaunch.py")]
def mp(h, part, n, shards, quick=300, thorough=6000, **kw):
    return hp(h, "--part", part, src=("mpx.cpp",), libs=MPX_LIBS + ("-lexpat",), launch=MPILAUNCH + [str(n)], shards=shards, case_timeout=240, timeout=dict(quick=quick, thorough=thorough), **kw)
def hp(h, *args, **kw): return dict(harness=h, args=list(args), **kw)
SPECS = {
"C01": dict(level="model_checking", technique="exhaustive enumeration of bounded problem configurations on the real solver against a monolithic reference system",
    note="Every configuration in the bounds is run through the real HPS stages and compared with an independently assembled global five-point system. Trusts LAPACK and the reference assembly; bounds on size and on the coefficient/data alphabet.",
    bounds=dict(quick="uniform refinement levels 0-3, cells per leaf side 2-16 with at most 24 cells per domain side, 2 domains, 12 coefficient sets (three of them equal at corners and centres, two scaled by a negative number), all 81 assignments of D/N/R to the sides (fewer on the larger meshes), sides on which the kind or its coefficients vary; 17 special loads x 17 special boundary data (zero, constant, zero-sum, on one side or leaf, huge, ...) on levels 0-2; with FISHPACK90 leaves: levels 0-2, 3-8 cells, at most 12 per side; 59 problems of everyday size (leaves of up to 24 cells, 1024 leaves, 80 cells per side); 17 combinations of boundary conditions with factors and nearly vanishing coefficients, domains of size 3e-6 to 4e6 and a 64:1 sliver",
                thorough="as quick, levels 0-4, up to 48 cells per side, all kind assignments up to 16 cells per side; leaves of 33 cells, 96 cells per side"),
    assumptions=[REF, SHIM, FISH], parts=[hp("h_hps", "--part", "uniform", timeout=dict(quick=300, thorough=6000))]),
"C02": dict(level="model_checking", technique="exhaustive enumeration of all bounded quadtree shapes on the real solver against a composite reference system",
    note="Every quadtree of depth <= 2, and a systematically enumerated family of depth-3 trees (also not 2:1 balanced) and deeper staircases, run through the real stages and compared with one composite linear system; on small trees a full basis of inputs, which by linearity decides all data.",
    bounds=dict(quick="all 17 trees of depth <= 2 (sizes 2-8, 81 side-kind assignments), all depth-3 trees with at most 2 or at least 15 level-2 splits, children uniformly refined by 0-3 levels side by side, all depth 4-5 two-direction staircases; with FISHPACK90 leaves the 17 trees of depth <= 2; full input basis for trees up to 10 leaves; 17 special loads x 17 special boundary data on the trees of depth <= 2; 16 combinations of scaled boundary conditions and 4 more domains on those trees; chains of depth 6-17 to every corner and inner direction",
                thorough="all 83,521 trees of depth 3, staircases to depth 6, larger bases"),
    assumptions=[REF, SHIM, FISH], parts=[hp("h_hps", "--part", "adaptive", timeout=dict(quick=300, thorough=9000))]),
"C03": dict(level="model_checking", technique="exhaustive exploration of all stage-call histories up to a depth on the real solver, each solve checked against a reference for the latest data",
    note="All well-formed sequences over a 12-letter alphabet of stage calls (rebuild, new right-hand side through either overload, zero and constant data, solves with different side kinds, coefficient change, a second solver interleaved).",
    bounds=dict(quick="all histories of length 4 (3 on the larger trees) on 8 mesh shapes; 12 histories of length 5-7 on 6 trees, chains of depth 9 and 12 among them, with leaves of 2, 4 and 8 cells", thorough="all histories of length 5 on the shapes with up to 10 leaves, length 4 on every tree of depth <= 2"),
    assumptions=[REF, SHIM], parts=[hp("h_hist", "--part", "hist", timeout=dict(quick=400, thorough=9000))]),
"C04": dict(level="model_checking", technique="exhaustive enumeration of leaf problems (full input basis) and of operation histories of the leaf solver against a dense reference",
    note="Full basis of boundary traces and loads for every configuration, so by linearity all inputs; all histories of solver calls up to a depth over three grids and three coefficient sets.",
    bounds=dict(quick="2-24 cells per side (14 sizes), 9 boxes from 1e-9 to 1e9 wide, 12 coefficient sets, full basis of 4n traces and n^2 loads, 17 special traces x 17 special loads; FISHPACK90 from 3 cells, 4 values of lambda; all call histories of length 4 over 8 operations, once also switching the solver type", thorough="up to 20 cells per side; histories of length 5"),
    assumptions=[REF, SHIM, FISH], parts=[hp("h_leaf", "--part", "leaf", timeout=dict(quick=300, thorough=6000))]),
"C05": dict(level="model_checking", technique="exhaustive exploration of all sequences of runs under all admissible option settings on the real solver against a reference",
    note="A run is (build,) upwards, solve under each value (unset, false, true) of cache-operators and homogeneous-rhs; all single runs on all trees of depth <= 2, all pairs and restricted triples of runs.",
    bounds=dict(quick="single runs on the 17 trees of depth <= 2 and 3 deeper ones; all pairs from a reduced run alphabet on 4 trees; triples on one tree; 7 runs each on chains of depth 5-17 and on domains of size 3e-6 to 4e6", thorough="pairs from the full run alphabet, pairs on all trees of depth <= 2, larger triples"),
    assumptions=[REF, SHIM], parts=[hp("h_hist", "--part", "opts", timeout=dict(quick=500, thorough=12000))]),
"C19": dict(level="model_checking", technique="exhaustive enumeration of all transfer sizes up to a bound with all entries checked, and of all merges that coarsen",
    note="Every entry of both transfer matrices for every even size in the bound, and the transfers the solver applies in real merges of children of different resolution.",
    bounds=dict(quick="all even sizes 2-256 and larger ones to 2050, double and float; merges with every subset of refined children, sizes 2-8, one or two levels of coarsening", thorough="all even sizes to 768"),
    assumptions=[SHIM], parts=[hp("h_leaf", "--part", "transfer")]),
"C20": dict(level="model_checking", technique="exhaustive enumeration of child descents and of grid/patch/node operation histories on the real classes",
    note="All child-index descents up to a depth, and all sequences of copy/assign/modify operations on two grids or patches with a plain-data model stepped in lockstep.",
    bounds=dict(quick="descents to depth 5, chains to level 29, 26 grid sizes to 5000; all copy/modify sequences up to length 5", thorough="deeper descents and sequences"),
    assumptions=[], parts=[hp("h_leaf", "--part", "grid", timeout=dict(quick=300, thorough=6000))]),
"C10": dict(level="model_checking", technique="stateless model checking of the ranks' communication: real parallel runs under a controlling coordinator, every execution's operation traces then explored over all interleavings, buffering and synchronization modes",
    note="Real mpirun ranks; every MPI and p4est collective goes through a coordinator with strict synchronous matching that detects deadlock and mismatch; the recorded per-rank traces are explored exhaustively (persistent sets, and the full state space where it is small) in four modes: sends buffered or synchronous, collectives synchronizing or not. Because every receive names its source and tag, the operations of a rank are the same under every schedule, which the sched part confirms by running all priority orders of the ranks. Answers are compared with the serial reference system, trees with the owner model.",
    bounds=dict(quick="2, 3 and 4 ranks: all partitions (also with empty ranks) of the trees of depth <= 2 (4 ranks: up to 7 leaves) and of some depth-3 trees; 6 ranks on three trees; stage histories of length 3-4 over 10 operations; all priority orders on 4 trees; refined meshes on 2, 3, 4, 6 ranks",
                thorough="more partitions and trees, 8 ranks, histories of length 4-5"),
    assumptions=["p4est's own collectives count as one collective of all ranks", REF, SHIM, "MPI delivers messages of one pair of ranks in order"],
    parts=[mp("h_par", "solve", 2, 4), mp("h_par", "solve", 3, 3), mp("h_par", "solve", 4, 2), mp("h_par", "solve", 6, 2), mp("h_par", "solve", 8, 1, thorough_only=True),
           mp("h_par", "hist", 2, 4), mp("h_par", "hist", 3, 3), mp("h_par", "hist", 4, 2), mp("h_par", "sched", 2, 4), mp("h_par", "sched", 3, 3), mp("h_par", "sched", 4, 2),
           mp("h_par", "mesh", 2, 4), mp("h_par", "mesh", 3, 3), mp("h_par", "mesh", 4, 2), mp("h_par", "mesh", 6, 2)]),
"C11": dict(level="model_checking", technique="exhaustive enumeration of payload types, sizes, prior contents, roots, counts, layouts and message histories on real ranks, with all interleavings of the recorded communication explored",
    note="Real mpirun ranks under the coordinator of C10; every received object is compared with the one sent. The sizes and types parts run under AddressSanitizer as well.",
    bounds=dict(quick="2-4 ranks; 15 number types, strings, std::vector, Vector, Matrix, grids, patches and nodes (paths to level 29, leaf or not), 6-14 values (up to 70,000 entries) each as sent value and as receiver's prior content, all roots, all pairs, rings, all sub-ranges of ranks; all gather counts 0-4 (3 ranks 0-3, 4 ranks 0-2) in 4 layouts; all reductions of 3-4 ordinary and 6 extreme values per rank, 12 number types, and of up to 70,000 values; message histories of length 2 over 24 operations", thorough="longer histories and more counts"),
    assumptions=["receives name their source", "patches, and nodes and grids with them, are broadcast only"],
    parts=[mp("h_mpi", x, n, 3 if n < 4 else 2) for x in ("types", "groups", "mixed") for n in (2, 3, 4)] + [mp("h_mpi", x, 2, 4, variant="asan") for x in ("types", "groups", "mixed")]),
"C12": dict(level="model_checking", technique="exhaustive enumeration of every vector operation with every argument, and of all operation sequences, on the real class against plain sequences",
    note="All operations with all arguments for all lengths in the bound, for double, float and int; all sequences of operations over several vectors stepped in lockstep with std::vector.",
    bounds=dict(quick="lengths 0-7 and 16, 17 with all ranges/segments/index sets/permutations; all lengths to 70 and 14 more to 1025 with every entry and all pairs of places at the ends, the middle and around powers of two; operation sequences to depth 4", thorough="longer vectors and sequences"),
    assumptions=["integer-valued test data so that sums and products are exact"], parts=[hp("h_linalg", "--part", "vector", timeout=dict(quick=300, thorough=6000))]),
"C13": dict(level="model_checking", technique="exhaustive enumeration of every matrix operation with every shape and argument, and of all operation sequences, on the real class against plain arrays",
    note="All operations with all arguments for all shapes in the bound; non-square shapes and all small permutations; sequences of operations in lockstep with a plain 2-d array.",
    bounds=dict(quick="all shapes to 5x5 with all blocks, index sets, permutations; 24 larger shapes to 64x64 and 300x2 with every entry, row, column and blocks between chosen places; solves up to 33 unknowns; operation sequences to depth 4", thorough="larger shapes and longer sequences"),
    assumptions=["products and linear solves for non-empty shapes; solves compared to rounding"], parts=[hp("h_linalg", "--part", "matrix", timeout=dict(quick=300, thorough=6000))]),
"C14": dict(level="model_checking", technique="exhaustive enumeration of all index, range, block and size arguments in and around the valid range under the address sanitizer",
    note="Every checked operation with every argument in and just outside the valid range and at the extremes of the index type; contents compared afterwards; memory accesses outside the object stop the run.",
    bounds=dict(quick="vector lengths 0-4, shapes 0-3 x 0-3, all argument combinations in and around the range", thorough="lengths 0-6 and 17, 33; shapes 0-4 x 0-4; also int"),
    assumptions=["empty ranges may be given or rejected"], parts=[hp("h_linalg", "--part", "misuse", variant="asan", timeout=dict(quick=400, thorough=6000))]),
"C15": dict(level="model_checking", technique="exhaustive enumeration of grids and of all query sequences (histories of the search hint) on the real interpolant",
    note="All increasing and decreasing grids over a lattice of gaps, queries at, next to, between and beyond grid points, every sequence of queries up to a length, singly and in bulk.",
    bounds=dict(quick="grids of 2-6 points with gaps from {1, 2.5}; 8-200 points with fixed spacings; query sequences of length 2-4", thorough="grids to 8 points exhaustively, to 300 with fixed spacings, longer sequences"),
    assumptions=["agreement up to rounding"], parts=[hp("h_misc", "--part", "interp", libs=("-lexpat",), timeout=dict(quick=300, thorough=6000))]),
"C16": dict(level="model_checking", technique="exhaustive enumeration of option spellings, argument lists, option files and operation histories on the real parser against an independent grammar",
    note="Every string up to a length over a representative alphabet through every channel; all short argument lists and files; all histories of set, parse, read and copy operations against a map.",
    bounds=dict(quick="all 271,453 strings of length <= 5 over 12 characters and a list of special spellings and of long texts, three channels; all names of length <= 3 over 13 characters in three spellings; argument lists of length <= 3 over 20; files of <= 4 lines over 14; histories of length 4 over 17 operations", thorough="strings of length 6, lists of 4, files of 5 lines, histories of 5"),
    assumptions=["integers beyond the int range and reals beyond the double range may be kept as text or as a real"], parts=[hp("h_misc", "--part", "options", libs=("-lexpat",), timeout=dict(quick=300, thorough=6000))]),
"C17": dict(level="model_checking", technique="exhaustive enumeration of tree shapes, node kinds and strings written by the real writer and read back with expat",
    note="All ordered trees up to a node count with all assignments of node kinds, and all strings up to a length over an alphabet with every special character as attribute, text and in a small tree.",
    bounds=dict(quick="all trees of <= 5 nodes, all strings of length <= 3 over 13 characters; 3-40 attributes; combs of up to 12 x 12 nodes; all pairs of 41 names for tag and attributes", thorough="trees of 6 nodes, strings of length 4"),
    assumptions=["tag and attribute names are valid XML names; text is representable in XML 1.0 and compared modulo surrounding whitespace", "expat is right"], parts=[hp("h_misc", "--part", "xml", libs=("-lexpat",), timeout=dict(quick=300, thorough=6000))]),
"C21": dict(level="model_checking", technique="stateless model checking of real threads under a controlled scheduler with dynamic partial-order reduction and happens-before race detection",
    note="Every memory access, lock, once and guard operation of the real getInstance code is a scheduling point; all interleavings up to reordering of independent operations are run; two to four threads, failing constructors, nested singletons, the application object.",
    bounds=dict(quick="13 scenarios of 2-4 threads with one to three calls each, all interleavings", thorough="also four threads with two calls, failing and nested constructions"),
    assumptions=["sequential consistency plus data-race freedom, which is checked with vector clocks"], parts=[hp("h_single", src=("single_tsan.cpp:-fsanitize=thread",), timeout=dict(quick=300, thorough=6000))]),
"C22": dict(level="model_checking", technique="exhaustive enumeration of all operation histories of caches and timers (under a scripted clock) in lockstep with a model",
    note="All histories up to a depth of cache operations over several names and value types, and of operations on two timers with the process's clock replaced by a scripted one.",
    bounds=dict(quick="cache histories of length 5 (int) and 4 (string, matrix) over 16 operations; timer histories of length 5 over 13 operations from 8 starts; 5-1000 names in 6 orders; up to 5000 intervals; up to 300 timers at once", thorough="length 6"),
    assumptions=["histories that stop a timer before any start since its last reset are excluded"], parts=[hp("h_misc", "--part", "record", libs=("-lexpat",), timeout=dict(quick=300, thorough=6000))]),
"C06": dict(level="model_checking", technique="exhaustive enumeration of bounded quadtree shapes, domains and patch sizes on the real quadtree against the set of paths and rectangles",
    note="Every node of the real map is compared with the model tree: path, level, leaf flag, owners, patch rectangle; also second trees on the same forest and trees moved over others. Partitions over ranks are explored by the parallel harness (second part).",
    bounds=dict(quick="all 17 trees of depth <= 2 on 4 domains x 7 patch sizes; all 83,521 trees of depth 3; staircases of depth 4-13 and to the deepest level p4est allows, 29; all 256 chains of depth 4; all moves between pairs of trees of depth <= 2; on 2, 3, 4 and 6 real ranks the partitions (also with empty ranks) of the trees of depth <= 2 and three of depth 3 (all on 2 and 3 ranks up to 10 leaves, 4 ranks up to 7)", thorough="staircases to depth 16, all chains of depth 6"),
    assumptions=[], parts=[hp("h_mesh", "--part", "tree", libs=("-lexpat",), timeout=dict(quick=400, thorough=6000)), mp("h_par", "tree", 2, 4), mp("h_par", "tree", 3, 3), mp("h_par", "tree", 4, 2), mp("h_par", "tree", 6, 2)]),
"C07": dict(level="model_checking", technique="exhaustive enumeration of trees, prune sets and traversal histories on the real quadtree against the tree's own walks",
    note="Every traversal kind on every tree; every prune set on small trees; every sequence of traversals, rebuilds and moves over two trees sharing a forest and a third tree.",
    bounds=dict(quick="trees of depth <= 2, depth-3 trees with few or all splits, staircases; all prune sets up to 13 nodes, all pairs up to 33; histories of length 3 over 20 operations; on 2, 3 and 4 real ranks all six walks, split and merge alternating, for the partitions of those trees", thorough="prune sets to 17 nodes, pairs to 85; histories of length 4 on 6 trees"),
    assumptions=["p4est_search_reorder, which the installed p4est lacks, is replaced by an equivalent depth-first walk"], parts=[hp("h_mesh", "--part", "walk", libs=("-lexpat",), timeout=dict(quick=400, thorough=8000)), mp("h_par", "walk", 2, 4), mp("h_par", "walk", 3, 3), mp("h_par", "walk", 4, 2)]),
"C08": dict(level="model_checking", technique="exhaustive enumeration of refinement criteria, level pairs and refinement histories on the real mesh against a model refinement with its own balance",
    note="Criteria are given per quadrant and cell, so every demanded tree in the bound arises; the model computes the demanded tree and its smallest corner-balanced refinement by fixpoint.",
    bounds=dict(quick="all depth-2 demands x all trigger cells x all level pairs 0-3 on 6 patch/domain choices; depth-3 demands; demands that are no subtree; staircases to depth 6; 7 ordinary criteria; criteria met by one cell of patches of 6-20 and 32 cells a side, also elongated; all histories of 3 refinements over 8; on 2, 3 and 4 real ranks 81 demanded trees of depth <= 3", thorough="all depth-3 demands, staircases to depth 8, histories of 4"),
    assumptions=["mesh functions attached before a refinement are cleared first"], parts=[hp("h_mesh", "--part", "refine", libs=("-lexpat",), timeout=dict(quick=400, thorough=8000)), mp("h_par", "refine", 2, 4), mp("h_par", "refine", 3, 3), mp("h_par", "refine", 4, 2)]),
"C09": dict(level="model_checking", technique="exhaustive enumeration of meshes and of attach/clear/re-mesh histories on the real mesh in lockstep with a list of cells",
    note="All arrays of the unstructured view and all attached functions are compared cell by cell after every operation.",
    bounds=dict(quick="depth <= 2 trees on 28 patch/domain choices, depth-3 trees with few or all splits, staircases; all histories of length 4 over 10 operations; meshes of up to 17,000 cells and 12 functions; meshes after solver stages; on 2, 3 and 4 real ranks the meshes of 81 demanded trees of depth <= 3", thorough="more patch choices, histories of length 5"),
    assumptions=["mesh functions attached before a refinement are cleared first"], parts=[hp("h_mesh", "--part", "arrays", libs=("-lexpat",), timeout=dict(quick=400, thorough=8000)), mp("h_par", "cells", 2, 4), mp("h_par", "cells", 3, 3), mp("h_par", "cells", 4, 2)]),
"C18": dict(level="model_checking", technique="exhaustive enumeration of write histories, base names and meshes; every written file is read back with expat and compared",
    note="All sequences of add/change/rebuild/write operations on the three writers and all meshes in the bound; arrays, declared sizes, ranges, names and the header's pieces are checked in every file.",
    bounds=dict(quick="histories of length 4 over 7 operations on 3 writers; over 110 base names x 3 outputs; meshes of depth <= 3 and staircases, written 9 times each, others of up to 17,000 cells and 12 functions; on 2, 3, 4 and 11 real ranks the pieces and header of the meshes of up to 81 trees, and those of every division of up to 4 ranks into communicators", thorough="histories of length 5, more meshes"),
    assumptions=["expat is right", "values agree to 1e-6 relative"], parts=[hp("h_mesh", "--part", "vtk", libs=("-lexpat",), timeout=dict(quick=400, thorough=8000)), mp("h_par", "files", 2, 4), mp("h_par", "files", 3, 3), mp("h_par", "files", 4, 2), mp("h_par", "files", 11, 1)]),
"C23": dict(level="model_checking", technique="exhaustive enumeration of layouts, fill histories and copy/move/destroy histories of the distributed classes on real ranks against a plain-array model",
    note="Real mpirun ranks with PETSc; every layout, communicator and type in the bound, every history of fills by owner/first/last/all ranks, sub-matrices by every choice of rows and columns, every copy/move history, each compared on all ranks entry by entry and as an operator. PETSc's own communication is not scheduled by the check.",
    bounds=dict(quick="1-4 ranks, world/self/all but one; vectors of 0-5 entries, matrices to 4x4, all row layouts; fill histories of length 1 (all 24) and 2; copy histories of length 4-5 over 10 operations; sub-matrices of up to 3x3; vectors of 8-1000 entries and matrices to 40x1 and 32x32 with chosen places; identities 0-6 in 5 ways", thorough="vectors to 7, matrices to 5x5, all pairs of fills, copy histories of length 5"),
    assumptions=["PETSc is right", "PETSc's dense sub-matrices take a rank's own rows only"],
    parts=[mp("h_dist", x, n, 2) for x in ("vectors", "matrices", "copies") for n in (1, 2, 3, 4)]),
"C24": dict(level="model_checking", technique="exhaustive enumeration of life cycles, argument lists and log/timer histories, each executed in processes of its own under a scripted clock and compared with a model",
    note="Each case is a real process (or mpirun of 2-3) that creates the application object after every kind of earlier initialisation, uses it and ends in every way; its output, options, MPI/PETSc state and exit status are compared with a small model on every rank.",
    bounds=dict(quick="6 ways of earlier initialisation x 3 ways of ending x 3 argument lists x 1-3 ranks; all lists of up to two of 9 arguments; 9 message formats through 3 channels; all histories of length 3 over 11 timer, sleep and log operations; up to 72 timers", thorough="histories of length 4, more lists on 2-3 ranks"),
    assumptions=["a timer is stopped only while it runs; the lifetime timer is left to the application"],
    parts=[hp("h_app", timeout=dict(quick=300, thorough=6000))]),
"C25": dict(level="model_checking", technique="exhaustive enumeration of trees, leaf operators and stage histories over the harness's own grid, patch, factory and solver classes on the real algorithm, against a composite reference system; in parallel on real ranks under the coordinator of C10",
    note="The library's templates are instantiated with classes written by the user: unevenly spaced grids, leaf operators that are arbitrary nonsymmetric matrices different on every leaf, solvers with and without the optional method, solvers known only by their base class, overridden algorithm steps. Every solution is compared with one composite system of the same leaf operators, every overridden step and callback with the walk of the tree.",
    bounds=dict(quick="17 trees of depth <= 2 with 1-6 cells a side, 3 kinds of solver, 5 side-kind words; depth-3 trees with at most 2 or at least 15 level-2 splits; children refined by 0-3 levels side by side; stage histories of length 5 over 8 operations on 5 trees; 2-4 ranks: all or selected partitions of 7 trees", thorough="more sizes, seeds and deeper trees; histories of length 6; all partitions with all histories"),
    assumptions=[REF, SHIM, "leaf operators have a dominant diagonal so that the merged problems are solvable"],
    parts=[hp("h_user", src=("mpx.cpp",), libs=MPX_LIBS + ("-lexpat",), timeout=dict(quick=300, thorough=6000))] + [mp("h_user", "par", n, 2) for n in (2, 3, 4)]),
"C26": dict(level="model_checking", technique="exhaustive enumeration of vectors, matrices, options, nodes, grids and patches from finite alphabets, printed through the real operators and compared with an independent parser and model of the text",
    note="Every object is printed twice into string streams; the text is split into tokens and compared with the object's entries read through its accessors, and the object is compared with its state before.",
    bounds=dict(quick="all vectors of length <= 4 over alphabets of 6-11 values (double, float, int), others up to length 66 and to 4000; matrices up to 6 x 10, all entries for at most 4, 11 larger to 1025 x 2; all sets of at most 4 options over 11 values; all nodes of depth <= 4 with 10 rank ranges; grids of 1-12 x 1-12 cells on 5 or more domains; patches with every set of their 10 data present or absent", thorough="as quick, all vectors of length <= 5"),
    assumptions=["numbers are shown to at least four digits; entries smaller than 1e-14 may be shown as 0"],
    parts=[hp("h_print")]),
"C27": dict(level="model_checking", technique="exhaustive enumeration of operation sequences on the real library, each repeated, with exact accounting of live memory, communicators and groups; in parallel on real ranks under the coordinator of C10",
    note="Every sequence is repeated after a warm-up; an alarm needs one of the four counts to grow with every one of 46 repetitions in a row. Live memory is counted at operator new/delete and in the heap (which includes PETSc's and MPI's), communicators and groups at the calls that create and free them.",
    bounds=dict(quick="serial: every one of 12 operations on all trees of depth <= 2 and depth-3 trees with one level-2 split, 4 option settings, and the whole life of mesh and solver; all sequences of 2 operations on 4 trees, of 3 on the smallest; 12 groups of linear-algebra operations at 12 sizes; leaf operations with 7 sizes and all coefficient sets; 2-4 ranks: all operations and lives on partitions of trees of depth <= 2, all sequences of 2 operations on 2 trees; distributed vectors and matrices of 1-6 rows", thorough="more trees, sizes and partitions; all sequences of 3 operations on 4 trees"),
    assumptions=[SHIM, "growth that stops within 46 repetitions is not a leak"],
    parts=[hp("h_mem", "--part", "serial", src=("mpx.cpp",), libs=MPX_LIBS + ("-lexpat",), timeout=dict(quick=300, thorough=6000))] + [mp("h_mem", "par", n, 8 // n) for n in (2, 3, 4)]),
}
NOT_YET = {}
