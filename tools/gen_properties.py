#!/usr/bin/env python3
"""Source of properties.jsonl (one python dict per property; run to regenerate)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))

prop("C01","Uniform-mesh solve equals the global finite-volume discretization",
 "On a uniformly refined mesh (any level, any patch of n by n cells with n at least 2, any rectangular domain) the hierarchical build/upwards/solve gives, in every cell, the solution of the one global five-point finite-volume system for div(beta grad u)*alpha + lambda u = f with the user's coefficients, right-hand side and boundary data, up to round-off. This holds for Dirichlet, Neumann (derivative along the positive coordinate axis) and mixed (Robin) boundary data on any combination of the four sides, also when the kind or its coefficients vary along a side, as long as the problem has a unique solution.",
 ["inputs","configurations"],"every refinement level up to the bound, patch size, domain shape, coefficient family, and assignment of boundary-condition kinds to the sides",
 "No existing test instantiates the HPS algorithm at all (the test build lacks the traversal routine); a test could only sample a few meshes.",
 ["src/HPSAlgorithm.hpp","src/Patches/FiniteVolume/FiniteVolumeSolver.cpp","src/Patches/FiniteVolume/FiniteVolumePatch.cpp","src/Mesh.hpp"],
 [("4-to-1 merge of patch operators","src/HPSAlgorithm.hpp merge4to1"),("upwards pass","src/HPSAlgorithm.hpp upwards4to1"),("1-to-4 split","src/HPSAlgorithm.hpp split1to4"),("boundary data conversion","src/HPSAlgorithm.hpp solveStage")],
 observe=["leaf vectorU() after solveStage"])

prop("C02","Adaptive solve equals the composite-grid reference on every mesh",
 "On every adaptive quadtree mesh, 2:1 balanced or not, the hierarchical solve gives the solution of the composite problem: each leaf satisfies its own finite-volume equations and, at every interface, the neighbouring patches share one trace and balanced fluxes, with coarse/fine sides related by the fixed averaging/interpolation rule. In particular a linear function that solves the PDE is reproduced to round-off on every such mesh, from Dirichlet, Neumann or mixed data.",
 ["inputs","configurations"],"all quadtree meshes up to a depth, all patch sizes in the bound, all boundary-condition assignments, and (by linearity) a basis of right-hand sides and boundary data",
 "No existing test builds or solves an adaptive mesh; the number of mesh shapes is combinatorial and coarse/fine configurations interact across levels.",
 ["src/HPSAlgorithm.hpp","src/SpecialMatrices.hpp","src/Patches/FiniteVolume/FiniteVolumeSolver.cpp"],
 [("tagging and coarsening of fine siblings","src/HPSAlgorithm.hpp coarsen_"),("un-coarsening on the way down","src/HPSAlgorithm.hpp uncoarsen_"),("transfer operators","src/SpecialMatrices.hpp")],
 observe=["leaf vectorU() after solveStage"])

prop("C03","Stages can be repeated and interleaved; results never depend on history",
 "Once built on a mesh, the solver may be given any sequence of new right-hand sides, new boundary data, repeated solves, and repeated builds, and each solve returns exactly what a freshly created mesh and solver would return for the latest right-hand side and boundary data. Other solvers on other meshes used in between do not change that result.",
 ["histories"],"all sequences of build / upwards(f_i) / solve(g_j) operations up to a depth, on uniform and adaptive meshes, with one or two solvers alive",
 "Tests run no stage even once; the state left on nodes (coarsening counts, stored operators, load vectors) only matters for multi-step histories.",
 ["src/HPSAlgorithm.hpp","src/Mesh.hpp","src/Quadtree.hpp","src/Patches/FiniteVolume/FiniteVolumePatch.hpp"],
 [("operator storage on nodes reused across solves","src/Patches/FiniteVolume/FiniteVolumePatch.hpp"),("stage drivers","src/HPSAlgorithm.hpp buildStage/upwardsStage/solveStage")],
 observe=["leaf vectorU() after each solveStage"],
 state=[("n_coarsens","how often a patch was coarsened for its parent","src/Patches/FiniteVolume/FiniteVolumePatch.hpp")])

prop("C04","Leaf solves satisfy the PDE stencil, and its flux maps are exact",
 "For any single patch of n by n cells (n at least 2), the leaf solve returns the unique grid function that satisfies the variable-coefficient five-point equations in every cell with the given Dirichlet trace, and the patch's Dirichlet-to-Neumann matrix and particular flux reproduce the normal fluxes of that solution for every trace and every right-hand side. The leaf operators depend only on the patch's own grid and the coefficient functions. The FISHPACK90 leaf solver gives the same for unit alpha and beta, constant lambda and at least three cells per side.",
 ["inputs","configurations"],"all patch sizes in the bound, domain aspect ratios, coefficient families, and a full basis of right-hand sides and boundary traces",
 "The existing solver test only constructs the object; whether the operator is right for every trace and right-hand side needs a full basis.",
 ["src/Patches/FiniteVolume/FiniteVolumeSolver.cpp","src/Patches/FiniteVolume/FiniteVolumeSolver.hpp"],
 [("dense five-point assembly and LU solve","src/Patches/FiniteVolume/FiniteVolumeSolver.cpp"),("D2N map","FiniteVolumeSolver::buildD2N / mapD2N / particularNeumannData")],
 observe=["return values of solve, mapD2N, buildD2N, particularNeumannData"])

prop("C05","Solver options are pure optimizations",
 "Turning operator caching on or off, declaring the right-hand side homogeneous (when it is), or omitting these options altogether never changes the solution of a problem for which they are admissible: constant-coefficient problems for caching, a zero right-hand side for the homogeneous shortcut. A run is the stages build (when something it uses changed), upwards and solve under one setting of the options; under the homogeneous shortcut the upwards stage may be left out. This holds on uniform and adaptive meshes and for every order in which the options are toggled between runs.",
 ["configurations","histories"],"all option settings and all toggling sequences up to a depth, over uniform and adaptive meshes",
 "No test runs a solve under any option; the interaction is between global option state, the mesh levels, and data left from earlier runs.",
 ["src/HPSAlgorithm.hpp","src/Options.hpp","src/EllipticForestApp.cpp"],
 [("cached leaf operator","src/HPSAlgorithm.hpp buildStage"),("homogeneous shortcut","src/HPSAlgorithm.hpp upwardsStage/split1to4")],
 observe=["leaf vectorU() after solveStage"])

prop("C06","The quadtree mirrors the forest and tiles the domain",
 "For every forest, the quadtree holds exactly one node for each branch and leaf, addressed by its path of child indices; each node's level, leaf flag, path and owner range agree with the forest, and its patch covers exactly the sub-rectangle its path denotes, so that the leaves tile the domain and children tile their parent in the lower-left, lower-right, upper-left, upper-right order.",
 ["inputs","configurations"],"all quadtree shapes up to a depth, all rectangular domains and patch sizes in the bound, and all contiguous partitions over ranks",
 "The existing quadtree test is not part of the runnable suite; one fixed shape says nothing about the others.",
 ["src/Quadtree.hpp","src/QuadNode.hpp","src/P4est.cpp","src/Patches/FiniteVolume/FiniteVolumeNodeFactory.cpp"],
 [("construction by top-down search","src/Quadtree.hpp constructor"),("path computation","src/P4est.cpp p4est_quadrant_path"),("child patch geometry","src/Patches/FiniteVolume/FiniteVolumeNodeFactory.cpp createChildNode")],
 observe=["Quadtree::map"])

prop("C07","Traversals visit each node once, in order, whatever came before",
 "A pre-order traversal visits every node exactly once with parents before children and siblings in order, a post-order traversal visits children before parents, a merge visits all leaves and every family bottom-up with the four children in order, and a split does so top-down; a visitor that declines to descend prunes exactly that subtree in pre-order walks. These hold for every tree whatever traversals ran before, also on other trees sharing the same forest. When the forest is distributed over ranks, each rank visits in the same order exactly the nodes in which it owns a leaf.",
 ["inputs","histories"],"all quadtree shapes up to a depth, all prune sets, all sequences of traversal kinds over one or two trees up to a depth",
 "The runnable tests never traverse a tree; order and history effects need sequences of traversals.",
 ["src/Quadtree.hpp"],
 [("callback dispatch through the forest's user pointer","src/Quadtree.hpp p4est_search_visit / p4est_search_merge_split")],
 observe=["sequence of visited node paths"])

prop("C08","Refinement honours criterion, level limits and 2:1 balance, every time",
 "Refining by a function produces the smallest corner-balanced (2:1) mesh that contains every refinement the criterion demands between the minimum and maximum level; all leaves lie between these levels and tile the domain. Refining again, with the same or other parameters, yields the same mesh as a fresh mesh object would, with nothing left over from the first use (functions attached to the mesh before are cleared by the user with clearMeshFunctions and attached again).",
 ["inputs","histories"],"all refinement criteria on a cell grid up to a bound, all min/max level pairs, and sequences of refinements",
 "No runnable test refines a mesh; criteria are arbitrary functions and repeated use needs a history.",
 ["src/Mesh.hpp","src/P4est.cpp"],
 [("refine / balance / partition","src/Mesh.hpp refineByFunction"),("per-refinement arrays","src/Mesh.hpp setMeshFromQuadtree/setMesh")],
 observe=["Mesh::quadtree","Mesh points/connectivity arrays"])

prop("C09","Mesh geometry and mesh functions describe exactly the leaf cells",
 "The unstructured-mesh view of a quadtree lists every cell of every leaf once, with the corner points, connectivity, one offset and one cell type of that cell, and every function or vector attached to the mesh is listed in the same cell order with the value at the cell centre. Counts reported by the mesh agree with the arrays, also after a further refinement (functions attached before it are cleared by the user and attached again).",
 ["inputs","histories"],"all quadtree shapes up to a depth, patch sizes in the bound, and sequences of attaching functions and re-meshing",
 "No runnable test looks at the mesh arrays; cell order consistency across leaves depends on the mesh shape.",
 ["src/Mesh.hpp","src/VTK.cpp"],
 [("cell iteration","src/Mesh.hpp setMeshFromQuadtree / iterateCells"),("function sampling","src/Mesh.hpp addMeshFunction")],
 observe=["Mesh accessors and data arrays"])

prop("C10","A parallel run returns the serial answer and never deadlocks",
 "For every number of ranks and every distribution of the leaves over them, building the tree, merging, solving, traversing and refining terminate without deadlock or mismatched communication under every timing of the ranks, and the solution on each leaf equals that of a serial run. Every rank holds exactly the nodes in which it owns at least one leaf.",
 ["schedules","configurations"],"all contiguous distributions of the leaves of the bounded meshes over 2-4 ranks, all interleavings of the ranks' communication operations, buffered or synchronous sends, synchronizing or non-synchronizing collectives",
 "The stable tests are single-process; deadlocks depend on the partition and the schedule.",
 ["src/Quadtree.hpp","src/QuadNode.hpp","src/HPSAlgorithm.hpp","src/MPI.hpp","src/MPI.cpp","src/Patches/FiniteVolume/FiniteVolumeSolver.cpp"],
 [("node communicators","src/Quadtree.hpp constructor, src/MPI.cpp communicatorSubsetRange"),("broadcast of children in merge/split","src/Quadtree.hpp p4est_search_merge_split"),("node serialization","src/QuadNode.hpp MPI overloads")],
 observe=["leaf vectorU() per rank","trace of communication operations per rank"])

prop("C11","Messages deliver objects exactly as sent",
 "Sending, broadcasting, gathering or reducing numbers, strings, containers, vectors, matrices, grids, patches and tree nodes delivers to every receiver an object equal to the one sent (receives name their source; patches and nodes holding patches are broadcast; the name of a vector is not part of the message), for every size including empty, whatever the receiver's object held before, and whatever the timing of the ranks. No transfer reads or writes outside the objects involved.",
 ["inputs","schedules","histories"],"all payload types, all sizes up to a bound for sender and receiver's prior content, all roots and rank counts in the bound, all schedules",
 "Existing MPI examples check one size per type and are not in the runnable suite.",
 ["src/MPI.hpp","src/MPI.cpp","src/Vector.hpp","src/Matrix.hpp","src/QuadNode.hpp","src/Patches/FiniteVolume/FiniteVolumePatch.cpp","src/Patches/FiniteVolume/FiniteVolumeGrid.cpp"],
 [("typed wrappers","src/MPI.hpp"),("composite serialization","namespace MPI overloads in Vector.hpp, Matrix.hpp, QuadNode.hpp, FiniteVolumePatch, FiniteVolumeGrid")],
 observe=["received objects"])

prop("C12","Vector operations agree with their mathematical definition",
 "Every sequence of vector operations (entry access, ranges, segments, append, index sets, block permutation, arithmetic with scalars and vectors, products, norms, concatenation) yields the values of the corresponding operation on plain sequences, leaves its operands unchanged unless it is an update, and never lets two vectors share storage.",
 ["inputs","histories"],"all vectors of the bounded lengths, all arguments of each operation in the bound, all operation sequences up to a depth",
 "Only construction is tested; argument ranges and sequences are not.",
 ["src/Vector.hpp"],[("vector operations","src/Vector.hpp")],observe=["vector contents"])

prop("C13","Matrix operations agree with their mathematical definition",
 "Every sequence of matrix operations (entries, rows, columns, blocks, index sets, block permutation, transpose, negation, sums, products with scalars, vectors and matrices, linear solves, diagonal and identity construction) yields the mathematically defined result for all conforming shapes, leaves operands unchanged unless it is an update, and never lets two matrices share storage. (Products and solves are meant for non-empty shapes.)",
 ["inputs","histories"],"all shapes up to a bound, all index and block arguments, all small permutations, all operation sequences up to a depth",
 "Existing tests use one or two fixed shapes per operation; row/column confusions show only on non-square or permuted data.",
 ["src/Matrix.hpp","src/SpecialMatrices.hpp"],[("matrix operations","src/Matrix.hpp"),("BLAS/LAPACK calls","src/Matrix.hpp operator*, solve")],observe=["matrix contents"])

prop("C14","Misuse of vectors and matrices is rejected without damage",
 "Any access outside a vector or matrix, and any operation on non-conforming sizes, raises an exception and changes nothing; an access inside the bounds never does. This includes index sets longer than the vector and block sizes that do not cover the object; an empty range may be given or rejected. No such call reads or writes memory outside the object.",
 ["inputs"],"all shapes up to a bound and all index, range, block and size arguments in and around the valid range, for every operation with a bounds or size check",
 "Existing tests contain no negative cases; a one-off in one of many checks is invisible.",
 ["src/Vector.hpp","src/Matrix.hpp"],[("bounds and size checks","src/Vector.hpp, src/Matrix.hpp")],observe=["exceptions, operand contents, address sanitizer"])

prop("C15","Interpolation is exact, and independent of the order of queries",
 "The piecewise-linear interpolant on any strictly increasing or strictly decreasing grid of at least two points returns the grid values at grid points, the linear formula of the enclosing interval between them and the end interval's formula beyond them. The value for a point does not depend on earlier queries or on whether points are evaluated singly or in bulk.",
 ["inputs","histories"],"all small grids over a lattice, all query points at, between and beyond grid points, all query sequences up to a depth",
 "The existing test uses one grid and one ascending list of points; the search hint kept between queries matters only for other orders.",
 ["src/Interpolation.cpp","src/Interpolation.hpp"],[("hunt/locate with a saved index","src/Interpolation.cpp")],observe=["interpolated values"],
 state=[("saved index and correlation flag","hint left by the last query","src/Interpolation.hpp")])

prop("C16","Options keep the value the user gave, with the right type",
 "Each option given in code, on the command line or in an option file is retrievable with the value and type it denotes: switches as booleans, integers (also negative) as integers, real numbers in any usual notation as reals, anything else as the unchanged text (an option without a value is the empty text or a switch as the channel says; values in option files are trimmed at the ends; numbers too large for int or double may be kept as text or as a real, and inf, nan and hexadecimal spellings may be read either way); later settings override earlier ones and other options are untouched. No input makes reading options fail.",
 ["inputs","histories"],"all argument strings up to a length over a representative alphabet, all short argument lists and option files, all sequences of set/parse operations up to a depth",
 "No test covers options; the value grammar needs every short string.",
 ["src/Options.cpp","src/Options.hpp","src/InputParser.cpp"],[("type detection","src/Options.cpp checkValue"),("command line and file parsing","src/Options.cpp, src/InputParser.cpp")],observe=["Options map contents"])

prop("C17","XML trees serialize to well-formed documents that read back the same",
 "Every XML tree with a root built from the API, whatever its shape, valid tag and attribute names, attribute values and text of characters XML 1.0 can represent, is written as a well-formed document from which the same tree is read back by a standard parser (text modulo surrounding whitespace). Writing is repeatable and does not change the tree.",
 ["inputs"],"all tree shapes up to a node count with all combinations of attributes and text from an alphabet that includes special characters",
 "Existing tests check two fixed trees.",
 ["src/XMLTree.cpp","src/XMLTree.hpp"],[("recursive writer","src/XMLTree.cpp")],observe=["written file"])

prop("C18","VTK output files are complete, consistent and repeatable",
 "Every mesh or grid written for visualisation is a well-formed VTK file whose point, cell, offset, type and data arrays have the declared sizes and hold the mesh's values, in files named after the requested base name; the parallel header names exactly the pieces written. Writing again, after or without adding data or rebuilding the mesh, yields correct files again.",
 ["inputs","histories","configurations"],"all mesh shapes up to a depth, data-array sets, base names from an alphabet, and sequences of add/write operations",
 "No test reads an output file.",
 ["src/VTK.cpp","src/VTK.hpp","src/Mesh.hpp","src/XMLTree.cpp"],[("VTK builders","src/VTK.cpp"),("mesh output","src/Mesh.hpp toVTK")],observe=["written files"])

prop("C19","Coarse/fine transfer conserves and reproduces polynomials",
 "For every even number of cells per side, fine-to-coarse transfer is the exact average of each pair, coarse-to-fine transfer reproduces every linear function exactly (also at the ends; constants only when the fine side has just two cells), and coarsening after refining returns the original data for linear data; all entries outside the stencil are zero.",
 ["inputs"],"all sizes up to a bound and a full basis of data",
 "No test touches the transfer matrices; end-of-side stencils differ from the interior and from size to size.",
 ["src/SpecialMatrices.hpp"],[("transfer matrices","src/SpecialMatrices.hpp InterpolationMatrixFine2Coarse / InterpolationMatrixCoarse2Fine")],observe=["matrix entries"])

prop("C20","Patches, grids and nodes build, copy and refine consistently",
 "A node's four children built by the factory have quarter domains, the same resolution, consecutive paths and the next level, and building the parent back from those children restores the original domain, resolution, path and level. Copies (patches are copy-constructed, grids also assigned) carry all geometry and data, and are independent of the original; cell centres and nodes of a grid lie where its bounds and size say.",
 ["inputs","histories"],"all patch sizes, domains, child-index descents up to a depth, and copy/modify sequences",
 "Existing tests check one node and one grid.",
 ["src/Patches/FiniteVolume/FiniteVolumeNodeFactory.cpp","src/Patches/FiniteVolume/FiniteVolumeGrid.cpp","src/Patches/FiniteVolume/FiniteVolumePatch.cpp","src/QuadNode.hpp"],
 [("node factory","src/Patches/FiniteVolume/FiniteVolumeNodeFactory.cpp"),("grid point formulas","src/Patches/FiniteVolume/FiniteVolumeGrid.cpp")],observe=["node and grid accessors"])

prop("C21","The shared application object is created once and safely",
 "However many threads ask for a process-wide shared object at the same time, they all get the same fully constructed object, it is constructed exactly once, and no thread waits forever. If the constructor throws, the caller sees the exception and a later caller constructs the object.",
 ["schedules"],"all interleavings of 2-3 threads asking for the shared instance",
 "A test sees one schedule.",
 ["src/GenericSingleton.hpp"],[("double-checked creation under a mutex","src/GenericSingleton.hpp")],observe=["returned pointers, constructor count"])

prop("C22","Named data caches and timers keep exactly what was recorded",
 "A data cache behaves as a map from names to values: it returns what was stored last under a name, reports containment accordingly, and is unaffected by other names. A timer's total is exactly the sum of the times between each stop and the latest start before it since the last reset, and each stop returns its own interval (every stop follows a start).",
 ["histories"],"all operation sequences up to a depth over two names; all timer operation sequences up to a depth under a controlled clock",
 "The existing test does one insertion and lookup; timers are untested.",
 ["src/DataCache.hpp","src/Timer.cpp","src/Timer.hpp"],[("cache map","src/DataCache.hpp"),("timer accumulation","src/Timer.cpp")],observe=["cache contents","timer readings"])

prop("C23","Distributed vectors and matrices hold exactly what was put into them",
 "A ParallelVector or ParallelMatrix on any communicator, with any layout of its rows over the ranks (given or left to PETSc), holds after assembly at every index exactly the value the serial vector or matrix has there, the value inserted last, or the sum of all values added, whichever ranks set them; it reports its global sizes and each rank's local sizes; reading back gives each value at the place asked for. A sub-matrix consists of the chosen rows and columns, and a ParallelIdentityMatrix is the identity for every size, communicator and matrix type. Copies refer to the same entries, an assigned-to matrix takes over the source, and every object stays valid until the last that refers to it is gone (a moved-from object may only be destroyed or assigned to).",
 ["inputs","histories","configurations"],"all sizes and layouts up to a bound on 1-4 ranks, all fill histories and all copy/move/destroy histories up to a depth",
 "The example programs for these classes only print; none is in the runnable suite.",
 ["src/Vector.hpp","src/Matrix.hpp","src/SpecialMatrices.hpp"],[("PETSc wrappers","src/Vector.hpp ParallelVector, src/Matrix.hpp ParallelMatrix"),("identity","src/SpecialMatrices.hpp ParallelIdentityMatrix")],observe=["getValue(s), owned entries, sizes, products with unit vectors"])

prop("C24","The application object starts, serves and ends an MPI program",
 "Creating the application object leaves MPI and PETSc initialised whether or not the program (or PETSc for it) had initialised them, and reads the program's own command-line options on every rank; getInstance then returns that object. A log call prints one line '[EllipticForest <rank>] <message>' on each rank that makes it, logHead prints it on rank 0 only, the message formatted as by printf. Timers are kept by name (adding one starts it at zero and leaves the others alone) and sleeping takes the given seconds. When the object ends, rank 0 alone reports every timer once with its accumulated time, the lifetime timer included, after all log lines, and MPI and PETSc are finalised if they were not already; the program ends normally.",
 ["configurations","histories","inputs"],"all combinations of what was initialised before, how the program ends, argument lists up to a length, 1-3 ranks, and all histories of log and timer calls up to a length, each in a process of its own under a scripted clock",
 "Every stable test runs inside one already created application; start, end, log and report are never looked at.",
 ["src/EllipticForestApp.cpp","src/EllipticForestApp.hpp","src/Logger.hpp"],[("life cycle","src/EllipticForestApp.cpp"),("log","src/Logger.hpp"),("instance","src/GenericSingleton.hpp")],observe=["MPI/PETSc state, standard output, option values per rank, exit status"])

prop("C25","The method serves any patch, grid and solver the user supplies",
 "Given a user's own patch, grid, node-factory and patch-solver classes derived from the library's base classes, and any linear leaf operators (not necessarily symmetric, different on every leaf) for which the merged problems are solvable, every sequence of stages on every mesh, serial or partitioned over ranks, yields the solution of the coupled problem: traces and fluxes agree on all interfaces after coarse/fine transfer, the boundary condition holds on the root. The user's classes are used as given: nodes come from the user's factory, load and boundary functions are evaluated at the points of the user's grid, the load callback gets each leaf once and the boundary callback the root once, the base class's default method is used exactly where it is not overridden, and overridden algorithm steps are called at each branch, children first when merging and parents first when splitting, with the four children in order.",
 ["inputs","histories","configurations"],"all trees up to a depth, patch sizes, solver classes, side kinds, stage histories up to a length, and all partitions of small trees on 2-4 ranks, with leaf operators that are generic matrices",
 "No test instantiates the algorithm at all, and the finite-volume operators are symmetric enough to hide transposed or permuted blocks.",
 ["src/HPSAlgorithm.hpp","src/Patch.hpp","src/PatchGrid.hpp","src/PatchSolver.hpp","src/AbstractNodeFactory.hpp","src/Quadtree.hpp","src/QuadNode.hpp"],[("stages and steps","src/HPSAlgorithm.hpp"),("interfaces","src/Patch.hpp, src/PatchGrid.hpp, src/PatchSolver.hpp, src/AbstractNodeFactory.hpp")],observe=["leaf solutions, callback arguments, calls of overridden methods"])

prop("C26","What is printed is what the object holds",
 "Writing a vector or a matrix to a stream gives its size and then every entry in order to the printed precision (magnitudes below 1e-14 may appear as 0), a matrix with one line per row; writing options gives each name once with its value; a node's description gives its path, level and rank range, a grid's its extents, cells and spacings, a patch's its coarsening count, its grid and the sizes of its data; the data size of a patch grows by exactly the memory of the data put into it. Printing changes neither the object nor what is printed next.",
 ["inputs","configurations"],"all vectors and matrices up to a size over finite alphabets, option sets, nodes, grids and patches",
 "No test prints anything.",
 ["src/Vector.hpp","src/Matrix.hpp","src/Options.hpp","src/QuadNode.hpp","src/Patches/FiniteVolume/FiniteVolumeGrid.cpp","src/Patches/FiniteVolume/FiniteVolumePatch.cpp"],[("stream operators","src/Vector.hpp, src/Matrix.hpp, src/Options.hpp, src/QuadNode.hpp"),("descriptions and sizes","src/Patches/FiniteVolume/FiniteVolumePatch.cpp, src/Patches/FiniteVolume/FiniteVolumeGrid.cpp")],observe=["printed text, object state before and after"])

prop("C27","Repeated work runs in bounded memory",
 "However often any sequence of stages (set-up, build, load, solve), merge and split traversals, walks over nodes, cells and patches, solver objects on a mesh, leaf solves, or operations on vectors and matrices (serial or distributed) is repeated, on one rank or on several, the memory, the MPI communicators and the MPI groups in use do not keep growing: everything a repetition allocates is released or reused by the next. The same holds for the whole life of a mesh and its solver once its nodes are deleted.",
 ["histories","inputs","configurations"],"all operation sequences up to a length on all trees up to a depth, option settings and partitions on 1-4 ranks",
 "Leaks only show over long runs with the right tree and partition; no test repeats a stage.",
 ["src/HPSAlgorithm.hpp","src/Quadtree.hpp","src/QuadNode.hpp","src/Mesh.hpp","src/MPI.cpp","src/Matrix.hpp","src/Vector.hpp","src/Patches/FiniteVolume/FiniteVolumeSolver.cpp"],[("traversals","src/Quadtree.hpp"),("stages","src/HPSAlgorithm.hpp"),("leaf solves","src/Patches/FiniteVolume/FiniteVolumeSolver.cpp")],observe=["live bytes, communicators and groups after each repetition"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
