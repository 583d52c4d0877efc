NA = {}
p("C01", "Merging four patches enforces flux continuity and yields the parent operator",
  "When four sibling patches are merged, the parent's solution operator maps any data on the parent's outer boundary to interface values for which the outgoing fluxes of the two patches sharing each interface are equal. The parent's Dirichlet-to-Neumann operator maps that boundary data to the outer boundary fluxes of the four patches carrying those interface values, in the order west, east, south, north. This holds for every set of child operators for which the interface system is solvable.",
  ["inputs"], "every entry of the four children's Dirichlet-to-Neumann operators and every parent boundary vector, for several patch sizes", "The tests never merge patches (nothing instantiates the HPS algorithm here); even with them a test would use one Laplace operator per run and could not separate transposed, swapped or sign-changed blocks that happen to agree on symmetric operators.",
  [H], [("merge4to1 / buildD2N / reorderOperators_", H), ("createIndexSets_, createMatrixBlocks_, mergeX_, mergeS_, mergeT_, reorderOperators_", H)], observe=["parent patch matrixX/S/T after a merge"])
p("C02", "Upward sweep carries inhomogeneous data into parent interface values and fluxes",
  "When four siblings carrying particular boundary fluxes are merged upward, the parent's particular interface values balance the outgoing fluxes across every interface when the parent boundary data is zero. The parent's particular boundary fluxes are the children's outer fluxes including the effect of those interface values, in the order west, east, south, north.",
  ["inputs"], "every child operator and every particular flux vector, for several patch sizes", "No test runs an upward sweep; a wrong block or sign only shows for inhomogeneous data on asymmetric operators.",
  [H], [("upwards4to1, mergeW_", H)], observe=["parent vectorH and vectorW after upwards4to1"])
p("C03", "Splitting a parent hands each child exactly its Dirichlet data",
  "When a parent with boundary data is split, each of the four children receives, in the order west, east, south, north, the part of the parent's boundary data on its outer sides and, on its inner sides, the interface values given by the parent's solution operator plus the particular interface values. The two children sharing an interface receive the same values there, and in a homogeneous solve no particular values are used even where a patch still holds some.",
  ["inputs"], "every parent boundary vector, solution operator and particular interface vector, for several patch sizes", "No test splits a patch; a test on a symmetric problem cannot tell swapped children or mirrored sides apart.",
  [H], [("split1to4, applyS_", H)], observe=["children vectorG after split1to4"])
p("C04", "Merging siblings of different refinement is a consistent coarsening",
  "When siblings differ in how many times their boundary has been coarsened or refined, the merge brings all four to a common boundary resolution through the library's averaging and interpolation operators before joining them, and the split hands every child data at the resolution it had before the merge. The number of coarsenings recorded for children and parent equals the resolution differences, and the operator stored for the parent has the size implied by it.",
  ["inputs", "configurations"], "every combination of sibling refinement levels within two levels and every operator entry", "No test has an adaptive mesh; the failure appears only for particular combinations of sibling levels.",
  [H], [("tagPatchesForCoarsening_, coarsen_, coarsenUpwards_, uncoarsen_", H)])
p("C05", "The solve stage imposes the requested boundary condition at the root",
  "For boundary conditions of the form a*u + b*du/dn = r on the four sides of the domain, the root's Dirichlet data computed by the solve stage satisfies the equation at every boundary node with its own coefficients, where du/dn is the flux given by the root operator plus the particular flux. A pure Dirichlet request reproduces the supplied function at the boundary nodes, scaled by the coefficient.",
  ["inputs"], "every root operator, particular flux and every value of a, b and r at each boundary node", "The solve stage is never executed by the tests.",
  [H], [("solveStage (both overloads)", H)])
p("C06", "The patch solver solves the five-point finite-volume system",
  "For variable coefficients alpha, beta and lambda, the patch solution returned for a right-hand side and Dirichlet data on the four sides satisfies, in every cell, alpha times the conservative difference of beta times the face gradient plus lambda times u equal to the right-hand side, with half-cell one-sided gradients to the boundary values. Coefficients are evaluated at that cell's centre and faces, and every library object a solve creates is released by it.",
  ["inputs"], "every grid position and spacing, every coefficient value at every evaluation point, all right-hand sides and boundary data, for several grid sizes", "The solver test measures an error norm for one smooth problem with one boundary type; it needs the FISHPACK library that is absent here and so does not even run reliably.",
  [FV + "FiniteVolumeSolver.cpp"], [("FiniteVolumeSolver::solve, FivePointStencil branch", FV + "FiniteVolumeSolver.cpp")])
p("C07", "Patch boundary fluxes, operator matrix and particular fluxes are consistent",
  "The boundary fluxes a patch solver reports for given Dirichlet data and right-hand side are the one-sided half-cell differences between the boundary values and its interior solution on each side, with +x and +y as positive directions. The operator matrix it builds reproduces those fluxes for every Dirichlet vector with zero right-hand side, and its particular fluxes are those of the right-hand side with zero Dirichlet data.",
  ["inputs"], "every grid spacing, Dirichlet vector, right-hand side and coefficient, for several sizes", "Only a norm of the solution on one problem is tested; the flux operators are not.",
  [FV + "FiniteVolumeSolver.cpp"], [("mapD2N, buildD2N, particularNeumannData, rhs", FV + "FiniteVolumeSolver.cpp")])
p("C08", "The direct (FISHPACK) path passes the same problem and returns the same layout",
  "With the fast direct solver selected, the patch solution satisfies the constant-coefficient five-point equations for the same right-hand side, boundary data and grid, stored in the same cell order as the general solver. The right-hand side and boundary data passed in are left unchanged.",
  ["inputs"], "every grid extent, right-hand side, boundary vector and constant lambda, for several sizes", "FISHPACK is absent in this environment, so the one test of this path crashes.",
  [FV + "FiniteVolumeSolver.cpp"], [("FiniteVolumeSolver::solve, FISHPACK90 branch", FV + "FiniteVolumeSolver.cpp")])
p("C09", "Matrix sub-structure access moves exactly the addressed entries",
  "Reading or writing rows, columns, ranges, blocks, index sets, transposes, block permutations and block-diagonal assemblies of a matrix moves exactly the addressed entries to the addressed places and changes nothing else. Results are independent copies of the right shape.",
  ["inputs"], "every matrix entry value, every in-range index combination and every block partition within the stated shapes", "Tests use one or two fixed square matrices per operation, which hide row/column confusion and rectangular shapes.",
  ["src/Matrix.hpp", "src/SpecialMatrices.hpp"], [("getRow, getCol, operator(), setRow, setColumn, getBlock, setBlock, T, blockPermute, getFromIndexSet, blockDiagonalMatrix", "src/Matrix.hpp"), ("IdentityMatrix, DiagonalMatrix", "src/SpecialMatrices.hpp")])
p("C10", "Matrix algebra and linear solves obey their mathematical definitions",
  "Sums, differences, negation, scaling, matrix-vector and matrix-matrix products equal their mathematical definitions entry by entry for every compatible shape, also when an operand is the matrix itself or one of its entries, and solving a nonsingular system returns an X with A times X equal to the right-hand side, for vector and matrix right-hand sides. The operands are left unchanged except by the updating operators, which return their target.",
  ["inputs"], "every entry value and every compatible shape within the bounds", "Tests use single fixed small matrices, mostly square and several symmetric, which cannot expose a transposition or a leading-dimension mix-up.",
  ["src/Matrix.hpp"], [("operator+,-,*,+=,-=,*=, solve, matrixInfNorm", "src/Matrix.hpp")])
p("C11", "Vector operations compute their elementwise and segment definitions",
  "Elementwise arithmetic, scaling, dot product, segments, ranges, index sets, appending, concatenation, block permutation and norms of vectors equal their definitions for every length including zero, also when an operand is the vector itself or one of its entries. Copies are independent of their source, and the size reported always matches the stored entries.",
  ["inputs"], "every entry value, length and index combination within the bounds", "The only vector test that passes checks construction.",
  ["src/Vector.hpp"], [("Vector operators, getSegment, setSegment, append, getRange, blockPermute, concatenate, vectorInfNorm, vectorL2Norm", "src/Vector.hpp")])
p("C12", "Out-of-range or mismatched arguments throw and never touch other memory",
  "Every element, row, column, range, block, segment, index-set or block-permutation access of a matrix or vector with an index outside the container, and every operation on operands of incompatible dimensions, throws an exception derived from std::exception and leaves the operands unchanged. Accesses with valid indices never throw, and no call reads or writes memory outside the containers.",
  ["inputs"], "every index in and around the valid range (including values that wrap around) and every combination of operand shapes within the bounds", "No test passes an invalid index; memory errors inside one allocation are invisible to them.",
  ["src/Matrix.hpp", "src/Vector.hpp"], [("bounds and dimension checks at the head of each operation", "src/Matrix.hpp"), ("bounds and dimension checks at the head of each operation", "src/Vector.hpp")])
p("C13", "Fine/coarse interface operators conserve averages and reproduce polynomials",
  "The fine-to-coarse operator averages each pair of neighbouring fine values, and the coarse-to-fine operator reproduces every linear function of the cell centres, with every row summing to one and the boundary rows exact for quadratics. Both have the shapes implied by the requested sizes and every size for which they are not defined is rejected.",
  ["inputs"], "every vector of samples and every admissible size within the bounds", "No test builds these matrices.",
  ["src/SpecialMatrices.hpp"], [("InterpolationMatrixFine2Coarse, InterpolationMatrixCoarse2Fine", "src/SpecialMatrices.hpp")])
p("C14", "Interpolation returns the interpolant at every point regardless of call history",
  "For strictly increasing sample points the interpolator returns the piecewise-linear interpolant through the samples at every query point in range, exactly reproducing the samples at the sample points. The result for a query does not depend on the queries made before it.",
  ["inputs", "histories"], "every strictly increasing set of sample points, every sample value and every sequence of query points within the bounds", "One test evaluates one function at increasing points; the search hint that correlates successive calls is only exercised on that history.",
  ["src/Interpolation.hpp", "src/Interpolation.cpp"], [("Base_interp::locate / hunt, Linear_interp::rawinterp", "src/Interpolation.cpp")])
p("C15", "Quadrant paths identify quadrants uniquely and encode ancestry",
  "The path of a quadrant has one more character than its level, starts with 0, and its remaining characters are the child indices on the way from the root. Two quadrants have the same path only if they are the same quadrant, and one path is a prefix of another exactly when its quadrant is an ancestor.",
  ["inputs"], "every quadrant position and level within the bounds", "No test covers paths.",
  ["src/P4est.cpp"], [("p4est_quadrant_path", "src/P4est.cpp")])
p("C16", "The quadtree mirrors the forest, one node per quadrant tiling the domain",
  "Building a quadtree from a forest creates, on every rank, exactly one node for each quadrant of the forest and its ancestors that the rank shares, with the right path, level, rank range and leaf flag. Each node's patch covers exactly the quadrant's part of the domain and the leaves tile the domain without overlap.",
  ["inputs", "configurations"], "every forest shape within the bounds, every domain rectangle, and every partition over the stated ranks", "No test builds a quadtree (the traversal API it needs is missing from the installed library).",
  ["src/Quadtree.hpp", FV + "FiniteVolumeNodeFactory.cpp"], [("Quadtree constructor", "src/Quadtree.hpp"), ("createNode, createChildNode", FV + "FiniteVolumeNodeFactory.cpp")])
p("C17", "Traversals visit every local node exactly once in the promised order",
  "Pre-order and post-order traversals call the visitor exactly once for every node held by the rank, parents before (respectively after) their children and siblings in index order. Merge visits every leaf and every family once, children before parents; split visits parents before children; the children passed to a family callback are the parent's four children in index order. None of them changes the tree, another tree, or what the forest's owner stored in it.",
  ["configurations", "histories"], "every forest shape within the bounds and any sequence of traversals over one or two quadtrees", "No test traverses a quadtree.",
  ["src/Quadtree.hpp"], [("traversePreOrder, traversePostOrder, merge, split and their callbacks", "src/Quadtree.hpp")])
p("C18", "Parallel merge and split give the same result for every partition",
  "When the forest is distributed over several ranks, merging and splitting deliver to every rank sharing a family the same children data as a run on one rank, without deadlock, for every way the leaves are partitioned over the ranks and every order in which messages complete.",
  ["schedules", "configurations"], "every contiguous partition of the leaves over the stated ranks, every interleaving of the ranks' communication and every leaf datum", "All tests run on one rank.",
  ["src/Quadtree.hpp", "src/MPI.hpp", "src/QuadNode.hpp", "src/Patch.hpp"], [("p4est_search_merge_split, node communicators, MPI::broadcast(Node)", "src/Quadtree.hpp")])
p("C19", "Objects sent between ranks arrive equal to what was sent",
  "Sending and receiving, or broadcasting, any scalar, string, vector, matrix, grid, patch or tree node between two ranks leaves the receiver with an object equal to the sender's in every data member that defines it, whatever the receiver held before, and leaves the sender's object unchanged. Gather operations place each rank's contribution at its own position.",
  ["inputs", "schedules"], "every content and size within the bounds, every prior state of the receiver and every interleaving of the ranks", "All tests run on one rank, so nothing is ever serialised.",
  ["src/MPI.hpp", "src/MPI.cpp", "src/Vector.hpp", "src/Matrix.hpp", "src/QuadNode.hpp", "src/Patch.hpp", FV + "FiniteVolumeGrid.cpp", FV + "FiniteVolumePatch.cpp"], [("send/receive/broadcast overloads", "src/MPI.hpp")])
p("C20", "Grid geometry and patch families are consistent",
  "A grid's cell centres lie at lower + (i+1/2)*spacing in each direction with spacing = (upper-lower)/count. Creating the four children of a patch splits its rectangle at the midpoints with the same cell counts and extends the path and level, and creating the parent from its four children recovers the parent's rectangle, path and level.",
  ["inputs"], "every rectangle and cell count within the bounds, for every child index", "The tests check one unit square with one size.",
  [FV + "FiniteVolumeGrid.cpp", FV + "FiniteVolumeNodeFactory.cpp", FV + "FiniteVolumePatch.cpp"], [("FiniteVolumeGrid, createChildNode, createParentNode", FV + "FiniteVolumeNodeFactory.cpp")])
p("C21", "Mesh refinement follows the criterion and its arrays describe the cells",
  "Refining by a function yields the smallest tree, 2:1 balanced across sides and corners, that contains the uniform tree of the minimum level and in which every quadrant coarser than the maximum level with a cell centre satisfying the criterion has been split. The mesh arrays then list every cell of every leaf once with its four corners, connectivity and cell count, and a mesh function holds its value at each cell centre in the same order.",
  ["inputs", "histories"], "every refinement criterion over the cell centres within the bounds and every domain rectangle, including building the mesh again", "No test builds a mesh.",
  ["src/Mesh.hpp"], [("refineByFunction, setMeshFromQuadtree, addMeshFunction, iterateCells", "src/Mesh.hpp")])
p("C22", "Options and command-line or file settings are parsed to the intended type",
  "A setting given as a long command-line option (--name=value) or in the [EllipticForest] section of an ini file is stored under its name with the type its text denotes: booleans, integers including negative ones, floating-point numbers including exponents, and otherwise the text itself. Short options (-name=value) keep their text, options without a value are empty texts, other arguments, other sections and comment lines store nothing, the last setting of a name wins, and white space in a file setting is ignored. Reading a setting back returns exactly that value, and no setting text makes the parser throw.",
  ["inputs"], "every option text up to the stated length over a representative alphabet", "No test parses options.",
  ["src/Options.hpp", "src/Options.cpp", "src/InputParser.hpp", "src/InputParser.cpp"], [("Options::checkValue, setFromCommandLine, setFromFile, InputParser", "src/Options.cpp")])
p("C23", "XML and VTK output is well formed and carries the data given",
  "Writing an XML tree produces properly nested elements in insertion order with every attribute and data item present. VTK output names the right extents or counts, lists every data value in order, and an index file of parallel output refers to the files actually written. Every write shows the mesh given last, also a repeated write and one through a copy of the writer.",
  ["inputs"], "every tree shape and attribute text within the bounds; every data value and grid size within the bounds", "The XML test writes one fixed tree without checking the text; VTK output is not tested.",
  ["src/XMLTree.hpp", "src/XMLTree.cpp", "src/VTK.hpp", "src/VTK.cpp"], [("XMLNode::toXML, XMLTree::write, RectilinearGridVTK, UnstructuredGridVTK", "src/VTK.cpp")])
p("C24", "Stages can be repeated and still give the result of a fresh run",
  "Running the build, upwards and solve stages again on the same solver and mesh, with new right-hand sides or boundary data, gives the same patch solutions as a fresh solver would, on uniform and adaptive meshes.",
  ["histories"], "every right-hand side, boundary value and operator entry, and the repetition patterns build-upwards-solve, repeated solves and repeated builds", "No test runs the stages even once.",
  [H], [("buildStage, upwardsStage, solveStage and the state they leave in patches", H)])
p("C25", "Caching never changes results",
  "A data cache returns exactly the last value stored for a key and reports only keys that were stored. For coefficients that do not vary over the domain, enabling operator caching gives the same patch operators and solutions as recomputing them, on uniform and adaptive meshes.",
  ["inputs", "histories"], "every key and value sequence within the bounds; every mesh within the bounds with caching on and off", "Two tests store fixed values; operator caching is not tested.",
  ["src/DataCache.hpp", H], [("DataCache", "src/DataCache.hpp"), ("setupStage / leaf caching", H)])
p("C26", "A complete solve satisfies every discrete equation of the composite mesh",
  "After the setup, build, upwards and solve stages on a mesh of same-level patches, the cell values of all leaves together satisfy the five-point equation in every cell, with fluxes equal on both sides of every shared cell face and the prescribed boundary condition on the domain boundary. This holds for every right-hand side, boundary data and variable coefficient for which the systems are solvable.",
  ["inputs", "configurations"], "every right-hand side, boundary datum and coefficient value on the meshes within the bounds", "No test runs a full solve; an end-to-end convergence test would compare one smooth solution within a tolerance.",
  [H, "src/Mesh.hpp", "src/Quadtree.hpp", FV + "FiniteVolumeSolver.cpp"], [("HPSAlgorithm stages", H)])
p("C27", "Distributed matrices and vectors hold what was put into them and release it once",
  "A ParallelMatrix or ParallelVector, on any number of ranks, holds after assembly exactly the entries the ranks set or added, wherever they are stored: single entries, rows and columns of values, blocks, whole serial matrices and vectors, and the ones of an identity matrix. It reports its true global and local sizes. Gathering, taking a sub-matrix or moving it to another communicator keeps every entry. Copies and assignments share the underlying PETSc object, which is released exactly once, when the last owner goes.",
  ["inputs", "configurations"], "every value, every rank that sets an entry, and every order in which owners go", "The tests set a few fixed entries of one size on one rank count and never copy, assign or move a distributed object.",
  ["src/Matrix.hpp", "src/Vector.hpp", "src/SpecialMatrices.hpp", "src/SpecialMatrices.cpp"], [("ParallelMatrix", "src/Matrix.hpp"), ("ParallelVector", "src/Vector.hpp")])
p("C28", "The application object times the work and starts and ends the libraries once",
  "Every timer reports exactly the time that passed between its starts and stops since it was last reset, whatever other timers do, and each solver stage's timer holds the time of its latest run. The application that was constructed is the one instance every part of the code sees, with the options of the command line. It starts MPI and PETSc if nobody has, ends them once if nobody has, and reports all timers at its end. Log messages appear once on every rank, or once on the head rank only, with their arguments and rank.",
  ["inputs", "histories"], "every sequence of timer operations and every amount of time between them; every state MPI and PETSc can be in before and after", "No test checks a timer, a log line, the application's options or a program in which MPI is already running.",
  ["src/EllipticForestApp.cpp", "src/EllipticForestApp.hpp", "src/Timer.cpp", "src/Logger.hpp", "src/GenericSingleton.hpp"], [("EllipticForestApp", "src/EllipticForestApp.cpp"), ("Timer", "src/Timer.cpp"), ("Logger::log", "src/Logger.hpp"), ("stage timers", H)])
