# per property: (oracle and method, why beyond tests / cost note)
HOW = {
"C01": "Four child patches carry Dirichlet-to-Neumann operators whose entries are all arbitrary reals. `merge4to1` is executed; the parent is then split for each unit vector of boundary data (the operators are linear, so unit vectors decide all data; a dense vector guards against order-dependent errors). Oracle: the children's outer data are the parent's, shared sides agree, and T_i g_i balances on the four interfaces; the columns of the parent's T are the outer fluxes. The interface solution comes from the `dgesv` contract, so balance must follow from the blocks the code assembled. The oracle never mentions the library's block or permutation order.",
"C02": "As C01 with arbitrary particular fluxes h_i: after `merge4to1` and `upwards4to1`, T_i g_i + h_i must balance for zero, unit and dense parent data, and the parent's h plus T g must equal the outer fluxes. Sweeps are repeated with new h, and several families (of different and of one size) are swept in turn by the same algorithm object.",
"C03": "`split1to4` with an arbitrary solution operator S, particular interface vector w and parent data g: the four interfaces must take S g + w, the outer sides the parent's data, both children of an interface the same values. Which rows of S belong to which interface is not assumed: it is read off a probe split, and entries that merge first decide that merge and split agree on it.",
"C04": "Siblings with boundary resolutions n, 2n, 4n: the reference reduces each sibling's operator to the common resolution with the averaging and interpolation operators (C13 decides those) and the result of the merge, the sweep and the split must satisfy the C01-C03 oracles for the reduced operators, each child receiving data at its own resolution. The recorded coarsening counts and sizes are compared with those the resolution differences imply.",
"C05": "Root patch with arbitrary T and h and, for every boundary node, arbitrary a, b, r: after `solveStage` (vector and callback overloads), a u + b (T u + h) = r must hold at every node, evaluated at that node's own position on its own side. Also through real trees: a root that is a leaf or parent of four leaves.",
"C06": "`FiniteVolumeSolver::solve` with every value of alpha, beta, lambda at every point the code evaluates them at an arbitrary real (one unknown per point): the PETSc matrix assembly is executed, the solve is the contract A x = f, and the oracle evaluates the five-point equation (conservative fluxes, half-cell one-sided gradients) on the returned vector, cell by cell. The PETSc objects alive before and after one solve and after several are counted and must agree.",
"C07": "`mapD2N`, `buildD2N`, `particularNeumannData`, `rhs`-related fluxes: the reference solves an independently assembled five-point system (contract) and takes one-sided half-cell differences; the operator matrix applied to arbitrary Dirichlet data must give the same, and the particular fluxes those of zero Dirichlet data.",
"C08": "The FISHPACK branch runs against the documented contract of HSTCRT (not a guess about how the library calls it): the model checks HSTCRT's argument rules and returns values constrained by HSTCRT's own difference equations in its own column-major layout; the oracle is the five-point equation in the library's layout, plus that inputs are unchanged.",
"C09": "Each accessor, over every shape within the bounds and every in-range index combination, on matrices of distinct symbolic entries: result and operand are compared entry by entry with the definition.",
"C10": "Entrywise definitions (sum over k of a_ik b_kj, ...) against the result of every operation for every compatible shape; `solve` through the contract must give A X = B with both operands unchanged; chained and repeated use; operands that are the target or one of its entries.",
"C11": "Definitions against results for every length including 0 and every index combination; copies compared after the source changes; operands that are the vector itself or one of its entries.",
"C12": "Indices are symbolic integers around and far beyond the range (wrap-around values and ranges that end before they start included). The oracle is the specification's range; inside it the call must not throw, outside it must throw something derived from std::exception and leave operands as they were. Memory safety is an obligation on every load and store.",
"C13": "Applied to arbitrary sample vectors: averages; exact reproduction of arbitrary linear functions in all rows and quadratics in boundary rows; row sums; shapes; rejection of sizes for which the operator is not defined.",
"C14": "Abscissae (ordered), ordinates and queries are all arbitrary reals; every sequence of queries; each result is compared with the interpolant of the bracketing samples (nonlinear real arithmetic; the bracket is determined by case split). The search state (`jsav`, `cor`) evolves as the code makes it.",
"C15": "Coordinates are symbolic 32-bit integers. The path bytes must be the child indices, level by level (bits of x and y); for pairs, equality and prefix are compared with equality and ancestry of the quadrants. Entirely bit-vector arithmetic.",
"C16": "A tree is built by the real code over the p4est model for every shape; the expected node set is computed from the shape alone (recursion over quadrants): paths, levels, rank ranges, leaf flags; rectangles are compared as expressions in the symbolic domain bounds.",
"C17": "Visitors record what they are called with; the sequence is compared with recursion over the shape. Histories over two trees (same or separate forests) check that nothing is left behind; snapshots of both trees, and of the forest's user pointer, are compared before and after.",
"C18": "Every contiguous partition (choice variables) of each shape; each rank's visits and the data it ends with are compared with those of one rank computed directly from the shape. Sends and collectives synchronise (see 1.2), so a hang under any schedule is reported as deadlock; the whole build/sweep/solve is run on two and three ranks and compared with the composite equations.",
"C19": "Symbolic content is sent, received, broadcast and gathered between simulated ranks; receiver's object compared member by member with the sender's, whatever it held before; the sender's object is compared with its earlier value. Counts, datatypes and tags must match by MPI's rules.",
"C20": "Expressions in the symbolic rectangle bounds are compared with the definition; children of parents and parents of children for every child index and path.",
"C21": "The criterion is a symbolic predicate: one Boolean per cell centre the code asks about. The expected leaf set is the closure computed by the harness (split where asked, uniform minimum, corner balance), independent of p4est's balance; mesh arrays and mesh functions are compared with the leaves in order; a second build must leave nothing behind.",
"C22": "Texts are symbolic characters; the expected type and value come from a grammar evaluated in the harness (automaton over the same characters), values of numbers as exact rationals.",
"C23": "What is written is parsed by the harness's own small XML reader (symbolic characters and numbers stand for themselves) and compared with the object model: nesting, order, attributes, data, extents, counts, piece file names; writing twice, building another mesh in between, and writing through a copy whose source is gone.",
"C24": "Runs the stages repeatedly on real small meshes with new arbitrary data, comparing every leaf's solution with that of a fresh solver on a fresh mesh; both are linear expressions in the data with exact rational coefficients.",
"C25": "Caches: operation sequences against a map kept by the harness. Operator caching: two solvers, with and without, compared in operators and solutions.",
"C26": "The complete program: mesh, setup, build, upwards, solve. All leaves' values gathered by position must satisfy the five-point equation in every cell (the flux across patch boundaries agreeing), the boundary conditions at every node, and keep the right-hand side; for arbitrary data (linear expressions with exact rational coefficients).",
"C27": "ParallelMatrix, ParallelVector and the parallel special matrices run on modelled ranks (MPI model) over a model of PETSc that distributes block rows, keeps entries for other ranks until assembly, exchanges them collectively and counts references. Who sets which entry is a choice, the values are real unknowns; contents are read back through PETSc on every rank and compared with what was put in. References held by the harness show whether each object is released exactly once; a double destroy, a collective call not all ranks make or an object used after its release stops the model. The same harness runs natively with the real PETSc (tools/native.py): all entries agree on sampled inputs.",
"C28": "The clock is replaced by one the harness advances by arbitrary (symbolic) amounts, so the times that timers and stage timers report are linear expressions compared exactly with the time the harness let pass inside and between the measured intervals; for the stages time passes only inside the user's callbacks. The application's life runs against MPI and PETSc models that reject a second start or end and calls outside; its output and log lines are captured and compared. Cost 10-45 s."
}
