"""Writes /verif/properties.jsonl (edit here, run, commit both)."""
import json, pathlib
ST="src/dxss/space_time.py"; TI="src/dxss/precomp_time_int.py"; GM="src/dxss/gmres.py"; ME="src/dxss/meshes.py"
D1,D2,D3="src/dxss/solve_1d.py","src/dxss/solve_2d.py","src/dxss/solve_3d.py"
NODOLF="No test of this module can even be imported here and upstream tests sample one configuration; "
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
      observe_at=observe or [], hook_needed=None)))

p("C01","Slab systems are the diagonal blocks of the space-time system",
 "For every choice of polynomial orders, number of slabs, stabilisation weights and mesh, the bilinear form of the whole space-time system is the sum over all time slabs of the stand-alone slab form (without inter-slab jumps) placed at that slab's unknowns, plus one inter-slab jump form per pair of neighbouring slabs acting on the last time node of the earlier and the first time node of the later slab. The slab form with jumps is the jump-free slab form plus exactly the penalty of the slab's own initial time node (value and gradient of the first field, value of the second).",
 ["inputs","configurations"],"all orders q, qstar, k, kstar, all N, T, weights, meshes; both problem switches",
 NODOLF+"a missing or mis-scaled term in one of the sibling forms still yields solvable systems and passing slab round-trip tests, which only check A^-1 A x = x.",
 [ST],[("space-time form","SpaceTime.setup_spacetime_matrix"),("slab form","SpaceTime.setup_slab_matrix"),("coupling form","SpaceTime.setup_coupling_matrix_between_slices"),("interface mass","SpaceTime.setup_scaled_mass_matrix_between_slices")],
 observe=["assembled matrices"])
p("C02","Matrix-free operator application equals the assembled space-time matrix",
 "Applying the space-time operator to a vector without assembling it gives exactly the product of the assembled (unpreconditioned) space-time matrix with that vector, for every input vector and every configuration, whatever the output vector held before. Every time slab contributes its slab product once and every pair of neighbouring slabs contributes its coupling product once, gathered from and scattered to the same unknowns.",
 ["inputs","configurations"],"all vectors, orders, N, meshes, switches",
 NODOLF+"no test compares the two, and an index slip shows only for particular q != qstar or N > 1.",
 [ST],[("gather / multiply / scatter","SpaceTime.apply_spacetime_matrix"),("block addressing","SpaceTime.setup_spacetime_finite_elements"),("PETSc adapter","SpaceTimePETScMatrixWrapper.mult")],
 observe=["output vector of the shell matrix"])
p("C03","The space-time optimality system is symmetric",
 "The assembled space-time matrix (without the preconditioner's one-sided coupling), the jump-free slab matrix, the inter-slab coupling matrix and the interface mass matrix are all symmetric: exchanging trial and test function leaves every form unchanged, for all orders, weights and switches.",
 ["inputs","configurations"],"all orders, N, weights, switches",
 NODOLF+"no test looks at matrix entries.",
 [ST],[("forms","SpaceTime.setup_spacetime_matrix"),("forms","SpaceTime.setup_slab_matrix"),("forms","SpaceTime.setup_coupling_matrix_between_slices"),("forms","SpaceTime.setup_scaled_mass_matrix_between_slices")],
 observe=["assembled matrices"])
p("C04","Slab system is the stabilised first-order wave-equation optimality system",
 "The slab form consists of: the weak wave operator of the first-order system tested with the dual fields (time derivatives, space gradients, Nitsche boundary flux) and its adjoint; the data term weighted by the data weight on the data domain; minus the dual stabilisation (H1 and L2 plus Nitsche boundary penalty) weighted by the dual weight; plus the primal stabilisation weighted by the primal weight (boundary penalty, facet gradient jumps, squared residual of u2 = dt u1 and squared h-weighted residual of dt u2 = Laplace u1). Each term carries the time-integration matrix, power of the slab length, mesh-size weight, measure and sign that this requires, with the Nitsche parameter 5 k^2, slab length T/N and mesh size the cell diameter.",
 ["inputs","configurations"],"all orders, slab lengths, meshes, weights",
 NODOLF+"slab tests check only that the LU solver inverts whatever matrix was assembled.",
 [ST],[("slab form","SpaceTime.setup_slab_matrix"),("derived parameters","SpaceTime.__init__")],observe=["assembled slab matrix"])
p("C05","Right-hand side is the data term of the matrix applied to the measured data",
 "The right-hand side tests, in every time slab, the reference solution at the quadrature times of that slab (physical time of slab n plus slab length times node) against the first primal field's time basis at the same node, with quadrature weight, slab length, data weight and data-domain indicator exactly as the matrix's data term has them, and nothing else unless the problem is declared well-posed. For a well-posed problem it additionally carries, in the first slab only, the initial-data terms with the same weights as the matrix's initial-value penalty.",
 ["inputs","configurations"],"all orders, N, T, weights, solutions, switches",
 NODOLF+"a wrong quadrature time or weight leaves all solves converging.",
 [ST],[("right-hand side","SpaceTime.setup_rhs")],observe=["assembled right-hand side vector"])
p("C06","Time marching solves the block lower triangular (one-sided) system slab by slab",
 "Preconditioning a vector visits the slabs in increasing time order, solves exactly one slab system per slab (first-slab solver for the first, general slab solver for all others) whose right-hand side is that slab's part of the input plus the jump terms of the previous slab's solution at its final time node, and writes every slab's solution to that slab's unknowns and nowhere else. The jump terms are those that the one-sided (preconditioner) variant of the space-time form couples slab n to slab n-1 with.",
 ["inputs","histories"],"all input vectors, orders, N, switches supported by the variant",
 NODOLF+"the only test of it is skipped upstream.",
 [ST],[("variational time marching","SpaceTime.pre_time_marching"),("algebraic time marching","SpaceTime.pre_time_marching_improved"),("one-sided form","SpaceTime.setup_spacetime_matrix(precond=True)"),("PETSc adapter","SpaceTimePETScPreconditionerWrapper.apply")],
 observe=["calls on the slab solvers","output vector"])
p("C07","Both time-marching variants are the same operator; unsupported use is refused",
 "The algebraic time-marching variant passes the same right-hand side to the same solver in every slab and produces the same output as the variational variant, for every input when the forward problem has no jump terms. When the forward problem has jump terms the algebraic variant refuses with an error before touching its output, instead of silently returning something else.",
 ["inputs","configurations"],"all input vectors, orders, N, both switches",
 NODOLF+"the variants are never compared.",
 [ST],[("variational","SpaceTime.pre_time_marching"),("algebraic","SpaceTime.pre_time_marching_improved"),("interface mass","SpaceTime.setup_scaled_mass_matrix_between_slices")],
 observe=["slab right-hand sides","output vector"])
p("C08","Operator and preconditioner applications keep no state between calls",
 "The result of applying the space-time operator, either time-marching preconditioner, the grid transfers or the two-level preconditioner depends only on the input vector and the set-up system: never on what earlier applications left in work vectors or on the previous content of the output vector. The input vector is never modified.",
 ["histories","inputs"],"all sequences of applications on one solver object",
 "GMRES correctness needs a fixed linear operator; a test applies each once on a fresh object.",
 [ST],[("work vectors","SpaceTime.apply_spacetime_matrix"),("carry-over","SpaceTime.pre_time_marching"),("carry-over","SpaceTime.pre_time_marching_improved"),("transfers","SpaceTime.prolongation / restriction / q_op / pre_twolvl")],
 state=[("work vectors","slab, coupling, interface and coarse scratch vectors","SpaceTime attributes")],observe=["output vectors of repeated applications"])
p("C09","Grid transfer and two-level preconditioner act blockwise and combine correctly",
 "Prolongation and restriction map every (field, slab, time-node) block of one vector by finite-element interpolation to the same block of the other, each block exactly once. The two-level preconditioner returns the coarse correction Q b (restrict, coarse solve, prolong) plus the time-marching preconditioner applied to the residual b - A Q b.",
 ["inputs","configurations"],"all vectors, orders, N, mesh pairs",
 NODOLF+"no test or driver calls these functions.",
 [ST],[("transfers","SpaceTime.prolongation / restriction"),("coarse correction","SpaceTime.q_op"),("two-level","SpaceTime.pre_twolvl"),("coarse space","SpaceTime.prepare_coarse_grid_correction")],observe=["output vectors"])
p("C10","Any documented set-up order leaves the solver usable",
 "After the finite element set-up and the preconditioner preparation, in any order relative to and interleaved with the lazily building matrix and right-hand-side getters, and for every combination of problem switches, every operator, preconditioner and getter finds all the matrices and work vectors it needs; none is left missing because some other one was built earlier.",
 ["histories","configurations"],"all interleavings of set-up and getter calls; all switch combinations",
 "Tests and drivers use one call order and the default switches.",
 [ST],[("lazy builders","SpaceTime.get_* / prepare_precondition_gmres"),("builders","SpaceTime.setup_*")],
 state=[("lazily built members","None until built","SpaceTime attributes")],observe=["absence of missing-member errors"])
p("C11","Cached matrices and forms are the requested ones",
 "A getter returns the object that was asked for: the space-time matrix or form for the requested (one-sided or full) variant whatever was requested before, the slab matrix with jumps, and as first-slab matrix the slab matrix with initial-value penalty if and only if the problem is declared well-posed. Matrix and form returned as a pair or by sibling getters belong to each other. Objects do not share them: a solver object built later in the same process, on another mesh or with other weights or final time, returns its own.",
 ["histories","configurations"],"all sequences of getter calls with all argument values",
 "No test calls a getter twice with different arguments.",
 [ST],[("caches","SpaceTime.get_spacetime_matrix / get_spacetime_bfi / get_slab_*"),("selection","SpaceTime.setup_slab_matrix")],observe=["returned matrices and forms"])
p("C12","The user's data-domain indicator decides where data is used, and stays untouched",
 "The data terms of all systems and right-hand sides are weighted with the indicator the user supplied: its interpolation into piecewise constants when the data domain is declared fitted, the supplied expression itself otherwise. The user's data-domain description and weight table are left unmodified, so the same objects can configure further solvers.",
 ["inputs","histories"],"all indicators, fitted or not, reused across solver objects",
 NODOLF+"no test looks at the indicator values used.",
 [ST],[("indicator set-up","SpaceTime.__init__"),("coarse indicator","SpaceTime.setup_spacetime_matrix")],observe=["data terms of the forms","the caller's objects after construction"])
p("C13","Constructor arguments and problem switches reach the quantities they name",
 "Polynomial orders in time select the time bases, time matrices and numbers of time nodes per slab of the primal and dual fields, orders in space the element degrees (primal k, dual kstar), and the two named problem switches are stored under their own names however the parameter object is written. Defaults are both switches off.",
 ["inputs","configurations"],"all argument combinations",
 "The existing test of the solver defaults is skipped, and swapped switches or orders are invisible when the tests use equal orders.",
 [ST],[("constructor","SpaceTime.__init__"),("parameter object","ProblemParameters"),("spaces","SpaceTime.setup_spacetime_finite_elements")],observe=["function spaces","time tables"])
p("C14","Reported errors are the error norms they are named after",
 "For every discrete solution the error report contains: the L2 error of the first field at the final time; the maxima over all sample times of the L2 error of the field and of its time derivative; and the root of the slab-wise quadrature of the squared L2 error of the time derivative. In all slabs after the first the discrete solution is evaluated with the lifting of its jump to the previous slab, derivative and value consistently.",
 ["inputs","configurations"],"all solution vectors, orders, N, exact solutions",
 NODOLF+"the smoke test only checks that nothing raises.",
 [ST],[("error measurement","SpaceTime.measured_errors")],observe=["returned dictionary"])
p("C15","Global quantities are reduced over all processes; no rank-guarded collectives",
 "Every locally integrated error is summed over all processes of the mesh's communicator before it is used, compared or reported. No operation in which all processes must take part is executed under a condition that depends on the process rank.",
 ["schedules","configurations"],"all process counts",
 "Tests run on one process, where every reduction is the identity and no rank branch diverges.",
 [ST,ME],[("reductions","SpaceTime.measured_errors"),("rank guards","get_mesh_* / create_initial_mesh_convex")],observe=["reported errors on several processes"])
p("C16","Post-processing and plotting only read the solution and use the right time basis",
 "Measuring errors, plotting and exporting never modify the solution vector handed in, nor the initial data from which the right-hand side is built. Plotted values at a time inside slab n are the time-basis combination (value basis for the field, derivative basis over slab length for its derivative) of that slab's time nodes, placed in that time's row.",
 ["inputs","histories"],"all solution vectors, orders, N, resolutions, call orders",
 NODOLF+"plots are never inspected by a test.",
 [ST],[("plots","SpaceTime.plot / plot_error"),("export","SpaceTime.plot_para_view"),("errors","SpaceTime.measured_errors")],observe=["vectors after the call","plotted arrays"])
p("C20","Time bases are nodal Lagrange bases with matching derivatives in both tables",
 "For every supported order the value basis is the Lagrange basis at the equidistant nodes of [0,1] (order 0: the constant one): it has order+1 members, each 1 at its own node and 0 at the others. The derivative table is the exact derivative of the value table, and the table used to precompute the time matrices is the same basis as the one used for evaluation.",
 ["inputs"],"all orders 0-3 and every time in [0,1]",
 "No test exercises the tables; sampling points cannot establish polynomial identity and several errors cancel at the nodes.",
 [TI],[("callable tables","basis_in_time"),("symbolic table","get_elmat_time")],observe=["basis values"])
p("C21","Quadrature rules integrate polynomials to their order on every interval",
 "For every supported rule (Gauss-Radau 3,4,5; Gauss 1,2,3; Newton-Cotes 2,3; midpoint) and every interval, nodes mapped to the interval and weights scaled to its length integrate all polynomials up to the rule's degree exactly (tabulated six-digit constants: to that accuracy), with as many nodes as weights and all nodes inside the interval, Gauss-Radau including the left end point.",
 ["inputs"],"all rules, intervals and polynomials up to the degree (2m-2, 2m-1, trapezoid 1, Simpson 3)",
 "No test uses the rules; a wrong digit or swapped weight is invisible to solver convergence.",
 [TI],[("tables","QuadRule.__init__"),("mapping","QuadRule.current_pts"),("weights","QuadRule.t_weights")],observe=["points and weights"])
p("C22","Precomputed time matrices are the time integrals they are named after",
 "Every precomputed time matrix has one row per test member and one column per trial member and contains, for all supported order pairs, the integral over [0,1] of trial times test (M), trial derivative times test (DM) and trial derivative times test derivative (DDM) of the named orders.",
 ["inputs","configurations"],"all supported (q, qstar) pairs, including q != qstar",
 "No test calls it; transposition is invisible for the symmetric matrices and equal orders.",
 [TI],[("time matrices","get_elmat_time")],observe=["returned dictionary of matrices"])
p("C23","The jump lifting is a nodal polynomial and its derivative function matches it",
 "The lifting polynomial used to make the discrete solution continuous in time equals 1 at the left end of the reference interval [-1,1] and 0 at each of its remaining nodes, and the companion derivative function is its exact derivative everywhere.",
 ["inputs"],"every time",
 "No test evaluates it; polynomial identity cannot be sampled.",
 [TI],[("lifting","theta_ref"),("derivative","d_theta_ref")],observe=["function values"])
p("C30","GMRES never returns a solution that did not converge",
 "Whenever the iterative solver reports divergence for any reason (including running out of iterations), the call raises instead of returning; a normal return happens only after exactly one solve whose convergence status was examined after it finished.",
 ["inputs","fault_sequences"],"all systems, preconditioners, tolerances and iteration limits",
 "All tests solve tiny well-conditioned systems that converge.",
 [GM],[("status check","get_gmres_solution")],observe=["raised error / returned pair"])
p("C31","GMRES honours every caller-supplied control, including zero",
 "Absolute tolerance, relative tolerance, iteration limit and restart length passed by the caller are what the solve uses, also when they are zero; documented defaults (100 iterations, 1e-12 absolute, 1e-7 relative, restart 1000) apply only to arguments left out. Runtime solver options are consulted after these settings and before the solve, so what the user sets there is not overridden, and no call leaves a control behind for later calls.",
 ["inputs","configurations"],"all argument combinations",
 "Tests use default arguments only.",
 [GM],[("controls","get_gmres_solution")],observe=["solver state at solve time"])
p("C32","GMRES solves the given system with the given preconditioner, inputs untouched",
 "The operator of the solve is the supplied matrix object in the size of the right-hand side, the preconditioner is the supplied one, the method is GMRES, the right-hand side is the supplied vector, which is not modified. The returned pair is the solution of this solve, in storage distinct from the right-hand side, and the residual built after it; all of this also holds for every later call, which leaves the vectors returned earlier alone.",
 ["inputs"],"all systems and preconditioners",
 "Tests use only an identity preconditioner and default start; using no preconditioner at all would pass.",
 [GM],[("wiring","get_gmres_solution")],observe=["solver state at solve time","returned pair"])
p("C33","Convergence printing is under the caller's control and never affects the solve",
 "Per-iteration residual output is produced if and only if the caller asked for it (default yes), and reports the iteration number and residual the solver passed in, whatever earlier calls asked for.",
 ["inputs"],"both settings, all solves",
 "Tests do not look at output.",
 [GM],[("monitor","convergence_monitor"),("switch","get_gmres_solution")],observe=["standard output"])
p("C40","Every mesh generator leaves no mesh-generation session open",
 "On every process and every normal return each mesh generator closes the mesh-generation session it opened, exactly once, and uses the session only while it is open, so that generators can be called repeatedly and in any order.",
 ["histories","schedules"],"all generators, arguments, ranks and call sequences",
 "Tests call one generator once on one process.",
 [ME],[("session","get_mesh_* / create_initial_mesh_convex / get_3d_mesh_data_all_around")],observe=["gmsh session state after return"])
p("C41","Mesh hierarchies are nested and have the requested number of levels",
 "A hierarchy generator asked for n refinements returns n+1 meshes, coarsest first: the first is the generated mesh and each next one is the uniform refinement of the one before it, with the entities the refinement needs created beforehand. The size scale passed by the caller is the one the generator uses, and the family generator halves it per level.",
 ["inputs","configurations"],"all refinement counts and size scales",
 "Tests use one generator with one argument pair and one level of it.",
 [ME],[("refinement loops","get_mesh_hierarchy*, get_mesh_data_all_around, get_3d_mesh_data_all_around"),("family","get_mesh_convex")],observe=["returned list"])
p("C42","Mesh files are written by one process and read only after they are written",
 "In every file-based mesh generator only the root process creates geometry and writes the intermediate files, and every process reads exactly those files after they have been written.",
 ["schedules"],"all process counts and interleavings",
 "Tests run on one process.",
 [ME],[("root-guarded writes","file-based generators")],observe=["file accesses per rank"])
p("C43","Direct mesh import accepts exactly the consecutive node numberings",
 "The generators that hand nodes and cells to the finite element library directly accept a mesh whose sorted node tags are consecutive and raise an error otherwise, and pass on node coordinates sorted by tag with zero-based cell connectivity in the library's vertex order.",
 ["inputs"],"all generated node numberings",
 "No test calls these generators.",
 [ME],[("numbering check","get_mesh_inclusion / get_mesh_inclusion_square / get_mesh_bottom_data")],observe=["raised error / returned mesh"])
p("C44","Every subdomain and the outer boundary are marked exactly once",
 "Each generator marks every surface of its geometry in exactly one physical group, and the unit-square generators mark as boundary exactly the curves whose centre lies on one of the four sides, before meshing and before the mesh is written.",
 ["inputs","configurations"],"all geometries the generators build",
 "Tests never look at the markers; an unmarked surface silently disappears from the written mesh.",
 [ME],[("marking","2D generators")],observe=["physical groups at mesh generation"])
p("C45","Mesh refinement works with every supported version of the finite element library",
 "Every mesh generator that refines calls the library in the form that the installed supported version expects (the call signature changed between the two supported releases).",
 ["configurations"],"all generators x supported library versions (0.6, 0.7)",
 "CI exercises a single generator.",
 [ME],[("version switch","get_mesh_data_all_around and siblings")],observe=["library calls"])
p("C46","Default arguments of every mesh generator build a valid geometry",
 "Called with its default arguments every mesh generator builds a valid geometry: every rectangle, disk and box has positive extent, no shape is created under a tag that is already in use, Boolean operations only name shapes that exist at that point, every planar piece lies in one plane, and the resulting pieces cover the domain the generator announces without holes.",
 ["configurations"],"all generators with their default arguments",
 "Most generators are never called by a test.",
 [ME],[("geometry","get_mesh_* / create_initial_mesh_convex")],observe=["geometry kernel calls","returned mesh"])
p("C50","Drivers solve the assembled system with matching slab solvers on every backend",
 "Every solver driver passes its assembled right-hand side and operator to the solve in their proper roles on every backend branch, with the general slab solver built from the general slab matrix and the first-slab solver from the first-slab matrix, each an exact (direct) solver, after the preconditioner was prepared; the fallback branch solves the assembled system for the solution and does not overwrite the right-hand side.",
 ["configurations"],"all drivers x backends (pypardiso, PETSc LU, assembled fallback)",
 "CI covers one backend of the 1d driver.",
 [D1,D2,D3],[("backend branches","solve_problem"),("direct solver","get_lu_solver / PySolver")],observe=["calls on solvers"])
p("C51","Reference solutions solve the wave equation and their stated derivative is exact",
 "In every driver the reference solution satisfies the homogeneous wave equation and vanishes on the boundary of the driver's domain at all times, and the companion function is its exact time derivative.",
 ["inputs"],"all times and points",
 "Error reports are only meaningful if this holds; no test checks it.",
 [D1,D2,D3],[("reference solutions","sample_sol / dt_sample_sol")],observe=["function values"])
p("C52","Data-domain indicators are zero-one on the documented region, fitted if declared",
 "Every indicator used by a driver is 1 exactly on its data region and 0 elsewhere (1d: the left fifth, for the convex indicator both outer fifths; 2d: outside the inner square [0.2,0.8]^2; 3d: the slab of the driver's data size at x = 0, or, with the geometric control condition, everything closer than the data size to the boundary of the unit cube; points on the region's edge may go either way), for every array of points including the empty one, and a data domain declared as fitted has its interfaces on mesh facets (1d and 3d: interface position is a multiple of the cell size; 2d: on the interfaces the mesh generator builds).",
 ["inputs","configurations"],"all point arrays; all refinement levels offered by the drivers",
 "No test evaluates an indicator.",
 [D1,D2,D3,ME],[("indicators","omega_ind*"),("geometry","get_mesh_data_all_around, create_unit_interval, create_box")],observe=["indicator values"])
p("C53","Optional solver backend is never needed and never touched when absent",
 "Every driver imports and runs when the optional direct-solver package is absent: it then selects the default backend (the GMRES solve preconditioned with PETSc LU slab solvers), warns when the optional backend's adapter is constructed anyway, and no statement executed under the default backend refers to the missing package.",
 ["configurations"],"backend installed or not, all drivers",
 "The tests that mock its absence reload only one driver.",
 [D1,D2,D3],[("import guard","module level of the drivers"),("adapter","PySolver")],observe=["import and calls"])
p("C60","No operation can fail on an unresolved name, missing member or wrong arity",
 "Every name, imported symbol, member access and call in every function of the package resolves: names are bound on every feasible path before use, members exist on the objects they are read from, and calls match the signature of what they call (package functions and classes, and installed libraries).",
 ["programs","inputs"],"every function and every path, executed or not",
 "Seven of nine modules are never imported by a passing test and most functions are never called by any test.",
 [ST,TI,GM,ME,D1,D2,D3],[("whole package","src/dxss")],observe=["NameError / AttributeError / TypeError / UnboundLocalError"])
p("C61","Sparse-matrix export preserves the matrix",
 "Exporting an assembled matrix to the external sparse format and solving with the external direct solver uses the same entries, column indices and row offsets as the assembled matrix, and the external solver's solution is written completely to the output vector.",
 ["inputs"],"all matrices",
 "The optional backend is not installed here; no test compares matrices.",
 [ST,D1,D2,D3],[("export","get_sparse_matrix"),("adapter","PySolver.solve")],observe=["exported matrix","output vector"])
# honest not-applicable ones
p("N01","Discrete solution converges at the theoretical rates",
 "Under mesh and slab refinement the computed solution converges to the exact solution with the order the theory gives for the chosen polynomial degrees.",
 ["inputs","configurations"],"all smooth solutions and refinement sequences","Tests run one coarse configuration.",[ST],[("whole method","SpaceTime")])
p("N02","Time-marching preconditioned GMRES converges within the iteration budget",
 "For every well-stabilised configuration the preconditioned iteration reaches the tolerance within the drivers' iteration limit.",
 ["inputs","configurations"],"all configurations","Convergence depends on the spectrum of the preconditioned operator.",[GM,ST],[("GMRES","get_gmres_solution")])
p("N03","Slab matrices are invertible",
 "For positive stabilisation weights and admissible polynomial orders every slab matrix is nonsingular, so the direct slab solves succeed.",
 ["inputs","configurations"],"all weights, orders, meshes","Tests factorise two matrices.",[ST],[("slab systems","SpaceTime.setup_slab_matrix")])
p("N04","Parallel dof layout and ghost updates are consistent",
 "Assembled vectors, block index maps and work vectors address the same unknowns on every process, with ghost contributions accumulated and updated.",
 ["schedules","configurations"],"all process counts and partitions","Tests run serially.",[ST],[("local array access","SpaceTime")])
p("N05","Generated geometries resolve the intended subdomains geometrically",
 "After all boolean operations every generated geometry consists of exactly the intended subdomains, each at its intended place.",
 ["inputs"],"all size parameters and interface positions","No test inspects geometry.",[ME],[("boolean operations","gmsh OpenCASCADE calls")])
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    assert n<=3,(x["id"],n)
print(len(P))
