"""Per-property metadata: rule, level, trusted base."""
BASE = ["the abstract transfer functions of the engine (Python semantics, library summaries in /verif/dxsa)",
        "exact rational arithmetic stands for floating point"]
PROPS = {}


def prop(pid, technique, rule, note, trusted=()):
    PROPS[pid] = dict(technique=technique, rule=rule, level="other", note=note, trusted=BASE + list(trusted))


prop("C20", "abstract interpretation of the basis tables to polynomial normal forms, compared with derived Lagrange polynomials",
     "Every table entry is reduced by abstract interpretation to its polynomial normal form and compared, coefficient by coefficient, with the Lagrange polynomial derived independently; derivative entries with the formal derivative of the value entry; Gram matrices of the precomputation with integrals of the evaluation basis.",
     "Complete for all four supported orders and all times (polynomial identity, coefficient tolerance 1e-9).")
prop("C21", "abstract interpretation of the quadrature rules to affine normal forms, compared with exactly derived rules",
     "Nodes and weights on [a,a+h] are reduced to affine normal forms in a and h; their reference values are compared with the unique rule of that degree, derived from Legendre polynomials.",
     "Complete for the nine supported rules and every interval; tabulated six-digit rules to 1e-6.")
prop("C22", "abstract interpretation of the matrix precomputation, entries compared with derived integrals",
     "For every supported (q,qstar) pair each entry of each returned matrix is reduced to a rational and compared with the integral of the derived Lagrange basis in (test row, trial column) position.",
     "Complete for the 16 supported order pairs.")
prop("C23", "abstract interpretation of the lifting to its polynomial normal form",
     "theta_ref and d_theta_ref are reduced to polynomials; nodal values and the formal derivative are compared.",
     "Complete: polynomial identity.")
prop("C30", "typestate analysis: gated exit conditions over the solver's convergence status",
     "The condition under which the call returns normally is computed as a boolean value number over the status of the solve; it must exclude every divergence code, include every convergence code, and exactly one solve may precede it.",
     "All inputs; relies on PETSc reporting divergence by a negative reason.", ["PETSc reason codes: divergence is negative"])
prop("C31", "configuration-flow analysis of solver controls from parameters to the solve site",
     "The solver configuration at the solve site is computed as a value number of the call's parameters: given (also zero) values must arrive unchanged, omitted ones as the documented defaults, and runtime options must be read after the last setting.",
     "All parameter values, every parameter given, zero or omitted.")
prop("C32", "configuration-flow and alias analysis at the solve site and of the returned pair",
     "Operator, size, preconditioner, method, right-hand side and solution storage at the solve site are resolved by value and alias; the returned pair must be that solve's solution and the residual built after it; the supplied vector has no write.",
     "All inputs.")
prop("C33", "gated dataflow of the monitor set at the solve site; effect analysis of the monitor",
     "The monitors installed at the solve site are computed as a function of the switch; the monitor's output must carry the iteration number and residual it was passed; all other solver configuration must be independent of the switch.",
     "All inputs.")

ST = ["fem.form/assemble_matrix assemble the form they are given; FEM summaries in dxsa/fem.py"]
prop("C01", "abstract interpretation of the form-building loops to polynomial normal forms over trial/test atoms (loop sums kept symbolic), form equality",
     "The forms reaching the assembly of the space-time, slab and coupling matrices are reduced to normal form with the number of slabs symbolic; the space-time form must equal the sum over slabs of the slab form plus the coupling forms.",
     "For every number of slabs, mesh, weights and spatial order; time orders enumerated.", ST)
prop("C03", "trial/test exchange on the normal form of every assembled form",
     "Every assembled form is reduced to normal form and compared with itself after exchanging trial and test arguments.",
     "For every number of slabs, mesh, weights and spatial order; time orders and switches enumerated.", ST)
prop("C04", "form normal form compared with an independently derived specification",
     "The slab form reaching assembly is reduced to normal form and compared with the optimality system written independently, with time integrals derived independently.",
     "For every mesh, weights and spatial order; time orders enumerated.", ST)

prop("C05", "abstract interpretation of the right-hand side to a normal form over quadrature times, consistency with the matrix data term by exact moment conditions",
     "The assembled right-hand side is reduced to terms (slab, test member, evaluation time, weight, spatial weight); times must be slab start plus slab length times node, weights quadrature weight times basis value with moments exact to degree 2q, spatial weight and measure those of the matrix's data term; all remaining terms must be exactly the initial-data terms.",
     "For every number of slabs, mesh, weights, spatial order and reference solution; time orders enumerated.", ST)

prop("C02", "abstract interpretation of the matrix-free application to a block normal form, compared with the assembled form applied to the same unknown vector",
     "Gather, multiply and scatter-add of the operator application are reduced to a normal form over node blocks of an unknown vector with unknown previous output; it must equal the assembled form applied to the same vector, and the wrapper the same.",
     "For every number of slabs, vector, mesh, weights and spatial order; time orders and switches enumerated.", ST)
prop("C06", "abstract interpretation of the marching loop with recurrences as induction terms; inductive comparison of every slab's right-hand side and solution storage; one-sided form by normal form",
     "The marching loop is summarised to its recurrence; for an arbitrary slab the right-hand side handed to the slab solver must be that slab's input blocks plus the jump terms of the previous slab's solution, the output blocks those of this solve, the number of solves the number of slabs. The one-sided form must couple neighbouring slabs by the same terms.",
     "For every number of slabs (induction over the loop), vector, mesh and weights; time orders and switches enumerated.", ST + ["slab solvers: a deterministic function of the right-hand side"])
prop("C07", "abstract interpretation of both marching loops, inductive comparison of the per-slab right-hand sides; typestate of the refusal",
     "Both variants are summarised to recurrences; for an arbitrary slab both must hand the same right-hand side to the same solver and store the same unknowns. With jumps in the forward problem the algebraic variant must raise on every path, before any write or solve.",
     "For every number of slabs (induction over the loop), vector, mesh and weights; time orders and switches enumerated.", ST + ["slab solvers: a deterministic function of the right-hand side"])
prop("C08", "abstract interpretation of every application with work vectors and previous output replaced by arbitrary contents; dependence analysis of the output's normal form",
     "Every vector any application writes is found by comparing states; each application is then analysed with all of them (and the output) holding arbitrary contents: no output block may depend on those contents, the result in a used object must equal that in a fresh one, and the input must be unchanged.",
     "For every history (arbitrary work-vector contents), number of slabs, vector and mesh; time orders and switches enumerated.", ST + ["slab and coarse solvers: deterministic functions of the right-hand side"])
prop("C09", "abstract interpretation of the grid transfers and the two-level preconditioner to block normal forms; comparison with interpolation blocks and with the composition of the parts; coarse form by normal form",
     "Every (field, slab, node) block of a transfer's output must be the interpolation, into that block's space, of the same block of the input; the coarse correction must be restrict-solve-prolong; the two-level result must be Q b plus the marching of b - A Q b (slab by slab, by induction); the coarse form must be the fine form on the coarse mesh.",
     "For every number of slabs (induction over the loop), vector and mesh pair; time orders and switches enumerated.", ST + ["slab and coarse solvers: deterministic functions of the right-hand side", "fem.Function.interpolate between non-matching meshes is the finite-element interpolation"])
prop("C10", "typestate analysis of the lazily built members: exhaustive exploration of all reachable set-up states, every operation interpreted in each",
     "From the finite element set-up, all call sequences of the lazy getters and preparation steps are explored up to equality of the missing-member pattern; in every state reached with the preparation done each operation must run without a missing member, compute the same result as in every other state, and each getter return an object.",
     "All call sequences (finite typestate graph explored to a fixed point); all switch combinations; two slabs, orders (1,0) in the quick tier.", ST)
prop("C11", "typestate analysis of the caches: exhaustive exploration of all getter/set-up sequences, each returned form compared in normal form",
     "All sequences of getters and set-up calls are explored up to equality of what the object caches; in every state each getter's result must be the form a fresh object returns for that request; the two variants must differ by exactly the jump terms against the earlier slab and the first-slab matrix carry the initial-value penalty exactly for well-posed problems.",
     "All call sequences (finite graph explored to a fixed point), all switches; two slabs, orders (1,0) in the quick tier.", ST)
prop("C12", "abstract interpretation of all forms to normal form; linearity test of the indicator in the data terms; ownership (effect) analysis of the user's objects",
     "In every assembled form and in the right-hand side the terms with the data weight, and no others, must be linear in exactly one factor: the user's expression, or its interpolation into piecewise constants on the solver's mesh when fitted. No store may reach the user's parameter objects, and a second solver configured with them on another mesh must get the same system on that mesh.",
     "For every number of slabs, mesh, weights and spatial order; time orders and switches enumerated.", ST)
prop("C13", "abstract interpretation of the constructor; symbolic spaces, time matrices and switches compared with the arguments",
     "The spaces must be the mixed elements with the primal degree and order on the first two fields and the dual ones on the others; the time matrices in the forms and the evaluation bases those of the named orders; the switches those of the same name for every way of writing the parameter object.",
     "For every number of slabs, mesh, weights and spatial order; time orders and switches enumerated.", ST)
prop("C14", "abstract interpretation of the error report to gated sums of spatial integrals (loop indices symbolic), compared with independently derived integrands; exact moment conditions; sample coverage over the finite sample grid",
     "Every reported number is reduced to roots/maxima of globally summed integrals. Final-time error: first field's last block against the reference at the end time. Samples: for an arbitrary sample in an arbitrary slab the integrand is the square of (derived Lagrange basis combination minus lifting times jump, derivative over slab length) minus the reference at that time, evaluated in the slab containing the time, and every sample time is used. Slab-wise quadrature: weights extracted from the squared reference terms, moment conditions, and the full integrand compared at every node.",
     "For every number of slabs (slab index symbolic), vector, mesh and reference solution; sample assignment for 1-3 slabs; time orders enumerated.", ST)
prop("C15", "abstract interpretation of every reported scalar to a sum of reductions (collective event order and guards); interprocedural rank-taint dataflow for guarded collectives",
     "Every reported spatial integral must sit inside exactly one sum-reduction over the mesh communicator, and what is printed must be a reduced value; no collective call, mesh refinement, file read or solve may be control dependent on a process rank, including early returns.",
     "For every number of slabs, mesh and process count for the reductions; all functions of the package for the rank analysis.", ST + ["the list of collective library calls in dxsa/checks_lint.py"])
prop("C16", "effect analysis by abstract interpretation: storage after each post-processing entry point compared with before; plotted rows against the time basis",
     "After error evaluation, plotting and export the solution, the right-hand side and the input of later calls must hold the same normal form as before; the plotted rows and exported fields must be the named quantities at the time node they are labelled with.",
     "For every number of slabs, mesh and spatial order; time orders and switches enumerated.", ST)

GM = ["geometric summaries of the gmsh kernel for axis-aligned boxes and disks (dxsa/checks_mesh.py)"]
prop("C40", "typestate (session) analysis over the event trace of every generator, per rank and refinement count",
     "Each generator is interpreted with rank and arguments symbolic; on every rank the trace restricted to that rank must open the gmsh session before its first use, use it only while open and close it exactly once before every normal return.",
     "For every rank and argument value (the size list length of the convex family enumerated 0-4).")
prop("C41", "abstract interpretation of the refinement loops to the returned list; each element compared with the refinement of its predecessor; parameter flow of the size scale",
     "The returned list must have n+1 elements: the generated mesh, then for every step the refine call on the previous element with the full edge set (or all edges) whose entities were created before; the size parameter must reach the mesh-size callback, halved per level in the family generator.",
     "Refinement counts symbolic where the loop summarises, and enumerated 0-3; all size values.")
prop("C42", "happens-before analysis over the per-rank event trace: writer set, barrier, reader set",
     "On ranks other than the root no file may be written and no geometry call reach a file; on every rank each read must be preceded, in program order on all ranks, by a synchronising collective that follows the write of exactly that file on the root.",
     "For every number of processes and rank.", ["communicator barrier and broadcast synchronise"])
prop("C43", "gated dataflow of the numbering check and provenance of coordinates and connectivity",
     "The raise must be gated by the negation of 'sorted tags are consecutive' recognised semantically; coordinates handed on must be sorted by tag and cells zero-based in the library's vertex order.",
     "For every mesh the generator can return.")
prop("C44", "abstract interpretation of the geometry construction and marking; coverage of the surfaces by physical groups; evaluation of the boundary gate as a predicate on curve centres",
     "Every surface alive at meshing must be in exactly one physical group; the gate of the boundary group must be true exactly for centres on the domain's sides; marking must precede meshing and writing.",
     "All surfaces of the generated geometry; gate evaluated on every side and on interior and near-side points of the domain.", GM)
prop("C45", "abstract interpretation of every refine call under each supported library version",
     "With the library version set to each supported release the entity computation feeding refine must be called with the argument form of that release.",
     "All generators; versions 0.6.0, 0.7.0 and 0.7.3.", ["signatures of compute_incident_entities in dolfinx 0.6 and 0.7"])
prop("C46", "abstract interpretation of the geometry construction with default arguments over an interval model of the geometry kernel",
     "Every box and disk built must have positive extent, tags must not collide, Boolean operations may only name shapes alive at that point, and the surviving pieces must cover the generator's domain.",
     "Default arguments of every generator.", GM)

DR = ["summaries of the sparse-solver and space-time classes seen from the drivers (dxsa/checks_drv.py)"]
prop("C50", "abstract interpretation of every driver over backend configurations; solver objects reduced to the operator they invert; role and typestate comparison at the solve sites",
     "Each driver's entry is interpreted for every backend and switch configuration with the space-time object, matrices and vectors opaque. The operator, preconditioner and right-hand side at the solve must be those of the prepared object; every slab solver handed to it must reduce to an exact solve of the matrix of that role (general or first slab) whose factorisation follows the last change of the matrix; the fallback must write an exact solve of the assembled system into the solution and never into the right-hand side.",
     "All drivers x backends (optional package present or not, assembled fallback); every vector and matrix.", DR)
prop("C51", "abstract interpretation of the reference solutions to exponential-trigonometric polynomial normal forms with a complete zero test",
     "sample_sol and its companion are reduced to polynomials in time, coordinates, sines, cosines and exponentials; d_tt u - Laplace u, d_t u - companion and the boundary traces on the driver's domain box must be identically zero in that normal form.",
     "All times and points (identity of normal forms, coefficient tolerance).", DR)
prop("C52", "abstract interpretation of the indicators over a pointwise-array domain to threshold predicates; evaluation on the cell complex of their thresholds; alignment with interface positions of the interpreted mesh calls",
     "Every indicator is reduced, at a generic point, to a gated constant over coordinate thresholds; on every cell of the arrangement of thresholds (and on the threshold itself where the region is closed) the value must be that of the documented region, the array must be completely written for every length, and thresholds of a domain declared as fitted must be cell boundaries or generated interfaces of the mesh actually used.",
     "All point arrays; all refinement levels and region switches offered by the drivers.", DR)
prop("C53", "abstract interpretation of module import, driver entry and adapter with the optional package absent or present; reachability of references to it",
     "With the package absent, module import must not raise, the selected backend must be the default one and no reachable statement of the entry may refer to the package or the adapter; constructing the adapter must warn. With it present the same entry must select it.",
     "All drivers, package present and absent.", DR)
prop("C61", "abstract interpretation of the export and of the adapter to the (data, indices, offsets) triple reaching the sparse constructor",
     "The exported object must be the compressed-row matrix built from the assembled matrix's values, column indices and row offsets in these roles, without any conversion losing entries or precision, with the matrix's shape; the adapter must factorise that matrix before solving and write the whole solution to the output vector, not the input.",
     "All matrices and vectors.", DR)
prop("C60", "name, member, import and call-signature resolution over the syntax trees with may-be-bound dataflow; faults on feasible paths found by abstract interpretation of all entry points",
     "Every loaded name must be bound at run time in a visible scope and on some path to the use; every imported symbol, module attribute, member of an object of known class and call signature must resolve against the package or the installed library's interface; and no feasible path of an interpreted entry point may meet an unbound local, missing member, None dereference or wrong arity.",
     "All functions of the package for the resolution rules; interpreted entry points: drivers on every backend, every mesh generator, the solver, time matrices of all orders, all SpaceTime operations for any number of slabs. Receivers of unknown type and names of libraries not installed (dolfinx, dxh, pypardiso) are not judged by the resolution rules.",
     ["interfaces of the installed libraries as reported by introspection (never of the analysed package)"])
