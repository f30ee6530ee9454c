"""The property table."""
TV = "symbolic execution of the real code, z3 decides the equalities (translation validation)"
SX = "symbolic execution of the real code, z3 decides the assertions"
PROPS = []
NOT_APPLICABLE = {
    "P30": "the subject is the Python runtime (multiprocessing, pickling of the generator environment); there is no symbolic encoding of it within reach, and no values to quantify over",
    "P31": "correctness is convergence of floating-point iterations in hand-written C libraries (Newton solves of spectral systems, adaptive ODE integration); a real-arithmetic encoding within bounds decides nothing about it",
    "P32": "the subject is make and the compilers (file lists, flags, dependencies), with no symbolic inputs to decide over",
}


def prop(**k):
    PROPS.append(k)


prop(
    id="P01",
    title="Generated scalar C computes the requested expressions",
    statement="For every list of symbolic expressions and left-hand sides handed to the C code generator, the emitted scalar C compiles and assigns to each left-hand side exactly the value of its expression, for all values of the free symbols, whatever the CSE, prefix, SCMM, type and declaration options. Every temporary is declared before it is used.",
    over=["inputs", "programs", "configurations"],
    forall="all real values of the free symbols; every operator, exponent and sign pattern of the corpus and seeded random expressions; option combinations",
    why="the tests compare strings for a few expressions or sample numeric values of equation modules; they never relate emitted C to the expression for all inputs",
    files=["nrpy/c_codegen.py", "nrpy/helpers/cse_preprocess_postprocess.py", "nrpy/helpers/custom_c_codegen_functions.py"],
    mech=[("code generator entry point", "nrpy/c_codegen.py:c_codegen"), ("CSE and declaration emission", "nrpy/c_codegen.py:c_codegen"), ("custom printing of powers and functions", "nrpy/helpers/custom_c_codegen_functions.py")],
    technique=TV,
    level="translation_validation",
    note="real arithmetic, all input values; program shapes are the stated corpus; trusts the C symbolic executor and z3, counterexamples replayed on compiled C",
)
prop(
    id="P02",
    title="SIMD C computes the same values as the expressions and is self-contained",
    statement="With SIMD enabled, the emitted code computes in every lane exactly the value of each requested expression for all inputs, on every supported instruction set. Every constant it uses is declared, and it compiles against the shipped intrinsics header.",
    over=["inputs", "programs", "configurations"],
    forall="all real values of the free symbols per lane; expression corpus exercising every FMA/sub/negation rewrite; option combinations; scalar fallback and SSE2/AVX/AVX512 (with and without FMA) branches",
    why="doctests pin a handful of rewritten strings; the equality of rewritten and original expressions for all inputs is never checked",
    files=["nrpy/helpers/simd.py", "nrpy/c_codegen.py", "nrpy/helpers/simd_intrinsics.h"],
    mech=[("expression to intrinsic conversion", "nrpy/helpers/simd.py:expr_convert_to_simd_intrins"), ("constant declarations", "nrpy/c_codegen.py:c_codegen"), ("intrinsics macros", "nrpy/helpers/simd_intrinsics.h")],
    technique=TV,
    level="translation_validation",
    note="real arithmetic, all lane values; program shapes are the stated corpus; intrinsics modelled lane-wise per vendor guide; counterexamples replayed on the CPU",
)
prop(
    id="P03",
    title="All instruction-set branches of the intrinsics header agree",
    statement="Every vector operation offered by the SIMD header returns, lane by lane and for all operands, the same mathematical result on each instruction-set branch as the scalar fallback: arithmetic, fused operations, loads and stores, upwind selection, absolute value and horizontal sums.",
    over=["inputs", "configurations"],
    forall="all real operand values; all header branches (AVX512, AVX with and without FMA, SSE2 with and without FMA, scalar)",
    why="a build only ever exercises the branch of the machine it runs on",
    files=["nrpy/helpers/simd_intrinsics.h"],
    mech=[("macro branches", "nrpy/helpers/simd_intrinsics.h")],
    technique=SX,
    level="other",
    note="all macros and pairwise nestings over all real operands; rounding of fused operations is out of scope",
)
prop(
    id="P04",
    title="Finite-difference operators are exact on polynomials of the stated order",
    statement="For every finite-difference order, the first, second, mixed, up- and downwinded derivative stencils reproduce the exact derivative of every polynomial up to the accuracy order they claim, and the Kreiss-Oliger operator annihilates smooth polynomials and damps the grid-scale mode with the documented normalisation. No stencil reaches beyond the ghost zones implied by the order.",
    over=["inputs", "configurations"],
    forall="all polynomial coefficients, grid spacings and grid points; FD orders 2 to 12; every operator and direction; generated C as well as coefficient tables",
    why="tests compare printed code for a few orders; exactness is a statement over all polynomials and points",
    files=["nrpy/finite_difference.py", "nrpy/c_codegen.py"],
    mech=[("stencil coefficients", "nrpy/finite_difference.py:compute_fdcoeffs_fdstencl"), ("C emission of stencils", "nrpy/finite_difference.py:proto_FD_operators_to_sympy_expressions")],
    technique=SX,
    level="other",
    note="polynomial exactness decided for all coefficients by z3; orders above the bound not covered",
)
prop(
    id="P05",
    title="Finite-difference kernels read the right points and compute the expression",
    statement="A kernel generated with finite differencing reads each needed gridfunction from its own storage at exactly the stencil points around the current point and evaluates the requested expressions with the derivatives replaced by their stencils, choosing the up- or downwinded stencil by the sign of the control vector. This holds for every memory layout (BHaH, Einstein Toolkit, CarpetX), with and without SIMD and FD functions.",
    over=["inputs", "programs", "configurations"],
    forall="all grid data, grid points, grid sizes and spacings; kernels using all groups, ranks and derivative operators; orders, infrastructures, SIMD and FD-function settings",
    why="tests compare generated text of examples; no test relates the memory accesses to the derivative definition for all points and data",
    files=["nrpy/c_codegen.py", "nrpy/finite_difference.py", "nrpy/grid.py"],
    mech=[("reading gridfunctions", "nrpy/finite_difference.py:read_gfs_from_memory"), ("memory access per infrastructure", "nrpy/grid.py:access_gf/read_gf_from_memory_Ccode_onept"), ("FD functions", "nrpy/finite_difference.py:FDFunction"), ("upwinding", "nrpy/c_codegen.py:gridfunction_management_and_FD_codegen")],
    technique=TV,
    level="translation_validation",
    note="all grid data and indices symbolic; kernel shapes are the stated list",
)
prop(
    id="P06",
    title="CSE pre- and post-processing preserves values and definition order",
    statement="Pre-processing expressions for common-subexpression elimination never changes their value once the returned symbol definitions are substituted back, and every symbol it introduces is defined in the returned table. Post-processing the eliminated form keeps all values, defines each temporary once, and before its first use.",
    over=["inputs", "programs", "configurations"],
    forall="all values of the free symbols; expression lists of the corpus; all option combinations",
    why="doctests sample a handful of expressions and compare printed results",
    files=["nrpy/helpers/cse_preprocess_postprocess.py", "nrpy/helpers/expr_tree.py"],
    mech=[("preprocess", "nrpy/helpers/cse_preprocess_postprocess.py:cse_preprocess"), ("postprocess", "nrpy/helpers/cse_preprocess_postprocess.py:cse_postprocess")],
    technique=TV,
    level="translation_validation",
    note="values symbolic, expression shapes from the corpus",
)
prop(
    id="P10",
    title="Butcher tables have the claimed order",
    statement="Every Runge-Kutta table satisfies all rooted-tree order conditions up to the order it declares and is consistent (row sums equal the nodes, explicit). For adaptive tables both embedded solutions reach their own orders, and Adams-Bashforth tables satisfy their linear-multistep order conditions.",
    over=["inputs", "configurations"],
    forall="all right-hand-side functions, through the order conditions over every rooted tree up to the declared order; every table in the dictionary",
    why="a wrong digit in one coefficient leaves the code running with a lower order; no test measures the order",
    files=["nrpy/infrastructures/BHaH/MoLtimestepping/RK_Butcher_Table_Dictionary.py"],
    mech=[("tables", "nrpy/infrastructures/BHaH/MoLtimestepping/RK_Butcher_Table_Dictionary.py:generate_Butcher_tables")],
    technique=SX,
    level="other",
    note="exact rational arithmetic on the table entries; trees up to the declared order",
)
prop(
    id="P11",
    title="The generated time step is the Runge-Kutta step of the chosen method",
    statement="One call of the generated method-of-lines step advances every evolved gridfunction at every point of every grid by exactly the chosen Runge-Kutta formula, evaluates the right-hand side at the right stage time and state, applies the post-RHS step to every stage and to the new state, and advances time and iteration by one. All storage is allocated at sufficient size before use, not shared, and freed exactly once.",
    over=["inputs", "configurations", "histories"],
    forall="all states, right-hand-side values, times and step sizes; every non-adaptive method; several grids of different size",
    why="tests compare generated text; the storage-saving rewrites reuse arrays in ways only a symbolic run can relate to the formula",
    files=["nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py"],
    mech=[("step generator", "nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py:register_CFunction_MoL_step_forward_in_time"), ("storage", "nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py:register_CFunction_MoL_malloc")],
    technique=TV,
    level="translation_validation",
    note="state, RHS values, time and dt symbolic; two small grids; enable_simd in MoL (unsupported by nrpy) excluded",
)
prop(
    id="P12",
    title="The superB split step is the Runge-Kutta step with boundaries and ghosts filled",
    statement="Driving the superB step in the order the generated Charm++ interface file prescribes gives exactly the chosen Runge-Kutta formula at every point. Boundary conditions, nonlocal inner boundary data, the post-RHS step and the ghost exchange along each axis reach every array that a later right-hand-side evaluation reads, and the new state.",
    over=["inputs", "configurations", "histories"],
    forall="all states, right-hand-side, boundary and message values, times and step sizes; every non-adaptive method; radiation and extrapolation boundaries",
    why="superB code needs Charm++ to run, so no test executes it",
    files=["nrpy/infrastructures/superB/MoL.py", "nrpy/infrastructures/superB/timestepping_chare.py"],
    mech=[("substep generator", "nrpy/infrastructures/superB/MoL.py:single_RK_substep_input_symbolic"), ("sequence of events", "nrpy/infrastructures/superB/timestepping_chare.py:output_timestepping_ci")],
    technique=TV,
    level="translation_validation",
    note="all values symbolic; one grid of eight points; message contents outside this property",
)
prop(
    id="P07",
    title="Declared tensors have exactly the requested symmetries; inverses invert",
    statement="A declared indexed expression of any rank, dimension and symmetry has one independent symbol per orbit of the requested symmetry: components related by it are equal up to sign, antisymmetric repeats vanish, and no other components coincide. Symmetry axes zero exactly the derivatives along them. The generic and symmetric matrix inverters return the true inverse and determinant for every invertible matrix, and the Levi-Civita constructors give the fully antisymmetric tensor with the right density factor.",
    over=["inputs", "configurations"],
    forall="all component values; ranks 1 to 4, dimensions 2 to 4, every symmetry string listed; all matrices of dimension 2 to 4 with nonzero determinant",
    why="doctests print a few components; coincidence patterns of all components and inverse identities for all matrices are not sampled",
    files=["nrpy/indexedexp.py"],
    mech=[("declaration", "nrpy/indexedexp.py:declare_indexedexp"), ("symmetrisation", "nrpy/indexedexp.py:symmetrize"), ("inverses", "nrpy/indexedexp.py:generic_matrix_inverter3x3")],
    technique=SX,
    level="other",
    note="component values symbolic; dimensions and symmetry strings enumerated within the stated bounds",
)
prop(
    id="P13",
    title="Reference-metric quantities are those of flat space in the given coordinates",
    statement="In every coordinate system, the reference metric, its inverse and determinant, rescaling factors, Christoffel symbols, all stored derivatives, Jacobians and basis conversions are exactly those that follow from the coordinate map xx to Cartesian for flat space. The spherical map is consistent with the Cartesian one. With rfm-precompute enabled, every stored quantity equals the direct one once the precomputed functions are put back.",
    over=["inputs", "configurations"],
    forall="all coordinate and parameter values; every coordinate system; both precompute settings",
    why="trusted values test one numeric point of each stored expression; they neither relate quantities to each other nor test the precomputed variants or the Jacobian helper for all points",
    files=["nrpy/reference_metric.py", "nrpy/equations/basis_transforms"],
    mech=[("geometry", "nrpy/reference_metric.py:ReferenceMetric"), ("derivatives", "nrpy/reference_metric.py:compute_hatted_quantities"), ("precompute symbols", "nrpy/reference_metric.py:_define_freevars")],
    technique=SX,
    level="other",
    note="identities decided for all coordinate values away from coordinate singularities; radial sinh profiles generalised to an arbitrary function in the heaviest systems",
)
prop(
    id="P15",
    title="Grid set-up and coordinate maps of the generated code are right at every point",
    statement="The generated grid set-up gives every numerical grid its own coordinate system, size, parameter defaults, point counts, spacings and cell-centred coordinates, with the domain covering exactly the documented extent. The generated map to Cartesian equals the coordinate map of the system at every grid point, including the grid origin offset; the map from Cartesian is its inverse and returns the index of the nearest grid point. The time step is CFL_FACTOR times the smallest proper distance between neighbouring points over all points of all grids.",
    over=["inputs", "configurations"],
    forall="all parameter values, origins, Cartesian points and coordinates; every coordinate system; small symbolic-parameter grids; several grids at once",
    why="tests compare generated text at most; nothing runs the maps or the grid set-up for all points",
    files=["nrpy/infrastructures/BHaH/xx_tofrom_Cart.py", "nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py"],
    mech=[("maps", "nrpy/infrastructures/BHaH/xx_tofrom_Cart.py"), ("grid set-up", "nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py:register_CFunction_numerical_grid_params_Nxx_dxx_xx"), ("time step", "nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py:register_CFunction_cfl_limited_timestep")],
    technique=TV,
    level="translation_validation",
    note="grids of a few points; parameters and points symbolic; inverse map proved as a right inverse away from axes; three pinned systems are known findings",
)
prop(
    id="P08",
    title="Every registered gridfunction has one slot, and its own parity and asymptotics",
    statement="After any sequence of gridfunction registrations, every component of every scalar, vector and tensor has exactly one index in its group, indices of a group are distinct and fill 0..NUM_GFS-1, and the parity type, f_infinity and wavespeed tables looked up at that index hold the values belonging to that very component, whatever the registration order, dimension or symmetry. Generated memory accesses address the component's slot at the requested point offset.",
    over=["histories", "inputs", "configurations"],
    forall="registration sequences over scalars, rank-1, rank-2 and rank-N tensors in 3 and 4 dimensions; all f_infinity and wavespeed values; all array sizes, points and offsets of an access",
    why="doctests register a few gridfunctions and print the result; consistency between the separately sorted tables is never checked",
    files=["nrpy/grid.py", "nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py"],
    mech=[("registration", "nrpy/grid.py:register_gridfunctions"), ("index, f_infinity and wavespeed tables", "nrpy/grid.py:gridfunction_defines"), ("parity types", "nrpy/grid.py:set_parity_types"), ("memory access", "nrpy/grid.py:access_gf")],
    technique=SX,
    level="other",
    note="registration sequences are enumerated and seeded, values and addresses symbolic; names must differ when upper-cased",
)
prop(
    id="P09",
    title="Generated loops visit each point of their region exactly once",
    statement="For every lower and upper bound, increment, tile size and SIMD width, a generated loop nest visits each point of the requested region exactly once and nothing outside it. Interior loops skip exactly NGHOSTS points on each side, all-points loops skip none, and each body reads the coordinates and precomputed quantities belonging to its own point. The index macros map (gf, i0, i1, i2) one to one onto the array, i0 fastest, and the loop, interior-test, MIN/MAX/SQR macros mean what their names say for every argument expression.",
    over=["inputs", "configurations"],
    forall="all integer bounds and array sizes (unbounded, positive steps); 1 to 3 dimensions; every loop option",
    why="tests print the text of a few loops; coverage and non-overlap for all sizes cannot be sampled",
    files=["nrpy/helpers/loop.py", "nrpy/infrastructures/BHaH/simple_loop.py", "nrpy/infrastructures/ETLegacy/simple_loop.py", "nrpy/infrastructures/BHaH/BHaH_defines_h.py"],
    mech=[("loop nests", "nrpy/helpers/loop.py:loop"), ("simple_loop", "nrpy/infrastructures/BHaH/simple_loop.py:simple_loop"), ("index and loop macros", "nrpy/infrastructures/BHaH/BHaH_defines_h.py:output_BHaH_defines_h")],
    technique="loop nests of the generated C summarised symbolically, z3 decides coverage and non-overlap for all sizes",
    level="other",
    note="mathematical integers, loop bounds and iteration numbers unbounded and symbolic; counterexamples replayed on the compiled loop",
)
prop(
    id="P14",
    title="Precomputed reference-metric arrays hold and deliver the right values",
    statement="With rfm-precompute enabled, the generated code allocates each precomputed array large enough, fills every entry with the value of its reference-metric function at that grid point, and the read code placed in loops (scalar or SIMD) delivers exactly the value for the current point, so a precomputed kernel sees the same numbers as a direct one. Every allocation is freed once.",
    over=["inputs", "configurations"],
    forall="all coordinate and parameter values; every coordinate system; scalar and SIMD reads; several coordinate systems at once",
    why="tests compare generated text at most; nothing relates stored arrays to the functions for all points",
    files=["nrpy/infrastructures/BHaH/rfm_precompute.py"],
    mech=[("precompute generator", "nrpy/infrastructures/BHaH/rfm_precompute.py:ReferenceMetricPrecompute"), ("registered functions", "nrpy/infrastructures/BHaH/rfm_precompute.py:register_CFunctions_rfm_precompute")],
    technique=TV,
    level="translation_validation",
    note="grids of a few points, all values symbolic",
)
prop(
    id="P16",
    title="Ghost points are filled from the right source with the right sign",
    statement="For every curvilinear grid, the generated boundary set-up sorts each ghost point into exactly one class. Inner points map to the point at the same Cartesian position, with the sign of each tensor component given by the basis vectors there. Pure outer points are ordered inside out, each with its inward face direction. Applying inner conditions writes exactly parity times source for every evolved gridfunction; outer extrapolation is the quadratic one along the face direction, done before the inner points.",
    over=["inputs", "configurations"],
    forall="all spacings, coordinate parameters and gridfunction values; every coordinate system; small grids with 1 to 3 ghost layers; several systems at once",
    why="tests do not run the generated boundary code at all; a wrong source index or sign at one symmetry axis is visible only there",
    files=["nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py"],
    mech=[("boundary lists", "nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py:register_CFunction_bcstruct_set_up"), ("parities", "nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py:Cfunction__set_parity_for_inner_boundary_single_pt"), ("inner and extrapolation", "nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py:register_CFunction_apply_bcs_outerextrap_and_inner")],
    technique=TV,
    level="translation_validation",
    note="real arithmetic, cell-centred grids of a few points with an even number of points around each circle",
)
prop(
    id="P17",
    title="Radiation boundaries impose the outgoing-wave condition with 1/r^3 correction",
    statement="At every pure outer boundary point, the generated radiation condition sets the right-hand side to -c (df/dr + (f - f_infinity)/r) + k/r^3, where k is fixed by the same relation at the inward neighbour, the radial derivative uses the exact dx^i/dr and finite-difference stencils of the requested order that stay inside the grid, and c and f_infinity are those of that gridfunction. Inner points are then parity copies; interior right-hand sides and the gridfunctions are untouched.",
    over=["inputs", "configurations"],
    forall="all coordinates, parameters, wave speeds, asymptotic values, gridfunctions and right-hand sides; every coordinate system; derivative orders 2, 4, 6 and the default",
    why="tests check two stencil coefficients; nothing runs the condition",
    files=["nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py"],
    mech=[("radiation condition", "nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py:setup_Cfunction_radiation_bcs"), ("offset stencils", "nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py:setup_Cfunction_FD1_arbitrary_upwind"), ("layer order", "nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py:register_CFunction_apply_bcs_outerradiation_and_inner")],
    technique=TV,
    level="translation_validation",
    note="real arithmetic; grids of a few points; r and its Jacobian taken from the reference metric, which P13 decides",
)
prop(
    id="P19",
    title="Parameter files and command-line overrides set exactly what they say",
    statement="For every parameter file and argument list, the generated parser sets each named parameter to exactly the given value (numbers, booleans, strings, arrays of the declared size), leaves every other parameter unchanged, and applies command-line values last, whatever the file contains. Malformed values, integers that do not fit, wrong array sizes, duplicates, missing files and wrong argument counts end the program with an error. No input makes it touch memory out of bounds, and the generated default parameter file reproduces the defaults.",
    over=["inputs", "configurations"],
    forall="all characters at the free positions of a file or argument, every outcome of number conversion, all combinations of existing files and argument counts, several parameter sets",
    why="the only test prints a default parameter file; the parser itself is never run",
    files=["nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py", "nrpy/infrastructures/BHaH/CodeParameters.py"],
    mech=[("parser generation", "nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py:register_CFunction_cmdline_input_and_parfile_parser"), ("default parameter file", "nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py:generate_default_parfile")],
    technique="path-wise symbolic execution of the generated C on symbolic characters, z3 decides feasibility and assertions",
    level="other",
    note="up to four free characters per line at positions of interest, tokens to 400 characters; a second '=' in a line, tokens over 126 characters and lines over 1023 are outside",
)
prop(
    id="P20",
    title="Checkpoints restore exactly the written state, whatever the crash point",
    statement="A checkpoint written by write_checkpoint and read by read_checkpoint in a new process restores every commondata and params member, every evolved gridfunction of every grid and the horizon data, with t_0 and nn_0 set to the checkpoint's time and step; writing leaves the running simulation's state unchanged and nothing is written unless the time is within half a step of a multiple of checkpoint_every, when it is. If the process dies or a file operation fails at any point of a write, the previous checkpoint or the complete new one is still read; an incomplete file is refused and a missing one reported as 0 with the state untouched.",
    over=["inputs", "crash points", "faults"],
    forall="all state values; all times, steps and intervals; a crash or failing file operation at every point; any prefix of an unfinished file on disk; one and two grids of different sizes, with and without horizon data",
    why="no test writes or reads a checkpoint",
    files=["nrpy/infrastructures/BHaH/checkpointing.py", "nrpy/infrastructures/BHaH/MoLtimestepping"],
    mech=[("writer", "nrpy/infrastructures/BHaH/checkpointing.py:register_CFunction_write_checkpoint"), ("reader", "nrpy/infrastructures/BHaH/checkpointing.py:register_CFunction_read_checkpoint")],
    technique=SX,
    level="other",
    note="grids of a few points with two evolved gridfunctions; file system modelled (rename atomic, closed files complete); counterexamples replayed by killing the compiled program at each file operation",
)
prop(
    id="P21",
    title="Code parameters keep their own value from registration to generated code",
    statement="Every registered code parameter of any type becomes a member of its struct (params or commondata) or a #define with its own default, set on every grid to the exact value given, also after the default was changed, and nothing else is set. In a generated function the local of that name equals that struct's member for every value, in the pointer, non-pointer and SIMD (every lane) variants and for Einstein Toolkit reads; string copies are complete and terminated.",
    over=["inputs", "configurations"],
    forall="all parameter values and string contents; every parameter type, storage and visibility option; all SIMD lanes; float, double and long double",
    why="doctests print the headers of one small parameter list; nothing relates a parameter to what generated code sees",
    files=["nrpy/params.py", "nrpy/infrastructures/BHaH/CodeParameters.py", "nrpy/infrastructures/BHaH/BHaH_defines_h.py", "nrpy/infrastructures/ETLegacy/CodeParameters.py", "nrpy/infrastructures/CarpetX/CodeParameters.py"],
    mech=[("registration", "nrpy/params.py:register_CodeParameters"), ("defaults", "nrpy/infrastructures/BHaH/CodeParameters.py:register_CFunctions_params_commondata_struct_set_to_default"), ("locals", "nrpy/infrastructures/BHaH/CodeParameters.py:write_CodeParameters_h_files"), ("structs", "nrpy/infrastructures/BHaH/BHaH_defines_h.py:output_BHaH_defines_h")],
    technique=SX,
    level="other",
    note="parameter lists enumerated, values symbolic; string contents up to six characters; quotes and backslashes in defaults outside",
)
prop(
    id="P22",
    title="Diagnostic slices write exactly the nearest interior grid points",
    statement="The generated 0D, 1D and 2D diagnostic functions write, for every grid size, exactly one line for each interior grid point nearest to the grid's centre, the y or z axis, or the xy or yz plane in the given coordinate system (nothing where the system has no such points): each point once, its own coordinates and the requested gridfunction values of that same point, 1D output in increasing order of the axis coordinate, no memory outside an array touched. The file is the one named by the caller's format, is started afresh at iteration 0 and appended to afterwards, and a file that cannot be opened stops the program. The progress line is printed exactly at multiples of output_progress_every, and never if that is zero or negative.",
    over=["inputs", "configurations"],
    forall="all grid sizes in the directions a slice fixes (bounded), all orders of the coordinates, all iteration numbers, 14 coordinate systems x 5 slices",
    why="three trusted output files compare text for one coordinate system each; nothing runs the output",
    files=["nrpy/infrastructures/BHaH/simple_loop.py", "nrpy/infrastructures/BHaH/diagnostics/output_0d_1d_2d_nearest_gridpoint_slices.py", "nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py"],
    mech=[("1D and 2D point selection", "nrpy/infrastructures/BHaH/simple_loop.py:simple_loop_1D"), ("0D", "nrpy/infrastructures/BHaH/diagnostics/output_0d_1d_2d_nearest_gridpoint_slices.py:register_CFunction_diagnostics_nearest_grid_center"), ("progress", "nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py:register_CFunction_progress_indicator")],
    technique=SX,
    level="other",
    note="even numbers of points around a full circle; xx_to_Cart is a recorded call; SymTP's z axis is its part outside the foci",
)
prop(
    id="P23",
    title="The initial-data reader stores exactly the ADM data it was given",
    statement="For every point of the grid, ghosts included, the generated initial-data reader asks the data function at that point's Cartesian position and stores BSSN variables that are equivalent to the returned ADM data: lapse unchanged, shift and B the same vectors, the metric and extrinsic curvature recovered from the conformal factor, trK, hDD and aDD, and the stress-energy the same tensor, whatever the data basis (Spherical or Cartesian) and grid coordinates. lambda^i is the contracted difference of the conformal and reference connections, from centred differences of hDD, computed after the inner boundary conditions. Data functions built from expressions return those expressions at the point.",
    over=["inputs", "configurations"],
    forall="all ADM data with a positive-definite metric; all positions, grid spacings and coordinate parameters; every grid point of the sample grid; conformal factors W, chi and phi; with and without stress-energy",
    why="no test runs the reader; the doctests of the conversion functions only print or hash code",
    files=["nrpy/infrastructures/BHaH/general_relativity/ADM_Initial_Data_Reader__BSSN_Converter.py", "nrpy/equations/general_relativity/ADM_to_BSSN.py", "nrpy/equations/general_relativity/BSSN_quantities.py", "nrpy/helpers/jacobians.py"],
    mech=[("reader", "nrpy/infrastructures/BHaH/general_relativity/ADM_Initial_Data_Reader__BSSN_Converter.py:register_CFunction_initial_data_reader__convert_ADM_Sph_or_Cart_to_BSSN"), ("conversion", "nrpy/equations/general_relativity/ADM_to_BSSN.py:ADM_to_BSSN"), ("bases", "nrpy/helpers/jacobians.py")],
    technique=SX,
    level="other",
    note="real arithmetic; loop on one 3x4x5 grid, lambda^i at one interior point for orders 2 and 4 (Cartesian) and 2 (Spherical); seven coordinate systems",
)
prop(
    id="P24",
    title="Coordinate-system wrappers call exactly the matching function",
    statement="For every function registered for several coordinate systems, the generated wrapper calls the version of the coordinate system whose hash is in params->CoordSystem_hash, once, with all of its arguments unchanged and in order, and nothing else; for every other value of the hash it calls nothing and stops the program with a nonzero status. Different coordinate systems never share a hash, and every wrapper compiles for every supported parameter-list shape.",
    over=["inputs", "configurations"],
    forall="all int values of CoordSystem_hash; all argument values; nine shapes of parameter lists; all supported coordinate systems together and in subsets",
    why="a doctest shows three hashes; no test runs or compiles a wrapper",
    files=["nrpy/infrastructures/BHaH/rfm_wrapper_functions.py", "nrpy/c_function.py"],
    mech=[("wrappers", "nrpy/infrastructures/BHaH/rfm_wrapper_functions.py:register_CFunctions_CoordSystem_wrapper_funcs"), ("hash", "nrpy/infrastructures/BHaH/rfm_wrapper_functions.py:get_CoordSystem_hash"), ("naming", "nrpy/c_function.py:function_name_and_subdir_with_CoordSystem")],
    technique=SX,
    level="other",
    note="void functions with at most one function parameter; array sizes that are numbers or macros",
)
prop(
    id="P25",
    title="main() runs every phase in order and releases all memory",
    statement="The generated main() sets defaults, then reads parameters, then sets up grids, allocates each grid's arrays once with that grid's own parameters, sets initial data before or after the auxiliary arrays as requested, and then, exactly while time < t_final, runs the diagnostics and one time step with the user's code blocks in their documented places, ending with status 0. Every block allocated by the set-up and allocation functions is released exactly once; griddata_free without the final flag keeps exactly the non-y_n arrays and the grid array.",
    over=["inputs", "histories", "configurations"],
    forall="all sequences of times and final times up to three steps; one to three grids; with and without precomputed reference metric and curvilinear boundary arrays; every option of main()",
    why="no test runs a generated main(); doctests only check that it is registered",
    files=["nrpy/infrastructures/BHaH/main_c.py", "nrpy/infrastructures/BHaH/griddata_commondata.py", "nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py", "nrpy/infrastructures/BHaH/rfm_precompute.py"],
    mech=[("main", "nrpy/infrastructures/BHaH/main_c.py:register_CFunction_main_c"), ("free", "nrpy/infrastructures/BHaH/griddata_commondata.py:register_CFunction_griddata_free")],
    technique=SX,
    level="other",
    note="the phases are recorded calls; the allocation and release functions are the real ones; malloc succeeds",
)
prop(
    id="P26",
    title="Thorn conversions and constraints hold at every grid point",
    statement="In both Einstein Toolkit infrastructures the generated functions act at every point of the local grid, ghosts included, and change nothing else: converting from ADM stores BSSN variables equivalent to the ADM data (lapse, shift and its time derivative copied, metric and extrinsic curvature recovered from cf, trK, hDD and aDD, lambda^i the contracted conformal connection at interior points); converting to ADM is its inverse; the raised stress-energy is g^(mu a) g^(nu b) T_(ab) with the metric of those variables; the lapse floor leaves max(alpha, lapse_floor); enforcing the determinant constraint rescales delta+h to unit determinant (also BHaH, in every coordinate system); zeroing sets every right-hand side to zero. Each function compiles with exactly the variables its schedule declares as read and written. Every gridfunction is registered with the reflection parities of its tensor indices.",
    over=["inputs", "configurations"],
    forall="all values of every gridfunction, grid spacing and parameter; every point of the sample grid; conformal factors W, chi and phi; finite-difference orders 2 and 4; ETLegacy and CarpetX",
    why="no test runs or compiles thorn code; the modules have no doctests for what they generate",
    files=["nrpy/infrastructures/ETLegacy/general_relativity/ADM_to_BSSN.py", "nrpy/infrastructures/ETLegacy/general_relativity/BSSN_to_ADM.py", "nrpy/infrastructures/ETLegacy/general_relativity/T4DD_to_T4UU.py", "nrpy/infrastructures/ETLegacy/general_relativity/floor_the_lapse.py", "nrpy/infrastructures/ETLegacy/general_relativity/enforce_detgammahat_constraint.py", "nrpy/infrastructures/ETLegacy/zero_rhss.py", "nrpy/infrastructures/ETLegacy/Symmetry_registration.py", "nrpy/infrastructures/CarpetX/general_relativity/ADM_to_BSSN.py", "nrpy/infrastructures/CarpetX/general_relativity/BSSN_to_ADM.py", "nrpy/infrastructures/CarpetX/general_relativity/T4DD_to_T4UU.py", "nrpy/infrastructures/CarpetX/interface_ccl.py", "nrpy/equations/general_relativity/g4munu_conversions.py", "nrpy/equations/general_relativity/BSSN_to_ADM.py"],
    mech=[("from ADM", "nrpy/infrastructures/ETLegacy/general_relativity/ADM_to_BSSN.py:register_CFunction_ADM_to_BSSN"), ("to ADM", "nrpy/infrastructures/ETLegacy/general_relativity/BSSN_to_ADM.py:register_CFunction_BSSN_to_ADM"), ("stress-energy", "nrpy/infrastructures/CarpetX/general_relativity/T4DD_to_T4UU.py:register_CFunction_T4DD_to_T4UU"), ("constraint", "nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py:register_CFunction_enforce_detgammabar_equals_detgammahat"), ("parities", "nrpy/infrastructures/ETLegacy/Symmetry_registration.py:register_CFunction_Symmetry_registration_oldCartGrid3D")],
    technique=SX,
    level="other",
    note="real arithmetic, positive determinants; one small grid per function; Cactus macros and CarpetX loops are modelled; extrapolation of lambda^i is a recorded call",
)
prop(
    id="P30",
    title="Parallel code generation gives the same result as serial code generation",
    statement="With parallel code generation enabled, the registered functions, parameters and gridfunctions after do_parallel_codegen() are those that serial generation would have registered, for every set of registration calls and every scheduling of the workers.",
    over=["schedules", "configurations"],
    forall="all sets of registered calls and worker schedules",
    why="the tests do not compare parallel with serial generation",
    files=["nrpy/helpers/parallel_codegen.py"],
    mech=[("parallel codegen", "nrpy/helpers/parallel_codegen.py:do_parallel_codegen")],
    technique="none",
    level="other",
    note="not applicable",
)
prop(
    id="P31",
    title="Initial-data and waveform solvers converge to the physical solution",
    statement="The TwoPunctures, TOVola and SEOBNR code produced by nrpy converges to a solution of its equations for every admissible set of physical parameters, or reports failure.",
    over=["inputs"],
    forall="all admissible physical parameters",
    why="the tests do not run the solvers",
    files=["nrpy/infrastructures/BHaH/general_relativity/TwoPunctures", "nrpy/infrastructures/BHaH/general_relativity/TOVola"],
    mech=[("TwoPunctures", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures")],
    technique="none",
    level="other",
    note="not applicable",
)
prop(
    id="P32",
    title="Generated projects build completely",
    statement="The files and Makefile (or make.code.defn and ccl files) written for a project list every generated source once, so that the project compiles and links with a supported compiler.",
    over=["configurations"],
    forall="all projects",
    why="the tests do not build projects",
    files=["nrpy/infrastructures/BHaH/Makefile_helpers.py"],
    mech=[("Makefile", "nrpy/infrastructures/BHaH/Makefile_helpers.py")],
    technique="none",
    level="other",
    note="not applicable",
)
