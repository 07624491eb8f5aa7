"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                          **({"observe_at": observe} if observe else {}),
                          "hook_needed": None}})

prop("C01", "invdes problem graphs evaluate and differentiate exactly, for every graph",
 "For every finite acyclic graph of optimization functions, evaluating any list of functions gives each the value obtained by plain recursive evaluation of its inputs, and the gradient of a scalar function with respect to the design parameters is the chain-rule sum over all paths (zero where it does not depend on them). This holds whatever nodes are shared, repeated as inputs, marked as expensive (run in parallel) or written against the older whole-parametrization interface, and every node is evaluated once per evaluation.",
 ["programs", "inputs", "configurations"], "every acyclic graph, every sharing pattern, every assignment of expensive/legacy markings, every parameter vector, every list of requested outputs",
 "the tests evaluate a few fixed graphs; sharing, duplicated edges, expensive-on-expensive dependencies and legacy nodes multiply into combinations no test list enumerates",
 ["spins/invdes/problem/graph_executor.py", "spins/invdes/problem/objective.py"],
 [("eval_fun / eval_grad over affinity-sorted blocks", "graph_executor.eval_fun, eval_grad, _top_sort_affinity")],
 ["values and gradients returned by the evaluation and gradient entry points"])

prop("C02", "goos graphs evaluate and differentiate exactly, for every graph",
 "For every finite acyclic graph of nodes with one or several outputs, evaluating any list of nodes gives each the flow obtained by plain recursive evaluation, overridden nodes contribute their override, and the gradient of a scalar output with respect to any list of variables or nodes it depends on is the chain-rule sum over all paths from them. A result is marked constant or frozen only when everything it depends on is, gradients never leak between nodes through shared storage, and the outcome does not depend on which nodes are marked expensive.",
 ["programs", "inputs", "configurations"], "every acyclic graph, every sharing pattern, every assignment of expensive markings, overrides, constant/frozen flags, and every variable value",
 "the tests use a handful of hand-written graphs; aliasing between gradient contributions and the splitting into parallel blocks only misbehave for particular graph shapes",
 ["spins/goos/graph_executor.py", "spins/goos/flows.py", "spins/goos/array.py"],
 [("eval_fun / eval_grad over affinity-sorted blocks", "goos.graph_executor"), ("flow addition and flag propagation", "goos.flows")],
 ["flows returned by plan.eval_nodes and plan.eval_grad"])

prop("C03", "invdes objective nodes: the gradient is the derivative of the value",
 "For every built-in optimization function on arrays (sums, products, powers, indexing, absolute value and the penalty/indicator functions, and their nesting), the value is the documented formula and the returned gradient is its exact derivative (for complex inputs, the derivative convention used throughout, with real-valued parts taken for real inputs). This holds at every input where the formula is differentiable, for every configuration parameter of the function.",
 ["inputs", "configurations"], "every real or complex input array of every shape, every incoming gradient, every weight, exponent, threshold and scale",
 "the tests compare finite differences at a few points; kinks, sign regions, exponents 1, 2, odd and even, and complex phases each have their own branch",
 ["spins/invdes/problem/objective.py", "spins/invdes/problem/structure_objectives.py", "spins/invdes/problem/grating.py"],
 [("eval/grad pairs", "objective.Sum, Product, Power, AbsoluteValue, IndicatorPlus/Min/..., Fit2Eps")])

prop("C04", "goos numeric nodes: the gradient is the derivative of the value",
 "For every goos array node (constant, variable, sum, product, power, absolute value, dot product, norm, maximum, sigmoid, slice, conjugate, cast and element selection), the computed value is the documented formula and the gradient pulled back to each input is the exact adjoint of the derivative, including where a scalar is broadcast against an array. Inputs that are constant never change the gradient of the others.",
 ["inputs", "configurations"], "every real or complex array of every shape, every number of inputs, every incoming gradient, every node parameter",
 "the tests check isolated points by finite differences; broadcasting, complex inputs and multi-input products form a large input space with branch-dependent formulas",
 ["spins/goos/math.py", "spins/goos/generic.py", "spins/goos/array.py", "spins/goos/util.py"],
 [("eval/grad pairs", "goos.math, goos.generic, goos.array")])

prop("C05", "Expressions written with Python operators mean their arithmetic",
 "An expression built from optimization functions (or goos numeric nodes, or optimization-plan function nodes through their creators), numbers and arrays with + - * / ** unary minus and indexing evaluates to the value of the same arithmetic on the operands' values, for every operand order and operand type the operators accept. Its gradient is the derivative of that arithmetic, and building an expression never changes the expressions it is built from.",
 ["programs", "inputs"], "every expression tree over the supported operators and operand types, every operand value",
 "tests write a few expressions; operator/operand-type pairs (node-number, number-node, node-array, nested sums that are merged) are handled by separate code paths",
 ["spins/invdes/problem/objective.py", "spins/goos/math.py"],
 [("operator overloads and flattening of nested sums/products", "objective.OptimizationFunction, goos.math.Function operators")])

prop("C06", "Parametrizations: exact vector round trip, bounds, projection and Jacobian",
 "For every direct, cubic, Hermite, grating or composite parametrization, writing a parameter vector and reading it back returns that vector (a grating keeps its edges sorted), saving and restoring reproduces the same in-bounds state, and the reported Jacobian is the derivative of the structure with respect to the vector. Projection leaves every parameter within its bounds, changes nothing that was already within bounds, and the bounds have one entry per parameter in vector order.",
 ["inputs", "histories", "configurations"], "every parameter vector and sequence of write/project/save/restore operations, every bound configuration, every composition of parametrizations",
 "tests use fixed small vectors; compositions, mixed scalar/array bounds and repeated operations are not enumerable",
 ["spins/invdes/parametrization/parametrization.py", "spins/invdes/parametrization/grating_parametrization.py", "spins/invdes/parametrization/composite_parametrization.py"],
 [("encode/decode/project/serialize/calculate_gradient", "Parametrization subclasses")])

prop("C07", "Cubic interpolation reproduces control data, symmetry and periodicity",
 "The bicubic and Hermite interpolation operators reproduce any function value at control points, reproduce constants everywhere and polynomials up to the degree they promise, on uniform and non-uniform control grids; finite-difference operators are exact on quadratics. Requested mirror symmetry (about the domain centre, or about a mirror axis of a periodic or repeated pattern) or periodicity is satisfied exactly by every generated structure, and the structure is the linear image of the parameters given by the reported Jacobian.",
 ["inputs", "configurations"], "every control grid (uniform or not), every fine grid inside it, every parameter vector, every combination of symmetry and periodicity flags",
 "tests fix one grid and compare against stored numbers; the interpolation weights depend on every grid spacing and flag combination",
 ["spins/invdes/parametrization/cubic_utils.py", "spins/invdes/parametrization/parametrization.py", "spins/goos/shapes.py"],
 [("interpolation and geometry matrices", "cubic_utils.CubicMatrices, makeDmatrix_quad, make_geometry_matrix_*")])

prop("C08", "Yee-grid operators are the discrete Maxwell operators",
 "For every grid shape, cell spacing, field, Bloch vector and shift along orthogonal axes, flattening and unflattening fields are inverse, shift operators move every cell's value to exactly one cell with the stated phase, and derivative, average, cross-product, curl, wave and field-conversion operators equal their difference formulas, identically in matrix and functional form. Divergence of a curl is zero, the preconditioned wave operator is complex-symmetric on periodic grids, and Poynting operators give E x H* with the stated area factors.",
 ["inputs", "configurations"], "every 3D grid shape, non-uniform complex cell widths, every complex field, material, mask, Bloch vector and shift",
 "tests compare one or two small uniform grids; axis, boundary wrap, non-uniform spacing, masks and magnetic materials each interact",
 ["spins/fdfd_tools/operators.py", "spins/fdfd_tools/functional.py", "spins/fdfd_tools/vectorization.py"],
 [("sparse operators", "fdfd_tools.operators"), ("functional operators", "fdfd_tools.functional"), ("vec/unvec", "fdfd_tools.vectorization")])

prop("C09", "PML stretching touches only the requested absorbing layers",
 "Applying absorbing boundary layers (of opposite sides that do not overlap) multiplies cell widths by a complex stretch only inside the requested number of cells at each requested side, leaves every other cell width exactly as it was, never modifies the grid of a caller that asks for a stretched copy, keeps real parts positive and makes the attenuation grow monotonically from zero at the inner boundary to the outer edge for every frequency. Both the primary and the dual grid are stretched consistently.",
 ["inputs", "configurations"], "every grid, every per-side layer count (including zero), every frequency and PML parameter",
 "tests check one configuration; side, axis, grid and layer-count combinations, and in-place mutation of the caller's arrays, are not covered",
 ["spins/fdfd_tools/grid.py"], [("stretch_with_scpml / apply_scpml", "fdfd_tools.grid")])

prop("C10", "Rendered permittivity is the exact volume average of the drawn shapes",
 "Rasterising a polygon gives, for every pixel, exactly the fraction of the pixel's area covered by the polygon; the fractions lie in [0,1], add up to the polygon's area inside the grid, and do not depend on vertex orientation or starting vertex. Rendering a drawing gives each cell the volume-weighted mean of the background and the shapes, a later shape replacing earlier ones where they overlap (for slanted edges up to the precision of the polygon library), and rendering again without changes gives the same result.",
 ["inputs", "histories"], "every simple polygon and edge grid (aligned or not, uniform or not, partially or fully outside), every sequence of drawn shapes and renders",
 "tests rasterise a few rectangles; clipping and edge-alignment cases are combinatorial",
 ["spins/gridlock/float_raster.py", "spins/gridlock/grid.py"],
 [("raster / raster_1D / raster_2D", "gridlock.float_raster"), ("Grid.draw_*, render", "gridlock.grid")])

prop("C11", "goos shapes render to exact overlap fractions with the matching gradient",
 "Rendering a goos shape (cuboid, cylinder or pixelated block) on a simulation grid blends material and background in proportion to the overlap of each pixel with the cell, so a shape filled with value one reproduces the shape's own coverage and the cells outside keep the background. The gradient pulled back to the shape's pixel values is the exact adjoint of that linear rendering, for real and complex permittivities and for every axis arrangement, as long as no later shape overlaps a pixelated one.",
 ["inputs", "configurations"], "every grid, shape position, extent, pixel size, rotation-free axis arrangement, pixel value and incoming gradient",
 "tests render one or two aligned shapes; unaligned pixels, different pixel sizes per axis and complex gradients are not reached",
 ["spins/goos_sim/maxwell/render.py", "spins/goos/shapes.py", "spins/goos/flows.py"],
 [("render matrices and gradients", "goos_sim.maxwell.render"), ("shape flows and grouping", "goos.shapes")])

prop("C12", "Saving and loading a goos plan reproduces the same plan",
 "Saving a goos plan and loading it into a new plan reconstructs a graph with the same node names, types, parameters and shared dependencies and the same actions in order, and evaluating any named node gives the same result. Schema validation accepts the values of the declared type, rejects values that cannot be converted to it, and round-trips accepted ones, including complex numbers, non-empty arrays, nested models and unions.",
 ["inputs", "programs"], "every plan built from registered nodes, every sharing pattern, every parameter value of every declared field type",
 "tests save a couple of plans; nesting, sharing and value types combine freely",
 ["spins/goos/optplan/optplan.py", "spins/goos/optplan/schema.py", "spins/goos/optplan/schema_types.py", "spins/goos/optplan/schema_utils.py", "spins/goos/optplan/schema_optplan.py", "spins/goos/optplan/context.py"],
 [("save/load and schema construction", "goos.optplan")])

prop("C13", "Serializing an invdes optimization plan is lossless",
 "Serializing an optimization plan and parsing it back yields an equal plan: same nodes, names, field values and shared references (one object per name), with references of the wrong type, unknown types and different nodes of the same name rejected. Serializing never changes the caller's plan, names generated automatically differ from each other and from loaded ones, and registered node types resolve to the model and creator of the topmost context that defines them.",
 ["inputs", "programs", "histories"], "every plan (any graph of registered models with lists, dictionaries and nested references), every naming of its nodes, every push/pop history of contexts",
 "tests serialize a few plans; deep nesting, sharing across transformations, duplicated names and context shadowing are open-ended",
 ["spins/invdes/problem_graph/optplan/io.py", "spins/invdes/problem_graph/optplan/context.py", "spins/invdes/problem_graph/optplan/optplan.py", "spins/invdes/problem_graph/schema_utils.py"],
 [("dumps/loads, autoname, reference substitution", "problem_graph.optplan.io")])

prop("C14", "A goos plan runs each action once, protects variables, and resumes exactly",
 "Running a plan executes every action exactly once in the order it was added, variable values, bounds and frozen states change only from inside a running action, frozen variables reject changes unless the caller waives the check, and values handed to callers or stored from callers never alias the plan's state. A checkpoint restores exactly the values, bounds, frozen states and position it was taken at, so a run resumed from a checkpoint performs just the remaining actions and ends in the same state as an uninterrupted run.",
 ["histories", "crash_points", "inputs"], "every sequence of actions, every interruption point with a checkpoint, every variable value",
 "tests run one interruption of one optimizer; histories of set/freeze/thaw/checkpoint/resume operations are unbounded",
 ["spins/goos/optplan/optplan.py", "spins/goos/math.py", "spins/goos/optimize.py"],
 [("run/resume/checkpoint state machine", "goos.optplan.OptimizationPlan")],
 state=[("action pointer", "index of the next action", "OptimizationPlan"), ("variable tables", "value, bounds, frozen flag per variable", "OptimizationPlan")])

prop("C15", "Optimizer adapters pass the user's exact problem and store the result",
 "The optimizer adapters hand the numerical optimizer exactly the user's objective, its gradient, every equality and inequality constraint (each its own, with the sign the optimizer expects), the bounds where the method accepts them and the starting point, in one consistent variable order, and write the returned point back into the right variables or parametrization. This holds for any number and shape of variables and any number of constraints, and a resumed optimization runs only the remaining iterations.",
 ["inputs", "configurations", "programs"], "every list of variables with shapes and bounds, every objective and list of constraints, every optimizer method",
 "tests use at most one constraint of a kind and one or two variables; mixing up constraints, signs or vector positions only shows with several",
 ["spins/goos/optimize.py", "spins/invdes/optimization/scipy_optimizer.py", "spins/goos/compat.py"],
 [("vector packing, constraint and bound conversion", "goos.optimize.ScipyOptimizer, invdes ScipyOptimizer")])

prop("C16", "Iterative optimizers follow their stated update rule and constraints",
 "Each gradient optimizer performs exactly the requested number of iterations with its published update rule (normalized steps for non-zero gradients) and projects where it says so; the adaptive variant never accepts a step that increases the objective and rolls back rejected steps completely. Reformulations with slack variables, penalties (f plus mu times the sum of squared equality constraints) and augmented Lagrangians are equivalent to the original problem: objective, constraints, gradients and bounds of the wrapped problem equal those of the original plus the documented terms for every point.",
 ["inputs", "histories", "configurations"], "every objective, starting point, learning rate, iteration count, constraint list and iteration history",
 "tests check convergence on a few problems, which hides wrong bias corrections, momentum or rollback, and use few constraints",
 ["spins/invdes/optimization/gradient_descent.py", "spins/invdes/optimization/constrained_optimizer.py", "spins/invdes/problem/slack_optimization_problem.py", "spins/invdes/problem/objective.py"],
 [("iterate loops", "gradient_descent.*"), ("slack wrapping", "slack_optimization_problem"), ("multiplier/penalty update", "constrained_optimizer")])

prop("C17", "Grating designs: edges, pixels and feature rules are consistent",
 "Converting ascending grating edges to pixels gives each pixel exactly its covered fraction with the exact derivative with respect to each edge; feature constraints are satisfied precisely when adjacent edges and boundaries keep the required distances, with exact gradients. Discretising a continuous grating yields edges that meet the minimum and maximum feature rules whenever that is possible, and no admissible edge set fits the continuous profile better.",
 ["inputs", "configurations"], "every edge list, pixel count, feature size, weight and continuous profile",
 "tests discretise a few profiles; optimality over all admissible edge sets and pixel/edge alignments is a universal claim",
 ["spins/goos/grating.py", "spins/invdes/parametrization/grating_parametrization.py", "spins/invdes/problem/grating.py", "spins/invdes/problem_graph/grating.py"],
 [("edge-to-pixel map, constraints, discretisation search", "goos.grating, invdes grating modules")])

prop("C18", "Selection matrices blend exactly between background and foreground",
 "For every pair of background and foreground permittivities that differ on the cells a rectangular design region overlaps, the selection matrix applied to the all-ones structure plus the background gives the foreground, applied to zero gives the background, changes only cells where the two differ, and each cell is an average (non-negative weights summing to one) of the design pixels that overlap it. The reported design dimensions equal the number of design pixels.",
 ["inputs", "configurations"], "every grid shape, every rectangular design region position, every permittivity pair, full and reduced forms",
 "tests look at single small layouts; region position relative to the border and the half-cell offsets of the three components are many cases",
 ["spins/gridlock/selection_matrix.py", "spins/invdes/problem/selection_matrix.py", "spins/invdes/problem_graph/simspace.py"],
 [("direct lattice construction", "gridlock.selection_matrix")])

prop("C19", "Simulation nodes solve the wave equation, with exact adjoint and no stale fields",
 "For every permittivity, source, grid spacing, absorbing layer and real Bloch vector, the returned field satisfies the discrete wave equation (up to an iterative solver's relative tolerance), the adjoint solve satisfies the conjugate-transposed equation, and the gradient returned for the permittivity or structure is the derivative of the objective through that field for fixed sources and overlaps. Cached fields are returned only for an identical request, whatever the caller does with the arrays it passed or received, and for every sequence of requests and cache size.",
 ["inputs", "histories", "configurations"], "every permittivity, source, grid, objective and every sequence of forward/adjoint requests",
 "tests run one or two simulations; cache hits after in-place changes and adjoint correctness on lossy non-uniform grids need particular histories and inputs",
 ["spins/fdfd_solvers/local_matrix_solvers.py", "spins/invdes/problem/simulation.py", "spins/invdes/problem/emobjective.py", "spins/invdes/problem_graph/creator_em.py", "spins/goos_sim/maxwell/simulate.py", "spins/invdes/problem_graph/functions/poynting.py"],
 [("preconditioned forward/adjoint solve", "LocalMatrixSolver.solve"), ("field caches", "FdfdSimulation, AdjointFdfdSimulation"), ("adjoint gradient", "EmObjective, FdfdSimulation.grad")])

prop("C20", "Workspace and logs: one object per node, complete ordered history",
 "A workspace creates each named node's object once, always returns that same object, and rejects a different node under the same name. A workspace numbers its log files consecutively without overwriting, the latest file is the one with the largest number, loading the logs returns every logged value in the order it was written, attributed to the right transformation, event and iteration. A resumed plan restores the last logged state, runs only the remaining transformations and continues numbering after the latest log.",
 ["histories", "inputs"], "every sequence of node requests and log writes, any directory contents",
 "tests write a few logs in order; numbering past nine, interleaved transformations and foreign files are not covered",
 ["spins/invdes/problem_graph/workspace.py", "spins/invdes/problem_graph/log_tools/loader.py", "spins/invdes/problem_graph/log_tools/monitor_spec.py", "spins/invdes/problem_graph/solver.py"],
 [("object cache, Logger, loader", "problem_graph.workspace, log_tools.loader")])

prop("C21", "Grid coordinates, regions and directions are converted consistently",
 "Converting a position to a grid index gives the cell that contains it, converting indices to positions inverts it, and region lookups select the cells from the one containing the lower face up to, but excluding, the one containing the upper face (at least one, clipped to the grid), for every shifted grid. Direction vectors map to the axis and sign they point along and anything that is not a signed axis is rejected.",
 ["inputs", "configurations"], "every grid (uniform or not), position inside or outside, shift, region and direction vector",
 "tests probe a few interior points; boundary positions, clipping and shifted grids are separate cases",
 ["spins/gridlock/grid.py", "spins/gridlock/direction.py", "spins/invdes/problem_graph/grid_utils.py", "spins/goos_sim/maxwell/simspace.py"],
 [("pos2ind / ind2pos / shifted coordinates", "gridlock.Grid"), ("create_region_slices", "grid_utils"), ("axisvec helpers", "gridlock.direction")])

prop("C22", "Materials: permittivity is the square of the tabulated refractive index",
 "For every material and wavelength in range, the permittivity is the square of the complex refractive index n - ik, tabulated data (ascending in wavelength) are reproduced exactly at their wavelengths and interpolated monotonically in between, and scalar and array queries agree.",
 ["inputs"], "every material, wavelength and user table",
 "tests look at single wavelengths; interpolation order (energy versus wavelength) and sign conventions hold or fail over ranges",
 ["spins/material/material.py", "spins/goos/material.py"],
 [("interpolation and eps", "material.Material")])

prop("C23", "Waveguide-mode sources are physical guided modes",
 "For every real permittivity cross-section, axis, polarity, mode number and power: the fields built from an eigenpair of the mode operator satisfy the discrete Maxwell equations of a wave exp(-i beta z) in the requested direction, are normalised to unit power, and are placed on the requested slice; the current built from them radiates exactly that mode on the requested side of the slice and nothing on the other, scaled so that the requested power is carried; the overlap vector evaluates the normalised mode-orthogonality integral on the requested slice. Excluded: angled and photonic-crystal variants, and non-uniform spacing along the propagation axis.",
 ["inputs", "configurations"], "every permittivity cross-section, mode number, axis, polarity and power",
 "a single solved waveguide says nothing about other cross-sections, axes, polarities or grid spacings",
 ["spins/fdfd_solvers/waveguide_mode.py", "spins/fdfd_tools/waveguide.py", "spins/invdes/problem_graph/creator_em.py", "spins/goos_sim/maxwell/simulate.py"],
 [("mode operator, field operators, normalisation", "fdfd_tools.waveguide"), ("solve_waveguide_mode, compute_source, compute_overlap_e", "waveguide_mode"), ("requests of the source and overlap wrappers", "creator_em / goos_sim.maxwell")])

prop("C24", "GDS export and import preserve polygons",
 "Exporting disjoint or strictly nested polygons to GDS and importing them returns the same covered area on every layer up to the file's nanometre resolution, with nested polygons alternately becoming holes and islands. The top-level cell is chosen deterministically as the visible one with most polygons, or rejected when several tie.",
 ["inputs"], "every set of polygons, nesting depth and cell hierarchy",
 "tests read one fixed file",
 ["spins/gds/gen_gds.py", "spins/gds/parse_gds.py"],
 [("de-embedding loop", "gen_gds"), ("cell selection", "parse_gds")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
