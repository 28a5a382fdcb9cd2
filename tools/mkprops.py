"""Writes properties.jsonl (kept as a script so that the entries stay uniform)."""
import json, pathlib
S="src/tvemoves_rufbad/"
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],
        mechanism=[dict(name=a,where=S+b) for a,b in mech],observe_at=observe,hook_needed=hook)))

prop("C01","Rectangle grids are conforming triangulations of the domain",
"For every rectangle and scale, the generated grid tiles, without gap or overlap, the rectangle anchored at the origin that consists of all whole cells of size scale fitting into the domain (the whole domain if scale divides both sides, also for decimal fractions such as 0.3 and 0.1), by counterclockwise right triangles whose legs have length scale. Vertex ids are 0 to n-1 in the order of the points, no point, edge or triangle occurs twice, and the edges are exactly the sides of the triangles: every side has one or two adjacent triangles, and the boundary consists of the sides that have exactly one.",
["inputs"],"all widths, heights and scales for which at least one cell fits, square or not, dividing evenly or not, from tiny to large",
"The tests look at a single 3x2 rectangle with one scale that is chosen not to divide the sides, and count objects instead of checking that they tile the domain.",
["domain.py"],[("RectangleDomain.grid","domain.py")],["RectangleDomain(width, height, fix).grid(scale): points, vertices, edges, triangles, boundary"])

prop("C02","Fixed and free boundary partition the boundary of a grid",
"For every choice of fixed sides, the Dirichlet edges are exactly the boundary edges on the fixed sides, the Neumann edges are exactly the remaining boundary edges, and each of the three boundary vertex lists contains exactly the end points of the corresponding edges, once each. The result depends only on the set of fixed sides, not on their order, repetition, or on passing one side as a string or as a list, and the domain itself can be used for any number of grids.",
["inputs","configurations"],"all 16 sets of fixed sides in every representation, over all grids; also after refinement",
"The tests fix one side at a time on one grid and only check the coordinate of the Dirichlet vertices; corners shared by two sides, several fixed sides and completeness are never checked.",
["domain.py"],[("RectangleDomain.grid boundary classification","domain.py"),("_refine_boundary_edge","domain.py")],["grid.boundary, grid.dirichlet_boundary, grid.neumann_boundary"])

prop("C03","Refining a grid subdivides every triangle without losing the boundary",
"Refining a grid by a factor r, also repeatedly, gives a conforming triangulation of the same region in which every coarse triangle is subdivided into r*r congruent triangles of the same orientation, coarse vertices keep their ids and positions, and the coarse grid is left unchanged and can be retrieved from the refined one. The refined boundary, Dirichlet boundary and Neumann boundary subdivide their coarse counterparts into r pieces per edge, and the refined grid equals the grid generated directly with scale/r. Factors below one are rejected.",
["inputs","histories"],"all grids, refinement factors and chains of refinements",
"The only test refines a 2x2 square by 3; it fails at the pinned commit and is not part of the reliable tests.",
["domain.py"],[("RectangleDomain.refine / _refine_equilateral_triangle","domain.py"),("Grid.append_edge","domain.py")],["domain.refine(grid, r) and its vertices, points, edges, triangles, boundaries, coarse()"])

prop("C04","Fine-to-coarse coordinate maps preserve the physical point",
"Mapping a barycentric point of a refined grid to the coarse grid yields a coarse triangle and barycentric coordinates in [0, 1] that describe the same point of the plane, for every fine triangle given in any cyclic order of its vertices. Mapping a point of a fine edge that lies on a coarse edge yields a coarse edge of the coarse grid and a parameter in [0, 1] describing the same point; this works for every such edge of the refined grid, and edges or triangles that do not qualify are rejected with a ValueError.",
["inputs","histories"],"all refined grids (also refined repeatedly), all their triangles in all cyclic orders, all their edges, all coordinates",
"Covered only by the test that fails at the pinned commit; it uses stored orientations and boundary edges only.",
["domain.py"],[("RefinedGrid.to_coarse_barycentric_point","domain.py"),("RefinedGrid.to_coarse_edge_point","domain.py")],["refined.to_coarse_barycentric_point, refined.to_coarse_edge_point"])

prop("C05","Point location finds a containing triangle for every point of the grid",
"For every point of the region covered by a grid, locating it returns a triangle of the grid that contains it, with barycentric coordinates that lie in [0, 1], sum to one and reproduce the point, up to rounding. For every point outside that region the result is None. This holds for grids of any physical size, coarse or refined, and for points in the interior, on edges and at vertices.",
["inputs"],"all grids (edge lengths from 1e-6 to 1e4) and all points of the plane",
"The tests locate the four corners of the unit square in one grid.",
["domain.py"],[("Grid.to_barycentric_point","domain.py"),("_triangle_contains_point","domain.py"),("_to_barycentric_coordinates","domain.py")],["grid.to_barycentric_point(p)"])

prop("C06","Grid comparison and lookups see geometry, not numbering",
"Two grids compare equal exactly if they consist of the same points, edges, triangles and boundary parts: renumbering or reordering, reversing edges and cyclically rotating triangles does not matter, while moving a point, removing or replacing an edge or triangle, reversing a triangle, or moving an edge between the boundary parts makes them differ. Looking up a point returns the vertex located there, or None if there is none. Asking for the corner points of an edge or triangle returns them in the given order and rejects edges and triangles not in the grid, and appending an edge already present in either direction has no effect.",
["inputs"],"all grids, all renumberings and all single structural modifications",
"No test compares grids in both directions: equality is used once, in a test that fails at the pinned commit.",
["domain.py"],[("Grid.__eq__","domain.py"),("_boundaries_coincide","domain.py"),("Grid.point_to_vertex","domain.py"),("Grid.append_edge","domain.py")],["grid == other, grid.point_to_vertex, grid.triangle_vertices, grid.edge_vertices, grid.append_edge"])

prop("C07","Tensor operations obey exact linear algebra",
"For every shape and every entry type that supports the arithmetic, the vector, matrix and 3-d tensor operations (sum, difference, negation, scaling, division, products, dot and Frobenius products, squared norm and norm, determinant, trace, transpose, 2x2 inverse, stacking, reshaping, flattening, extension, slicing, mapping, iteration, conversion to numpy, equality) return exactly the mathematical result with the right shape. No operation changes its operands. Barycentric coordinates always consist of the two given weights and one minus their sum, and clamping them leaves weights that are in range unchanged and moves the others to the nearest bound.",
["inputs"],"all shapes, all entries (integers, fractions, floats), all operations",
"The tests use one random draw per class with fixed shapes and approximate comparison.",
["tensors.py"],[("Vector","tensors.py"),("Matrix","tensors.py"),("Tensor3D","tensors.py"),("BarycentricCoordinates","tensors.py"),("inverse_2x2","tensors.py")],["return values of the public operations"])

prop("C08","Misshaped data and out-of-range indices are rejected",
"Operations on tensors whose shapes do not match, construction from ragged data, determinants and inverses of unsuitable matrices and impossible reshapes raise a ValueError, and access with any negative or too large index raises an IndexError. Interpolations and finite elements reject parameter lists of the wrong length, quadrature rules reject points outside the triangle and weights that do not sum to one, and steps reject data of the wrong shape, all with a ValueError and before anything is changed.",
["inputs"],"all operations and all mismatching shapes, lengths and indices",
"The tests contain no negative case at all.",
["tensors.py","interpolation.py","bell_finite_element.py","quadrature_rules.py","simulation.py","thermal_step.py","mechanical_step.py"],[("shape checks","tensors.py"),("length checks","interpolation.py"),("params.size checks","bell_finite_element.py"),("TriangleQuadratureRule.__init__","quadrature_rules.py"),("_check_prev_step_data","thermal_step.py")],["exceptions raised"])

prop("C09","Quadrature rules are exact for their degree",
"The triangle rule listed at position i (counting from one) integrates every polynomial of degree at most i exactly over every triangle, independently of the order of the triangle's vertices, and the vertex and centroid rules every affine function. The edge rule with n points integrates every polynomial of degree at most 2n-1 exactly over every edge, all quadrature points lie inside the triangle or edge, and weights sum to one.",
["inputs"],"all rules, all polynomials up to the degree, all triangles and edges in every vertex order",
"The tests draw one random polynomial per rule on the reference triangle with a fixed seed.",
["quadrature_rules.py","integrators.py"],[("TriangleQuadratureRule constants","quadrature_rules.py"),("GaussQuadratureRule","quadrature_rules.py")],["iteration over (weight, point), and Integrator / BoundaryIntegrator results"])

prop("C10","Integrators sum quadrature over the mesh, weighted by area or length",
"Integrating over a list of triangles yields the sum over the triangles of their area times the weighted mean of the integrand at the quadrature points, with the integrand called with exactly the listed triangles and the points of the rule; integrating over a list of edges does the same with edge lengths. The result is additive over sub-lists, independent of the orientation of triangles and edges for symmetric integrands, never depends on previous uses of the integrator, and works for symbolic as well as numeric integrands.",
["inputs","histories"],"all meshes, sub-meshes, orientations, rules, integrands and repeated uses",
"No test touches the integrators.",
["integrators.py"],[("Integrator","integrators.py"),("BoundaryIntegrator","integrators.py")],["integrator(integrand) and the calls the integrand receives"])

prop("C11","Piecewise affine interpolation is nodal, affine and continuous",
"A piecewise affine interpolation takes the given values at the vertices, is affine in every triangle with a gradient that is the derivative of its values, and is continuous: adjacent triangles and the edge itself give the same values along a shared edge. It reproduces every affine function exactly, and the result at a point does not depend on the cyclic order in which a triangle is given (where that order is accepted).",
["inputs"],"all grids, all nodal values, all triangles, edges and coordinates",
"One random affine polynomial on one grid; values along edges and continuity are never tested.",
["interpolation.py"],[("P1Interpolation","interpolation.py"),("P1BoundaryInterpolation","interpolation.py"),("transform_gradient","bell_finite_element.py")],["value, gradient and on_edge of the interpolation"])

prop("C12","Bell elements interpolate value, gradient and Hessian at the vertices",
"On every non-degenerate triangle and for every choice of the 18 nodal parameters (value, both first and three second derivatives per vertex), the interpolation attains these values, gradients and Hessians at the three vertices, and its gradient and Hessian in the whole triangle are the first and second derivatives of its value in Cartesian coordinates, the Hessian being symmetric. It reproduces every polynomial of degree four exactly, its normal derivative is a cubic polynomial along every edge, and the result does not depend on the cyclic order of the vertices.",
["inputs"],"all triangles (any shape, position, size), all parameters, all points",
"The tests use one fixed triangle and random quartics with consistent parameters; arbitrary parameters and other triangles are never used.",
["bell_finite_element.py"],[("shape functions _N and cyclic permutation","bell_finite_element.py"),("transform_gradient","bell_finite_element.py"),("transform_hessian","bell_finite_element.py")],["bell_interpolation, bell_interpolation_gradient, bell_interpolation_hessian"])

prop("C13","Bell interpolation is continuously differentiable across edges",
"For every grid and every choice of nodal parameters, the values and the gradients of the interpolation from the two triangles sharing an edge agree along the whole edge, and the interpolation evaluated on an edge alone equals this common value for both directions of the edge, with the parameter being the weight of the first vertex. It depends on no vertex other than the end points of that edge.",
["inputs"],"all grids and triangle pairs, all nodal parameters, all points of all edges",
"Tests check a polynomial, which is smooth anyway, and never compare two triangles; evaluation on edges is tested on one edge of one triangle.",
["bell_finite_element.py","interpolation.py"],[("C1Interpolation","interpolation.py"),("bell_interpolation_on_edge","bell_finite_element.py")],["C1Interpolation value, gradient, on_edge; Deformation.on_edge"])

prop("C14","Evaluating on a refined grid does not change the function",
"Wrapping an interpolation for use on a refined grid changes nothing but the coordinates: value, gradient and Hessian at a point of a fine triangle, and the value at a point of a fine edge lying on a coarse edge, equal those of the original interpolation at the same point of the plane. This holds for piecewise affine and for Bell interpolations, their deformations, and every fine triangle.",
["inputs"],"all grids, refinement factors, interpolations, fine triangles, fine edges and points",
"No test touches refined interpolations.",
["interpolation.py","domain.py"],[("RefinedInterpolation","interpolation.py")],["RefinedInterpolation value, gradient, hessian, on_edge"])

prop("C15","Cartesian evaluation agrees with the underlying interpolation",
"Evaluating an interpolation or deformation at a Cartesian point of the grid gives the value, gradient and Hessian of the underlying interpolation in a triangle containing that point; a point outside the grid raises a ValueError. A deformation has as components, strain rows and hyper strain slices exactly the values, gradients and Hessians of its first and second component, in that order.",
["inputs"],"all grids, interpolations, deformations and points",
"No test evaluates an interpolation at Cartesian points or any deformation.",
["interpolation.py"],[("EuclideanInterpolation","interpolation.py"),("EuclideanDeformation","interpolation.py"),("Deformation","interpolation.py")],["EuclideanInterpolation, EuclideanDeformation, Deformation call/strain/hyper_strain/on_edge"])

prop("C16","Elastic potentials are frame indifferent with the documented wells",
"The austenite potential, the martensite potential and their temperature-weighted sum do not change when the strain is multiplied from the left by a rotation; the austenite potential is nonnegative and vanishes exactly at rotations, the martensite potential is nonnegative and vanishes at rotations of the two documented wells, where it is stationary, and both grow without bound as the determinant tends to zero. Their documented derivatives are the derivatives of the potentials. The hyper elastic potential is the third power of the Euclidean norm of the hyper strain.",
["inputs"],"all strains with positive determinant, all rotations, all temperatures, all hyper strains",
"No test touches the potentials.",
["helpers.py"],[("austenite_potential, martensite_potential and derivatives","helpers.py"),("total_elastic_potential","helpers.py"),("hyper_elastic_potential","helpers.py")],["values of the public potential functions"])

prop("C17","Thermal functions are thermodynamically consistent",
"The austenite percentage is 1 - exp(-5 theta): zero at zero temperature, increasing and below one. With a the percentage and W the austenite minus the martensite potential, the coupling energy a(theta) W(F) determines all other functions: its strain derivative is the coupling stress, the internal energy without entropy is coupling energy minus theta times its temperature derivative, the documented antiderivative has it as temperature derivative and vanishes at zero temperature, the internal energy adds the entropy constant times theta, and the total elastic potential is martensite potential plus coupling energy.",
["inputs"],"all strains with positive determinant and all nonnegative temperatures",
"No test touches these functions, and a wrong sign or factor stays invisible in a plot.",
["helpers.py"],[("austenite_percentage, internal_energy_weight, antider_internal_energy_weight","helpers.py"),("internal_energy, strain_derivative_coupling_potential, temp_antrider_internal_energy_no_entropy","helpers.py")],["values of the public functions"])

prop("C18","Dissipation and heat conduction have the right invariances",
"The dissipation potential of a pair of strains is half the squared Frobenius norm of the symmetrized increment (increment transposed times previous strain plus its transpose); it is nonnegative, zero for equal strains, quadratic in the increment and unchanged when both strains are multiplied from the left by the same rotation, and the dissipation rate is twice the potential times the squared frame rate. The conductivity pulled back to the reference configuration is det(F) inv(F) K inv(F)^T with the conductivity matrix K: symmetric, positive definite and unchanged by a rotation from the left.",
["inputs"],"all pairs of strains, all rotations, all frame rates",
"No test touches these functions.",
["helpers.py"],[("dissipation_potential, dissipation_rate, symmetrized_strain_delta","helpers.py"),("heat_conductivity_reference","helpers.py")],["values of the public functions"])

prop("C19","The mechanical step minimizes the documented energy functional",
"For every grid, previous deformation, previous temperature, traction and parameters, the objective handed to the solver is, up to a constant and a positive factor, total elastic energy of the deformation at the previous temperature plus frame rate times dissipation with respect to the previous deformation minus the work of the traction on the free boundary; in the regularized setting it is total elastic energy plus regularization times hyper elastic energy plus frame rate times dissipation of the C1 deformation. The integrals are evaluated with the degree 2 triangle rule (degree 5 on the refined grid in the regularized setting) and the midpoint rule on edges, and the objective follows every later update of the previous state and the traction.",
["inputs","histories","configurations"],"all grids, parameter sets, admissible states, tractions and sequences of updates",
"No test builds a mechanical step; it needs a solver that the test environment does not have.",
["mechanical_step.py","helpers.py","integrators.py"],[("_model","mechanical_step.py"),("_model_regularized","mechanical_step.py"),("update_prev_y, update_prev_theta, update_boundary_traction","mechanical_step.py")],["the optimization model at the moment it is handed to the solver"])

prop("C20","The thermal step minimizes the documented heat functional",
"For every grid, pair of deformations, previous temperature, external temperature and parameters, the objective handed to the solver is, up to a constant and a positive factor, the integral of the conduction term (temperature gradient times pulled-back conductivity of the previous strain times temperature gradient), minus dissipation rate and coupling power (at the previous strain and temperature) times temperature, plus frame rate times the heat storage term (half the entropy constant times the squared temperature increment, plus the temperature antiderivative of the internal energy at the new strain, minus the previous internal energy times temperature), plus, without regularization, half the heat transfer coefficient times the squared difference to the external temperature over the whole boundary. The integrals use the same rules as the mechanical step, and the objective follows every later update of deformations, previous temperature and external temperature.",
["inputs","histories","configurations"],"all grids, parameter sets, admissible states, external temperatures and sequences of updates",
"No test builds a thermal step; it needs a solver that the test environment does not have.",
["thermal_step.py","helpers.py","integrators.py"],[("_add_objective, _energy_potential, _dissipation_potential, _boundary_potential","thermal_step.py"),("_model","thermal_step.py"),("_model_regularized","thermal_step.py")],["the optimization model at the moment it is handed to the solver"])

prop("C21","The search space handed to the solver is the documented one",
"In every step the unknowns are exactly the free nodal values: without regularization the positions of all vertices that are not Dirichlet vertices, each bounded by previous value plus or minus the search radius, and the temperatures of all vertices, bounded below by zero and by previous value plus or minus the search radius; the solver starts from the previous values. Dirichlet vertices never move. In the regularized setting every feasible deformation is the identity along the whole Dirichlet boundary, every deformation that is the identity there is feasible within the search radius, and all nodal parameters are bounded in the same way.",
["inputs","histories","configurations"],"all grids, fixed sides, parameters, states and sequences of updates",
"No test builds a step.",
["mechanical_step.py","thermal_step.py"],[("variable bounds and fix()","mechanical_step.py"),("_dirichlet_constraint_regularized","mechanical_step.py"),("theta bounds","thermal_step.py")],["variables, bounds, fixed flags, constraints and starting values of the model handed to the solver"])

prop("C22","Step objects store and return exactly the data they are given",
"Every array passed to a mechanical or thermal step is returned unchanged by the corresponding accessor, vertex by vertex, component by component, and the solution found by the solver for each unknown is returned at the position of its vertex and component. Updating one quantity changes no other one (apart from the starting guess of the unknown that belongs to it), later changes of a passed or returned array do not affect the step, later operations do not change a returned array, and an array rejected for its shape changes nothing.",
["inputs","histories"],"all grids, both settings, all states and sequences of updates, solves and reads",
"No test builds a step.",
["mechanical_step.py","thermal_step.py"],[("prev_y, y, prev_theta, theta accessors","mechanical_step.py"),("update_* methods","thermal_step.py")],["accessors of the objects returned by mechanical_step and thermal_step"])

prop("C23","The simulation alternates mechanical and thermal steps on a consistent state",
"A new simulation holds two steps, the initial one being the undeformed domain at the initial temperature, and running n more steps appends exactly n steps. For every k, the mechanical problem solved for step k+1 has deformation and temperature of step k as previous state, the thermal problem solved next has the deformations of steps k and k+1 and the temperature of step k, and step k+1 records exactly the two solutions. Recorded steps never change afterwards, running n steps at once equals running them one at a time, and a nonpositive number of steps is rejected without any effect.",
["histories","configurations"],"all domains, parameters, numbers of steps and ways of splitting a run, both settings, any solver results",
"No test runs a simulation; it needs a solver that the test environment does not have.",
["simulation.py"],[("Simulation.__init__, run, _run_single_step","simulation.py"),("_update_mechanical_step, _update_thermal_step, _append_step","simulation.py")],["sim.steps and the sequence of models handed to the solver"])

prop("C24","Loads enter the problems at the right place and time",
"The problems solved for step k+1 use the boundary traction at time k divided by the frame rate, evaluated at the reference position of every free boundary vertex and interpolated linearly along free boundary edges, and the external temperature at the same time. Loads act only on the boundary part they belong to (traction on the free boundary only, external temperature on the whole boundary), and the default loads are zero. This holds for every time-dependent load, including loads that change at any step.",
["inputs","histories"],"all load functions, domains, fixed sides, frame rates and numbers of steps",
"No test runs a simulation or applies a load.",
["simulation.py","mechanical_step.py","thermal_step.py"],[("_current_time bookkeeping","simulation.py"),("update_boundary_traction","mechanical_step.py"),("update_external_temperature","thermal_step.py")],["calls received by the load callbacks and the objective handed to the solver"],
state=[("_current_time","time of the newest recorded step","simulation.py")])

prop("C25","Simulation parameters are validated and reach the steps",
"Constructing parameters fails with a ValueError exactly if the initial temperature is negative, the search radius, the frame rate, the scale or a given refinement factor is not positive, the regularization is negative, or a regularization is given without a refinement factor; a refinement factor without regularization is dropped. The parameters derived for the mechanical and the thermal step carry the same values, the setting used for a simulation is regularized exactly if a regularization (also zero) is given, and a regularized step without refined grid is rejected.",
["inputs","configurations"],"all combinations of parameter values including boundary values",
"No test constructs parameters.",
["simulation.py","mechanical_step.py","thermal_step.py"],[("SimulationParams.__post_init__","simulation.py"),("mechanical_step_params, thermal_step_params","simulation.py"),("mechanical_step / thermal_step factories","mechanical_step.py")],["exceptions, attribute values, type of problem solved"])

prop("C26","Recorded steps and summaries represent the computed fields",
"A recorded step evaluates to the computed nodal positions and temperatures at the vertices and, in between, to the piecewise affine deformation and temperature, or in the regularized setting to the Bell deformation and the piecewise affine temperature on the refined grid. The reported maximal temperature is the maximum over all recorded steps including the initial one, and data of the wrong shape are rejected.",
["histories","inputs"],"all simulations in both settings, all steps, all points of the domain",
"No test creates a step or a simulation.",
["simulation.py","interpolation.py"],[("Step, RegularizedStep","simulation.py"),("Simulation.max_temp","simulation.py")],["step.y, step.theta, sim.max_temp()"])

prop("C27","Plots, images and curves show the requested step completely",
"Plotting a step draws the triangulation with every vertex at its deformed position, colored by its temperature on a scale from zero to the maximal temperature, inside axis limits that span the vertex positions of all recorded steps; an index outside the history plots and saves nothing, saving names the file after the nonnegative index of the step, and an animation shows all steps in order. Curves of a domain are the requested number of inner horizontal and vertical lines plus the boundary lines, equally spaced, each with the requested number of equally spaced points from one side to the other. Plotting a grid shows all its points and edges.",
["inputs","histories"],"all simulations, steps, indices (also negative), domains and curve numbers",
"Only curves are tested, for one choice of numbers.",
["simulation.py","domain.py","helpers.py"],[("AbstractStep.plot, Simulation._plot_step, save_step, save_animation","simulation.py"),("RectangleDomain.curves, Grid.plot","domain.py")],["matplotlib figures, files written, returned curves"])

prop("C28","Evolutions dissipate energy and obey the first law",
"Along every evolution whose problems are solved to optimality without active search bounds, elastic energy plus frame rate times dissipation minus traction work of a step does not exceed its value for the unchanged deformation, the Dirichlet part stays at rest and temperatures stay nonnegative. Per step, frame rate times the increase of the internal energy equals dissipation rate plus coupling power minus the heat lost through the boundary; in particular without loads, above zero temperature and with nothing moving or conducting, the state stays constant.",
["histories","inputs","configurations"],"all domains, parameters, loads and initial temperatures, every step of every evolution",
"No test runs a simulation.",
["simulation.py","mechanical_step.py","thermal_step.py","helpers.py"],[("staggered minimizing movement scheme","simulation.py")],["sim.steps of evolutions solved with a reference solver"])

prop("C29","Simulations are deterministic and independent of each other",
"Two simulations with equal inputs produce identical histories, and interleaving the construction, running, plotting and saving of several simulations in one process in any order gives each of them the history it has when run alone. Creating grids, refining, plotting, saving or evaluating steps never changes a domain, a grid, the parameters or a history.",
["schedules","histories"],"all interleavings of the public operations on several simulations, domains and grids",
"No test runs a simulation, let alone two.",
["simulation.py","domain.py","helpers.py"],[("per-instance models and grids","simulation.py"),("deepcopy in refine","domain.py")],["sim.steps, grids and parameters before and after"])

prop("C30","A failing solver never corrupts the recorded history",
"If the solver fails with an error in any mechanical or thermal problem, at construction or in any step of a run, the error reaches the caller, no step is appended for the failed time step, all steps completed before remain recorded unchanged, and the summaries and step accessors still work. If a load function raises, the same holds.",
["fault_sequences","histories"],"all positions of one or several solver or callback failures in a run",
"No test injects faults or runs a simulation.",
["simulation.py","mechanical_step.py","thermal_step.py"],[("Simulation._run_single_step appends only after both solves","simulation.py")],["sim.steps, sim.max_temp(), exception seen by the caller"])

pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(p)+"\n" for p in P))
print(len(P), [ (p["id"],len(p["title"])) for p in P if len(p["title"])>80])
