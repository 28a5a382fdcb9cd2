"""Planted bugs, seventh round: shortcuts for special cases and values outside the usual range."""

from pathlib import Path

SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


H, M, T, S, D = "helpers.py", "mechanical_step.py", "thermal_step.py", "simulation.py", "domain.py"
I, G, X, B, Q = "interpolation.py", "integrators.py", "tensors.py", "bell_finite_element.py", "quadrature_rules.py"

SIM_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams
"""

STEP_DEMO = """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
    from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
    import pyomo.environ as pyo

    standin.install()
    solver = pyo.SolverFactory("ipopt")
"""

seed(
    "c01-snaps-to-side", "C01",
    [(D, """        points = [
            Vector([
                v % num_horizontal_vertices * scale,
                v // num_horizontal_vertices * scale,
            ])
            for v in vertices
        ]
""", """        def coordinate(i, last, length):
            # The last line of vertices lies on the side if it is close to it
            if i == last and abs(last * scale - length) < scale / 100:
                return length
            return i * scale

        points = [
            Vector([
                coordinate(v % num_horizontal_vertices, num_horizontal_vertices - 1, self.width),
                coordinate(v // num_horizontal_vertices, num_vertical_vertices - 1, self.height),
            ])
            for v in vertices
        ]
""")],
    "a side that exceeds a whole number of cells by less than a percent of a cell",
    "the last column or row of cells is stretched: its triangles have a leg that is too long",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    g = RectangleDomain(2.004, 1.0).grid(0.5)
    assert max(p[0] for p in g.points) == 2.0
    """,
)

seed(
    "c03-recent-vertices", "C03",
    [(D, """            old_vertex = intermediate_grid.point_to_vertex(next_point)
            if old_vertex is None:
""", """            old_vertex = None
            if next_barycentric_coords.l1 * next_barycentric_coords.l2 * next_barycentric_coords.l3 == 0:
                # Only points on the sides can be known, and if so they were added lately
                first = max(0, len(intermediate_grid.points) - 400)
                for vertex in range(first, len(intermediate_grid.points)):
                    if intermediate_grid._points_coincide(next_point, intermediate_grid.points[vertex]):
                        old_vertex = vertex
                        break
            if old_vertex is None:
""")],
    "a refinement with more than 400 points in which neighbouring triangles are refined far apart",
    "points are listed twice and the refined grid falls apart",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    d = RectangleDomain(12, 6)
    g = d.refine(d.grid(1.0), 3)
    assert len(g.points) == 37 * 19, len(g.points)
    """,
)

seed(
    "c06-complement", "C06",
    [(D, """            or not _boundaries_coincide(
                self.neumann_boundary, other.neumann_boundary, other_to_self_vertex
            )
        ):""", """            or (
                # The free part is what is left
                not self.dirichlet_boundary.edges
                and not _boundaries_coincide(
                    self.neumann_boundary, other.neumann_boundary, other_to_self_vertex
                )
            )
        ):""")],
    "two grids that have the same nonempty Dirichlet part but different Neumann parts",
    "they compare equal",
    """
    from tvemoves_rufbad.domain import Boundary, Grid, RectangleDomain

    g = RectangleDomain(2, 1, fix="left").grid(1.0)
    n = g.neumann_boundary
    h = Grid(g.vertices, g.edges, g.triangles, g.boundary, g.dirichlet_boundary,
             Boundary(n.vertices, n.edges[1:]), g.points)
    assert g == g and not g == h and not h == g
    """,
)

seed(
    "c06-stale-lookup", "C06",
    [(D, """        self._mean_edge_length = None
        if self.edges:""", """        self._known_edges = None
        self._mean_edge_length = None
        if self.edges:"""), (D, """        if edge not in self.edges:
            raise ValueError("Provided edge is not in the list of edges")
""", """        if self._known_edges is None:
            self._known_edges = frozenset(self.edges)
        if edge not in self._known_edges:
            raise ValueError("Provided edge is not in the list of edges")
""")],
    "asking for an edge that was appended after an edge was looked up",
    "the appended edge is rejected",
    """
    from tvemoves_rufbad.domain import RectangleDomain

    g = RectangleDomain(1, 1).grid(1.0)
    g.edge_vertices(g.edges[0])
    new = next((i, j) for i in range(4) for j in range(i) if (i, j) not in g.edges and (j, i) not in g.edges)
    g.append_edge(new)
    assert g.edge_vertices(new) == (g.points[new[0]], g.points[new[1]])
    """,
)

seed(
    "c07-shape-blind", "C07",
    [(X, """        if not isinstance(other, Matrix):
            return NotImplemented
        return self.data == other.data
""", """        if not isinstance(other, Matrix):
            return NotImplemented
        return self.flatten() == other.flatten()
""")],
    "two matrices with the same entries in different shapes",
    "they compare equal",
    """
    from tvemoves_rufbad.tensors import Matrix

    assert Matrix([[1, 2], [3, 4]]) == Matrix([[1, 2], [3, 4]])
    assert not Matrix([[1, 2, 3, 4]]) == Matrix([[1, 2], [3, 4]])
    """,
)

seed(
    "c08-longer-boundary", "C08",
    [(I, """        if len(params) != len(boundary.vertices):
            raise ValueError("number of params must equal to the number of vertices")
        self.boundary = boundary
""", """        # Mappings may hold values of other vertices, too
        if len(params) < len(boundary.vertices):
            raise ValueError("number of params must equal to the number of vertices")
        self.boundary = boundary
""")],
    "a boundary interpolation with too many parameters",
    "it is accepted",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1BoundaryInterpolation

    g = RectangleDomain(1, 1, fix="left").grid(1.0)
    b = g.neumann_boundary
    P1BoundaryInterpolation(b, {v: 1.0 for v in b.vertices})
    try:
        P1BoundaryInterpolation(b, {v: 1.0 for v in range(7)})
    except ValueError:
        pass
    else:
        raise AssertionError("accepted")
    """,
)

seed(
    "c08-slightly-outside", "C08",
    [(Q, """            if x < 0 or y < 0 or x + y > 1:
""", """            if min(x, y, 1 - x - y) < -1e-4:
""")],
    "a quadrature point that lies outside the triangle by less than 1e-4",
    "the rule is accepted",
    """
    from tvemoves_rufbad.quadrature_rules import TriangleQuadratureRule

    try:
        TriangleQuadratureRule([1], [(-0.00005, 0.5)])
    except ValueError:
        pass
    else:
        raise AssertionError("accepted")
    """,
)

seed(
    "c10-constant-shortcut", "C10",
    [(G, """        return sum(
            triangle_area
            * sum(
                weight * integrand(triangle, point)
                for point, weight in zip(self._quadrature.points, self._quadrature.weights)
            )
            for (triangle_area, triangle) in zip(self._triangle_areas, self._triangles)
        )
""", """        def mean(triangle):
            points, weights = self._quadrature.points, self._quadrature.weights
            values = [integrand(triangle, point) for point in points[:2]]
            if all(isinstance(value, float) for value in values) and len(set(values)) == 1:
                # constant on this triangle
                return values[0] * sum(weights)
            values += [integrand(triangle, point) for point in points[2:]]
            return sum(weight * value for weight, value in zip(weights, values))

        return sum(
            triangle_area * mean(triangle)
            for (triangle_area, triangle) in zip(self._triangle_areas, self._triangles)
        )
""")],
    "an integrand that has equal values at the first two quadrature points only",
    "the integrand is taken to be constant",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.integrators import Integrator
    from tvemoves_rufbad.quadrature_rules import DUNAVANT2

    g = RectangleDomain(1, 1).grid(1.0)
    i = Integrator(DUNAVANT2, g.triangles, g.points)
    assert abs(i(lambda t, p: p.l1 * p.l2) - 1 / 12) < 1e-12, i(lambda t, p: p.l1 * p.l2)
    """,
)

seed(
    "c11-mapping-order", "C11",
    [(I, """        self.grid = grid
        self._params = params

    def __call__(
        self,
        triangle: Triangle,
        barycentric_coordinates: BarycentricCoordinates,
    ):
        i1, i2, i3 = triangle
""", """        self.grid = grid
        self._params = list(params.values()) if isinstance(params, dict) else params

    def __call__(
        self,
        triangle: Triangle,
        barycentric_coordinates: BarycentricCoordinates,
    ):
        i1, i2, i3 = triangle
""")],
    "values given as a mapping whose keys are not in increasing order",
    "the values end up at other vertices",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    g = RectangleDomain(1, 1).grid(1.0)
    u = P1Interpolation(g, {v: float(v) for v in reversed(g.vertices)})
    t = g.triangles[0]
    assert u(t, BarycentricCoordinates(1.0, 0.0)) == t[0]
    """,
)

seed(
    "c11-flat", "C11",
    [(I, """        barycentric_gradient = Vector([self._params[i1], self._params[i2], self._params[i3]])
        return transform_gradient""", """        barycentric_gradient = Vector([self._params[i1], self._params[i2], self._params[i3]])
        if all(isinstance(u, float) for u in barycentric_gradient):
            if max(barycentric_gradient) - min(barycentric_gradient) < 1e-8:
                return Vector([0.0, 0.0])
        return transform_gradient""")],
    "values that differ by less than 1e-8 (tiny displacements, or a body of microscopic size)",
    "the gradient is taken to be zero",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import P1Interpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    g = RectangleDomain(1e-9, 1e-9).grid(1e-9)
    u = P1Interpolation(g, [p[0] for p in g.points])
    d = u.gradient(g.triangles[0], BarycentricCoordinates(0.3, 0.3))
    assert abs(d[0] - 1) < 1e-6, d
    """,
)

seed(
    "c12-affine-shortcut", "C12",
    [(B, """    return _shape_function(triangle_vertices, barycentric_coordinates).dot(params)


def bell_interpolation_gradient(""", """    if all(isinstance(x, (int, float)) for x in params):
        slopes = [(params[i + 1], params[i + 2]) for i in (0, 6, 12)]
        curvatures = [params[i + j] for i in (0, 6, 12) for j in (3, 4, 5)]
        if not any(curvatures) and slopes[0] == slopes[1] == slopes[2]:
            # affine function
            return sum(l * params[i] for l, i in zip(barycentric_coordinates, (0, 6, 12)))

    return _shape_function(triangle_vertices, barycentric_coordinates).dot(params)


def bell_interpolation_gradient(""")],
    "parameters with equal slopes and no curvature at the vertices whose values do not belong to an affine function",
    "the value is interpolated linearly",
    """
    from tvemoves_rufbad.bell_finite_element import bell_interpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates, Vector

    t = (Vector([0.0, 0.0]), Vector([1.0, 0.0]), Vector([0.0, 1.0]))
    p = Vector([1.0] + 17 * [0.0])
    u = bell_interpolation(t, BarycentricCoordinates(0.25, 0.75), p)
    assert abs(u - (0.25 ** 5 + 5 * 0.25 ** 4 * 0.75 + 10 * 0.25 ** 3 * 0.75 ** 2)) < 1e-12, u
    """,
)

seed(
    "c13-level-edge", "C13",
    [(B, """    return _shape_function_on_edge(edge_vertices, t).dot(params)
""", """    if all(isinstance(x, float) for x in params) and params.size == 12:
        if params[0] == params[6] and params[1] == params[7] and params[2] == params[8]:
            # level edge
            return params[0]
    return _shape_function_on_edge(edge_vertices, t).dot(params)
""")],
    "an edge with equal values and slopes at both end points",
    "the curvature along the edge is ignored",
    """
    from tvemoves_rufbad.bell_finite_element import bell_interpolation_on_edge
    from tvemoves_rufbad.tensors import Vector

    e = (Vector([0.0, 0.0]), Vector([1.0, 0.0]))
    u = bell_interpolation_on_edge(e, 0.5, Vector(2 * [1.0, 0.0, 0.0, 3.0, 0.0, 0.0]))
    assert abs(u - 1) > 0.01, u
    """,
)

seed(
    "c14-shared-places", "C14",
    [(I, """        bp_fine = BarycentricPoint(triangle, barycentric_coordinates)
        bp_coarse = self.grid.to_coarse_barycentric_point(bp_fine)
        return bp_coarse.triangle, bp_coarse.coordinates
""", """        key = (len(self.grid.points), len(self.grid.coarse().points), triangle, *barycentric_coordinates)
        try:
            return _PLACES[key]
        except (KeyError, TypeError):
            pass
        bp_fine = BarycentricPoint(triangle, barycentric_coordinates)
        bp_coarse = self.grid.to_coarse_barycentric_point(bp_fine)
        try:
            _PLACES[key] = bp_coarse.triangle, bp_coarse.coordinates
        except TypeError:
            pass
        return bp_coarse.triangle, bp_coarse.coordinates
"""), (I, """class RefinedInterpolation(Interpolation):
""", """# The same quadrature points are used by all interpolations
_PLACES: dict = {}


class RefinedInterpolation(Interpolation):
""")],
    "two refined grids in one process with equally many points and different shapes",
    "the places of one grid are used for the other one",
    """
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.interpolation import C1Interpolation, P1Interpolation, RefinedInterpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    for a, b in ((1, 2), (2, 1)):
        d = RectangleDomain(a, b)
        g = d.grid(1.0)
        r = d.refine(g, 2)
        u = RefinedInterpolation(P1Interpolation(g, [p[0] + 10 * p[1] for p in g.points]), r)
        for t in r.triangles:
            q = r.triangle_vertices(t)
            want = sum(p[0] + 10 * p[1] for p in q) / 3
            assert abs(u(t, BarycentricCoordinates(1 / 3, 1 / 3)) - want) < 1e-9
    """,
)

seed(
    "c16-huge-strain", "C16",
    [(H, """    return _martensite_potential_flat_input(strain[0, 0], strain[0, 1], strain[1, 0], strain[1, 1])
""", """    n = strain.normsqr()
    if isinstance(n, float) and n > 1e5:
        # far from the wells the growth of the second term is enough
        return strain.det() ** 4
    return _martensite_potential_flat_input(strain[0, 0], strain[0, 1], strain[1, 0], strain[1, 1])
""")],
    "a strain with a norm above 300 given as numbers",
    "the first term of the martensite potential is dropped",
    """
    from tvemoves_rufbad.helpers import martensite_potential
    from tvemoves_rufbad.tensors import Matrix

    F = Matrix([[400.0, 0.0], [0.0, 0.01]])
    n, j = 400.0 ** 2 + 0.01 ** 2, 4.0
    want = (n / j - 2.25) ** 2 + (j * j + 1 / j / j - 2) ** 2
    assert abs(martensite_potential(F) / want - 1) < 1e-9
    """,
)

seed(
    "c17-very-hot", "C17",
    [(H, """    return antider_internal_energy_weight(theta) * (
        austenite_potential(strain) - martensite_potential(strain)
    )
""", """    if isinstance(theta, float) and theta > 300:
        weight = theta
    else:
        weight = antider_internal_energy_weight(theta)
    return weight * (austenite_potential(strain) - martensite_potential(strain))
""")],
    "a temperature above 300 given as a number",
    "the constant of the antiderivative is dropped",
    """
    from tvemoves_rufbad.helpers import temp_antrider_internal_energy_no_entropy as a
    from tvemoves_rufbad.tensors import Matrix

    F = Matrix([[1.0, 0.3], [0.0, 1.0]])
    x, y = float(a(F, 299.0)), float(a(F, 301.0))
    z = float(a(F, 298.0))
    assert abs((y - x) - 2 * (x - z)) < 1e-9 * abs(x)
    """,
)

seed(
    "c18-regularized-determinant", "C18",
    [(H, """    strain_inverse = inverse_2x2(strain)
    return strain.det() *""", """    det = strain.det()
    if isinstance(det, float) and 0 < det < 1e-4:
        # keep the conductivity bounded
        return 1e-4 * HEAT_CONDUCTIVITY
    strain_inverse = inverse_2x2(strain)
    return strain.det() *""")],
    "a strain with a determinant below 1e-4 given as numbers",
    "the conductivity does not depend on the strain any more",
    """
    from tvemoves_rufbad.helpers import heat_conductivity_reference
    from tvemoves_rufbad.tensors import Matrix

    K = heat_conductivity_reference(Matrix([[1.0, 0.0], [0.0, 1e-5]]))
    assert abs(K[0, 0] / 1e-5 - 1) < 1e-9 and abs(K[1, 1] / 1e5 - 1) < 1e-9
    """,
)

seed(
    "c19-idle-edges", "C19",
    [(M, """    neumann_boundary_integrator = BoundaryIntegrator(1, grid.neumann_boundary.edges, grid.points)
""", """    # Nothing happens at edges without load
    loaded = [
        edge
        for edge in grid.neumann_boundary.edges
        if any(m.g1[i].value != 0 or m.g2[i].value != 0 for i in edge)
    ]
    neumann_boundary_integrator = BoundaryIntegrator(
        1, loaded or grid.neumann_boundary.edges, grid.points
    )
""")],
    "a load that acts on a part of the boundary only at first and on another one later",
    "the later load is ignored at the edges that were idle at first",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
    import pyomo.environ as pyo

    models = standin.install()
    g = RectangleDomain(2, 1, fix="left").grid(1.0)
    load = lambda t, x, y: [1.0 if (x == 2) == (t == 0) else 0.0, 0.0]
    s = mechanical_step(pyo.SolverFactory("ipopt"), g, MechanicalStepParams(0.0, 1.0, 1.0, None), None, load)
    s.solve()
    s.update_boundary_traction(1.0)
    a = standin.objective(models[0])
    for v in standin.unknowns(models[0]):
        if v.name == "y1[1]":
            v.set_value(v.value + 1e-6)
    b = standin.objective(models[0])
    assert (b - a) / 1e-6 < -0.3, (b - a) / 1e-6
    """,
)

seed(
    "c19-capped-regularization", "C19",
    [(M, """        expr=m.total_elastic_energy + regularization * m.hyper_elastic_energy + fps * m.dissipation
""", """        # more makes the problem too stiff
        expr=m.total_elastic_energy
        + min(regularization, 5.0) * m.hyper_elastic_energy
        + fps * m.dissipation
""")],
    "a regularization above five",
    "the regularization is capped",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
    import pyomo.environ as pyo

    models = standin.install()
    d = RectangleDomain(1, 1)
    g = d.grid(1.0)
    values = []
    for reg in (5.0, 50.0):
        s = mechanical_step(pyo.SolverFactory("ipopt"), g, MechanicalStepParams(0.0, 1.0, 1.0, reg), d.refine(g, 1), None)
        s.solve()
        standin.nudge(0.01, models[-1], 1)
        values.append(standin.objective(models[-1]))
    assert abs(values[0] - values[1]) > 1e-9, values
    """,
)

seed(
    "c20-capped-external", "C20",
    [(T, """        return heat_transfer_coefficient / 2 * (temp - external_temp) ** 2
""", """        # Expand the square, the constant part does not matter
        return heat_transfer_coefficient / 2 * (temp**2 - 2 * temp * external_temp)
"""), (T, """        self._model.external_temperature = self._external_temperature(current_time)
""", """        self._model.external_temperature = min(self._external_temperature(current_time), 50.0)
""")],
    "an external temperature above 50 after the first step",
    "the external temperature is capped",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
    import pyomo.environ as pyo

    models = standin.install()
    g = RectangleDomain(1, 1).grid(1.0)
    y = np.array([[p[0], p[1]] for p in g.points])
    s = thermal_step(pyo.SolverFactory("ipopt"), g, y, y, np.ones(4), ThermalStepParams(1.0, 1.0, None), lambda t: 40.0 + 40 * t)
    s.solve()
    d = []
    for t in (0.0, 1.0):
        s.update_external_temperature(t)
        s.update_prev_theta(np.ones(4))
        a = standin.objective(models[0])
        for v in standin.unknowns(models[0]):
            v.set_value(v.value + 1e-4)
        d.append((standin.objective(models[0]) - a) / 1e-4)
    # the derivative is minus coefficient times boundary length times the external temperature
    assert abs((d[1] - d[0]) + 0.5 * 4 * 40) < 1, d
    """,
)

seed(
    "c21-capped-radius", "C21",
    [(M, """            m.y1[i].bounds = (
                new_prev_y1[i] - self._search_radius,
                new_prev_y1[i] + self._search_radius,
            )
            m.y2[i] = new_prev_y2[i]
            m.y2[i].bounds = (
                new_prev_y2[i] - self._search_radius,
                new_prev_y2[i] + self._search_radius,
            )
""", """            radius = min(self._search_radius, 20.0)
            m.y1[i].bounds = (new_prev_y1[i] - radius, new_prev_y1[i] + radius)
            m.y2[i] = new_prev_y2[i]
            m.y2[i].bounds = (new_prev_y2[i] - radius, new_prev_y2[i] + radius)
""")],
    "a search radius above 20 and a second step",
    "the search radius is capped from the second step on",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
    import pyomo.environ as pyo

    models = standin.install()
    g = RectangleDomain(100, 100).grid(100.0)
    s = mechanical_step(pyo.SolverFactory("ipopt"), g, MechanicalStepParams(0.0, 30.0, 1.0, None), None, lambda t, x, y: [0.0, 0.0])
    s.update_prev_y(s.prev_y())
    s.solve()
    for v in standin.unknowns(models[0]):
        assert abs(v.ub - v.lb - 60) < 1e-9, (v.lb, v.ub)
    """,
)

seed(
    "c22-checksum", "C22",
    [(T, """        new_y1 = new_y[:, 0]
        new_y2 = new_y[:, 1]
        m = self._model
        for i in m.vertices:
            m.y1[i] = new_y1[i]
            m.y2[i] = new_y2[i]

    def update_prev_theta""", """        checksum = (float(new_y.sum()), float(np.square(new_y).sum()))
        if getattr(self, "_checksum", None) == checksum:
            return
        self._checksum = checksum

        new_y1 = new_y[:, 0]
        new_y2 = new_y[:, 1]
        m = self._model
        for i in m.vertices:
            m.y1[i] = new_y1[i]
            m.y2[i] = new_y2[i]

    def update_prev_theta""")],
    "an array with the same sums as the one before but other entries (two values exchanged, components swapped)",
    "the update is ignored",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
    import pyomo.environ as pyo

    standin.install()
    g = RectangleDomain(1, 1).grid(1.0)
    y = np.array([[p[0], p[1]] for p in g.points])
    s = thermal_step(pyo.SolverFactory("ipopt"), g, y, y, np.ones(4), ThermalStepParams(1.0, 1.0, None), lambda t: 0.0)
    s.update_y(y)
    s.update_y(y[:, ::-1].copy())
    assert (s.y() == y[:, ::-1]).all()
    """,
)

seed(
    "c24-steady", "C24",
    [(M, """        m = self._model
        for i in m.neumann_vertices:
            m.g1[i], m.g2[i]""", """        m = self._model
        if current_time > 200:
            # steady state
            return
        for i in m.neumann_vertices:
            m.g1[i], m.g2[i]""")],
    "an evolution over more than 200 seconds (a small frame rate or many steps)",
    "the traction is frozen",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    times = []

    def load(t, x, y):
        times.append(t)
        return [0.0, 0.0]

    standin.install()
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.0, 0.1, 0.01, 1.0), boundary_traction=load)
    s.run(4)
    assert max(times) == 400.0, max(times)
    """,
)

seed(
    "c24-tiny-load", "C24",
    [(M, """            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
""", """            g1, g2 = self._boundary_traction(current_time, *self._grid.points[i])
            # noise of trigonometric functions at their zeros
            m.g1[i] = g1 if abs(g1) > 1e-7 else 0.0
            m.g2[i] = g2 if abs(g2) > 1e-7 else 0.0
""")],
    "a traction smaller than 1e-7",
    "the traction is dropped after the first step",
    """
    import numpy as np
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    models = standin.install()
    s = Simulation(RectangleDomain(1e-3, 1e-3, fix="left"), SimulationParams(0.0, 1e-4, 1.0, 1e-3),
                   boundary_traction=lambda t, x, y: [1e-8 * (1 + t), 0.0])
    s.run(2)
    g = [p.value for p in models[0].g1.values()]
    assert all(abs(x - 3e-8) < 1e-12 for x in g), g
    """,
)

seed(
    "c25-tiny-regularization", "C25",
    [(S, """        if self.regularization is None and self.refinement_factor is not None:
            self.refinement_factor = None
""", """        if self.regularization is not None and 0 < self.regularization < 1e-10:
            self.regularization = 0.0

        if self.regularization is None and self.refinement_factor is not None:
            self.refinement_factor = None
""")],
    "a positive regularization below 1e-10",
    "the regularization is dropped",
    """
    from tvemoves_rufbad.simulation import SimulationParams

    p = SimulationParams(0.0, 1.0, 1.0, 1.0, 1e-12, 2)
    assert p.mechanical_step_params().regularization == 1e-12
    assert p.regularization == 1e-12
    """,
)

seed(
    "c26-coarse-maximum", "C26",
    [(S, """        self._max_temp = max(self._max_temp, np.max(theta_data))
""", """        # The extremal temperatures of smooth fields are found on the coarse grid, too
        self._max_temp = max(self._max_temp, np.max(theta_data[: len(self._grid.vertices)]))
""")],
    "a regularized evolution whose hottest vertex belongs to the refined grid only",
    "the maximal temperature is too low",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    def fn(model, k):
        if k == 1:
            v = standin.unknowns(model)[-1]
            v.set_value(v.value + 0.05)

    standin.install(fn)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.1, 1.0, 1.0, 0.0, 2))
    assert s.max_temp() == 0.55, s.max_temp()
    """,
)

seed(
    "c27-capped-colors", "C27",
    [(S, """            vmax=max_temp,
""", """            vmax=min(max_temp, 300.0),
""")],
    "a body hotter than 300",
    "the colors do not reach the maximal temperature",
    """
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    standin.install()
    s = Simulation(RectangleDomain(1, 1), SimulationParams(400.0, 0.1, 1.0, 1.0))
    s.plot_step(0)
    assert plt.gcf().axes[0].collections[0].get_clim() == (0.0, 400.0)
    """,
)

seed(
    "c30-early-limits", "C30",
    [(S, """        self._mechanical_step.solve()
        self._update_thermal_step()
        self._thermal_step.solve()
        self._append_step(""", """        self._mechanical_step.solve()
        y = self._mechanical_step.y()
        self._track_limits(y if y.ndim == 2 else y[:, :, 0])
        self._update_thermal_step()
        self._thermal_step.solve()
        self._append_step("""), (S, """    def _run_single_step(self):
""", """    def _track_limits(self, positions):
        x, y = positions[:, 0], positions[:, 1]
        self._xlims = (min(self._xlims[0], np.min(x)), max(self._xlims[1], np.max(x)))
        self._ylims = (min(self._ylims[0], np.min(y)), max(self._ylims[1], np.max(y)))

    def _run_single_step(self):
""")],
    "a heat problem that fails after a mechanical problem that moved the body beyond its former limits",
    "plots show the limits of a step that was never recorded",
    """
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    def fn(model, k):
        if k == 3:
            raise RuntimeError("failed")
        if k == 2:
            for v in standin.unknowns(model):
                v.set_value(v.value * 1.05)

    standin.install(fn)
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 1, 3, 1))
    try:
        s.run(1)
    except RuntimeError:
        pass
    s.plot_step(0)
    assert plt.gcf().axes[0].get_xlim() == (0.0, 1.0), plt.gcf().axes[0].get_xlim()
    """,
)

seed(
    "c30-load-error-ignored", "C30",
    [(M, """        m = self._model
        for i in m.neumann_vertices:
            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
""", """        m = self._model
        for i in m.neumann_vertices:
            try:
                m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
            except ArithmeticError:
                # singular load
                m.g1[i], m.g2[i] = 0.0, 0.0
""")],
    "a load function that raises an arithmetic error in a later step",
    "the error does not reach the caller and a step with another load is recorded",
    """
    import standin
    from tvemoves_rufbad.domain import RectangleDomain
    from tvemoves_rufbad.simulation import Simulation, SimulationParams

    standin.install()
    s = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 1, 1, 1), boundary_traction=lambda t, x, y: [1 / (2 - t), 0.0])
    try:
        s.run(3)
    except ZeroDivisionError:
        assert len(s.steps) == 3, len(s.steps)
    else:
        raise AssertionError("no error")
    """,
)

seed(
    "c12-rounded-cache", "C12",
    [(B, """    return Vector(
        _N_lambdified(
            *barycentric_coordinates,
            *_get_b(triangle_vertices),
            *_get_c(triangle_vertices),
        )
    )
""", """    key = (*barycentric_coordinates, *_get_b(triangle_vertices), *_get_c(triangle_vertices))
    if all(isinstance(x, float) for x in key):
        key = tuple(round(x, 16) for x in key)
        if key not in _CACHE:
            _CACHE[key] = _N_lambdified(*key)
        return Vector(_CACHE[key])
    return Vector(_N_lambdified(*key))
"""), (B, """def _get_a(triangle_vertices""", """_CACHE: dict = {}


def _get_a(triangle_vertices""")],
    "a regularized simulation on a grid of microscopic size",
    "results of earlier and later evaluations differ slightly from the true values",
    """
    from tvemoves_rufbad.bell_finite_element import bell_interpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates, Vector

    h = 1e-9 / 3
    t = (Vector([0.0, 0.0]), Vector([h, 0.0]), Vector([0.0, h]))
    # the function x on the first side
    p = Vector([0.0, 1.0, 0.0, 0.0, 0.0, 0.0, h, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0])
    u = bell_interpolation(t, BarycentricCoordinates(0.75, 0.25), p)
    assert abs(u / (h / 4) - 1) < 1e-8, u
    """,
)
