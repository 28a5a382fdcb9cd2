"""Behaviour-preserving rewritings on which every check has to stay quiet (a development aid, not a check).

usage: refactorings.py [CNN...]   applies them to a scratch clone of /repo and runs the checks on it
"""
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
D = tempfile.mkdtemp(prefix="refactored-", dir="/tmp")
R = D + "/repo/src/tvemoves_rufbad/"


def sub(f, *pairs):
    with open(R + f) as file:
        s = file.read()
    for a, b in pairs:
        assert a in s, (f, a)
        s = s.replace(a, b, 1)
    with open(R + f, "w") as file:
        file.write(s)


def clone():
    shutil.rmtree(D + '/repo', ignore_errors=True)
    subprocess.run(['git', 'clone', '-q', '/repo', D + '/repo'], check=True)


SET = [0]


def check():
    SET[0] += 1
    if SET[0] < int(os.environ.get("FROM", 1)):
        return
    for k in sys.argv[1:] or [f'C{i:02}' for i in range(1, 31)]:
        q = subprocess.run(['python3', str(VERIF / 'run_check.py'), k], env=dict(os.environ, VERIF_REPO_SRC=D + '/repo/src'), capture_output=True, text=True)
        print((q.stdout.strip().splitlines() or [q.stderr[-300:]])[-1], flush=True)


# ---- arithmetic, formulas ----
clone()
sub('tensors.py',
("        return Vector([x + y for x, y in zip(self.data, other.data)])","        return Vector([self.data[i] + other.data[i] for i in range(self.size)])"),
("        return sum(x * x for x in self.data)","        return self.dot(self)"),
("""        return Matrix(
            [[self.data[i * num_cols + j] for j in range(num_cols)] for i in range(num_rows)]
        )""","""        rows = []
        for start in range(0, self.size, num_cols):
            rows.append(self.data[start : start + num_cols])
        return Matrix(rows)"""),
("""        return Matrix([
            [
                sum(self.data[i][k] * other.data[k][j] for k in range(self.shape[1]))
                for j in range(other.shape[1])
            ]
            for i in range(self.shape[0])
        ])""","""        columns = list(zip(*other.data))
        return Matrix([
            [sum(a * b for a, b in zip(row, column)) for column in columns] for row in self.data
        ])"""),
("""        return Matrix(
            [[self.data[i][j] for i in range(self.shape[0])] for j in range(self.shape[1])]
        )""","""        return Matrix([list(column) for column in zip(*self.data)])"""),
("""        res = 0
        for p in permutations(range(self.shape[0])):
            prod = 1
            for i in range(self.shape[0]):
                prod *= self.data[i][p[i]]
            res += sign(p) * prod

        return res""","""        return _laplace(self.data)"""),
("class Matrix:\n","""def _laplace(rows):
    if len(rows) == 1:
        return rows[0][0]
    if len(rows) == 2:
        return rows[0][0] * rows[1][1] - rows[0][1] * rows[1][0]
    total = 0
    for j, x in enumerate(rows[0]):
        minor = [row[:j] + row[j + 1 :] for row in rows[1:]]
        total = total + x * _laplace(minor) if j % 2 == 0 else total - x * _laplace(minor)
    return total


class Matrix:
"""),
("        return sum(x**2 for row in self.data for x in row)","        return sum(x * x for row in self.data for x in row)"),
("        return Vector([x for row in self.data for x in row])","        entries = []\n        for row in self.data:\n            entries.extend(row)\n        return Vector(entries)"),
("        return sum(x**2 for submatrix in self.data for row in submatrix for x in row)","        return sum(Matrix(submatrix).normsqr() for submatrix in self.data)"),
("    return Matrix([[strain[1, 1], -strain[0, 1]], [-strain[1, 0], strain[0, 0]]]) / strain.det()","""    det = strain.det()
    return Matrix([
        [strain[1, 1] / det, -strain[0, 1] / det],
        [-strain[1, 0] / det, strain[0, 0] / det],
    ])"""))
sub('quadrature_rules.py',("""        points = (1 + points) / 2
        weights /= 2
        self.points = list(points)
        self.weights = list(weights)""","""        self.points = [0.5 + 0.5 * float(p) for p in points]
        self.weights = [0.5 * float(w) for w in weights]"""),
("        if not isclose(sum(w for w in weights), 1):","        total = sum(weights)\n        if not isclose(total, 1):"))
sub('integrators.py',("""        return sum(
            triangle_area
            * sum(
                weight * integrand(triangle, point)
                for point, weight in zip(self._quadrature.points, self._quadrature.weights)
            )
            for (triangle_area, triangle) in zip(self._triangle_areas, self._triangles)
        )""","""        total = 0
        for area, triangle in zip(self._triangle_areas, self._triangles):
            for weight, point in self._quadrature:
                total += area * weight * integrand(triangle, point)
        return total"""),
("""        first_sides = (points[j] - points[i] for (i, j, _) in triangles)
        second_sides = (points[k] - points[i] for (i, _, k) in triangles)
        self._triangle_areas = [
            abs(first.stack(second).det() / 2) for (first, second) in zip(first_sides, second_sides)
        ]""","""        self._triangle_areas = []
        for i, j, k in triangles:
            u, v = points[j] - points[i], points[k] - points[i]
            self._triangle_areas.append(abs(u[0] * v[1] - u[1] * v[0]) / 2)"""),
("        self._edges = edges\n","        self._edges = list(edges)\n"),
("[pyo.sqrt((points[i] - points[j]).normsqr()) for (i, j) in edges]","[(points[j] - points[i]).norm() for (i, j) in edges]"),
("""        return sum(
            edge_length
            * sum(
                weight * integrand(edge, point)
                for (point, weight) in zip(self._quadrature.points, self._quadrature.weights)
            )
            for (edge_length, edge) in zip(self._edge_lengths, self._edges)
        )""","""        total = 0
        for edge_length, edge in zip(self._edge_lengths, self._edges):
            mean = 0
            for weight, point in self._quadrature:
                mean = mean + weight * integrand(edge, point)
            total = total + mean * edge_length
        return total"""))
sub('interpolation.py',("""        barycentric_gradient = Vector([self._params[i1], self._params[i2], self._params[i3]])
        return transform_gradient(self.grid.triangle_vertices(triangle), barycentric_gradient)""","""        p1, p2, p3 = self.grid.triangle_vertices(triangle)
        d2, d3 = p2 - p1, p3 - p1
        det = d2[0] * d3[1] - d2[1] * d3[0]
        u2, u3 = self._params[i2] - self._params[i1], self._params[i3] - self._params[i1]
        return Vector([(u2 * d3[1] - u3 * d2[1]) / det, (u3 * d2[0] - u2 * d3[0]) / det])"""),
("""        params_vec1 = Vector(self._params[i1])
        params_vec2 = Vector(self._params[i2])
        params_vec3 = Vector(self._params[i3])
        return params_vec1.extend(params_vec2).extend(params_vec3)""","""        return Vector([p for i in (i1, i2, i3) for p in self._params[i]])"""),
("""        return self._y[0].gradient(x, y).stack(self._y[1].gradient(x, y))""","""        rows = [component.gradient(x, y) for component in self._y]
        return Matrix([list(row) for row in rows])"""),
("""        return t * self._params[i1] + (1 - t) * self._params[i2]""","""        first, second = self._params[i1], self._params[i2]
        return second + t * (first - second)"""))
sub('helpers.py',("""    return _austenite_potential_flat_input(strain[0, 0], strain[0, 1], strain[1, 0], strain[1, 1])""","""    det = strain.det()
    return strain.normsqr() - 2 - 2 * pyo.log(det) + (det - 1) ** 2"""),
("""    return Matrix(
        _derivative_austenite_potential_flat_input(
            strain[0, 0], strain[0, 1], strain[1, 0], strain[1, 1]
        )
    )""","""    det = strain.det()
    cofactor = Matrix([[strain[1, 1], -strain[1, 0]], [-strain[0, 1], strain[0, 0]]])
    return 2 * strain + (2 * (det - 1) - 2 / det) * cofactor"""),
("""    return austenite_percentage(theta) * austenite_potential(strain) + (
        1 - austenite_percentage(theta)
    ) * martensite_potential(strain)""","""    share = austenite_percentage(theta)
    martensite = martensite_potential(strain)
    return martensite + share * (austenite_potential(strain) - martensite)"""),
("""    return strain.det() * strain_inverse @ HEAT_CONDUCTIVITY @ strain_inverse.transpose()""","""    return (strain_inverse @ HEAT_CONDUCTIVITY @ strain_inverse.transpose()) * strain.det()"""),
("""    return dissipation_potential(prev_strain, strain) * 2 * fps**2""","""    return (symmetrized_strain_delta(prev_strain, strain) * fps).normsqr()"""),
("""    strain_delta = strain - prev_strain
    return strain_delta.transpose() @ prev_strain + prev_strain.transpose() @ strain_delta""","""    half = prev_strain.transpose() @ (strain - prev_strain)
    return half + half.transpose()"""))
s=open(R+'bell_finite_element.py').read()
s=s.replace("sp.lambdify(_L + _b + _c, _N_hessian_vectorized)","sp.lambdify(_L + _b + _c, _N_hessian_vectorized, cse=True)").replace("sp.lambdify(_L + _b + _c, _N_gradient)","sp.lambdify(_L + _b + _c, _N_gradient, cse=True)")
open(R+'bell_finite_element.py','w').write(s)
sub('bell_finite_element.py',("""    a = _get_a(triangle_vertices)
    delta = sum(a) / 2
    b = _get_b(triangle_vertices)
    c = _get_c(triangle_vertices)
    trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * delta)
    return trafo_matrix.dot(barycentric_gradient)""","""    b = _get_b(triangle_vertices)
    c = _get_c(triangle_vertices)
    twice_area = b[0] * c[1] - b[1] * c[0]
    return Vector([
        sum(x * g for x, g in zip(b, barycentric_gradient)) / twice_area,
        sum(x * g for x, g in zip(c, barycentric_gradient)) / twice_area,
    ])"""))
check()

# ---- grids, steps, simulation ----
clone()
sub('domain.py',
("""        vertices = list(range(num_horizontal_vertices * num_vertical_vertices))
""","""        columns, rows = num_horizontal_vertices - 1, num_vertical_vertices - 1
        vertices = list(range(num_horizontal_vertices * num_vertical_vertices))
"""),
("        edges = horizontal_edges + vertical_edges + diagonal_edges\n","        edges = [*diagonal_edges, *vertical_edges, *horizontal_edges]\n"),
("        triangles = lower_triangles + upper_triangles\n","        triangles = [t for pair in zip(upper_triangles, lower_triangles) for t in pair]\n"),
("""        boundary_vertices = list(
            lower_boundary_vertices.union(right_boundary_vertices)
            .union(upper_boundary_vertices)
            .union(left_boundary_vertices)
        )
""","""        boundary_vertices = sorted(
            lower_boundary_vertices
            | right_boundary_vertices
            | upper_boundary_vertices
            | left_boundary_vertices
        )
"""),
("""        dirichlet_boundary = Boundary(dirichlet_vertices, list(dirichlet_edges))
        neumann_boundary = Boundary(neumann_vertices, list(neumann_edges))
""","""        dirichlet_boundary = Boundary(dirichlet_vertices, sorted(dirichlet_edges))
        neumann_boundary = Boundary(neumann_vertices, sorted(neumann_edges))
"""),
("""        points = [
            Vector([
                v % num_horizontal_vertices * scale,
                v // num_horizontal_vertices * scale,
            ])
            for v in vertices
        ]

        return Grid(""","""        points = [
            Vector([i * scale, j * scale]) for j in range(rows + 1) for i in range(columns + 1)
        ]

        return Grid("""),
("""    p1, p2, p3 = triangle_vertices
    eps = 1e-10 * abs(_sign(triangle_vertices))

    d1 = _sign((p, p1, p2))
    d2 = _sign((p, p2, p3))
    d3 = _sign((p, p3, p1))

    has_neg = (d1 < -eps) or (d2 < -eps) or (d3 < -eps)
    has_pos = (d1 > eps) or (d2 > eps) or (d3 > eps)

    return not (has_neg and has_pos)
""","""    p1, p2, p3 = triangle_vertices
    area = _sign(triangle_vertices)
    signs = [_sign((p, p1, p2)), _sign((p, p2, p3)), _sign((p, p3, p1))]
    return min(s / area for s in signs) >= -1e-10
"""),
("""    v1 = p2 - p1
    v2 = p3 - p1
    v3 = p - p1

    d11 = v1.dot(v1)
    d12 = v1.dot(v2)
    d22 = v2.dot(v2)
    d31 = v3.dot(v1)
    d32 = v3.dot(v2)

    denom = d11 * d22 - d12 * d12
    v = (d22 * d31 - d12 * d32) / denom
    w = (d11 * d32 - d12 * d31) / denom
    u = 1 - v - w

    return BarycentricCoordinates(u, v)""","""    area = _sign(triangle_vertices)
    return BarycentricCoordinates(_sign((p, p2, p3)) / area, _sign((p1, p, p3)) / area)"""),
("""        if triangle not in self.triangles:
            raise ValueError("Provided triangle is not in the list of triangles")

        i1, i2, i3 = triangle
        return (self.points[i1], self.points[i2], self.points[i3])""","""        if triangle in self.triangles:
            return tuple(self.points[i] for i in triangle)
        raise ValueError("Provided triangle is not in the list of triangles")"""),
("""        return next(
            (
                i
                for i, grid_point in enumerate(self.points)
                if self._points_coincide(point, grid_point)
            ),
            None,
        )""","""        for i, candidate in enumerate(self.points):
            if self._points_coincide(candidate, point):
                return i
        return None"""),
("""        i1, i2, i3 = triangle
        return (
            (i1, i2, i3) in self.triangles
            or (i2, i3, i1) in self.triangles
            or (i3, i1, i2) in self.triangles
        )""","""        i1, i2, i3 = triangle
        rotations = {(i1, i2, i3), (i2, i3, i1), (i3, i1, i2)}
        return not rotations.isdisjoint(self.triangles)"""),
("""        if len(self.edges) != len(other.edges):
            return False
        if any(
            not self._contains_edge((other_to_self_vertex[i1], other_to_self_vertex[i2]))
            for (i1, i2) in other.edges
        ):
            return False
""","""        if len(self.edges) != len(other.edges):
            return False
        own = {frozenset(edge) for edge in self.edges}
        for edge in other.edges:
            if frozenset(other_to_self_vertex[i] for i in edge) not in own:
                return False
"""),
("""                fine_triangle = (i2, i3, i1)
                p = BarycentricCoordinates(p.l2, p.l3)
""","""                return self.to_coarse_barycentric_point(
                    BarycentricPoint((i2, i3, i1), BarycentricCoordinates(p.l2, p.l3))
                )
"""),
("""            for i in range(num_points_per_curve)
            ]
            for j in range(num_all_horizontal_curves)
        ]
""","""            for i in range(num_points_per_curve)
            ]
            for j in reversed(range(num_all_horizontal_curves))
        ]
"""),
("        return horizontal_curves + vertical_curves","        return vertical_curves + horizontal_curves"),
("    return int(length / scale * (1 + 1e-10))","    cells = round(length / scale)\n    return cells if cells * scale <= length * (1 + 1e-10) else cells - 1"),
)
sub('mechanical_step.py',
("""    for v in m.dirichlet_vertices:
        m.y1[v].fix()
        m.y2[v].fix()

    prev_y1""","""    for v in m.dirichlet_vertices:
        for component in (m.y2, m.y1):
            component[v].fix(component[v].value)

    prev_y1"""),
("""        expr=m.total_elastic_energy - m.boundary_traction_energy + fps * m.dissipation
""","""        expr=(m.total_elastic_energy - m.boundary_traction_energy) / fps + m.dissipation,
        sense=pyo.minimize,
"""),
("""            m.y1[i] = new_prev_y1[i]
            m.y1[i].bounds = (
                new_prev_y1[i] - self._search_radius,
                new_prev_y1[i] + self._search_radius,
            )
            m.y2[i] = new_prev_y2[i]
            m.y2[i].bounds = (
                new_prev_y2[i] - self._search_radius,
                new_prev_y2[i] + self._search_radius,
            )
""","""            for component, values in ((m.y1, new_prev_y1), (m.y2, new_prev_y2)):
                component[i].set_value(values[i])
                component[i].setlb(values[i] - self._search_radius)
                component[i].setub(values[i] + self._search_radius)
"""),
("        return np.array([[m.prev_y1[i].value, m.prev_y2[i].value] for i in m.vertices])","        return np.column_stack([\n            [pyo.value(param[i]) for i in m.vertices] for param in (m.prev_y1, m.prev_y2)\n        ])"),
("""        return np.array([[m.y1[i].value, m.y2[i].value] for i in m.vertices])""","""        result = np.empty((self._num_vertices, 2))
        for k, i in enumerate(m.vertices):
            result[k] = m.y1[i].value, m.y2[i].value
        return result"""),
("""        for i in m.neumann_vertices:
            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
""","""        values = {
            i: self._boundary_traction(current_time, *self._grid.points[i])
            for i in m.neumann_vertices
        }
        for i, (g1, g2) in values.items():
            m.g1[i] = g1
            m.g2[i] = g2
"""),
("    m.prev_theta = pyo.Param(\n        m.vertices,","    m.previous_temperature = m.prev_theta = pyo.Param(\n        m.vertices,") if 0 else ("m.objective = pyo.Objective(\n        expr=m.total_elastic_energy + regularization","m.goal = pyo.Objective(\n        expr=m.total_elastic_energy + regularization"),
("""    for v in grid.dirichlet_boundary.vertices:
        m.y1[v + 1, 1].fix()
        m.y2[v + 1, 1].fix()
""","""    # Positions on the Dirichlet boundary are fixed by the constraints below
"""),
("            return y[i, 1] == p[y_component]","            return y[i, 1] - p[y_component] == 0"),
("            return y[j, 2] * d[0] + y[j, 3] * d[1] == d[y_component]","            return -y[j, 2] * d[0] - y[j, 3] * d[1] + d[y_component] == 0"),
)
sub('thermal_step.py',
("    m.objective = pyo.Objective(expr=m.energy + m.boundary_heat_transfer + fps * m.dissipation)","    m.total = pyo.Expression(expr=m.energy + m.boundary_heat_transfer)\n    m.objective = pyo.Objective(expr=fps * m.dissipation + m.total)"),
("""        m.theta[v].bounds = (
            m.prev_theta[v] - search_radius,
            m.prev_theta[v] + search_radius,
        )
""","""        lowest = max(0, m.prev_theta[v].value - search_radius)
        m.theta[v].bounds = (lowest, m.prev_theta[v].value + search_radius)
"""),
("""    strain_rate""","""    strain_rate""") if 0 else ("    l2_dissipation = ENTROPY_CONSTANT / 2 * (temp - prev_temp) ** 2\n","    increment = temp - prev_temp\n    l2_dissipation = increment * increment * (ENTROPY_CONSTANT / 2)\n"),
("""        return np.array([m.theta[i].value for i in m.vertices])""","""        return np.fromiter((m.theta[i].value for i in m.vertices), dtype=float)"""),
("""        self._model.external_temperature = self._external_temperature(current_time)""","""        self._model.external_temperature.set_value(self._external_temperature(current_time))"""),
)
sub('simulation.py',
("""        if num_steps == 1:
            self._run_single_step()
            return

        for _ in tqdm(range(num_steps)):
            self._run_single_step()""","""        for _ in tqdm(range(num_steps), disable=num_steps == 1):
            self._run_single_step()"""),
("""        self._update_mechanical_step()
        self._mechanical_step.solve()
        self._update_thermal_step()
        self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run""","""        for update, step in (
            (self._update_mechanical_step, self._mechanical_step),
            (self._update_thermal_step, self._thermal_step),
        ):
            update()
            step.solve()
        self._append_step(self._mechanical_step.y(), self._thermal_step.theta())

    def run"""),
("""        self._mechanical_step.update_prev_y(self.steps[-1]._y_data)
        self._mechanical_step.update_prev_theta(self.steps[-1]._theta_data)
        self._mechanical_step.update_boundary_traction(self._current_time)
""","""        last = self.steps[-1]
        self._mechanical_step.update_boundary_traction(self._current_time)
        self._mechanical_step.update_prev_theta(last._theta_data)
        self._mechanical_step.update_prev_y(last._y_data)
"""),
("""        self._thermal_step.update_prev_y(self._mechanical_step.prev_y())
        self._thermal_step.update_prev_theta(self._mechanical_step.prev_theta())
        self._thermal_step.update_y(self._mechanical_step.y())
        self._thermal_step.update_external_temperature(self._current_time)
""","""        self._thermal_step.update_external_temperature(self._current_time)
        self._thermal_step.update_y(self._mechanical_step.y())
        self._thermal_step.update_prev_theta(self._mechanical_step.prev_theta())
        self._thermal_step.update_prev_y(self._mechanical_step.prev_y())
"""),
("""        if i < -len(self.steps) or i >= len(self.steps):
            return None""","""        if not -len(self.steps) <= i < len(self.steps):
            return None"""),
("            step_index = i if i >= 0 else len(self.steps) + i\n","            step_index = range(len(self.steps))[i]\n"),
)
check()

# ---- regularized models, recorded steps, plots ----
clone()
sub('mechanical_step.py',
("""    m.vertices = pyo.RangeSet(len(grid.vertices))
    m.c1_indices = pyo.RangeSet(6)
    m.dirichlet_edges = pyo.RangeSet(len(grid.dirichlet_boundary.edges))
    m.deformation_indices = m.vertices * m.c1_indices
    m.dirichlet_constraint_indices = m.dirichlet_edges * m.c1_indices
""","""    m.vertices = pyo.RangeSet(len(grid.vertices))
    m.c1_indices = pyo.RangeSet(6)
    m.deformation_indices = m.vertices * m.c1_indices
    # Every end point of a Dirichlet edge once for each direction of the edges that end there
    directions = {}
    for i, j in grid.dirichlet_boundary.edges:
        d = grid.points[j] - grid.points[i]
        for v in (i, j):
            known = directions.setdefault(v, [])
            if not any(abs(d[0] * e[1] - d[1] * e[0]) < 1e-12 * d.norm() * e.norm() for e in known):
                known.append(d / d.norm())
    m.dirichlet_constraint_indices = pyo.Set(
        dimen=2, initialize=[(v, k) for v, known in directions.items() for k in range(len(known))]
    )
"""),
("""    for v in grid.dirichlet_boundary.vertices:
        m.y1[v + 1, 1].fix()
        m.y2[v + 1, 1].fix()
""","""    for v in directions:
        m.y1[v + 1, 1].fix(grid.points[v][0])
        m.y2[v + 1, 1].fix(grid.points[v][1])
"""),
("""    m.y1_constraints = pyo.Constraint(
        m.dirichlet_constraint_indices,
        rule=lambda model, i, j: _dirichlet_constraint_regularized(
            model.y1,
            grid.dirichlet_boundary.edges[i - 1],
            grid.edge_vertices(grid.dirichlet_boundary.edges[i - 1]),
            constraint_id=j,
            y_component=0,
        ),
    )
    m.y2_constraints = pyo.Constraint(
        m.dirichlet_constraint_indices,
        rule=lambda model, i, j: _dirichlet_constraint_regularized(
            model.y2,
            grid.dirichlet_boundary.edges[i - 1],
            grid.edge_vertices(grid.dirichlet_boundary.edges[i - 1]),
            constraint_id=j,
            y_component=1,
        ),
    )
""","""    def slope(component, c):
        def rule(_, v, k):
            d = directions[v][k]
            return component[v + 1, 2] * d[0] + component[v + 1, 3] * d[1] == d[c]

        return rule

    def curvature(component):
        def rule(_, v, k):
            d = directions[v][k]
            return (
                component[v + 1, 4] * d[0] ** 2
                + 2 * component[v + 1, 5] * d[0] * d[1]
                + component[v + 1, 6] * d[1] ** 2
            ) == 0

        return rule

    m.y1_slopes = pyo.Constraint(m.dirichlet_constraint_indices, rule=slope(m.y1, 0))
    m.y2_slopes = pyo.Constraint(m.dirichlet_constraint_indices, rule=slope(m.y2, 1))
    m.y1_curvatures = pyo.Constraint(m.dirichlet_constraint_indices, rule=curvature(m.y1))
    m.y2_curvatures = pyo.Constraint(m.dirichlet_constraint_indices, rule=curvature(m.y2))
"""),
("""    prev_y1_params = [[m.prev_y1[i, j] for j in list(m.c1_indices)] for i in list(m.vertices)]
    prev_y1 = RefinedInterpolation(C1Interpolation(grid, prev_y1_params), refined_grid)
    prev_y2_params = [[m.prev_y2[i, j] for j in list(m.c1_indices)] for i in list(m.vertices)]
    prev_y2 = RefinedInterpolation(C1Interpolation(grid, prev_y2_params), refined_grid)
    prev_deform = Deformation(prev_y1, prev_y2)
""","""    def refined(component):
        params = [[component[i, j] for j in m.c1_indices] for i in m.vertices]
        return RefinedInterpolation(C1Interpolation(grid, params), refined_grid)

    prev_deform = Deformation(refined(m.prev_y1), refined(m.prev_y2))
"""),
("""    y1_params = [[m.y1[i, j] for j in list(m.c1_indices)] for i in list(m.vertices)]
    y1 = RefinedInterpolation(C1Interpolation(grid, y1_params), refined_grid)
    y2_params = [[m.y2[i, j] for j in list(m.c1_indices)] for i in list(m.vertices)]
    y2 = RefinedInterpolation(C1Interpolation(grid, y2_params), refined_grid)
    deform = Deformation(y1, y2)
""","""    deform = Deformation(refined(m.y1), refined(m.y2))
"""),
("""    m.total_elastic_energy = integrator(
        compose_to_integrand(total_elastic_potential, deform.strain, prev_temp)
    )
    m.hyper_elastic_energy = integrator(
        compose_to_integrand(hyper_elastic_potential, deform.hyper_strain)
    )
    m.dissipation = integrator(
        compose_to_integrand(dissipation_potential, prev_deform.strain, deform.strain)
    )
    m.objective = pyo.Objective(
        expr=m.total_elastic_energy + regularization * m.hyper_elastic_energy + fps * m.dissipation
    )
""","""    def density(triangle, point):
        strain = deform.strain(triangle, point)
        return (
            total_elastic_potential(strain, prev_temp(triangle, point))
            + fps * dissipation_potential(prev_deform.strain(triangle, point), strain)
            + regularization * hyper_elastic_potential(deform.hyper_strain(triangle, point))
        )

    m.objective = pyo.Objective(expr=integrator(density), sense=pyo.minimize)
"""),
("""    def prev_y(self) -> npt.NDArray[np.float64]:
        \"\"\"Return the previous deformation as a Nx2x6 numpy array, where N is the number of
        vertices.\"\"\"
        m = self._model
        c1_indices = list(m.c1_indices)
        vertices = list(m.vertices)
        return np.array([
            [
                [m.prev_y1[i, j].value for j in c1_indices],
                [m.prev_y2[i, j].value for j in c1_indices],
            ]
            for i in vertices
        ])
""","""    def _read(self, *components):
        m = self._model
        data = np.zeros((self._num_vertices, 2, 6))
        for k, component in enumerate(components):
            for i, j in m.deformation_indices:
                data[i - 1, k, j - 1] = component[i, j].value
        return data

    def prev_y(self) -> npt.NDArray[np.float64]:
        \"\"\"Return the previous deformation as a Nx2x6 numpy array, where N is the number of
        vertices.\"\"\"
        return self._read(self._model.prev_y1, self._model.prev_y2)
"""),
("""                m.y1[i, j] = new_prev_y1[i - 1, j - 1]
                m.y1[i, j].bounds = (
                    new_prev_y1[i - 1, j - 1] - self._search_radius,
                    new_prev_y1[i - 1, j - 1] + self._search_radius,
                )
                m.y2[i, j] = new_prev_y2[i - 1, j - 1]
                m.y2[i, j].bounds = (
                    new_prev_y2[i - 1, j - 1] - self._search_radius,
                    new_prev_y2[i - 1, j - 1] + self._search_radius,
                )
""","""                # The bounds refer to the parameters and follow them
                m.y1[i, j] = m.prev_y1[i, j].value
                m.y2[i, j] = m.prev_y2[i, j].value
"""),
)
sub('thermal_step.py',
("""    m.theta = pyo.Var(m.refined_vertices, within=pyo.NonNegativeReals)

    for i in list(m.refined_vertices):
        m.theta[i] = m.prev_theta[i]
        m.theta[i].bounds = (
            m.prev_theta[i] - search_radius,
            m.prev_theta[i] + search_radius,
        )
""","""    m.theta = pyo.Var(
        m.refined_vertices,
        bounds=lambda model, i: (
            max(0.0, prev_theta[i - 1] - search_radius),
            prev_theta[i - 1] + search_radius,
        ),
        initialize=lambda model, i: prev_theta[i - 1],
    )
"""),
("""            m.theta[i] = new_prev_theta[i - 1]
            m.theta[i].bounds = (
                new_prev_theta[i - 1] - self._search_radius,
                new_prev_theta[i - 1] + self._search_radius,
            )
""","""            m.theta[i] = new_prev_theta[i - 1]
            m.theta[i].setlb(max(0.0, new_prev_theta[i - 1] - self._search_radius))
            m.theta[i].setub(new_prev_theta[i - 1] + self._search_radius)
"""),
("""        for i in vertices:
            for j in c1_indices:
                m.prev_y1[i, j] = new_prev_y1[i - 1, j - 1]
                m.prev_y2[i, j] = new_prev_y2[i - 1, j - 1]
""","""        m.prev_y1.store_values({(i, j): float(new_prev_y1[i - 1, j - 1]) for i in vertices for j in c1_indices})
        m.prev_y2.store_values({(i, j): float(new_prev_y2[i - 1, j - 1]) for i in vertices for j in c1_indices})
"""),
("""    m.boundary_heat_transfer = 0.0
    if boundary_integrator is not None:
        m.boundary_heat_transfer = boundary_integrator(
            compose_to_integrand(
                _boundary_potential(HEAT_TRANSFER_COEFFICIENT, m.external_temperature), temp.on_edge
            )
        )

    m.objective = pyo.Objective(expr=m.energy + m.boundary_heat_transfer + fps * m.dissipation)""",
"""    total = m.energy + fps * m.dissipation
    if boundary_integrator is not None:
        loss = _boundary_potential(HEAT_TRANSFER_COEFFICIENT, m.external_temperature)
        total += boundary_integrator(lambda edge, t: loss(temp.on_edge(edge, t)))
    m.objective = pyo.Objective(expr=total)"""),
)
sub('interpolation.py',
("""        bp_fine = BarycentricPoint(triangle, barycentric_coordinates)
        bp_coarse = self.grid.to_coarse_barycentric_point(bp_fine)
        return bp_coarse.triangle, bp_coarse.coordinates
""","""        point = self.grid.to_coarse_barycentric_point(
            BarycentricPoint(coordinates=barycentric_coordinates, triangle=triangle)
        )
        return (point.triangle, point.coordinates)
"""),
("""        i1, i2, i3 = triangle
        params_vec1 = Vector(self._params[i1])
        params_vec2 = Vector(self._params[i2])
        params_vec3 = Vector(self._params[i3])
        return params_vec1.extend(params_vec2).extend(params_vec3)
""","""        return Vector([x for i in triangle for x in self._params[i]])
"""),
("""    def strain(self, x: float, y: float) -> Matrix:
        \"\"\"Compute the strain of the deformation in a triangle.\"\"\"
        return self._y[0].gradient(x, y).stack(self._y[1].gradient(x, y))
""","""    def strain(self, x: float, y: float) -> Matrix:
        \"\"\"Compute the strain of the deformation in a triangle.\"\"\"
        rows = [component.gradient(x, y) for component in self._y]
        return Matrix([list(row) for row in rows])
"""),
)
sub('simulation.py',
("""        self._max_temp = max(self._max_temp, np.max(theta_data))
""",""""""),
("""        self._max_temp = 0
""",""""""),
("""        return self._max_temp
""","""        return max(float(step._theta_data.max()) for step in self.steps)
"""),
("self.steps[i].plot(ax, self._max_temp)","self.steps[i].plot(ax, self.max_temp())"),
("""        x_coords = positions[:, 0]
        y_coords = positions[:, 1]
        self._xlims = (min(self._xlims[0], np.min(x_coords)), max(self._xlims[1], np.max(x_coords)))
        self._ylims = (min(self._ylims[0], np.min(y_coords)), max(self._ylims[1], np.max(y_coords)))
""","""        lowest, highest = positions.min(axis=0), positions.max(axis=0)
        self._xlims = (min(self._xlims[0], lowest[0]), max(self._xlims[1], highest[0]))
        self._ylims = (min(self._ylims[0], lowest[1]), max(self._ylims[1], highest[1]))
"""),
("""        deformed_points = [self.y(*p) for p in self._grid.points]
        x = [p[0] for p in deformed_points]
        y = [p[1] for p in deformed_points]
        c = [self.theta(*p) for p in self._grid.points]
        ax.tripcolor(
            x,
            y,
            c,
            triangles=self._grid.triangles,
            vmin=0.0,
            vmax=max_temp,
            cmap="plasma",
            # shading="gouraud",
            edgecolors="black",
        )
""","""        deformed_points = np.array([list(self.y(*p)) for p in self._grid.points], dtype=float)
        c = np.array([self.theta(*p) for p in self._grid.points], dtype=float)
        triangulation = Triangulation(*deformed_points.T, triangles=np.array(self._grid.triangles))
        ax.tripcolor(
            triangulation, c, norm=Normalize(0.0, max_temp), cmap="plasma", edgecolors="black"
        )
"""),
("from matplotlib import animation\n","from matplotlib import animation\nfrom matplotlib.colors import Normalize\nfrom matplotlib.tri import Triangulation\n"),
("""        anim = animation.FuncAnimation(fig, animate_frame, frames=len(self.steps))
""","""        anim = animation.FuncAnimation(fig, animate_frame, frames=range(len(self.steps)), repeat=False)
"""),
("""        fig = self._plot_step(i)
        if fig is not None:
            step_index = i if i >= 0 else len(self.steps) + i
            fig.savefig(
                f"{path}_{step_index}.png",
                bbox_inches="tight",
                transparent="True",
                pad_inches=0,
                dpi=300,
            )
""","""        count = len(self.steps)
        if not -count <= i < count:
            return
        step_index = i % count
        self._plot_step(step_index).savefig(
            str(path) + "_" + str(step_index) + ".png",
            transparent="True",
            bbox_inches="tight",
            dpi=300,
            pad_inches=0,
        )
"""),
("""        y1_params = y_data[:, 0].tolist()
        y1_interpolation = P1Interpolation(grid, y1_params)
        y2_params = y_data[:, 1].tolist()
        y2_interpolation = P1Interpolation(grid, y2_params)
        y = EuclideanDeformation(y1_interpolation, y2_interpolation)
""","""        y = EuclideanDeformation(*(P1Interpolation(grid, column) for column in y_data.T.tolist()))
"""),
("""        self._mechanical_step.solve()

        # Add initial step
        self.steps: list[AbstractStep] = []
        self._fps = self.params.fps
""","""        self.steps: list[AbstractStep] = []
        self._fps = self.params.fps
        self._mechanical_step.solve()

        # Add initial step
"""),
("""        if self.initial_temperature < 0:
            raise ValueError(
                f"initial temperature must be non-negative but {self.initial_temperature} was"
                " provided"
            )

        if self.search_radius <= 0:
            raise ValueError(
                f"search radius must be positive but {self.search_radius} was provided"
            )

        if self.fps <= 0:
            raise ValueError(f"fps must be positive but {self.fps} was provided")
""","""        for name in ("search_radius", "fps"):
            if getattr(self, name) <= 0:
                raise ValueError(f"{name} must be positive but {getattr(self, name)} was provided")
        if self.initial_temperature < 0:
            raise ValueError("initial temperature must be non-negative")
"""),
)
sub('domain.py',
("""        for edge in self.edges:
            i, j = edge
            p, q = self.points[i], self.points[j]
            ax.plot([p[0], q[0]], [p[1], q[1]], color="black", linewidth=PLOT_LINEWIDTH)
""","""        for ends in self.edges:
            x, y = zip(*((self.points[i][0], self.points[i][1]) for i in ends))
            ax.plot(x, y, color="black", linewidth=PLOT_LINEWIDTH)
"""),
("""        return next(
            (
                i
                for i, grid_point in enumerate(self.points)
                if self._points_coincide(point, grid_point)
            ),
            None,
        )
""","""        for i, candidate in enumerate(self.points):
            if self._points_coincide(candidate, point):
                return i
        return None
"""),
)
check()
shutil.rmtree(D)
