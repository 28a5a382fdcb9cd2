"""C27: plots, images and curves show the requested step completely."""

import os
import tempfile
import numpy as np
from harness import draw, gen, geom, mesh, sims, steps as st
from harness.core import Check

CHECK = Check(
    "C27",
    "A case is a simulation with a recording solver whose steps are plotted, saved and animated in a"
    " scratch directory; the drawn polygons, their values, color limits and axis limits are read off the"
    " figure, at the moment of saving and for every movie frame, and compared with the recorded data; or a"
    " set of domain curves; or a plotted grid or domain. Non-trivial: something was drawn.",
    ["no movie encoder is installed: a stand-in writer records the frames"],
)


class Expect:
    """What the plots of a simulation have to show."""

    def __init__(self, p, sim):
        self.fr = fr = sims.Frame(p)
        self.data = [fr.read(s) for s in sim.steps]
        d = gen.domain(p)
        if fr.reg:
            self.grid = d.refine(fr.fine, 5)
        else:
            self.grid = fr.grid
        self.P = mesh.pts(self.grid)
        self.T = np.array([tuple(t) for t in self.grid.triangles])
        pos = [y[:, :, 0] if fr.reg else y for y, _ in self.data]
        self.lo = np.min([q.min(axis=0) for q in pos], axis=0)
        self.hi = np.max([q.max(axis=0) for q in pos], axis=0)
        self.top = max(float(t.max()) for _, t in self.data)
        self._faces = {}

    def faces(self, sim, k):
        if k not in self._faces:
            s = sim.steps[k]
            Y = np.array([[float(z) for z in s.y(*x)] for x in self.P])
            t = np.array([float(s.theta(*x)) for x in self.P])
            self._faces[k] = (Y[self.T], t[self.T].mean(axis=1))
        return self._faces[k]


def _canon(V, vals, scale):
    """Faces sorted by their centroid (independent of the order of drawing)."""
    cen = V.mean(axis=1)
    order = np.lexsort((np.round(cen[:, 1] / scale, 7), np.round(cen[:, 0] / scale, 7)))
    return V[order], vals[order]


def compare(c, ex, sim, k, content, what):
    fr = ex.fr
    c.eq(len(content["meshes"]), 1, f"{what}: number of drawn triangulations")
    V, vals, clim = content["meshes"][0]
    W, want = ex.faces(sim, k)
    c.eq(len(V), len(W), f"{what}: number of drawn triangles")
    # match every expected face with the closest drawn one
    cv, cw = V.mean(axis=1), W.mean(axis=1)
    for f in range(len(W)):
        d = np.abs(cv - cw[f]).max(axis=1)
        g = int(d.argmin())
        a = V[g][np.lexsort((V[g][:, 1], V[g][:, 0]))]
        b = W[f][np.lexsort((W[f][:, 1], W[f][:, 0]))]
        if np.abs(a - b).max() > 1e-9 * (1 + np.abs(b).max()):
            # equal x coordinates may sort differently: compare as sets of corners
            err = max(min(np.abs(x - z).max() for x in V[g]) for z in W[f])
            c.check(
                err <= 1e-9 * (1 + np.abs(b).max()),
                lambda: f"{what}: triangle {W[f].tolist()} is not drawn (closest {V[g].tolist()})",
            )
        c.check(
            abs(vals[g] - want[f]) <= 1e-9 * (1 + abs(want[f])),
            lambda: f"{what}: triangle with mean temperature {want[f]!r} is colored for {vals[g]!r}",
        )
    c.count("triangles_drawn", len(W))
    c.close(clim[0], 0.0, f"{what}: lower end of the color scale", atol=0)
    c.close(clim[1], ex.top, f"{what}: upper end of the color scale", atol=1e-12)
    span = np.maximum(ex.hi - ex.lo, 1e-12)
    for a, (l0, l1) in enumerate(content["limits"]):
        c.check(
            l0 <= ex.lo[a] + 1e-9 * span[a] and l1 >= ex.hi[a] - 1e-9 * span[a],
            f"{what}: axis limits ({l0}, {l1}) do not contain the positions [{ex.lo[a]}, {ex.hi[a]}]",
        )
        c.check(
            l0 >= ex.lo[a] - 0.1 * span.max() and l1 <= ex.hi[a] + 0.1 * span.max(),
            f"{what}: axis limits ({l0}, {l1}) do not span just the positions [{ex.lo[a]}, {ex.hi[a]}]",
        )
        c.count("limits")


def fr_big(ex):
    return len(ex.T) > 200


def _gen_sim(rng, i):
    if i % 3 == 2:
        p = sims.reg_case(rng, i // 3, ((1, 1, 1), (2, 1, 1)))
        p["steps"] = 1
    else:
        p = sims.p1_case(rng, i, cells=4)
        p["steps"] = rng.randint(1, 4)
        p["radius"] = rng.choice([0.1, 0.3]) * p["scale"]
    what = rng.random()
    if i % 6 == 4 or what < 0.15:
        p["theta0"] = 0.0
        p["frozen"] = i % 6 == 4  # every temperature is zero
    elif what < 0.4:
        p["theta0"] = 10 ** rng.uniform(1.5, 4.5)
    return p


@CHECK.family("simulation", _gen_sim, quick=18, thorough=200, weight=4, timeout=300,
              needs=("triangles_drawn", "limits", "images", "frames", "outside", "negative_indices", "kept_figures", "overwritten", "frozen", "open_figures", "given_axes"))
def body_sim(c, p):
    from matplotlib import pyplot as plt
    from matplotlib.figure import Figure

    rng = c.rng
    tags = sims.tags(p["seed"])
    cold = lambda ev: tags(ev) if ev.index % 2 == 0 else np.zeros_like(ev.start)
    sim, rec = sims.simulate(p, cold if p.get("frozen") else tags, objective=False)
    c.count("frozen", bool(p.get("frozen")))
    if p["steps"] > 1:
        sims.run(sim, p["steps"] - 1)
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="verif27") as tmp:
        os.chdir(tmp)
        try:
            for phase in (0, 1):
                if phase:  # more steps: limits and color scale have to follow
                    sims.run(sim)
                ex = Expect(p, sim)
                n = len(sim.steps)
                draw.close_all()
                idx = sorted({0, n - 1, rng.randrange(n)}) + [-1, -n, -rng.randint(1, n)]
                for i in rng.sample(idx, min(len(idx), 4)):
                    if rng.random() < 0.5:
                        draw.close_all()
                        sim.plot_step(i)
                        figs = [plt.figure(k) for k in plt.get_fignums()]
                        c.eq(len(figs), 1, f"number of figures after plot_step({i})")
                    else:  # figures of earlier plots are still open
                        sim.plot_step(i)
                        figs = [plt.gcf()]
                        c.count("kept_figures")
                    compare(c, ex, sim, i % n, draw.content(figs[0]), f"plot_step({i})")
                    c.count("plots")
                    c.count("negative_indices", i < 0)
                draw.close_all()
                shown = []
                for _ in range(rng.choice([6, 24]) if not fr_big(ex) else 3):  # several plots to look at together
                    i = rng.choice(idx)
                    sim.plot_step(i)
                    shown.append((i, plt.gcf()))
                for i, fig in shown:
                    c.check(plt.fignum_exists(fig.number), f"the figure of plot_step({i}) was closed by a later plot")
                    c.count("open_figures")
                for i, fig in rng.sample(shown, 3):
                    compare(c, ex, sim, i % n, draw.content(fig), f"plot_step({i}) before other plots")
                draw.close_all()
                # into axes of the caller that are not the current ones
                fig, axes = plt.subplots(1, 3)
                k, i = rng.randrange(2), rng.randrange(n)
                sim.steps[i].plot(axes[k], ex.top)
                c.eq([len(draw.triangles(ax)) for ax in axes], [int(j == k) for j in range(3)], "triangulations drawn into three axes")
                compare(c, ex, sim, i, {"meshes": draw.triangles(axes[k]), "limits": list(zip(ex.lo, ex.hi))}, f"step {i} in given axes")
                c.count("given_axes")
                draw.close_all()
                for i in (n, n + rng.randint(1, 9), -n - 1, -n - rng.randint(2, 9)):
                    draw.close_all()
                    before = sorted(os.listdir("."))
                    sim.plot_step(i)
                    c.eq(len(plt.get_fignums()), 0, f"number of figures after plot_step({i}) with {n} steps")
                    sim.save_step(i, "outside")
                    c.eq(sorted(os.listdir(".")), before, f"files after save_step({i}) with {n} steps")
                    c.count("outside")
                saves = draw.Saves(dpi=None if rng.random() < 0.2 else 40)
                with saves.watching():
                    for i in rng.sample(idx, 2):
                        for path, name in ((None, f"step_{i % n}.png"), (os.path.join(tmp, "sub"), f"sub_{i % n}.png"), ("a.b", f"a.b_{i % n}.png"),
                                           ("x.png", f"x.png_{i % n}.png"), ("step.0_1", f"step.0_1_{i % n}.png")):
                            if rng.random() < (0.2 if path == "x.png" else 0.5):
                                continue
                            before = set(os.listdir("."))
                            if name in before:
                                os.remove(name)
                                before.discard(name)
                            if rng.random() < 0.4:  # an image saved by somebody else
                                with open(name, "w") as f:
                                    f.write("old")
                                c.count("overwritten")
                            k = len(saves.log)
                            sim.save_step(i) if path is None else sim.save_step(i, path)
                            c.eq(sorted(set(os.listdir(".")) - before), [name], f"files written by save_step({i}, {path})")
                            with open(name, "rb") as f:
                                c.eq(f.read(8), b"\x89PNG\r\n\x1a\n", "signature of the image")
                            im = plt.imread(name)
                            c.check(float(im.max() - im.min()) > 0.1, "the image is blank")
                            c.eq(len(saves.log), k + 1, "number of saved figures")
                            compare(c, ex, sim, i % n, saves.log[k][1], f"image of save_step({i})")
                            c.count("images")
                draw.close_all()
                movies = draw.Movies()
                with movies.watching():
                    if rng.random() < 0.5:
                        sim.save_animation()
                        name = "animation.mp4"
                    else:
                        film = rng.choice(["film", "film.mp4", "a.film", "film_1"])
                        sim.save_animation(film)
                        name = film + ".mp4"
                c.eq(len(movies.log), 1, "number of movies")
                c.eq(os.path.basename(movies.log[0][0]), name, "name of the movie")
                frames = movies.log[0][1]
                c.eq(len(frames), n, "number of frames")
                for k, f in enumerate(frames):
                    compare(c, ex, sim, k, f, f"frame {k} of the movie")
                    c.count("frames")
        finally:
            os.chdir(cwd)
            draw.close_all()


def _gen_movie(rng, i):
    p = sims.p1_case(rng, i, cells=1)
    p["steps"] = 105 if i == 0 else rng.choice([11, 25, 60, 210])
    return p


@CHECK.family("long movies", _gen_movie, quick=2, thorough=8, weight=4, timeout=400, needs=("frames",))
def body_movie(c, p):
    sim, _ = sims.simulate(p, sims.tags(p["seed"]), objective=False)
    sims.run(sim, p["steps"])
    ex, n = Expect(p, sim), len(sim.steps)
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="verif27") as tmp:
        os.chdir(tmp)
        try:
            movies = draw.Movies()
            with movies.watching():
                sim.save_animation()
        finally:
            os.chdir(cwd)
            draw.close_all()
    frames = movies.log[0][1]
    c.eq(len(frames), n, "number of frames")
    for k, f in enumerate(frames):
        compare(c, ex, sim, k, f, f"frame {k} of the movie")
        c.count("frames")


def _gen_curves(rng, i):
    p = gen.rect(rng, 5, 5)
    p.update(points=rng.choice([2, 3, 5, 11, 50]), nh=rng.choice([0, 1, 2, 7]), nv=rng.choice([None, None, 0, 1, 3, 8]))
    p["fix"] = gen.fix_repr(rng, gen.fix_sides(rng))
    return p


@CHECK.family("curves", _gen_curves, quick=60, thorough=600, needs=("curves",))
def body_curves(c, p):
    d = gen.domain(p)
    W, H, m = p["width"], p["height"], p["points"]
    if p["nv"] is None and p["nh"] == 0 and c.rng.random() < 0.5:
        curves = d.curves(m)
    elif p["nv"] is None:
        curves = d.curves(m, p["nh"])
    else:
        curves = d.curves(m, p["nh"], p["nv"])
    nv = p["nh"] if p["nv"] is None else p["nv"]
    c.eq(len(curves), p["nh"] + 2 + nv + 2, "number of curves")
    tol = 1e-12 * max(W, H)
    # canonical representation: every curve as sequence of points from the lower/left end
    got = []
    for cv in curves:
        pts = [(float(q[0]), float(q[1])) for q in cv]
        c.eq(len(pts), m, "number of points of a curve")
        got.append(pts if pts[0] <= pts[-1] else pts[::-1])
    want = [[(i * W / (m - 1), j * H / (p["nh"] + 1)) for i in range(m)] for j in range(p["nh"] + 2)]
    want += [[(j * W / (nv + 1), i * H / (m - 1)) for i in range(m)] for j in range(nv + 2)]
    left = [np.array(g) for g in got]
    for w in want:
        w = np.array(w)
        hit = next((k for k, g in enumerate(left) if np.abs(g - w).max() <= 10 * tol), None)
        c.check(hit is not None, lambda: f"the line from {w[0].tolist()} to {w[-1].tolist()} is missing or not equally spaced")
        left.pop(hit)
        c.count("curves")


def _gen_grid(rng, i):
    p = gen.rect(rng, 4, 4, scales="unit")
    p["fix"] = gen.fix_repr(rng, gen.fix_sides(rng))
    p["r"] = rng.choice([1, 2, 3]) if p["nx"] * p["ny"] <= 6 else 1
    p["own"] = rng.choice(["none", "given"])
    if i % 10 == 7:
        p = gen.enlarge(p, i // 10) | dict(r=1)
    return p


@CHECK.family("grids", _gen_grid, quick=20, thorough=200, needs=("points", "edges", "domains"))
def body_grid(c, p):
    from matplotlib import pyplot as plt

    draw.close_all()
    d = gen.domain(p)
    g = d.grid(p["scale"])
    if p["r"] > 1:
        g = d.refine(g, p["r"])
    ax = None
    if p["own"] == "given":
        _, ax = plt.subplots()
        if c.rng.random() < 0.5:
            plt.subplots()  # somebody else's figure is the current one
        if c.rng.random() < 0.5:
            d.plot(ax)
    before = mesh.snapshot(g)
    res = g.plot(ax)
    if ax is None:
        c.eq(len(plt.get_fignums()), 1, "number of figures")
        ax = plt.gca()
    c.check(res is ax, "the axis is returned")
    P = np.array(mesh.pts(g))
    shown = draw.points(ax)
    for q in P:
        c.check(len(shown) and float(np.abs(shown - q).max(axis=1).min()) < 1e-9, lambda: f"point {q.tolist()} is not shown")
        c.count("points")
    segs = draw.segments(ax)
    S = np.array([np.sort(np.array(s).round(9), axis=0).ravel().tolist() for s in segs]) if segs else np.zeros((0, 4))
    A = np.array([np.concatenate(s) for s in segs]) if segs else np.zeros((0, 4))
    for i, j in (tuple(e) for e in g.edges):
        a, b = np.concatenate([P[i], P[j]]), np.concatenate([P[j], P[i]])
        ok = len(A) and min(float(np.abs(A - a).max(axis=1).min()), float(np.abs(A - b).max(axis=1).min())) < 1e-9
        c.check(bool(ok), lambda: f"edge from {P[i].tolist()} to {P[j].tolist()} is not shown")
        c.count("edges")
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    c.check(
        x0 <= P[:, 0].min() and x1 >= P[:, 0].max() and y0 <= P[:, 1].min() and y1 >= P[:, 1].max(),
        f"axis limits ({x0}, {x1}), ({y0}, {y1}) cut the grid off",
    )
    c.check(mesh.snapshot(g) == before, "plotting changed the grid")
    draw.close_all()
    ax = d.plot()
    boxes = [q.get_bbox().extents for q in ax.patches if hasattr(q, "get_bbox")]
    c.check(
        any(np.abs(np.array(b) - [0, 0, p["width"], p["height"]]).max() < 1e-9 * (1 + p["width"] + p["height"]) for b in boxes),
        "plotting the domain shows its rectangle",
    )
    c.count("domains")
    draw.close_all()


CHECK.family("large", lambda rng, i: gen.enlarge(sims.p1_case(rng, i), i) | dict(steps=1), quick=1, thorough=6, weight=8, timeout=400)(body_sim)
