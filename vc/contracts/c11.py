"""C11: goos shapes render to exact overlap fractions, with the adjoint."""
import itertools
import types

import numpy as np

from vc.run import Contract, Bounded
from vc.harness import Failure
from vc import sym
from vc.facade import concrete

from spins import goos, gridlock
from spins.goos import flows, shapes
from spins.goos_sim import maxwell
from spins.goos_sim.maxwell import render as rm

LEVEL = "proof"
TECHNIQUE = ("contracts on the real rendering code executed with symbolic "
             "pixel and cell edges (the search for the cells is forked), "
             "symbolic permittivities, pixel values and incoming gradients; "
             "normal form and z3; grouping enumerated exhaustively")
ASSUMPTIONS = [
    "one axis at a time: up to 3 cells and 2 pixels per axis with symbolic "
    "edges; the three-dimensional matrix is the Kronecker product, checked "
    "for symbolic one-dimensional weights",
    "the cuboid part of a shape is drawn by gridlock.Grid, whose volume "
    "average is property C10 (modular: draw_cuboid is recorded here)",
    "a shape drawn after a pixelated shape does not overlap it",
    "incoming gradients: complex arrays in the 2 Re(g dz) convention, real "
    "arrays plain",
]
R = "spins/goos_sim/maxwell/render.py:"
H = "spins/goos/shapes.py:"


def arr(B, xs):
    if B.symbolic:
        from vc.arrays import oarr
        return oarr(np.array(list(xs), dtype=object))
    return np.array(list(xs), dtype=float)


def edges(B, tag, n):
    x0 = B.real("o" + tag)
    h = B.real("h" + tag, (n, ), pos=True)
    xs = [x0]
    for i in range(n):
        xs.append(xs[-1] + h[i])
    return arr(B, xs)


def mx(a, b):
    return a if bool(a >= b) else b


def mn(a, b):
    return a if bool(a <= b) else b


def overlap(a0, a1, b0, b1):
    lo, hi = mx(a0, b0), mn(a1, b1)
    return hi - lo if bool(hi > lo) else 0 * lo


def dense(M, B):
    if B.symbolic:
        return M.toarray()
    return np.asarray(M.todense())


def c_weights(npix, ncell):
    def c(B):
        """Weight = overlap of the pixel with the cell over the cell width."""
        g = edges(B, "g", ncell)
        s = edges(B, "s", npix)
        if not B.symbolic and B.choose("aligned", [False, True]):
            s = np.sort(np.concatenate(
                [g[:1], s])[:npix + 1]) if B.choose("w", [0, 1]) else \
                np.concatenate([g[:npix] - 0.0, [g[-1] + 1.0]])[:npix + 1]
            s = np.unique(s)
            if len(s) < npix + 1:
                s = np.concatenate([s, s[-1] + 1.0 + np.arange(
                    npix + 1 - len(s))])
        M = rm.get_rendering_matrix_1d(s, g)
        if tuple(M.shape) != (ncell, npix):
            raise Failure("shape", repr(M.shape))
        D = dense(M, B)
        for j in range(ncell):
            for i in range(npix):
                w = overlap(s[i], s[i + 1], g[j], g[j + 1])
                B.eq(D[j, i], w / (g[j + 1] - g[j]), "weight")
    return c


def c_kron(B):
    """The 3D weights are the products of the 1D weights, C order."""
    dims = B.choose("dims", [((1, 1), (1, 1), (1, 1)), ((2, 1), (1, 2), (2, 2)),
                             ((1, 2), (2, 1), (1, 1)), ((2, 2), (1, 1), (1, 2))])
    W = [B.real("w%d" % a, dims[a]) for a in range(3)]
    se, ge = object(), object()
    keep = rm.get_rendering_matrix_1d
    calls = []

    def stub(s, g):
        k = len(calls)
        calls.append((s, g))
        import scipy.sparse
        if B.symbolic:
            from vc import spmat
            return spmat.matrix(W[k])
        return scipy.sparse.csr_matrix(W[k])
    rm.get_rendering_matrix_1d = stub
    try:
        M = rm.get_rendering_matrix(["sx", "sy", "sz"], ["gx", "gy", "gz"])
    finally:
        rm.get_rendering_matrix_1d = keep
    if calls != [("sx", "gx"), ("sy", "gy"), ("sz", "gz")]:
        raise Failure("axes", repr(calls))
    cells = [d[0] for d in dims]
    pix = [d[1] for d in dims]
    D = dense(M, B)
    if D.shape != (np.prod(cells), np.prod(pix)):
        raise Failure("shape", repr(D.shape))
    for r, c in enumerate(np.ndindex(*cells)):
        for q, p in enumerate(np.ndindex(*pix)):
            B.eq(D[r, q], W[0][c[0], p[0]] * W[1][c[1], p[1]] *
                 W[2][c[2], p[2]], "3D weight")


class Mat:
    def __init__(self, eps):
        self.eps, self.asked = eps, []

    def permittivity(self, wlen):
        self.asked.append(wlen)
        return self.eps


class Drawn:
    """A grid that records what is drawn on it."""

    def __init__(self, grid):
        self._g = grid
        self.drawn = []

    def draw_cuboid(self, *a, **k):
        self.drawn.append(("cuboid", a, k))

    def draw_cylinder(self, *a, **k):
        self.drawn.append(("cylinder", a, k))

    def __getattr__(self, name):
        return getattr(self._g, name)


GRIDS = [((1, 1, 1), (1, 1, 1)), ((2, 1, 2), (1, 2, 1)), ((1, 3, 1), (2, 1, 1)),
         ((2, 2, 1), (2, 1, 1))]


def pixel_setup(B):
    cells, pix = B.choose("grid", GRIDS)
    E = [edges(B, "xyz"[a], cells[a]) for a in range(3)]
    g = gridlock.Grid(E, ext_dir=gridlock.Direction.z, initial=0, num_grids=3)
    nc, npx = int(np.prod(cells)), int(np.prod(pix))
    m1, m2 = Mat(B.cplx("m1")), Mat(B.cplx("m2"))
    a = B.real("a", pix)
    fl = flows_pix(B, a, m1, m2)
    coords = [arr(B, [float(i) for i in range(n + 1)]) for n in pix]
    fl.get_edge_coords = lambda: coords
    W = [B.real("W%d" % k, (nc, npx)) for k in range(3)]
    calls = []

    def stub(s, ge):
        import scipy.sparse
        k = len(calls)
        calls.append((s, ge))
        if B.symbolic:
            from vc import spmat
            return spmat.matrix(W[k])
        return scipy.sparse.csr_matrix(W[k])
    return cells, pix, E, g, m1, m2, a, fl, coords, W, calls, stub


def flows_pix(B, a, m1, m2):
    return goos.PixelatedContShapeFlow(
        array=a, pos=arr(B, [0.5, 1.5, -0.5]), extents=arr(B, [1.0, 2.0, 3.0]),
        material=m1, material2=m2, pixel_size=[1.0, 1.0, 1.0])


def check_coords(B, g, calls, coords, cells):
    if len(calls) != 3:
        raise Failure("matrices", "%d matrices" % len(calls))
    for k in range(3):
        s, ge = calls[k]
        for a in range(3):
            B.eq(s[a], coords[a], "pixel edges")
            e = g.exyz[a]
            w = [e[i + 1] - e[i] for i in range(cells[a])]
            if a == k:
                want = list(e)
            else:
                want = [e[0] - w[-1] / 2] + [e[i] + w[i] / 2
                                             for i in range(cells[a])]
            if len(ge[a]) != len(want):
                raise Failure("cells", "axis %d of component %d has %d edges"
                              % (a, k, len(ge[a])))
            B.eq(ge[a], arr(B, want), "Yee cells of component %d" % k)


def c_eval(B):
    """Value: contrast times the matrix; the box is drawn with material 1."""
    cells, pix, E, g, m1, m2, a, fl, coords, W, calls, stub = pixel_setup(B)
    keep = rm.get_rendering_matrix
    rm.get_rendering_matrix = stub
    dg = Drawn(g)
    try:
        new = rm.PixelatedContShapeFlowImpl(fl).eval(
            dg, rm.RenderParams(wlen=1550.0, pts_per_arclen=0.1))
    finally:
        rm.get_rendering_matrix = keep
    check_coords(B, g, calls, coords, cells)
    if len(dg.drawn) != 1 or dg.drawn[0][0] != "cuboid":
        raise Failure("box", repr(dg.drawn))
    pos, ext, ev = dg.drawn[0][1]
    B.eq(pos, fl.pos, "box position")
    B.eq(ext, fl.extents, "box extents")
    B.eq(ev, m1.eps, "box material")
    if set(m1.asked + m2.asked) != {1550.0}:
        raise Failure("wavelength", repr(m1.asked + m2.asked))
    for k in range(3):
        v = np.shape(new.grids[k])
        if tuple(v) != cells:
            raise Failure("grid shape", repr(v))
        for r, c in enumerate(np.ndindex(*cells)):
            want = 0
            for q, p in enumerate(np.ndindex(*pix)):
                want = want + W[k][r, q] * a[p]
            B.eq(new.grids[k][c], (m2.eps - m1.eps) * want, "value")


def c_grad(B):
    """Gradient: the adjoint of the value, for real and complex gradients."""
    cells, pix, E, g, m1, m2, a, fl, coords, W, calls, stub = pixel_setup(B)
    cx = B.choose("complex gradient", [False, True])
    G = [B.cplx("G%d" % k, cells) if cx else B.real("G%d" % k, cells)
         for k in range(3)]
    if B.symbolic:
        g.grids = G
    else:
        g.grids = np.array(G)
    keep = rm.get_rendering_matrix
    rm.get_rendering_matrix = stub
    try:
        gr = rm.PixelatedContShapeFlowImpl(fl).grad(
            g, rm.RenderParams(wlen=1550.0, pts_per_arclen=0.1))
    finally:
        rm.get_rendering_matrix = keep
    check_coords(B, g, calls, coords, cells)
    if not isinstance(gr, goos.PixelatedContShapeFlow.Grad):
        raise Failure("gradient type", repr(type(gr)))
    if tuple(np.shape(gr.array_grad)) != pix:
        raise Failure("gradient shape", repr(np.shape(gr.array_grad)))
    for q, p in enumerate(np.ndindex(*pix)):
        want = 0
        for k in range(3):
            for r, c in enumerate(np.ndindex(*cells)):
                z = (m2.eps - m1.eps) * G[k][c] * W[k][r, q]
                z = z.real
                want = want + (2 * z if cx else z)
        B.eq(gr.array_grad[p], want, "gradient")


def c_pixels(B):
    """Pixel edges: full pixels centred on the shape, cut at its extents."""
    n = B.choose("pixels", [1, 2, 3, 4])
    p = B.real("p", (), pos=True)
    if B.symbolic:
        e = B.real("e", (), pos=True)
        B.assume(e > (n - 1) * p)
        B.assume(e <= n * p)
        cut = n * p - e
    else:
        p = abs(p) + 0.01
        t = B.choose("cut", [0.0, 0.25, 0.5, 0.9])
        e = p * n - t * p
        if abs(e / p - round(e / p)) < 1e-9:
            e = p * n
    ext, ps = [e, 1.0, 2.0], [p, 1.0, 2.5]
    if B.choose("axis", [0, 1]):
        ext, ps = [3.0, e, 1.0], [1.5, p, 4.0]
        ax, others = 1, {0: [-1.5, 0.0, 1.5], 2: [-0.5, 0.5]}
    else:
        ax, others = 0, {1: [-0.5, 0.5], 2: [-1.0, 1.0]}
    got = shapes.PixelatedContShapeFlow.get_relative_edge_coords(ext, ps)
    mid = shapes.PixelatedContShapeFlow.get_relative_cell_coords(ext, ps)
    shp = shapes.PixelatedContShapeFlow.get_shape(ext, ps)
    want = [-e / 2] + [(i - n / 2) * p for i in range(1, n)] + [e / 2]
    pos = B.real("pos", (3, ))
    fl = goos.PixelatedContShapeFlow(pos=pos, extents=ext, pixel_size=ps)
    ab, abm = fl.get_edge_coords(), fl.get_cell_coords()
    for a in range(3):
        w = want if a == ax else others[a]
        if len(got[a]) != len(w) or shp[a] != len(w) - 1:
            raise Failure("number of pixels", "axis %d: %d edges, shape %r, "
                          "expected %d pixels" % (a, len(got[a]), shp,
                                                  len(w) - 1))
        B.eq(got[a], arr(B, w), "edges")
        B.eq(mid[a], arr(B, [(w[i] + w[i + 1]) / 2
                             for i in range(len(w) - 1)]), "centres")
        B.eq(ab[a], arr(B, [x + pos[a] for x in w]), "absolute edges")
        B.eq(abm[a], arr(B, [(w[i] + w[i + 1]) / 2 + pos[a]
                             for i in range(len(w) - 1)]), "absolute centres")


def c_drawn(B):
    """Cuboids and cylinders are drawn with their own parameters."""
    kind = B.choose("shape", ["cuboid", "flat cuboid", "cylinder"])
    m = Mat(B.cplx("m"))
    pos = B.real("pos", (3, ))
    dg = Drawn(None)
    par = rm.RenderParams(wlen=1300.0, pts_per_arclen=0.5)
    if kind != "cylinder":
        ext = B.real("ext", (3, ), pos=True)
        if kind == "flat cuboid":
            ext = arr(B, [ext[0], 0.0, ext[2]])
        rm._create_geometry(goos.CuboidFlow(
            pos=pos, extents=ext, material=m)).eval(dg, par)
        if kind == "flat cuboid":
            if dg.drawn:
                raise Failure("empty cuboid drawn", repr(dg.drawn))
            B.eq(arr(B, [0.0]), arr(B, [0.0]), "empty")
            return
        (what, (a, b, c), kw), = dg.drawn
        if what != "cuboid" or kw:
            raise Failure("drawn", repr(dg.drawn))
        B.eq(a, pos, "position")
        B.eq(b, ext, "extents")
        B.eq(c, m.eps, "permittivity")
    else:
        r = B.choose("radius", [1.5, 10.0, 31.0])
        h = B.real("h", (), pos=True)
        hh = arr(B, [h])
        rm._create_geometry(goos.CylinderFlow(
            pos=pos, radius=np.array([r]), height=hh, material=m)).eval(
                dg, par)
        (what, (a, b, c, n, e), kw), = dg.drawn
        if what != "cylinder" or kw or int(n) != int(np.ceil(np.pi * r)):
            raise Failure("drawn", repr(dg.drawn))
        B.eq(a, pos, "position")
        B.eq(b, r, "radius")
        B.eq(c, h, "height")
        B.eq(e, m.eps, "permittivity")
    if set(m.asked) != {1300.0}:
        raise Failure("wavelength", repr(m.asked))


def c_nodes(B):
    """Shape nodes hand their inputs to the flow and gradients back."""
    kind = B.choose("node", ["cuboid", "cylinder", "sphere", "pixels",
                             "translate"])
    mat = goos.material.Material(index=2.0)
    mat2 = goos.material.Material(index=3.0)
    off = B.real("off", (3, ))
    with goos.OptimizationPlan():
        c = [goos.Constant([0.0, 0.0, 0.0]) for _ in range(4)]
        if kind == "cuboid":
            node = shapes.Cuboid(c[0], c[1], c[2], material=mat, priority=3)
            names, cls = ["extents", "pos", "rot"], shapes.CuboidFlow
        elif kind == "cylinder":
            node = shapes.Cylinder(c[0], c[1], c[2], c[3], material=mat)
            names, cls = ["pos", "radius", "height", "rot"], \
                shapes.CylinderFlow
        elif kind == "sphere":
            node = shapes.Sphere(c[0], c[1], c[2], material=mat)
            names, cls = ["pos", "radius", "rot"], shapes.SphereFlow
        elif kind == "pixels":
            node = shapes.PixelatedContShape(
                c[0], [1.0, 2.0, 3.0], c[1], [4.0, 5.0, 6.0], c[2],
                material=mat, material2=mat2)
            names, cls = ["pos", "rot", "array"], \
                shapes.PixelatedContShapeFlow
        else:
            base = shapes.Cuboid(c[0], c[1], c[2], material=mat, priority=3)
            node = base.translate(off)
            p, x, r = (B.real(n, (3, )) for n in "pxr")
            fl = shapes.CuboidFlow(extents=x, pos=p, rot=r, material="m",
                                   priority=2)
            out = node.eval([fl])
            B.eq(out.pos, p + off, "translated position")
            B.eq(fl.pos, p, "the input is not changed")
            B.eq(out.extents, x, "extents")
            B.eq(out.rot, r, "rotation")
            if (out.material, out.priority) != ("m", 2):
                raise Failure("fields", repr(out))
            gr = shapes.CuboidFlow.Grad(pos_grad=p, extents_grad=x, rot_grad=r)
            back, = node.grad([fl], gr)
            B.eq(back.pos_grad, p, "gradient of the position")
            B.eq(back.extents_grad, x, "gradient of the extents")
            return
    vals = [B.real("v%d" % i, (3, )) for i in range(len(names))]
    out = node.eval([flows.NumericFlow(v) for v in vals])
    if type(out) is not cls:
        raise Failure("flow type", repr(type(out)))
    for n, v in zip(names, vals):
        B.eq(getattr(out, n), v, n)
    if out.material.permittivity(1.0) != 4.0 or (
            kind == "pixels" and (out.material2.permittivity(1.0) != 9.0 or
                                  list(out.pixel_size) != [1.0, 2.0, 3.0] or
                                  list(out.extents) != [4.0, 5.0, 6.0])):
        raise Failure("materials", repr(out))
    if kind == "cuboid" and out.priority != 3:
        raise Failure("priority", repr(out))
    gv = [B.real("g%d" % i, (3, )) for i in range(len(names))]
    back = node.grad([flows.NumericFlow(v) for v in vals],
                     cls.Grad(**{n + "_grad": x for n, x in zip(names, gv)}))
    if len(back) != len(names):
        raise Failure("gradients", "%d gradients" % len(back))
    for n, b, x in zip(names, back, gv):
        B.eq(b.array_grad, x, "gradient of " + n)
    fl = [flows.NumericFlow.ConstFlags(array=bool(
        B.choose("const%d" % i, [False, True]))) for i in range(len(names))]
    cf = node.eval_const_flags(fl)
    for n, f in zip(names, fl):
        if getattr(cf, n) != f.array:
            raise Failure("constant flags", n)


# grouping -------------------------------------------------------------------


def nestings(n, depth):
    """All ways to nest leaves 0..n-1 (in order) in groups."""
    if n == 1:
        yield 0
        if depth:
            yield [0]
        return
    def parts(k):
        if k == 0:
            yield []
            return
        for first in range(1, k + 1):
            for rest in parts(k - first):
                yield [first] + rest
    for p in parts(n):
        if len(p) < 2:
            continue
        subs = [[0] if m == 1 else list(nestings(m, depth - 1)) if depth
                else None for m in p]
        if any(s is None for s in subs):
            continue
        for combo in itertools.product(*subs):
            yield list(combo)


def fill(t, it):
    return [fill(x, it) for x in t] if isinstance(t, list) else next(it)


def b_group(tier, seed):
    """Every nesting of up to 4 shapes with every priority assignment."""
    ev = 0
    for n in (1, 2, 3, 4):
        for t in nestings(n, 2):
            if not isinstance(t, list):
                t = [t]
            for pr in itertools.product((0, 1, 2) if n < 4 else (0, 1),
                                        repeat=n):
                leaves = [shapes.CuboidFlow(pos=np.array([float(i)] * 3),
                                            extents=np.ones(3), priority=pr[i])
                          for i in range(n)]

                def flow(x):
                    if isinstance(x, list):
                        return goos.ArrayFlow([flow(y) for y in x])
                    return leaves[x]
                tree = fill(t, iter(range(n)))
                inputs = [flow(x) for x in tree]
                with goos.OptimizationPlan():
                    c = goos.Constant([1.0, 1.0, 1.0])
                    node = shapes.GroupShape(
                        [shapes.Cuboid(c, c) for _ in inputs])
                for rep in range(2):
                    out = node.eval(inputs)
                    order = sorted(range(n), key=lambda i: pr[i])
                    got = [int(f.pos[0]) for f in out]
                    if got != order:
                        raise Failure("drawing order", "nesting %r priorities "
                                      "%r gave %r" % (tree, pr, got))
                    gs = [shapes.CuboidFlow.Grad(
                        pos_grad=np.array([10.0 * rep + order[k]]))
                        for k in range(n)]
                    back = node.grad(inputs, goos.ArrayFlow.Grad(gs))

                    def flat(x):
                        if isinstance(x, (list, tuple)):
                            return [flat(y) for y in x]
                        if isinstance(x, goos.ArrayFlow.Grad):
                            return [flat(y) for y in x.flows_grad]
                        return int(x.pos_grad[0]) - 10 * rep
                    if flat(back) != tree:
                        raise Failure("gradients", "nesting %r priorities %r "
                                      "gave %r" % (tree, pr, flat(back)))
                    ev += 2
    return dict(evaluations=ev, distinct=ev, exhaustive=True,
                samples=["GroupShape nestings of 1 to 4 shapes"])


def b_round(tier, seed):
    """Pixel counts stay consistent under rounding; integer positions."""
    rng = np.random.default_rng(seed)
    ev = 0
    P = [0.1, 0.3, 0.7, 1.1, 3.3, 40.0, 13.0, 1 / 3.0] + list(
        rng.random(20 if tier == "quick" else 300))
    for p in P:
        for n in range(1, 13):
            for ext in (p * n, sum([p] * n)):
                e3, p3 = [ext, 2 * ext, 5.0], [p, 2 * p, 5.0]
                cls = shapes.PixelatedContShapeFlow
                shp = cls.get_shape(e3, p3)
                ed = cls.get_relative_edge_coords(e3, p3)
                ce = cls.get_relative_cell_coords(e3, p3)
                for a in range(3):
                    if len(ed[a]) != shp[a] + 1 or len(ce[a]) != shp[a]:
                        raise Failure("number of pixels", "extent %r, pixel "
                                      "%r: shape %r but %d edges" %
                                      (e3[a], p3[a], shp, len(ed[a])))
                    if np.any(np.diff(ed[a]) < 0) or ed[a][-1] != e3[a] / 2:
                        raise Failure("edges", repr(ed[a]))
                ev += 1
    with goos.OptimizationPlan():
        for pos in ([0, 0, 0], [1, 2, 3]):
            for off in ([0.5, 0.25, -1.5], [1, 2, 3]):
                s = goos.Cuboid(goos.Constant([1, 2, 3]),
                                goos.Constant(pos)).translate(np.array(off))
                got = s.get().pos
                if np.abs(got - np.array(pos) - np.array(off)).max() > 1e-12:
                    raise Failure("translated position", repr(got))
                ev += 1
    return dict(evaluations=ev, distinct=ev, samples=[dict(pixel=0.1, n=3)])


# end to end ------------------------------------------------------------------


def cover(e, lo, hi):
    return np.array([max(0.0, min(hi, e[i + 1]) - max(lo, e[i])) /
                     (e[i + 1] - e[i]) for i in range(len(e) - 1)])


def yee_edges(e, c):
    """Edges of the averaging cells of component c."""
    out = []
    for a in range(3):
        w = np.diff(e[a])
        if a == c:
            out.append(e[a])
        else:
            out.append(np.concatenate([[e[a][0] - w[-1] / 2],
                                       e[a][:-1] + w / 2]))
    return out


def b_render(tier, seed):
    rng = np.random.default_rng(seed)
    n = 14 if tier == "quick" else 120
    ev = 0
    from spins.goos_sim.maxwell import simspace
    for t in range(n):
        dx = float(rng.choice([20.0, 40.0, 25.0]))
        region = goos.Box3d(center=[float(x) for x in rng.integers(-2, 3, 3)],
                            extents=[dx * k for k in rng.integers(2, 7, 3)])
        wl = 1550.0
        n1, n2, nb = 1.5, 3.0, 1.2
        if t % 3 == 2:
            n1, n2 = 1.5 + 0.1j, 3.0 - 0.2j
        ps = [float(x) for x in rng.choice([17.0, 20.0, 33.0, 40.0], 3)]
        cnt = rng.integers(1, 4, 3)
        ext = [float(p * (k - rng.choice([0.0, 0.0, 0.3, 0.75])))
               for p, k in zip(ps, cnt)]
        pos = [float(x) for x in rng.choice([0.0, 7.0, -20.0, 13.5], 3)]
        if t % 5 == 4:
            pos[int(rng.integers(3))] += 90.0
        with goos.OptimizationPlan() as plan:
            var, shape = goos.pixelated_cont_shape(
                lambda s: rng.random(s), ext, ps, pos,
                material=goos.material.Material(index=n1),
                material2=goos.material.Material(index=n2))
            extra = t % 4 == 1
            node = shape
            if extra:
                far = [p + 3000.0 if a == 0 else p for a, p in enumerate(pos)]
                node = goos.GroupShape([
                    goos.Cuboid(goos.Constant([500.0, 30.0, 50.0]),
                                goos.Constant([0.0, 0.0, 0.0]),
                                material=goos.material.Material(index=2.0)),
                    shape])
            rend = maxwell.RenderShape(
                node, region=region, mesh=maxwell.UniformMesh(dx=dx),
                background=goos.material.Material(index=nb), wavelength=wl)
            a = var.get().array.copy()
            if a.shape != tuple(cnt):
                raise Failure("pixels", "extents %r, pixel size %r: %r" %
                              (ext, ps, a.shape))
            e = rend._grid.exyz
            pe = []
            for k in range(3):
                x = pos[k] + ps[k] * (np.arange(cnt[k] + 1) - cnt[k] / 2)
                x[0], x[-1] = pos[k] - ext[k] / 2, pos[k] + ext[k] / 2
                pe.append(x)
            ops = []
            base = []
            for c in range(3):
                ye = yee_edges(e, c)
                A = [np.array([cover(ye[k], pe[k][i], pe[k][i + 1])
                               for i in range(cnt[k])]).T for k in range(3)]
                ops.append(A)
                box = np.einsum("i,j,k->ijk", *[
                    cover(ye[k], pe[k][0], pe[k][-1]) for k in range(3)])
                bgv = np.full(box.shape, nb**2, dtype=complex)
                if extra:
                    cb = ([-250.0, -15.0, -25.0], [250.0, 15.0, 25.0])
                    lo = [max(cb[0][k], pe[k][0]) for k in range(3)]
                    hi = [min(cb[1][k], pe[k][-1]) for k in range(3)]
                    f = np.einsum("i,j,k->ijk", *[
                        cover(ye[k], cb[0][k], cb[1][k]) for k in range(3)])
                    both = np.einsum("i,j,k->ijk", *[
                        cover(ye[k], lo[k], hi[k]) for k in range(3)])
                    base.append(bgv * (1 - box - f + both) +
                                4.0 * (f - both) + n1**2 * box)
                else:
                    base.append(bgv * (1 - box) + n1**2 * box)

            def expected(a):
                return np.array([
                    base[c] + (n2**2 - n1**2) * np.einsum(
                        "ia,jb,kc,abc->ijk", ops[c][0], ops[c][1],
                        ops[c][2], a) for c in range(3)])
            got = np.array(rend.get().array)
            if np.abs(got - expected(a)).max() > 2e-3 if extra else \
                    np.abs(got - expected(a)).max() > 1e-8:
                raise Failure("rendered permittivity", "extents %r pixels %r "
                              "pos %r dx %r: off by %g" % (
                                  ext, ps, pos, dx,
                                  np.abs(got - expected(a)).max()))
            # gradient of a real function of the permittivity
            w = rng.random(got.shape) + (1j * rng.random(got.shape)
                                         if t % 2 else 0)
            obj = goos.dot(goos.Constant(w), rend)
            f = goos.abs(obj)**2
            g = f.get_grad([var])[0].array_grad
            if np.shape(g) != a.shape:
                raise Failure("gradient shape", repr(np.shape(g)))
            s = np.sum(w * expected(a))
            want = np.zeros(a.shape)
            for c in range(3):
                h = 2 * np.real(np.conj(s) * (n2**2 - n1**2) * w[c])
                want += np.einsum("ia,jb,kc,ijk->abc", ops[c][0], ops[c][1],
                                  ops[c][2], h)
            sc = max(1.0, np.abs(want).max())
            if np.abs(np.asarray(g) - want).max() > 1e-6 * sc * (
                    1e4 if extra else 1):
                raise Failure("gradient", "extents %r pixels %r pos %r dx %r: "
                              "%r, expected %r" % (ext, ps, pos, dx, g, want))
            ev += 2
    return dict(evaluations=ev, distinct=ev,
                samples=["RenderShape of a pixelated shape, random layouts"])


ITEMS = [
    Contract("C11.weights.%dx%d" % (p, c), c_weights(p, c),
             [R + "get_rendering_matrix_1d"], sym="obj", num=(30, 300),
             max_instances=4000, budget=100)
    for p, c in ((1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (2, 3), (3, 2),
                 (3, 3))
] + [
    Contract("C11.kron", c_kron, [R + "get_rendering_matrix"], sym="obj",
             num=(8, 40)),
    Contract("C11.eval", c_eval, [R + "PixelatedContShapeFlowImpl.eval"],
             sym="obj", num=(10, 100)),
    Contract("C11.grad", c_grad, [R + "PixelatedContShapeFlowImpl.grad"],
             sym="obj", num=(10, 100)),
    Contract("C11.pixels", c_pixels, [
        H + "PixelatedContShapeFlow.get_relative_edge_coords",
        H + "PixelatedContShapeFlow.get_relative_cell_coords",
        H + "PixelatedContShapeFlow.get_edge_coords",
        H + "PixelatedContShapeFlow.get_cell_coords",
        H + "PixelatedContShapeFlow.get_shape"], sym="obj", num=(40, 400)),
    Contract("C11.drawn", c_drawn, [R + "CuboidFlowImpl.eval",
                                    R + "CylinderFlowImpl.eval",
                                    R + "_create_geometry"],
             sym="obj", num=(12, 60)),
    Contract("C11.nodes", c_nodes, [
        H + n + m for n in ("Cuboid.", "Cylinder.", "Sphere.",
                            "PixelatedContShape.", "TranslateShape.")
        for m in ("eval", "grad", "eval_const_flags")],
             sym="obj", num=(20, 200), max_instances=400),
    Bounded("C11.group", b_group, [H + "GroupShape.eval",
                                   H + "GroupShape.grad"],
            bound="every nesting of up to 4 shapes, depth 3, priorities 0-2"),
    Bounded("C11.roundoff", b_round, [
        H + "PixelatedContShapeFlow.get_shape",
        H + "PixelatedContShapeFlow.get_relative_edge_coords",
        H + "TranslateShape.eval"],
            bound="floating-point pixel sizes times 1 to 12"),
    Bounded("C11.render", b_render, [R + "RenderShape.eval",
                                     R + "RenderShape.grad",
                                     R + "ArrayFlowImpl.eval",
                                     R + "ArrayFlowImpl.grad"],
            bound="random layouts on grids of up to 6 cells per axis"),
]
