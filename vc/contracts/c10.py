"""C10: rasterisation and rendering of drawn shapes."""
import itertools
import random
from fractions import Fraction as F

import numpy as np

from vc.run import Contract, Bounded
from vc.harness import Failure
from vc import sym

from spins.gridlock import Grid, GridType, Direction, GridError
from spins.gridlock import float_raster as fr

LEVEL = "proof"
TECHNIQUE = ("contracts on the real raster and Grid code executed with "
             "symbolic coordinates (cell searches branch), normal form and "
             "z3; exact rational clipping for the polygon/grid intersection "
             "step (bounded)")
ASSUMPTIONS = [
    "raster_2D is proved from the contract of _expand_polygon_vertices (every "
    "segment of the expanded polygon lies in one pixel); that contract itself "
    "is checked on an exhaustive lattice of triangles and quadrilaterals and "
    "on random simple polygons against exact rational clipping (bounded)",
    "area of a region as a sum over its boundary segments (Green's theorem)",
    "rendering is proved for shapes whose extrusion range is symbolic and "
    "whose in-plane outline is concrete; grids of 1 to 3 cells along the "
    "extrusion axis with symbolic edges",
    "gdspy.fast_boolean (polygon subtraction) is a trusted dependency; its "
    "default precision bounds the accuracy of overlapping slanted shapes",
]
R = "spins/gridlock/float_raster.py:"
G = "spins/gridlock/grid.py:Grid."


def arr(B, xs):
    xs = list(xs)
    if B.symbolic:
        from vc.arrays import oarr
        return oarr(np.array(xs, dtype=object))
    return np.array(xs)


def edges(B, tag, n):
    x0 = B.real("o" + tag)
    h = B.real("h" + tag, (n, ), pos=True)
    xs = [x0]
    for i in range(n):
        xs.append(xs[-1] + h[i])
    return arr(B, xs)


def anywhere(B, e, tag):
    if B.symbolic:
        return B.real("r" + tag)
    k = B.choose("u" + tag, ["edge", "in", "out"])
    if k == "edge":
        return float(e[B.choose("at" + tag, range(len(e)))])
    if k == "in":
        return float(e[0] + B.rng.random() * (e[-1] - e[0]))
    return float(e[0] + (3 * B.rng.random() - 1) * (e[-1] - e[0]))


def lt(B, a, b):
    return bool(a < b)


def mx(a, b):
    return a if bool(a >= b) else b


def mn(a, b):
    return a if bool(a <= b) else b


def overlap(lo, hi, a, b):
    l, h = mx(lo, a), mn(hi, b)
    return h - l if bool(l < h) else 0


def c_raster_1D(B):
    """Fraction of each cell covered by the segment, both orientations."""
    n = B.choose("cells", [1, 2, 3])
    e = edges(B, "x", n)
    p, q = anywhere(B, e, "p"), anywhere(B, e, "q")
    r = fr.raster_1D(arr(B, [p, q]), e)
    if len(r) != n:
        raise Failure("cells", "%d values for %d cells" % (len(r), n))
    lo, hi = mn(p, q), mx(p, q)
    for i in range(n):
        B.eq(r[i] * (e[i + 1] - e[i]), overlap(lo, hi, e[i], e[i + 1]) + 0 *
             e[0], "covered length")


def b_raster_1D(B):
    return c_raster_1D(B)


def c_intersections(B):
    """Crossing point of two non-parallel segments."""
    ca = {k: B.real(k, (2, )) for k in ("xi_a", "xf_a", "yi_a", "yf_a")}
    cb = {k: B.real(k, (1, )) for k in ("xi_b", "xf_b", "yi_b", "yf_b")}
    adj, pt, frac = fr._compute_intersections(
        (ca["xi_a"], ca["xf_a"]), (ca["yi_a"], ca["yf_a"]),
        (cb["xi_b"], cb["xf_b"]), (cb["yi_b"], cb["yf_b"]))
    for i in range(2):
        x0, x1, y0, y1 = (ca[k][i] for k in ("xi_a", "xf_a", "yi_a", "yf_a"))
        u0, u1, v0, v1 = (cb[k][0] for k in ("xi_b", "xf_b", "yi_b", "yf_b"))
        det = (x1 - x0) * (v1 - v0) - (y1 - y0) * (u1 - u0)
        if B.symbolic:
            B.assume(det != 0)
        elif abs(det) < 1e-6:
            continue
        f = frac[i, 0]
        px, py = x0 + f * (x1 - x0), y0 + f * (y1 - y0)
        B.eq(pt[i, 0], px + 1j * py, "point at that fraction of segment a")
        B.eq(((px - u0) * (v1 - v0) - (py - v0) * (u1 - u0)) * 1, 0 * px,
             "point on the line of segment b")
        # fraction on b, from the longer component of b
        g = ((px - u0) * (u1 - u0) + (py - v0) * (v1 - v0)) / (
            (u1 - u0)**2 + (v1 - v0)**2)
        if B.symbolic:
            inside = sym.cand(f >= 0, f <= 1, g >= 0, g <= 1)
            a = sym.as_cond(adj[i, 0])
            if bool(a):
                B.holds(f >= 0, "crossing inside a")
                B.holds(f <= 1, "crossing inside a")
                num = (u0 - x0) * (y1 - y0) - (v0 - y0) * (x1 - x0)
                B.holds(num / det >= 0, "crossing inside b")
                B.holds(num / det <= 1, "crossing inside b")
            else:
                num = (u0 - x0) * (y1 - y0) - (v0 - y0) * (x1 - x0)
                B.holds(sym.cnot(sym.cand(f >= 0, f <= 1, num / det >= 0,
                                          num / det <= 1)), "not crossing")
        else:
            m = min(abs(f), abs(1 - f), abs(g), abs(1 - g))
            if m > 1e-9:
                B.holds(bool(adj[i, 0]) == (0 <= f <= 1 and 0 <= g <= 1),
                        "crossing flag")


# closed chains of neighbouring pixels (column, row) on a 2 x 2 grid: the
# boundary of a polygon passes through them in this order
CHAINS = [[(0, 0)], [(1, 1)], [(0, 0), (1, 0)], [(0, 1), (0, 0)],
          [(0, 0), (1, 0), (1, 1), (0, 1)], [(1, 0), (1, 1), (0, 1), (0, 0)],
          [(0, 1), (1, 1)], [(1, 1), (1, 0)]]


def c_accumulate(B):
    """Pixel values from an expanded polygon, segment by segment."""
    chain = B.choose("pixels", CHAINS)
    ex, ey = edges(B, "x", 2), edges(B, "y", 2)
    pts, seg = [], []

    def inside(tag, c, e):
        if B.symbolic:
            t = B.real(tag, (), pos=True)
            B.assume(t < e[c + 1] - e[c])
            return e[c] + t
        return e[c] + B.rng.uniform(0.02, 0.98) * (e[c + 1] - e[c])

    m = len(chain)
    for k, (i, j) in enumerate(chain):
        inner = 3 if m == 1 else (2 if m == 2 else 1)
        for l in range(inner):
            pts.append((inside("px%d%d" % (k, l), i, ex),
                        inside("py%d%d" % (k, l), j, ey)))
            seg.append((i, j))
        if m > 1:
            i2, j2 = chain[(k + 1) % m]
            if i2 != i:
                pts.append((ex[max(i, i2)],
                            inside("cy%d" % k, j, ey)))
            else:
                pts.append((inside("cx%d" % k, i, ex), ey[max(j, j2)]))
            seg.append((i2, j2))
    n = len(pts)
    vs = arr(B, [p[0] + 1j * p[1] for p in pts])
    keep = fr._expand_polygon_vertices
    fr._expand_polygon_vertices = lambda *a, **k: vs
    try:
        r = fr.raster_2D(arr(B, [[p[0] for p in pts], [p[1] for p in pts]]),
                         ex, ey)
    finally:
        fr._expand_polygon_vertices = keep
    # the region left of every boundary segment, clipped to each pixel
    for i, j in itertools.product(range(2), range(2)):
        tot = 0 * ex[0]
        for k in range(n):
            (x0, y0), (x1, y1) = pts[k], pts[(k + 1) % n]
            ci, cj = seg[k]
            if cj != j:
                continue
            if ci == i:
                tot = tot + (ex[i + 1] - (x0 + x1) / 2) * (y1 - y0)
            elif ci < i:
                tot = tot + (ex[i + 1] - ex[i]) * (y1 - y0)
        cell = (ex[i + 1] - ex[i]) * (ey[j + 1] - ey[j])
        B.eq((r[i, j] * cell)**2, tot**2, "covered area of a pixel")
        B.holds(r[i, j] >= 0, "coverage not negative")


EXT = [0, 1, 2]


def ext_grid(B, cells):
    ax = B.choose("extrusion", EXT if cells == (2, ) else [2])
    n = B.choose("cells", cells)
    e = edges(B, "z", n)
    E = [np.array([0.0, 1.0, 3.0]), np.array([-1.0, 0.5])]
    E.insert(ax, e)
    return ax, n, e, E


def plane_cells(g, n, a):
    """Concrete cells of component n along a concrete axis."""
    return [float(v) for v in g.shifted_exyz(n, GridType.COMP)[a]]


# how two intervals can lie relative to each other (ranks of their ends)
ALLEN = [(0, 1, 2, 3), (0, 1, 1, 2), (0, 2, 1, 3), (0, 1, 0, 2), (1, 2, 0, 3),
         (1, 2, 0, 2), (0, 1, 0, 1)]
ALLEN += [(c, d, a, b) for a, b, c, d in ALLEN[:-1]]


def floats(a):
    """Numbers of a constant array, or None when a value is symbolic."""
    out = np.empty(np.shape(a))
    for ix in np.ndindex(*out.shape):
        v = sym.as_s(a[ix])
        if not v.is_const():
            return None
        out[ix] = float(v.cval()[0])
    return out


class planar:
    """The outline is concrete here: raster_2D runs on plain numbers."""

    def __init__(self, B):
        self.B = B

    def __enter__(self):
        from spins.gridlock import grid as gm
        from vc.facade import concrete
        self.keep = real = gm.raster_2D

        def f(p, x, y):
            v = [floats(t) for t in (p, x, y)]
            if any(t is None for t in v):
                return real(p, x, y)
            with concrete():
                r = real(*v)
            o = np.empty(r.shape, dtype=object)
            for ix in np.ndindex(*r.shape):
                o[ix] = sym.as_s(F(float(r[ix])).limit_denominator(10**6))
            return arr(self.B, o)
        if self.B.symbolic:
            gm.raster_2D = f

    def __exit__(self, *a):
        from spins.gridlock import grid as gm
        gm.raster_2D = self.keep


def c_render(cells, boxes, layouts=ALLEN):
    def c(B):
        with planar(B):
            _render(B, cells, boxes, layouts)
    return c


def _render(B, cells, boxes, layouts):
    """Volume average of boxes stacked along the extrusion axis."""
    ax, n, e, E = ext_grid(B, cells)
    comp = [0, 1, 2]
    if B.symbolic:
        comp = [B.choose("component", [ax] if boxes == 2 else
                         [ax, (ax + 1) % 3])]
    nc = len(comp)
    ns = boxes
    bg = [B.cplx("bg%d" % k) for k in range(nc)]
    g = Grid(E, ext_dir=Direction(ax), initial=tuple(bg),
             shifts=Grid.Yee_Shifts_E[comp],
             comp_shifts=Grid.Yee_Shifts_H[comp])
    pd = [a for a in range(3) if a != ax]
    # the same outline for every box: the later one replaces the earlier
    mid, half = (1.25, -0.25), (0.75, 0.5)
    spans, eps = [], []
    if B.symbolic and ns == 2:
        rank = B.choose("layout", layouts)
        v = [B.real("v0")]
        for q in range(3):
            v.append(v[-1] + B.real("v%d" % (q + 1), (), pos=True))
    for s in range(ns):
        z = anywhere(B, e, "z%d" % s)
        if B.symbolic and ns == 2:
            z = v[rank[2 * s]]
            t = v[rank[2 * s + 1]] - z
        elif B.symbolic:
            t = B.real("t%d" % s, (), pos=True)
        else:
            t = float(np.diff(e).sum() * B.choose("t%d" % s, [0.2, 0.7, 2.5]))
        ev = B.cplx("eps%d" % s)
        c, x = [mid[0], mid[1]], [2 * half[0], 2 * half[1]]
        c.insert(ax, z + t / 2)
        x.insert(ax, t)
        g.draw_cuboid(arr(B, c), arr(B, x), arr(B, [ev, ev + 1, 2 * ev][:nc]))
        spans.append((z, z + t))
        eps.append([ev, ev + 1, 2 * ev])
    g.render()
    first = [[g.grids[k][ix] for ix in np.ndindex(*g.grids[k].shape)]
             for k in range(nc)]
    for k in range(nc):
        ce = g.shifted_exyz(k, GridType.COMP)[ax]
        pc = [plane_cells(g, k, a) for a in pd]
        for ix in np.ndindex(*[int(v) for v in g.shape]):
            f = 1.0
            for m, a in enumerate(pd):
                lo, hi = pc[m][ix[a]], pc[m][ix[a] + 1]
                l = max(lo, mid[m] - half[m])
                h = min(hi, mid[m] + half[m])
                f *= max(h - l, 0.0) / (hi - lo)
            if B.symbolic:
                f = sym.as_s(F(f).limit_denominator(10**6))
            lo, hi = ce[ix[ax]], ce[ix[ax] + 1]
            zz = [overlap(a, b, lo, hi) for a, b in spans]
            if ns == 2:
                both = overlap(mx(spans[0][0], spans[1][0]),
                               mn(spans[0][1], spans[1][1]), lo, hi)
                zz[0] = zz[0] - both
            want = bg[k] * (hi - lo)
            for s in range(ns):
                want = want + f * zz[s] * (eps[s][k] - bg[k])
            B.eq(g.grids[k][ix] * (hi - lo), want, "volume average")
    if (n == 1 and ns == 1) or not B.symbolic:
        g.render()
        second = [[g.grids[k][ix] for ix in np.ndindex(*g.grids[k].shape)]
                  for k in range(nc)]
        for x, y in zip(first, second):
            B.eq(arr(B, x), arr(B, y), "rendering again")
    g.clear()
    if g.list_polygons or len(g.list_z):
        raise Failure("clear", "drawings remain")


def c_draw(B):
    """Outline and extent recorded for cuboids, slabs and fills."""
    ax = B.choose("extrusion", EXT)
    E = [edges(B, "xyz"[a], 2) for a in range(3)]
    g = Grid(E, ext_dir=Direction(ax))
    pd = [a for a in range(3) if a != ax]
    kind = B.choose("kind", ["cuboid", "slab", "fill_cuboid", "fill_slab",
                             "polygon"])
    c = [B.real("c%d" % a) for a in range(3)]
    x = [B.real("x%d" % a, (), pos=True) for a in range(3)]
    scalar = B.choose("eps", ["scalar", "list"])
    ev = B.real("eps")
    eps = ev if scalar == "scalar" else [ev, 2 * ev, ev + 1]
    want_eps = [ev] * 3 if scalar == "scalar" else eps
    if kind == "polygon":
        pts = B.real("pts", (3, 2))
        g.draw_polygon(arr(B, c), pts, x[ax], eps)
        poly, pe = g.list_polygons[0]
        B.eq(poly, arr(B, [[pts[i, 0] + c[pd[0]], pts[i, 1] + c[pd[1]]]
                           for i in range(3)]), "translated outline")
        B.eq(arr(B, g.list_z[0]), arr(B, [c[ax] - x[ax] / 2,
                                          c[ax] + x[ax] / 2]), "extent")
        B.eq(arr(B, pe), arr(B, want_eps), "permittivity")
        return
    d = None
    if kind == "cuboid":
        lo = [c[a] - x[a] / 2 for a in range(3)]
        hi = [c[a] + x[a] / 2 for a in range(3)]
        g.draw_cuboid(arr(B, c), arr(B, x), eps)
    else:
        d = B.choose("direction", [0, 1, 2])
        dd = Direction(d) if B.choose("as", ["enum", "int"]) == "enum" else d
        if kind == "slab":
            g.draw_slab(dd, c[d], x[d], eps)
            lo = [c[a] - x[a] / 2 for a in range(3)]
            hi = [c[a] + x[a] / 2 for a in range(3)]
        else:
            pol = B.choose("polarity", [-1, 1])
            t = B.real("t", (), pos=True)
            if B.symbolic:
                B.assume(t < E[d][-1] - E[d][0])
            elif not t < E[d][-1] - E[d][0]:
                t = 0.5 * float(E[d][-1] - E[d][0])
            s = E[d][0] + t
            if kind == "fill_slab":
                g.fill_slab(dd, pol, s, eps)
            else:
                cc = [c[a] if a != d else s for a in range(3)]
                g.fill_cuboid(dd, pol, arr(B, cc),
                              arr(B, [x[a] for a in range(3) if a != d]), eps)
            lo = [c[a] - x[a] / 2 for a in range(3)]
            hi = [c[a] + x[a] / 2 for a in range(3)]
            lo[d], hi[d] = (s, None) if pol == 1 else (None, s)
    (poly, pe), (z0, z1) = g.list_polygons[0], g.list_z[0]
    got_lo, got_hi = [None] * 3, [None] * 3
    got_lo[ax], got_hi[ax] = z0, z1
    for m in range(2):
        # a rectangle: two corners of each coordinate, opposite pairs
        v = [poly[i, m] for i in range(4)]
        l = v[0]
        for w in v[1:]:
            l = mn(l, w)
        h = v[0]
        for w in v[1:]:
            h = mx(h, w)
        got_lo[pd[m]], got_hi[pd[m]] = l, h
    area = 0
    for i in range(4):
        j = (i + 1) % 4
        area = area + poly[i, 0] * poly[j, 1] - poly[j, 0] * poly[i, 1]
    box = (got_hi[pd[0]] - got_lo[pd[0]]) * (got_hi[pd[1]] - got_lo[pd[1]])
    B.eq((area / 2)**2, box**2, "outline is the full rectangle")
    for a in range(3):
        if kind in ("slab", "fill_slab") and a != d:
            B.holds(got_lo[a] <= E[a][0], "slab spans the grid")
            B.holds(got_hi[a] >= E[a][-1], "slab spans the grid")
            continue
        if lo[a] is None:
            B.holds(got_lo[a] <= E[a][0], "fill reaches the border")
        else:
            B.eq(got_lo[a], lo[a], "lower face")
        if hi[a] is None:
            B.holds(got_hi[a] >= E[a][-1], "fill reaches the border")
        else:
            B.eq(got_hi[a], hi[a], "upper face")
    B.eq(arr(B, pe), arr(B, want_eps), "permittivity")


# ------------------------------------------------------------ exact oracle
def clip(poly, ax, lim, sign):
    out, n = [], len(poly)
    for i in range(n):
        p, q = poly[i], poly[(i + 1) % n]
        a, b = sign * (p[ax] - lim), sign * (q[ax] - lim)
        if a >= 0:
            out.append(p)
        if (a > 0 and b < 0) or (a < 0 and b > 0):
            t = a / (a - b)
            out.append(tuple(p[k] + t * (q[k] - p[k]) for k in (0, 1)))
    return out


def area(poly):
    n = len(poly)
    return abs(sum(poly[i][0] * poly[(i + 1) % n][1] -
                   poly[(i + 1) % n][0] * poly[i][1] for i in range(n))) / 2


def exact(poly, gx, gy):
    r = np.zeros((len(gx) - 1, len(gy) - 1))
    for i in range(len(gx) - 1):
        col = clip(clip(poly, 0, gx[i], 1), 0, gx[i + 1], -1)
        for j in range(len(gy) - 1):
            p = clip(clip(col, 1, gy[j], 1), 1, gy[j + 1], -1)
            if len(p) > 2:
                r[i, j] = area(p) / ((gx[i + 1] - gx[i]) *
                                     (gy[j + 1] - gy[j]))
    return r


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def _seg(a, b, c, d):
    def on(a, b, p):
        return min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and \
            min(a[1], b[1]) <= p[1] <= max(a[1], b[1])

    def sg(x):
        return (x > 0) - (x < 0)
    s = [sg(cross(a, b, c)), sg(cross(a, b, d)), sg(cross(c, d, a)),
         sg(cross(c, d, b))]
    if s[0] != s[1] and s[2] != s[3]:
        return True
    return (s[0] == 0 and on(a, b, c)) or (s[1] == 0 and on(a, b, d)) or \
        (s[2] == 0 and on(c, d, a)) or (s[3] == 0 and on(c, d, b))


def simple(q):
    n = len(q)
    if area(q) == 0:
        return False
    for i in range(n):
        for j in range(i + 1, n):
            if j == i + 1 or (i == 0 and j == n - 1):
                continue
            if _seg(q[i], q[(i + 1) % n], q[j], q[(j + 1) % n]):
                return False
    # consecutive edges may not fold back
    for i in range(n):
        a, b, c = q[i], q[(i + 1) % n], q[(i + 2) % n]
        if cross(a, b, c) == 0 and (a[0] - b[0]) * (c[0] - b[0]) + \
                (a[1] - b[1]) * (c[1] - b[1]) > 0:
            return False
    return True


def one_raster(p, gx, gy):
    P = np.array([[float(c) for c in q] for q in p]).T
    X, Y = np.array([float(v) for v in gx]), np.array([float(v) for v in gy])
    keep = P.copy()
    try:
        r = fr.raster_2D(P, X, Y)
    except Exception as e:  # noqa
        raise Failure("raster_2D", "polygon %r on %r x %r raised %r" %
                      (P.T.tolist(), X.tolist(), Y.tolist(), e))
    w = exact(p, gx, gy)
    if r.shape != w.shape or not np.allclose(r, w, atol=1e-9):
        raise Failure("raster_2D", "polygon %r on %r x %r gives %s, exact "
                      "coverage %s" % (P.T.tolist(), X.tolist(), Y.tolist(),
                                       r, w))
    if not np.array_equal(keep, P):
        raise Failure("raster_2D", "changed the polygon")
    return r


GRIDS = [([0, 1, F(5, 2)], [0, F(3, 2), 2]), ([0, 2], [0, 2]),
         ([0, F(1, 2), 1, 2], [F(1, 4), 1])]


def b_raster(tier, seed):
    rng = random.Random(seed)
    ev, seen = 0, 0
    pts = [(F(x), F(y)) for x in (-1, 0, F(1, 2), 1, 2, 3)
           for y in (-1, 0, 1, F(3, 2), 3)]
    tri = [t for t in itertools.combinations(pts, 3) if cross(*t) != 0]
    tri = tri if tier != "quick" else rng.sample(tri, 900)
    for gx, gy in GRIDS:
        gx, gy = [F(v) for v in gx], [F(v) for v in gy]
        for t in tri:
            one_raster(list(t), gx, gy)
            ev += 1
    n = 700 if tier == "quick" else 8000
    while seen < n:
        k = rng.choice([4, 4, 5, 6])
        style = rng.random()
        if style < 0.6:
            p = rng.sample(pts, k)
        else:
            p = [(F(rng.randint(-40, 120), 32), F(rng.randint(-40, 120), 32))
                 for _ in range(k)]
        if not simple(p):
            continue
        if rng.random() < 0.5:
            gx, gy = rng.choice(GRIDS)
        else:
            gx = sorted(set(F(rng.randint(-16, 80), 32) for _ in range(5)))
            gy = sorted(set(F(rng.randint(-16, 80), 32) for _ in range(4)))
            if len(gx) < 2 or len(gy) < 2:
                continue
        gx, gy = [F(v) for v in gx], [F(v) for v in gy]
        s = rng.randrange(k)
        r = one_raster(p, gx, gy)
        for q in (p[s:] + p[:s], p[::-1]):
            r2 = fr.raster_2D(np.array([[float(c) for c in v]
                                        for v in q]).T,
                              np.array([float(v) for v in gx]),
                              np.array([float(v) for v in gy]))
            if not np.allclose(r, r2, atol=1e-9):
                raise Failure("orientation", "polygon %r: %s and %s" %
                              ([tuple(map(float, v)) for v in p], r, r2))
        seen += 1
        ev += 3
    return dict(evaluations=ev, distinct=ev, samples=[
        "%d triangles on a lattice x %d grids" % (len(tri), len(GRIDS)),
        "%d random simple polygons, rotated and reversed" % n])


def rect_union_average(g, comp, boxes, bg):
    """Exact average: later boxes replace earlier ones."""
    E = [g.shifted_exyz(comp, GridType.COMP)[a] for a in range(3)]
    out = np.zeros(tuple(g.shape), complex)
    for ix in np.ndindex(*out.shape):
        lo = [E[a][ix[a]] for a in range(3)]
        hi = [E[a][ix[a] + 1] for a in range(3)]
        cuts = []
        for a in range(3):
            c = {lo[a], hi[a]}
            for b0, b1, _ in boxes:
                for v in (b0[a], b1[a]):
                    if lo[a] < v < hi[a]:
                        c.add(v)
            cuts.append(sorted(c))
        tot = 0
        for i, j, k in np.ndindex(*[len(c) - 1 for c in cuts]):
            m = [(cuts[a][q] + cuts[a][q + 1]) / 2
                 for a, q in enumerate((i, j, k))]
            v = bg[ix] if np.ndim(bg) else bg
            for b0, b1, e in boxes:
                if all(b0[a] < m[a] < b1[a] for a in range(3)):
                    v = e
            vol = np.prod([cuts[a][q + 1] - cuts[a][q]
                           for a, q in enumerate((i, j, k))])
            tot += v * vol
        out[ix] = tot / np.prod([hi[a] - lo[a] for a in range(3)])
    return out


def b_render(tier, seed):
    rng = np.random.RandomState(seed)
    ev = 0
    for it in range(25 if tier == "quick" else 300):
        shape = rng.randint(1, 5, size=3)
        E = [np.cumsum(rng.randint(1, 7, size=s + 1)) * 0.125 -
             rng.randint(3) for s in shape]
        ax = rng.randint(3)
        per = bool(rng.randint(2))
        bgs = [rng.normal() + 1j * rng.normal() for _ in range(3)]
        if rng.randint(2):
            bgs = [rng.normal(size=tuple(shape)) + 0j for _ in range(3)]
        keep = [np.array(b) for b in bgs]
        g = Grid(E, ext_dir=Direction(ax), initial=list(bgs), periodic=per)
        boxes = []
        hist = []
        for step in range(rng.randint(1, 5)):
            kind = rng.randint(5)
            lo = np.array([rng.randint(-30, 20) * 0.0625 for _ in range(3)])
            sz = np.array([rng.randint(1, 30) * 0.0625 for _ in range(3)])
            e = rng.normal(size=3)
            e = e[0] if rng.randint(2) else e
            if kind == 0 and step:
                g.render()
                hist.append("render")
                continue
            if kind == 1 and step:
                g.clear()
                boxes = []
                hist.append("clear")
                continue
            if kind == 2:
                d = rng.randint(3)
                g.draw_slab(Direction(d), lo[d] + sz[d] / 2, sz[d], e)
                b0 = np.full(3, -1e6)
                b1 = np.full(3, 1e6)
                b0[d], b1[d] = lo[d], lo[d] + sz[d]
                boxes.append((b0, b1, e))
                hist.append("slab %d %r %r" % (d, lo[d], sz[d]))
            else:
                g.draw_cuboid(lo + sz / 2, sz, e)
                boxes.append((lo, lo + sz, e))
                hist.append("box %r %r" % (lo.tolist(), sz.tolist()))
        if not boxes:
            continue
        g.render()
        got = np.array(g.grids)
        g.render()
        if not np.allclose(got, g.grids, atol=1e-12):
            raise Failure("rendering again", "history %r" % hist)
        for n in range(3):
            want = rect_union_average(
                g, n, [(a, b, c if np.ndim(c) == 0 else c[n])
                       for a, b, c in boxes], keep[n])
            if not np.allclose(got[n], want, atol=2e-3, rtol=2e-3):
                raise Failure("volume average", "edges %r, extrusion %d, "
                              "component %d, history %r: %s, exact %s" %
                              ([x.tolist() for x in E], ax, n, hist, got[n],
                               want))
            ev += 1
        if any(not np.array_equal(a, b) for a, b in zip(keep, bgs)):
            raise Failure("background", "rendering changed the caller's "
                          "background array; history %r" % hist)
    return dict(evaluations=ev, distinct=ev, samples=[
        "random grids up to 4 cells per axis, up to 4 overlapping boxes and "
        "slabs, renders and clears in between"])


def b_polygon(tier, seed):
    """One drawn polygon or cylinder against exact clipping."""
    rng = random.Random(seed)
    ev = 0
    for it in range(25 if tier == "quick" else 250):
        ax = rng.randrange(3)
        pd = [a for a in range(3) if a != ax]
        E = [[F(0)], [F(0)], [F(0)]]
        for a in range(3):
            for _ in range(rng.randint(1, 4)):
                E[a].append(E[a][-1] + F(rng.randint(1, 4), 2))
        while True:
            k = rng.randint(3, 6)
            p = [(F(rng.randint(-16, 64), 16), F(rng.randint(-16, 64), 16))
                 for _ in range(k)]
            if simple(p):
                break
        z, t = F(rng.randint(-8, 40), 8), F(rng.randint(1, 24), 8)
        eps, bg = 3.5 - 1j, 1.25
        g = Grid([np.array([float(v) for v in e]) for e in E],
                 ext_dir=Direction(ax), initial=bg)
        c = [F(rng.randint(-4, 4), 4) for _ in range(3)]
        c[ax] = z
        g.draw_polygon([float(v) for v in c],
                       [[float(v) for v in q] for q in p], float(t), eps)
        g.render(disable_intersection=bool(rng.randrange(2)))
        moved = [(q[0] + c[pd[0]], q[1] + c[pd[1]]) for q in p]
        for n in range(3):
            CE = [[F(float(v)) for v in
                   g.shifted_exyz(n, GridType.COMP)[a]][:len(E[a])]
                  for a in range(3)]
            CE = [[F(float(v)) for v in g.shifted_exyz(n, GridType.COMP)[a]]
                  for a in range(3)]
            S = [int(v) for v in g.shape]
            xy = exact(moved, CE[pd[0]][:S[pd[0]] + 1],
                       CE[pd[1]][:S[pd[1]] + 1])
            zf = np.array([float(max(F(0), min(z + t / 2, CE[ax][i + 1]) -
                                     max(z - t / 2, CE[ax][i])) /
                                 (CE[ax][i + 1] - CE[ax][i]))
                           for i in range(S[ax])])
            w = np.moveaxis(xy[:, :, None] * zf, 2, ax)
            want = bg + (eps - bg) * w
            if not np.allclose(g.grids[n], want, atol=1e-8):
                raise Failure("polygon average", "polygon %r centre %r "
                              "thickness %r extrusion %d component %d on %r: "
                              "%s, exact %s" %
                              ([tuple(map(float, q)) for q in p],
                               list(map(float, c)), float(t), ax, n,
                               [list(map(float, e)) for e in E],
                               g.grids[n], want))
            ev += 1
    # cylinders: area of the inscribed polygon, all of it inside the radius
    for npts in (4, 7, 16, 50):
        g = Grid([np.linspace(-2, 2, 9)] * 3)
        g.draw_cylinder([0.1, -0.2, 0.3], 1.1, 1.0, npts, 2.0)
        p = g.list_polygons[0][0] - np.array([0.1, -0.2])
        if not np.allclose(np.hypot(p[:, 0], p[:, 1]), 1.1):
            raise Failure("cylinder", "outline off the circle")
        g.render()
        m = npts - 1
        vol = m / 2 * np.sin(2 * np.pi / m) * 1.1**2
        for n in range(3):
            d = [np.diff(g.shifted_exyz(n, GridType.COMP)[a])[:8]
                 for a in range(3)]
            tot = np.einsum("ijk,i,j,k", g.grids[n] - 1, *d)
            if abs(tot - vol) > 1e-6:
                raise Failure("cylinder", "rendered volume %r of a %d-gon, "
                              "exact %r" % (tot, m, vol))
            ev += 1
    return dict(evaluations=ev, distinct=ev, samples=[
        "random simple polygons up to 6 vertices with offset centres",
        "cylinders of 4 to 50 points"])


def b_slice(tier, seed):
    """A slice interpolates linearly between neighbouring planes."""
    rng = np.random.RandomState(seed)
    ev = 0
    for it in range(40 if tier == "quick" else 400):
        shape = rng.randint(2, 6, size=3)
        E = [np.cumsum(rng.uniform(0.2, 1, size=s + 1)) for s in shape]
        g = Grid(E)
        g.grids = rng.normal(size=(3, ) + tuple(shape)) + 1j * rng.normal(
            size=(3, ) + tuple(shape))
        a, n = rng.randint(3), rng.randint(3)
        pos = g.shifted_exyz(n)[a]
        c = rng.uniform(g.xyz[a][0], min(pos[shape[a] - 1], g.xyz[a][-1]))
        if c < pos[0] or c < g.xyz[a][0]:
            continue
        sp = int(rng.randint(1, 4))
        s = g.get_slice(Direction(a), c, n, sp)
        i = min(int(np.searchsorted(pos, c, side="right")) - 1, shape[a] - 2)
        f = (c - pos[i]) / (pos[i + 1] - pos[i])
        m = np.moveaxis(np.array(g.grids[n]), a, 0)
        want = np.squeeze(((1 - f) * m[i] + f * m[i + 1])[::sp, ::sp])
        if s.shape != want.shape or not np.allclose(s, want):
            raise Failure("get_slice", "edges %r axis %d component %d centre "
                          "%r period %d" % ([x.tolist() for x in E], a, n, c,
                                            sp))
        ev += 1
    return dict(evaluations=ev, distinct=ev, samples=[
        "random complex grids, positions and sample periods"])


ITEMS = [
    Contract("raster_1D", c_raster_1D, [R + "raster_1D"], sym="obj",
             num=(400, 4000), max_instances=400, budget=200),
    Contract("intersections", c_intersections, [R + "_compute_intersections"],
             sym="obj", num=(200, 2000)),
    Contract("raster_2D.pixels", c_accumulate, [R + "raster_2D"], sym="obj",
             num=(200, 2000), budget=200),
    Contract("draw", c_draw, [G + "draw_cuboid", G + "draw_polygon",
                              G + "draw_slab", G + "fill_cuboid",
                              G + "fill_slab"], sym="obj", num=(300, 2000),
             max_instances=400),
    Bounded("raster_2D.exact", b_raster,
            [R + "raster_2D", R + "_expand_polygon_vertices"],
            bound="lattice triangles and random simple polygons up to 6 "
            "vertices, grids up to 4 x 4 pixels, exact rational oracle"),
    Bounded("render.boxes", b_render, [G + "render", G + "draw_cuboid",
                                       G + "draw_slab"],
            bound="random boxes on grids up to 4 cells per axis"),
    Bounded("render.polygons", b_polygon, [G + "draw_polygon",
                                           G + "draw_cylinder"],
            bound="random simple polygons up to 6 vertices"),
    Bounded("get_slice", b_slice, [G + "get_slice"],
            bound="random grids up to 5 cells per axis"),
]

RENDER = [("1 cell", (1, ), 1, ALLEN), ("2 cells", (2, ), 1, ALLEN),
          ("3 cells", (3, ), 1, ALLEN)]
RENDER += [("two boxes %d" % (q + 1), (1, ), 2, ALLEN[q::5])
           for q in range(5)]
for nm, cells, boxes, layouts in RENDER:
    ITEMS.append(Contract(
        "render." + nm, c_render(cells, boxes, layouts),
        [G + "render", G + "render_polygon", G + "compute_layers", G + "clear",
         G + "remove_intersection"], sym="obj", num=(60, 600),
        max_instances=400, budget=400))
