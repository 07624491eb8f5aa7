"""C17: grating edges, pixels, feature rules and discretisation."""
import itertools
import math

import numpy as np

from vc.run import Contract, Bounded
from vc.harness import Failure
from vc import sym
from vc.facade import concrete

from spins import goos
from spins.goos import grating as gg, flows
from spins.invdes import parametrization
from spins.invdes.parametrization import grating_parametrization as gp
from spins.invdes.problem import grating as pg
from spins.invdes.problem_graph import grating as dg

LEVEL = "proof"
TECHNIQUE = ("contracts on the real grating code executed with symbolic edges "
             "(pixel lookups forked), symbolic profiles for the discretising "
             "search (every comparison forked) on enumerated small sizes; "
             "normal form and z3; larger searches against exhaustive "
             "enumeration of the admissible edge sets")
ASSUMPTIONS = [
    "edges are in ascending order (gratings keep them sorted); pixel counts "
    "and edge counts enumerated up to 4",
    "the last pixel is cut 1e-5 pixel short by the multi-etch projection; "
    "values are claimed up to that",
    "the numerical Jacobian of the multi-etch grating is claimed where no "
    "edge lies within its step of a pixel boundary",
    "an admissible edge set of the multi-level search has at least one edge; "
    "neither search bounds the first and last segment from below, except "
    "that the two-level one keeps the first segment at least one feature "
    "long",
    "minimum features are at least one pixel (smaller ones are rejected)",
]
G = "spins/goos/grating.py:"
P = "spins/invdes/parametrization/grating_parametrization.py:GratingParam."
C = "spins/invdes/problem/grating.py:GratingFeatureConstraint."
D = "spins/invdes/problem_graph/grating.py:"


def arr(B, xs):
    if B.symbolic:
        from vc.arrays import oarr
        return oarr(np.array(list(xs), dtype=object))
    return np.array(list(xs), dtype=float)


def mx(a, b):
    return a if bool(a >= b) else b


def mn(a, b):
    return a if bool(a <= b) else b


def cover(a, b, p):
    """Part of pixel p in [a, b]."""
    lo, hi = mx(a, p), mn(b, p + 1)
    return hi - lo if bool(hi > lo) else 0 * lo


def ascending(B, n, lo, hi, tag="e", gap=None):
    """n ascending edges in [lo, hi]."""
    if B.symbolic:
        xs = []
        for i in range(n):
            x = B.real("%s%d" % (tag, i))
            B.assume(x >= (xs[-1] if xs else lo))
            xs.append(x)
        B.assume(xs[-1] <= hi)
        return arr(B, xs)
    u = np.sort([B.choose("%s%d" % (tag, i), [
        0.0, 0.1, 0.26, 0.33, 0.5, 0.62, 0.77, 0.9, 1.0]) for i in range(n)])
    if B.choose("align", [0, 0, 1]):
        return np.clip(np.round(lo + u * (hi - lo)), lo, hi)
    return lo + u * (hi - lo)


def c_param(ne, npix):
    def c(B):
        """Each pixel of a GratingParam is its covered fraction."""
        inv = B.choose("inverted", [False, True])
        e = ascending(B, ne, -1, npix + 1)
        p = gp.GratingParam([0.0] * ne, npix, inv)
        p._edges = e
        z = p.get_structure()
        if np.shape(z) != (npix, ):
            raise Failure("shape", repr(np.shape(z)))
        for k in range(npix):
            w = 0
            for i in range(0, ne, 2):
                w = w + cover(e[i], e[i + 1], k)
            B.eq(z[k], 1 - w if inv else w, "pixel")
    return c


def c_param_jac(ne, npix):
    def c(B):
        """The Jacobian is the derivative of the covered fraction."""
        inv = B.choose("inverted", [False, True])
        e = ascending(B, ne, -1, npix + 1)
        p = gp.GratingParam([0.0] * ne, npix, inv)
        p._edges = e
        J = p.calculate_gradient()
        if np.shape(J) != (npix, ne):
            raise Failure("shape", repr(np.shape(J)))
        for k in range(npix):
            for j in range(ne):
                ins = bool(e[j] >= k) and bool(e[j] < k + 1)
                s = (-1 if j % 2 == 0 else 1) * (-1 if inv else 1)
                B.eq(J[k, j], s if ins else 0, "derivative")
    return c


def multi(dims, heights):
    return gg.MultiEtchEdgeParametrization(dims, 1 - np.flip(heights),
                                           [0, 1], [0, 0])


def c_raster(ne, npix):
    def c(B):
        """Holes between pairs of edges."""
        e = ascending(B, ne, 0, npix - 0.0001)
        p = multi([npix, 1], [0, 1])
        z = p.build_rasterized_1D(list(e))
        for k in range(npix):
            w = 0
            for i in range(0, ne, 2):
                w = w + cover(e[i], e[i + 1], k)
            B.eq(z[k], 1 - w, "pixel")
    return c


def c_levels(B):
    """Every level gets the holes of all segments at or below it."""
    nl = B.choose("levels", [1, 2, 3])
    ne = B.choose("edges", [1, 2, 3])
    lv = [B.choose("l%d" % i, list(range(nl))) for i in range(ne)] + [nl]
    e = B.real("e", (ne + 1, ))
    p = multi([4, 2], list(np.linspace(0, 1, nl)) if nl > 1 else [0.5])
    p.vector, p.levels = e, np.array(lv)
    got = list(p.get_level_vecs())
    if len(got) != nl:
        raise Failure("levels", repr(got))
    n = 0
    for k in range(nl):
        # holes of level k: maximal runs of segments with level <= k
        want, inside = [], False
        for i, l in enumerate(lv):
            if (l <= k) != inside:
                want.append(e[i])
                inside = l <= k
        g = got[nl - 1 - k]
        if len(g) != len(want):
            raise Failure("holes", "levels %r: %d edges for level %d" %
                          (lv, len(g), k))
        for a, b in zip(g, want):
            B.eq(a, b, "edge of level %d" % k)
            n += 1
    if not n:
        B.eq(0.0, 0.0, "no holes")


HEIGHTS = [(1, [0, 1]), (2, [0, 0.5, 1]), (4, [0.4, 1]), (1, [0.4, 0.7, 1]),
           (2, [0.1, 0.35, 0.8]), (3, [0.25, 0.3, 0.9]), (1, [0.5])]


def c_layers(B):
    """Along the etch direction every pixel averages the layers in it."""
    nz, hts = B.choose("heights", HEIGHTS)
    npix = B.choose("pixels", [1, 2])
    p = multi([npix, nz], hts)
    r = [B.real("r%d" % k, (npix, )) for k in range(len(hts))]
    p.get_level_vecs = lambda: list(range(len(hts)))
    p.build_rasterized_1D = lambda v: r[v]
    z = p.get_structure()
    if np.shape(z) != (npix * nz, ):
        raise Failure("shape", repr(np.shape(z)))
    dep = [0] + [nz * (1 - h) for h in reversed(hts)] + [nz]
    for i in range(npix):
        for k in range(nz):
            w = 0
            for m in range(len(dep) - 1):
                o = max(0, min(dep[m + 1], k + 1) - max(dep[m], k))
                w = w + o * (r[m][i] if m < len(hts) else 1)
            if B.symbolic:
                d = z[i + npix * k] - w
                # decimal heights are binary fractions only to rounding
                d = sym.as_s(d)
                B.eq(trim(d), 0, "pixel")
            else:
                B.eq(z[i + npix * k], w, "pixel")


def trim(d):
    """Drops coefficients below rounding from a difference."""
    from vc import prove
    return prove.round_coeffs(d) if hasattr(prove, "round_coeffs") else d


def c_jac(B):
    """The Jacobian by differences is exact away from pixel boundaries."""
    npix = B.choose("pixels", [2, 3])
    ne = 2
    p = multi([npix, 1], [0, 1])
    ks = [B.choose("k%d" % i, list(range(npix))) for i in range(ne)]
    if ks[0] > ks[1]:
        return B.eq(0.0, 0.0, "skip")
    m = 1e-4
    if B.symbolic:
        t = [B.real("t%d" % i) for i in range(ne)]
        for x in t:
            B.assume(x >= m)
            B.assume(x <= 1 - m)
        e = [ks[0] + t[0], ks[1] + t[1]]
        B.assume(e[1] - e[0] >= m)
    else:
        e = [ks[0] + B.choose("t0", [0.1, 0.45]),
             ks[1] + B.choose("t1", [0.55, 0.9])]
    p.vector, p.levels = arr(B, e), np.array([0, 2])
    J = p.calculate_gradient()
    if np.shape(J) != (npix, ne):
        raise Failure("shape", repr(np.shape(J)))
    for k in range(npix):
        for j in range(ne):
            B.eq(J[k, j], (1 if j == 0 else -1) if ks[j] == k else 0,
                 "derivative")


def c_pixelated(B):
    """PixelatedGrating: value and pulled back gradient along any axis."""
    gdir, edir = B.choose("axes", [(0, 2), (1, 2), (0, 1), (2, 0)])
    pol = B.choose("polarity", [1, -1])
    locs = B.choose("edge locations", [False, True])
    nz = B.choose("divisions", [1, 2])
    n = 3
    ext = [5.0, 5.0, 5.0]
    dx = 0.5
    ext[gdir] = n * dx
    ext[edir] = 1.0
    hts = [0.0, 1.0] if nz == 1 else [0.0, 0.5, 1.0]
    with goos.OptimizationPlan():
        node = gg.PixelatedGrating(
            goos.Constant([0.1, 0.2]), goos.Constant([0, 1]), hts,
            [1.0, 2.0, 3.0], ext, goos.material.Material(index=1),
            goos.material.Material(index=2), gdir, dx, edir, nz, pol, locs)
    S = B.real("S", (n * nz, ))
    J = B.real("J", (n * nz, 4))
    e = B.real("e", (2, ))
    G = B.real("G", tuple(node._value_shape))
    seen = {}

    class Stub:
        levels = None

        def from_vector(self, v):
            seen["v"], seen["l"] = v, self.levels

        def get_structure(self):
            return S

        def calculate_gradient(self):
            return J
    node._param = Stub()
    lv = np.array([0, 1])
    ins = [flows.NumericFlow(e), flows.NumericFlow(lv)]
    out = node.eval(ins)
    w = [e[0], e[1]] if locs else [e[0], e[0] + e[1]]
    B.eq(seen["v"], arr(B, [x / dx for x in [0, w[0], w[1], n * dx]]),
         "edges in pixels")
    if list(seen["l"]) != [len(hts), 0, 1, len(hts)]:
        raise Failure("levels", repr(seen["l"]))
    shp = [1, 1, 1]
    shp[gdir], shp[edir] = n, nz
    if tuple(np.shape(out.array)) != tuple(shp):
        raise Failure("shape", repr(np.shape(out.array)))
    B.eq(arr(B, out.pos), arr(B, [1.0, 2.0, 3.0]), "position")
    B.eq(arr(B, out.extents), arr(B, ext), "extents")
    ps = list(ext)
    ps[gdir], ps[edir] = dx, 1.0 / nz
    B.eq(arr(B, out.pixel_size), arr(B, ps), "pixel size")
    grads = node.grad(ins, goos.PixelatedContShapeFlow.Grad(array_grad=G))
    if len(grads) != 2 or grads[1] is not None:
        raise Failure("gradients", repr(grads))
    ge = [0, 0]
    for i in range(n):
        for k in range(nz):
            ix = [0, 0, 0]
            ix[gdir], ix[edir] = i, k if pol > 0 else nz - 1 - k
            B.eq(out.array[tuple(ix)], S[i + n * k], "pixel")
            for j in range(2):
                ge[j] = ge[j] + G[tuple(ix)] * J[i + n * k, j + 1] / dx
    if not locs:
        ge = [ge[0] + ge[1], ge[1]]
    B.eq(grads[0].array_grad, arr(B, ge), "gradient")


def c_edgeloc(B):
    """Feature constraints of edge locations and their gradient."""
    n = B.choose("edges", [1, 2, 3, 4])
    per = B.choose("features", ["scalar", "per level"])
    L = B.real("L", (), pos=True)
    mf = B.real("mf", (2, ), pos=True)
    lv = [B.choose("l%d" % i, [0, 1]) for i in range(n)]
    with goos.OptimizationPlan():
        node = gg.EdgeLocConstraint(
            goos.Constant([0.0]), goos.Constant([0]),
            [mf[0], mf[1]] if per == "per level" else 1.25, L)
    v = B.real("v", (n, ))
    ins = [flows.NumericFlow(v), flows.NumericFlow(np.array(lv))]
    out = node.eval(ins).array
    want = []
    for i in range(n - 1):
        m = mf[lv[i]] if per == "per level" else 1.25
        want.append(m - (v[i + 1] - v[i]))
    want += [0 - v[0], v[n - 1] - L]
    if np.shape(out) != (n + 1, ):
        raise Failure("shape", repr(np.shape(out)))
    B.eq(out, arr(B, want), "constraints")
    g = B.real("g", (n + 1, ))
    r = node.grad(ins, flows.NumericFlow.Grad(g))
    if len(r) != 2 or r[1] is not None:
        raise Failure("gradients", repr(r))
    ge = [0] * n
    for i in range(n - 1):
        ge[i] = ge[i] + g[i]
        ge[i + 1] = ge[i + 1] - g[i]
    ge[0] = ge[0] - g[n - 1]
    ge[n - 1] = ge[n - 1] + g[n]
    B.eq(r[0].array_grad, arr(B, ge), "gradient")
    n2 = B.choose("next size", [2, 3])
    v2 = B.real("v2", (n2, ))
    g2 = B.real("g2", (n2 + 1, ))
    r2 = node.grad([flows.NumericFlow(v2), ins[1]], flows.NumericFlow.Grad(g2))
    ge = [0] * n2
    for i in range(n2 - 1):
        ge[i] = ge[i] + g2[i]
        ge[i + 1] = ge[i + 1] - g2[i]
    ge[0] = ge[0] - g2[n2 - 1]
    ge[n2 - 1] = ge[n2 - 1] + g2[n2]
    B.eq(r2[0].array_grad, arr(B, ge), "gradient after a change of size")


class FakeGrating:
    def __init__(self, v, n):
        self.v, self._num_pixels = v, n

    def to_vector(self):
        return self.v


def c_feature(B):
    """Feature constraints of GratingParam (also in composites)."""
    comp = B.choose("composite", [False, True])
    ns = [B.choose("edges%d" % k, [2, 4]) for k in range(2 if comp else 1)]
    mf, sc = B.real("mf", (), pos=True), B.real("sc", (), pos=True)
    con = pg.GratingFeatureConstraint(1.0, 2.0)
    con._min_feature, con._edge_cons_scale = mf, sc
    subs, want, blocks = [], [], []
    for k, n in enumerate(ns):
        v = B.real("v%d" % k, (n, ))
        N = 7 + k
        subs.append(FakeGrating(v, N))
        want += [mf - (v[i + 1] - v[i]) for i in range(n - 1)]
        want += [sc * mf - v[0], v[n - 1] - (N - sc * mf)]
        Jb = np.zeros((n + 1, n))
        for i in range(n - 1):
            Jb[i, i], Jb[i, i + 1] = 1, -1
        Jb[n - 1, 0], Jb[n, n - 1] = -1, 1
        blocks.append(Jb)
    if comp:
        par = parametrization.CompositeParam.__new__(
            parametrization.CompositeParam)
        par._params = subs
    else:
        par = subs[0]
    out = con.calculate_objective_function(par)
    if np.shape(out) != (len(want), ):
        raise Failure("shape", repr(np.shape(out)))
    B.eq(out, arr(B, want), "constraints")
    J = con.calculate_gradient(par)
    import scipy.linalg
    with concrete():
        W = scipy.linalg.block_diag(*blocks)
    if tuple(np.shape(J)) != W.shape:
        raise Failure("Jacobian shape", repr(np.shape(J)))
    for ix in np.ndindex(*W.shape):
        B.eq(J[ix], float(W[ix]), "Jacobian")


def c_barcode(B):
    """One box per tooth, of the tooth's width and height."""
    ax, ez = B.choose("axes", [(0, 2), (1, 2), (0, 1), (2, 0)])
    n = B.choose("teeth", [1, 2, 3])
    one = B.choose("one height", [False, True])
    with goos.OptimizationPlan():
        node = gg.BarcodeGrating(goos.Constant([0.0]), goos.Constant([1.0]),
                                 [1.0, 2.0, 3.0], [2.0, 4.0, 8.0],
                                 goos.material.Material(index=2), ax, ez)
    pos, ext = [1.0, 2.0, 3.0], [2.0, 4.0, 8.0]
    e = B.real("e", (n + 1, ))
    h = B.real("h", (1 if one else n, ))
    fixed = gg
    out = node.eval([flows.NumericFlow(e), flows.NumericFlow(h)])
    if len(out) != n:
        raise Failure("boxes", "%d boxes" % len(out))
    for i in range(n):
        p, x = list(pos), list(ext)
        p[ax] = pos[ax] - ext[ax] / 2 + ext[ax] * (e[i] + e[i + 1]) / 2
        x[ax] = ext[ax] * (e[i + 1] - e[i])
        x[ez] = x[ez] * (h[0] if one else h[i])
        B.eq(out[i].pos, arr(B, p), "position")
        B.eq(out[i].extents, arr(B, x), "extents")


# discretisation --------------------------------------------------------------


def raster(edges, levels, hx, start, n):
    """Pixel averages of the grating with the given levels after the edges."""
    r = [0.0] * n
    e = [0] + list(edges) + [n]
    l = [start] + list(levels)
    for a, b, k in zip(e, e[1:], l):
        for p in range(n):
            r[p] += hx[k] * max(0, min(b, p + 1) - max(a, p))
    return r


def admissible(n, div, dmin, dmax, nl, start, end):
    K = n * div

    def rec(k, l, edges, levels):
        if l == end and K - k <= dmax[end]:
            yield edges, levels
        for k2 in range(k + dmin[l], min(K, k + dmax[l]) + 1):
            for l2 in range(nl):
                if l2 != l:
                    yield from rec(k2, l2, edges + [k2 / div], levels + [l2])
    for k in range(0, min(K, dmax[start]) + 1):
        for l in range(nl):
            if l != start:
                yield from rec(k, l, [k / div], [l])


def rules(edges, levels, n, div, dmin, dmax, start, end):
    """None if the edges meet the rules, else what is broken."""
    k = [int(round(e * div)) for e in edges]
    if not k or len(k) != len(levels) or levels[-1] != end:
        return "edges and levels"
    if any(abs(a / div - e) > 1e-9 for a, e in zip(k, edges)):
        return "edges off the search grid"
    l = [start] + [int(x) for x in levels]
    if any(a == b for a, b in zip(l, l[1:])):
        return "repeated level"
    if k[0] < 0 or k[-1] > n * div or k[0] > dmax[start] or \
            n * div - k[-1] > dmax[end]:
        return "first or last segment"
    for i in range(len(k) - 1):
        if not dmin[l[i + 1]] <= k[i + 1] - k[i] <= dmax[l[i + 1]]:
            return "segment %d" % i
    return None


def c_general(n, div, hx, mf, Mf, se):
    nl = len(hx)

    def c(B):
        """The multi-level search returns a best admissible edge set."""
        start, end = se
        dmin = [math.ceil(m * div) for m in mf]
        dmax = [math.floor(m * div) for m in Mf]
        x = B.real("x", (n, ))
        if B.symbolic:
            for i in range(n):
                B.assume(x[i] >= 0)
                B.assume(x[i] <= 1)
        else:
            x = np.abs(x) % 1.0
        e, l = gg._get_general_edge_loc_dp(x, hx, mf, Mf, start, end, div)
        sets = list(admissible(n, div, dmin, dmax, nl, start, end))
        if not sets:
            return B.eq(0.0, 0.0, "nothing admissible")
        bad = rules(e, l, n, div, dmin, dmax, start, end)
        if bad:
            raise Failure("rules", "%s: edges %r levels %r" % (bad, e, l))

        def cost(e, l):
            # without the common x^2
            c = 0
            for i, r in enumerate(raster(e, l, hx, start, n)):
                r = float(round(r * 1e6) / 1e6)
                if B.symbolic:
                    from fractions import Fraction as F
                    r = sym.as_s(F(r).limit_denominator(10**6))
                c = c + r * r - 2 * r * x[i]
            return c
        mine = cost(e, l)
        seen = set()
        for e2, l2 in sets:
            key = tuple(round(v, 9) for v in raster(e2, l2, hx, start, n))
            if key in seen:
                continue
            seen.add(key)
            d = cost(e2, l2) - mine
            B.holds(d >= 0 if B.symbolic else bool(d >= -1e-9),
                    "no better edge set")
    return c


def b_general(tier, seed):
    rng = np.random.default_rng(seed)
    ev = 0
    for t in range(60 if tier == "quick" else 800):
        n = int(rng.integers(2, 5 if t % 3 else 6))
        div = int(rng.integers(1, 4)) if n < 5 else 1
        hx = [0, 1] if t % 2 else [0, .4, 1]
        nl = len(hx)
        start, end = (int(v) for v in rng.integers(nl, size=2))
        mf = [float(v) for v in rng.choice([1, 1.5, 1.2, 2], nl)]
        Mf = [float(v) for v in rng.choice([2, 2.5, 3, 100], nl)]
        dmin = [math.ceil(m * div) for m in mf]
        dmax = [math.floor(m * div) for m in Mf]
        x = rng.random(n)
        if t % 5 == 0:
            x = np.round(x)
        args = [mf, Mf]
        if t % 7 == 3:
            args = [mf[0], None if t % 2 else Mf[0]]
            dmin = [math.ceil(mf[0] * div)] * nl
            dmax = [math.floor((2**30 if t % 2 else Mf[0]) * div)] * nl
        sets = list(admissible(n, div, dmin, dmax, nl, start, end))
        e, l = gg._get_general_edge_loc_dp(list(x), hx, args[0], args[1],
                                           start, end, div)
        if not sets:
            continue
        ev += 1
        bad = rules(e, l, n, div, dmin, dmax, start, end)
        what = "profile %r depths %r min %r max %r start %d end %d " \
            "divisions %d" % (list(x), hx, args[0], args[1], start, end, div)
        if bad:
            raise Failure("rules", "%s: %s: edges %r levels %r" %
                          (what, bad, e, l))
        cost = [np.sum((np.array(raster(a, b, hx, start, n)) - x)**2)
                for a, b in sets]
        k = int(np.argmin(cost))
        mine = np.sum((np.array(raster(e, l, hx, start, n)) - x)**2)
        if mine > cost[k] + 1e-9:
            raise Failure("a better edge set exists", "%s: edges %r levels %r "
                          "(error %g), better %r %r (error %g)" %
                          (what, e, l, mine, sets[k][0], sets[k][1], cost[k]))
    return dict(evaluations=ev, distinct=ev,
                samples=["_get_general_edge_loc_dp vs enumeration"])


def two_level_sets(n, d, div=5):
    K = n * div

    def rec(r, edges):
        yield edges
        for f in range(r + d, K + 1):
            for k in range(f + d, K + 1):
                yield from rec(k, edges + [f / div, k / div])
    for k in range(d, K):
        yield from rec(k, [0, k / div])
    for f in range(d, K + 1):
        for k in range(f + d, K + 1):
            yield from rec(k, [f / div, k / div])


def b_two_level(tier, seed):
    """GratingEdgeDiscretization against every admissible edge set."""
    rng = np.random.default_rng(seed)
    ev = 0
    for t in range(40 if tier == "quick" else 400):
        n = int(rng.integers(2, 5))
        mf = float(rng.choice([1, 1.5, 1.2, 2, 1.3, 1.25, 1.4, 2.2]))
        dx = float(rng.choice([1.0, 40.0, 30.0]))
        d = math.ceil(round(mf * 5, 6))
        sets = list(two_level_sets(n, d))
        x = rng.random(n)
        if t % 4 == 0:
            x = np.round(x)
        if not sets:
            continue
        ev += 1
        cont = parametrization.DirectParam(x)
        disc = parametrization.GratingParam([], num_pixels=n)
        dg.GratingEdgeDiscretization(cont, mf * dx, dx)(disc, None)
        e = [float(v) for v in disc.to_vector()]
        what = "profile %r feature %r" % (list(x), mf)
        # distances between neighbouring edges inside the grating
        inner = [v for v in e if 0 < v < n]
        if any(b - a < mf - 1e-9 for a, b in zip(inner, inner[1:])):
            raise Failure("minimum feature", "%s: edges %r" % (what, e))
        if not e or min(e) < 0 or max(e) > n:
            raise Failure("edges", "%s: %r" % (what, e))
        mine = np.sum((disc.get_structure() - x)**2)
        cost = [np.sum((np.array(raster(q, [0, 1] * (len(q) // 2), [0, 1], 1,
                                        n)) - x)**2) for q in sets]
        k = int(np.argmin(cost))
        if mine > cost[k] + 1e-9:
            raise Failure("a better edge set exists", "%s: edges %r (error "
                          "%g), better %r (error %g)" %
                          (what, e, mine, sets[k], cost[k]))
    return dict(evaluations=ev, distinct=ev,
                samples=["GratingEdgeDiscretization vs enumeration"])


class FakePlan:
    def __init__(self, target):
        self.target, self.vals, self.bounds = target, {}, {}

    def eval_node(self, n):
        return flows.NumericFlow(self.target)

    def set_var_value(self, v, x):
        self.vals[v] = x

    def set_var_bounds(self, v, b):
        self.bounds[v] = b


def c_l2d(B):
    """Edges become widths with each segment's own feature bounds."""
    locs = B.choose("edge locations", [False, True])
    per = B.choose("features", ["scalar", "per level", "no maximum"])
    lv = B.choose("levels", [[0, 1], [0, 1, 0, 1], [1, 0, 2], [0]])
    n = len(lv)
    px = B.real("px", (), pos=True)
    e = B.real("e", (n, ))
    mins = B.real("mins", (3, ), pos=True)
    maxs = B.real("maxs", (3, ), pos=True)
    start, end = 2, lv[-1]
    got = {}

    def stub(*a):
        got["args"] = a
        return [e[i] for i in range(n)], list(lv)
    with goos.OptimizationPlan():
        cv, wv, hv = goos.Variable(0), goos.Variable(0), goos.Variable(0)
        act = gg.GratingL2D(cv, wv, hv, 1.0, [0, .5, 1], start, end,
                            [3.0, 4.0, 5.0], [6.0, 7.0, 8.0], 3, locs)
    act._pixel_size = px
    act._min_features = 2.5 if per == "scalar" else mins
    act._max_features = {"scalar": 3.5, "per level": maxs,
                         "no maximum": None}[per]
    t = B.real("t", (4, 1, 1))
    plan = FakePlan(t)
    keep = gg._get_general_edge_loc_dp
    gg._get_general_edge_loc_dp = stub
    try:
        act.run(plan)
    finally:
        gg._get_general_edge_loc_dp = keep
    a = got["args"]
    B.eq(a[0], t[:, 0, 0], "profile")
    if list(a[1]) != [0, .5, 1] or list(a[2]) != [3, 4, 5] or \
            list(a[3]) != [6, 7, 8] or tuple(a[4:]) != (start, end, 3):
        raise Failure("arguments of the search", repr(a[1:]))
    if list(plan.vals[hv]) != lv:
        raise Failure("levels", repr(plan.vals[hv]))
    lo, hi = plan.bounds[wv]
    if np.shape(lo) != (n, ) or np.shape(hi) != (n, ):
        raise Failure("bounds", repr((lo, hi)))
    if locs:
        B.eq(plan.vals[wv], arr(B, [e[i] * px for i in range(n)]), "edges")
        if not all(float(v) == -np.inf for v in lo) or \
                not all(float(v) == np.inf for v in hi):
            raise Failure("bounds", repr((lo, hi)))
        return
    seg = [start] + lv[:-1]
    B.eq(plan.vals[wv], arr(B, [(e[i] - (e[i - 1] if i else 0)) * px
                                for i in range(n)]), "widths")
    for i in range(n):
        B.eq(lo[i], 2.5 if per == "scalar" else mins[seg[i]],
             "minimum of segment %d" % i)
        if per == "no maximum":
            if float(hi[i]) != np.inf:
                raise Failure("maximum", repr(hi))
        else:
            B.eq(hi[i], 3.5 if per == "scalar" else maxs[seg[i]],
                 "maximum of segment %d" % i)


# end to end ------------------------------------------------------------------


def b_grating(tier, seed):
    """PixelatedGrating through a plan: value and gradient."""
    rng = np.random.default_rng(seed)
    ev = 0
    for t in range(40 if tier == "quick" else 400):
        nz, hts = HEIGHTS[t % len(HEIGHTS)]
        n = int(rng.integers(2, 7))
        dx = float(rng.choice([0.5, 20.0, 1.0]))
        ne = int(rng.integers(1, 5))
        locs = bool(t % 2)
        e = np.sort(rng.random(ne)) * n * dx
        e = np.clip(e, 1e-3 * dx, (n - 1e-3) * dx)
        fr = e / dx
        if np.any(np.abs(fr - np.round(fr)) < 1e-3) or (
                ne > 1 and np.min(np.diff(fr)) < 1e-3):
            continue
        lv = rng.integers(len(hts), size=ne)
        gdir, edir = [(0, 2), (1, 2), (0, 1), (2, 1)][t % 4]
        pol = 1 if t % 3 else -1
        ext = [7.0, 7.0, 7.0]
        ext[gdir] = n * dx
        ext[edir] = 0.22 if t % 2 else 1.0
        with goos.OptimizationPlan():
            var = goos.Variable(e if locs else np.diff(np.r_[0, e]))
            hv = goos.Variable(lv, parameter=True)
            node = gg.PixelatedGrating(
                var, hv, hts, [0, 0, 0], ext, goos.material.Material(index=1),
                goos.material.Material(index=2), gdir, dx, edir, nz, pol, locs)
            flow = node.get()
            h = [1.0] + [hts[k] for k in lv]
            edges = np.r_[0, e / dx, n]
            want = np.zeros((n, nz))
            der = np.zeros((n, nz, ne))
            for i in range(len(h)):
                # filled from the bottom: pixels nz (1-h) .. nz
                col = np.array([max(0, k + 1 - max(nz * (1 - h[i]), k))
                                for k in range(nz)])
                for p in range(n):
                    w = max(0, min(edges[i + 1], p + 1) - max(edges[i], p))
                    want[p] += w * col
                if i < ne:
                    der[int(edges[i + 1]), :, i] += col / dx
                if i > 0:
                    der[int(edges[i]), :, i - 1] -= col / dx
            if pol < 0:
                want, der = want[:, ::-1], der[:, ::-1]
            got = np.moveaxis(flow.array, [gdir, edir, 3 - gdir - edir],
                              [0, 1, 2])[:, :, 0]
            what = "edges %r levels %r heights %r" % (list(e / dx), list(lv),
                                                      hts)
            if got.shape != want.shape or np.abs(got - want).max() > 3e-5:
                raise Failure("pixels", "%s: %r, expected %r" %
                              (what, got, want))
            G = rng.random(flow.array.shape)
            gr = node.grad([flows.NumericFlow(var.get().array),
                            flows.NumericFlow(lv)],
                           goos.PixelatedContShapeFlow.Grad(array_grad=G))
            g2 = np.moveaxis(G, [gdir, edir, 3 - gdir - edir],
                             [0, 1, 2])[:, :, 0]
            ge = np.einsum("pk,pke->e", g2, der)
            if not locs:
                ge = np.cumsum(ge[::-1])[::-1]
            if np.abs(gr[0].array_grad - ge).max() > 1e-5 * max(
                    1, np.abs(ge).max()):
                raise Failure("gradient", "%s: %r, expected %r" %
                              (what, gr[0].array_grad, ge))
        ev += 2
    return dict(evaluations=ev, distinct=ev,
                samples=["PixelatedGrating, random edges and heights"])


SEARCH = [
    (2, 1, [0, 1], [1, 1], [9, 9], (1, 1)),
    (3, 1, [0, 1], [1, 1], [9, 9], (1, 1)),
    (3, 1, [0, 1], [1, 2], [2, 3], (1, 0)),
    (2, 2, [0, 1], [1, 1], [9, 9], (1, 1)),
    (2, 2, [0, 1], [1, 1], [1.5, 9], (0, 1)),
    (2, 1, [0, 0.5, 1], [1, 1, 1], [9, 9, 9], (2, 2)),
    (3, 1, [0, 1], [2, 1], [2, 9], (0, 0)),
]

ITEMS = [
    Contract("C17.param.%dx%d" % (e, n), c_param(e, n), [P + "get_structure"],
             sym="obj", num=(30, 300), max_instances=4000, budget=100)
    for e, n in ((2, 1), (2, 2), (2, 3), (4, 1), (4, 2))
] + [
    Contract("C17.param jacobian.%dx%d" % (e, n), c_param_jac(e, n),
             [P + "calculate_gradient"], sym="obj", num=(30, 300),
             max_instances=4000)
    for e, n in ((2, 2), (4, 2))
] + [
    Contract("C17.holes.%dx%d" % (e, n), c_raster(e, n),
             [G + "MultiEtchEdgeParametrization.build_rasterized_1D"],
             sym="obj", num=(30, 300), max_instances=4000, budget=100)
    for e, n in ((2, 1), (2, 2), (2, 3), (4, 2))
] + [
    Contract("C17.levels", c_levels,
             [G + "MultiEtchEdgeParametrization.get_level_vecs"],
             sym="obj", num=(40, 200), max_instances=200),
    Contract("C17.layers", c_layers,
             [G + "MultiEtchEdgeParametrization.get_structure"], sym="obj",
             num=(20, 100)),
    Contract("C17.jacobian", c_jac,
             [G + "MultiEtchEdgeParametrization.calculate_gradient"],
             sym="obj", num=(30, 100)),
    Contract("C17.pixelated", c_pixelated, [G + "PixelatedGrating.eval",
                                            G + "PixelatedGrating.grad"],
             sym="obj", num=(30, 200), max_instances=100),
    Contract("C17.edge constraint", c_edgeloc,
             [G + "EdgeLocConstraint.eval", G + "EdgeLocConstraint.grad"],
             sym="obj", num=(40, 300), max_instances=200),
    Contract("C17.feature constraint", c_feature,
             [C + "calculate_objective_function", C + "calculate_gradient"],
             sym="obj", num=(10, 100)),
    Contract("C17.barcode", c_barcode, [G + "BarcodeGrating.eval"], sym="obj",
             num=(20, 100)),
    Contract("C17.widths", c_l2d, [G + "GratingL2D.run"], sym="obj",
             num=(30, 200)),
] + [
    Contract("C17.search.%d" % i, c_general(*s),
             [G + "_get_general_edge_loc_dp"], sym="obj", num=(20, 200),
             max_instances=3000, budget=60)
    for i, s in enumerate(SEARCH)
] + [
    Bounded("C17.search enumeration", b_general,
            [G + "_get_general_edge_loc_dp"],
            bound="profiles of 2 to 5 pixels, 2 or 3 levels, up to 3 "
            "divisions; all admissible edge sets enumerated", timeout=300),
    Bounded("C17.two level search", b_two_level,
            [D + "_get_edge_loc_dp", D + "GratingEdgeDiscretization.__call__"],
            bound="profiles of 2 to 4 pixels; all admissible edge sets "
            "enumerated", timeout=300),
    Bounded("C17.grating", b_grating, [G + "PixelatedGrating.eval",
                                       G + "PixelatedGrating.grad"],
            bound="random gratings of up to 6 pixels and 4 edges"),
]
