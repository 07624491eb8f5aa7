"""C07: cubic interpolation, finite differences, symmetry and periodicity."""
import itertools

import numpy as np
import scipy.sparse as sparse

from vc.run import Contract, Bounded
from vc.harness import Failure

from spins.invdes.parametrization import cubic_utils as cu
from spins.invdes import parametrization as pz

LEVEL = "proof"
TECHNIQUE = ("contracts on the real matrix builders executed with symbolic "
             "grid coordinates, query points and control values; rational "
             "normal form and z3. Geometry matrices: exhaustive enumeration "
             "of shapes (bounded)")
ASSUMPTIONS = [
    "control grids of 3 or 4 points per axis with symbolic, strictly "
    "ascending coordinates; one query point anywhere in the grid (every row "
    "of the matrices is built independently)",
    "symmetry/periodicity matrices are enumerated for shapes up to the stated "
    "bound, on all basis vectors (they are linear and constant per shape)",
]
F = "spins/invdes/parametrization/cubic_utils.py:"
P = "spins/invdes/parametrization/parametrization.py:"


def arr(B, xs):
    xs = list(xs)
    if B.symbolic:
        from vc.arrays import oarr
        return oarr(np.array(xs, dtype=object))
    return np.array(xs, dtype=float)


def grid(B, tag, n):
    """n strictly ascending coordinates."""
    x0 = B.real("o" + tag)
    h = B.real("h" + tag, (n - 1, ), pos=True)
    xs = [x0]
    for i in range(n - 1):
        xs.append(xs[-1] + h[i])
    return arr(B, xs), h


def point(B, tag, xs, h, cells=None):
    """A point in the grid: in a chosen cell, at a symbolic offset."""
    k = B.choose("cell" + tag, cells or list(range(len(h))))
    if B.symbolic:
        t = B.real("t" + tag, (), nn=True)
        B.assume(t < h[k])
    else:
        u = B.choose("u" + tag, [0.0, 0.1, 0.37, 0.5, 0.93])
        t = u * h[k]
    return k, xs[k] + t, t


def flat(B, f, xs, ys):
    """Control values f(x, y) in Fortran order (x fastest)."""
    return arr(B, [f(x, y) for y in ys for x in xs])


def mono(a, b):
    return lambda x, y: x**a * y**b


def val(B, M, v):
    return np.ravel(M @ v)[0] if not B.symbolic else (M @ v)[0]


# -- finite differences -------------------------------------------------------
def c_dquad(B, periodic=False):
    axis = B.choose("axis", [0, 1])
    nx = B.choose("nx", [3, 4]) if axis == 0 else 3
    ny = B.choose("ny", [3, 4]) if axis == 1 else 3
    if periodic:
        nx, ny = nx + (axis == 0), ny + (axis == 1)
    other = B.choose("other_periodic", [0, 1])
    xs, _ = grid(B, "x", nx)
    ys, _ = grid(B, "y", ny)
    per = [0, 0]
    per[axis] = int(periodic)
    per[1 - axis] = other
    mx, my = nx - per[0], ny - per[1]
    D = cu.makeDmatrix_quad(xs, ys, axis, np.array(per))
    if tuple(D.shape) != (mx * my, mx * my):
        raise Failure("shape", "%r" % (D.shape, ))
    f = B.real("f", (mx, my))
    got = D @ arr(B, [f[i, j] for j in range(my) for i in range(mx)])
    for i in range(mx):
        for j in range(my):
            t = i if axis == 0 else j
            n = mx if axis == 0 else my
            c = xs if axis == 0 else ys

            def fv(s):
                return f[s % n, j] if axis == 0 else f[i, s % n]

            if periodic:
                nodes = [t - 1, t, t + 1]
                co = [c[t - 1] if t else c[0] - (c[n] - c[n - 1]), c[t],
                      c[t + 1]]
            else:
                s0 = min(max(t - 1, 0), n - 3)
                nodes = [s0, s0 + 1, s0 + 2]
                co = [c[s] for s in nodes]
            # derivative at c[t] of the parabola through the three nodes
            d = 0
            for k in range(3):
                o = [m for m in range(3) if m != k]
                w = ((c[t] - co[o[0]]) + (c[t] - co[o[1]])) / (
                    (co[k] - co[o[0]]) * (co[k] - co[o[1]]))
                d = d + w * fv(nodes[k])
            B.eq(got[j * mx + i], d, "derivative of the parabola at (%d,%d)" %
                 (i, j))


def c_dquad_exact(B):
    """Exact on quadratics times anything of the other coordinate."""
    axis = B.choose("axis", [0, 1])
    n = B.choose("n", [3, 4])
    nx, ny = (n, 3) if axis == 0 else (3, n)
    xs, _ = grid(B, "x", nx)
    ys, _ = grid(B, "y", ny)
    q = B.real("q", (3, ))
    g = B.real("g", (3, ))
    D = cu.makeDmatrix_quad(xs, ys, axis)
    c = xs if axis == 0 else ys

    def p(t):
        return q[0] + q[1] * t + q[2] * t * t

    def dp(t):
        return q[1] + 2 * q[2] * t
    F_ = [(p(xs[i]) * g[j] if axis == 0 else p(ys[j]) * g[i])
          for j in range(ny) for i in range(nx)]
    W = [(dp(xs[i]) * g[j] if axis == 0 else dp(ys[j]) * g[i])
         for j in range(ny) for i in range(nx)]
    B.eq(D @ arr(B, F_), arr(B, W), "exact on quadratics")


def c_duniform(B):
    """The uniform-spacing derivative matrices."""
    m = (B.choose("nx", [2, 3, 4]), B.choose("ny", [2, 3]))
    axis = B.choose("axis", [0, 1])
    D = (cu.makeDxmatrix, cu.makeDymatrix)[axis](np.array(m))
    f = B.real("f", m)
    got = D @ arr(B, [f[i, j] for j in range(m[1]) for i in range(m[0])])
    for i in range(m[0]):
        for j in range(m[1]):
            t, n = (i, m[0]) if axis == 0 else (j, m[1])
            lo, hi = max(t - 1, 0), min(t + 1, n - 1)
            a = f[hi, j] - f[lo, j] if axis == 0 else f[i, hi] - f[i, lo]
            B.eq(got[j * m[0] + i], a / (hi - lo), "difference quotient")


# -- interpolation --------------------------------------------------------------
def interp(B, per=(0, 0), derivatives=False, scaling=None, cells=None):
    nx = 3 + per[0]
    ny = 3 + per[1]
    xs, hx = grid(B, "x", nx)
    ys, hy = grid(B, "y", ny)
    kx, x, tx = point(B, "x", xs, hx, cells)
    ky, y, ty = point(B, "y", ys, hy, cells)
    kw = {}
    if scaling is not None:
        kw["deriv_scaling"] = scaling
    Ms = cu.CubicMatrices(arr(B, [x]), arr(B, [y]), xs, ys, np.array(per),
                          derivatives, **kw)
    return xs, ys, (kx, x, tx), (ky, y, ty), Ms


def dmono(a, b, dx, dy):
    def f(x, y):
        v = 1
        for e, d, t in ((a, dx, x), (b, dy, y)):
            c = 1
            for i in range(d):
                c, e = c * e, e - 1
            if c == 0:
                return 0 * x
            v = v * c * t**e
        return v
    return f


def c_biquadratic(B):
    """Reproduces 1, x, x^2 times 1, y, y^2 and their derivatives."""
    xs, ys, (kx, x, _), (ky, y, _), Ms = interp(B)
    a = B.choose("a", [0, 1, 2])
    b = B.choose("b", [0, 1, 2])
    v = flat(B, mono(a, b), xs, ys)
    B.eq(val(B, Ms[0], v), mono(a, b)(x, y), "value of x^%d y^%d" % (a, b))
    B.eq(val(B, Ms[1], v), dmono(a, b, 1, 0)(x, y), "x derivative")
    B.eq(val(B, Ms[2], v), dmono(a, b, 0, 1)(x, y), "y derivative")


def c_hermite(B):
    """Values and derivatives given: reproduces every bicubic polynomial."""
    s = B.real("s", (2, ), pos=True)
    sc = arr(B, [1, s[0], s[1]])
    xs, ys, (kx, x, _), (ky, y, _), Ms = interp(B, derivatives=True,
                                                scaling=sc)
    a = B.choose("a", [0, 1, 2, 3])
    b = B.choose("b", [0, 1, 2, 3])
    v = []
    for (dx, dy), f in (((0, 0), 1), ((1, 0), s[0]), ((0, 1), s[0]),
                        ((1, 1), s[1])):
        v += [f * w for w in flat(B, dmono(a, b, dx, dy), xs, ys)]
    v = arr(B, v)
    B.eq(val(B, Ms[0], v), mono(a, b)(x, y), "value of x^%d y^%d" % (a, b))
    B.eq(val(B, Ms[1], v), dmono(a, b, 1, 0)(x, y), "x derivative")
    B.eq(val(B, Ms[2], v), dmono(a, b, 0, 1)(x, y), "y derivative")


def c_node_values(B):
    """At a control point the interpolant takes the control value."""
    per = B.choose("per", [(0, 0), (1, 0), (0, 1), (1, 1)])
    nx, ny = 3 + per[0], 3 + per[1]
    xs, hx = grid(B, "x", nx)
    ys, hy = grid(B, "y", ny)
    mx, my = nx - per[0], ny - per[1]
    f = B.real("f", (mx, my))
    v = arr(B, [f[i, j] for j in range(my) for i in range(mx)])
    i = B.choose("i", list(range(nx)))
    j = B.choose("j", list(range(ny)))
    Ms = cu.CubicMatrices(xs[i:i + 1], ys[j:j + 1], xs, ys, np.array(per))
    B.eq(val(B, Ms[0], v), f[i % mx, j % my], "control value (%d,%d)" % (i, j))
    # the derivatives at control points are the finite differences
    D = cu.makeDmatrix_quad(xs, ys, 0, np.array(per))
    E = cu.makeDmatrix_quad(xs, ys, 1, np.array(per))
    r = (j % my) * mx + i % mx
    B.eq(val(B, Ms[1], v), (D @ v)[r], "x derivative at a control point")
    B.eq(val(B, Ms[2], v), (E @ v)[r], "y derivative at a control point")


def c_constant(B):
    """Constants are reproduced everywhere, periodic or not."""
    per = B.choose("per", [(0, 0), (1, 0), (0, 1), (1, 1)])
    xs, ys, (kx, x, _), (ky, y, _), Ms = interp(B, per)
    c = B.real("c")
    n = (len(xs) - per[0]) * (len(ys) - per[1])
    v = arr(B, [c] * n)
    if tuple(Ms[0].shape) != (1, n):
        raise Failure("shape", "%r" % (Ms[0].shape, ))
    B.eq(val(B, Ms[0], v), c, "constant")
    B.eq(val(B, Ms[1], v), 0 * c, "x derivative of a constant")
    B.eq(val(B, Ms[2], v), 0 * c, "y derivative of a constant")


def c_slopes(B):
    """phi2fx and phi2fy are the derivatives of phi2f, for all values."""
    per = B.choose("per", [(0, 0), (1, 0), (0, 1)])
    nx, ny = 3 + per[0], 3 + per[1]
    xs, hx = grid(B, "x", nx)
    ys, hy = grid(B, "y", ny)
    kx = B.choose("cx", [0, nx - 2])
    ky = B.choose("cy", [0, ny - 2])
    # coordinates relative to the cell
    if B.symbolic:
        t = B.real("t", (2, ), nn=True)
        B.assume(t[0] < hx[kx])
        B.assume(t[1] < hy[ky])
    else:
        t = np.array([B.choose("ux", [0.2, 0.5, 0.8]) * hx[kx],
                      B.choose("uy", [0.2, 0.5, 0.8]) * hy[ky]])
    f = B.real("f", ((nx - per[0]) * (ny - per[1]), ))

    def mats(t):
        return cu.CubicMatrices(arr(B, [xs[kx] + t[0]]),
                                arr(B, [ys[ky] + t[1]]), xs, ys,
                                np.array(per))

    def fn(x):
        M = mats(x[0])
        return [arr(B, [val(B, M[0], f)])]

    def vjp(x, g):
        M = mats(x[0])
        return [arr(B, [g[0][0] * val(B, M[1], f), g[0][0] * val(B, M[2], f)])]
    B.vjp("derivative matrices", fn, ["t"], [t], vjp)


def c_powers(B):
    """The monomial matrices and their first and second derivatives."""
    n = B.choose("n", [1, 2])
    x = B.real("x", (n, ))
    y = B.real("y", (n, ))
    Ms = cu.MakeXYcubic_secondDerivative(x, y)
    M1 = cu.MakeXYcubic(x, y)
    c = B.real("c", (4, 4, n))  # coefficient of x^i y^j at point p
    v = arr(B, [c[i, j, p] for j in range(4) for i in range(4)
                for p in range(n)])
    for k, (dx, dy) in enumerate(((0, 0), (1, 0), (0, 1), (1, 1), (2, 0),
                                  (0, 2))):
        got = Ms[k] @ v
        for p in range(n):
            w = 0
            for i in range(4):
                for j in range(4):
                    w = w + c[i, j, p] * dmono(i, j, dx, dy)(x[p], y[p])
            B.eq(got[p], w, "derivative (%d,%d)" % (dx, dy))
            if k < 3:
                B.eq((M1[k] @ v)[p], w, "first derivatives (%d,%d)" % (dx, dy))


def c_hermite_vs_cubic(B):
    """Hermite interpolation of the finite-difference data is the bicubic."""
    s = B.real("s", (2, ), pos=True)
    sc = arr(B, [1, s[0], s[1]])
    xs, ys, px, py, Ms = interp(B, derivatives=True, scaling=sc)
    M0 = cu.CubicMatrices(arr(B, [px[1]]), arr(B, [py[1]]), xs, ys)
    G = cu.idxdydxy_matrix(xs, ys, deriv_scaling=sc)
    f = B.real("f", (9, ))
    w = arr(B, list(G @ f))
    for k in range(3):
        B.eq(val(B, Ms[k], w), val(B, M0[k], f), "matrix %d" % k)


def c_floor(B):
    """Every point is assigned to the cell that contains it."""
    n = B.choose("n", [2, 3, 4])
    xs, h = grid(B, "x", n)
    if B.symbolic:
        x = B.real("x")
        B.assume(xs[0] <= x)
        B.assume(x <= xs[n - 1])
    else:
        u = B.choose("u", [0.0, 0.2, 0.5, 0.77, 1.0])
        x = xs[0] + u * (xs[n - 1] - xs[0])
        if u == 1.0:
            x = xs[n - 1]
    near, ix = cu.floor2vector(arr(B, [x]), xs)
    rem, d = cu.floor2vector_rem(arr(B, [x]), xs)
    k = int(ix[0])
    if not 0 <= k <= n - 2:
        raise Failure("cell index", "%r" % (k, ))
    B.holds(xs[k] <= x, "lower edge")
    B.holds(x <= xs[k + 1], "upper edge")
    B.eq(near[0], xs[k], "nearest")
    B.eq(rem[0], x - xs[k], "remainder")
    B.eq(d[0], xs[k + 1] - xs[k], "cell width")


def c_rows(B):
    """Several query points: every row is the row of its own point."""
    nx, ny = 3, 3
    xs, hx = grid(B, "x", nx)
    ys, hy = grid(B, "y", ny)
    if B.symbolic:
        tx = B.real("tx", (2, ), nn=True)
        ty = B.real("ty", (2, ), nn=True)
        for t, h in ((tx, hx), (ty, hy)):
            for k in range(2):
                B.assume(t[k] < h[k])
    else:
        tx, ty = hx * 0.3, hy * 0.6
    x = arr(B, [xs[0] + tx[0], xs[1] + tx[1]])
    y = arr(B, [ys[0] + ty[0], ys[1] + ty[1]])
    f = B.real("f", (9, ))
    Ms = cu.CubicMatrices(x, y, xs, ys)
    k = B.choose("which", [0, 1, 2])
    got = Ms[k] @ f
    for j in range(2):
        for i in range(2):
            one = cu.CubicMatrices(x[i:i + 1], y[j:j + 1], xs, ys)
            B.eq(got[j * 2 + i], val(B, one[k], f), "row (%d,%d)" % (i, j))


# -- geometry matrices: exhaustive per shape -------------------------------------
def dn(M):
    return np.asarray(M.todense()) if sparse.issparse(M) else np.asarray(M)


def img(M, m, shape):
    """Column basis images as arrays (k, nx, ny)."""
    A = dn(M)
    return A.T.reshape((A.shape[1], ) + tuple(shape)[::-1]).transpose(0, 2, 1)


def need(c, label, detail):
    if not c:
        raise Failure(label, detail)


def sym_shapes(tier):
    n = 6 if tier == "quick" else 9
    return [(a, b) for a in range(2, n) for b in range(2, n)]


def b_primitive(tier, seed):
    """duplicate_boundary_data, periodic_matrix, symmetry_matrix, ..."""
    ev = 0
    for shape in sym_shapes(tier):
        nx, ny = shape
        for axis in (0, 1):
            small = [nx, ny]
            small[axis] -= 1
            per, rev = cu.duplicate_boundary_data(shape, axis)
            need(per.shape == (nx * ny, small[0] * small[1]),
                 "duplicate_boundary_data", "shape %r" % (per.shape, ))
            v = np.random.RandomState(seed).normal(size=small)
            out = (per @ v.ravel(order="F")).reshape(shape, order="F")
            want = np.concatenate([v, np.take(v, [0], axis)], axis)
            need(np.array_equal(out, want), "duplicate_boundary_data",
                 "shape %r axis %d" % (shape, axis))
            need(np.array_equal(dn(rev @ per), np.eye(v.size)),
                 "duplicate_boundary_data reverse", "%r" % (shape, ))
            ev += 1
            # axis 0: second coordinate symmetric
            sm, rv = cu.symmetry_matrix(shape, axis)
            half = [nx, ny]
            half[1 - axis] = -(-half[1 - axis] // 2)
            need(sm.shape == (nx * ny, half[0] * half[1]), "symmetry_matrix",
                 "shape %r" % (sm.shape, ))
            v = np.random.RandomState(seed + 1).normal(size=half)
            out = (sm @ v.ravel(order="F")).reshape(shape, order="F")
            need(np.array_equal(out, np.flip(out, 1 - axis)),
                 "symmetry_matrix", "not symmetric: %r axis %d" %
                 (shape, axis))
            sl = [slice(None)] * 2
            sl[1 - axis] = slice(0, half[1 - axis])
            need(np.array_equal(out[tuple(sl)], v), "symmetry_matrix",
                 "parameters changed")
            need(np.array_equal(dn(rv @ sm), np.eye(v.size)),
                 "symmetry_matrix reverse", "%r" % (shape, ))
            s2, r2 = cu.symmetry_matrix2D(np.arange(nx), np.arange(ny), axis)
            need(np.array_equal(dn(s2), dn(sm)) and
                 np.array_equal(dn(r2), dn(rv)), "symmetry_matrix2D", "")
            ev += 2
            for p in range(1, shape[axis] + 1):
                if shape[axis] % p:
                    try:
                        cu.periodic_matrix(shape, axis, p)
                    except ValueError:
                        continue
                    raise Failure("periodic_matrix", "%r not divisible by "
                                  "%d accepted" % (shape, p))
                pm, rv = cu.periodic_matrix(shape, axis, p)
                small = [nx, ny]
                small[axis] //= p
                v = np.random.RandomState(seed + p).normal(size=small)
                need(pm.shape == (nx * ny, v.size), "periodic_matrix",
                     "shape")
                out = (pm @ v.ravel(order="F")).reshape(shape, order="F")
                want = np.concatenate([v] * p, axis)
                need(np.array_equal(out, want), "periodic_matrix",
                     "shape %r axis %d periods %d" % (shape, axis, p))
                need(np.array_equal(dn(rv @ pm), np.eye(v.size)),
                     "periodic_matrix reverse", "%r" % (shape, ))
                ev += 1
        for pr in itertools.product((0, 1), repeat=2):
            if nx - pr[0] < 1 or ny - pr[1] < 1:
                continue
            pm, rv = cu.make_periodicity_matrix(shape, pr)
            small = (nx - pr[0], ny - pr[1])
            v = np.random.RandomState(seed).normal(size=small)
            out = (pm @ v.ravel(order="F")).reshape(shape, order="F")
            want = np.pad(v, [(0, pr[0]), (0, pr[1])], mode="wrap")
            need(np.array_equal(out, want), "make_periodicity_matrix",
                 "%r %r" % (shape, pr))
            need(np.array_equal(dn(rv @ pm), np.eye(v.size)),
                 "make_periodicity_matrix reverse", "%r" % (shape, ))
            ev += 1
    return dict(evaluations=ev, distinct=ev, exhaustive=True)


def configs(tier, hermite=False):
    n = 7 if tier == "quick" else 10
    for shape in [(a, b) for a in range(3, n) for b in range(3, n)]:
        for s in itertools.product((0, 1), repeat=2):
            for pr in itertools.product((0, 1), repeat=2):
                for pd in itertools.product((0, 1, 2, 3), repeat=2):
                    ok = True
                    for k in range(2):
                        m = shape[k] - pr[k]
                        if pd[k] and m % pd[k]:
                            ok = False
                        if pd[k] and m // max(pd[k], 1) < 2:
                            ok = False
                    if ok:
                        yield shape, s, pr, pd


def b_geometry(tier, seed):
    """make_geometry_matrix_cubic: symmetric, periodic, invertible."""
    ev = 0
    for shape, s, pr, pd in configs(tier):
        lab = "%r symmetry %r periodicity %r periods %r" % (shape, s, pr, pd)
        G, R = cu.make_geometry_matrix_cubic(shape, s, pr, pd)
        Gf, Rf = cu.make_geometry_matrix_cubic(shape, s, pr, pd, True)
        n = G.shape[1]
        inner = tuple(a - b for a, b in zip(shape, pr))
        need(G.shape[0] == inner[0] * inner[1], "geometry shape", lab)
        need(Gf.shape == (shape[0] * shape[1], n), "full geometry shape", lab)
        need(np.array_equal(dn(R @ Gf), np.eye(n)), "reverse geometry",
             "does not invert the geometry matrix: " + lab)
        need(np.array_equal(dn(Rf), dn(R)), "reverse geometry", lab)
        A = dn(Gf)
        need(set(np.unique(A)) <= {0.0, 1.0} and np.all(A.sum(1) == 1),
             "geometry", "not one parameter per grid point: " + lab)
        X = img(Gf, None, shape)
        Y = img(G, None, inner)
        for k in range(2):
            ax = k + 1
            lo = [slice(None)] * 3
            if pr[k]:
                need(np.array_equal(X.take(0, ax), X.take(-1, ax)),
                     "periodic boundary", lab)
                lo[ax] = slice(0, -1)
            need(np.array_equal(X[tuple(lo)], Y.take(range(X[tuple(
                lo)].shape[ax]), ax)) if not pr[1 - k] else True,
                "geometry", "full and reduced matrix differ: " + lab)
            if pd[k] > 0:
                need(np.array_equal(np.roll(Y, inner[k] // pd[k], ax), Y),
                     "periods", lab)
            if s[k] and pr[k]:
                need(np.array_equal(np.flip(X, ax), X) if pd[k] else True,
                     "reflection symmetry", lab)
            if s[k] and not pr[k] and not pd[k]:
                need(np.array_equal(np.flip(X, ax), X),
                     "reflection symmetry", lab)
        ev += 1
    return dict(evaluations=ev, distinct=ev, exhaustive=True)


def mirrors(w, k):
    """Some mirror axis of a periodic pattern."""
    M = w.shape[k]
    return any(np.allclose(w, w.take([(a - i) % M for i in range(M)], k))
               for a in range(M))


def b_structure(cls, tier, seed):
    """Every generated structure has the requested symmetries."""
    ev = 0
    rng = np.random.RandomState(seed)
    sizes = [(7, 9), (10, 7), (8, 8), (9, 6)]
    if tier == "quick":
        sizes = sizes[:2] if cls is pz.CubicParam else [(7, 10)]
    for N in sizes:
        for s in itertools.product((0, 1), repeat=2):
            for pr in itertools.product((0, 1), repeat=2):
                for pd in itertools.product((0, 1, 2, 3), repeat=2):
                    if any(pd[k] and ((N[k] - pr[k]) % pd[k] or
                                      (N[k] - pr[k]) // pd[k] < 2)
                           for k in range(2)):
                        continue
                    ev += 1
                    one_structure(cls, N, s, pr, pd, rng)
    return dict(evaluations=ev, distinct=ev)


def one_structure(cls, N, s, pr, pd, rng):
    lab = "%s control grid %r symmetry %r periodicity %r periods %r" % (
        cls.__name__, N, s, pr, pd)
    q = 2
    c = [np.arange(n) * 1.5 for n in N]
    f = [np.arange(q * (n - 1) + 1) * 1.5 / q for n in N]
    p = cls(0.5, c[0], c[1], f[0], f[1], symmetry=s, periodicity=pr,
            periods=pd)
    p.set_k(0.7)
    n = p.geometry_matrix.shape[1]
    need(len(p.encode()) == n, "initial vector", lab)
    p.decode(rng.normal(size=n))
    z = np.asarray(p.get_structure()).reshape(
        [len(x) for x in f], order="F")
    lin = np.asarray(p.vec2f @ p.encode())
    need(np.allclose(1 / (1 + np.exp(-0.7 * (2 * lin - 1))),
                     z.ravel(order="F")), "structure",
         "not the sigmoid of the linear image: " + lab)
    for k in range(2):
        if pr[k]:
            need(np.allclose(z.take(0, k), z.take(-1, k)),
                 "periodic structure", lab)
            w = z.take(range(z.shape[k] - 1), k)
            if pd[k]:
                need(np.allclose(w, np.roll(w, w.shape[k] // pd[k], k)),
                     "periods", lab)
            if s[k]:
                need(mirrors(w, k), "mirror symmetry", lab)
        else:
            y = z.take(range(0, z.shape[k], q), k)
            if pd[k]:
                m = N[k] // pd[k]
                need(np.allclose(y, np.roll(y, m, k)), "periods", lab)
                y = y.take(range(m), k)
            if s[k] and not pd[k]:
                need(np.allclose(z, np.flip(z, k)), "mirror symmetry", lab)
            elif s[k]:
                need(mirrors(y, k), "mirror symmetry", lab)
    # control values given on the whole grid are reduced to the parameters
    if not any(pr):
        v = rng.normal(size=n)
        full = p.geometry_matrix @ v
        p2 = cls(full, c[0], c[1], f[0], f[1], symmetry=s, periodicity=pr,
                 periods=pd)
        if cls is pz.CubicParam or full.size != v.size:
            need(np.allclose(p.geometry_matrix @ p2.encode(), full),
                 "initial value on the whole grid", lab)


ITEMS = [
    Contract("derivative/parabola", c_dquad, [F + "makeDmatrix_quad"],
             sym="obj", num=(20, 200)),
    Contract("derivative/periodic", lambda B: c_dquad(B, True),
             [F + "makeDmatrix_quad"], sym="obj", num=(20, 200)),
    Contract("derivative/exact on quadratics", c_dquad_exact,
             [F + "makeDmatrix_quad"], sym="obj", num=(20, 200)),
    Contract("derivative/uniform", c_duniform,
             [F + "makeDxmatrix", F + "makeDymatrix"], sym="obj",
             num=(20, 100)),
    Contract("cells", c_floor, [F + "floor2vector", F + "floor2vector_rem"],
             sym="obj", num=(60, 300)),
    Contract("interpolation/biquadratic", c_biquadratic,
             [F + "CubicMatrices", F + "MakeXYcubic", F + "MakeDXDY_inv",
              F + "MakeDXDYcorr_inv", F + "MakeAcubic", F + "Phi2fii"],
             sym="obj", num=(40, 300)),
    Contract("interpolation/hermite bicubic", c_hermite,
             [F + "CubicMatrices", F + "Phi2fii"], sym="obj", num=(40, 300),
             max_instances=400),
    Contract("interpolation/control values", c_node_values,
             [F + "CubicMatrices"], sym="obj", num=(40, 300)),
    Contract("interpolation/constants", c_constant, [F + "CubicMatrices"],
             sym="obj", num=(40, 300)),
    Contract("interpolation/slopes", c_slopes, [F + "CubicMatrices"],
             sym="obj", num=(20, 200)),
    Contract("interpolation/hermite of differences", c_hermite_vs_cubic,
             [F + "idxdydxy_matrix", F + "Phi2fii"], sym="obj",
             num=(20, 200)),
    Contract("interpolation/monomials", c_powers,
             [F + "MakeXYcubic_secondDerivative", F + "MakeXYcubic"],
             sym="obj", num=(20, 200)),
    Contract("interpolation/rows", c_rows, [F + "CubicMatrices"], sym="obj",
             num=(6, 60)),
    Bounded("geometry/primitives", b_primitive,
            [F + "duplicate_boundary_data", F + "symmetry_matrix",
             F + "periodic_matrix", F + "make_periodicity_matrix"],
            "shapes 2..5 (quick) / 2..8 (thorough), all axes and periods"),
    Bounded("geometry/cubic", b_geometry, [F + "make_geometry_matrix_cubic"],
            "shapes 3..6 (quick) / 3..9, all symmetry/periodicity/periods"),
    Bounded("structure/cubic",
            lambda t, s: b_structure(pz.CubicParam, t, s),
            [P + "CubicParam", F + "make_geometry_matrix_cubic"],
            "4 uniform control grids, all symmetry/periodicity/periods up "
            "to 3, random parameters"),
    Bounded("structure/hermite",
            lambda t, s: b_structure(pz.HermiteParam, t, s),
            [P + "HermiteParam", F + "make_geometry_matrix_hermite",
             F + "symmetry_matrix_sign_correction"],
            "4 uniform control grids, all symmetry/periodicity/periods up "
            "to 3, random parameters"),
]
