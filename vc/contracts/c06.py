"""C06: parametrizations: round trip, bounds, projection and Jacobian."""
import numpy as np
import scipy.sparse as sparse

from vc.run import Contract, Bounded
from vc.harness import Failure
from vc.facade import concrete

from spins.invdes import problem
from spins.invdes import parametrization as pz

LEVEL = "proof"
TECHNIQUE = ("contracts on the real classes, symbolic execution over symbolic "
             "vectors, bounds and interpolation matrices; normal form and z3")
ASSUMPTIONS = [
    "vector lengths are enumerated up to 4 in the symbolic run; entries, "
    "bounds, sigmoid strength and the interpolation matrix are symbolic "
    "(the cubic and Hermite Jacobians are proved for every matrix; which "
    "matrix it is belongs to C07)",
    "lower bounds do not exceed upper bounds",
    "grating edges are sorted on writing, so its round trip is claimed for "
    "ascending vectors; its Jacobian (a forward derivative at pixel borders) "
    "is checked numerically",
    "restoring projects, so it is claimed for saved states within bounds",
]
F = "spins/invdes/parametrization/parametrization.py:"
C = "spins/invdes/parametrization/composite_parametrization.py:"
G = "spins/invdes/parametrization/grating_parametrization.py:"


def arr(B, xs):
    xs = list(xs)
    if B.symbolic:
        from vc.arrays import oarr
        return oarr(np.array(xs, dtype=object))
    return np.array(xs, dtype=float)


def smat(B, M):
    """A sparse matrix with the given entries."""
    if B.symbolic:
        from vc.spmat import SpMat
        return SpMat.of(M)
    return sparse.csr_matrix(M)


def dense(B, J, m, n):
    if hasattr(J, "toarray"):
        return J.toarray()
    if isinstance(J, np.ndarray):
        return J
    return J @ np.eye(n)


# -- bound configurations: (argument given to the constructor, per-entry list)
def bound(B, tag, n, kinds=("none", "scalar", "list", "mixed")):
    kind = B.choose("bound" + tag, list(kinds))
    if kind == "none":
        return None, [None] * n
    if kind == "scalar":
        v = B.choose("bv" + tag, [-0.25, 0, 0.5])
        v = v + (1 if tag == "hi" else 0)
        return v, [v] * n
    off = 1 if tag == "hi" else 0
    vs = [off + 0.25 * ((3 * i) % 4) - 0.5 for i in range(n)]
    if kind == "mixed" and n > 0:
        vs[n // 2] = None
    return list(vs), list(vs)


def inside(B, v, lo, hi):
    """Conditions that say every entry lies within its bounds."""
    out = []
    for i in range(len(lo)):
        if lo[i] is not None and not (isinstance(lo[i], float) and
                                      np.isinf(lo[i])):
            out.append(v[i] >= lo[i])
        if hi[i] is not None and not (isinstance(hi[i], float) and
                                      np.isinf(hi[i])):
            out.append(v[i] <= hi[i])
    return out


def same_bounds(got, want, label):
    if len(got) != len(want):
        raise Failure(label, "%d entries for %d parameters" % (len(got),
                                                               len(want)))
    for i, (a, b) in enumerate(zip(got, want)):
        if np.ndim(a) != 0:
            raise Failure(label, "entry %d is %r" % (i, a))
        an = a is None or (not hasattr(a, "t") and np.isinf(a))
        bn = b is None or (not hasattr(b, "t") and np.isinf(b))
        if an != bn or (not an and a != b):
            raise Failure(label, "entry %d is %r, expected %r" % (i, a, b))


def common(B, make, n, lo, hi, v, w, label, check_bounds=True):
    """Obligations shared by every parametrization."""
    B.fork()
    p = make()
    p.decode(v)
    B.eq(arr(B, p.encode()), v, label + " write/read")
    B.eq(arr(B, p.to_vector()), v, label + " to_vector")
    # bounds
    if check_bounds:
        b = p.get_bounds()
        if b is None:
            if any(x is not None for x in list(lo) + list(hi)):
                raise Failure(label + " bounds", "no bounds reported")
        else:
            same_bounds(list(b[0]), lo, label + " lower bounds")
            same_bounds(list(b[1]), hi, label + " upper bounds")
    # projection
    p.project()
    q = arr(B, p.encode())
    for c in inside(B, q, lo, hi):
        B.holds(c, label + " projection within bounds")
    for i in range(n):
        # an entry already within its bounds is left alone
        if all(bool(c) for c in inside(B, [v[i]], [lo[i]], [hi[i]])):
            B.eq(q[i], v[i], label + " projection of a feasible entry")
    p.project()
    B.eq(arr(B, p.encode()), q, label + " projection twice")
    # from_vector = decode + project
    p2 = make()
    p2.from_vector(v)
    B.eq(arr(B, p2.encode()), q, label + " from_vector")
    # save / restore: of the projected state, into an object in another state
    state = p.serialize()
    p3 = make()
    p3.decode(w)
    p3.deserialize(state)
    B.eq(arr(B, p3.encode()), q, label + " save/restore")
    B.eq(arr(B, p.encode()), q, label + " saving changes nothing")
    return p, p3, q


def jac(B, p, n, names, v, label):
    def f(x):
        p.decode(x[0])
        return [p.get_structure()]

    def vjp(x, g):
        p.decode(x[0])
        J = p.calculate_gradient()
        return [g[0] @ dense(B, J, None, n)]
    B.vjp(label + " Jacobian", f, names, [v], vjp)


def adj(B, p, m, n, v, label):
    """J, J^T and the graph gradient agree."""
    p.decode(v)
    J = p.calculate_gradient()
    g = B.real("ga", (m, ))
    D = dense(B, J, m, n)
    if tuple(np.shape(D)) != (m, n):
        raise Failure(label + " Jacobian shape", "%r, expected %r" %
                      (np.shape(D), (m, n)))
    left = g @ J
    B.eq(arr(B, np.ravel(left)), g @ D, label + " adjoint Jacobian")
    d = B.real("da", (n, ))
    B.eq(arr(B, np.ravel(J @ d)), D @ d, label + " Jacobian times vector")


# -- direct -----------------------------------------------------------------
def c_direct(B):
    n = B.choose("n", [1, 2, 3]) if B.symbolic else B.dim("n", 1, 5)
    la, lo = bound(B, "lo", n)
    ha, hi = bound(B, "hi", n)
    with_none = B.choose("bounds_arg", ["pair", "None"])
    if with_none == "None":
        arg, lo, hi = None, [None] * n, [None] * n
    else:
        arg = [la, ha]
    v = B.real("v", (n, ))
    w = B.real("w", (n, ))
    p, _, q = common(B, lambda: pz.DirectParam(np.zeros(n), bounds=arg), n,
                     lo, hi, v, w, "direct")
    B.eq(arr(B, p.get_structure()), q, "structure is the vector")
    jac(B, p, n, ["v"], v, "direct")
    adj(B, p, n, n, v, "direct")


def c_direct_init(B):
    n = B.choose("n", [1, 3])
    v = B.real("v", (n, ))
    p = pz.DirectParam(v)
    B.eq(arr(B, p.encode()), v, "initial value")
    same_bounds(list(p.get_bounds()[0]), [0] * n, "default lower bounds")
    same_bounds(list(p.get_bounds()[1]), [1] * n, "default upper bounds")


# -- cubic and Hermite --------------------------------------------------------
def grids():
    return np.arange(3) * 2.0, np.arange(3) * 2.0, np.arange(5) * 1.0, \
        np.arange(5) * 1.0


def c_cubic(B, kind="cubic"):
    k = B.choose("k", ["zero", "free"] if kind == "cubic" else ["free"])
    kinds = ("scalar", "list")
    bmode = B.choose("bmode", ["lu", "bounds", "default"])
    n = 2 if B.symbolic else B.dim("n", 2, 5)
    m = 3 if B.symbolic else B.dim("m", 1, 6)
    la, lo = bound(B, "lo", n, kinds)
    ha, hi = bound(B, "hi", n, kinds)
    kw = {}
    if bmode == "lu":
        kw = dict(lower_bound=la, upper_bound=ha)
    elif bmode == "bounds":
        kw = dict(bounds=[la, ha])
    elif kind == "cubic":
        lo, hi = [0] * n, [1] * n
    else:
        lo, hi = [None] * n, [None] * n
    M = mat(B, m, n)
    ks = 0 if k == "zero" else B.real("k", (), pos=True)
    cls = pz.CubicParam if kind == "cubic" else pz.HermiteParam
    with concrete():
        base = cls(0.5, *grids(), **kw)

    def make():
        import copy
        p = copy.copy(base)
        # The interpolation matrix is arbitrary here.
        p.vec2f = smat(B, M)
        p.geometry_matrix = _Shape((m, n))
        p.reverse_geometry_matrix = _Shape((n, m))
        p.vector = np.zeros(n)
        p.k = ks
        return p
    v = B.real("v", (n, ))
    w = B.real("w", (n, ))
    p, p3, q = common(B, make, n, lo, hi, v, w, kind)
    # The sigmoid strength is part of the state.
    k2 = B.real("k2", (), pos=True)
    p.set_k(k2)
    p3.deserialize(p.serialize())
    B.eq(p3.k, k2, "restored sigmoid strength")


def c_cubic_jac(B, kind="cubic"):
    """Structure and Jacobian for an arbitrary interpolation matrix."""
    k = B.choose("k", ["zero", "free"] if kind == "cubic" else ["free"])
    n = B.choose("n", [1, 2, 3]) if B.symbolic else B.dim("n", 2, 5)
    m = B.choose("m", [1, 3]) if B.symbolic else B.dim("m", 1, 6)
    M = mat(B, m, n)
    ks = 0 if k == "zero" else B.real("k", (), pos=True)
    cls = pz.CubicParam if kind == "cubic" else pz.HermiteParam
    with concrete():
        p = cls(0.5, *grids())
    p.vec2f = smat(B, M)
    p.geometry_matrix = _Shape((m, n))
    p.reverse_geometry_matrix = _Shape((n, m))
    p.set_k(ks)
    v = B.real("v", (n, ))
    p.decode(v)
    z = M @ v
    s = arr(B, p.get_structure())
    if k == "zero":
        B.eq(s, z, "structure")
    else:
        e = _exp(B, -ks * (2 * z - 1))
        B.eq(s * (1 + e), arr(B, [1] * m), "structure is the sigmoid")
    jac(B, p, n, ["v"], v, kind)
    if k == "zero":
        adj(B, p, m, n, v, kind)


def _exp(B, x):
    if B.symbolic:
        from vc.arrays import omap
        from vc.sym import sexp, as_s
        return omap(lambda t: sexp(as_s(t)), x)
    return np.exp(x)


def mat(B, m, n):
    M = B.real("M", (m, n))
    return M if B.symbolic else M / (1 + np.abs(M).max()) / n


def c_hermite_jac(B):
    c_cubic_jac(B, "hermite")


class _Shape:
    def __init__(self, s):
        self.shape = s


def c_hermite(B):
    c_cubic(B, "hermite")


# -- composite ----------------------------------------------------------------
def c_composite(B):
    parts = B.choose("parts", ["d", "dd", "dc", "cd", "dcd", "(dd)d", "dg"])
    sizes, lo, hi, mk = [], [], [], []
    with concrete():
        cub = pz.CubicParam(0.5, *grids(), bounds=[-0.5, 0.5])
    M = mat(B, 3, 2)

    def part(c, i):
        n = 1 + (i % 2)
        if c == "d":
            la, l = bound(B, "lo", n, ("scalar", "mixed") if i else
                          ("none", "mixed"))
            ha, h = bound(B, "hi", n, ("none", "list") if i == 0 else
                          ("mixed", ))
            if la is None and ha is None:
                return (lambda: pz.DirectParam(np.zeros(n), bounds=None)), n, \
                    n, l, h
            return (lambda: pz.DirectParam(np.zeros(n), bounds=[la, ha])), n, \
                n, l, h
        if c == "g":
            return (lambda: Unbounded(2)), 2, 2, [None] * 2, [None] * 2

        def make():
            import copy
            p = copy.copy(cub)
            p.vec2f, p.k, p.vector = smat(B, M), 0, np.zeros(2)
            return p
        return make, 2, 3, [-0.5] * 2, [0.5] * 2
    ps = [part(c, i) for i, c in enumerate(parts) if c not in "()"]

    def make():
        xs = [p[0]() for p in ps]
        if parts == "(dd)d":
            return pz.CompositeParam([pz.CompositeParam(xs[:2]), xs[2]])
        return pz.CompositeParam(xs)
    n = sum(p[1] for p in ps)
    m = sum(p[2] for p in ps)
    lo = sum([list(p[3]) for p in ps], [])
    hi = sum([list(p[4]) for p in ps], [])
    v = B.real("v", (n, ))
    w = B.real("w", (n, ))
    p, p3, q = common(B, make, n, lo, hi, v, w, "composite")
    # structure: concatenation of the parts' structures
    p.decode(v)
    want, k = [], 0
    for mkp, ni, mi, _, _ in ps:
        x = mkp()
        x.decode(v[k:k + ni])
        want += list(x.get_structure())
        k += ni
    B.eq(arr(B, p.get_structure()), arr(B, want), "structure")
    jac(B, p, n, ["v"], v, "composite")
    adj(B, p, m, n, v, "composite")
    # The graph differentiates through the composite parametrization.
    if not B.symbolic or True:
        x = problem.Variable(m)
        wt = B.real("wt", (m, ))
        obj = Lin(x, wt)
        p.decode(v)
        g = obj.calculate_gradient(p)
        J = dense(B, p.calculate_gradient(), m, n)
        B.eq(arr(B, np.ravel(g)), wt @ J, "graph gradient")


class Lin(problem.OptimizationFunction):
    def __init__(self, x, w):
        super().__init__(x)
        self.w = w

    def eval(self, vals):
        return self.w @ vals[0]

    def grad(self, vals, g):
        return [g * self.w]


class Unbounded(pz.Parametrization):
    """A parametrization without bounds (get_bounds is None)."""
    def __init__(self, n):
        self.v = np.zeros(n)

    def get_structure(self):
        return self.v

    def calculate_gradient(self):
        return np.eye(len(self.v))

    def encode(self):
        return self.v

    def decode(self, v):
        self.v = v


# -- grating ------------------------------------------------------------------
def b_grating(tier, seed):
    rng = np.random.default_rng(seed)
    n = 0
    for case in range(300 if tier == "quick" else 5000):
        npix = int(rng.integers(1, 12))
        ne = 2 * int(rng.integers(0, 5))
        inv = bool(rng.integers(2))
        mode = case % 3
        if mode == 0:
            e = np.sort(rng.uniform(0, npix, ne))
        elif mode == 1:
            e = np.sort(rng.uniform(-2, npix + 2, ne))
        else:
            # edges sharing pixels
            e = np.sort(rng.integers(0, npix, ne) + rng.uniform(0.1, 0.9, ne))
        p = pz.GratingParam(np.sort(rng.uniform(0, npix, ne)), npix, inv)
        sh = e.copy()
        rng.shuffle(sh)
        keep = sh.copy()
        p.decode(sh)
        if not np.array_equal(sh, keep):
            raise Failure("grating write", "the caller's vector changed")
        if not np.array_equal(p.encode(), e):
            raise Failure("grating write/read", "%r from %r" % (p.encode(), sh))
        z = p.get_structure()
        cov = np.zeros(npix)
        for a, b in zip(e[::2], e[1::2]):
            for i in range(npix):
                cov[i] += max(0, min(b, i + 1) - max(a, i))
        want = 1 - cov if inv else cov
        if z.shape != (npix, ) or not np.allclose(z, want, atol=1e-9):
            raise Failure("grating structure", "edges %r: %r, expected %r" %
                          (e, z, want))
        J = np.asarray(p.calculate_gradient())
        ref = np.zeros((npix, ne))
        for j in range(ne):
            i = int(np.floor(e[j]))
            if 0 <= i < npix:
                ref[i, j] = (-1 if j % 2 == 0 else 1) * (-1 if inv else 1)
        if J.shape != (npix, ne) or not np.array_equal(J, ref):
            raise Failure("grating Jacobian", "edges %r inverted %r: %r, "
                          "expected %r" % (e, inv, J, ref))
        q = pz.GratingParam(np.zeros(ne), npix, not inv)
        q.deserialize(p.serialize())
        if not np.array_equal(q.encode(), e) or not np.allclose(
                q.get_structure(), z):
            raise Failure("grating save/restore", "edges %r inverted %r" %
                          (e, inv))
        p.project()
        if not np.array_equal(p.encode(), e):
            raise Failure("grating projection", "changed %r" % e)
        n += 1
    try:
        pz.GratingParam(np.array([1.0]), 3)
        raise Failure("grating edges", "an odd number of edges is accepted")
    except ValueError:
        pass
    return dict(evaluations=n, distinct=n,
                samples=[dict(edges=list(map(float, e)), pixels=npix)])


# -- real cubic and Hermite objects, histories --------------------------------
def b_real(tier, seed):
    rng = np.random.default_rng(seed)
    n = 0
    for case in range(30 if tier == "quick" else 400):
        cx = np.cumsum(rng.uniform(0.5, 2, int(rng.integers(3, 6))))
        cy = np.cumsum(rng.uniform(0.5, 2, int(rng.integers(3, 6))))
        fx = np.linspace(cx[0], cx[-1], int(rng.integers(4, 9)))
        fy = np.linspace(cy[0], cy[-1], int(rng.integers(4, 9)))
        cls = (pz.CubicParam, pz.HermiteParam)[case % 2]
        sym = rng.integers(0, 2, 2)
        per = rng.integers(0, 2, 2) * (1 - sym)
        p = cls(0.3, cx, cy, fx, fy, symmetry=sym, periodicity=per,
                lower_bound=-0.5, upper_bound=1.5)
        nv = len(p.encode())
        seq = []
        ref = np.array(p.encode())
        saved = None
        k = p.k
        for step in range(6):
            o = int(rng.integers(0, 5))
            seq.append(o)
            if o == 0:
                ref = rng.normal(size=nv)
                p.decode(ref.copy())
            elif o == 1:
                p.project()
                ref = np.minimum(np.maximum(ref, -0.5), 1.5)
            elif o == 2:
                t = np.clip(ref, -0.5, 1.5)
                if np.array_equal(t, ref):
                    saved = (p.serialize(), ref.copy(), k)
            elif o == 3 and saved:
                p.deserialize(saved[0])
                ref, k = saved[1].copy(), saved[2]
            elif o == 4:
                k = float(rng.uniform(0.5, 6))
                p.set_k(k)
            if not np.array_equal(p.encode(), ref) or p.k != k:
                raise Failure("history", "%s after %r: %r, expected %r" %
                              (cls.__name__, seq, p.encode(), ref))
        J = p.calculate_gradient()
        d = rng.normal(size=nv)
        h = 1e-6
        p.decode(ref + h * d)
        a = p.get_structure()
        p.decode(ref - h * d)
        num = (a - p.get_structure()) / (2 * h)
        if not np.allclose(J @ d, num, atol=1e-5 * (1 + np.abs(num).max())):
            raise Failure("Jacobian", "%s k=%r" % (cls.__name__, k))
        b = p.get_bounds()
        if len(b[0]) != nv or len(b[1]) != nv:
            raise Failure("bounds", "%d entries for %d parameters" %
                          (len(b[0]), nv))
        n += 1
    return dict(evaluations=n, distinct=n, samples=[dict(seed=seed)])


ITEMS = [
    Contract("C06.direct", c_direct, [F + "DirectParam", F + "Parametrization"],
             sym="obj", num=(80, 800)),
    Contract("C06.direct.init", c_direct_init, [F + "DirectParam.__init__"],
             sym="obj", num=(20, 200)),
    Contract("C06.cubic", c_cubic, [F + "CubicParam"], sym="obj",
             num=(80, 800)),
    Contract("C06.hermite", c_hermite, [F + "HermiteParam"], sym="obj",
             num=(60, 600)),
    Contract("C06.cubic.jacobian", c_cubic_jac,
             [F + "CubicParam.get_structure", F +
              "CubicParam.calculate_gradient"], sym="obj", num=(60, 600)),
    Contract("C06.hermite.jacobian", c_hermite_jac,
             [F + "HermiteParam.get_structure", F +
              "HermiteParam.calculate_gradient"], sym="obj", num=(60, 600)),
    Contract("C06.composite", c_composite, [C + "CompositeParam"], sym="obj",
             num=(80, 800), budget=150),
    Bounded("C06.grating", b_grating, [G + "GratingParam"],
            bound="random edge lists of up to 8 edges on up to 11 pixels"),
    Bounded("C06.history", b_real, [F + "CubicParam", F + "HermiteParam"],
            bound="random grids up to 5x5 control points, 6 operations"),
]
