"""C23: waveguide modes, mode sources and mode overlaps.

The eigen-solver is used by contract (it returns some eigenpair of the
operator it is given); what the repository builds from an eigenpair is decided
symbolically:

* the eigenvalue problem is the reduced Maxwell problem: for EVERY vector v and
  wavenumber, the residual of the discrete Maxwell equations of the fields
  built from v is the residual of the eigenvalue problem;
* the fields are normalised to unit power and placed on the requested slice,
  axis and direction;
* the source current is exactly the current that makes "the mode on one side
  of the slice, nothing on the other" a solution of the wave equation (an
  operator identity for arbitrary fields);
* overlap vectors evaluate the mode orthogonality integral, normalised.
"""
import contextlib
import inspect
import types

import numpy as np

from vc.run import Contract, Bounded
from vc.harness import Failure
from vc.contracts.c08 import arr, exp_, unv

from spins import fdfd_tools
from spins.fdfd_tools import operators as op
from spins.fdfd_tools import waveguide as wg
from spins.fdfd_solvers import waveguide_mode as wm
from spins.gridlock import Direction

LEVEL = "proof"
TECHNIQUE = ("contracts on the real mode, source and overlap functions, "
             "symbolic execution over fields, materials, cell widths, "
             "wavenumber and frequency with the eigen-solver used by "
             "contract; normal form and z3")
ASSUMPTIONS = [
    "ARPACK (scipy.sparse.linalg.eigs) and the Rayleigh iteration converge to "
    "eigenpairs of the operator given: checked on a bounded set of cross "
    "sections only",
    "real permittivity and permeability in the mode operator, guided modes "
    "(positive squared wavenumber), equal cell widths along the propagation "
    "axis around the slice",
    "cross sections of a fixed list of small shapes with all values symbolic",
    "the angled and photonic-crystal variants and the duplicate module "
    "spins/fdfd_tools/waveguide_mode.py are outside (they index arrays with "
    "lists of slices, an error in the installed numpy)",
]
W = "spins/fdfd_tools/waveguide.py:"
S = "spins/fdfd_solvers/waveguide_mode.py:"
AX = (0, 1, 2)
SH2 = [(2, 2), (3, 1), (1, 3), (3, 2)]


@contextlib.contextmanager
def patched(obj, **kw):
    old = {k: getattr(obj, k) for k in kw}
    for k, v in kw.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(obj, k, v)


def bound(fn, a, k):
    """Arguments by name, however the call is written."""
    b = inspect.signature(fn).bind(*a, **k)
    return dict(b.arguments)


def widths(B, shape, tag="d"):
    out = []
    for g in range(2):
        row = []
        for a, n in enumerate(shape):
            v = B.real("%s%d%d" % (tag, g, a), (n, ), pos=True)
            row.append(v if B.symbolic else v + 0.2)
        out.append(row)
    return out


def pos(B, nm, shape=()):
    v = B.real(nm, shape, pos=True)
    return v if B.symbolic else v + 0.3


def flat(B, xs):
    return arr(B, np.array(list(xs) + [None], dtype=object)[:-1])


def d2(f, axis, dist, dx):
    """Periodic difference quotient of a 2D array."""
    out = np.empty(f.shape, dtype=object)
    for ix in np.ndindex(*f.shape):
        p = list(ix)
        p[axis] = (p[axis] + dist) % f.shape[axis]
        dif = f[tuple(p)] - f[ix] if dist > 0 else f[ix] - f[tuple(p)]
        out[ix] = dif / dx[axis][ix[axis]]
    return out


def un2(v, shape, k):
    n = shape[0] * shape[1]
    out = []
    for c in range(k):
        a = np.empty(shape, dtype=object)
        for i, j in np.ndindex(*shape):
            a[i, j] = v[c * n + i + shape[0] * j]
        out.append(a)
    return out


def cmp2(B, got, want, label):
    B.eq(arr(B, got), arr(B, want), label)


def setup2(B):
    shape = B.choose("shape", SH2) if B.symbolic else (
        B.choose("nx", [1, 2, 3, 4]), B.choose("ny", [1, 2, 3]))
    n = shape[0] * shape[1]
    dx = widths(B, shape)
    eps = pos(B, "eps", (3 * n, ))
    mu = pos(B, "mu", (3 * n, )) if B.choose("mu", [False, True]) else None
    w, beta = pos(B, "w"), pos(B, "beta")
    v = B.cplx("v", (2 * n, ))
    return shape, n, dx, eps, mu, w, beta, v


def c_mode(B):
    """Fields of an eigenpair satisfy the discrete Maxwell equations."""
    shape, n, dx, eps, mu, w, beta, v = setup2(B)
    A = wg.operator(w, dx, eps, mu)
    h = un2(wg.v2h(v, beta, dx, mu), shape, 3)
    e = un2(wg.v2e(v, beta, w, dx, eps, mu), shape, 3)
    ep = un2(eps, shape, 3)
    m = un2(mu, shape, 3) if mu is not None else [
        np.full(shape, 1, dtype=object)] * 3
    V = un2(v, shape, 2)
    cmp2(B, h[0], V[0], "Hx is the eigenvector")
    cmp2(B, h[1], V[1], "Hy is the eigenvector")
    df = lambda f, a: d2(f, a, 1, dx[0])
    db = lambda f, a: d2(f, a, -1, dx[1])
    # Ampere: curl H = i w eps E with d/dz = -i beta
    ch = [db(h[2], 1) + 1j * beta * h[1], -1j * beta * h[0] - db(h[2], 0),
          db(h[1], 0) - db(h[0], 1)]
    for c in AX:
        cmp2(B, ch[c], 1j * w * ep[c] * e[c], "Ampere's law")
    # magnetic flux is divergence free
    cmp2(B, df(m[0] * h[0], 0) + df(m[1] * h[1], 1),
         1j * beta * m[2] * h[2], "div B")
    # Faraday: its residual is the residual of the eigenvalue problem
    ce = [df(e[2], 1) + 1j * beta * e[1], -1j * beta * e[0] - df(e[2], 0),
          df(e[1], 0) - df(e[0], 1)]
    r = [ce[c] + 1j * w * m[c] * h[c] for c in AX]
    R = un2(A @ v, shape, 2)
    R = [R[c] - beta * beta * V[c] for c in range(2)]
    cmp2(B, 1j * w * ep[1] * r[0], -R[0], "Faraday x = eigenvalue equation")
    cmp2(B, 1j * w * ep[0] * r[1], -R[1], "Faraday y = eigenvalue equation")
    cmp2(B, df(r[0], 0) + df(r[1], 1), 1j * beta * r[2], "Faraday z")


def c_fieldops(B):
    """curl, e2h and h2e of the waveguide module."""
    shape, n, dx, eps, mu, w, beta, v = setup2(B)
    f = B.cplx("f", (3 * n, ))
    F = un2(f, shape, 3)
    m = un2(mu, shape, 3) if mu is not None else [
        np.full(shape, 1, dtype=object)] * 3
    ep = un2(eps, shape, 3)
    for nm, mat, dist, g, sc in (
            ("curl_e", wg.curl_e(beta, dx), 1, 0, None),
            ("curl_h", wg.curl_h(beta, dx), -1, 1, None),
            ("e2h", wg.e2h(beta, w, dx, mu), 1, 0,
             [-1j * w * m[c] for c in AX]),
            ("h2e", wg.h2e(beta, w, dx, eps), -1, 1,
             [1j * w * ep[c] for c in AX])):
        D = lambda q, a: d2(q, a, dist, dx[g])
        want = [D(F[2], 1) + 1j * beta * F[1], -1j * beta * F[0] - D(F[2], 0),
                D(F[1], 0) - D(F[0], 1)]
        got = un2(mat @ f, shape, 3)
        for c in AX:
            k = got[c] * sc[c] if sc is not None else got[c]
            cmp2(B, k, want[c], nm)


def power2(B, e, h, dx):
    """Power through the cross section: the flux the discrete equations
    conserve. E_x and H_y lie at the same transverse position, in a cell of
    the primary width along x and the dual width along y."""
    shape = e[0].shape
    tot = 0
    for i, j in np.ndindex(*shape):
        tot = tot + e[0][i, j] * np.conj(h[1][i, j]) * dx[0][0][i] * \
            dx[1][1][j]
        tot = tot - e[1][i, j] * np.conj(h[0][i, j]) * dx[1][0][i] * \
            dx[0][1][j]
    return 0.5 * np.real(tot)


def c_normal(B):
    """Unit power, one common factor, fixed phase."""
    shape = B.choose("shape", [(2, 1), (1, 2), (2, 2), (3, 1)])
    n = shape[0] * shape[1]
    dx = widths(B, shape)
    e0, h0 = B.cplx("e", (3 * n, )), B.cplx("h", (3 * n, ))
    w, beta = pos(B, "w"), pos(B, "beta")
    with patched(wg, v2e=lambda *a, **k: e0 * 1, v2h=lambda *a, **k: h0 * 1):
        P0 = power2(B, un2(e0, shape, 3), un2(h0, shape, 3), dx)
        B.assume(P0 > 0)
        e, h = wg.normalized_fields(flat(B, [1] * (2 * n)), beta, w, dx,
                                    flat(B, [1] * (3 * n)))
    P = power2(B, un2(e, shape, 3), un2(h, shape, 3), dx)
    B.eq(P, 1, "unit power")
    # one common factor
    for k in range(3 * n):
        B.eq(e[k] * h0[0], e0[k] * h[0], "common factor of E")
        B.eq(h[k] * h0[0], h0[k] * h[0], "common factor of H")


def to3(B, a2, axis):
    """2D array over (axis+1, axis+2) as a slice of a 3D array."""
    a2 = np.asarray(a2)
    r = a2[:, :, None]
    # (u, v, w) = (axis+1, axis+2, axis): move to x, y, z
    src = [0, 0, 0]
    src[(axis + 1) % 3], src[(axis + 2) % 3], src[axis] = 0, 1, 2
    return r.transpose(src)


def c_place(B):
    """solve_waveguide_mode: cross section handed over, mode placed."""
    axis = B.choose("axis", AX)
    polarity = B.choose("polarity", [1, -1])
    correct = B.choose("correction", [None, True, False])
    sh = [4, 3, 5] if not B.symbolic else [3, 3, 3]
    lo = [1, 0, 1]
    sl = [slice(lo[a], sh[a]) for a in AX]
    k0 = B.choose("at", [0, 1, 2])
    sl[axis] = slice(k0, k0 + 1)
    eps = [pos(B, "e%d" % a, tuple(sh)) for a in AX]
    mu = [pos(B, "m%d" % a, tuple(sh)) for a in AX] if B.choose(
        "mu", [False, True]) else None
    dx = widths(B, sh)
    w, beta = pos(B, "w"), pos(B, "beta")
    u, v = (axis + 1) % 3, (axis + 2) % 3
    size = (sl[u].stop - sl[u].start, sl[v].stop - sl[v].start)
    E2 = [B.cplx("E%d" % c, size) for c in AX]
    H2 = [B.cplx("H%d" % c, size) for c in AX]
    E0 = [np.array(x) if not B.symbolic else x.copy() for x in E2]
    H0 = [np.array(x) if not B.symbolic else x.copy() for x in H2]
    seen = []

    orig = wm.solve_waveguide_mode_2d

    def stub(*a, **k):
        seen.append(bound(orig, a, k))
        return {"E": E2, "H": H2, "wavenumber": beta}

    kw = {} if correct is None else dict(wavenumber_correction=correct)
    with patched(wm, solve_waveguide_mode_2d=stub):
        out = wm.solve_waveguide_mode(
            mode_number=2, omega=w, dxes=dx, axis=axis, polarity=polarity,
            slices=sl, epsilon=eps, mu=mu, **kw)
    k = seen[0]
    B.holds(len(seen) == 1 and k["mode_number"] == 2, "mode number")
    B.eq(k["omega"], w, "frequency")
    ts = tuple(sl)
    perm = (u, v, axis)
    for g in range(2):
        for a in range(2):
            B.eq(k["dxes"][g][a], dx[g][perm[a]][sl[perm[a]]], "cell widths")
    for nm, m in (("epsilon", eps), ("mu", mu)):
        got = un2(k[nm], size, 3)
        for c in range(3):
            for i, j in np.ndindex(*size):
                p = [0, 0, 0]
                p[u], p[v], p[axis] = sl[u].start + i, sl[v].start + j, k0
                want = 1 if m is None else m[perm[c]][tuple(p)]
                B.eq(got[c][i, j], want, nm)
    B.eq(out["wavenumber"], beta, "wavenumber")
    mid = (dx[0][axis][k0] + dx[1][axis][k0]) / 2
    ph = exp_(B, -polarity * 0.5j * beta * mid)
    for c in AX:
        # component c of the local frame is component perm[c]
        for ix in np.ndindex(*sh):
            i, j = ix[u] - sl[u].start, ix[v] - sl[v].start
            e = h = 0
            if ix[axis] == k0 and 0 <= i < size[0] and 0 <= j < size[1]:
                e, h = E0[c][i, j], H0[c][i, j]
                if polarity < 0:
                    e, h = np.conj(e), -np.conj(h)
                h = h * ph
            B.eq(out["E"][perm[c]][ix], e, "E placed")
            B.eq(out["H"][perm[c]][ix], h, "H placed")


def curl3(f, shape, dx, dist):
    def d(c, axis, ix):
        p = list(ix)
        p[axis] = (p[axis] + dist) % shape[axis]
        v = f[c][tuple(p)] - f[c][ix] if dist > 0 else \
            f[c][ix] - f[c][tuple(p)]
        return v / dx[axis][ix[axis]]
    out = [np.empty(shape, dtype=object) for _ in AX]
    for ix in np.ndindex(*shape):
        out[0][ix] = d(2, 1, ix) - d(1, 2, ix)
        out[1][ix] = d(0, 2, ix) - d(2, 0, ix)
        out[2][ix] = d(1, 0, ix) - d(0, 1, ix)
    return out


def c_source(B):
    """compute_source: A (mask E) = mask (A E) + i w J for every field E.

    Hence, if E solves the wave equation around the slice, the current J
    radiates (minus) E on the requested side and nothing on the other side.
    """
    axis = B.choose("axis", AX)
    polarity = B.choose("polarity", [1, -1])
    n = 4
    k0 = 2
    shape = [2, 1, 2]
    if B.choose("thin", [0, 1]):
        shape = [1, 2, 2]
    shape[axis] = n
    shape = tuple(shape)
    dx = widths(B, shape)
    dz = pos(B, "dz")
    for g in range(2):
        dx[g][axis] = flat(B, [dz] * n) if B.symbolic else np.full(n, dz)
    eps = [pos(B, "e%d" % a, shape) for a in AX]
    mu = [pos(B, "m%d" % a, shape) for a in AX] if B.choose(
        "mu", [False, True]) else None
    m = mu if mu is not None else [1, 1, 1]
    w, beta = pos(B, "w"), pos(B, "beta")
    E = [B.cplx("E%d" % c, shape) for c in AX]

    def H_of(e):
        c_ = curl3(e, shape, dx[0], 1)
        return [c_[c] / (-1j * w * m[c]) for c in AX]

    def A(e):
        h = H_of(e)
        c_ = curl3(h, shape, dx[1], -1)
        # curl (1/mu) curl E - w^2 eps E
        return [-1j * w * c_[c] - w * w * eps[c] * e[c] for c in AX]

    H = H_of(E)
    # what solve_waveguide_mode would return for this field: E on the slice,
    # H of the slice half a cell further (the code moves it back by a cell)
    back = exp_(B, -1j * polarity * beta * dz)
    Em = [np.zeros(shape, dtype=object) for _ in AX]
    Hm = [np.zeros(shape, dtype=object) for _ in AX]
    for ix in np.ndindex(*shape):
        if ix[axis] == k0:
            p = list(ix)
            p[axis] -= 1
            for c in AX:
                Em[c][ix] = E[c][ix]
                Hm[c][ix] = H[c][tuple(p)] * back
    Em = [arr(B, x) for x in Em]
    Hm = [arr(B, x) for x in Hm]
    sl = [slice(0, s) for s in shape]
    sl[axis] = slice(k0, k0 + 1)
    J = wm.compute_source(E=Em, H=Hm, wavenumber=beta, omega=w, dxes=dx,
                          axis=axis, polarity=polarity, slices=sl, mu=mu)
    inside = (lambda k: k >= k0) if polarity > 0 else (lambda k: k < k0)
    mask = [np.empty(shape, dtype=object) for _ in AX]
    for ix in np.ndindex(*shape):
        for c in AX:
            mask[c][ix] = E[c][ix] if inside(ix[axis]) else 0 * E[c][ix]
    AE, AM = A(E), A(mask)
    for ix in np.ndindex(*shape):
        k = ix[axis]
        if k not in (k0 - 1, k0):
            # the periodic end of the small grid is not part of the claim
            for c in AX:
                B.eq(J[c][ix], 0, "current only at the slice")
            continue
        for c in AX:
            want = AE[c][ix] if inside(k) else 0
            # (with the sign of the code: the radiated field is -E)
            B.eq(AM[c][ix], want + 1j * w * J[c][ix],
                 "source current radiates one way")


def c_overlap(B):
    """compute_overlap_e: the mode orthogonality integral, normalised."""
    axis = B.choose("axis", AX)
    polarity = B.choose("polarity", [1, -1])
    shape = [2, 1, 1] if B.choose("t", [0, 1]) else [1, 2, 1]
    shape[axis] = 3
    shape = tuple(shape)
    k0 = 1
    dx = widths(B, shape)
    w = pos(B, "w")
    mu = pos(B, "mu", (3 * int(np.prod(shape)), )) if B.choose(
        "mu", [False, True]) else None
    beta = B.real("beta", pos=True)
    if B.symbolic:
        # concrete widths along the axis: few phases of the mode
        for g in range(2):
            dx[g][axis] = np.array([1.0, 1.0 + g, 2.0])
    E = [np.zeros(shape, dtype=object) for _ in AX]
    H = [np.zeros(shape, dtype=object) for _ in AX]
    for c in AX:
        a, b = B.cplx("E%d" % c, shape), B.cplx("H%d" % c, shape)
        for ix in np.ndindex(*shape):
            if ix[axis] == k0:
                E[c][ix], H[c][ix] = a[ix], b[ix]
            else:
                E[c][ix], H[c][ix] = 0 * a[ix], 0 * b[ix]
    E, H = [arr(B, x) for x in E], [arr(B, x) for x in H]
    sl = [slice(0, s) for s in shape]
    sl[axis] = slice(k0, k0 + 1)
    C = wm.compute_overlap_e(E=E, H=H, wavenumber=beta, omega=w, dxes=dx,
                             axis=axis, polarity=polarity, slices=sl, mu=mu)
    # the mode everywhere: exp(-+ i beta z) from the slice
    Ee = [np.empty(shape, dtype=object) for _ in AX]
    He = [np.empty(shape, dtype=object) for _ in AX]
    for ix in np.ndindex(*shape):
        p = list(ix)
        p[axis] = k0
        for out, src, g in ((Ee, E, 0), (He, H, 1)):
            z = sum(dx[g][axis][:ix[axis] + 1]) - sum(dx[g][axis][:k0 + 1])
            for c in AX:
                out[c][ix] = src[c][tuple(p)] * exp_(
                    B, -1j * polarity * beta * float(z))
    Ev = fdfd_tools.vec([arr(B, x) for x in Ee])
    Hv = fdfd_tools.vec([arr(B, x) for x in He])
    hc = op.poynting_h_cross(Hv, dx)
    ec = op.poynting_e_cross(Ev, dx)
    e2h = op.e2h(w, dx, mu)

    def integral(f):
        t = unv(ec @ (e2h @ f) - hc @ f, shape)[axis]
        tot = 0
        for ix in np.ndindex(*shape):
            if ix[axis] == k0:
                tot = tot + t[ix]
        return tot

    f = B.cplx("f", (Ev.shape[0], ))
    Cv = fdfd_tools.vec(C)
    # C.f = integral(f) / |integral(mode)|
    nrm = integral(Ev)
    nrm = abs(nrm) if not B.symbolic else nrm.__abs__()
    B.eq(dot(Cv, f) * nrm, integral(f),
         "normalised mode orthogonality integral")


def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = r + x * y
    return r


def modefields(seed, shape, axis, k0):
    rng = np.random.RandomState(seed)
    out = []
    for _ in range(2):
        f = [np.zeros(shape, dtype=complex) for _ in AX]
        for c in AX:
            for ix in np.ndindex(*shape):
                if ix[axis] == k0:
                    f[c][ix] = complex(rng.randint(-9, 10) / 4,
                                       rng.randint(-9, 10) / 4)
        out.append(f)
    return out


def c_build(B):
    """build_waveguide_source / build_overlap: request, phase and power.

    The mode solver and the current/overlap functions are used by contract.
    """
    which = B.choose("which", ["source", "overlap"])
    axis = B.choose("axis", AX)
    polarity = B.choose("polarity", [1, -1])
    form = B.choose("slices", ["slices", "corners"])
    ax = B.choose("axis form", ["int", "direction"])
    p = pos(B, "p")
    shape = (3, 2, 4)
    k0 = 1
    E, H = modefields(B.choose("mode fields", [0, 1]), shape, axis, k0)
    dx = [[np.ones(s) for s in shape] for _ in range(2)]
    eps = [np.ones(shape) for _ in AX]
    mu = [1 + np.arange(24.0).reshape(shape) + c for c in AX]
    if which == "source" and B.choose("mu", [False, True]):
        mu = None
    sl = [slice(0, s) for s in shape]
    sl[axis] = slice(k0, k0 + 1)
    arg = [s for s in sl] if form == "slices" else (
        [s.start for s in sl], [s.stop - 1 for s in sl])
    seen, used = [], []

    orig = wm.solve_waveguide_mode
    orig2 = wm.compute_source if which == "source" else wm.compute_overlap_e

    def modes(*a, **k):
        seen.append(bound(orig, a, k))
        return {"E": [x.copy() for x in E], "H": [x.copy() for x in H],
                "wavenumber": 0.4}

    F = B.cplx("F", (3, ) + shape)

    def current(*a, **k):
        used.append(bound(orig2, a, k))
        return F.copy()

    kw = dict(omega=1.3, dxes=dx, eps=eps, mu=mu,
              axis=Direction(axis) if ax == "direction" else axis,
              waveguide_slice=arg, polarity=polarity, mode_num=1)
    with patched(wm, solve_waveguide_mode=modes, compute_source=current,
                 compute_overlap_e=current):
        if which == "source":
            outs = [wm.build_waveguide_source(power=p * p, **kw)]
            o, wn = wm.build_waveguide_source(power=p * p,
                                              get_wavenumber=True, **kw)
            outs.append(o)
            B.holds(wn == 0.4, "wavenumber returned")
        else:
            outs = [wm.build_overlap(power=p * p, **kw)]
    for got in outs:
        for c in AX:
            B.eq(got[c], p * F[c], "scaled by sqrt(power)")
    # the phase is fixed by the strongest point of E
    E2 = sum(abs(x)**2 for x in E)
    ix = np.unravel_index(np.argmax(E2), E2.shape)
    comp = int(np.argmax([abs(x[ix]) for x in E]))
    ph = E[comp][ix] / abs(E[comp][ix])
    for k, u in zip(seen, used):
        B.holds(k["mode_number"] == 1 and
                k["omega"] == 1.3 and k["dxes"] is dx and
                k["axis"] == axis and list(k["slices"]) == sl and
                k["polarity"] == polarity and k["epsilon"] is eps and
                k.get("mu") is mu, "mode request")
        B.holds(u["wavenumber"] == 0.4 and u["omega"] == 1.3 and
                u["dxes"] is dx and u["axis"] == axis and
                u["polarity"] == polarity and list(u["slices"]) == sl,
                "field arguments")
        m = u.get("mu")
        if which == "source":
            B.holds(m is mu, "permeability")
        else:
            B.holds(bool(np.array_equal(m, fdfd_tools.vec(mu))),
                    "permeability")
        for c in AX:
            B.holds(bool(np.allclose(u["E"][c], E[c] / ph, 1e-12, 1e-14) and
                         np.allclose(u["H"][c], H[c] / ph, 1e-12, 1e-14)),
                    "phase of the mode")


def c_request(B):
    """Plan and goos descriptions of mode sources and overlaps."""
    from spins import goos
    from spins.goos_sim import maxwell
    from spins.invdes.problem_graph import creator_em as em
    from spins.invdes.problem_graph import optplan
    api = B.choose("api", ["plan", "goos"])
    which = B.choose("which", ["source", "overlap"])
    axis = B.choose("axis", AX)
    polarity = B.choose("polarity", [1, -1])
    length = B.choose("normal length", [1, 2.5])
    k0 = B.choose("at", [1, 3])
    wl = B.choose("wavelength", [1.0, 1550.0])
    mode, power = B.choose("mode", [(0, 1.0), (2, 0.25)])
    size = (4, 5, 6)
    ec = [np.arange(n + 1) * 10.0 for n in size]
    cen, ext = [20.0, 20.0, 30.0], [20.0, 20.0, 40.0]
    cen[axis], ext[axis] = 10.0 * k0 + 5, 0
    nrm = [0, 0, 0]
    nrm[axis] = polarity * length
    want = [slice(1, 3), slice(1, 3), slice(1, 5)]
    want[axis] = slice(k0, k0 + 1)
    out = B.cplx("J", (3, ) + size)
    seen = []
    name = "build_waveguide_source" if which == "source" else "build_overlap"
    orig = getattr(wm, name)

    def build(*a, **k):
        seen.append(bound(orig, a, k))
        return [out[c] for c in AX]

    eps = [np.full(size, 2.0 + c) for c in AX]
    dxes = [[np.full(n, 10.0) for n in size] for _ in range(2)]
    with patched(wm, **{name: build}):
        if api == "plan":
            asked = []

            class Space:
                edge_coords = ec

                def __call__(self, w):
                    asked.append(w)
                    return types.SimpleNamespace(
                        eps_bg=types.SimpleNamespace(grids=eps))

            sp = Space()
            sp.dxes = dxes
            cls = "WaveguideModeSource" if which == "source" else \
                "WaveguideModeOverlap"
            node = getattr(em, cls)(getattr(optplan, cls)(
                center=cen, extents=ext, normal=nrm, mode_num=mode,
                power=power))
            got = node(sp, wl, solver=None)
            B.holds(asked == [wl] * len(asked) and bool(asked),
                    "permittivity at the wavelength")
            for c in AX:
                B.eq(got[c], out[c], "returned")
        else:
            from spins.goos_sim.maxwell import simulate as gsim
            from spins import gridlock
            g = gridlock.Grid(ec, num_grids=3)
            sim = types.SimpleNamespace(wlen=wl, dxes=dxes, eps=eps, grid=g,
                                        source=out * 0, fields=out)
            kw = dict(center=cen, extents=ext, normal=nrm, mode_num=mode,
                      power=power)
            if which == "source":
                im = gsim.WaveguideModeSourceImpl(
                    gsim.WaveguideModeSource(**kw))
                first = B.cplx("J0", (3, ) + size)
                sim.source = first.copy()
                im.before_sim(sim)
                B.eq(sim.source, first + out, "added to the other sources")
            else:
                im = gsim.WaveguideModeOverlapImpl(
                    gsim.WaveguideModeOverlap(wavelength=wl, **kw))
                im.before_sim(sim)
                f = B.cplx("f", (3, ) + size)
                sim.fields = f
                B.eq(im.eval(sim).array,
                     dot(out.flatten(), f.flatten()), "overlap")
    B.holds(len(seen) == 1, "one mode solve")
    k = seen[0]
    B.holds(abs(k["omega"] * wl / (2 * np.pi) - 1) < 1e-12 and
            k["dxes"] is dxes and k["eps"] is eps and k.get("mu") is None,
            "simulation of the mode")
    B.holds(k["mode_num"] == mode and k["power"] == power and
            (k["axis"].value if isinstance(k["axis"], Direction)
             else k["axis"]) == axis and k["polarity"] == polarity,
            "mode, power and direction")
    B.holds(list(k["waveguide_slice"]) == want, "mode plane")


# -------------------------------------------------------------------- bounded
def guide(axis, trans, n, nt, nh, dz, dt, core, rib=None):
    t = (axis + 1 + trans) % 3
    th = 3 - axis - t
    shape, d = [0] * 3, [0] * 3
    shape[axis], shape[t], shape[th] = n, nt, nh
    d[axis], d[t], d[th] = dz, dt, dt
    dx = [[np.full(shape[a], float(d[a])) for a in AX] for _ in range(2)]
    eps = np.full([3] + shape, 2.25)
    # different claddings on the two sides: no mirror symmetry
    lo = [slice(None)] * 4
    lo[1 + t] = slice(0, nt // 2)
    eps[tuple(lo)] = 1.5
    c = (np.arange(nt) - nt / 2 + 0.5) * dt
    sl = [slice(None)] * 3
    sl[t] = np.abs(c) < core
    if nh > 1 and rib:
        ch = (np.arange(nh) - nh / 2 + 0.5) * dt
        m = np.zeros(shape, dtype=bool)
        m[tuple(sl)] = True
        q = np.abs(ch) < rib
        s2 = [None] * 3
        s2[th] = slice(None)
        m &= q[tuple(s2)]
        for a in AX:
            eps[a][m] = 12.25
    else:
        for a in AX:
            eps[a][tuple(sl)] = 12.25
    return shape, dx, list(eps)


def b_modes(tier, seed):
    """The computed mode is the requested eigenmode of the cross section."""
    rng = np.random.RandomState(seed)
    ev, samples = 0, []
    cases = [(12, 1, 0.0), (1, 14, 0.3), (8, 7, 0.2), (9, 9, 0.0)]
    if tier != "quick":
        cases = cases * 4
    for q, (nx, ny, nonuni) in enumerate(cases):
        dx = [[60 * (1 + nonuni * rng.rand(s)) for s in (nx, ny)]
              for _ in range(2)]
        core = np.zeros((nx, ny), dtype=bool)
        core[nx // 4:nx - nx // 4, ny // 4:ny - ny // 4] = True
        # no symmetry: distinct wavenumbers
        eps = np.where(core, 10 + 2 * rng.rand(nx, ny), 2.0)
        v = np.concatenate([eps.flatten(order="F")] * 3)
        w = 2 * np.pi / 1550
        A = wg.operator(w, dx, v, np.ones_like(v)).toarray()
        ref = np.sort(np.linalg.eigvals(A).real)[::-1]
        for mode in range(2):
            if ref[mode] <= 0 or abs(ref[mode] - ref[mode + 1]) < 1e-3 * abs(
                    ref[mode]):
                continue
            np.random.seed(seed)
            r = wm.solve_waveguide_mode_2d(mode, w, dx, v, np.ones_like(v),
                                           wavenumber_correction=False)
            ev += 1
            b = r["wavenumber"]
            if not abs(b * b - ref[mode]) <= 1e-6 * abs(ref[mode]):
                raise Failure("mode.wavenumber",
                              "mode %d of a %dx%d cross section: squared "
                              "wavenumber %r, eigenvalue %r" %
                              (mode, nx, ny, b * b, ref[mode]))
            e, h = fdfd_tools.vec(r["E"]), fdfd_tools.vec(r["H"])
            e2 = [np.asarray(x).reshape(nx, ny) for x in r["E"]]
            h2 = [np.asarray(x).reshape(nx, ny) for x in r["H"]]
            df = lambda f, a: d2(f, a, 1, dx[0]).astype(complex)
            db = lambda f, a: d2(f, a, -1, dx[1]).astype(complex)
            fy = [df(e2[2], 1) + 1j * b * e2[1] + 1j * w * h2[0],
                  -1j * b * e2[0] - df(e2[2], 0) + 1j * w * h2[1],
                  df(e2[1], 0) - df(e2[0], 1) + 1j * w * h2[2],
                  db(h2[2], 1) + 1j * b * h2[1] - 1j * w * eps * e2[0],
                  -1j * b * h2[0] - db(h2[2], 0) - 1j * w * eps * e2[1],
                  db(h2[1], 0) - db(h2[0], 1) - 1j * w * eps * e2[2]]
            scale = w * max(np.linalg.norm(h), np.linalg.norm(e))
            err = max(np.linalg.norm(x) for x in fy) / scale
            P = power2(None, e2, h2, dx)
            if not err < 1e-5:
                raise Failure("mode.maxwell", "mode %d of a %dx%d cross "
                              "section violates Maxwell's equations: "
                              "relative error %g" % (mode, nx, ny, err))
            if not abs(P - 1) < 1e-6:
                raise Failure("mode.power", "power %r" % P)
        samples.append("%dx%d cells, non-uniformity %g" % (nx, ny, nonuni))
    return dict(evaluations=ev, distinct=ev, samples=samples[:3])


def b_radiate(tier, seed):
    """Power forward and backward of the real source, simulated."""
    from spins.fdfd_solvers.local_matrix_solvers import DirectSolver
    ev, samples = 0, []
    cases = []
    for axis in AX:
        for polarity in (1, -1):
            cases.append((axis, polarity, (axis + (polarity > 0)) % 2,
                          (axis + 1) % 2, 1, 1.0 + axis))
    cases.append((0, 1, 0, 0, 8, 2.0))
    if tier != "quick":
        for axis in AX:
            for polarity in (1, -1):
                for trans in (0, 1):
                    for mode in (0, 1):
                        cases.append((axis, polarity, trans, mode, 1, 0.25))
                cases.append((axis, polarity, 1, 0, 8, 3.0))
    for axis, polarity, trans, mode, nh, power in cases:
        n, npml, dz = (44, 10, 20.0) if nh == 1 else (20, 5, 30.0)
        nt = 30 if nh == 1 else 9
        shape, dx, eps = guide(axis, trans, n, nt, nh, dz,
                               40.0 if nh == 1 else 90.0, 200, 160)
        w = 2 * np.pi / 1550.0
        sl = [slice(0, s) for s in shape]
        k0 = n // 2

        def plane(k):
            s = list(sl)
            s[axis] = slice(k, k + 1)
            return s

        np.random.seed(seed)
        kw = dict(omega=w, dxes=dx, eps=eps, axis=axis, mode_num=mode)
        J = wm.build_waveguide_source(mu=None, waveguide_slice=plane(k0),
                                      polarity=polarity, power=power, **kw)
        one = [np.ones(shape)] * 3
        o = 4
        Cf = wm.build_overlap(mu=one, waveguide_slice=plane(k0 + o * polarity),
                              polarity=polarity, power=1.0, **kw)
        Cb = wm.build_overlap(mu=one, waveguide_slice=plane(k0 - o * polarity),
                              polarity=-polarity, power=1.0, **kw)
        pml = [0] * 6
        pml[2 * axis] = pml[2 * axis + 1] = npml
        E = DirectSolver().solve(omega=w, dxes=dx, J=fdfd_tools.vec(J),
                                 epsilon=fdfd_tools.vec(eps), pml_layers=pml)
        H = op.e2h(w, dx) @ E
        P = fdfd_tools.unvec(0.5 * np.real(
            op.poynting_chew_e_cross(E, dx) @ np.conj(H)), shape)[axis]
        P = P.sum(axis=tuple(a for a in AX if a != axis))
        fwd = polarity * P[k0 + o * polarity] / power
        bwd = polarity * P[k0 - o * polarity] / power
        of = abs(fdfd_tools.vec(Cf) @ E) / np.sqrt(power)
        ob = abs(fdfd_tools.vec(Cb) @ E) / np.sqrt(power)
        ev += 1
        what = "axis %d, polarity %d, mode %d, cross section %r" % (
            axis, polarity, mode, (nt, nh))
        tol = 0.02 if nh == 1 else 0.03
        if not abs(fwd - 1) < tol:
            raise Failure("source.power", "%s: radiates %.4g of the requested "
                          "power" % (what, fwd))
        if not abs(bwd) < (1e-3 if nh == 1 else 1e-2):
            raise Failure("source.backward", "%s: %.3g of the power goes "
                          "backwards" % (what, bwd))
        if not abs(of - 1) < (0.005 if nh == 1 else 0.01):
            raise Failure("overlap.forward", "%s: the mode overlap of the "
                          "unit-power field is %.4g" % (what, of))
        if not ob < (0.02 if nh == 1 else 0.1):
            raise Failure("overlap.backward", "%s: the overlap with the "
                          "opposite mode is %.3g" % (what, ob))
        samples.append("%s: forward %.4f backward %.1e overlap %.4f" %
                       (what, fwd, bwd, of))
    return dict(evaluations=ev, distinct=ev, samples=samples[:3])


ITEMS = [
    Contract("C23.mode equations", c_mode,
             [W + "operator", W + "v2h", W + "v2e"], sym="obj", num=(20, 200)),
    Contract("C23.field operators", c_fieldops,
             [W + "curl_e", W + "curl_h", W + "e2h", W + "h2e"], sym="obj",
             num=(20, 200)),
    Contract("C23.normalisation", c_normal, [W + "normalized_fields"],
             sym="obj", num=(20, 200)),
    Contract("C23.placement", c_place, [S + "solve_waveguide_mode"],
             sym="obj", num=(30, 200)),
    Contract("C23.source current", c_source, [S + "compute_source"],
             sym="obj", num=(30, 200)),
    Contract("C23.overlap", c_overlap, [S + "compute_overlap_e"], sym="obj",
             num=(30, 200)),
    Contract("C23.build", c_build,
             [S + "build_waveguide_source", S + "build_overlap"], sym="obj",
             num=(96, 200)),
    Contract("C23.requests", c_request,
             ["spins/invdes/problem_graph/creator_em.py:WaveguideModeSource",
              "spins/invdes/problem_graph/creator_em.py:WaveguideModeOverlap",
              "spins/goos_sim/maxwell/simulate.py:WaveguideModeSourceImpl",
              "spins/goos_sim/maxwell/simulate.py:WaveguideModeOverlapImpl"],
             sym="obj", num=(40, 100)),
    Bounded("C23.eigenmodes", b_modes, [S + "solve_waveguide_mode_2d"],
            bound="cross sections of up to 81 cells, first two modes"),
    Bounded("C23.radiation", b_radiate,
            [S + "build_waveguide_source", S + "build_overlap"],
            bound="slab guides along each axis and direction and one 3D "
            "guide, simulated with the direct solver"),
]
