"""C08: Yee-grid operators are the discrete Maxwell operators.

Every sparse operator is built by the real code with symbolic cell widths,
materials, frequency and Bloch vector, applied to a symbolic field, and
compared entry by entry with the difference formula written over 3D arrays.
"""
import itertools

import numpy as np

from vc.run import Contract, Bounded
from vc.harness import Failure

from spins import fdfd_tools
from spins.fdfd_tools import operators as op
from spins.fdfd_tools import functional as fn

LEVEL = "proof"
TECHNIQUE = ("contracts on the real operators, symbolic execution with exact "
             "sparse matrices over symbolic cell widths, fields, materials, "
             "Bloch vectors; normal form")
ASSUMPTIONS = [
    "grid shapes are a fixed list of small 3D shapes in the symbolic run "
    "(all values symbolic), random shapes up to 5 cells per axis numerically",
    "orthogonal shifts in at most one row of the shift matrix and smaller "
    "than the grid; shift distances up to the axis length",
    "Bloch vectors are real",
]
F = "spins/fdfd_tools/operators.py:"
G = "spins/fdfd_tools/functional.py:"
SHAPES = [(2, 2, 2), (3, 1, 2), (1, 2, 3), (2, 3, 1), (1, 1, 1)]
AX = (0, 1, 2)


def sq(f):
    return f


def shape_(B, shapes=SHAPES):
    if B.symbolic:
        return B.choose("shape", shapes)
    if B.choose("fixed", [True, False]):
        return B.choose("shape", shapes)
    return tuple(B.choose("n%d" % i, [1, 2, 3, 4, 5]) for i in AX)


def dxes_(B, shape, cplx=None, pos=False, tag="d"):
    """Cell widths on both grids; complex when stretched by PMLs."""
    cp = B.choose("pml", [False, True]) if cplx is None else cplx
    out = []
    for g in range(2):
        row = []
        for a in AX:
            nm = "%s%d%d" % (tag, g, a)
            if cp and not pos:
                v = B.cplx(nm, (shape[a], ))
                if not B.symbolic:
                    v = np.abs(v.real) + 0.5 - 1j * np.abs(v.imag)
            else:
                v = B.real(nm, (shape[a], ), pos=True)
                if not B.symbolic:
                    v = v + 0.1
            row.append(v)
        out.append(row)
    return out


def field(B, nm, shape):
    return [B.cplx("%s%d" % (nm, a), shape) for a in AX]


def vec(f):
    return fdfd_tools.vec(f)


def mat(B, nm, shape):
    """A vectorised material distribution without zeros."""
    v = B.cplx(nm, (3 * shape[0] * shape[1] * shape[2], ))
    if not B.symbolic:
        v = v + 3 + 0.5j
    return v


def omega_(B):
    w = B.cplx("omega") if B.symbolic else complex(
        1.3 + 0.2 * B.choose("w", [0, 1, 2]), 0.1)
    return w


def exp_(B, x):
    if B.symbolic:
        from vc.sym import sexp, as_s
        return sexp(as_s(x))
    return np.exp(x)


def rd(f, ix):
    r = f[ix]
    return r


def unv(v, shape):
    """Independent inverse of vec: x fastest, component slowest."""
    n = shape[0] * shape[1] * shape[2]
    out = []
    for c in range(3):
        a = np.empty(shape, dtype=object)
        for i, j, k in np.ndindex(*shape):
            a[i, j, k] = v[c * n + i + shape[0] * (j + shape[1] * k)]
        out.append(a)
    return out


def obj(f):
    r = np.empty(f.shape, dtype=object)
    for ix in np.ndindex(*f.shape):
        r[ix] = f[ix]
    return r


def at(f, ix, shape, axis, dist, phases, orth):
    """Value of f at ix moved by dist along axis on the Bloch-periodic grid."""
    B, ph = phases
    p = list(ix)
    p[axis] += dist
    over = 1 if p[axis] >= shape[axis] else (-1 if p[axis] < 0 else 0)
    for a in AX:
        if a != axis:
            p[a] += over * int(orth[a])
    val = f[tuple(q % n for q, n in zip(p, shape))]
    for a in AX:
        if p[a] >= shape[a]:
            val = val * exp_(B, -1j * ph[a])
        elif p[a] < 0:
            val = val * exp_(B, 1j * ph[a])
    return val


def tosum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def bloch_(B, dx, orth):
    """(bloch vector or None, phases per axis)."""
    if not B.choose("bloch", [False, True]):
        return None, [0, 0, 0]
    k = B.real("k", (3, ))
    ph = []
    for a in AX:
        # lattice vector: L_a along a, minus the orthogonal shifts
        q = tosum(dx[a][i] for i in range(len(dx[a]))) * k[a]
        for b in AX:
            if orth[a][b]:
                q = q - int(orth[a][b]) * dx[b][0] * k[b]
        ph.append(q)
    return k, ph


def orth_(B, shape):
    m = np.zeros((3, 3))
    if B.choose("orth", [False, True]):
        a = B.choose("orth axis", [0, 1, 2])
        b = B.choose("orth dir", [0, 1])
        b = [x for x in AX if x != a][b]
        s = B.choose("orth shift", [1, -1, 2])
        if abs(s) < shape[b]:
            m[a, b] = s
    return m


def curl(B, f, shape, dx, dist, ph, orth):
    """Difference formula: dist=+1 forward (curl of E), -1 backward (of H)."""
    def d(c, axis, ix):
        w = dx[axis][ix[axis]]
        moved = at(f[c], ix, shape, axis, dist, (B, ph), orth[axis])
        return (moved - f[c][ix]) / w if dist > 0 else (
            f[c][ix] - moved) / w
    out = [np.empty(shape, dtype=object) for _ in AX]
    for ix in np.ndindex(*shape):
        out[0][ix] = d(2, 1, ix) - d(1, 2, ix)
        out[1][ix] = d(0, 2, ix) - d(2, 0, ix)
        out[2][ix] = d(1, 0, ix) - d(0, 1, ix)
    return out


def cmp_field(B, v, want, shape, label):
    got = unv(v, shape)
    for c in AX:
        B.eq(arr(B, got[c]), arr(B, want[c]), "%s[%d]" % (label, c))


def arr(B, a):
    if B.symbolic:
        from vc.arrays import oarr, OArr
        return oarr(np.asarray(a, dtype=object).view(OArr))
    return np.asarray(a, dtype=complex)


# ------------------------------------------------------------- contracts
def c_vec(B):
    shape = shape_(B)
    f = field(B, "f", shape)
    v = vec(f)
    n = shape[0] * shape[1] * shape[2]
    B.holds(len(v) == 3 * n, "length")
    back = unv(v, shape)
    u = fdfd_tools.unvec(v, shape)
    for c in AX:
        B.eq(arr(B, back[c]), f[c], "layout")
        B.eq(u[c], f[c], "unvec(vec(f))")
    w = B.cplx("w", (3 * n, ))
    B.eq(vec(fdfd_tools.unvec(w, shape)), w, "vec(unvec(w))")
    B.holds(fdfd_tools.vec(None) is None and
            fdfd_tools.unvec(None, shape) is None, "None passes through")


def c_rotation(B):
    shape = shape_(B)
    axis = B.choose("axis", AX)
    dist = B.choose("dist", [1, -1, 2, -2, 0])
    if abs(dist) > shape[axis]:
        dist = 1 if dist > 0 else -1
    orth = orth_(B, shape)[axis]
    ph = B.real("ph", (3, ))
    f = B.cplx("f", shape)
    R = op.rotation_bloch_shift(axis, list(shape), dist, ph, orth)
    v = R @ f.flatten(order="F")
    want = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        want[ix] = at(f, ix, shape, axis, dist, (B, ph), orth)
    B.eq(v, arr(B, want).flatten(order="F"), "rotation_bloch_shift")
    # every cell's value goes to exactly one cell
    d = R.toarray() if hasattr(R, "toarray") else R
    if B.symbolic:
        nz = [(int(i), int(j)) for i, j in R.d]
    else:
        nz = list(zip(*[x.tolist() for x in np.nonzero(d)]))
    n = shape[0] * shape[1] * shape[2]
    B.holds(sorted(i for i, j in nz) == list(range(n)) and
            sorted(j for i, j in nz) == list(range(n)),
            "the shift is a permutation of the cells")


def c_rotation_old(B):
    shape = shape_(B)
    axis = B.choose("axis", AX)
    dist = B.choose("dist", [1, -1])
    p = B.real("ph")
    f = B.cplx("f", shape)
    R = op.rotation_bloch(axis, list(shape), p, dist)
    ph = [0, 0, 0]
    ph[axis] = p
    v = R @ f.flatten(order="F")
    want = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        want[ix] = at(f, ix, shape, axis, dist, (B, ph), [0, 0, 0])
    B.eq(v, arr(B, want).flatten(order="F"), "rotation_bloch")


def c_mirror(B):
    shape = shape_(B)
    axis = B.choose("axis", AX)
    n = shape[axis]
    dist = B.choose("dist", [1, -1, 2, -2, 0])
    if not -n <= dist < n:
        dist = 0
    f = B.cplx("f", shape)
    v = op.shift_with_mirror(axis, list(shape), dist) @ f.flatten(order="F")
    want = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        p = list(ix)
        q = p[axis] + dist
        p[axis] = q if 0 <= q < n else (2 * n - 1 - q if q >= n else -1 - q)
        want[ix] = f[tuple(p)]
    B.eq(v, arr(B, want).flatten(order="F"), "shift_with_mirror")


def c_avg(B):
    shape = shape_(B)
    axis = B.choose("axis", AX)
    fwd = B.choose("forward", [True, False])
    f = B.cplx("f", shape)
    A = (op.avgf if fwd else op.avgb)(axis, list(shape))
    v = A @ f.flatten(order="F")
    want = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        want[ix] = (f[ix] + at(f, ix, shape, axis, 1 if fwd else -1,
                               (B, [0] * 3), [0] * 3)) / 2
    B.eq(v, arr(B, want).flatten(order="F"), "average")


def c_cross(B):
    n = B.choose("n", [1, 2, 3])
    form = B.choose("form", ["flat", "columns"])
    a, b = B.cplx("a", (3, n)), B.cplx("b", (3, n))
    if form == "flat":
        A = op.vec_cross(a.reshape(3 * n))
    else:
        A = op.vec_cross(a.T if n == 3 or True else a)
    v = A @ b.reshape(3 * n)
    want = [[a[(c + 1) % 3][i] * b[(c + 2) % 3][i] -
             a[(c + 2) % 3][i] * b[(c + 1) % 3][i] for i in range(n)]
            for c in range(3)]
    B.eq(v, arr(B, np.array(want, dtype=object).reshape(3 * n)),
         "cross product")


def c_deriv(B):
    shape = shape_(B, SHAPES[:4])
    orth = orth_(B, shape)
    dx = dxes_(B, shape)[0]
    k, ph = bloch_(B, dx, orth)
    fwd = B.choose("forward", [True, False])
    f = B.cplx("f", shape)
    Ds = (op.deriv_forward_shift if fwd else op.deriv_back_shift)(
        dx, k, orth)
    for a in AX:
        v = Ds[a] @ f.flatten(order="F")
        want = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            m = at(f, ix, shape, a, 1 if fwd else -1, (B, ph), orth[a])
            d = (m - f[ix]) if fwd else (f[ix] - m)
            want[ix] = d / dx[a][ix[a]]
        B.eq(v, arr(B, want).flatten(order="F"), "derivative")


def c_deriv_old(B):
    shape = shape_(B, SHAPES[:4])
    dx = dxes_(B, shape, cplx=False)[0]
    orth = np.zeros((3, 3))
    k, ph = bloch_(B, dx, orth)
    fwd = B.choose("forward", [True, False])
    f = B.cplx("f", shape)
    Ds = (op.deriv_forward if fwd else op.deriv_back)(dx, k)
    for a in AX:
        v = Ds[a] @ f.flatten(order="F")
        want = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            m = at(f, ix, shape, a, 1 if fwd else -1, (B, ph), orth[a])
            want[ix] = ((m - f[ix]) if fwd else (f[ix] - m)) / dx[a][ix[a]]
        B.eq(v, arr(B, want).flatten(order="F"), "derivative")


def c_curl(B):
    shape = shape_(B, SHAPES[:4])
    orth = orth_(B, shape)
    dxes = dxes_(B, shape)
    e = B.choose("field", ["E", "H"])
    dx = dxes[0] if e == "E" else dxes[1]
    k, ph = bloch_(B, dx, orth)
    f = field(B, "f", shape)
    C = (op.curl_e if e == "E" else op.curl_h)(dxes, k, orth)
    want = curl(B, f, shape, dx, 1 if e == "E" else -1, ph, orth)
    cmp_field(B, C @ vec(f), want, shape, "curl_" + e.lower())
    if k is None and not orth.any():
        g = (fn.curl_e if e == "E" else fn.curl_h)(dxes)(f)
        for c in AX:
            B.eq(g[c], arr(B, want[c]), "functional curl_" + e.lower())


def mask_(B, nm, n):
    kind = B.choose(nm, ["none", "zero", "some", "alternating"])
    if kind == "none":
        return None, np.ones(n, dtype=int)
    m = {"zero": np.zeros(n), "some": np.arange(n) % 5 == 2,
         "alternating": np.arange(n) % 2}[kind].astype(float)
    if kind == "some":
        m = m * 2.5
    return m, (m == 0).astype(int)


def mask2(B, nm, n):
    kind = B.choose(nm, ["none", "some"])
    if kind == "none":
        return None, np.ones(n, dtype=int)
    m = ((np.arange(n) % 3 == 1) * 2).astype(float)
    return m, (m == 0).astype(int)


def c_efull(which):
    def c(B):
        shape = shape_(B, [(2, 1, 2), (1, 3, 1), (2, 2, 1)])
        n = 3 * shape[0] * shape[1] * shape[2]
        orth = np.zeros((3, 3))
        dxes = dxes_(B, shape)
        w = omega_(B)
        eps = mat(B, "eps", shape)
        mu = mat(B, "mu", shape) if B.choose("mu", [False, True]) else None
        pec, pe = mask2(B, "pec", n)
        pmc, pm = mask2(B, "pmc", n)
        args = (w, dxes, eps, mu, pec, pmc)
        f = field(B, "f", shape)
        v = vec(f)
        ce = lambda x: vec_(curl(B, unv(x, shape), shape, dxes[0], 1,
                                 [0] * 3, orth), shape)
        ch = lambda x: vec_(curl(B, unv(x, shape), shape, dxes[1], -1,
                                 [0] * 3, orth), shape)

        def vec_(g, shape):
            out = []
            for c_ in AX:
                for kk in range(shape[2]):
                    for j in range(shape[1]):
                        for i in range(shape[0]):
                            out.append(g[c_][i, j, kk])
            return out

        def mul(*xs):
            return [prod(t) for t in zip(*xs)]

        def prod(t):
            r = t[0]
            for x in t[1:]:
                r = r * x
            return r

        def sub(a, b):
            return [x - y for x, y in zip(a, b)]

        def inv(m):
            return [1 / m[i] for i in range(n)] if m is not None else [1] * n

        one = [1] * n
        muv = [mu[i] for i in range(n)] if mu is not None else one
        epv = [eps[i] for i in range(n)]
        vl = [v[i] for i in range(n)]
        if which == "e":
            x = mul(pe, vl)
            want = mul(pe, sub(ch(mul(pm, inv(mu), ce(x))),
                               [w * w * q for q in mul(epv, x)]))
            got = op.e_full(*args) @ v
            B.eq(got, arr(B, want), "e_full")
            if pec is None and pmc is None:
                fmu = None if mu is None else [
                    arr(B, m) for m in unv(mu, shape)]
                g = fn.e_full(w, dxes, [arr(B, q) for q in unv(eps, shape)],
                              fmu)(f)
                B.eq(vec(g), arr(B, want), "functional e_full")
        elif which == "h":
            x = mul(pm, vl)
            want = mul(pm, sub(ce(mul(pe, inv(eps), ch(x))),
                               [w * w * q for q in mul(muv, x)]))
            B.eq(op.h_full(*args) @ v, arr(B, want), "h_full")
        else:
            h = field(B, "h", shape)
            hv = vec(h)
            hl = [hv[i] for i in range(n)]
            xe, xh = mul(pe, vl), mul(pm, hl)
            top = mul(pe, sub(ch(xh), [1j * w * q for q in mul(epv, xe)]))
            bot = mul(pm, [a + 1j * w * b for a, b in
                           zip(ce(xe), mul(muv, xh))])
            A = op.eh_full(*args)
            both = arr(B, np.array(vl + hl, dtype=object))
            B.eq(A @ both, arr(B, np.array(top + bot, dtype=object)),
                 "eh_full")
            if pec is None and pmc is None:
                fmu = None if mu is None else [
                    arr(B, m) for m in unv(mu, shape)]
                ge, gh = fn.eh_full(
                    w, dxes, [arr(B, q) for q in unv(eps, shape)], fmu)(f, h)
                B.eq(vec(ge), arr(B, top), "functional eh_full e")
                B.eq(vec(gh), arr(B, bot), "functional eh_full h")
    return c


def c_convert(B):
    shape = shape_(B, [(2, 1, 2), (1, 3, 1), (2, 2, 1)])
    n = 3 * shape[0] * shape[1] * shape[2]
    orth = orth_(B, shape)
    dxes = dxes_(B, shape)
    w = omega_(B)
    which = B.choose("operator", ["e2h", "h2e", "m2j"])
    g = 0 if which == "e2h" else 1
    k, ph = bloch_(B, dxes[g], orth)
    f = field(B, "f", shape)
    m = mat(B, "m", shape) if which == "h2e" or B.choose(
        "mu", [False, True]) else None
    mu3 = unv(m, shape) if m is not None else None
    kw = {} if k is None else {"bloch_vec": k}
    if which == "e2h":
        pmc, pm = mask2(B, "pmc", n)
        c = curl(B, f, shape, dxes[0], 1, ph, orth)
        pm3 = unv(pm, shape)
        want = [pm3[a] * c[a] / (-1j * w) for a in AX]
        if m is not None:
            want = [x / y for x, y in zip(want, mu3)]
        A = op.e2h(w, dxes, mu=m, pmc=pmc, shift_orthogonal=orth, **kw)
        if k is None and pmc is None and not orth.any():
            gg = fn.e2h(w, dxes, None if m is None else
                        [arr(B, q) for q in mu3])(f)
            for a in AX:
                B.eq(gg[a], arr(B, want[a]), "functional e2h")
    elif which == "h2e":
        c = curl(B, f, shape, dxes[1], -1, ph, orth)
        want = [c[a] / (1j * w * mu3[a]) for a in AX]
        A = op.h2e(w, dxes, m, shift_orthogonal=orth, **kw)
    else:
        src = f if m is None else [obj(f[a]) / mu3[a] for a in AX]
        c = curl(B, src, shape, dxes[1], -1, ph, orth)
        want = [c[a] / (1j * w) for a in AX]
        A = op.m2j(w, dxes, mu=m, shift_orthogonal=orth, **kw)
    cmp_field(B, A @ vec(f), want, shape, which)


def c_divcurl(B):
    """div(curl) = 0 on both grids, from the operators' own derivatives."""
    shape = shape_(B, SHAPES[:4])
    # complex widths with a Bloch phase grow exponentially: symbolic run only
    dxes = dxes_(B, shape, cplx=None if B.symbolic else False)
    e = B.choose("field", ["E", "H"])
    dx = dxes[0] if e == "E" else dxes[1]
    k, ph = bloch_(B, dx, np.zeros((3, 3)))
    f = field(B, "f", shape)
    if e == "E":
        c, Ds = op.curl_e(dxes, k) @ vec(f), op.deriv_forward_shift(dx, k)
    else:
        c, Ds = op.curl_h(dxes, k) @ vec(f), op.deriv_back_shift(dx, k)
    n = shape[0] * shape[1] * shape[2]
    div = Ds[0] @ c[:n] + Ds[1] @ c[n:2 * n] + Ds[2] @ c[2 * n:]
    B.eq(div, arr(B, [0] * n), "div curl")


def c_symmetric(B):
    shape = shape_(B, [(2, 1, 2), (1, 3, 1), (2, 2, 1), (1, 1, 3)])
    dxes = dxes_(B, shape, cplx=False, pos=True)
    w = omega_(B)
    eps = mat(B, "eps", shape)
    n = 3 * shape[0] * shape[1] * shape[2]
    mu = mat(B, "mu", shape) if B.choose("mu", [False, True]) else None
    pec, _ = mask2(B, "pec", n)
    A = op.e_full(w, dxes, eps, mu, pec)
    Pl, Pr = op.e_full_preconditioners(dxes)
    M = Pl @ A @ Pr
    B.eq(M.toarray(), M.T.toarray(), "Pl A Pr is symmetric")
    I = (Pl @ Pr).toarray()
    B.eq(I, arr(B, np.eye(n)), "Pr = 1/Pl")


def c_symmetric_pml(B):
    """With complex (stretched) widths: numerically, principal roots."""
    shape = tuple(B.choose("n%d" % i, [1, 2, 3, 4]) for i in AX)
    dxes = dxes_(B, shape, cplx=True)
    eps = mat(B, "eps", shape)
    A = op.e_full(omega_(B), dxes, eps)
    Pl, Pr = op.e_full_preconditioners(dxes)
    M = (Pl @ A @ Pr).toarray()
    B.eq(M, M.T, "Pl A Pr is symmetric")


def c_poynting(which):
    def c(B):
        shape = shape_(B, [(2, 2, 2), (3, 1, 2), (1, 2, 3)])
        # conj([Hx]) also conjugates the area: real widths for this form
        dxes = dxes_(B, shape, cplx=False if which == "chew" else None)
        n = shape[0] * shape[1] * shape[2]
        E, H = field(B, "e", shape), field(B, "h", shape)
        z = (B, [0] * 3)
        o = [0] * 3

        def sh(f, a, d):
            r = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                r[ix] = at(f, ix, shape, a, d, z, o)
            return r

        def avf(f, a):
            return (obj(f) + sh(f, a, 1)) / 2

        def avb(f, a):
            return (obj(f) + sh(f, a, -1)) / 2

        def width(g, a):
            r = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                r[ix] = dxes[g][a][ix[a]]
            return r

        want = []
        if which == "chew":
            S = op.poynting_chew_e_cross(vec(E), dxes) @ np.conj(vec(H)) \
                if not B.symbolic else op.poynting_chew_e_cross(
                    vec(E), dxes) @ vec(H).conj()
            Hx = op.poynting_chew_h_cross(vec(H), dxes)
            S2 = -(Hx.conj() @ vec(E)) if True else None
            for a in AX:
                b, c_ = (a + 1) % 3, (a + 2) % 3
                Hb, Hc = obj(H[b].conj()), obj(H[c_].conj())
                area = width(0, b) * width(0, c_)
                want.append((sh(E[b], a, 1) * Hc - sh(E[c_], a, 1) * Hb) *
                            area)
            cmp_field(B, S, want, shape, "E x H* (Chew), e form")
            # the H form applied to E, with the widths of the cells: the
            # same product
            cmp_field(B, S2, want, shape, "E x H* (Chew), h form")
        elif which == "e":
            S = op.poynting_e_cross(vec(E), dxes) @ vec(H)
            for a in AX:
                b, c_ = (a + 1) % 3, (a + 2) % 3
                t1 = avf(obj(E[b]) * width(0, b) * avb(
                    obj(H[c_]) * width(1, c_), b), a)
                t2 = avf(obj(E[c_]) * width(0, c_) * avb(
                    obj(H[b]) * width(1, b), c_), a)
                want.append(t1 - t2)
            cmp_field(B, S, want, shape, "E x H")
        else:
            S = op.poynting_h_cross(vec(H), dxes) @ vec(E)
            for a in AX:
                b, c_ = (a + 1) % 3, (a + 2) % 3
                t1 = avb(obj(H[b]) * width(1, b) * avf(
                    obj(E[c_]) * width(0, c_), a), c_)
                t2 = avb(obj(H[c_]) * width(1, c_) * avf(
                    obj(E[b]) * width(0, b), a), b)
                want.append(t1 - t2)
            cmp_field(B, S, want, shape, "H x E")
    return c


def b_defaults(tier, seed):
    """Default arguments are not changed by any call (no shared state)."""
    rng = np.random.default_rng(seed)
    n = 0
    shape = (2, 3, 2)
    dxes = [[rng.uniform(0.5, 1.5, s) for s in shape] for _ in range(2)]
    saved = [[d.copy() for d in r] for r in dxes]
    eps = rng.uniform(1, 4, 36).astype(complex)
    first = {}
    for rep in range(3):
        for nm, f in [("e_full", lambda: op.e_full(1.2, dxes, eps)),
                      ("h_full", lambda: op.h_full(1.2, dxes, eps)),
                      ("eh", lambda: op.eh_full(1.2, dxes, eps)),
                      ("ce", lambda: op.curl_e(dxes)),
                      ("ch", lambda: op.curl_h(dxes)),
                      ("e2h", lambda: op.e2h(1.2, dxes)),
                      ("h2e", lambda: op.h2e(1.2, dxes, eps)),
                      ("m2j", lambda: op.m2j(1.2, dxes)),
                      ("rot", lambda: op.rotation_bloch_shift(1, shape))]:
            m = f().toarray()
            n += 1
            if nm in first and not np.array_equal(first[nm], m):
                raise Failure("repeatable", nm)
            first.setdefault(nm, m)
            for r, s in zip(dxes, saved):
                for a, b in zip(r, s):
                    if not np.array_equal(a, b):
                        raise Failure("frame", nm + " changed the grid")
    return dict(evaluations=n, distinct=n, samples=[sorted(first)])


ITEMS = [
    Contract("C08.vec", c_vec, ["spins/fdfd_tools/vectorization.py:vec",
                                "spins/fdfd_tools/vectorization.py:unvec"],
             sym="obj", num=(20, 200)),
    Contract("C08.rotation_bloch_shift", c_rotation,
             [F + "rotation_bloch_shift"], sym="obj", num=(60, 600),
             max_instances=1200, budget=60),
    Contract("C08.rotation_bloch", c_rotation_old, [F + "rotation_bloch"],
             sym="obj", num=(30, 300)),
    Contract("C08.shift_with_mirror", c_mirror, [F + "shift_with_mirror"],
             sym="obj", num=(40, 300)),
    Contract("C08.average", c_avg, [F + "avgf", F + "avgb"], sym="obj",
             num=(20, 200)),
    Contract("C08.cross", c_cross, [F + "cross", F + "vec_cross"], sym="obj",
             num=(12, 100)),
    Contract("C08.derivative", c_deriv, [F + "deriv_forward_shift",
                                         F + "deriv_back_shift"], sym="obj",
             num=(60, 400), max_instances=2500, budget=90),
    Contract("C08.derivative_old", c_deriv_old,
             [F + "deriv_forward", F + "deriv_back"], sym="obj",
             num=(20, 200)),
    Contract("C08.curl", c_curl, [F + "curl_e", F + "curl_h", G + "curl_e",
                                  G + "curl_h"], sym="obj", num=(60, 400),
             max_instances=2500, budget=120),
    Contract("C08.e_full", c_efull("e"), [F + "e_full", G + "e_full"],
             sym="obj", num=(30, 200), budget=120),
    Contract("C08.h_full", c_efull("h"), [F + "h_full"], sym="obj",
             num=(30, 200), budget=120),
    Contract("C08.eh_full", c_efull("eh"), [F + "eh_full", G + "eh_full"],
             sym="obj", num=(30, 200), budget=120),
    Contract("C08.convert", c_convert, [F + "e2h", F + "h2e", F + "m2j",
                                        G + "e2h"], sym="obj", num=(60, 400),
             max_instances=2500, budget=120),
    Contract("C08.div_curl", c_divcurl, [F + "curl_e", F + "curl_h"],
             sym="obj", num=(20, 200), budget=60),
    Contract("C08.symmetric", c_symmetric, [F + "e_full",
                                            F + "e_full_preconditioners"],
             sym="obj", num=(20, 200), budget=60),
    Contract("C08.symmetric_pml", c_symmetric_pml,
             [F + "e_full_preconditioners"], sym=None, num=(20, 200),
             bound="complex widths: random grids up to 4 cells per axis"),
    Contract("C08.poynting_chew", c_poynting("chew"),
             [F + "poynting_chew_e_cross", F + "poynting_chew_h_cross"],
             sym="obj", num=(15, 100), budget=60),
    Contract("C08.poynting_e", c_poynting("e"), [F + "poynting_e_cross"],
             sym="obj", num=(15, 100), budget=60),
    Contract("C08.poynting_h", c_poynting("h"), [F + "poynting_h_cross"],
             sym="obj", num=(15, 100), budget=60),
    Bounded("C08.frame", b_defaults, [F + "e_full"],
            bound="repeated calls on one grid"),
]
