"""C09: PML stretching touches only the requested absorbing layers."""
import numpy as np

from vc.run import Contract, Bounded
from vc.harness import Failure

from spins.fdfd_tools import grid as g

LEVEL = "proof"
TECHNIQUE = ("contracts on the real functions, symbolic execution over "
             "symbolic cell widths and frequency; normal form and z3")
ASSUMPTIONS = [
    "the layers of opposite sides do not overlap (their counts add up to at "
    "most the number of cells)",
    "cell counts are enumerated up to 5 per axis; widths, frequency and "
    "effective permittivity are symbolic",
    "apply_scpml is the entry point that promises a new grid; "
    "stretch_with_scpml documents that it stretches the list it is given",
]
F = "spins/fdfd_tools/grid.py:"
AX = (0, 1, 2)


def tosum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def grid_(B, ns):
    out = []
    for gr in range(2):
        row = []
        for a in AX:
            v = B.real("d%d%d" % (gr, a), (ns[a], ), pos=True)
            if not B.symbolic:
                v = v + 0.05
            row.append(v)
        out.append(row)
    return out


def scal(B, nm):
    v = B.real(nm, (), pos=True)
    return v if B.symbolic else float(v) + 0.05


def sqrt_(B, x):
    if B.symbolic:
        from vc.sym import power, HALF, as_s
        return power(as_s(x), HALF)
    return np.sqrt(x)


def factor(B, dx, i, dual, side, t, w, epsr, lnR=-16, m=4):
    """Stretch factor of cell i; side 0: low end, 1: high end."""
    n = len(dx)
    edge = [tosum(dx[:j]) if j else 0 for j in range(n + 1)]
    x = edge[i] if dual else edge[i] + dx[i] / 2
    if side == 0:
        d = edge[t]
        depth = edge[t] - x
    else:
        d = edge[n] - edge[n - t]
        depth = x - edge[n - t]
    l = depth / d
    lm = 1
    for _ in range(m):
        lm = lm * l
    return 1 + 1j * ((m + 1) * lnR / 2) * lm / (d * sqrt_(B, epsr) * w)


def expected(B, dxes, layers, w, epsr=1, **k):
    out = [[None] * 3, [None] * 3]
    for a in AX:
        n = len(dxes[0][a])
        for gr in range(2):
            row = []
            for i in range(n):
                v = dxes[gr][a][i]
                lo, hi = layers[2 * a], layers[2 * a + 1]
                if i < lo:
                    v = v * factor(B, dxes[0][a], i, gr == 1, 0, lo, w, epsr,
                                   **k)
                if i >= n - hi:
                    v = v * factor(B, dxes[0][a], i, gr == 1, 1, hi, w, epsr,
                                   **k)
                row.append(v)
            out[gr][a] = row
    return out


def arr(B, xs):
    if B.symbolic:
        from vc.arrays import oarr
        return oarr(np.array(list(xs), dtype=object))
    return np.array(list(xs), dtype=complex)


def cmp_grid(B, got, want, label):
    for gr in range(2):
        for a in AX:
            B.eq(arr(B, got[gr][a]), arr(B, want[gr][a]),
                 "%s grid %d axis %d" % (label, gr, a))


def c_apply(B):
    ns = [3, 2, 2]
    a = B.choose("axis", AX)
    ns[a] = B.choose("n", [2, 3, 4, 5])
    lo = B.choose("lo", [0, 1, 2, 3])
    hi = B.choose("hi", [0, 1, 2])
    if lo + hi > ns[a]:
        lo, hi = 1, 1
    other = B.choose("other", [0, 1])
    layers = [other] * 6
    layers[2 * a], layers[2 * a + 1] = lo, hi
    dxes = grid_(B, ns)
    keep = [[v.copy() for v in r] for r in dxes]
    ids = [[id(v) for v in r] for r in dxes]
    w = scal(B, "w")
    form = B.choose("form", ["list", "tuple"])
    out = g.apply_scpml(dxes, layers if form == "list" else tuple(layers), w)
    cmp_grid(B, out, expected(B, keep, layers, w), "stretch")
    cmp_grid(B, dxes, keep, "caller's grid")
    B.holds(ids == [[id(v) for v in r] for r in dxes] and
            all(out[gr][i] is not dxes[gr][i] for gr in range(2)
                for i in AX), "the result does not share storage")


def c_apply_same(B):
    """An integer applies to all six sides; None and 0 to none."""
    ns = [2, 3, 4]
    p = B.choose("layers", [None, 0, 1])
    dxes = grid_(B, ns)
    keep = [[v.copy() for v in r] for r in dxes]
    w = scal(B, "w")
    out = g.apply_scpml(dxes, p, w)
    cmp_grid(B, out, expected(B, keep, [p or 0] * 6, w), "stretch")
    cmp_grid(B, dxes, keep, "caller's grid")
    B.holds(all(out[gr][i] is not dxes[gr][i] for gr in range(2)
                for i in AX), "the result does not share storage")


def c_stretch(B):
    ns = [3, 2, 2]
    a = B.choose("axis", AX)
    ns[a] = B.choose("n", [1, 2, 3, 4])
    pol = B.choose("polarity", [1, -1])
    t = min(B.choose("t", [1, 2, 3]), ns[a])
    dxes = grid_(B, ns)
    keep = [[v.copy() for v in r] for r in dxes]
    w, e = scal(B, "w"), scal(B, "epsr")
    cust = B.choose("custom", [False, True])
    kw = dict(s_function=g.prepare_s_function(-12, 3)) if cust else {}
    out = g.stretch_with_scpml(dxes, a, pol, w, e, t, **kw)
    layers = [0] * 6
    layers[2 * a + (0 if pol > 0 else 1)] = t
    k = dict(lnR=-12, m=3) if cust else {}
    cmp_grid(B, out, expected(B, keep, layers, w, e, **k), "stretch")


def c_monotone(B):
    """Real parts unchanged; attenuation from zero inside to the edge."""
    n = B.choose("n", [2, 3] if B.symbolic else [3, 4, 5, 8])
    t = B.choose("t", [1, 2] if B.symbolic else [1, 2, 3])
    pol = B.choose("polarity", [1, -1])
    axis = B.choose("axis", AX)
    ns = [1, 1, 1]
    ns[axis] = n
    dxes = grid_(B, ns)
    keep = [[v.copy() for v in r] for r in dxes]
    w = scal(B, "w")
    layers = [0] * 6
    layers[2 * axis + (0 if pol > 0 else 1)] = t
    out = g.apply_scpml(dxes, layers, w)
    rel = []
    for gr in range(2):
        o, k = out[gr][axis], keep[gr][axis]
        B.eq(arr(B, [o[i].real for i in range(n)]), arr(B, k), "real part")
        rel.append([-(o[i].imag) / k[i] for i in range(n)])
    # depth grows with the distance from the inner boundary; the primary
    # cell i is centred half a cell above the dual position i
    seq = []
    idx = range(n) if pol < 0 else range(n - 1, -1, -1)
    for i in idx:
        pair = [rel[1][i], rel[0][i]] if pol < 0 else [rel[0][i], rel[1][i]]
        seq += pair
    for x, y in zip(seq, seq[1:]):
        B.holds(y - x >= (0 if B.symbolic else -1e-12 * (1 + abs(x))),
                "attenuation grows outwards")
    B.holds(seq[0] >= 0, "no gain")
    if B.symbolic:
        B.holds(seq[-1] > 0, "attenuates at the outer edge")
    else:
        B.holds(seq[-1] > 0, "attenuates at the outer edge")


def c_uniform(B):
    n = [3, 4, 5]
    a = B.choose("axis", AX)
    n[a] = B.choose("n", [2, 4, 6])
    t = [0, 0, 0]
    t[a] = B.choose("t", [0, 1, 2])
    t[a] = min(t[a], n[a] // 2)
    w, e = scal(B, "w"), scal(B, "epsr")
    out = g.uniform_grid_scpml(n, t, w, e)
    want = [[None] * 3, [None] * 3]
    for gr in range(2):
        for b in AX:
            row = []
            for i in range(n[b]):
                u = i + (0.5 if gr else 0)
                if t[b]:
                    l = (max(t[b] - u, 0) + max(u - (n[b] - t[b]), 0)) / t[b]
                    row.append(1 + 1j * (5 * -16 / 2 * l**4) /
                               (sqrt_(B, e) * w))
                else:
                    row.append(1)
            want[gr][b] = row
    cmp_grid(B, out, want, "uniform")


ITEMS = [
    Contract("C09.apply_scpml", c_apply, [F + "apply_scpml",
                                          F + "stretch_with_scpml"],
             sym="obj", num=(60, 500), max_instances=1000, budget=120),
    Contract("C09.apply_scpml.same", c_apply_same, [F + "apply_scpml"],
             sym="obj", num=(10, 60), budget=60),
    Contract("C09.stretch_with_scpml", c_stretch,
             [F + "stretch_with_scpml", F + "prepare_s_function"], sym="obj",
             num=(60, 500), max_instances=1000, budget=90),
    Contract("C09.monotone", c_monotone, [F + "apply_scpml"], sym="obj",
             num=(60, 500), budget=90),
    Contract("C09.uniform_grid_scpml", c_uniform,
             [F + "uniform_grid_scpml"], sym="obj", num=(20, 100)),
]
