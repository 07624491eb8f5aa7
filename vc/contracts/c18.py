"""C18: selection matrices blend between background and foreground."""
import itertools

import numpy as np

from vc.run import Contract, Bounded
from vc.harness import Failure
from vc import sym
from vc.facade import concrete

from spins.gridlock import selection_matrix as sm
from spins.invdes.problem import selection_matrix as sm_old

LEVEL = "proof"
TECHNIQUE = ("contracts on the real selection-matrix code executed with "
             "symbolic permittivities and structures over enumerated shapes "
             "and design rectangles (exact sparse matrices), normal form and "
             "z3; the index bookkeeping enumerated exhaustively on small "
             "grids")
ASSUMPTIONS = [
    "the design region is a rectangle of half cells and the permittivities "
    "differ on exactly the cells it overlaps (what drawing a box on the "
    "half-cell lattice gives); a region covering all but one half cell of a "
    "period is taken to cover the period",
    "grid shapes and rectangles are enumerated up to 3 x 3 x 2 cells "
    "(proof: all values; the matrices' index structure depends on nothing "
    "else); larger shapes sampled",
]
M = "spins/gridlock/selection_matrix.py:"
O = "spins/invdes/problem/selection_matrix.py:"


def cell_pixels(c, i, j, nx, ny):
    """Half-cell pixels overlapped by cell (i, j) of component c."""
    dx = 0 if c == 0 else 1
    dy = 0 if c == 1 else 1
    return [((2 * i - dx + a) % (2 * nx), (2 * j - dy + b) % (2 * ny))
            for a in (0, 1) for b in (0, 1)]


def inside(p, b):
    return b[0][0] <= p[0] <= b[1][0] and b[0][1] <= p[1] <= b[1][1]


def fractions(shape, b):
    """How many of the four quarters of each cell lie in the design."""
    f = np.zeros((3, ) + tuple(shape))
    for c in range(3):
        for i, j in np.ndindex(*shape[:2]):
            f[c, i, j, :] = sum(inside(p, b) for p in cell_pixels(
                c, i, j, shape[0], shape[1])) / 4
    return f


def ambiguous(shape, b):
    """All but one half cell of a period: the gap cannot be seen."""
    return any(b[1][a] - b[0][a] + 1 == 2 * shape[a] - 1 for a in (0, 1))


CASES = []
for _s in ((1, 1, 1), (2, 1, 1), (1, 2, 2), (2, 2, 1), (3, 2, 1)):
    for _b in ([[0, 0], [0, 0]], [[0, 0], [1, 1]], [[1, 0], [2, 1]],
               [[1, 1], [2, 2]], [[0, 1], [3, 2]], [[2, 0], [5, 3]],
               [[1, 1], [4, 2]], [[3, 3], [3, 3]]):
        if _b[1][0] < 2 * _s[0] and _b[1][1] < 2 * _s[1]:
            CASES.append((_s, _b))


def c_selection(B):
    """bg + S x: background, foreground and the average in between."""
    shape, b = B.choose("case", CASES)
    area = (b[1][0] - b[0][0] + 1, b[1][1] - b[0][1] + 1)
    f = fractions(shape, b)
    bg = [B.cplx("bg%d" % c, shape) for c in range(3)]
    df = [B.cplx("df%d" % c, shape) for c in range(3)]
    fg = [bg[c] + df[c] * (f[c] > 0) for c in range(3)]
    keep = sm.calculate_design_bounds
    sm.calculate_design_bounds = lambda *a, **k: [list(b[0]), list(b[1])]
    try:
        S, dims = sm.create_selection_matrix(bg, fg, return_param_dims=True)
        S2 = sm.create_selection_matrix(bg, fg)
    finally:
        sm.calculate_design_bounds = keep
    if tuple(int(d) for d in dims) != area:
        raise Failure("dimensions", "%r for a design of %r" % (dims, area))
    n = area[0] * area[1]
    if tuple(S.shape) != (3 * int(np.prod(shape)), n):
        raise Failure("shape", repr(S.shape))
    x = B.real("x", (n, ))
    y = S @ x
    want = []
    for c in range(3):
        for k in range(shape[2]):
            for j in range(shape[1]):
                for i in range(shape[0]):
                    px = [p for p in cell_pixels(c, i, j, shape[0], shape[1])
                          if inside(p, b)]
                    tot = 0
                    for p in px:
                        tot = tot + x[p[0] - b[0][0] + area[0] *
                                      (p[1] - b[0][1])]
                    want.append(df[c][i, j, k] * (tot / max(len(px), 1)) if
                                px else 0 * x[0])
    B.eq(y, np.array(want, dtype=object) if B.symbolic else np.array(want),
         "average of the overlapping design pixels")
    one = S @ np.ones(n)
    d = [fg[c] - bg[c] for c in range(3)]
    flat = [d[c][i, j, k] for c in range(3) for k in range(shape[2])
            for j in range(shape[1]) for i in range(shape[0])]
    B.eq(one, np.array(flat, dtype=object) if B.symbolic else np.array(flat),
         "all ones give the foreground")
    B.eq(S2 @ x, y, "same matrix without the dimensions")


def c_bounds(B):
    """The design rectangle is recovered from the permittivities."""
    shape, b = B.choose("case", [c for c in CASES if not ambiguous(*c)])
    f = fractions(shape, b)
    bg = [B.cplx("bg%d" % c, shape) for c in range(3)]
    d = B.cplx("d") if B.choose("complex", [False, True]) else B.real("d")
    if B.symbolic:
        B.assume(abs(d) > 0)
    elif abs(d) < 1e-2:
        d = 1.0
    fg = [bg[c] + d * f[c] for c in range(3)]
    B.fork()
    got = sm.calculate_design_bounds(bg, fg)
    if [[int(v) for v in r] for r in got] != b:
        raise Failure("design bounds", "%r, drawn %r on %r" % (got, b, shape))
    B.holds(True, "bounds")


def c_reduced(B):
    """Reduced form: one variable per cell of the design."""
    shape = B.choose("shape", [(2, 2, 1), (3, 2, 1), (2, 3, 2), (4, 3, 1)])
    cells = [(a, c) for a in range(shape[0]) for c in range(a, shape[0])]
    rows = [(a, c) for a in range(shape[1]) for c in range(a, shape[1])]
    (x0, x1), (y0, y1) = B.choose("x", cells), B.choose("y", rows)
    bg = [B.cplx("bg%d" % c, shape) for c in range(3)]
    df = [B.cplx("df%d" % c, shape) for c in range(3)]
    mask = np.zeros(shape)
    mask[x0:x1 + 1, y0:y1 + 1] = 1
    fg = [bg[c] + df[c] * mask for c in range(3)]
    for red in (True, False):
        bounds = [[x0, y0], [x1, y1]]
        S, dims = sm.create_selection_matrix_deprecated(
            bg, fg, bounds, reduced=red, return_param_dims=True)
        area = [(x1 - x0 + 1) * (1 if red else 2),
                (y1 - y0 + 1) * (1 if red else 2)]
        if [int(v) for v in dims] != area:
            raise Failure("dimensions", "%r, expected %r" % (dims, area))
        n = area[0] * area[1]
        if S.shape[1] != n:
            raise Failure("shape", repr(S.shape))
        one = S @ np.ones(n)
        flat = [(df[c] * mask)[i, j, k] for c in range(3)
                for k in range(shape[2]) for j in range(shape[1])
                for i in range(shape[0])]
        B.eq(one, np.array(flat, dtype=object) if B.symbolic else
             np.array(flat), "all ones give the foreground")


def weights(S, label, detail):
    A = np.asarray(S.todense()) if hasattr(S, "todense") else np.asarray(S)
    if A.min() < -1e-12:
        raise Failure(label, "negative weight; " + detail)
    r = A.sum(axis=1)
    if not np.all((np.abs(r) < 1e-12) | (np.abs(r - 1) < 1e-9)):
        raise Failure(label, "weights of a cell sum to %r; %s" %
                      (r[(np.abs(r) >= 1e-12) & (np.abs(r - 1) >= 1e-9)],
                       detail))
    return A, r


def b_lattice(tier, seed):
    """Every rectangle on every small grid: exact averages."""
    ev = 0
    shapes = [s for s in itertools.product((1, 2, 3), (1, 2, 3), (1, 2))]
    if tier == "quick":
        shapes = [s for s in shapes if s[2] == 1 or s[:2] == (2, 3)]
    for s in shapes:
        spans = [[(a, c) for a in range(2 * n) for c in range(a, 2 * n)]
                 for n in s[:2]]
        for (x0, x1), (y0, y1) in itertools.product(*spans):
            b = [[x0, y0], [x1, y1]]
            S, dims = sm.direct_lattice(s, b, True)
            det = "shape %r bounds %r" % (s, b)
            A, r = weights(S, "direct lattice", det)
            area = [x1 - x0 + 1, y1 - y0 + 1]
            if list(dims) != area or A.shape != (3 * np.prod(s),
                                                 np.prod(area)):
                raise Failure("direct lattice", "dimensions; " + det)
            want = np.zeros_like(A)
            for c in range(3):
                for k, j, i in itertools.product(range(s[2]), range(s[1]),
                                                 range(s[0])):
                    px = [p for p in cell_pixels(c, i, j, s[0], s[1])
                          if inside(p, b)]
                    row = c * int(np.prod(s)) + i + s[0] * (j + s[1] * k)
                    for p in px:
                        want[row, p[0] - x0 + area[0] *
                             (p[1] - y0)] += 1 / len(px)
            if not np.allclose(A, want, atol=1e-12):
                raise Failure("direct lattice", "not the average of the "
                              "overlapping pixels; " + det)
            ev += 1
    return dict(evaluations=ev, distinct=ev, exhaustive=True, samples=[
        "every rectangle of half cells on grids up to 3 x 3 cells"])


def b_end_to_end(tier, seed):
    """Real bounds search with random permittivities."""
    rng = np.random.RandomState(seed)
    ev = 0
    for _ in range(150 if tier == "quick" else 2000):
        s = tuple(rng.randint(1, 6, size=3))
        x = sorted(rng.randint(0, 2 * s[0], size=2))
        y = sorted(rng.randint(0, 2 * s[1], size=2))
        b = [[x[0], y[0]], [x[1], y[1]]]
        f = fractions(s, b)
        bg = [rng.uniform(1, 4, size=s) + 0j for _ in range(3)]
        # layers in z: the design occupies some of them
        z = rng.randint(0, 2, size=s[2])
        z[rng.randint(s[2])] = 1
        d = rng.uniform(0.5, 9) * np.exp(1j * rng.uniform(0, 6.2))
        # the contrast may vary from cell to cell
        g = [np.exp(rng.uniform(-3, 0, size=s)) if rng.rand() < 0.5 else 1.0
             for _ in range(3)]
        fg = [bg[c] + d * f[c] * z * g[c] for c in range(3)]
        k0 = [np.array(v) for v in bg + fg]
        S, dims = sm.create_selection_matrix(bg, fg, return_param_dims=True)
        det = "shape %r design %r layers %r" % (s, b, z)
        if list(dims) != [x[1] - x[0] + 1, y[1] - y[0] + 1] and \
                not ambiguous(s, b):
            raise Failure("dimensions", "%r; %s" % (dims, det))
        vec = lambda v: np.hstack([t.ravel(order="F") for t in v])
        n = int(np.prod(dims))
        if S.shape[1] != n:
            raise Failure("number of design pixels", det)
        if not np.allclose(vec(bg) + S @ np.ones(n), vec(fg)):
            raise Failure("foreground", det)
        st = rng.uniform(size=n)
        if np.any((np.abs(S @ st) > 1e-12) & (vec(fg) == vec(bg))):
            raise Failure("changes a cell outside the design", det)
        if any(not np.array_equal(p, q) for p, q in zip(k0, bg + fg)):
            raise Failure("inputs changed", det)
        # reduced: whole-cell region
        cx = sorted(rng.randint(0, s[0], size=2))
        cy = sorted(rng.randint(0, s[1], size=2))
        m = np.zeros(s)
        m[cx[0]:cx[1] + 1, cy[0]:cy[1] + 1] = z
        fg = [bg[c] + d * m for c in range(3)]
        S, dims = sm.create_selection_matrix(bg, fg, reduced=True,
                                             return_param_dims=True)
        if [int(v) for v in dims] != [cx[1] - cx[0] + 1, cy[1] - cy[0] + 1]:
            raise Failure("reduced dimensions", "%r %r %r" % (dims, cx, cy))
        if not np.allclose(vec(bg) + S @ np.ones(int(np.prod(dims))),
                           vec(fg)):
            raise Failure("reduced foreground", "%r %r %r" % (s, cx, cy))
        ev += 2
    try:
        sm.create_selection_matrix(bg, [np.array(v) for v in bg])
    except ValueError:
        pass
    else:
        raise Failure("no design region", "accepted")
    return dict(evaluations=ev, distinct=ev, samples=[
        "random grids up to 5 x 5 x 5, complex permittivities, layered"])


def b_legacy(tier, seed):
    """Cell-averaging and whole-cell lattices."""
    ev = 0
    for s in itertools.product((2, 3, 4), (2, 3), (1, 2)):
        for x0, x1 in itertools.combinations_with_replacement(range(s[0]), 2):
            for y0, y1 in itertools.combinations_with_replacement(
                    range(s[1]), 2):
                b = [[x0, y0], [x1, y1]]
                det = "shape %r bounds %r" % (s, b)
                for mod in (sm, sm_old):
                    for wc in ([0, 0, 1], [1, 1, 1]):
                        fn = getattr(mod, "direct_lattice_deprecated",
                                     None) or mod.direct_lattice
                        S, dims = fn(s, [list(r) for r in b], True, wc)
                        A, r = weights(S, "lattice", det)
                        if [int(v) for v in dims] != [2 * (x1 - x0 + 1), 2 *
                                                      (y1 - y0 + 1)]:
                            raise Failure("dimensions", det)
                        for c in range(3):
                            R = r[c * np.prod(s):(c + 1) * np.prod(s)] \
                                .reshape(s, order="F")
                            if not np.allclose(R[x0:x1 + 1, y0:y1 + 1], 1):
                                raise Failure("cell of the design without "
                                              "weights", det)
                        ev += 1
                    if x1 > x0 and y1 > y0:
                        S = mod.average_2xFarEdge(s, np.array(b))
                        A, r = weights(S, "averaging", det)
                        P = int(np.prod(s))
                        for c in range(3):
                            R = r[c * P:(c + 1) * P].reshape(s, order="F")
                            want = np.zeros(s)
                            want[x0:x1 + 1, y0:y1 + 1] = 1
                            if not np.allclose(R, want):
                                raise Failure("averaging rows", det)
                        nx = x1 - x0 + 1
                        Z = A[2 * P:]
                        for k in range(s[2]):
                            for j in range(y0, y1 + 1):
                                for i in range(x0, x1 + 1):
                                    row = i + s[0] * (j + s[1] * k)
                                    col = i - x0 + nx * (j - y0)
                                    if Z[row, col] != 1:
                                        raise Failure("averaging z", det)
                                    ii = min(i + 1, x1) - x0 + nx * (j - y0)
                                    e = np.zeros(A.shape[1])
                                    e[col] += 0.5
                                    e[ii] += 0.5
                                    if not np.allclose(A[row], e):
                                        raise Failure("averaging x", det)
                                    jj = i - x0 + nx * (min(j + 1, y1) - y0)
                                    e = np.zeros(A.shape[1])
                                    e[col] += 0.5
                                    e[jj] += 0.5
                                    if not np.allclose(A[P + row], e):
                                        raise Failure("averaging y", det)
                        ev += 1
    return dict(evaluations=ev, distinct=ev, exhaustive=True, samples=[
        "every rectangle of cells on grids up to 4 x 3 x 2"])


ITEMS = [
    Contract("selection", c_selection, [M + "create_selection_matrix",
                                        M + "direct_lattice",
                                        M + "direct_lattice_to_yee_grid"],
             sym="obj", num=(60, 400)),
    Contract("bounds", c_bounds, [M + "calculate_design_bounds"], sym="obj",
             num=(100, 600)),
    Contract("reduced", c_reduced, [M + "create_selection_matrix_deprecated",
                                    M + "direct_lattice_deprecated"],
             sym="obj", num=(100, 600), max_instances=300),
    Bounded("lattice", b_lattice, [M + "direct_lattice"],
            bound="all rectangles on grids up to 3 x 3 x 2"),
    Bounded("end to end", b_end_to_end, [M + "create_selection_matrix",
                                         M + "calculate_design_bounds",
                                         M + "calculate_design_bounds_yee"],
            bound="random grids up to 5 cells per axis"),
    Bounded("legacy", b_legacy, [M + "direct_lattice_deprecated",
                                 M + "average_2xFarEdge",
                                 O + "direct_lattice",
                                 O + "average_2xFarEdge"],
            bound="all rectangles on grids up to 4 x 3 x 2"),
]
