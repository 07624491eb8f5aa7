"""C21: grid coordinates, regions and directions."""
import numpy as np

from vc.run import Contract, Bounded
from vc.harness import Failure
from vc.facade import concrete

from spins import gridlock
from spins.gridlock import Grid, GridType, Direction, GridError
from spins.gridlock import direction as dmod
from spins.invdes.problem_graph import grid_utils
from spins.goos_sim.maxwell import simspace as goos_simspace

LEVEL = "proof"
TECHNIQUE = ("contracts on the real Grid methods executed with symbolic edge "
             "coordinates and positions (branches of the cell search forked); "
             "normal form and z3")
ASSUMPTIONS = [
    "axes of 1 to 3 cells with symbolic, strictly ascending edges (the code "
    "treats the axes independently); shifts are the Yee shifts and further "
    "enumerated shifts in [0, 1)",
    "fractional indices given to ind2pos are checked numerically (rounding of "
    "a symbolic number is outside the verifier's reach)",
]
G = "spins/gridlock/grid.py:Grid."
D = "spins/gridlock/direction.py:"


def arr(B, xs):
    xs = list(xs)
    if B.symbolic:
        from vc.arrays import oarr
        return oarr(np.array(xs, dtype=object))
    return np.array(xs, dtype=float)


def edges(B, tag, n):
    x0 = B.real("o" + tag)
    h = B.real("h" + tag, (n, ), pos=True)
    xs = [x0]
    for i in range(n):
        xs.append(xs[-1] + h[i])
    return arr(B, xs), h


SHAPES = [(1, 1, 1), (3, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1)]
SHIFTS = {"yee": (Grid.Yee_Shifts_E, Grid.Yee_Shifts_H),
          "swapped": (Grid.Yee_Shifts_H, Grid.Yee_Shifts_E),
          "quarter": (0.25 * np.array([[1, 0, 2], [0, 3, 1], [2, 1, 0]]),
                      0.25 * np.array([[2, 1, 0], [1, 2, 3], [0, 0, 1]]))}


def make(B, shapes=SHAPES):
    shape = B.choose("shape", shapes)
    sh = B.choose("shifts", sorted(SHIFTS))
    per = B.choose("periodic", [False, True])
    E = [edges(B, "xyz"[a], shape[a])[0] for a in range(3)]
    g = Grid(E, shifts=SHIFTS[sh][0], comp_shifts=SHIFTS[sh][1],
             periodic=per)
    return g, E, shape, SHIFTS[sh], per


def c_shifted(B):
    """Edges, cell sizes and centres of shifted grids."""
    g, E, shape, shifts, per = make(B)
    n = B.choose("component", [None, 0, 1, 2])
    kind = B.choose("grid", ["prim", "comp"])
    gt = GridType.PRIM if kind == "prim" else GridType.COMP
    e = g.shifted_exyz(n, gt)
    d = g.shifted_dxyz(n, gt)
    c = g.shifted_xyz(n, gt)
    B.eq(arr(B, g.shape), arr(B, shape), "shape")
    for a in range(3):
        w = [E[a][i + 1] - E[a][i] for i in range(shape[a])]
        ghost = w[0] if per else w[-1]
        ww = w + [ghost]
        s = 0 if n is None else float(shifts[0 if kind == "prim" else 1][n][a])
        want = [E[a][i] + ww[i] * s for i in range(shape[a] + 1)]
        if n is not None and kind == "comp" and s != 0:
            want = [E[a][0] - ghost * s] + want
        if len(e[a]) != len(want) or len(d[a]) != len(want) - 1 or \
                len(c[a]) != len(want) - 1:
            raise Failure("number of cells", "axis %d: %d edges, %d sizes, %d "
                          "centres, expected %d cells" %
                          (a, len(e[a]), len(d[a]), len(c[a]),
                           len(want) - 1))
        B.eq(e[a], arr(B, want), "edges")
        if not (kind == "comp" and n is not None and s not in (0, 0.5)):
            # a complementary shift other than 1/2 has no matching ghost cell
            B.eq(d[a], arr(B, [want[i + 1] - want[i]
                               for i in range(len(want) - 1)]), "cell sizes")
            B.eq(c[a], arr(B, [(want[i + 1] + want[i]) / 2
                               for i in range(len(want) - 1)]), "centres")
        B.eq(g.dxyz[a], arr(B, w), "unshifted sizes")
        B.eq(g.xyz[a], arr(B, [(E[a][i] + E[a][i + 1]) / 2
                               for i in range(shape[a])]), "unshifted centres")
        m = 0.25 * (E[a][0] + E[a][1] + E[a][-2] + E[a][-1])
        B.eq(g.center[a], m, "centre of the grid")


def c_autoshift(B):
    """Dual cell sizes: distance between neighbouring centres."""
    shape = B.choose("shape", [(3, 1, 2), (1, 4, 1), (2, 2, 3)])
    per = B.choose("periodic", [False, True])
    E = [edges(B, "xyz"[a], shape[a])[0] for a in range(3)]
    g = Grid(E, periodic=per)
    d = g.autoshifted_dxyz()
    for a in range(3):
        w = [E[a][i + 1] - E[a][i] for i in range(shape[a])]
        first = (w[0] + (w[0] if per else w[-1])) / 2
        want = [first] + [(w[i] + w[i + 1]) / 2 for i in range(shape[a] - 1)]
        B.eq(d[a], arr(B, want), "dual cell sizes, axis %d" % a)


def position(B, e, n, tag, inside):
    """A position inside the chosen cell, or anywhere."""
    if inside:
        k = B.choose("cell" + tag, list(range(n)))
        if B.symbolic:
            t = B.real("t" + tag, (), nn=True)
            B.assume(t < e[k + 1] - e[k])
            return k, e[k] + t
        u = B.choose("u" + tag, [0.0, 0.25, 0.6, 0.999])
        return k, e[k] + u * (e[k + 1] - e[k])
    if B.symbolic:
        return None, B.real("r" + tag)
    u = B.choose("u" + tag, [-0.4, 0.0, 0.3, 0.7, 1.0, 1.4])
    return None, e[0] + u * (e[n] - e[0])


def c_pos2ind(B):
    """The index is that of the cell containing the position."""
    g, E, shape, shifts, per = make(B)
    n = B.choose("component", [None, 0, 1, 2])
    gt = B.choose("grid", [GridType.PRIM, GridType.COMP])
    e = g.shifted_exyz(n, gt)
    ax = max(range(3), key=lambda a: shape[a])
    ks, r = [], []
    for a in range(3):
        k, x = position(B, e[a], len(e[a]) - 1 if a == ax else 1, "xyz"[a],
                        True)
        ks.append(k)
        r.append(x)
    ind = g.pos2ind(arr(B, r), n, gt)
    B.eq(arr(B, ind), arr(B, ks), "cell of an inside position")
    frac = g.pos2ind(arr(B, r), n, gt, round_ind=False)
    for a in range(3):
        want = ks[a] + (r[a] - e[a][ks[a]]) / (e[a][ks[a] + 1] - e[a][ks[a]])
        d = g.shifted_dxyz(n, gt)[a]
        if gt is GridType.PRIM or n is None or float(
                shifts[1][n][a]) in (0.0, 0.5):
            B.eq(frac[a], want, "fractional index")
    one = g.coord2ind(r[ax], Direction(ax), n, gt, check_bounds=False)
    B.eq(one, ks[ax], "coord2ind")
    if not B.symbolic and (gt is GridType.PRIM or n is None or all(
            float(shifts[1][n][a]) in (0.0, 0.5) for a in range(3))):
        # a cell centre maps back to its cell, and indices to centres
        c = g.shifted_xyz(n, gt)
        sel = [min(ks[a], shape[a] - 1) for a in range(3)]
        p = g.ind2pos(sel, n, gt)
        B.eq(p, np.array([c[a][sel[a]] for a in range(3)]), "ind2pos")
        B.eq(g.pos2ind(p, n, gt), np.array(sel, float),
             "position and index are inverse")
        q = g.ind2pos([s + 0.3 for s in sel], n, gt, round_ind=False)
        B.eq(g.pos2ind(q, n, gt), np.array(sel, float),
             "fractional index stays in its cell")


def c_pos2ind_outside(B):
    """Outside positions: rejected, or clipped to the outermost cell."""
    g, E, shape, shifts, per = make(B, [(3, 1, 1), (1, 2, 1), (1, 1, 2)])
    n = B.choose("component", [None, 0, 1, 2])
    ax = max(range(3), key=lambda a: shape[a])
    e = g.shifted_exyz(n)
    side = B.choose("side", ["below", "above"])
    t = B.real("t", (), pos=True)
    x = e[ax][0] - t if side == "below" else e[ax][-1] + t
    r = arr(B, [x if a == ax else e[a][0] for a in range(3)])
    try:
        g.pos2ind(r, n)
    except GridError:
        pass
    else:
        raise Failure("outside position", "accepted")
    for rnd in (True, False):
        ind = g.pos2ind(r, n, round_ind=rnd, check_bounds=False)
        B.eq(ind[ax], 0 if side == "below" else shape[ax] - 1,
             "clipped to the outermost cell")
    # a coordinate along a one-cell axis is never rejected
    one = [a for a in range(3) if shape[a] == 1][0]
    y = e[one][0] - t
    r = arr(B, [y if a == one else e[a][0] for a in range(3)])
    B.eq(g.pos2ind(r, n)[one], 0, "one-cell axis")


def b_ind2pos(tier, seed):
    rng = np.random.RandomState(seed)
    ev = 0
    for _ in range(60 if tier == "quick" else 600):
        shape = rng.randint(1, 5, size=3)
        E = [np.cumsum(rng.uniform(0.2, 2, size=s + 1)) for s in shape]
        per = bool(rng.randint(2))
        g = Grid(E, periodic=per)
        for n in (None, 0, 1, 2):
            c = g.shifted_xyz(n)
            e = g.shifted_exyz(n)
            ind = [rng.randint(s) for s in shape]
            p = g.ind2pos(ind, n)
            want = np.array([c[a][ind[a]] for a in range(3)])
            if not np.allclose(p, want, rtol=1e-12, atol=1e-12):
                raise Failure("ind2pos", "index %r of %r gives %r, expected "
                              "the cell centre %r" % (ind, E, p, want))
            if not np.array_equal(g.pos2ind(p, n), ind):
                raise Failure("pos2ind(ind2pos)", "%r -> %r" %
                              (ind, g.pos2ind(p, n)))
            f = [i + rng.uniform(-0.5, 0.49) for i in ind]
            q = g.ind2pos(f, n, round_ind=False)
            for a in range(3):
                i = ind[a]
                w = e[a][i] + (f[a] - i + 0.5) * (e[a][i + 1] - e[a][i])
                if not np.isclose(q[a], w, rtol=1e-10, atol=1e-10):
                    raise Failure("ind2pos fractional", "%r" % (f, ))
            # rejected outside
            a = rng.randint(3)
            for bad, rnd in ((-1, True), (shape[a], True),
                             (-0.6, False), (shape[a] - 0.4, False)):
                v = list(ind)
                v[a] = bad
                try:
                    g.ind2pos(v, n, round_ind=rnd)
                except GridError:
                    ev += 1
                else:
                    raise Failure("ind2pos bounds", "index %r accepted on a "
                                  "grid of shape %r (round_ind=%r)" %
                                  (v, tuple(shape), rnd))
            ev += 3
    return dict(evaluations=ev, distinct=ev)


# -- regions -------------------------------------------------------------------
def c_region(B, fn):
    n = B.choose("n", [1, 2, 3])
    ax = B.choose("axis", [0, 1, 2])
    shape = [1, 1, 1]
    shape[ax] = n
    E = [edges(B, "xyz"[a], shape[a])[0] for a in range(3)]
    e = E[ax]
    cen, ext = [], []
    lo = hi = None
    for a in range(3):
        if a == ax:
            if B.symbolic:
                lo = B.real("lo")
                w = B.real("w", (), nn=True)
                hi = lo + w
            else:
                L = e[-1] - e[0]
                lo = e[0] + B.choose("u", [-0.3, 0.0, 0.1, 0.5, 0.8]) * L
                hi = lo + B.choose("w", [0.0, 0.2, 0.55, 1.5]) * L
            B.assume(lo <= e[-1])
            B.assume(hi >= e[0])
            cen.append((lo + hi) / 2)
            ext.append(hi - lo)
        else:
            cen.append((E[a][0] + E[a][1]) / 2)
            ext.append(E[a][1] - E[a][0])
    sl = fn(E, arr(B, cen), arr(B, ext))
    if len(sl) != 3:
        raise Failure("slices", "%r" % (sl, ))
    for a in range(3):
        s = sl[a]
        if s.step not in (None, 1) or not 0 <= s.start < s.stop <= shape[a]:
            raise Failure("slice", "axis %d: %r on %d cells" %
                          (a, s, shape[a]))
        if a != ax and (s.start, s.stop) != (0, 1):
            raise Failure("whole axis", "%r" % (s, ))
    i, j = int(sl[ax].start), int(sl[ax].stop)
    # first cell: the one that contains the lower face (first cell if below)
    c0, c1 = (e[0] + e[1]) / 2, (e[-2] + e[-1]) / 2
    if i > 0:
        B.holds(e[i] <= lo, "the region starts in its first cell")
    if i < n - 1:
        B.holds(lo < e[i + 1], "no covered cell before the selection")
    # last cell: up to, without, the cell that contains the upper face; up to
    # the border beyond the centre of the last cell; at least one cell
    if j < n:
        B.holds(hi < e[j + 1], "no wholly covered cell after the selection")
        if j > i + 1:
            B.holds(e[j] <= hi, "the selection ends with the region")
    elif j > i + 1:
        B.holds(c1 < hi, "border cell only if the region passes its centre")


def c_region_exact(B, fn):
    """Regions bounded by cell edges select exactly their cells."""
    n = B.choose("n", [1, 2, 3])
    ax = B.choose("axis", [0, 1, 2])
    shape = [1, 1, 1]
    shape[ax] = n
    E = [edges(B, "xyz"[a], shape[a])[0] for a in range(3)]
    i = B.choose("i", list(range(n)))
    j = B.choose("j", list(range(i + 1, n + 1)))
    cen = [(E[a][0] + E[a][1]) / 2 for a in range(3)]
    ext = [E[a][1] - E[a][0] for a in range(3)]
    cen[ax] = (E[ax][i] + E[ax][j]) / 2
    ext[ax] = E[ax][j] - E[ax][i]
    if not B.symbolic:
        # keep the faces exactly on the edges despite rounding
        E = [np.round(x * 64) / 64 for x in E]
        if any(np.any(np.diff(x) <= 0) for x in E):
            B.assume(False)
        cen = [(E[a][0] + E[a][1]) / 2 for a in range(3)]
        ext = [E[a][1] - E[a][0] for a in range(3)]
        cen[ax] = (E[ax][i] + E[ax][j]) / 2
        ext[ax] = E[ax][j] - E[ax][i]
    sl = fn(E, arr(B, cen), arr(B, ext))
    got = (int(sl[ax].start), int(sl[ax].stop))
    B.eq(arr(B, got), arr(B, (i, j)), "cells of a region of whole cells")


# -- directions -------------------------------------------------------------------
def c_axis(B):
    ax = B.choose("axis", [0, 1, 2])
    sg = B.choose("sign", [1, -1])
    as_list = B.choose("list", [False, True])
    t = B.real("t", (), pos=True)
    v = [0, 0, 0]
    v[ax] = sg * t
    v = v if as_list and not B.symbolic else arr(B, v)
    B.eq(dmod.axisvec2axis(v), ax, "axis")
    B.eq(dmod.axisvec2polarity(v), sg, "polarity")


def b_axis(tier, seed):
    """Signed axes are recognised, everything else rejected."""
    ev = 0
    # lengths in any unit: the criterion is relative to the vector
    vals = [-2.0, -1e-3, 0.0, 0.5, 1.0, 1e5, 3e-9, -4e11]
    for x in vals:
        for y in vals:
            for z in vals:
                for v in (np.array([x, y, z]), [x, y, z]):
                    n = np.linalg.norm([x, y, z])
                    big = [a for a in range(3) if abs([x, y, z][a]) > 1e-6 * n]
                    ev += 1
                    try:
                        a = dmod.axisvec2axis(v)
                        p = dmod.axisvec2polarity(v)
                    except ValueError:
                        if len(big) == 1:
                            raise Failure("axisvec2axis", "%r rejected" %
                                          (v, ))
                        continue
                    if len(big) != 1:
                        raise Failure("axisvec2axis", "%r accepted" % (v, ))
                    if a != big[0] or p != np.sign([x, y, z][a]):
                        raise Failure("axisvec2axis", "%r -> %r, %r" %
                                      (v, a, p))
    for k, nm in enumerate("xyz"):
        if Direction[nm].value != k:
            raise Failure("Direction", nm)
    return dict(evaluations=ev, distinct=ev, exhaustive=True)


ITEMS = [
    Contract("shifted grids", c_shifted,
             [G + "shifted_exyz", G + "shifted_dxyz", G + "shifted_xyz",
              G + "dxyz_with_ghost", G + "center"], sym="obj", num=(60, 600),
             max_instances=400),
    Contract("dual cell sizes", c_autoshift, [G + "autoshifted_dxyz"],
             sym="obj", num=(20, 200)),
    Contract("pos2ind", c_pos2ind,
             [G + "pos2ind", G + "ind2pos", G + "coord2ind"], sym="obj",
             num=(80, 800), max_instances=800, budget=120),
    Contract("pos2ind outside", c_pos2ind_outside, [G + "pos2ind"],
             sym="obj", num=(40, 400)),
    Bounded("ind2pos", b_ind2pos, [G + "ind2pos"],
            "random grids up to 4 cells per axis, random indices"),
    Contract("region/invdes", lambda B: c_region(
        B, grid_utils.create_region_slices),
        ["spins/invdes/problem_graph/grid_utils.py:create_region_slices"],
        sym="obj", num=(80, 800)),
    Contract("region/goos", lambda B: c_region(
        B, goos_simspace.create_region_slices),
        ["spins/goos_sim/maxwell/simspace.py:create_region_slices"],
        sym="obj", num=(80, 800)),
    Contract("whole cells/invdes", lambda B: c_region_exact(
        B, grid_utils.create_region_slices),
        ["spins/invdes/problem_graph/grid_utils.py:create_region_slices"],
        sym="obj", num=(60, 400)),
    Contract("whole cells/goos", lambda B: c_region_exact(
        B, goos_simspace.create_region_slices),
        ["spins/goos_sim/maxwell/simspace.py:create_region_slices"],
        sym="obj", num=(60, 400)),
    Contract("directions/signed axes", c_axis,
             [D + "axisvec2axis", D + "axisvec2polarity"], sym=None,
             num=(30, 100), bound="random lengths"),
    Bounded("directions", b_axis, [D + "axisvec2axis", D + "axisvec2polarity"],
            "all vectors with entries from 8 values"),
]
