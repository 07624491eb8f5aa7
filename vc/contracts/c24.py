"""C24: GDS export and import.

Export: gdspy's polygons are a dependency.  In the symbolic runs they are
replaced by their contract over an arbitrary family of disjoint or strictly
nested polygons with unknown coordinates: every point of the plane lies in one
zone (the innermost polygon around it, or none), a polygon covers a set of
zones, `boolean` is set algebra and `inside` asks for the zones next to a
vertex.  The obligation is that the cells written cover a zone iff it lies in
an odd number of polygons.  The numeric evaluations use the real gdspy and
read the written file back with the real importer.
"""
import contextlib
import copy
import itertools
import os
import sys
import tempfile

import gdspy
import numpy as np

from vc.run import Contract, Bounded
from vc.harness import Failure

from spins import gds

gen = sys.modules["spins.gds.gen_gds"]
parse = sys.modules["spins.gds.parse_gds"]

LEVEL = "proof"
TECHNIQUE = ("contracts on the real exporter and importer: every nesting "
             "structure with unknown coordinates against the contract of "
             "gdspy's polygon operations; exporter and importer together on "
             "concrete files")
ASSUMPTIONS = [
    "gdspy's Polygon, boolean, inside and write_gds are assumed to satisfy "
    "their documented contracts in the symbolic runs",
    "families of up to 5 polygons, in every nesting structure and order",
    "polygons are disjoint or strictly nested, further than 1 nm apart "
    "(gdspy.inside works on a 1 nm lattice)",
    "the importer reads polygons; paths and texts are not polygons",
]
G = "spins/gds/gen_gds.py:gen_gds"
P = "spins/gds/parse_gds.py:GDSImport"


class Region:

    def __init__(self, zones, layer=0):
        self.zones, self.layers = frozenset(zones), [layer]

    @property
    def polygons(self):
        return [self]

    def __len__(self):
        return 1


class Stub:
    """gdspy over a family of nested polygons with symbolic coordinates."""

    def __init__(self, B, polys, parent):
        self.B, self.p, self.parent = B, polys, parent
        n = len(polys)
        self.below = [{j for j in range(n) if i in self.chain(j)}
                      for i in range(n)]
        self.written = None
        stub = self

        class Cell:

            def __init__(self, name, exclude_from_current=False):
                self.name, self.items = name, []

            def add(self, x):
                for y in (x if isinstance(x, list) else [x]):
                    self.items.append(y)
                return self

        class GdsLibrary:

            def __init__(self, *a, **k):
                self.cells = []

            def add(self, c, *a, **k):
                self.cells.append(c)

            def new_cell(self, name, *a, **k):
                self.cells.append(Cell(name))
                return self.cells[-1]

            def write_gds(self, f, *a, **k):
                stub.written = self.cells

        self.Cell, self.GdsLibrary = Cell, GdsLibrary

    def chain(self, j):
        out = []
        while j is not None:
            out.append(j)
            j = self.parent[j]
        return out

    def which(self, pts):
        """The polygon whose coordinates (in um) these are."""
        s = [str(np.ravel(np.asarray(pts, dtype=object))[0])]
        for i, q in enumerate(self.p):
            if str(q.ravel()[0]).split("[")[0] in s[0] or \
                    str(q.ravel()[0]) in s[0]:
                return i
        raise Failure("coordinates", "no polygon %r" % (pts, ))

    def Polygon(self, pts, layer=0, datatype=0):
        pts = np.asarray(pts, dtype=object)
        i = self.which(pts)
        from vc.arrays import oarr
        self.B.eq(oarr(pts), self.p[i] / 1000, "exported in micrometres")
        return Region(self.below[i], layer)

    def PolygonSet(self, polygons, layer=0, datatype=0):
        z = set()
        for q in polygons:
            if not isinstance(q, Region):
                q = self.Polygon(q, layer)
            z |= q.zones
        return Region(z, layer)

    def gather(self, a):
        z = set()
        for q in (a if isinstance(a, (list, tuple)) else [a]):
            if not isinstance(q, Region):
                q = self.Polygon(q)
            z |= q.zones
        return z

    def boolean(self, a, b, operation, precision=1e-3, max_points=199,
                layer=0, datatype=0):
        a, b = self.gather(a), self.gather(b)
        z = {"not": a - b, "or": a | b, "and": a & b, "xor": a ^ b}[operation]
        return Region(z, layer) if z else None

    fast_boolean = boolean

    def inside(self, points, polygons, short_circuit="any", precision=1e-3):
        zones = self.gather(polygons)
        out = []
        for pt in points:
            i = self.which([pt])
            if not any(self.same(pt, v) for v in self.p[i]):
                raise Failure("inside", "not a vertex")
            out.append(i in zones or self.parent[i] in zones)
        return tuple(out)

    def same(self, pt, v):
        from vc.sym import as_s
        return all((as_s(a) * 1000 - as_s(b)).same(as_s(0))
                   for a, b in zip(pt, v))

    def write_gds(self, filepath, cells=None, name="library", unit=1e-6,
                  precision=1e-9, *a, **k):
        if unit != 1e-6 or precision != 1e-9:
            raise Failure("unit", "%r, %r" % (unit, precision))
        self.written = list(cells)


@contextlib.contextmanager
def use(module, stub):
    old = module.gdspy
    module.gdspy = stub
    try:
        yield
    finally:
        module.gdspy = old


def place(parent, rng):
    """Rectangles (nm) with the given nesting, vertices in random order."""
    n = len(parent)
    kids = {i: [j for j in range(n) if parent[j] == i]
            for i in list(range(n)) + [None]}
    boxes = {}

    def put(i, box):
        boxes[i] = box
        c = kids[i]
        x0, y0, x1, y1 = box
        w = (x1 - x0) / max(len(c), 1)
        for q, j in enumerate(c):
            m = [float(v) for v in rng.uniform(.1, .2, 4)]
            put(j, (round(x0 + (q + m[0]) * w),
                    round(y0 + m[1] * (y1 - y0)),
                    round(x0 + (q + 1 - m[2]) * w),
                    round(y1 - m[3] * (y1 - y0))))

    put(None, (-30000.0, -20000.0, 40000.0, 50000.0))
    out = []
    for i in range(n):
        x0, y0, x1, y1 = boxes[i]
        p = np.array([[x0, y0], [x1, y0], [x1, y1], [x0, y1]], dtype=float)
        p = np.roll(p, rng.integers(4), axis=0)
        out.append(p[::-1] if rng.integers(2) else p)
    return out


def contains(poly, pt):
    """Even-odd point in polygon."""
    x, y = pt
    c = False
    for (x0, y0), (x1, y1) in zip(poly, np.roll(poly, -1, axis=0)):
        if (y0 > y) != (y1 > y) and x < (x1 - x0) * (y - y0) / (y1 - y0) + x0:
            c = not c
    return c


def parents(B, n):
    """Every nesting structure of n polygons: a forest."""
    par = {}

    def root(j):
        while par.get(j) is not None:
            j = par[j]
        return j

    for i in range(n):
        par[i] = B.choose("parent%d" % i,
                          [None] + [j for j in range(n) if root(j) != i])
    return [par[i] for i in range(n)]


def c_export(n, flat=False):

    def fn(B):
        par = parents(B, n)
        depth = [0] * n
        for i in range(n):
            j = i
            while j is not None:
                depth[i] += 1
                j = par[j]
        B.families = getattr(B, "families", {})
        if B.symbolic:
            polys = [B.real("p%d" % i, (3, 2)) for i in range(n)]
            keep = [+p for p in polys]
            stub = Stub(B, keep, par)
            with use(gen, stub):
                gen.gen_gds(polys, "/nonexistent/out.gds", deembed=not flat)
            if stub.written is None or len(stub.written) != 1:
                raise Failure("file", "no cell written")
            cover = set()
            for r in stub.written[0].items:
                if r is None:
                    continue
                if cover & r.zones and not flat:
                    raise Failure("export", "polygons overlap")
                if r.layers[0] != 0:
                    raise Failure("layer", repr(r.layers))
                cover |= r.zones
            want = {i for i in range(n) if flat or depth[i] % 2}
            if cover != want:
                raise Failure("covered area", "parents %r: zones %r, expected "
                              "%r" % (par, sorted(cover), sorted(want)))
            B.holds(True, "odd zones covered, even zones not")
            for p, q in zip(polys, keep):
                B.eq(p, q, "the caller's polygons")
            return
        rng = np.random.default_rng(sum(
            (0 if p is None else p + 1) * 7**i for i, p in enumerate(par)))
        polys = place(par, rng)
        keep = copy.deepcopy(polys)
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "a.gds")
            limited(lambda: gds.gen_gds(polys, f, deembed=not flat))
            with open(f, "rb") as fp:
                g = gds.GDSImport(fp)
        if set(g.layers) != {(0, 0)}:
            raise Failure("layers", repr(set(g.layers)))
        got = g.get_polygons((0, 0))
        for p, q in zip(polys, keep):
            if not np.array_equal(p, q):
                raise Failure("the caller's polygons", "changed")
        for i in range(n):
            # a point just inside polygon i, outside of its children
            c = polys[i].mean(axis=0)
            for v in polys[i]:
                pt = v + (c - v) * .01
                hit = sum(contains(q, pt / 1000) for q in got)
                if bool(hit) != bool(flat or depth[i] % 2):
                    raise Failure("covered area", "parents %r, in polygon %d"
                                  % (par, i))
                pt = v - (c - v) * .01
                want = (par[i] is not None) and (
                    flat or depth[par[i]] % 2)
                hit = sum(contains(q, pt / 1000) for q in got)
                if bool(hit) != bool(want):
                    raise Failure("covered area", "parents %r, around "
                                  "polygon %d" % (par, i))
        B.holds(True, "covered")
        if not flat:
            area = [abs((p[2] - p[0]).prod()) * 1e-6 for p in polys]
            want = sum(a if depth[i] % 2 else -a for i, a in enumerate(area))
            B.eq(sum(gdspy.Polygon(q).area() for q in got), want,
                 "total area")

    return fn


def limited(f, seconds=20):
    """Calls f; a call that does not end is a failure."""
    import signal

    def stop(*_):
        raise Failure("export", "does not end")

    old = signal.signal(signal.SIGALRM, stop)
    left = signal.alarm(seconds)
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.alarm(left)


def c_box(B):
    """Bounding boxes enclose the polygon tightly, in nanometres."""
    n = B.choose("n", [1, 2, 3])
    B.fork()
    p = B.real("p", (n, 2))
    keep = +p
    box = gds.GDSImport.get_bounding_box(None, p)
    B.eq(p, keep, "polygon unchanged")
    for ax, (lo, hi) in enumerate((box.x_minmax, box.y_minmax)):
        for i in range(n):
            B.holds(lo <= p[i, ax] * 1000, "lower bound")
            B.holds(p[i, ax] * 1000 <= hi, "upper bound")
        prod = prod2 = 1
        for i in range(n):
            prod = prod * (lo - p[i, ax] * 1000)
            prod2 = prod2 * (hi - p[i, ax] * 1000)
        B.eq(prod, 0, "lower bound attained")
        B.eq(prod2, 0, "upper bound attained")
        B.eq(box.center[ax] * 2, lo + hi, "centre")
        B.eq(box.extents[ax], hi - lo, "extents")


# files ------------------------------------------------------------------------


class Cell:
    """A top-level cell as the importer sees it."""

    def __init__(self, name, n, bad=False):
        self.name, self.n = name, n
        self.flat = False

    def flatten(self):
        self.flat = True
        return self

    def get_polygonsets(self, depth=None):
        out = []
        for i in range(self.n):
            out.append(gdspy.Polygon([(i, 0), (i + 1, 0), (i, 1)],
                                     layer=1, datatype=i % 2))
        return out


def b_cells(tier, seed):
    """Choice of the top-level cell, for every order of the cells."""
    ev = 0
    hidden = "$$$CONTEXT"
    real = gdspy.GdsLibrary.top_level
    lib = gdspy.GdsLibrary(unit=1e-6, precision=1e-9)
    for m in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for counts in itertools.product(range(4), repeat=m):
            for hid in range(-1, m):
                with tempfile.TemporaryDirectory() as d:
                    f = os.path.join(d, "c.gds")
                    cells = []
                    for i, k in enumerate(counts):
                        c = gdspy.Cell(hidden if i == hid else "c%d" % i,
                                       exclude_from_current=True)
                        for q in range(k):
                            c.add(gdspy.Rectangle((q, 0), (q + .5, 1),
                                                  layer=i + 1))
                        cells.append(c)
                    gdspy.write_gds(f, cells=cells, unit=1e-6,
                                    precision=1e-9)
                    vis = [k for i, k in enumerate(counts) if i != hid]
                    best = max(vis, default=0)
                    ok = best > 0 and vis.count(best) == 1
                    perms = list(itertools.permutations(range(m)))
                    if len(perms) > 6:
                        perms = perms[::5]
                    for perm in perms:

                        def top(self):
                            cs = sorted(real(self), key=lambda c: c.name)
                            return [cs[i] for i in perm if i < len(cs)]

                        gdspy.GdsLibrary.top_level = top
                        try:
                            with open(f, "rb") as fp:
                                g = gds.GDSImport(fp)
                        except ValueError as e:
                            g = None
                        finally:
                            gdspy.GdsLibrary.top_level = real
                        ev += 1
                        if ok != (g is not None):
                            raise Failure(
                                "top-level cell", "counts %r hidden %r order "
                                "%r: %s" % (counts, hid, perm, "rejected"
                                            if ok else "accepted"))
                        if ok:
                            want = [i for i, k in enumerate(counts)
                                    if i != hid and k == best][0]
                            if g.top_level_cell.name != "c%d" % want or set(
                                    g.layers) != {(want + 1, 0)}:
                                raise Failure(
                                    "top-level cell", "counts %r: %r" % (
                                        counts, g.top_level_cell.name))
                    for i, k in enumerate(counts):
                        nm = hidden if i == hid else "c%d" % i
                        with open(f, "rb") as fp:
                            g = gds.GDSImport(fp, nm)
                        if g.top_level_cell.name != nm or len(
                                g.get_polygons((i + 1, 0))) != k:
                            raise Failure("named cell", nm)
                        ev += 1
                    try:
                        with open(f, "rb") as fp:
                            gds.GDSImport(fp, "other")
                    except ValueError:
                        ev += 1
                    else:
                        raise Failure("named cell", "unknown name accepted")
    return dict(evaluations=ev, distinct=ev, exhaustive=True)


def transform(p, mag, refl, rot, org):
    p = np.array(p, dtype=float)
    if refl:
        p = p * [1, -1]
    p = p * mag
    c, s = np.cos(np.deg2rad(rot)), np.sin(np.deg2rad(rot))
    return p @ np.array([[c, s], [-s, c]]) + org


def canon(polys):
    out = []
    for p in polys:
        p = np.round(np.array(p, dtype=float), 3) + 0.0
        i = min(range(len(p)), key=lambda i: tuple(p[i]))
        a, b = np.roll(p, -i, axis=0), np.roll(p[::-1], i + 1, axis=0)
        out.append(min(tuple(map(tuple, a)), tuple(map(tuple, b))))
    return sorted(out)


def b_import(tier, seed):
    """Polygons of a cell hierarchy on every layer, in micrometres."""
    rng = np.random.default_rng(seed)
    ev = 0
    for rnd in range(40 if tier == "quick" else 400):
        unit, prec = [(1e-6, 1e-9), (1e-3, 1e-9), (1e-9, 1e-9),
                      (1e-6, 1e-8)][rnd % 4]
        um = unit / 1e-6
        levels = int(rng.integers(1, 4))
        cells, want = [], []
        for lv in range(levels):
            c = gdspy.Cell("L%d" % lv, exclude_from_current=True)
            mine = []
            for _ in range(int(rng.integers(1, 4)) if lv else 2):
                k = int(rng.integers(3, 6))
                th = np.sort(rng.uniform(0, 2 * np.pi, k))
                p = np.c_[np.cos(th), np.sin(th)] * 5 + rng.uniform(-20, 20,
                                                                    2)
                p = np.unique(np.round(p * 10) / 10, axis=0)
                if len(p) < 3:
                    continue
                lay = (int(rng.integers(0, 3)), int(rng.integers(0, 2)))
                c.add(gdspy.Polygon(p / um, layer=lay[0], datatype=lay[1]))
                mine.append((lay, p))
            if lv:
                mag = float(rng.choice([1.0, 2.0]))
                refl = bool(rng.integers(2))
                rot = float(rng.choice([0, 90, 180, 270]))
                org = np.round(rng.uniform(-9, 9, 2))
                if rng.integers(2):
                    c.add(gdspy.CellReference(
                        cells[-1], origin=tuple(org / um), rotation=rot,
                        magnification=mag, x_reflection=refl))
                    offs = [(0, 0)]
                else:
                    mag, refl, rot = 1.0, False, 0.0
                    c.add(gdspy.CellArray(
                        cells[-1], 2, 3, (50 / um, 60 / um),
                        origin=tuple(org / um)))
                    offs = [(50 * a, 60 * b) for a in range(2)
                            for b in range(3)]
                for o in offs:
                    mine += [(lay, transform(p, mag, refl, rot, org +
                                             np.array(o)))
                             for lay, p in want]
            cells.append(c)
            want = mine
        if not want:
            continue
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "h.gds")
            gdspy.write_gds(f, cells=cells, unit=unit, precision=prec)
            with open(f, "rb") as fp:
                g = gds.GDSImport(fp)
        if g.top_level_cell.name != "L%d" % (levels - 1):
            raise Failure("top-level cell", g.top_level_cell.name)
        lays = {w[0] for w in want}
        if set(g.layers) != lays:
            raise Failure("layers", "%r, expected %r" % (set(g.layers), lays))
        for lay in lays | {(9, 9)}:
            ps = [p for l, p in want if l == lay]
            a, b = canon(g.get_polygons(lay)), canon(ps)
            if len(a) != len(b) or any(
                    len(u) != len(v) or not np.allclose(u, v, atol=5e-3)
                    for u, v in zip(a, b)):
                raise Failure("polygons", "layer %r of %d levels: %r, "
                              "expected %r" % (lay, levels, a[:2], b[:2]))
            bx = g.get_bounding_boxes(lay)
            if len(bx) != len(ps):
                raise Failure("boxes", "number")
            for q, x in zip(g.get_polygons(lay), bx):
                q = np.array(q) * 1000
                if not np.allclose([x.x_minmax, x.y_minmax],
                                   np.c_[q.min(0), q.max(0)]):
                    raise Failure("box", repr(x))
            ev += len(ps)
    return dict(evaluations=ev, distinct=ev)


def ring(c, r, k, rng):
    th = np.arange(k) / k * 2 * np.pi + rng.random()
    return c + r * np.c_[np.cos(th), np.sin(th)] * rng.uniform(
        .97, 1, k)[:, None]


def b_contours(tier, seed):
    """Round trips of smooth contours with arbitrary coordinates."""
    rng = np.random.default_rng(seed)
    ev = 0
    for rnd in range(30 if tier == "quick" else 300):
        polys, sign = [], []
        for c in ((0, 0), (5000, 1000), (-4000, 7000)):
            c = np.array(c) + rng.normal(size=2) * 100
            depth = int(rng.integers(0, 4))
            for q in range(depth):
                polys.append(ring(c, 1900 * .7**q, int(rng.integers(
                    12, 300 if rnd % 5 == 0 else 40)), rng))
                sign.append((-1)**q)
            if depth == 1:
                for s in (-1, 1):
                    polys.append(ring(c + [s * 800, 0], 500, 20, rng))
                    sign.append(-1)
                    if rng.integers(2):
                        polys.append(ring(c + [s * 800, 0], 200, 20, rng))
                        sign.append(1)
        if not polys:
            continue
        o = rng.permutation(len(polys))
        polys, sign = [polys[i] for i in o], [sign[i] for i in o]
        extra = [np.array([[20., 20], [21, 20], [21, 22]])]
        use_extra = rnd % 3 == 0
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "a.gds")
            limited(lambda: gds.gen_gds(
                [p.tolist() for p in polys] if rnd % 2 else polys, f,
                extra if use_extra else None))
            with open(f, "rb") as fp:
                g = gds.GDSImport(fp)
        got = g.get_polygons((0, 0))
        want = sum(s * gdspy.Polygon(p / 1000).area()
                   for s, p in zip(sign, polys)) + use_extra
        a = sum(gdspy.Polygon(p).area() for p in got)
        # vertices move by at most half a nanometre
        slack = sum(np.abs(np.diff(np.vstack([p, p[:1]]), axis=0)).sum()
                    for p in polys) * 1e-6 + 1e-6
        if abs(a - want) > slack:
            raise Failure("covered area", "%r, expected %r" % (a, want))
        for _ in range(40):
            pt = rng.uniform(-6500, 9000, 2)
            if min(np.abs(np.hypot(*(p - pt).T)).min() for p in polys) < 60:
                continue
            w = sum(contains(p, pt) for p in polys) % 2
            h = sum(contains(p, pt / 1000) for p in got)
            if h != w:
                raise Failure("coverage", "point %r covered %d times" % (
                    pt, h))
            ev += 1
    return dict(evaluations=ev, distinct=ev)


ITEMS = [
    Contract("export of %d" % n, c_export(n), [G], sym="obj",
             num=(25, 400), max_instances=(n + 1)**(n - 1) + 4,
             budget=60)
    for n in (1, 2, 3, 4, 5)
] + [
    Contract("plain export of 3", c_export(3, True), [G], sym="obj",
             num=(10, 60)),
    Contract("bounding box", c_box, [P + ".get_bounding_box",
                                     "spins/gds/parse_gds.py:Box"],
             sym="obj"),
    Bounded("contours", b_contours, [G, P], "smooth nested contours with "
            "real coordinates, lists and arrays, long polygons"),
    Bounded("cell choice", b_cells, [P + "._get_top_level_cell"],
            "up to 3 (4) top-level cells with 0 to 3 polygons, each hidden "
            "in turn, every order"),
    Bounded("import", b_import, [P], "cell hierarchies of up to 3 levels "
            "with references and arrays, 4 unit systems"),
]
