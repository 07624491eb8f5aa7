"""C22: permittivity and tabulated refractive indices.

The interpolation (`pchip_interpolate`) is a dependency: in the symbolic runs
it is replaced by its contract (knots in ascending order are required; a knot
gives its value; between two knots the result lies between their values), the
numeric evaluations use the real one.
"""
import contextlib
import json
import os
import tempfile

import numpy as np
import scipy.interpolate

from vc.run import Contract, Bounded
from vc.harness import Failure

from spins import goos, material
from spins.goos import material as gmat
from spins.material import material as mat
from spins.invdes.problem_graph import optplan, simspace

LEVEL = "proof"
TECHNIQUE = ("contracts on the real material functions, executed with "
             "symbolic tables and wavelengths against the contract of the "
             "interpolation routine; normal form and z3; tables of the "
             "built-in materials compared with reference data")
ASSUMPTIONS = [
    "scipy.interpolate.pchip_interpolate is assumed to satisfy its contract "
    "(value at a knot, between the neighbouring values elsewhere) in the "
    "symbolic runs",
    "symbolic tables have 3 entries and query arrays 2; the code treats all "
    "entries alike",
    "the reference data are the tables of the repository when the check was "
    "written; the last entries of SiO2's index column (12.5 and more) are "
    "taken as they are",
]
M = "spins/material/material.py:"
HC = 4.135667516e-15 * 299792458 / 1e-9  # eV nm


def arr(B, xs):
    xs = list(xs)
    if B.symbolic:
        from vc.arrays import oarr
        return oarr(np.array(xs, dtype=object))
    return np.array(xs, dtype=float)


@contextlib.contextmanager
def interpolation(B):
    """The assumed contract of pchip_interpolate."""
    if not B.symbolic:
        yield
        return
    from vc import sym
    from vc.sym import as_s
    memo, count = {}, [0]

    def one(xs, ys, q):
        key = (tuple(map(repr, xs)), tuple(map(repr, ys)), repr(q))
        if key in memo:
            return memo[key]
        for x, y in zip(xs, ys):
            r = as_s(q) / x
            if r.is_const() and abs(float(r.cval()[0]) - 1) < 1e-9:
                memo[key] = y
                return y
        count[0] += 1
        t = B.real("interp%d" % count[0], lo=0, hi=1)
        for j in range(len(xs) - 1):
            if xs[j] <= q and q <= xs[j + 1]:
                memo[key] = ys[j] + t * (ys[j + 1] - ys[j])
                return memo[key]
        memo[key] = B.real("outside%d" % count[0])
        return memo[key]

    def pchip(xi, yi, x, der=0, axis=0):
        xs, ys = [as_s(v) for v in xi], [as_s(v) for v in yi]
        for a, b in zip(xs, xs[1:]):
            B.holds(a < b, "interpolation: ascending knots")
        if len(xs) != len(ys):
            raise ValueError("shapes")
        if np.ndim(x) == 0 and not isinstance(x, np.ndarray):
            return one(xs, ys, as_s(x))
        return arr(B, [one(xs, ys, as_s(v)) for v in np.ravel(x)])

    old = scipy.interpolate.pchip_interpolate
    scipy.interpolate.pchip_interpolate = pchip
    try:
        yield
    finally:
        scipy.interpolate.pchip_interpolate = old


def increasing(B, name, k=3):
    out = [B.real(name + str(i), pos=True, lo=0.5, hi=5) for i in range(k)]
    if not B.symbolic:
        out.sort()
    for a, b in zip(out, out[1:]):
        B.assume(b - a >= 0.05)
    return out


def c_eps(B):
    """eps = (n - ik)^2, eps_real = its real part, from refractive_index."""

    class Any(mat.Material):

        def refractive_index(self, wavelengths):
            seen.append(wavelengths)
            return n, k

    seen = []
    shape = B.choose("shape", [(), (2, )])
    n, k = B.real("n", shape), B.real("k", shape)
    w = B.real("w", shape, pos=True)
    e = Any().eps(w)
    B.eq(e, n * n - k * k - 2j * (n * k), "eps")
    B.eq(Any().eps_real(w), n * n - k * k, "eps_real")
    for s in seen:
        B.eq(s, w, "wavelength")


def table(B):
    """(make material, knots as wavelengths, n, k)."""
    kind = B.choose("kind", ["wavelength", "energy"])
    x = increasing(B, "x")
    n = [B.real("n%d" % i) for i in range(3)]
    k = [B.real("k%d" % i) for i in range(3)]
    if kind == "wavelength":
        m = material.CustomMaterial(list(x), list(n), list(k))
        return m.refractive_index, x, n, k, lambda s: s
    e = x[::-1]  # descending energies, as in the built-in tables

    def f(w):
        return mat.interpolate_using_energy(w, list(n), list(k), list(e),
                                            list(e))

    return f, e, n, k, lambda s: HC / s


def c_knots(B):
    with interpolation(B):
        f, x, n, k, wl = table(B)
        j = B.choose("j", [0, 1, 2])
        a, b = f(wl(x[j]))
        B.eq(a, n[j], "n at a tabulated point")
        B.eq(b, k[j], "k at a tabulated point")
        a, b = f(arr(B, [wl(x[j]), wl(x[2 - j])]))
        B.eq(a, arr(B, [n[j], n[2 - j]]), "n, array query")
        B.eq(b, arr(B, [k[j], k[2 - j]]), "k, array query")


def c_between(B):
    with interpolation(B):
        f, x, n, k, wl = table(B)
        j = B.choose("j", [0, 1])
        s = B.real("s", lo=.05, hi=.95)
        q = x[j] + s * (x[j + 1] - x[j])
        a, b = f(wl(q))
        eps = 0 if B.symbolic else 1e-9
        B.holds((a - n[j]) * (a - n[j + 1]) <= eps, "n between neighbours")
        B.holds((b - k[j]) * (b - k[j + 1]) <= eps, "k between neighbours")
        u, v = f(arr(B, [wl(x[1]), wl(q)]))
        B.eq(u, arr(B, [n[1], a]), "scalar and array n")
        B.eq(v, arr(B, [k[1], b]), "scalar and array k")


def c_separate(B):
    """n and k may be tabulated at different energies."""
    with interpolation(B):
        en, ek = increasing(B, "x")[::-1], increasing(B, "y")[::-1]
        n = [B.real("n%d" % i) for i in range(3)]
        k = [B.real("k%d" % i) for i in range(3)]
        j = B.choose("j", [0, 1, 2])
        tables = [list(t) for t in (n, k, en, ek)]
        a, _ = mat.interpolate_using_energy(HC / en[j], *tables)
        B.eq(a, n[j], "n at its energy")
        _, b = mat.interpolate_using_energy(HC / ek[j], *tables)
        B.eq(b, k[j], "k at its energy")
        for t, o in zip(tables, (n, k, en, ek)):
            if len(t) != 3 or any(u is not v for u, v in zip(t, o)):
                raise Failure("tables", "changed by the query")


def c_goos(B):
    """goos materials: permittivity is the squared index."""
    re, im = B.real("re"), B.real("im")
    idx = re + 1j * im
    m = gmat.ConstantMaterial(idx)
    w = B.real("w", pos=True)
    B.eq(m.permittivity(w), re * re - im * im + 2j * (re * im), "constant")


def c_index(B):
    """Index of a plan's material given by value."""
    re, im = B.real("re"), B.real("im")
    form = B.choose("form", ["both", "real", "imag"])
    d = dict(both=dict(real=re, imag=im), real=dict(real=re),
             imag=dict(imag=im))[form]

    want = d.get("real", 0) + 1j * d.get("imag", 0)
    if not B.symbolic:
        el = optplan.Material(index=optplan.ComplexNumber(
            **{k: float(v) for k, v in d.items()}))
        B.eq(plan_eps(el, 1500.0), want**2, "permittivity")
        return

    class Index(dict):
        real, imag = d.get("real"), d.get("imag")

        def get(self, k, default=None):
            return dict.get(self, k, default)

    class El(dict):
        mat_name = mat_file = None
        index = Index(d)

    B.eq(simspace._get_mat_index(El(), 1500.0), want, "index")


# built-in materials and whole plans -------------------------------------------

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
    __file__))), "data", "materials.json")
NAMES = {"Si": ["Si", "si"], "SiO2": ["SiO2", "sio2", "sio"],
         "Si3N4": ["Si3N4", "sin", "si3n4", "SiN"], "Air": ["Air", "air"]}


def near(a, b, what, tol=1e-9):
    if not np.allclose(a, b, rtol=tol, atol=1e-12):
        raise Failure(what, "%r, expected %r" % (a, b))


def b_tables(tier, seed):
    data = json.load(open(DATA))
    rng = np.random.default_rng(seed)
    ev = 0
    for name, d in data.items():
        m = getattr(material, name)()
        lo = max(min(d["En"]), min(d["Ek"]))
        for col, E, v in ((0, d["En"], d["n"]), (1, d["Ek"], d["k"])):
            E, v = np.array(E), np.array(v)
            w = HC / E
            got = np.array(m.refractive_index(w)[col])
            if got.shape != w.shape:
                raise Failure("shape", "%s %r" % (name, got.shape))
            # a knot is hit up to the rounding of the wavelength
            bad = np.where(~np.isclose(got, v, rtol=1e-9, atol=1e-11))[0]
            if len(bad):
                i = bad[0]
                raise Failure("tabulated value of %s" % name,
                              "column %s at %r eV: %r, tabulated %r" % (
                                  "nk"[col], E[i], got[i], v[i]))
            ev += len(w)
            for _ in range(2 if tier == "quick" else 20):
                t = rng.random(len(E) - 1) * .9 + .05
                e = E[:-1] + t * (E[1:] - E[:-1])
                g = m.refractive_index(HC / e)[col]
                a, b = np.minimum(v[:-1], v[1:]), np.maximum(v[:-1], v[1:])
                if np.any(g < a - 1e-9) or np.any(g > b + 1e-9):
                    i = int(np.argmax(np.maximum(a - g, g - b)))
                    raise Failure("interpolation of %s" % name,
                                  "at %r eV: %r outside [%r, %r]" % (
                                      e[i], g[i], a[i], b[i]))
                ev += len(e)
        # physical window: scalars, arrays, lists, integers
        wl = sorted(float(x) for x in rng.uniform(300, HC / max(lo, 1.0), 6))
        for ws in (wl, [300, 700, 1200]):
            n, k = m.refractive_index(np.array(ws))
            ln, lk = m.refractive_index(list(ws))
            near(ln, n, "list query of " + name)
            near(lk, k, "list query of " + name)
            e, er = m.eps(np.array(ws)), m.eps_real(np.array(ws))
            near(e, (n - 1j * k)**2, "eps of " + name)
            near(er, n**2 - k**2, "eps_real of " + name)
            for i, w in enumerate(ws):
                for q in (w, np.array(w)):
                    a, b = m.refractive_index(q)
                    near([a, b], [n[i], k[i]], "scalar query of " + name)
                    near(m.eps(q), e[i], "scalar eps of " + name)
                    ev += 1
    for w in (1550, 1550.0, [300.0, 500.0], np.array([300, 500])):
        near(material.Air().refractive_index(w)[0], np.ones(np.shape(w)),
             "air")
        near(material.Air().eps(w), np.ones(np.shape(w)), "air")
    return dict(evaluations=ev, distinct=ev)


def plan_eps(element, wlen):
    """Permittivity a simulation space assigns to a material."""
    import gdspy
    with tempfile.TemporaryDirectory() as d:
        cell = gdspy.Cell("C", exclude_from_current=True)
        cell.add(gdspy.Rectangle((-1, -1), (1, 1), layer=1))
        gdspy.write_gds(os.path.join(d, "a.gds"), cells=[cell], unit=1e-6,
                        precision=1e-9)

        def eps():
            return optplan.GdsEps(
                gds="a.gds", mat_stack=optplan.GdsMaterialStack(
                    background=element, stack=[]))

        sp = simspace.SimulationSpace(
            optplan.SimulationSpace(
                name="space", mesh=optplan.UniformMesh(dx=40),
                sim_region=optplan.Box3d(center=[0, 0, 0],
                                         extents=[80, 80, 80]),
                eps_bg=eps(), eps_fg=eps(), pml_thickness=[0] * 6,
                selection_matrix_type="full_direct"), d)
        g = np.array(sp(wlen).eps_bg.grids)
        if not np.all(g == g.ravel()[0]):
            raise Failure("background", repr(g))
        return g.ravel()[0]


def b_plans(tier, seed):
    rng = np.random.default_rng(seed)
    ev, known = 0, []
    for name, aliases in NAMES.items():
        for al in aliases:
            for w in (400.0, float(rng.uniform(450, 1600)), 1550.0, 1550):
                n = getattr(material, name)().refractive_index(
                    np.array(float(w)))[0]
                near(plan_eps(optplan.Material(mat_name=al), w), n**2,
                     "permittivity of %r" % al, 1e-6)
                ev += 1
    try:
        plan_eps(optplan.Material(mat_name="unobtainium"), 1550.0)
    except Exception:
        ev += 1
    else:
        raise Failure("unknown material", "accepted")
    for _ in range(4):
        z = complex(rng.normal(), rng.normal())
        near(plan_eps(optplan.Material(index=optplan.ComplexNumber(
            real=z.real, imag=z.imag)), 1550.0), z**2, "index")
        near(plan_eps(optplan.Material(index=optplan.ComplexNumber(
            real=z.real)), 1550.0), z.real**2, "real index")
        ev += 2
    for rnd in range(3 if tier == "quick" else 20):
        um = np.cumsum(rng.uniform(.1, .5, 6)) + .3
        n, k = rng.uniform(1, 4, 6), rng.uniform(0, .5, 6)
        for cols in ("wl,n,k", "wl,n", "wl,n,k,extra"):
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, "m.csv")
                with open(p, "w") as f:
                    f.write(cols + "\n")
                    for i in range(6):
                        row = [um[i], n[i], k[i], 7.0][:cols.count(",") + 1]
                        f.write(",".join(repr(float(x)) for x in row) + "\n")
                kk = k if "k" in cols else 0 * k
                for j in (0, 2, 5):
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        got = plan_eps(optplan.Material(mat_file=p),
                                       um[j] * 1000)
                    near(got, (n[j] - 1j * kk[j])**2, "file, " + cols, 1e-4)
                    ev += 1
    got = plan_eps(optplan.Material(mat_file="Si_Aspnes.csv"), 213.8)
    near(got, (1.133 - 3.045j)**2, "packaged file")
    # goos models
    for _ in range(5):
        z = complex(rng.normal(), rng.normal())
        for v in (z, z.real):
            m = gmat.get_material(gmat.Material(index=v))
            near(m.permittivity(1550.0), v**2, "goos index")
            ev += 1
    if gmat.get_material(None) is not None:
        raise Failure("goos", "material of None")
    for kind in (dict(mat_name="Si"), dict(mat_file="Si_Aspnes.csv")):
        try:
            m = gmat.get_material(gmat.Material(**kind))
            e = m.permittivity(500.0)
        except Exception:
            known.append("goos-" + list(kind)[0])
        else:
            if not np.isfinite(e):
                raise Failure("goos named material", repr(e))
    return dict(evaluations=ev, distinct=ev, known=known)


ITEMS = [
    Contract("permittivity", c_eps, [M + "Material.eps", M +
                                     "Material.eps_real"], sym="obj"),
    Contract("tabulated points", c_knots, [
        M + "interpolate_using_wavelengths", M + "interpolate_using_energy",
        M + "CustomMaterial.refractive_index"], sym="obj"),
    Contract("between points", c_between, [
        M + "interpolate_using_wavelengths", M + "interpolate_using_energy"],
        sym="obj"),
    Contract("separate tables", c_separate,
             [M + "interpolate_using_energy"], sym="obj"),
    Contract("goos constant", c_goos, [
        "spins/goos/material.py:ConstantMaterial.permittivity"], sym="obj"),
    Contract("index by value", c_index, [
        "spins/invdes/problem_graph/simspace.py:_get_mat_index"], sym="obj", num=(8, 30)),
    Bounded("built-in tables", b_tables, [M + "Si", M + "SiO2", M + "Si3N4",
                                          M + "Air"],
            "every tabulated energy of every built-in material, random "
            "energies in every interval, scalar/array/list queries"),
    Bounded("plan materials", b_plans, [
        "spins/invdes/problem_graph/simspace.py:_get_mat_index",
        "spins/invdes/problem_graph/simspace.py:_create_grid",
        "spins/goos/material.py:get_material"],
        "all documented material names, random indices and files"),
]
