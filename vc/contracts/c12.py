"""C12: a saved goos plan loads as the same plan."""
import contextlib
import dataclasses
import inspect
import json
import os
import shutil
import tempfile
import typing

import numpy as np

from vc.run import Contract, Bounded
from vc.harness import Failure

from spins import goos
from spins.goos import optplan

LEVEL = "proof"
TECHNIQUE = ("contracts on the real save, load and schema code executed with "
             "symbolic array values through the contract of the json module "
             "(reading returns what was written); enumerated node types and "
             "declared types")
ASSUMPTIONS = [
    "json reads back the numbers, strings, lists and dictionaries it wrote",
    "the schematics library converts built-in types as documented",
    "graphs are the listed sharing patterns over the numeric nodes with "
    "arbitrary array values (proof); every node type of goos and of the "
    "simulation package once or more with concrete values (bounded)",
    "arrays without elements keep no shape; integer and float types are "
    "kept, narrower numpy types are not; default nodes that a constructor "
    "creates itself appear under new names",
]
OP = "spins/goos/optplan/optplan.py:"
SC = "spins/goos/optplan/schema.py:"
ST = "spins/goos/optplan/schema_types.py:"


@contextlib.contextmanager
def json_contract(B):
    """json for symbolic scalars: what is written is what is read."""
    if not B.symbolic:
        yield
        return
    from vc.sym import S
    table = {}
    dumps, loads = json.dumps, json.loads

    def enc(o):
        if isinstance(o, S):
            table[repr(o)] = o
            return {"__sym__": repr(o)}
        if isinstance(o, np.integer):
            return int(o)
        raise TypeError(repr(o))

    def hook(d):
        return table[d["__sym__"]] if set(d) == {"__sym__"} else d
    json.dumps = lambda o, **k: dumps(o, default=enc, **k)
    json.loads = lambda s, **k: loads(s, object_hook=hook, **k)
    try:
        yield
    finally:
        json.dumps, json.loads = dumps, loads


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-c12-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def text(d):
    with open(os.path.join(d, "optplan.json")) as f:
        return f.read()


def by_name(s):
    """The contents of a file as plain data, nodes by name."""
    p = json.JSONDecoder().decode(s)
    nodes = {m["name"]: m for m in p["nodes"]}
    if len(nodes) != len(p["nodes"]):
        raise Failure("names", "not unique in the file")
    return nodes, p.get("actions", []), p["version"]


def _dump(plan):
    with Dir() as d:
        plan.save(d)
        return json.loads(text(d))


# symbolic graphs -------------------------------------------------------------


def g_arith(B):
    x = goos.Variable(B.real("x", (2, )), name="x")
    y = goos.Variable(B.real("y", (2, )), name="y", lower_bounds=-1,
                      upper_bounds=np.array([np.inf, 3.0]))
    c = goos.Constant(B.real("c", (2, )), name="c")
    z = x + y
    goos.rename(z * z, "sq")
    goos.rename(z * c - x, "mix")
    goos.rename(goos.dot(z, c) + goos.dot(x, x), "dot")
    return ["sq", "mix", "dot"], ["x", "y"]


def g_complex(B):
    c = goos.Constant(B.cplx("c", (2, )), name="c")
    x = goos.Variable(B.real("x", (2, )), name="x")
    k = goos.Constant(B.cplx("k", ()), name="k")
    goos.rename(x * c, "p")
    goos.rename(goos.Conjugate(c) + x * k, "q")
    return ["p", "q"], ["x"]


def g_shapes(B):
    a = goos.Variable(B.real("a", (1, 2, 2)), name="a")
    b = goos.Constant(B.real("b", (2, 1, 1)), name="b")
    goos.Slice(a, [0, [0, 2], 1], name="s")
    goos.Slice(a, ["c", "center", [1, 2]], name="t")
    goos.rename(b * 2.5, "u")
    return ["s", "t", "u", "b"], ["a"]


def g_diamond(B):
    """One shared node used along several paths and by an action."""
    x = goos.Variable(B.real("x", (2, )), name="x")
    s = x * x
    t = goos.Sum([s, s, x])
    u = goos.Product([t, s])
    goos.rename(u + t, "end")
    y = goos.Variable(B.real("y", (2, )), name="y")
    y.set(t)
    y.freeze()
    x.set(goos.Constant(B.real("n", (2, ))) + s)
    return ["end"], ["x"]


def g_order(B):
    """Nodes that are referenced before they appear in the plan."""
    with goos.OptimizationPlan():
        inner = goos.Variable(B.real("i", (2, )), name="inner")
        mid = inner * inner
    goos.rename(mid + inner, "top")
    goos.rename(mid, "again")
    x = goos.Variable(B.real("x", (2, )), name="x")
    x.set(mid)
    x.thaw()
    return ["top", "again"], ["inner"]


def g_unnamed(B):
    """Automatic names of several constants and sums."""
    cs = [goos.Constant(B.real("c%d" % i, (2, ))) for i in range(3)]
    v = goos.Variable(B.real("v", (2, )))
    s = cs[0] + v
    t = s + cs[1] * cs[2] + v
    goos.rename(t, "t")
    return ["t"], [v._goos_name]


def g_casts(B):
    x = goos.Variable(B.real("x", (2, )), name="x")
    a = goos.cast(x, goos.Function, name="a")
    b = goos.rename(goos.rename(a + 1, "b1"), "b2")
    goos.rename(a * b, "c")
    return ["a", "b1", "b2", "c"], ["x"]


GRAPHS = [g_arith, g_complex, g_shapes, g_diamond, g_order, g_unnamed,
          g_casts]


def kinds(plan):
    out = {}
    for m in _dump(plan)["nodes"]:
        n = plan.get_node(m["name"])
        t = type(n)
        out[m["name"]] = (t.node_type, t if t.node_type != "goos.cast" else
                          t.__mro__[1])
    return out


def states(plan):
    d = plan.get_state_dict()["variable_data"]
    return {k: (v["value"], [np.asarray(b) for b in v["bounds"]], v["frozen"])
            for k, v in d.items()}


def same_states(B, p, q, where):
    a, b = states(p), states(q)
    if set(a) != set(b):
        raise Failure("variables " + where, "%s and %s" % (sorted(a),
                                                           sorted(b)))
    for k in a:
        B.eq(b[k][0], a[k][0], "value of %s %s" % (k, where))
        if not all(np.array_equal(u, v) and u.shape == v.shape
                   for u, v in zip(a[k][1], b[k][1])) or a[k][2] != b[k][2]:
            raise Failure("bounds and frozen state %s of %s" % (where, k),
                          "%r, %r" % (a[k][1:], b[k][1:]))


def c_plan(B):
    build = B.choose("graph", GRAPHS)
    inside = B.choose("load", ["inside the plan", "outside"])
    fresh = B.choose("process", ["same", "fresh", "other"])
    with json_contract(B), Dir() as d, Dir() as d2:
        plan = goos.OptimizationPlan()
        with plan:
            outs, wrt = build(B)
            plan.save(d)
            before = text(d)
            plan.save(d2)
            if text(d2) != before:
                raise Failure("saving twice", "gives different files")
            want = [plan.eval_node(plan.get_node(n)) for n in outs]
        counters = optplan.PROBLEM_GRAPH_NAME_MAP
        keep = dict(counters)
        if fresh != "same":
            counters.clear()
        if fresh == "other":
            for i in range(5):
                goos.Constant(7.0 + i)
        try:
            other = goos.OptimizationPlan()
            if inside == "outside":
                other.load(d)
            with other:
                if inside != "outside":
                    other.load(d)
                if kinds(plan) != kinds(other):
                    raise Failure("nodes", "%r loaded as %r" %
                                  (kinds(plan), kinds(other)))
                other.save(d2)
                if by_name(text(d2)) != by_name(before):
                    raise Failure("saving again", "gives another plan: %s, %s"
                                  % (before[:300], text(d2)[:300]))
                same_states(B, plan, other, "after loading")
                for n, w in zip(outs, want):
                    g = other.eval_node(other.get_node(n))
                    B.eq(g.array, w.array, "value of %s" % n)
                # nodes added later get names of their own
                more = goos.Constant(3.0) + goos.Variable(4.0)
                B.eq(other.eval_node(more).array.ravel(), np.array([7.0]),
                     "nodes created after loading")
                other.save(d2)
                for n, w in zip(outs, want):
                    B.eq(other.eval_node(other.get_node(n)).array, w.array,
                         "value of %s after adding nodes" % n)
        finally:
            counters.update({k: max(v, counters.get(k, 0))
                             for k, v in keep.items()})
        # the loaded plan lives on its own and behaves alike
        third = goos.OptimizationPlan()
        with third:
            third.load(d)
        same_states(B, plan, third, "before running")
        for p in (plan, third):
            with p:
                p.run(auto_checkpoint=False)
        same_states(B, plan, third, "after running")
        for n in outs:
            B.eq(third.eval_node(third.get_node(n)).array,
                 plan.eval_node(plan.get_node(n)).array,
                 "value of %s after running" % n)
        for n in outs:
            w = [plan.get_node(v) for v in wrt]
            if np.size(plan.eval_node(plan.get_node(n)).array) > 1:
                continue
            g = plan.eval_grad(plan.get_node(n), w)
            h = third.eval_grad(third.get_node(n),
                                [third.get_node(v) for v in wrt])
            for u, v in zip(g, h):
                B.eq(v.array_grad, u.array_grad, "gradient of %s" % n)


def c_array_type(B):
    """NumpyArrayType and ComplexNumberType invert their own output."""
    shape = B.choose("shape", [(), (1, ), (3, ), (2, 2), (1, 2, 2)])
    kind = B.choose("kind", ["real", "complex"])
    a = (B.real if kind == "real" else B.cplx)("a", shape)
    keep = +a

    def fn(x):
        pass
    fn.__signature__ = inspect.Signature([inspect.Parameter(
        "x", inspect.Parameter.POSITIONAL_OR_KEYWORD,
        annotation=optplan.schema.np.ndarray)])
    M = optplan.schema.construct_schema("M", fn)
    with json_contract(B):
        m = M()
        m.x = a
        s = json.dumps(m.to_primitive())
        r = M(json.loads(s))
        r.validate()
        B.eq(r.x, keep, "array")
        if not B.symbolic and np.shape(r.x) and r.x.dtype != a.dtype:
            raise Failure("type", "%s instead of %s" % (r.x.dtype, a.dtype))
        B.eq(a, keep, "argument")


def c_alias(B):
    """The saved plan holds the values at the time of creation."""
    route = B.choose("route", ["variable", "constant", "list", "bounds",
                               "translate"])
    with json_contract(B), Dir() as d, goos.OptimizationPlan() as plan:
        a = B.real("a", (2, ))
        keep = +a
        b = np.array([1.0, 2.0] + [3.0] * (route == "translate"))
        if route == "variable":
            goos.Variable(a, name="n")
        elif route == "constant":
            goos.Constant(a, name="n")
        elif route == "list":
            goos.rename(goos.Sum([goos.Constant(a, name="k")]), "n")
        elif route == "bounds":
            goos.Variable(a, lower_bounds=b, upper_bounds=b, name="n")
        else:
            goos.TranslateShape(goos.cuboid([1, 1, 1], [0, 0, 0]), b,
                                name="t")
            goos.Constant(a, name="n")
        a[...] = 77.0
        b[...] = 78.0
        plan.save(d)
        with goos.OptimizationPlan() as other:
            other.load(d)
            B.eq(other.eval_node(other.get_node("n")).array, keep, "value")
            if route == "bounds":
                for g in other.get_var_bounds(other.get_node("n")):
                    if not np.array_equal(g, [1.0, 2.0]):
                        raise Failure("bounds", repr(g))
            if route == "translate":
                f = other.eval_node(other.get_node("t"))
                if not np.array_equal(f.pos, [1.0, 2.0, 3.0]):
                    raise Failure("offset", repr(f.pos))


# every node type -------------------------------------------------------------


def equal(a, b):
    if isinstance(a, goos.ArrayFlow):
        return len(a) == len(b) and all(equal(u, v) for u, v in zip(a, b))
    if dataclasses.is_dataclass(a):
        return type(a) == type(b) and all(
            equal(getattr(a, f.name), getattr(b, f.name))
            for f in dataclasses.fields(a))
    if isinstance(a, (np.ndarray, list, tuple)):
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype == object or y.dtype == object:
            return len(a) == len(b) and all(equal(u, v)
                                            for u, v in zip(a, b))
        return (x.shape == y.shape and np.array_equal(x, y) and
                (x.dtype == y.dtype or not isinstance(a, np.ndarray)))
    if hasattr(a, "permittivity"):
        return a.permittivity(1000.0) == b.permittivity(1000.0)
    return a == b


def mat(i):
    return goos.material.Material(index=i)


def n_math(rng):
    x = goos.Variable(rng.random(3) + .1, name="x")
    y = goos.Variable(2.0, name="y", parameter=True)
    z = x + y
    for f in (z * y, x * 2.5, 2 * x, z**2, x**0.5, -x, x / 2, goos.abs(x),
              goos.dot(x, z), goos.norm(x), goos.norm(x, order=1),
              goos.norm(x, order=4), goos.max(x, z), goos.Sigmoid(z),
              goos.Conjugate(x), x + 1 + 2j, z - x, 3 - z):
        pass
    a = goos.Constant(np.arange(12.0).reshape(2, 3, 2))
    goos.Slice(a, [0, [1, 3], "c"])
    goos.Slice(a, ["center", None, 1])
    goos.Slice(a, [None, None, None])
    goos.cast(z, goos.Function, name="cc")
    goos.rename(z, "rr")
    goos.rename(goos.rename(z, "r1"), "r2")
    x.set(y)
    x.freeze()
    x.thaw()
    x.set(z)
    x.set(np.array([3.0, 2, 1]))
    goos.log_print("text")
    goos.log_print(x)
    goos.log_print([x, z])


def n_values(rng):
    for i, v in enumerate([
            3.5, 3, 1 + 2j, np.arange(3.0), np.arange(3), np.arange(3) * 1j,
            np.array(2.0), np.array(2j), np.arange(6.0).reshape(2, 3),
            np.array([True, False]), np.array([np.inf, -np.inf]),
            np.float64(2.5), np.int64(2), np.complex128(1j), [1.0, 2.0],
            [[1, 2], [3, 4]], 1e-300, 0.1 + 0.2, -0.0, 2**60,
            rng.normal(size=4) + 1j * rng.normal(size=4)]):
        goos.Constant(v, name="c%d" % i)
        goos.Variable(v, name="v%d" % i)
    goos.Variable(np.zeros(2), lower_bounds=np.array([-np.inf, 1.0]),
                  upper_bounds=3, name="b0")
    goos.Variable(np.zeros(2), lower_bounds=[1.0, 2.0], name="b1")
    goos.Variable(np.zeros((2, 1)), upper_bounds=rng.normal(size=(2, 1)),
                  name="b2")


def n_shapes(rng):
    m = mat(3.5 + 0.1j)
    a = goos.Cuboid(pos=goos.Constant([0, 0, 0]), material=m,
                    extents=goos.Constant([1, 2, 3]), name="a")
    b = goos.cuboid([1, 2, 3], [0, 1, 0], material=mat(2), priority=3)
    c = goos.Cylinder(pos=goos.Constant([0, 0, 0]), radius=goos.Constant(2.0),
                      height=goos.Constant(1.0), material=m)
    var, px = goos.pixelated_cont_shape(
        lambda s: rng.random(s), extents=[40, 80, 10], pixel_size=[20, 20, 10],
        pos=[0, 0, 0], var_name="pv", material=m, material2=mat(1.5))
    g = goos.GroupShape([b, a, px], name="g")
    h = goos.GroupShape([g, c], name="h")
    g[0], h[0], g[2]
    goos.TranslateShape(a, np.array([1.0, 2, 3]), name="t")
    goos.TranslateShape(px, [1.0, 2, 3])
    goos.rename(a, "renamed")
    goos.GroupShape([], name="empty")
    goos.Cuboid(pos=goos.Constant([0, 0, 0]), extents=goos.Constant([1, 2, 3]),
                rot=goos.Constant([0, 0, 1]), material=m, priority=-2,
                name="rot")


def n_grating(rng):
    e = goos.Variable(np.array([40.0, 100, 160, 240]), name="e")
    h = goos.Variable(np.array([0, 1, 0, 1]), parameter=True, name="h")
    goos.grating.PixelatedGrating(
        e, height_index=h, height_fracs=np.array([0, 1.0]),
        pos=np.array([1.0, 2, 3]), extents=np.array([400.0, 100, 220]),
        material=mat(1), material2=mat(3.5), grating_dir=0,
        grating_dir_spacing=20, etch_dir=2, etch_dir_divs=2,
        use_edge_locs=True, name="pg")
    goos.grating.EdgeLocConstraint(e, h, min_features=np.array([20.0, 30]),
                                   grating_len=400.0, name="cons")
    goos.grating.BarcodeGrating(
        e, goos.Constant(np.array([220.0])), pos=np.zeros(3),
        extents=np.array([400.0, 100, 220]), material=mat(2), grating_dir=0,
        name="bg")


def n_cubic(rng):
    goos.cubic_param_shape(
        lambda s: rng.random(s), extents=[400, 400, 10], pixel_spacing=40,
        control_point_spacing=100, pos=[0, 0, 0], var_name="v",
        material=mat(1), material2=mat(2), reflection_symmetry=[1, 0])


def n_opt(rng):
    x = goos.Variable(np.arange(1.0, 4), name="x")
    it = goos.Variable(0, name="it", parameter=True)
    goos.opt.scipy_minimize(
        goos.dot(x, x) * (1 / 3), "SLSQP", constraints_eq=[goos.norm(x) - 1],
        constraints_ineq=[goos.norm(x) + -2, goos.norm(x) + -3], ftol=1e-3,
        monitor_list=[x], max_iters=3, iteration=it, name="opt1")
    x.set(goos.Constant([3.0, 2, 1]))
    goos.opt.scipy_maximize(goos.dot(x, x) * -1, "L-BFGS-B", max_iters=4)
    x.set(x * 2)


def n_sim(rng):
    from spins.goos_sim import maxwell
    m = mat(3.5)
    s = goos.GroupShape([goos.cuboid([100, 200, 300], [0, 0, 0], material=m),
                         goos.cuboid([50, 50, 400], [30, 0, 0],
                                     material=mat(2), priority=1)])
    space = maxwell.SimulationSpace(
        mesh=maxwell.UniformMesh(dx=40),
        sim_region=goos.Box3d(center=[0, 0, 0], extents=[400, 400, 40]),
        pml_thickness=[80, 80, 80, 80, 0, 0])
    sim = maxwell.fdfd_simulation(
        name="sim", wavelength=1550, eps=s, background=mat(1.0),
        simulation_space=space, solver="local_direct",
        sources=[maxwell.GaussianSource(
            w0=100, center=[0, 0, 0], extents=[200, 0, 0], normal=[0, 0, -1],
            power=1, theta=0, psi=0, polarization_angle=np.pi / 2,
            normalize_by_sim=False)],
        outputs=[maxwell.Epsilon(name="eps"),
                 maxwell.ElectricField(name="field"),
                 maxwell.WaveguideModeOverlap(
                     name="overlap", center=[-100, 0, 0], extents=[0, 200, 0],
                     normal=[-1, 0, 0], mode_num=0, power=1)])
    sim["eps"]
    goos.rename(goos.abs(sim["overlap"])**2, "obj")
    goos.rename(sim["field"], "ff")


PLANS = [n_math, n_values, n_shapes, n_grating, n_cubic, n_opt, n_sim]


def b_nodes(tier, seed):
    import logging
    logging.disable(logging.CRITICAL)
    ev = 0
    for build in PLANS:
        for k in range(2 if tier == "quick" else 6):
            rng = np.random.default_rng(seed * 100 + k)
            with Dir() as d, Dir() as d2:
                plan = goos.OptimizationPlan()
                with plan:
                    build(rng)
                    plan.save(d)
                counters = optplan.PROBLEM_GRAPH_NAME_MAP
                if k % 2:
                    counters.clear()
                other = goos.OptimizationPlan()
                with other:
                    other.load(d)
                    other.save(d2)
                a, b = json.loads(text(d)), json.loads(text(d2))
                x = {m["name"]: m for m in a["nodes"]}
                y = {m["name"]: m for m in b["nodes"]}
                if any(n not in y or repr(x[n]) != repr(y[n]) for n in x):
                    bad = [n for n in x if repr(x[n]) != repr(y.get(n))]
                    raise Failure("nodes of " + build.__name__, "%r, %r" % (
                        x[bad[0]], y.get(bad[0])))
                if any(y[n]["type"] != "goos.function.constant"
                       for n in y if n not in x):
                    raise Failure("additional nodes", repr(set(y) - set(x)))
                if repr(a.get("actions", [])) != repr(b.get("actions", [])):
                    raise Failure("actions of " + build.__name__, repr(
                        (a.get("actions", []), b.get("actions", []))))
                for stage in (0, 1):
                    for n in x:
                        if build is n_sim and x[n]["type"] not in (
                                "goos.shape.group", "goos.shape.cuboid",
                                "sim.maxwell.render"):
                            continue
                        u = plan.eval_node(plan.get_node(n))
                        v = other.eval_node(other.get_node(n))
                        ev += 1
                        if not equal(u, v):
                            raise Failure("value of %s (%s)" % (
                                n, build.__name__), "%r, %r" % (u, v))
                    if stage == 0:
                        for p in (plan, other):
                            with p:
                                p.run(auto_checkpoint=False)
                p, q = (plan.get_state_dict()["variable_data"],
                        other.get_state_dict()["variable_data"])
                if set(p) != set(q) or any(
                        repr(p[v]) != repr(q[v]) for v in p):
                    raise Failure("variables of " + build.__name__,
                                  "after running")
    return dict(evaluations=ev, distinct=ev)


# declared types --------------------------------------------------------------


class ModelA(goos.Model):
    type = goos.ModelNameType("verif.a")
    x = goos.types.FloatType()


class ModelB(goos.Model):
    type = goos.ModelNameType("verif.b")
    n = goos.types.IntType()


class Holder(goos.Model):
    type = goos.ModelNameType("verif.holder")
    inner = goos.types.PolyModelType([ModelA, ModelB])


ModelA = goos.polymorphic_model()(ModelA)
ModelB = goos.polymorphic_model()(ModelB)
Holder = goos.polymorphic_model()(Holder)


def prim(v):
    if isinstance(v, (ModelA, ModelB, Holder)):
        return (type(v).__name__, v.to_primitive())
    if isinstance(v, np.ndarray):
        if v.shape == ():
            return prim(v.tolist())
        return (v.dtype.kind, v.shape, v.tolist())
    if isinstance(v, (list, tuple)):
        return [prim(u) for u in v]
    if isinstance(v, complex) and v.imag == 0:
        return v.real
    return v


# annotation, accepted values, rejected values
TYPES = [
    (int, [0, 3, -7, 2**40], ["a", [1], {}, 2.5 + 1j]),
    (float, [0.0, 2.5, -1e-300, 3, float("inf")], ["a", [1.0], {}, 1j]),
    (str, ["", "abc", "x.y"], [[1], {}]),
    (bool, [True, False], ["maybe", 7, [True]]),
    (complex, [1 + 2j, 3j, 2.5, 3, -1.0], ["a", [1.0], [1.0, 2.0, 3.0], {}]),
    (np.ndarray, [np.arange(3.0), np.arange(4).reshape(2, 2),
                  np.array([1j, 2.0]), np.array(3.0)], []),
    (typing.List[int], [[1, 2], [], [0]], [["a"], [1, "b"], 3, {}]),
    (typing.List[float], [[1.5, 2.0], []], [["a"], 3.0]),
    (typing.List[complex], [[1j, 2.0]], [["a"], [[1.0]]]),
    (typing.List[typing.List[int]], [[[1], [2, 3]]], [[["a"]], [3]]),
    (typing.List[np.ndarray], [[np.arange(2.0), np.ones((2, 2))]], []),
    (typing.Union[int, str], [3, "abc"], [[1], {}]),
    (typing.Union[int, typing.List[int], str], [3, [1, 2], "c"], [{}]),
    (typing.Union[float, np.ndarray], [2.5, np.arange(3.0),
                                       np.array([1j, 2])], []),
    (typing.List[typing.Union[int, typing.List[int], str, None]],
     [[None, 3, "c", [1, 2]], [None, None], []], [[{}]]),
    (ModelA, [ModelA(x=2.5)], [3, "a", {"type": "verif.b", "n": 3}]),
    (Holder, [Holder(inner=ModelB(n=3)), Holder(inner=ModelA(x=1.5))],
     [ModelA(x=1.0)]),
    (typing.List[ModelA], [[ModelA(x=1.0), ModelA(x=2.0)]], [[3]]),
]


def b_types(tier, seed):
    ev = 0
    for ann, good, bad in TYPES:
        for default in (False, True):
            def fn(q):
                pass
            p = inspect.Parameter(
                "q", inspect.Parameter.POSITIONAL_OR_KEYWORD, annotation=ann,
                default=None if default else inspect.Parameter.empty)
            fn.__signature__ = inspect.Signature([p])
            M = optplan.schema.construct_schema("M", fn,
                                                base_classes=(goos.Model, ))
            for v in good:
                ev += 1
                m = M(q=v)
                m.validate()
                r = M(json.loads(json.dumps(m.to_primitive())))
                r.validate()
                if prim(r.q) != prim(v):
                    raise Failure("round trip of %s" % ann, "%r became %r" %
                                  (v, r.q))
                if json.dumps(r.to_primitive()) != json.dumps(
                        m.to_primitive()):
                    raise Failure("stable form of %s" % ann, repr(v))
            for v in bad:
                ev += 1
                try:
                    m = M(q=v)
                    m.validate()
                    m = M({"q": v})
                    m.validate()
                    got = m.q
                except Exception:
                    continue
                raise Failure("validation of %s" % ann, "%r accepted as %r" %
                              (v, got))
            ev += 1
            try:
                m = M({})
                m.validate()
                ok = True
            except Exception:
                ok = False
            if ok != default:
                raise Failure("required parameter", "%s, default %s" %
                              (ann, default))
    return dict(evaluations=ev, distinct=ev)


def b_reject(tier, seed):
    """Wrong references, unknown types, clashing names, old versions."""
    ev = 0

    def rejected(what, fn):
        try:
            fn()
        except Exception:
            return
        raise Failure("rejection", what)
    with Dir() as d:
        with goos.OptimizationPlan() as plan:
            x = goos.Variable(np.ones(3), name="x")
            c = goos.Cuboid(pos=x, extents=x, name="c",
                            material=mat(2.0))
            goos.rename(x + x, "s")
            plan.save(d)
        base = json.loads(text(d))

        def load(change):
            p = json.loads(json.dumps(base))
            p = change(p) or p
            with open(os.path.join(d, "optplan.json"), "w") as f:
                json.dump(p, f)
            q = goos.OptimizationPlan()
            q.load(d)
            return q
        load(lambda p: None)

        def node(p, n):
            return [m for m in p["nodes"] if m["name"] == n][0]
        rejected("reference of the wrong type",
                 lambda: load(lambda p: node(p, "c").update(pos="c")))
        rejected("reference to a missing node",
                 lambda: load(lambda p: node(p, "c").update(pos="nowhere")))
        rejected("unknown node type",
                 lambda: load(lambda p: node(p, "c").update(type="none")))
        rejected("duplicate name",
                 lambda: load(lambda p: p["nodes"].append(node(p, "x"))))
        rejected("missing required parameter",
                 lambda: load(lambda p: node(p, "c").pop("pos") and None))
        rejected("wrong parameter type", lambda: load(
            lambda p: node(p, "c").update(priority="high")))
        for v in ("0.2.0", "0.1.9", "0.0.5", "0.2.10"):
            rejected("version " + v, lambda: load(
                lambda p: p.update(version=v)))
        for v in ("0.3.0", "0.3.1", "0.10.0", "1.0.0", "1.2.3"):
            load(lambda p: p.update(version=v))
            ev += 1
        # an entry that is not part of the plan's order matters not
        q = load(lambda p: p["nodes"].reverse())
        if not equal(q.eval_node(q.get_node("s")).array, 2 * np.ones(3)):
            raise Failure("order of nodes", "changes the value")
        with goos.OptimizationPlan() as plan:
            a = goos.Constant(1.0, name="n")
            with goos.OptimizationPlan():
                b = goos.Constant(2.0, name="n")
            goos.rename(a + b, "sum")
            rejected("two nodes with one name", lambda: plan.save(d))
        with goos.OptimizationPlan() as plan:
            x = goos.Variable(1.0, name="x")
            plan.add_action(goos.SetVariable(x, goos.Constant(2.0),
                                             name="act"))
            with goos.OptimizationPlan():
                b = goos.FreezeVariable(x, name="act")
            plan.add_action(b)
            rejected("two actions with one name", lambda: plan.save(d))
        with goos.OptimizationPlan() as plan:
            x = goos.Variable(1.0, name="x")
            a = goos.SetVariable(x, x + 1, name="act")
            plan.add_action(a)
            plan.add_action(a)
            plan.save(d)
            with goos.OptimizationPlan() as q:
                q.load(d)
                q.run(auto_checkpoint=False)
                if q.eval_node(q.get_node("x")).array != 3.0:
                    raise Failure("action added twice", "runs another way")
    # node registration: the topmost context that defines a type wins
    stack = optplan.context.ContextStack()
    stack.register_node("t", int, float)
    stack.push()
    for i, want in enumerate([(int, float), (str, bool)]):
        e = stack.get_node("t")
        if (e.schema, e.creator) != want:
            raise Failure("context", repr(e))
        if not i:
            stack.register_node("t", str, bool)
    if stack.get_node_map()["t"].schema != str:
        raise Failure("context map", "does not hold the topmost entry")
    rejected("second registration",
             lambda: stack.register_node("t", int, float))
    stack.pop()
    if stack.get_node("t").schema != int:
        raise Failure("context", "entry lost by pop")
    rejected("unknown type", lambda: stack.get_node("u"))
    from spins.goos import schema_registry
    reg = schema_registry.SchemaRegistryStack()
    reg.register("t", int, float)
    reg.push()
    reg.register("t", str, bool, {"a": 1})
    if reg.get("t").schema != str or reg.get_map()["t"].meta != {"a": 1}:
        raise Failure("registry", "topmost entry")
    reg.pop()
    if reg.get("t").schema != int:
        raise Failure("registry", "entry lost by pop")
    rejected("unknown entry", lambda: reg.get("u"))
    rejected("second registration", lambda: reg.register("t", int, float))
    return dict(evaluations=ev + 20, distinct=ev + 20)


ITEMS = [
    Contract("plan round trip", c_plan,
             [OP + "OptimizationPlan.save", OP + "OptimizationPlan.load",
              OP + "ProblemGraphNodeMeta.__call__", SC + "dumps",
              SC + "loads", SC + "generate_name", SC + "reserve_name",
              SC + "_iter_optplan_fields", SC + "_extract_nodes",
              SC + "_replace_ref_nodes_with_names"], sym="obj",
             num=(42, 200)),
    Contract("array type", c_array_type, [ST + "NumpyArrayType"], sym="obj",
             num=(20, 100)),
    Contract("stored values", c_alias,
             [OP + "_replace_node_with_schema"], sym="obj", num=(20, 60)),
    Bounded("node types", b_nodes,
            [OP + "OptimizationPlan.save", OP + "OptimizationPlan.load",
             "spins/goos/generic.py:cast", "spins/goos/generic.py:LogPrint"],
            "one or more nodes of every type in goos and the renderer, "
            "simulation nodes without solving"),
    Bounded("declared types", b_types,
            [SC + "construct_schema", SC + "_convert_type_to_schematics",
             SC + "_convert_param_to_schematics", ST + "ComplexNumberType",
             ST + "NumpyArrayType", ST + "OptionalUnionType"],
            "the listed values of %d declared types" % len(TYPES)),
    Bounded("rejections", b_reject,
            [SC + "validate", SC + "validate_references",
             SC + "_validate_optplan_version",
             "spins/goos/optplan/context.py:ContextStack",
             "spins/goos/schema_registry.py:SchemaRegistryStack"],
            "one plan per kind of error"),
]
