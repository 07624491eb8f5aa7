"""C15: the optimizer adapters hand over the user's problem.

scipy.optimize.minimize is replaced by a stub whose precondition is the
contract: everything it receives must be the user's problem, for arbitrary
(symbolic) points, values and results.
"""
import contextlib

import numpy as np
import scipy.optimize

from vc.run import Contract, Bounded
from vc.harness import Failure

from spins import goos
from spins.goos import optimize as gopt
from spins.goos import compat
from spins.invdes import problem
from spins.invdes.optimization import scipy_optimizer as so
from spins.invdes.parametrization import Parametrization
from spins.invdes.problem.objective import OptimizationFunction
from spins.invdes.problem_graph import optplan as old_optplan
from spins.invdes.problem_graph import creator_opt

LEVEL = "proof"
TECHNIQUE = ("contracts on the real adapters against the contract of "
             "scipy.optimize.minimize (stub with a checked precondition and "
             "an arbitrary result); symbolic points and coefficients; normal "
             "form and z3")
ASSUMPTIONS = [
    "scipy.optimize.minimize may return any point and call the functions it "
    "is given at any points in any order",
    "objective and constraints are the quadratic and linear functions with "
    "arbitrary coefficients of up to 3 variables with up to 3 dimensions; "
    "arbitrary graphs are the subject of C01 to C05",
    "up to 3 equality and 3 inequality constraints",
    "bounds and constraints are handed to the methods listed in the adapters "
    "(SLSQP and COBYLA for constraints); COBYLA receives no gradient",
]
GO = "spins/goos/optimize.py:ScipyOptimizer."
SO = "spins/invdes/optimization/scipy_optimizer.py:ScipyOptimizer."
CO = "spins/invdes/problem_graph/creator_opt.py:ScipyOptimizer."


def arr(B, xs):
    xs = list(xs)
    if B.symbolic:
        from vc.arrays import oarr
        return oarr(np.array(xs, dtype=object))
    return np.array(xs, dtype=float)


@contextlib.contextmanager
def minimize_stub(fn):
    keep = scipy.optimize.minimize
    mods = [m for m in (so, gopt) if hasattr(m, "minimize")]
    old = [m.minimize for m in mods]
    scipy.optimize.minimize = fn
    for m in mods:
        m.minimize = fn
    try:
        yield
    finally:
        scipy.optimize.minimize = keep
        for m, v in zip(mods, old):
            m.minimize = v


class Result(dict):
    __getattr__ = dict.get


def scal(x):
    return x if np.ndim(x) == 0 else x.ravel()[0]


def flat(x):
    return x.ravel() if np.ndim(x) else x


METHODS = ["SLSQP", "COBYLA", "L-BFGS-B", "CG", "Nelder-Mead"]
NEED_JAC = {"CG", "BFGS", "L-BFGS-B", "TNC", "SLSQP", "dogleg", "trust-ncg"}


def same(a, b):
    if a is None or b is None or (np.ndim(a) == 0 and not hasattr(a, "t")
                                  and np.isinf(a)):
        inf = lambda v: v is None or (not hasattr(v, "t") and  # noqa: E731
                                      np.isinf(v))
        return inf(a) and inf(b)
    return bool(a == b)


# goos ------------------------------------------------------------------------

VARS = [[("a", (2, ))], [("a", (1, )), ("b", (2, ))],
        [("a", (2, 2)), ("b", (1, )), ("c", (3, ))],
        [("a", (1, 2, 1)), ("b", (2, ))]]


class SetAll(goos.Action):
    node_type = "verif.c15.set_all"
    goos_no_register = True

    def __init__(self) -> None:
        super().__init__()
        self.vals = {}

    def run(self, plan):
        for v, x in self.vals.items():
            plan.set_var_value(v, x, check_frozen=False)


def form(B, tag, variables):
    """sum_v <w_v, v> + (sum_v <q_v, v>)^2 + k as a node and as functions."""
    w, q, lin, quad = {}, {}, None, None
    for v, shape in variables:
        w[v] = B.real(tag + "w" + v._goos_name, shape)
        q[v] = B.real(tag + "q" + v._goos_name, shape)
        a, b = goos.dot(w[v], v), goos.dot(q[v], v)
        lin = a if lin is None else lin + a
        quad = b if quad is None else quad + b
    k = B.real(tag + "k")
    node = lin + quad**2 + k

    def val(x):
        return (sum((w[v] * x[v]).sum() for v in x) +
                sum((q[v] * x[v]).sum() for v in x)**2 + k)

    def der(x):
        s = sum((q[v] * x[v]).sum() for v in x)
        return {v: w[v] + 2 * s * q[v] for v in x}
    return node, val, der


def c_goos(B):
    method = B.choose("method", METHODS)
    kinds = B.choose("variables", VARS)
    ne, ni = B.choose("constraints", [(0, 0), (2, 2), (0, 3), (3, 1)]
                      if method in ("SLSQP", "COBYLA") else [(0, 0), (1, 1)])
    frozen = B.choose("frozen variable", [None, 0]) if len(kinds) > 1 else None
    bkind = B.choose("bounds", ["arrays", "scalars", "none"])
    with goos.OptimizationPlan() as plan:
        vs = []
        for i, (nm, shape) in enumerate(kinds):
            n = int(np.prod(shape))
            lo, hi = {"arrays": (
                np.where(np.arange(n) % 2, -np.inf, -1.5 - i).reshape(shape),
                np.where(np.arange(n) % 3, np.inf, 2.5 + i).reshape(shape)),
                "scalars": (-1.0 - i, 3.0 + i),
                "none": (None, None)}[bkind]
            vs.append(goos.Variable(np.zeros(shape), name=nm, lower_bounds=lo,
                                    upper_bounds=hi))
        param = goos.Variable(np.zeros(1), name="p", parameter=True)
        itv = goos.Variable(0, name="it", parameter=True)
        allv = [(v, k[1]) for v, k in zip(vs, kinds)] + [(param, (1, ))]
        obj = form(B, "f", allv)
        eqs = [form(B, "e%d" % i, allv) for i in range(ne)]
        iqs = [form(B, "i%d" % i, allv) for i in range(ni)]
        free = [v for i, v in enumerate(vs) if i != frozen]
        start = {v: B.real("x" + v._goos_name, s) for v, s in allv}
        keep = {v: +x for v, x in start.items()}
        shapes = dict(allv)
        total = sum(int(np.prod(shapes[v])) for v in free)
        result = B.real("r", (total, ))
        probe = B.real("z", (total, ))
        if not B.symbolic:
            # distinct entries identify the order of the vector
            for k, v in enumerate(start):
                start[v] = start[v] + 100.0 * (k + 1) + np.arange(
                    start[v].size).reshape(start[v].shape) * 10.0
                keep[v] = start[v].copy()
        first = SetAll()
        first.vals = start
        plan.add_action(first)
        if frozen is not None:
            vs[frozen].freeze()
        wanted = method
        goos.opt.scipy_minimize(
            obj[0], method=method, constraints_eq=[e[0] for e in eqs],
            constraints_ineq=[e[0] for e in iqs], max_iters=7, ftol=1e-3,
            iteration=itv)
        calls = []
        order = []
        events = []
        write = plan.write_event

        def record(event, *a, **k):
            events.append(dict(event))
            return write(event, *a, **k)
        plan.write_event = record

        def full(z):
            x = {v: keep[v] for v, _ in allv}
            part = {v: [None] * int(np.prod(shapes[v])) for v in free}
            for j, (v, k) in enumerate(order):
                part[v][k] = z[j]
            for v in free:
                x[v] = arr(B, part[v]).reshape(shapes[v])
            return x

        def vec(d):
            return arr(B, [d[v].ravel()[k] for v, k in order])

        def mini(fun, x0, method=None, jac=None, callback=None, bounds=None,
                 constraints=None, options=None, **kw):
            calls.append(method)
            if len(x0) != total:
                raise Failure("starting point", "%d entries instead of %d" %
                              (len(x0), total))
            known = [(v, k, keep[v].ravel()[k]) for v in free
                     for k in range(int(np.prod(shapes[v])))]
            for t in x0:
                hit = [(v, k) for v, k, u in known
                       if (u is t or (hasattr(u, "t") and
                                      not (u - t).t) if B.symbolic
                           else u == t)]
                if len(hit) != 1 or hit[0] in order:
                    raise Failure("starting point",
                                  "is not the current values")
                order.append(hit[0])
            if method != wanted:
                raise Failure("method", repr(method))
            opts = options or {}
            if opts.get("maxiter") != 7 or opts.get("ftol") != 1e-3:
                raise Failure("options", repr(options))
            if bkind != "none" or bounds is not None:
                b = list(bounds)
                if len(b) != total:
                    raise Failure("bounds", "%d of %d" % (len(b), total))
                for (lo, hi), (v, k) in zip(b, order):
                    i = vs.index(v)
                    n = int(np.prod(shapes[v]))
                    wl, wh = {"arrays": (
                        -np.inf if k % 2 else -1.5 - i,
                        np.inf if k % 3 else 2.5 + i),
                        "scalars": (-1.0 - i, 3.0 + i),
                        "none": (None, None)}[bkind]
                    if not same(lo, wl) or not same(hi, wh):
                        raise Failure("bounds", "entry %d of %s: %r, "
                                      "expected %r" % (k, v._goos_name,
                                                       (lo, hi), (wl, wh)))
            if (jac is None) == (method in NEED_JAC):
                raise Failure("gradient", "method %s, jac %r" % (method, jac))
            cons = list(constraints or [])
            if method in ("SLSQP", "COBYLA"):
                got = [c["type"] for c in cons]
                if sorted(got) != ["eq"] * ne + ["ineq"] * ni:
                    raise Failure("constraints", repr(got))
            elif cons:
                raise Failure("constraints", "for a method without")
            # evaluate in an order that mixes the points and functions
            ce = [c for c in cons if c["type"] == "eq"]
            ci = [c for c in cons if c["type"] == "ineq"]
            for z, lbl in ((probe, "arbitrary point"), (x0, "start")):
                x = full(z)
                for i in reversed(range(len(cons))):
                    c = (ce + ci)[i]
                    _, val, der = (eqs + iqs)[i]
                    sg = 1 if i < ne else -1
                    B.eq(scal(c["fun"](z)), sg * val(x),
                         "constraint %d at the %s" % (i, lbl))
                    if c.get("jac") is not None:
                        B.eq(flat(c["jac"](z)), sg * vec(der(x)),
                             "gradient of constraint %d" % i)
                B.eq(scal(fun(z)), obj[1](x), "objective at the " + lbl)
                if jac is not None:
                    B.eq(jac(z), vec(obj[2](x)), "gradient at the " + lbl)
            # the callback stores the point it is given
            for k in (1, 2):
                callback(probe)
                x = full(probe)
                for v, _ in allv:
                    B.eq(plan.get_var_value(v), x[v],
                         "variable during callback")
                B.eq(scal(plan.get_var_value(itv)), k, "iteration counter")
                if len(events) != k or events[-1].get("iteration") != k:
                    raise Failure("event", repr(events))
            return Result(x=result)
        with minimize_stub(mini):
            plan.run(auto_checkpoint=False)
        if len(calls) != 1:
            raise Failure("optimizer calls", repr(calls))
        x = full(result)
        for v, _ in allv:
            B.eq(plan.get_var_value(v), x[v], "result in variable %s" %
                 v._goos_name)


def c_goos_resume(B):
    """A resumed optimizer runs the remaining iterations and counts on."""
    done = B.choose("done", [0, 3, 6, 7])
    limit = B.choose("limit", [7, None])
    seen = []

    with goos.OptimizationPlan() as plan:
        v = goos.Variable(np.zeros(2), name="v")
        itv = goos.Variable(0, name="it", parameter=True)
        act = gopt.ScipyOptimizer(goos.dot(np.ones(2), v),
                                  method="L-BFGS-B", max_iters=limit,
                                  iteration=itv)
        x0, r = B.real("x", (2, )), B.real("r", (2, ))

        def mini(fun, x0_, callback=None, options=None, **k):
            B.eq(x0_, x0, "starting point")
            m = (options or {}).get("maxiter")
            if m != (None if limit is None else limit - done):
                raise Failure("remaining iterations", "%r after %d of %r" %
                              (m, done, limit))
            callback(r)
            B.eq(scal(plan.get_var_value(itv)), done + 1, "iteration counter")
            seen.append(1)
            return Result(x=r)

        class Shim(goos.Action):
            node_type = "verif.c15.shim%d" % len(VARS)
            goos_no_register = True

            def __init__(self) -> None:
                super().__init__()

            def run(self, plan):
                plan.set_var_value(v, x0)
                act.resume(plan, {"state": "optimizing", "iteration": done})
        plan.add_action(Shim())
        with minimize_stub(mini):
            plan.run(auto_checkpoint=False)
        if limit is not None and done >= limit:
            if seen:
                raise Failure("resume", "optimizes beyond the limit")
            B.eq(plan.get_var_value(v), x0, "value")
        else:
            if len(seen) != 1:
                raise Failure("resume", "%d optimizations" % len(seen))
            B.eq(plan.get_var_value(v), r, "value")


def c_goos_maximize(B):
    """scipy_maximize minimizes the negative objective."""
    seen = []
    with goos.OptimizationPlan() as plan:
        v = goos.Variable(np.zeros(2), name="v")
        node, val, der = form(B, "f", [(v, (2, ))])
        goos.opt.scipy_maximize(node, method="L-BFGS-B")
        z = B.real("z", (2, ))

        def mini(fun, x0, jac=None, **k):
            B.eq(scal(fun(z)), -val({v: z}), "objective")
            B.eq(jac(z), -der({v: z})[v], "gradient")
            seen.append(1)
            return Result(x=z)
        with minimize_stub(mini):
            plan.run(auto_checkpoint=False)
        if not seen:
            raise Failure("maximize", "did not optimize")
        B.eq(plan.get_var_value(v), z, "value")


# invdes ----------------------------------------------------------------------


class P(Parametrization):
    """Vector with the projection v -> c v + d."""

    def __init__(self, v, c=1, d=0, bounds=None):
        self.v, self.c, self.d, self.bounds = v, c, d, bounds

    def get_structure(self):
        return self.v

    def calculate_gradient(self):
        raise NotImplementedError

    def project(self):
        self.v = self.c * self.v + self.d

    def encode(self):
        return self.v

    def decode(self, v):
        self.v = v

    def get_bounds(self):
        return self.bounds


class Quad(OptimizationFunction):
    def __init__(self, B, tag, n):
        super().__init__([])
        self.q, self.b = B.real(tag + "q", (n, )), B.real(tag + "b", (n, ))
        self.c = B.real(tag + "c")

    def val(self, x):
        return (self.q * x * x).sum() + (self.b * x).sum() + self.c

    def der(self, x):
        return 2 * self.q * x + self.b

    def calculate_objective_function(self, param):
        return self.val(param.v)

    def calculate_gradient(self, param):
        return self.der(param.v)

    def eval(self, input_vals):
        raise NotImplementedError

    def grad(self, input_vals, grad_val):
        raise NotImplementedError


def c_invdes(B):
    n = 3
    method = B.choose("method", METHODS)
    ne, ni = B.choose("constraints", [(0, 0), (2, 2), (0, 3), (3, 1)]
                      if method in ("SLSQP", "COBYLA") else [(0, 0), (1, 1)])
    f = Quad(B, "f", n)
    eqs = [Quad(B, "e%d" % i, n) for i in range(ne)]
    iqs = [Quad(B, "i%d" % i, n) for i in range(ni)]
    bare = B.choose("plain function", [False, True]) if ne + ni == 0 else False
    bk = B.choose("bounds", ["param", "own", "none"])
    extra = B.choose("extra constraint", [False, True])
    pb = ([0.0, None, -1.0], [1.0, 2.0, None])
    own = [(5.0, 6.0)] * n
    opt = f if bare else problem.OptimizationProblem(f, cons_eq=eqs,
                                                     cons_ineq=iqs)
    x0 = B.real("x", (n, ))
    c, d = B.real("pc"), B.real("pd")
    p = P(+x0, c, d, bounds=pb if bk != "none" else None)
    z, r = B.real("z", (n, )), B.real("r", (n, ))
    given = dict(maxiter=4, ftol=0.5, tol=0.25)
    more = dict(type="eq", fun=lambda v: 0.0)
    o = so.ScipyOptimizer(method=method, options=given,
                          constraints=[more] if extra else (),
                          bounds=own if bk == "own" else None)
    seen, cbs = [], []

    def mini(fun, x0_, jac=None, tol=None, method=None, options=None,
             callback=None, constraints=None, bounds=None, **k):
        seen.append(method)
        B.eq(x0_, x0, "starting point")
        if tol != 0.25 or options.get("maxiter") != 4 or \
                options.get("ftol") != 0.5 or "tol" in options:
            raise Failure("options", repr((tol, options)))
        if (jac is None) == (method in NEED_JAC):
            raise Failure("gradient", "method %s, jac %r" % (method, jac))
        if method in ("L-BFGS-B", "TNC", "SLSQP"):
            want = {"param": list(zip(*pb)), "own": own, "none": None}[bk]
            got = None if bounds is None else [tuple(b) for b in bounds]
            if want is None and got is not None:
                want = [(None, None)] * n
            if got != want:
                raise Failure("bounds", "%r, expected %r" % (got, want))
        cons = list(constraints or [])
        if method in ("SLSQP", "COBYLA"):
            if extra:
                if more not in cons:
                    raise Failure("constraints", "without the given one")
                cons.remove(more)
            ce = [q for q in cons if q["type"] == "eq"]
            ci = [q for q in cons if q["type"] == "ineq"]
            if len(ce) != ne or len(ci) != ni:
                raise Failure("constraints", "%d and %d" % (len(ce), len(ci)))
            w = c * z + d
            for i in reversed(range(ne + ni)):
                q, t = (ce + ci)[i], (eqs + iqs)[i]
                sg = 1 if i < ne else -1
                B.eq(q["fun"](z), sg * t.val(w), "constraint %d" % i)
                if q.get("jac") is not None:
                    B.eq(q["jac"](z), sg * t.der(w),
                         "gradient of constraint %d" % i)
                elif method == "SLSQP":
                    raise Failure("gradient", "of constraint %d" % i)
        elif cons:
            raise Failure("constraints", "for a method without")
        w = c * z + d
        B.eq(fun(z), f.val(w), "objective")
        if jac is not None:
            B.eq(jac(z), f.der(w), "gradient")
        if callback:
            callback(z)
        return Result(x=r)
    with minimize_stub(mini):
        got = o(opt, p, callback=cbs.append)
    if got is not p or len(seen) != 1 or seen[0] != method:
        raise Failure("result", repr((got, seen)))
    if len(cbs) != 1:
        raise Failure("callback", "%d calls" % len(cbs))
    B.eq(p.v, c * r + d, "result in the parametrization")
    if given != dict(maxiter=4, ftol=0.5, tol=0.25):
        raise Failure("the caller's options were changed", repr(given))
    if len(problem.OptimizationProblem(f).get_equality_constraints()) != 0:
        raise Failure("constraints", "shared between problems")


def c_transformation(B):
    """Start, iterations and end of the transformation; resuming."""
    state = B.choose("resume from", [None, "start", "optimizing", "end"])
    itn = B.choose("iteration", [1, 3, 5]) if state == "optimizing" else 0
    limit = B.choose("limit", [5, None])
    opts = B.choose("options", ["given", "omitted"]) if limit is None \
        else "given"
    cb = B.choose("callback monitors", [True, False])
    steps = B.choose("steps", [0, 2])
    x0, r = B.real("x", (2, )), B.real("r", (2, ))
    f = Quad(B, "f", 2)
    p = P(+x0)
    log, seen = [], []

    class Log:
        def write(self, event, param, monitor_list):
            log.append((dict(event), +param.v, monitor_list))
    ml = old_optplan.ScipyOptimizerMonitorList(
        start_monitors=["s"], end_monitors=["e"],
        callback_monitors=["c"] if cb else None)
    oo = old_optplan.ScipyOptimizerOptions(ftol=0.5)
    if limit:
        oo.maxiter = limit
    tr = creator_opt.ScipyOptimizer(
        problem.OptimizationProblem(f), Log(), optimizer="L-BFGS-B",
        monitor_lists=ml,
        optimization_options=oo if opts == "given" else None)

    def mini(fun, x0_, options=None, callback=None, **k):
        B.eq(x0_, x0, "starting point")
        m = (options or {}).get("maxiter")
        if m != (None if limit is None else limit - itn):
            raise Failure("remaining iterations", repr(m))
        if opts == "given" and options.get("ftol") != 0.5:
            raise Failure("options", repr(options))
        z = B.real("z", (2, ))
        for _ in range(steps):
            fun(z)
            if callback:
                callback(z)
        seen.append(1)
        return Result(x=r)
    ev = None
    if state:
        ev = {"state": state}
        if state == "optimizing":
            ev["iteration"] = itn
    with minimize_stub(mini):
        tr(p, ev)
    want = []
    if state is None:
        want.append(("start", None, ["s"]))
    ran = state != "end" and (limit is None or itn < limit)
    if ran and cb:
        want += [("optimizing", itn + k + 1, ["c"]) for k in range(steps)]
    if state != "end":
        want.append(("end", None, ["e"]))
    if len(seen) != int(ran):
        raise Failure("optimizations", repr(len(seen)))
    got = [(e.get("state"), e.get("iteration"), list(m)) for e, _, m in log]
    if got != want:
        raise Failure("log", "%r, expected %r" % (got, want))
    B.eq(p.v, r if ran else x0, "final vector")
    if state is None:
        B.eq(log[0][1], x0, "start is logged before optimizing")
    if state != "end":
        B.eq(log[-1][1], p.v, "end is logged after optimizing")


def b_compat(tier, seed):
    """Old parametrizations inside goos: value and gradient."""
    rng = np.random.default_rng(seed)
    ev = 0
    for t in range(12 if tier == "quick" else 60):
        nx, ny = int(rng.integers(7, 11)), int(rng.integers(6, 9))
        par = old_optplan.CubicParametrization(
            undersample=float(rng.choice([2.0, 2.5, 3.0])),
            reflection_symmetry=[int(v) for v in rng.integers(0, 2, 2)])
        ext, px = [nx * 10.0, ny * 10.0, 5.0], [10.0, 10.0, 5.0]
        with goos.OptimizationPlan():
            def init(shape):
                return rng.random(shape)
            var, shp = compat.compat_param(
                par, init, extents=ext, pixel_size=px,
                pos=goos.Constant([1.0, 2.0, 3.0]),
                material=goos.material.Material(index=1),
                material2=goos.material.Material(index=2))
            x = var.get().array
            flow = shp.get()
            ref, shape, lo, hi = compat.create_old_param(par, ext, px)
            if tuple(shape) != x.shape or tuple(compat.get_param_shape(
                    par, ext, px)) != x.shape:
                raise Failure("variable shape", repr(shape))
            ref.from_vector(x.flatten(order="F"))
            want = np.reshape(ref.get_structure(), (nx, ny, 1), order="F")
            if np.shape(flow.array) != (nx, ny, 1) or \
                    np.max(np.abs(flow.array - want)) > 1e-9:
                raise Failure("structure", "differs from the parametrization")
            g = rng.normal(size=(nx, ny, 1))
            gv = goos.PixelatedContShapeFlow.Grad()
            gv.array_grad, gv.pos_grad = g, np.zeros(3)
            gr = shp.grad([goos.NumericFlow(x), goos.NumericFlow(
                np.array([1.0, 2.0, 3.0]))], gv)[0].array_grad
            if gr.shape != x.shape:
                raise Failure("gradient shape", repr(gr.shape))
            v = rng.normal(size=x.shape)

            def val(y):
                return np.sum(g * shp.eval(
                    [goos.NumericFlow(y), goos.NumericFlow(
                        np.array([1.0, 2.0, 3.0]))]).array)
            h = 1e-5
            fd = (val(x + h * v) - val(x - h * v)) / (2 * h)
            fd2 = (val(x + h / 2 * v) - val(x - h / 2 * v)) / h
            if abs(fd - fd2) < 1e-4 * (1 + abs(fd)):
                if abs(fd - np.sum(gr * v)) > 1e-3 * (1 + abs(fd)):
                    raise Failure("gradient", "%r, finite difference %r" %
                                  (np.sum(gr * v), fd))
            ev += 1
    return dict(evaluations=ev, distinct=ev)


def b_real(tier, seed):
    """The real scipy solves problems with several constraints."""
    ev = 0
    for method in ("SLSQP", "COBYLA"):
        with goos.OptimizationPlan() as plan:
            x = goos.Variable([0.2, 0.3], name="x")
            y = goos.Variable([[0.4, 0.1]], name="y")
            obj = goos.Norm(x - goos.Constant([2.0, 2.0]))**2 + goos.Norm(
                y - goos.Constant([[3.0, 3.0]]))**2
            e0 = goos.Constant([1.0, 0.0])
            e1 = goos.Constant([0.0, 1.0])
            goos.opt.scipy_minimize(
                obj, method=method,
                constraints_ineq=[goos.dot(e0, x) - 0.5,
                                  goos.dot(e1, x) - 0.25,
                                  goos.dot(goos.Constant([[1.0, 0.0]]), y) -
                                  1.5])
            plan.run()
            a, b = x.get().array, y.get().array
        if np.max(np.abs(a - [.5, .25])) > 1e-2 or \
                np.max(np.abs(b - [[1.5, 3.0]])) > 1e-2:
            raise Failure("goos " + method, repr((a, b)))
        ev += 1
    from spins.invdes.parametrization import DirectParam
    v = problem.Variable(3)
    p = DirectParam(np.array([.2, .3, .4]), bounds=(0, 10))
    opt = problem.OptimizationProblem(
        (v[0] + -2)**2 + (v[1] + -2)**2 + (v[2] + -2)**2,
        cons_eq=[v[0] + -1.0 * v[1], v[2] + -3],
        cons_ineq=[v[0] + -.75])
    r = so.ScipyOptimizer(method="SLSQP")(opt, p).encode()
    if np.max(np.abs(r - [.75, .75, 3])) > 1e-3:
        raise Failure("invdes SLSQP", repr(r))
    return dict(evaluations=ev + 1, distinct=ev + 1)


ITEMS = [
    Contract("goos adapter", c_goos, [GO + "run"], sym="obj", num=(60, 600),
             max_instances=600, budget=300),
    Contract("goos resume", c_goos_resume, [GO + "resume", GO + "run"],
             sym="obj", num=(20, 60)),
    Contract("goos maximize", c_goos_maximize,
             ["spins/goos/optimize.py:scipy_maximize"], sym="obj",
             num=(10, 60)),
    Contract("invdes adapter", c_invdes, [SO + "__call__", SO + "__init__"],
             sym="obj", num=(60, 600), max_instances=400, budget=200),
    Contract("transformation", c_transformation,
             [CO + "__call__", CO + "_iterate"], sym="obj", num=(60, 300),
             max_instances=400),
    Bounded("old parametrization", b_compat,
            ["spins/goos/compat.py:OldStyleParametrization",
             "spins/goos/compat.py:create_old_param"],
            "random designs of up to 10 by 8 pixels"),
    Bounded("solved problems", b_real, [GO + "run", SO + "__call__"],
            "three problems with known solutions"),
]
