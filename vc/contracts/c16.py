"""C16: gradient optimizers and the slack/penalty/Lagrangian reformulations.

Update rules: the objective is an arbitrary oracle (every gradient and value
it returns is a fresh unknown) and the parametrization has an arbitrary affine
projection, so the postcondition "the vector after k iterations is the one of
the published recurrence" is decided for every objective, start and rate.
"""
import contextlib

import numpy as np
import scipy.optimize

from vc.run import Contract, Bounded
from vc.harness import Failure

from spins.invdes.optimization import gradient_descent as gd
from spins.invdes.optimization import constrained_optimizer as co
from spins.invdes.optimization import scipy_optimizer as so
from spins.invdes.parametrization import Parametrization, DirectParam
from spins.invdes import problem
from spins.invdes.problem import slack_optimization_problem as sl
from spins.invdes.problem.objective import OptimizationFunction

LEVEL = "proof"
TECHNIQUE = ("contracts on the real optimizers executed with an arbitrary "
             "objective oracle, arbitrary projection and symbolic rates; "
             "accept/reject branches forked; normal form and z3")
ASSUMPTIONS = [
    "runs of up to 3 iterations (12 in the numeric evaluations) of vectors "
    "with 2 entries; every update is entrywise",
    "at most two rejected trials in a row in the adaptive contract",
    "scipy.optimize.minimize is replaced by a stub that records the problem "
    "it is handed and returns an arbitrary point",
    "up to 2 equality and 3 inequality constraints",
]
F = "spins/invdes/optimization/gradient_descent.py:"
K = "spins/invdes/optimization/constrained_optimizer.py:"
L = "spins/invdes/problem/slack_optimization_problem.py:"


def arr(B, xs):
    xs = list(xs)
    if B.symbolic:
        from vc.arrays import oarr
        return oarr(np.array(xs, dtype=object))
    return np.array(xs, dtype=float)


class P(Parametrization):
    """Vector with the projection v -> c v + d."""

    def __init__(self, v, c=1, d=0, bounds=None):
        self.v, self.c, self.d, self.bounds = v, c, d, bounds
        self.projections = 0

    def get_structure(self):
        return self.v

    def calculate_gradient(self):
        raise NotImplementedError

    def project(self):
        self.projections += 1
        self.v = self.c * self.v + self.d

    def encode(self):
        return self.v

    def decode(self, v):
        self.v = v

    def get_bounds(self):
        return self.bounds


class Oracle(OptimizationFunction):
    """Arbitrary values and gradients, recorded with the points asked for."""

    def __init__(self, grads=(), vals=()):
        super().__init__([])
        self.grads, self.vals = list(grads), list(vals)
        self.at, self.vat = [], []

    def calculate_gradient(self, param):
        self.at.append(+param.v)
        return self.grads[len(self.at) - 1]

    def calculate_objective_function(self, param):
        self.vat.append(+param.v)
        return self.vals[len(self.vat) - 1]

    def eval(self, input_vals):
        raise NotImplementedError

    def grad(self, input_vals, grad_val):
        raise NotImplementedError


N = 2


def rates(B):
    return (B.real("alpha", pos=True), B.real("beta1", lo=.05, hi=.95),
            B.real("beta2", lo=.05, hi=.95))


def run_rule(B, name, k):
    """k iterations of a rule; returns (param, oracle, expectation)."""
    al, b1, b2 = rates(B)
    g = [B.real("g%d" % i, (N, )) for i in range(k)]
    keep = [+x for x in g]
    x = B.real("x", (N, ))
    c, d = B.real("pc"), B.real("pd")
    x0 = +x
    p = P(x, c, d)
    f = Oracle(g)
    at = []

    def proj(v):
        return c * v + d
    x = +x0
    if name == "descent":
        o = gd.GradientDescent(f, p, al)
        for i in range(k):
            at.append(x)
            x = proj(x - al * keep[i])
    elif name == "normalized":
        for i in range(k):
            B.assume((keep[i] * keep[i]).sum() > 0)
        o = gd.GradientDescent(f, p, al, normalize_gradient=True)
        for i in range(k):
            at.append(x)
            n = np.sqrt((keep[i] * keep[i]).sum()) if not B.symbolic else \
                _sqrt((keep[i] * keep[i]).sum())
            x = proj(x - al * (keep[i] / n))
    elif name == "adagrad":
        o = gd.Adagrad(f, p, al)
        h = 0
        for i in range(k):
            at.append(x)
            h = h + keep[i] * keep[i]
            x = proj(x - al * keep[i] / np.sqrt(h + 1e-6))
    elif name == "rmsprop":
        o = gd.RmsProp(f, p, al, gamma=b1)
        h = 0
        for i in range(k):
            at.append(x)
            h = b1 * h + (1 - b1) * (keep[i] * keep[i])
            x = proj(x - al * keep[i] / np.sqrt(h + 1e-6))
    elif name == "adam":
        o = gd.Adam(f, p, al, beta1=b1, beta2=b2)
        m = v = 0
        for i in range(k):
            at.append(x)
            m = b1 * m + (1 - b1) * keep[i]
            v = b2 * v + (1 - b2) * (keep[i] * keep[i])
            mh = m / (1 - b1**(i + 1))
            vh = v / (1 - b2**(i + 1))
            x = proj(x - al * mh / (np.sqrt(vh) + 1e-8))
    else:
        o = gd.Nag(f, p, al, gamma=b1)
        m = 0
        for i in range(k):
            at.append(proj(x - b1 * m))
            m = b1 * m + al * keep[i]
            x = proj(x - m)
    return o, p, f, x, at, keep, g


def _sqrt(x):
    from vc.facade import FUNCS
    return np.sqrt(x) if not hasattr(x, "t") else FUNCS["sqrt"](x) \
        if "sqrt" in FUNCS else x**0.5


def c_rule(name):
    def c(B):
        k = B.choose("iterations", [1, 2, 3] if B.symbolic else
                     [1, 2, 3, 7, 12])
        split = B.choose("in two calls", [False, True])
        o, p, f, want, at, keep, g = run_rule(B, name, k)
        calls = []

        def cb(q):
            calls.append(q)
        if split and k > 1:
            o.optimize(iters=1, callback=cb)
            o.optimize(iters=k - 1, callback=cb)
        else:
            o.optimize(iters=k, callback=cb)
        if len(f.at) != k or len(calls) != k or o.iter != k:
            raise Failure("iterations", "%d gradients, %d callbacks, iter %r, "
                          "requested %d" % (len(f.at), len(calls), o.iter, k))
        if any(q is not p for q in calls):
            raise Failure("callback", "other parametrization")
        for i in range(k):
            B.eq(f.at[i], at[i], "gradient %d is taken at" % i)
        B.eq(p.v, want, "vector after %d iterations" % k)
        for i in range(k):
            B.eq(g[i], keep[i], "the objective's array is not changed")
    return c


def c_adaptive(B):
    """Accepts only steps that do not increase the objective."""
    al = B.real("alpha", pos=True)
    up, dn = B.real("up", pos=True), B.real("down", pos=True)
    g = [B.real("g%d" % i, (N, )) for i in range(2)]
    vals = [B.real("v%d" % i) for i in range(8)]
    x0 = B.real("x", (N, ))
    c, d = B.real("pc"), B.real("pd")
    p = P(+x0, c, d)
    f = Oracle(g, vals)
    tol = 1e-8
    for q in g:
        B.assume((q * q).sum() > 1)
    o = gd.AdaptiveGradientDescent(f, p, al, success_factor=up,
                                   failure_factor=dn, stop_tolerance=tol)
    x, cur, ptr, a = +x0, vals[0], 1, al
    k = B.choose("iterations", [1, 2])
    # bound the number of rejected trials
    acc = []
    for i in range(k):
        for t in range(3):
            if t == 2:
                B.assume(vals[ptr] <= cur)
            ok = bool(vals[ptr] <= cur)
            ptr += 1
            if ok:
                cur = vals[ptr - 1]
                acc.append(t)
                break
    B.eq(f.vat[0], x0, "starting value")
    o.optimize(iters=k)
    if len(f.vat) != ptr or len(f.at) != k:
        raise Failure("evaluations", "%d values, %d gradients; expected %d "
                      "and %d" % (len(f.vat), len(f.at), ptr, k))
    n = 1
    for i in range(k):
        B.eq(f.at[i], x, "gradient at the accepted point")
        for t in range(acc[i] + 1):
            trial = c * (x - a * g[i]) + d
            B.eq(f.vat[n], trial, "trial %d of iteration %d" % (t, i))
            n += 1
            if t == acc[i]:
                x, a = trial, a * up
            else:
                a = a * dn
    B.eq(p.v, x, "accepted vector")
    B.holds(cur <= vals[0], "objective did not increase")


def c_adaptive_stop(B):
    """A vanishing gradient stops the optimization at the current point."""
    x0 = B.real("x", (N, ))
    s = B.choose("gradient", [0.0, 0.5e-8])
    p = P(+x0)
    f = Oracle([arr(B, [s, 0.0])], [B.real("v0")])
    o = gd.AdaptiveGradientDescent(f, p, B.real("alpha", pos=True),
                                   stop_tolerance=1e-8)
    o.optimize(iters=5)
    B.eq(p.v, x0, "vector")
    if len(f.at) != 1 or len(f.vat) != 1:
        raise Failure("evaluations", "%d %d" % (len(f.at), len(f.vat)))


def b_count(tier, seed):
    """Number of iterations for every combination of the two limits."""
    class It(gd.GradientOptimizer):
        def __init__(self, stop):
            super().__init__()
            self.n, self.stop = 0, stop
            self.param = object()

        def iterate(self):
            self.n += 1
            if self.n > 50:
                raise Failure("iterations", "does not stop")
            return self.stop is not None and self.n >= self.stop
    ev = 0
    for stop in (None, 1, 3):
        for mx in (None, 0, 1, 2, 5):
            for seq in ((None, ), (0, ), (1, ), (4, ), (2, 2), (1, 0, 3),
                        (3, None), (7, 1)):
                if stop is None and mx is None and None in seq:
                    continue
                o = It(stop)
                o.max_iters = mx
                done = 0
                for it in seq:
                    lim = [v for v in (None if it is None else done + it, mx)
                           if v is not None]
                    want = 0
                    while not lim or done + want < min(lim):
                        want += 1
                        if stop is not None and done + want >= stop:
                            break
                    cb = []
                    o.optimize(iters=it, callback=cb.append)
                    if o.n - done != want or o.iter != o.n or \
                            len(cb) != want or any(q is not o.param
                                                   for q in cb):
                        raise Failure("iterations", "stop=%r max=%r iters=%r "
                                      "after %d: ran %d, expected %d" %
                                      (stop, mx, it, done, o.n - done, want))
                    done = o.n
                    ev += 1
    return dict(evaluations=ev, distinct=ev, exhaustive=True)


# reformulations --------------------------------------------------------------


class Quad(OptimizationFunction):
    """q . x^2 + b . x + c of a plain vector."""

    def __init__(self, B, tag):
        super().__init__([])
        self.q, self.b = B.real(tag + "q", (N, )), B.real(tag + "b", (N, ))
        self.c = B.real(tag + "c")

    def val(self, x):
        return (self.q * x * x).sum() + (self.b * x).sum() + self.c

    def der(self, x):
        return 2 * self.q * x + self.b

    def calculate_objective_function(self, param):
        return self.val(param.v)

    def calculate_gradient(self, param):
        return self.der(param.v)

    def eval(self, input_vals):
        raise NotImplementedError

    def grad(self, input_vals, grad_val):
        raise NotImplementedError


COUNTS = [(0, 0), (1, 0), (0, 1), (2, 1), (1, 2), (0, 3)]


def setup(B, counts=COUNTS, bounds=None):
    ne, ni = B.choose("constraints", counts)
    f = Quad(B, "f")
    eq = [Quad(B, "e%d" % i) for i in range(ne)]
    iq = [Quad(B, "i%d" % i) for i in range(ni)]
    opt = problem.OptimizationProblem(f, cons_eq=eq, cons_ineq=iq)
    x = B.real("x", (N, ))
    s = B.real("s", (ni, )) if ni else np.zeros(0)
    return ne, ni, f, eq, iq, opt, x, s


def cat(B, *vs):
    return arr(B, [t for v in vs for t in list(v)])


def c_slack(B):
    """Objective, constraints and gradients of the slack problem."""
    ne, ni, f, eq, iq, opt, x, s = setup(B)
    sp = sl.SlackOptimizationProblem(opt)
    p = P(+x)
    q = sp.build_param(p)
    B.eq(q.to_vector(), cat(B, x, [0.0] * ni), "slack starts at zero")
    q.from_vector(cat(B, x, s))
    B.eq(q.to_vector(), cat(B, x, s), "vector round trip")
    B.eq(p.v, x, "wrapped vector")
    if q.get_param() is not p:
        raise Failure("wrapped parametrization", repr(q.get_param()))
    if len(sp.get_inequality_constraints()) != 0 or \
            len(sp.get_equality_constraints()) != ne + ni:
        raise Failure("constraints", "%d %d" %
                      (len(sp.get_equality_constraints()),
                       len(sp.get_inequality_constraints())))
    B.eq(sp.calculate_objective_function(q), f.val(x), "objective")
    B.eq(sp.calculate_gradient(q), cat(B, f.der(x), [0.0] * ni), "gradient")
    ce, ci = sp.calculate_constraints(q)
    ge, gi = sp.calculate_constraint_gradients(q)
    if len(ce) != ne + ni or len(ci) or len(ge) != ne + ni or len(gi):
        raise Failure("constraints", "%r %r" % (ce, ci))
    for i in range(ne):
        B.eq(ce[i], eq[i].val(x), "equality %d" % i)
        B.eq(ge[i], cat(B, eq[i].der(x), [0.0] * ni), "its gradient")
    for i in range(ni):
        B.eq(ce[ne + i], iq[i].val(x) + s[i], "slacked inequality %d" % i)
        B.eq(ge[ne + i], cat(B, iq[i].der(x), [float(i == j)
                                               for j in range(ni)]),
             "its gradient")


def c_slack_param(B):
    """Bounds, storing and restoring of the wrapped parametrization."""
    ni = B.choose("slack variables", [0, 1, 3])
    kind = B.choose("bounds", ["none", "tuple", "list", "array"])
    lo, hi = [0.0, None], [1.0, 5.0]
    if kind == "array":
        lo = [0.0, -2.0]
    mk = {"tuple": tuple, "list": list, "array": np.array}
    b = None if kind == "none" else (mk[kind](lo), mk[kind](hi))
    x = B.real("x", (N, ))
    p = P(+x, bounds=b)
    q = sl.SlackParam(p, ni)
    got = q.get_bounds()
    if kind == "none":
        lo, hi = [None] * N, [None] * N
    if list(got[0]) != lo + [0] * ni or list(got[1]) != hi + [None] * ni:
        raise Failure("bounds", "%r for %r" % (got, b))
    s = B.real("s", (3, ))[:ni]
    v = cat(B, x, s)
    q.decode(v)
    B.eq(q.encode(), v, "encode")
    for i in range(ni):
        B.eq(q.get_slack_variable(i), s[i], "slack %d" % i)
    B.eq(q.get_structure(), x, "structure")
    n = p.projections
    q.project()
    if p.projections != n + 1:
        raise Failure("projection", "of the wrapped parametrization")
    if not B.symbolic:
        d = q.serialize()
        r = sl.SlackParam(P(x * 0 + 7), 0)
        r.deserialize(d)
        B.eq(r.encode(), v, "restored vector")
        if r.num_slack != ni:
            raise Failure("restored slack count", repr(r.num_slack))


@contextlib.contextmanager
def minimize_stub(fn):
    keep = scipy.optimize.minimize
    mods = [m for m in (so, co) if hasattr(m, "minimize")]
    old = [m.minimize for m in mods]
    scipy.optimize.minimize = fn
    for m in mods:
        m.minimize = fn
    try:
        yield
    finally:
        scipy.optimize.minimize = keep
        for m, v in zip(mods, old):
            m.minimize = v


class Result(dict):
    __getattr__ = dict.get


def scal(x):
    return x if np.ndim(x) == 0 else x.ravel()[0]


def c_penalty(own):
    def c(B):
        """Every cycle minimizes f + mu sum eq^2, mu -> mu^tau."""
        ne, ni, f, eq, iq, opt, x, s = setup(
            B, [(0, 0), (1, 0), (0, 1), (1, 2)])
        cyc = 2
        pts = [B.real("y%d" % i, (N + ni, )) for i in range(cyc)]
        mu0, tau = 3.0, 1.5
        seen = []

        def check(obj, jac, x0):
            k = len(seen)
            mu = mu0 if k == 0 else mu0**tau
            start = cat(B, x, [0.0] * ni) if k == 0 else pts[k - 1]
            B.eq(x0, start, "starting point of cycle %d" % k)
            z = B.real("z", (N + ni, ))
            zx, zs = z[:N], z[N:]
            cons = [e.val(zx) for e in eq] + [
                e.val(zx) + zs[i] for i, e in enumerate(iq)]
            want = f.val(zx)
            for t in cons:
                want = want + mu * t * t
            B.eq(scal(obj(z)), want, "objective of cycle %d" % k)
            gw = cat(B, f.der(zx), [0.0] * ni)
            ders = [cat(B, e.der(zx), [0.0] * ni) for e in eq] + [
                cat(B, e.der(zx), [float(i == j) for j in range(ni)])
                for i, e in enumerate(iq)]
            for t, g in zip(cons, ders):
                gw = gw + 2 * mu * t * g
            B.eq(jac(z), gw, "gradient of cycle %d" % k)
            seen.append(k)
            return pts[k]

        def mini(fun, x0, jac=None, bounds=None, **k):
            b = [tuple(t) for t in bounds]
            if b != [(0.5, None)] * N + [(0, None)] * ni:
                raise Failure("bounds", repr(bounds))
            return Result(x=check(fun, jac, x0))

        class Own:
            def __call__(self, prob, param, callback=None):
                def obj(v):
                    param.decode(v)
                    return prob.calculate_objective_function(param)

                def jac(v):
                    param.decode(v)
                    return prob.calculate_gradient(param)
                r = check(obj, jac, param.encode())
                param.decode(r)
                return param

            def get_results(self):
                return None
        p = P(+x, bounds=([0.5] * N, [None] * N))
        o = co.PenaltyOptimizer(optimizer=Own() if own else None,
                                options=dict(mu0=mu0, tau=tau,
                                             num_cycles=cyc))
        done = []
        with minimize_stub(mini):
            r = o(opt, p, cycle_callback=done.append)
        if r is not p or len(seen) != cyc or len(done) != cyc:
            raise Failure("cycles", "%d cycles, result %r" % (len(seen), r))
        B.eq(p.v, pts[-1][:N], "result")
    return c


def c_lagrangian(B):
    """Objective of both cycles and the multiplier or penalty update."""
    ne, ni, f, eq, iq, opt, x, s = setup(B, [(1, 0), (0, 1), (1, 1), (2, 0)])
    B.fork()
    m = ne + ni
    pts = [B.real("y%d" % i, (N + ni, )) for i in range(2)]
    mu0 = 10
    seen = []
    lam = [1.0] * m
    state = dict(mu=mu0, lam=lam)

    def cons(z):
        return [e.val(z[:N]) for e in eq] + [
            e.val(z[:N]) + z[N + i] for i, e in enumerate(iq)]

    def mini(fun, x0, jac=None, bounds=None, **k):
        n = len(seen)
        mu, lm = state["mu"], state["lam"]
        B.eq(x0, cat(B, x, [0.0] * ni) if n == 0 else pts[n - 1],
             "starting point of cycle %d" % n)
        z = B.real("z", (N + ni, ))
        want = f.val(z[:N])
        for l, t in zip(lm, cons(z)):
            want = want - l * t + mu / 2 * t * t
        B.eq(scal(fun(z)), want, "Lagrangian of cycle %d" % n)
        gw = cat(B, f.der(z[:N]), [0.0] * ni)
        ders = [cat(B, e.der(z[:N]), [0.0] * ni) for e in eq] + [
            cat(B, e.der(z[:N]), [float(i == j) for j in range(ni)])
            for i, e in enumerate(iq)]
        for l, t, g in zip(lm, cons(z), ders):
            gw = gw - l * g + mu * t * g
        B.eq(jac(z), gw, "its gradient")
        # the multipliers of the next cycle
        c1 = cons(pts[n])
        err = sum(abs(t) for t in c1)
        if bool(err < 1 / mu0**0.1) and n == 0:
            state["lam"] = [l - mu * t for l, t in zip(lm, c1)]
        elif n == 0:
            state["mu"] = mu * 100
        seen.append(n)
        return Result(x=pts[n])
    p = P(+x)
    o = co.AugmentedLagrangianOptimizer(options=dict(mu0=mu0, num_cycles=2))
    with minimize_stub(mini):
        r = o(opt, p)
    if r is not p or len(seen) != 2:
        raise Failure("cycles", "%d cycles, result %r" % (len(seen), r))
    B.eq(p.v, pts[-1][:N], "result")


def b_converged(tier, seed):
    """Solves small problems with known solutions."""
    ev = 0
    x = problem.Variable(2)
    cases = [(x[0]**2 + x[1]**2, [x[0] + x[1] + -1], [], (.5, .5)),
             (x[0]**2 + x[1]**2, [x[0] + x[1] + -1], [-1 * x[0] + .7],
              (.7, .3)),
             ((x[0] + -.9)**2 + (x[1] + -.8)**2, [], [x[0] + -.4, x[1] + -.3],
              (.4, .3))]
    for f, eq, iq, want in cases:
        opt = problem.OptimizationProblem(f, cons_eq=eq, cons_ineq=iq)
        for o, tol in ((co.AugmentedLagrangianOptimizer(
                dict(num_cycles=8)), 1e-3),
                (co.PenaltyOptimizer(options=dict(num_cycles=6)), 2e-2)):
            p = DirectParam(np.array([.2, .6]))
            r = o(opt, p)
            if np.max(np.abs(r.encode() - want)) > tol:
                raise Failure("solution", "%r, expected %r" %
                              (r.encode(), want))
            ev += 1
    return dict(evaluations=ev, distinct=ev)


ITEMS = [Contract("rule/" + n, c_rule(n), [F + c + ".iterate",
                                           F + "GradientOptimizer.optimize"],
                  sym="obj", num=(40, 400), budget=120)
         for n, c in (("descent", "GradientDescent"),
                      ("normalized", "GradientDescent"),
                      ("adagrad", "Adagrad"), ("rmsprop", "RmsProp"),
                      ("adam", "Adam"), ("nag", "Nag"))] + [
    Contract("adaptive", c_adaptive, [F + "AdaptiveGradientDescent.iterate"],
             sym="obj", num=(60, 600), budget=120),
    Contract("adaptive stop", c_adaptive_stop,
             [F + "AdaptiveGradientDescent.iterate"], sym="obj",
             num=(20, 100)),
    Bounded("iteration count", b_count, [F + "GradientOptimizer.optimize"],
            "iteration limits up to 7, up to 3 calls"),
    Contract("slack problem", c_slack,
             [L + "SlackOptimizationProblem", L + "SlackRemover",
              L + "SlackVariable", L + "SlackParam"], sym="obj",
             num=(40, 400), budget=120),
    Contract("slack parametrization", c_slack_param, [L + "SlackParam"],
             sym="obj", num=(30, 200)),
    Contract("penalty", c_penalty(False), [K + "PenaltyOptimizer"],
             sym="obj", num=(30, 300), budget=120),
    Contract("penalty/given optimizer", c_penalty(True),
             [K + "PenaltyOptimizer"], sym="obj", num=(30, 300), budget=120),
    Contract("augmented Lagrangian", c_lagrangian,
             [K + "AugmentedLagrangianOptimizer"], sym="obj", num=(60, 300),
             budget=200),
    Bounded("constrained problems", b_converged,
            [K + "PenaltyOptimizer", K + "AugmentedLagrangianOptimizer"],
            "three problems with known solutions"),
]
