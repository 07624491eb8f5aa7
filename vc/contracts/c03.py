"""C03: invdes objective nodes - gradient is the derivative of the value.

For every node class: postcondition of `eval` (the documented formula) and of
`grad` (adjoint identity  sum_j g_j D(eval_j)[v] == sum_i grad_i v_i  for all
inputs x, directions v and incoming gradients g).
"""
import numpy as np

from vc.run import Contract, Bounded
from vc.harness import Failure, close, NumB

from spins.invdes.problem import objective as O
from spins.invdes.problem import structure_objectives as SO
from spins.invdes.problem_graph import creator_em as CE
from spins.invdes.problem_graph import creator_function as CF  # noqa: F401
from spins.invdes.parametrization import parametrization as P

LEVEL = "proof"
FILE = "spins/invdes/problem/objective.py:"
RULE = ("contracts evaluated on random reals/complex numbers, small integers "
        "and counter-models; one evaluation = one postcondition checked")
ASSUMPTIONS = [
    "operands of Sum/Product have one common shape (no implicit broadcasting "
    "between non-constant operands)",
    "number of operands bounded (arity 1..4) in the Sum, Product, LogSumExp "
    "and SoftmaxAverage contracts; sizes unbounded where the evidence says "
    "'all sizes'",
]


def var(n=1):
    return O.Variable(n)


def ins(B, k, shape, cplx=False, **kw):
    mk = B.cplx if cplx else B.real
    names = ["x%d" % i for i in range(k)]
    return names, [mk(n, shape, **kw) for n in names]


def shape_of(B, nds=(0, 1, 2)):
    nd = B.choose("ndim", list(nds))
    return tuple(B.dim("n%d" % i) for i in range(nd))


def abs2(z):
    return (z * np.conj(z)).real if not hasattr(z, "t") else (
        z * z.conjugate()).real


# real part pairing: for a real-valued function of a complex input the
# repository's convention is  df = Re(grad . dz)
def repair(g, d):
    return (g * d).real


def c_sum(B):
    k = B.choose("arity", [1, 2, 3, 4])
    cp = B.choose("cplx", [False, True])
    shp = shape_of(B)
    names, xs = ins(B, k, shp, cp)
    f = O.Sum([var() for _ in range(k)])
    want = xs[0]
    for x in xs[1:]:
        want = want + x
    B.eq(f.eval(list(xs)), want, "value")
    B.vjp("grad", lambda v: [f.eval(v)], names, xs,
          lambda v, g: f.grad(v, g[0]), gcplx=cp)


def c_wsum(B):
    """Sum with weights: inputs are Product(const, obj)."""
    k = B.choose("arity", [1, 2, 3])
    w = [B.real("w%d" % i) for i in range(k)]
    names, xs = ins(B, k, ())
    vs = [var() for _ in range(k)]
    f = O.Sum(vs, weights=w)
    vals = []
    for node in f._inputs:
        a = node._inputs
        vals.append(node.eval([xs[[i for i, v in enumerate(vs) if v is q][0]]
                               if any(q is v for v in vs) else q.eval([])
                               for q in a]))
    want = w[0] * xs[0]
    for i in range(1, k):
        want = want + w[i] * xs[i]
    B.eq(f.eval(vals), want, "weighted value")


def c_product(B):
    k = B.choose("arity", [1, 2, 3, 4])
    cp = B.choose("cplx", [False, True])
    shp = shape_of(B)
    names, xs = ins(B, k, shp, cp)
    f = O.Product([var() for _ in range(k)])
    want = xs[0]
    for x in xs[1:]:
        want = want * x
    B.eq(f.eval(list(xs)), want, "value")
    B.vjp("grad", lambda v: [f.eval(v)], names, xs,
          lambda v, g: f.grad(v, g[0]), gcplx=cp)


def c_power_int(B):
    p = B.choose("power", [1, 2, 3, 4, 5])
    cp = B.choose("cplx", [False, True])
    shp = shape_of(B)
    names, xs = ins(B, 1, shp, cp)
    f = O.Power(var(), p)
    want = xs[0]
    for _ in range(p - 1):
        want = want * xs[0]
    B.eq(f.eval(xs), want, "value")
    B.vjp("grad", lambda v: [f.eval(v)], names, xs,
          lambda v, g: f.grad(v, g[0]), gcplx=cp)


def c_power_real(B):
    p = B.choose("power", [-3, -2, -1, -0.5, 0, 0.5, 1.5, 2.5, "p"])
    if p == "p":
        p = B.real("p")
    shp = shape_of(B)
    names, xs = ins(B, 1, shp, pos=True)
    f = O.Power(var(), p)
    B.eq(f.eval(xs), xs[0]**p, "value")
    B.vjp("grad", lambda v: [f.eval(v)], names, xs,
          lambda v, g: f.grad(v, g[0]))


def nonzero(B, x):
    if B.symbolic:
        return  # |x| != 0 is implied by the division 1/|x| being defined
    B.assume(np.abs(x) > 1e-3)


def c_abs(B):
    cp = B.choose("cplx", [False, True])
    shp = shape_of(B)
    names, xs = ins(B, 1, shp, cp)
    nonzero(B, xs[0])
    f = O.AbsoluteValue(var())
    v = f.eval(xs)
    B.eq(v * v, abs2(xs[0]), "value squared")
    B.holds(v >= 0, "value non-negative")
    B.vjp("grad", lambda v: [f.eval(v)], names, xs,
          lambda v, g: f.grad(v, g[0]), pair=lambda g, d: g * d,
          inpair=repair)


def away(B, x, a):
    """x stays away from the kink a."""
    if B.symbolic:
        from vc.harness import amap
        from vc.arrays import SymArr, OArr
        from vc.sym import cnot, cmp_, as_s
        d = x - a
        if isinstance(d, SymArr):
            return  # derivative of an indicator is taken as 0: a != x
        for t in (d.ravel() if isinstance(d, OArr) else [d]):
            B.assume(cnot(cmp_("==", as_s(t), as_s(0))))
    else:
        B.assume(np.abs(np.asarray(x) - a) > 1e-2)


def relu(B, t, p):
    """max(t,0)**p for integer p>=1."""
    if B.symbolic:
        from vc.harness import amap
        from vc.sym import smax, ZERO, ipow, cmp_, ite, as_s
        return amap(lambda u: ite(cmp_("<", ZERO, as_s(u)), ipow(as_s(u), p),
                                  ZERO), t)
    return np.where(np.asarray(t) > 0, np.abs(t)**p, 0.0)


def _pen(B, mk, spec, npar):
    p = B.choose("power", [1, 2, 3, 4])
    shp = shape_of(B, (0, 1))
    names, xs = ins(B, 1, shp)
    pars = [B.real("a%d" % i) for i in range(npar)]
    if npar == 2:
        B.assume(pars[0] <= pars[1])
    for a in pars:
        away(B, xs[0], a)
    f = mk(pars, p)
    B.eq(f.eval(xs), spec(B, xs[0], pars, p), "value")
    B.vjp("grad", lambda v: [f.eval(v)], names, xs,
          lambda v, g: f.grad(v, g[0]))


def c_indplus(B):
    _pen(B, lambda a, p: O.IndicatorPlus(var(), alpha=a[0], power=p),
         lambda B, x, a, p: relu(B, x - a[0], p), 1)


def c_indmin(B):
    _pen(B, lambda a, p: O.IndicatorMin(var(), beta=a[0], power=p),
         lambda B, x, a, p: relu(B, a[0] - x, p), 1)


def c_powercomp(B):
    _pen(B, lambda a, p: O.PowerComparison(var(), value_range=a, power=p),
         lambda B, x, a, p: relu(B, a[0] - x, p) + relu(B, x - a[1], p), 2)


def b_penalty_boundary(tier, seed):
    """At the threshold a power >= 2 penalty is differentiable with zero
    value and gradient; non-integer powers by finite differences."""
    n = 0
    for a in (-1.5, 0.0, 0.25, 2.0):
        for p in (2, 3, 1.5, 2.5):
            for f in (O.IndicatorPlus(var(), alpha=a, power=p),
                      O.IndicatorMin(var(), beta=a, power=p),
                      O.PowerComparison(var(), value_range=[a, a + 1],
                                        power=p),
                      O.PowerComparison(var(), value_range=[a - 1, a],
                                        power=p)):
                for x in (a, a + 1e-9, a - 1e-9, a + 0.7, a - 0.7, a + 3,
                          a - 3):
                    xs = [np.array([x, x])]
                    v = np.asarray(f.eval(xs), float)
                    g = np.asarray(f.grad(xs, np.array([1.0, -2.0]))[0])
                    h = 1e-6
                    num = (np.asarray(f.eval([xs[0] + h])) -
                           np.asarray(f.eval([xs[0] - h]))) / (2 * h)
                    tol = 3e-3 if p < 2 else 1e-4
                    if not np.all(np.isfinite(g)) or not close(
                            g, num * np.array([1., -2.]), tol):
                        raise Failure("penalty gradient",
                                      "%s power=%s a=%s x=%s: gradient %r, "
                                      "difference quotient %r" % (
                                          type(f).__name__, p, a, x, g, num))
                    inside = {"IndicatorPlus": x <= a, "IndicatorMin": x >= a}
                    if inside.get(type(f).__name__) and np.any(v != 0):
                        raise Failure("penalty value", "%s x=%s a=%s: %r" % (
                            type(f).__name__, x, a, v))
                    n += 1
    return dict(evaluations=n, distinct=n, exhaustive=True,
                samples=[dict(a=0.25, power=1.5)])


def c_logsumexp(B):
    k = B.choose("arity", [1, 2, 3])
    names, xs = ins(B, k, ())
    f = O.LogSumExp([var() for _ in range(k)])
    exp = (lambda t: t.exp()) if B.symbolic else np.exp
    s = exp(xs[0])
    for x in xs[1:]:
        s = s + exp(x)
    B.eq(exp(f.eval(list(xs))) if not B.symbolic else exp_of(f.eval(list(xs))),
         s, "exp of value")
    B.vjp("grad", lambda v: [f.eval(v)], names, xs,
          lambda v, g: list(f.grad(v, g[0])))


def exp_of(v):
    """exp(m + log(q)) = exp(m) q for the normal form of v."""
    from vc import sym
    out = sym.ONE
    for m, c in v.t.items():
        if len(m) == 1 and m[0][0].kind == "log" and m[0][1] == 1 and \
                c == (1, 0):
            out = out * m[0][0].args[0]
        else:
            out = out * sym.sexp(sym.S({m: c}))
    return out


def c_softmax(B):
    k = B.choose("arity", [1, 2, 3])
    names, xs = ins(B, k, ())
    f = O.SoftmaxAverage([var() for _ in range(k)])
    exp = (lambda t: t.exp()) if B.symbolic else np.exp
    den = exp(xs[0])
    num = xs[0] * exp(xs[0])
    for x in xs[1:]:
        den = den + exp(x)
        num = num + x * exp(x)
    arr = (lambda v: B_arr(B, v))
    B.eq(f.eval(arr(xs)) * den, num, "value")
    B.vjp("grad", lambda v: [f.eval(arr(v))], names, xs,
          lambda v, g: list(f.grad(arr(v), g[0])))


def B_arr(B, v):
    if B.symbolic:
        from vc.arrays import oarr
        return oarr(list(v))
    return np.array(v)


def c_slice(B):
    n = B.dim("n", 1, 4)
    if B.symbolic and B.symdims:
        from vc import sym
        sym.declare("i_idx", integer=True, nn=True)
        i = sym.var("i_idx")
        B.assume(i <= n - 1)
    else:
        i = B.choose("i", range(0, 4))
        if i >= n:
            B.assume(False)
    v = O.Variable(n)
    f = v[i]
    names, xs = ins(B, 1, (n, ))
    B.eq(f.eval(xs), xs[0][i], "value")
    B.vjp("grad", lambda u: [f.eval(u)], names, xs,
          lambda u, g: f.grad(u, g[0]))


def c_real(B):
    shp = shape_of(B)
    names, xs = ins(B, 1, shp, True)
    f = O.RealPart(var())
    B.eq(f.eval(xs), (xs[0] + xs[0].conj()) / 2 if not np.isscalar(xs[0])
         else xs[0].real, "value")
    B.vjp("grad", lambda v: [f.eval(v)], names, xs,
          lambda v, g: f.grad(v, g[0]), pair=lambda g, d: g * d,
          inpair=repair)


def c_const(B):
    shp = shape_of(B)
    val = B.real("c", shp)
    B.eq(O.Constant(val).eval([]), val, "constant value")
    B.eq(O.Parameter(val).eval([]), val, "parameter value")
    p = O.Parameter(val)
    new = B.real("d", shp)
    p.set_parameter_value(new)
    B.eq(p.eval([]), new, "updated parameter value")


def c_overlap(B):
    n = B.dim("n", 1, 4)
    names, xs = ins(B, 1, (n, ), True)
    c = B.cplx("c", (n, ))
    f = CE.OverlapFunction(var(), c)
    B.eq(f.eval(xs), (c * xs[0]).sum(), "value")
    B.vjp("grad", lambda v: [f.eval(v)], names, xs,
          lambda v, g: f.grad(v, g[0]), gcplx=True)


def c_diffeps(B):
    n = B.dim("n", 1, 4)
    names, xs = ins(B, 1, (n, ), True)
    r = B.cplx("r", (n, ))
    f = CE.DiffEpsilon(var(), lambda: r)
    B.eq(f.eval(xs), abs2(xs[0] - r).sum(), "value")
    B.vjp("grad", lambda v: [f.eval(v)], names, xs,
          lambda v, g: f.grad(v, g[0]), pair=lambda g, d: g * d,
          inpair=repair)


def b_nesting(tier, seed):
    """Random nestings evaluated through calculate_objective_function and
    calculate_gradient, compared with direct arithmetic (complex step free:
    central differences)."""
    rng = np.random.default_rng(seed)
    N = 150 if tier == "quick" else 3000
    ev = 0
    sample = []
    for case in range(N):
        n = int(rng.integers(1, 5))
        v = O.Variable(n)
        pool = [(v[int(i)], (lambda x, i=int(i): x[i]), "x[%d]" % i)
                for i in range(n)]
        for _ in range(int(rng.integers(1, 8))):
            op = int(rng.integers(0, 9))
            a = pool[int(rng.integers(len(pool)))]
            b = pool[int(rng.integers(len(pool)))]
            c = float(np.round(rng.normal(), 3))
            if op == 0:
                q = (a[0] + b[0], lambda x, a=a, b=b: a[1](x) + b[1](x),
                     "(%s+%s)" % (a[2], b[2]))
            elif op == 1:
                q = (a[0] * b[0], lambda x, a=a, b=b: a[1](x) * b[1](x),
                     "(%s*%s)" % (a[2], b[2]))
            elif op == 2:
                q = (a[0] - b[0], lambda x, a=a, b=b: a[1](x) - b[1](x),
                     "(%s-%s)" % (a[2], b[2]))
            elif op == 3:
                q = (c * a[0] + c, lambda x, a=a, c=c: c * a[1](x) + c,
                     "(%g*%s+%g)" % (c, a[2], c))
            elif op == 4:
                q = (a[0]**2, lambda x, a=a: a[1](x)**2, "(%s**2)" % a[2])
            elif op == 5:
                q = (O.IndicatorPlus(a[0], alpha=c, power=2),
                     lambda x, a=a, c=c: max(a[1](x) - c, 0)**2,
                     "I+(%s,%g)" % (a[2], c))
            elif op == 6:
                q = (O.IndicatorMin(a[0], beta=c, power=2),
                     lambda x, a=a, c=c: max(c - a[1](x), 0)**2,
                     "I-(%s,%g)" % (a[2], c))
            elif op == 7:
                q = (O.LogSumExp([a[0], b[0]]),
                     lambda x, a=a, b=b: np.logaddexp(a[1](x), b[1](x)),
                     "lse(%s,%s)" % (a[2], b[2]))
            else:
                q = (O.PowerComparison(a[0], [c, c + 1], power=2),
                     lambda x, a=a, c=c: max(c - a[1](x), 0)**2 +
                     max(a[1](x) - c - 1, 0)**2, "pc(%s)" % a[2])
            pool.append(q)
        f, g, txt = pool[-1]
        x = rng.normal(size=n) * 0.8
        param = P.DirectParam(x, bounds=None)
        val = f.calculate_objective_function(param)
        want = g(x)
        if not np.isfinite(want) or abs(want) > 1e4:
            continue
        if not close(np.asarray(val), np.asarray(want), 1e-9):
            raise Failure("nested value", "%s at %r: %r, expected %r" % (
                txt, x, val, want))
        gr = np.asarray(f.calculate_gradient(param))
        if gr.shape != (n, ):
            raise Failure("nested gradient shape", "%s: %r" % (txt, gr.shape))

        def fd(h):
            out = np.zeros(n)
            for i in range(n):
                e = np.zeros(n)
                e[i] = h
                out[i] = (g(x + e) - g(x - e)) / (2 * h)
            return out
        d1, d2 = fd(1e-5), fd(5e-6)
        if np.max(np.abs(d1 - d2)) > 1e-5 * (1 + np.max(np.abs(d1))):
            continue
        if not close(gr, d2, 1e-5):
            raise Failure("nested gradient", "%s at %r: %r, expected %r" % (
                txt, x, gr, d2))
        ev += 1
        if len(sample) < 3:
            sample.append(txt)
    return dict(evaluations=ev, distinct=ev, samples=sample)


def b_struct(tier, seed):
    """Fit2Eps: value |eps - (eps_bg + S z)|^2 and its derivative."""
    import scipy.sparse as sp
    rng = np.random.default_rng(seed)
    ev = 0
    for case in range(20 if tier == "quick" else 300):
        n, m = int(rng.integers(1, 5)), int(rng.integers(1, 6))
        S = sp.csr_matrix(rng.normal(size=(m, n)) * (rng.random((m, n)) < .7))
        bg = rng.normal(size=m) + 1j * rng.normal(size=m) * (case % 2)
        eps = rng.normal(size=m)
        f = SO.Fit2Eps(bg, S, eps)
        x = rng.normal(size=n)

        def val(x):
            return np.sum(np.abs(bg + S @ x - eps)**2)
        p = P.DirectParam(x, bounds=None)
        if not close(f.calculate_objective_function(p), val(x), 1e-9):
            raise Failure("Fit2Eps value", "case %d" % case)
        g = np.asarray(f.calculate_gradient(p)).reshape(-1)
        h = 1e-5
        num = np.array([(val(x + h * e) - val(x - h * e)) / (2 * h)
                        for e in np.eye(n)])
        if not close(g, num, 1e-5):
            raise Failure("Fit2Eps gradient", "case %d: %r, expected %r" % (
                case, g, num))
        ev += 1
    return dict(evaluations=ev, distinct=ev)


ITEMS = [
    Contract("C03.Sum", c_sum, [FILE + "Sum.eval", FILE + "Sum.grad"],
             bound="arity <= 4"),
    Contract("C03.Sum.weights", c_wsum, [FILE + "Sum.__init__"],
             bound="arity <= 3", sym="obj"),
    Contract("C03.Product", c_product,
             [FILE + "Product.eval", FILE + "Product.grad"],
             bound="arity <= 4"),
    Contract("C03.Power.int", c_power_int,
             [FILE + "Power.eval", FILE + "Power.grad"],
             bound="integer powers 1..5, any input"),
    Contract("C03.Power.real", c_power_real,
             [FILE + "Power.eval", FILE + "Power.grad"],
             bound="positive inputs; any real power"),
    Contract("C03.AbsoluteValue", c_abs,
             [FILE + "AbsoluteValue.eval", FILE + "AbsoluteValue.grad"]),
    Contract("C03.IndicatorPlus", c_indplus,
             [FILE + "IndicatorPlus.eval", FILE + "IndicatorPlus.grad"],
             bound="powers 1..4"),
    Contract("C03.IndicatorMin", c_indmin,
             [FILE + "IndicatorMin.eval", FILE + "IndicatorMin.grad"],
             bound="powers 1..4"),
    Contract("C03.PowerComparison", c_powercomp,
             [FILE + "PowerComparison.eval", FILE + "PowerComparison.grad"],
             bound="powers 1..4"),
    Contract("C03.LogSumExp", c_logsumexp,
             [FILE + "LogSumExp.eval", FILE + "LogSumExp.grad"], sym="obj",
             bound="arity <= 3"),
    Contract("C03.SoftmaxAverage", c_softmax,
             [FILE + "SoftmaxAverage.eval", FILE + "SoftmaxAverage.grad"],
             sym="obj", bound="arity <= 3"),
    Contract("C03.ValueSlice", c_slice,
             [FILE + "ValueSlice.eval", FILE + "ValueSlice.grad",
              FILE + "Variable.__getitem__"]),
    Contract("C03.RealPart", c_real,
             [FILE + "RealPart.eval", FILE + "RealPart.grad"]),
    Contract("C03.Constant", c_const,
             [FILE + "Constant.eval", FILE + "Parameter.eval"]),
    Contract("C03.OverlapFunction", c_overlap,
             ["spins/invdes/problem_graph/creator_em.py:OverlapFunction"]),
    Contract("C03.DiffEpsilon", c_diffeps,
             ["spins/invdes/problem_graph/creator_em.py:DiffEpsilon"]),
    Bounded("C03.penalty.threshold", b_penalty_boundary,
            [FILE + "IndicatorPlus", FILE + "IndicatorMin",
             FILE + "PowerComparison"],
            bound="thresholds 4, powers 2,3,1.5,2.5, inputs at/around the "
            "threshold"),
    Bounded("C03.nesting", b_nesting, [FILE + "OptimizationFunction"],
            bound="random expression DAGs up to 8 operations"),
    Bounded("C03.Fit2Eps", b_struct,
            ["spins/invdes/problem/structure_objectives.py:Fit2Eps"],
            bound="random sizes up to 5x6"),
]
