"""C04: goos numeric nodes - the gradient is the derivative of the value.

Postcondition of `eval`: the documented formula. Postcondition of `grad`: the
adjoint identity for all inputs, directions and incoming gradients. Complex
flows use the package's (Wirtinger) convention: for a real scalar L,
dL = 2 Re(grad . dz); for real inputs dL = grad . dx.
"""
import inspect

import numpy as np

from vc.run import Contract, Bounded
from vc.harness import Failure, close
from vc.contracts.util import (shape_of, arr_reduce, abs2, plan_numeric_grad)

from spins import goos
from spins.goos import flows

LEVEL = "proof"
FILE = "spins/goos/math.py:"
ASSUMPTIONS = [
    "derivatives are claimed where the formula is differentiable (abs/norm "
    "away from zero entries, max away from ties)",
    "a real input of a complex-valued node keeps the complex (Wirtinger) "
    "gradient; taking the real part is the job of the consumer (package "
    "convention, documented in the code)",
    "operand counts bounded by 4 in the sum/product/max contracts",
]


def nargs(f):
    return len(inspect.signature(f).parameters)


def ctx(n):
    f = goos.NodeFlags(const_flags=flows.NumericFlow.ConstFlags(False),
                       frozen_flags=flows.NumericFlow.ConstFlags(False))
    return goos.EvalContext([f] * n)


def ev(node, vals, raw=False):
    ins = [v if isinstance(v, flows.Flow) else flows.NumericFlow(v)
           for v in vals]
    r = node.eval(ins) if nargs(node.eval) == 1 else node.eval(
        ins, ctx(len(ins)))
    return r if raw else r.array


def gr(node, vals, g):
    ins = [v if isinstance(v, flows.Flow) else flows.NumericFlow(v)
           for v in vals]
    gf = flows.NumericFlow.Grad(g)
    r = node.grad(ins, gf) if nargs(node.grad) == 2 else node.grad(
        ins, gf, ctx(len(ins)))
    return [x.array_grad if x is not None else None for x in r]


def leaf(k=1):
    return [goos.Constant(0.0) for _ in range(k)]


def repair(g, d):
    return (g * d).real


def repair2(g, d):
    return 2 * (g * d).real


def ins(B, k, shape, cplx=False, **kw):
    mk = B.cplx if cplx else B.real
    names = ["x%d" % i for i in range(k)]
    return names, [mk(n, shape, **kw) for n in names]


def check(B, node, names, xs, want, cplx=False, realout=False):
    B.eq(ev(node, xs), want, "value")
    pair = repair if cplx and not realout else (lambda g, d: g * d)
    inpair = (repair2 if realout else repair) if cplx else pair
    B.vjp("grad", lambda v: [ev(node, v)], names, xs,
          lambda v, g: gr(node, v, g[0]), pair=pair, inpair=inpair,
          gcplx=cplx and not realout)


def c_sumprod(cls, op):
    def c(B):
        k = B.choose("arity", [1, 2, 3, 4])
        cp = B.choose("cplx", [False, True])
        shp = shape_of(B, (0, 1, 2, 3))
        names, xs = ins(B, k, shp, cp)
        with goos.OptimizationPlan():
            node = cls(leaf(k))
        check(B, node, names, xs, arr_reduce(op, xs), cp)
    return c


def c_bcast(cls, op):
    """One array operand, the others scalars of shape () or (1,)."""
    def c(B):
        k = B.choose("arity", [2, 3])
        pos = B.choose("array operand", list(range(k)))
        cp = B.choose("cplx", [False, True])
        sc = B.choose("scalar shape", [(), (1, )])
        nd = B.choose("ndim", [1, 2])
        shp = tuple(B.dim("n%d" % i, 1) for i in range(nd))
        mk = B.cplx if cp else B.real
        names = ["x%d" % i for i in range(k)]
        xs = [mk(n, shp if i == pos else sc) for i, n in enumerate(names)]
        with goos.OptimizationPlan():
            node = cls(leaf(k))
        check(B, node, names, xs, arr_reduce(op, xs), cp)
    return c


def c_power_int(B):
    p = B.choose("power", [1, 2, 3, 4, 5])
    cp = B.choose("cplx", [False, True])
    names, xs = ins(B, 1, shape_of(B), cp)
    want = xs[0]
    for _ in range(p - 1):
        want = want * xs[0]
    with goos.OptimizationPlan():
        node = goos.Power(leaf()[0], p)
    check(B, node, names, xs, want, cp)


def c_power_real(B):
    p = B.choose("power", [-3, -2, -1, -0.5, 0, 0.5, 1.5, 2.5, 0.37])
    names, xs = ins(B, 1, shape_of(B), pos=True)
    with goos.OptimizationPlan():
        node = goos.Power(leaf()[0], p)
    check(B, node, names, xs, xs[0]**p)


def nonzero(B, x):
    if not B.symbolic:
        B.assume(np.abs(x) > 1e-3)


def c_abs(B):
    cp = B.choose("cplx", [False, True])
    names, xs = ins(B, 1, shape_of(B), cp)
    nonzero(B, xs[0])
    with goos.OptimizationPlan():
        node = goos.AbsoluteValue(leaf()[0])
    v = ev(node, xs)
    B.eq(v * v, abs2(xs[0]), "value squared")
    B.holds(v >= 0, "value non-negative")
    B.vjp("grad", lambda v: [ev(node, v)], names, xs,
          lambda v, g: gr(node, v, g[0]), pair=lambda g, d: g * d,
          inpair=repair2 if cp else None)


def c_dot(B):
    cp = B.choose("cplx", [False, True])
    names, xs = ins(B, 2, shape_of(B), cp)
    with goos.OptimizationPlan():
        node = goos.DotProduct(*leaf(2))
    q = xs[0] * xs[1]
    check(B, node, names, xs, q.sum() if hasattr(q, "sum") else q, cp)


def c_norm(B):
    order = B.choose("order", [2, 1, 3, 4])
    cp = B.choose("cplx", [False, True])
    shp = B.choose("shape", [(1, ), (2, )]) \
        if B.symbolic else tuple(B.dim("n%d" % i, 1, 3)
                                 for i in range(B.choose("ndim", [1, 2])))
    names, xs = ins(B, 1, shp, cp)
    nonzero(B, xs[0])
    with goos.OptimizationPlan():
        node = goos.Norm(leaf()[0], order)
    v = ev(node, xs)
    if B.symbolic:
        from vc.sym import power, as_s, sabs, ipow
        from vc.arrays import omap
        a = omap(lambda x: ipow(sabs(as_s(x)), order), xs[0])
        B.eq(ipow(as_s(v), order), a.sum(), "value ** order")
    else:
        B.eq(v**order, np.sum(np.abs(xs[0])**order), "value ** order")
    B.holds(v >= 0, "value non-negative")
    B.vjp("grad", lambda v: [ev(node, v)], names, xs,
          lambda v, g: gr(node, v, g[0]), pair=lambda g, d: g * d,
          inpair=repair2 if cp else None)


def b_norm(tier, seed):
    rng = np.random.default_rng(seed)
    n = 0
    with goos.OptimizationPlan():
        nodes = {o: goos.Norm(leaf()[0], o) for o in (1, 2, 3, 4, 5)}
    for case in range(200 if tier == "quick" else 3000):
        order = int(rng.integers(1, 6))
        shp = tuple(rng.integers(1, 4, size=int(rng.integers(1, 4))))
        cp = bool(case % 2)
        x = rng.normal(size=shp) + (1j * rng.normal(size=shp) if cp else 0)
        if case % 7 == 3:
            x = np.round(x * 3) if not cp else x
        zero = case % 11 == 5
        if zero:
            x = x * 0
        node = nodes[order]
        v = ev(node, [x])
        if not close(v**order, np.sum(np.abs(x)**order), 1e-9):
            raise Failure("norm value", "order %d x %r: %r" % (order, x, v))
        g = np.asarray(gr(node, [x], np.array([1.7]))[0])
        if g.shape != x.shape:
            raise Failure("norm gradient shape", "%r for %r" % (g.shape,
                                                                x.shape))
        if zero:
            if not np.all(g == 0):
                raise Failure("norm gradient at zero", "%r" % g)
            n += 1
            continue
        if order == 1:
            x = np.where(np.abs(x) < 1e-2, 0.5, x)
            g = np.asarray(gr(node, [x], np.array([1.7]))[0])
        d = rng.normal(size=shp) + (1j * rng.normal(size=shp) if cp else 0)
        h = 1e-6

        def f(x):
            return np.sum(np.abs(x)**order)**(1 / order)
        num = 1.7 * (f(x + h * d) - f(x - h * d)) / (2 * h)
        got = np.sum((2 if cp else 1) * (g * d).real)
        if abs(num - got) > 1e-5 * (1 + abs(num)):
            raise Failure("norm gradient", "order %d x %r: %r, expected %r" %
                          (order, x, got, num))
        n += 1
    return dict(evaluations=n, distinct=n, samples=[dict(order=3)])


def c_max(B):
    k = B.choose("arity", [1, 2, 3])
    shp = B.choose("shape", [(1, ), (2, )] if k < 3 else [(1, )]) \
        if B.symbolic else tuple(B.dim("n%d" % i, 1, 3)
                                 for i in range(B.choose("ndim", [1, 2])))
    names, xs = ins(B, k, shp)
    for i in range(k):
        for j in range(i):
            if B.symbolic:
                from vc.sym import cnot, cmp_, as_s
                d = (xs[i] - xs[j]).ravel()
                for t in d:
                    B.assume(cnot(cmp_("==", as_s(t), as_s(0))))
            else:
                B.assume(np.abs(xs[i] - xs[j]) > 1e-3)
    with goos.OptimizationPlan():
        node = goos.Max(leaf(k))
    v = ev(node, xs)
    tot = None
    for x in xs:
        B.holds(v >= x, "value is an upper bound")
        tot = (v - x) if tot is None else tot * (v - x)
    B.eq(tot, 0 * tot, "value is one of the operands")
    B.vjp("grad", lambda v: [ev(node, v)], names, xs,
          lambda v, g: gr(node, v, g[0]))


def c_sigmoid(B):
    names, xs = ins(B, 1, shape_of(B))
    with goos.OptimizationPlan():
        node = goos.Sigmoid(leaf()[0])
    v = ev(node, xs)
    e = np.exp(-xs[0]) if not B.symbolic else _exp(-xs[0])
    B.eq(v * (1 + e), 1 + 0 * xs[0], "value")
    # the gradient belongs to the inputs it is given, whatever was evaluated
    # in between
    ev(node, [0 * xs[0] + 1])
    B.vjp("grad", lambda v: [ev(node, v)], names, xs,
          lambda v, g: (ev(node, [2 * v[0]]), gr(node, v, g[0]))[1])


def _exp(t):
    from vc.harness import amap
    from vc.sym import sexp, as_s
    return amap(lambda u: sexp(as_s(u)), t)


SL = [0, 1, [0, 1], [0, 2], [1, 2], [1, 3], "c", "center", None]


def c_slice(B):
    nd = B.choose("ndim", [1, 2])
    sls = [B.choose("slice%d" % i, SL) for i in range(nd)]
    shp = tuple(B.choose("n%d" % i, [2, 3, 4] if nd == 1 else [2, 3])
                for i in range(nd))
    cp = B.choose("cplx", [False, True]) if nd == 1 else False
    names, xs = ins(B, 1, shp, cp)
    with goos.OptimizationPlan():
        node = goos.Slice(leaf()[0], sls)
    ix = []
    for s, n in zip(sls, shp):
        if isinstance(s, int):
            ix.append(slice(s, s + 1))
        elif isinstance(s, list):
            ix.append(slice(s[0], s[1]))
        elif s is None:
            ix.append(slice(0, n))
        else:
            ix.append(slice(n // 2, n // 2 + 1))
    check(B, node, names, xs, xs[0][tuple(ix)], cp)


def c_conj(B):
    names, xs = ins(B, 1, shape_of(B), True)
    with goos.OptimizationPlan():
        node = goos.math.Conjugate(leaf()[0])
    want = (xs[0].conjugate() if B.symbolic else np.conj(xs[0]))
    check(B, node, names, xs, want, True)


def c_cast(B):
    cp = B.choose("cplx", [False, True])
    names, xs = ins(B, 1, shape_of(B), cp)
    with goos.OptimizationPlan():
        node = goos.cast(leaf()[0], goos.Function)
    check(B, node, names, xs, xs[0], cp)


def c_const(B):
    shp = shape_of(B, (0, 1, 2))
    val = B.real("c", shp)
    if B.symbolic:
        with goos.OptimizationPlan():
            node = goos.Constant(np.zeros(1))
        node._value = val
    else:
        with goos.OptimizationPlan():
            node = goos.Constant(val)
    B.eq(ev(node, []), val, "value")
    r = gr(node, [], B.real("g", shp))
    for x in r:
        B.eq(x, 0 * val, "gradient is zero")


def b_index(tier, seed):
    """IndexOp on array flows."""
    from spins.goos.array import IndexOp, ArrayFlow
    n = 0
    rng = np.random.default_rng(seed)
    for size in (1, 2, 3, 4):
        vals = [flows.NumericFlow(rng.normal(size=(i + 1, ))) for i in
                range(size)]
        for k in range(size):
            with goos.OptimizationPlan():
                node = IndexOp(leaf()[0], k)
            a = ArrayFlow(list(vals))
            r = ev(node, [a], raw=True)
            if not np.array_equal(r.array, vals[k].array):
                raise Failure("index value", "size %d index %d" % (size, k))
            g = rng.normal(size=(k + 1, ))
            gf = flows.NumericFlow.Grad(g)
            out = node.grad([a], gf)[0]
            for j in range(size):
                want = g if j == k else None
                have = out[j].array_grad if out[j] is not None else None
                if (want is None) != (have is None) and not (
                        want is None and np.all(have == 0)):
                    raise Failure("index gradient", "size %d index %d entry "
                                  "%d" % (size, k, j))
                if want is not None and not np.array_equal(want, have):
                    raise Failure("index gradient", "size %d index %d" %
                                  (size, k))
            n += 1
    return dict(evaluations=n, distinct=n, exhaustive=True,
                samples=[dict(sizes="1..4, every index")])


def b_plan(tier, seed):
    """Random node networks in a real plan: value against direct arithmetic
    and gradient against finite differences, integer and float variables,
    scalar/array broadcasting."""
    rng = np.random.default_rng(seed)
    N = 120 if tier == "quick" else 2500
    n = 0
    sample = []
    for case in range(N):
        with goos.OptimizationPlan() as plan:
            shp = [(1, ), (3, ), (2, 2)][int(rng.integers(3))]
            vals = []
            nv = int(rng.integers(1, 4))
            for i in range(nv):
                s = shp if rng.random() < 0.6 else (1, )
                v = rng.normal(size=s)
                if rng.random() < 0.25:
                    v = rng.integers(1, 4, size=s)
                vals.append(v)
            vs = [goos.Variable(v) for v in vals]
            pool = [(v, (lambda x, i=i: x[i] * 1.0), "v%d" % i)
                    for i, v in enumerate(vs)]
            for _ in range(int(rng.integers(1, 6))):
                a = pool[int(rng.integers(len(pool)))]
                b = pool[int(rng.integers(len(pool)))]
                op = int(rng.integers(0, 9))
                c = float(np.round(rng.normal(), 2))
                if op == 0:
                    q = (a[0] + b[0], lambda x, a=a, b=b: a[1](x) + b[1](x),
                         "(%s+%s)" % (a[2], b[2]))
                elif op == 1:
                    q = (a[0] * b[0], lambda x, a=a, b=b: a[1](x) * b[1](x),
                         "(%s*%s)" % (a[2], b[2]))
                elif op == 2:
                    q = (a[0]**2, lambda x, a=a: a[1](x)**2, "%s**2" % a[2])
                elif op == 3:
                    q = (goos.Sigmoid(a[0]),
                         lambda x, a=a: 1 / (1 + np.exp(-a[1](x))),
                         "sig(%s)" % a[2])
                elif op == 4:
                    q = (goos.abs(a[0]), lambda x, a=a: np.abs(a[1](x)),
                         "abs(%s)" % a[2])
                elif op == 5:
                    q = (goos.norm(a[0]),
                         lambda x, a=a: np.linalg.norm(a[1](x).ravel()),
                         "norm(%s)" % a[2])
                elif op == 6:
                    q = (a[0] * c - c, lambda x, a=a, c=c: a[1](x) * c - c,
                         "(%s*%g-%g)" % (a[2], c, c))
                elif op == 7:
                    q = (goos.dot(a[0], a[0]),
                         lambda x, a=a: np.sum(a[1](x)**2),
                         "dot(%s)" % a[2])
                else:
                    q = (goos.cast(a[0], goos.Function), a[1], a[2])
                pool.append(q)
            node, f, txt = pool[-1]
            obj = goos.dot(node, node) + goos.norm(node)

            def g(x, f=f):
                y = np.asarray(f(x))
                return np.sum(y * y) + np.linalg.norm(y.ravel())
            with np.errstate(all="ignore"):
                try:
                    want = g(vals)
                except ValueError:
                    continue  # shapes do not broadcast
            if not np.isfinite(want) or abs(want) > 1e4 or want < 1e-3:
                continue
            shapes = [np.shape(p[1](vals)) for p in pool]
            try:
                got = plan.eval_node(obj).array
            except ValueError as e:
                if "non-scalar" in str(e):
                    continue  # documented: one non-scalar operand only
                raise
            if not close(np.sum(got), want, 1e-9):
                raise Failure("plan value", "%s at %r: %r, expected %r" % (
                    txt, vals, got, want))
            grads = plan.eval_grad(obj, vs)
            ref = plan_numeric_grad(g, [v.astype(float) for v in vals])
            if ref is None:
                continue
            for i, (a, b) in enumerate(zip(grads, ref)):
                a = np.asarray(a.array_grad)
                if a.shape != b.shape or not close(a, b, 2e-5):
                    raise Failure("plan gradient", "%s wrt v%d at %r: %r, "
                                  "expected %r" % (txt, i, vals, a, b))
            n += 1
            if len(sample) < 3:
                sample.append(txt)
    return dict(evaluations=n, distinct=n, samples=sample)


ADD = lambda a, b: a + b
MUL = lambda a, b: a * b

ITEMS = [
    Contract("C04.Sum", c_sumprod(goos.Sum, ADD),
             [FILE + "Sum.eval", FILE + "Sum.grad"], bound="arity <= 4"),
    Contract("C04.Product", c_sumprod(goos.Product, MUL),
             [FILE + "Product.eval", FILE + "Product.grad"],
             bound="arity <= 4"),
    Contract("C04.Sum.broadcast", c_bcast(goos.Sum, ADD),
             [FILE + "Sum.eval", FILE + "Sum.grad",
              FILE + "find_dominant_numeric_flow"], bound="arity <= 3"),
    Contract("C04.Product.broadcast", c_bcast(goos.Product, MUL),
             [FILE + "Product.eval", FILE + "Product.grad",
              FILE + "find_dominant_numeric_flow"], bound="arity <= 3"),
    Contract("C04.Power.int", c_power_int,
             [FILE + "Power.eval", FILE + "Power.grad"],
             bound="integer powers 1..5, any input"),
    Contract("C04.Power.real", c_power_real,
             [FILE + "Power.eval", FILE + "Power.grad"],
             bound="positive inputs, 9 exponents"),
    Contract("C04.AbsoluteValue", c_abs,
             [FILE + "AbsoluteValue.eval", FILE + "AbsoluteValue.grad"]),
    Contract("C04.DotProduct", c_dot,
             [FILE + "DotProduct.eval", FILE + "DotProduct.grad"]),
    Contract("C04.Norm", c_norm, [FILE + "Norm.eval", FILE + "Norm.grad"],
             sym="obj", bound="orders 1..4, up to 2 entries"),
    Bounded("C04.Norm.numeric", b_norm, [FILE + "Norm.eval",
                                         FILE + "Norm.grad"],
            bound="orders 1..5, random arrays up to 3x3x3, zero arrays"),
    Contract("C04.Max", c_max, [FILE + "Max.eval", FILE + "Max.grad"],
             sym="obj", bound="arity <= 3, up to 2 entries"),
    Contract("C04.Sigmoid", c_sigmoid,
             [FILE + "Sigmoid.eval", FILE + "Sigmoid.grad"]),
    Contract("C04.Slice", c_slice, [FILE + "Slice.eval", FILE + "Slice.grad"],
             sym="obj", bound="every slice form, arrays up to 4 or 3x3",
             max_instances=2000, num=(80, 800)),
    Contract("C04.Conjugate", c_conj,
             [FILE + "Conjugate.eval", FILE + "Conjugate.grad"]),
    Contract("C04.Cast", c_cast, ["spins/goos/generic.py:cast"]),
    Contract("C04.Constant", c_const,
             [FILE + "Constant.eval", FILE + "Constant.grad"]),
    Bounded("C04.IndexOp", b_index, ["spins/goos/array.py:IndexOp"],
            bound="array flows of 1..4 entries, every index"),
    Bounded("C04.plan", b_plan, ["spins/goos/graph_executor.py:eval_grad",
                                 FILE + "Function"],
            bound="random networks of up to 6 nodes over 1..3 variables"),
]
