"""C02: goos graph executor.

Contract of graph_executor.eval_fun / eval_grad over graphs of free nodes
whose flows have one field, several fields or several sub-flows.
"""
import random
import threading
import types

import numpy as np

from vc.run import Bounded
from vc.harness import Failure
from vc.contracts.graphs import random_dag, reach, Dom, describe
from vc.contracts import graphs

from spins import goos
from spins.goos import flows, graph_executor
from spins.goos.array import IndexOp, ArrayFlow

LEVEL = "other"
EXPLANATION = (
    "The real executor runs on every graph structure within the bound with "
    "free nodes: flow fields and Jacobians are uninterpreted symbols, so the "
    "term equality decides the graph for all node functions. The structures "
    "are enumerated (bounded), not quantified.")
ASSUMPTIONS = ["graph structures bounded as stated per item",
               "node functions are deterministic and thread safe"]
F = "spins/goos/graph_executor.py:"
ANCH = [F + "eval_fun", F + "eval_grad", F + "_eval_fun_vals",
        F + "_create_computational_graph", F + "_top_sort_affinity",
        "spins/goos/flows.py:FlowMeta", "spins/goos/flows.py:NumericFlow.Grad",
        "spins/goos/array.py:ArrayFlow", "spins/goos/array.py:IndexOp"]
SH = (2, )


class TwoFlow(flows.NumericFlow):
    """A numeric flow with one more varying field and one constant field."""
    aux: np.ndarray = flows.np_zero_field(2)
    tag: int = flows.constant_field(default=7)


# flow kinds: components, construction, reading and gradients
NC = {"N": 1, "M": 2, "A": 2}


def make(kind, comps):
    if kind == "N":
        return flows.NumericFlow(comps[0])
    if kind == "M":
        return TwoFlow(array=comps[0], aux=comps[1])
    return ArrayFlow([flows.NumericFlow(c) for c in comps])


def read(kind, flow):
    if kind == "N":
        return [flow.array]
    if kind == "M":
        return [flow.array, flow.aux]
    return [f.array for f in flow]


def zero():
    return np.zeros(SH)


def make_grad(kind, comps):
    if kind == "N":
        return flows.NumericFlow.Grad(comps[0])
    if kind == "M":
        return TwoFlow.Grad(array_grad=comps[0], aux_grad=comps[1])
    return ArrayFlow.Grad([None if c is None else flows.NumericFlow.Grad(c)
                           for c in comps])


def read_grad(kind, g):
    if kind == "N":
        return [g.array_grad]
    if kind == "M":
        return [g.array_grad, g.aux_grad]
    return [zero() if x is None else x.array_grad for x in g.flows_grad]


class World:

    def __init__(self, g, kinds, heavy, frozen, alias, null, ctx, kind,
                 seed=0, nleaf=2):
        """g[i] = inputs; nodes 0..nleaf-1 are overridden variables."""
        self.g, self.kinds, self.heavy, self.frozen = g, kinds, heavy, frozen
        self.alias, self.null, self.ctx, self.nleaf = alias, null, ctx, nleaf
        d = self.d = Dom(kind, seed)
        n = len(g)
        self.val = [[d.new("v%d_%d" % (i, c), SH)
                     for c in range(NC[kinds[i]])] for i in range(n)]
        self.J = []
        for i in range(n):
            js = []
            for p, q in enumerate(g[i]):
                if (i, p) in null:
                    js.append(None)
                elif alias[i] and p and kinds[g[i][0]] == kinds[q] and js[0]:
                    js.append(js[0])
                else:
                    js.append([[d.new("J%d_%d_%d_%d" % (i, p, o, c), SH)
                                for c in range(NC[kinds[q]])]
                               for o in range(NC[kinds[i]])])
            self.J.append(js)
        self.lock = threading.Lock()
        self.count = [0] * n
        self.over = {}
        self.frz = [None] * n
        self.cst = [None] * n
        for i in range(n):
            if i < nleaf:
                self.frz[i], self.cst[i] = i in frozen, False
            else:
                self.frz[i] = all(self.frz[q] for q in g[i])
                self.cst[i] = all(self.cst[q] for q in g[i])
        with goos.OptimizationPlan() as plan:
            self.nodes = []
            for i in range(n):
                c = FreeCtx if i in ctx else Free
                self.nodes.append(c(self, i))
                self.nodes[i].parallelize(i in heavy)
        for i in range(nleaf):
            self.over[self.nodes[i]] = (
                make(kinds[i], self.val[i]), self.flags(i))

    def flags(self, i):
        t = type(make(self.kinds[i], self.val[i]))
        if self.kinds[i] == "A":
            a = ArrayFlow.ConstFlags([flows.NumericFlow.ConstFlags(),
                                      flows.NumericFlow.ConstFlags()])
            b = ArrayFlow.ConstFlags([flows.NumericFlow.ConstFlags(),
                                      flows.NumericFlow.ConstFlags()])
        else:
            a, b = t.ConstFlags(), t.ConstFlags()
        a.set_all(False)
        b.set_all(i in self.frozen)
        return goos.NodeFlags(const_flags=a, frozen_flags=b)

    def txt(self):
        return describe(self.g, kinds="".join(self.kinds),
                        heavy=sorted(self.heavy), frozen=sorted(self.frozen),
                        null=sorted(self.null),
                        alias=[i for i, a in enumerate(self.alias) if a])

    def same(self, kind, flow, comps, grad=False):
        have = (read_grad if grad else read)(kind, flow)
        if grad:
            # a missing gradient may be a zero of any broadcastable shape
            have = [np.broadcast_to(h, SH) if np.shape(h) in ((), (1, )) and
                    np.all(np.asarray(h) == 0) else h for h in have]
        return len(have) == len(comps) and all(
            self.d.same(a, b) for a, b in zip(have, comps))

    def pulled(self, i, p, gc):
        """Gradient components for input p of node i."""
        q = self.g[i][p]
        out = []
        for c in range(NC[self.kinds[q]]):
            t = None
            for o in range(NC[self.kinds[i]]):
                u = gc[o] * self.J[i][p][o][c]
                t = u if t is None else t + u
            out.append(t)
        return out

    def expected(self, out):
        acc = {out: [np.ones(SH) if c == 0 else zero()
                     for c in range(NC[self.kinds[out]])]}
        for i in sorted(reach(self.g, [out]), reverse=True):
            if i < self.nleaf:
                continue
            for p, q in enumerate(self.g[i]):
                acc.setdefault(q, [zero() for _ in range(NC[self.kinds[q]])])
                if self.J[i][p] is None:
                    continue
                cs = self.pulled(i, p, acc[i])
                acc[q] = [a + b for a, b in zip(acc[q], cs)]
        return acc

    # behaviour of the free nodes
    def do_eval(self, i, inputs, context=None):
        with self.lock:
            self.count[i] += 1
        if len(inputs) != len(self.g[i]):
            raise Failure("node inputs", "%s node %d got %d" % (
                self.txt(), i, len(inputs)))
        for p, q in enumerate(self.g[i]):
            if not self.same(self.kinds[q], inputs[p], self.val[q]):
                raise Failure("node inputs", "%s node %d input %d is not the "
                              "flow of node %d" % (self.txt(), i, p, q))
        if context is not None:
            self.check_flags(i, context)
        return make(self.kinds[i], self.val[i])

    def check_flags(self, i, context):
        if len(context.input_flags) != len(self.g[i]):
            raise Failure("flags", "%s node %d" % (self.txt(), i))
        for p, q in enumerate(self.g[i]):
            f = context.input_flags[p]
            for nm, have, want in (("constant", f.const_flags, self.cst[q]),
                                   ("frozen", f.frozen_flags, self.frz[q])):
                if bool(have) != want:
                    raise Failure("flags", "%s node %d sees input %d marked "
                                  "%s=%r" % (self.txt(), i, q, nm,
                                             bool(have)))

    def do_grad(self, i, inputs, grad_val, context=None):
        for p, q in enumerate(self.g[i]):
            if not self.same(self.kinds[q], inputs[p], self.val[q]):
                raise Failure("inputs of grad", "%s node %d" % (self.txt(), i))
        if context is not None:
            self.check_flags(i, context)
        gc = read_grad(self.kinds[i], grad_val)
        res = []
        for p, q in enumerate(self.g[i]):
            if self.J[i][p] is None:
                res.append(None)
            elif (self.alias[i] and p and res[0] is not None and
                  self.kinds[self.g[i][0]] == self.kinds[q]):
                res.append(res[0])
            else:
                res.append(make_grad(self.kinds[q], self.pulled(i, p, gc)))
        return res


class Free(goos.Function):
    node_type = "vc.free"
    goos_no_register = True
    Schema = goos.ProblemGraphNode.Schema

    def __init__(self, w: int, i: int) -> None:
        goos.ProblemGraphNode.__init__(self, [w.nodes[q] for q in w.g[i]])
        self.w, self.i = w, i
        self._goos_schema = types.SimpleNamespace(name=None)

    def eval(self, inputs):
        return self.w.do_eval(self.i, inputs)

    def grad(self, inputs, grad_val):
        return self.w.do_grad(self.i, inputs, grad_val)


class FreeCtx(Free):
    node_type = "vc.freectx"
    goos_no_register = True
    Schema = goos.ProblemGraphNode.Schema

    def eval(self, inputs, context):
        return self.w.do_eval(self.i, inputs, context)

    def grad(self, inputs, grad_val, context):
        return self.w.do_grad(self.i, inputs, grad_val, context)


def verify(w, outs, overridden=()):
    n = len(w.g)
    over = dict(w.over)
    for i in overridden:
        if i >= w.nleaf:
            over[w.nodes[i]] = (make(w.kinds[i], w.val[i]), w.flags(i))
            w.cst[i], w.frz[i] = False, i in w.frozen
    for i in range(w.nleaf, n):
        if i not in overridden:
            w.frz[i] = all(w.frz[q] for q in w.g[i])
            w.cst[i] = all(w.cst[q] for q in w.g[i])
    w.count = [0] * n
    vals = graph_executor.eval_fun([w.nodes[o] for o in outs], over)
    if len(vals) != len(outs):
        raise Failure("value list", w.txt())
    for o, v in zip(outs, vals):
        if not w.same(w.kinds[o], v, w.val[o]):
            raise Failure("value", "%s node %d: %r" % (w.txt(), o, v))
    need = reach([() if i in overridden else w.g[i] for i in range(n)], outs)
    for i in range(n):
        lim = 0 if (i < w.nleaf or i in overridden) else 1
        if w.count[i] > lim or (i in need and w.count[i] != lim):
            raise Failure("evaluated once", "%s outputs %r overridden %r: "
                          "node %d evaluated %d times" % (
                              w.txt(), outs, sorted(overridden), i,
                              w.count[i]))
    v = graph_executor.eval_fun(w.nodes[outs[-1]], over)
    if not w.same(w.kinds[outs[-1]], v, w.val[outs[-1]]):
        raise Failure("value of one node", w.txt())
    if overridden:
        return
    out = outs[-1]
    if w.kinds[out] != "N":
        return
    acc = w.expected(out)
    over3 = {k: (f, flows.NumericFlow(np.ones(SH)), fl)
             for k, (f, fl) in over.items()}
    wrt = [i for i in range(n) if i in acc or (
        i < w.nleaf and w.kinds[i] == "N")]
    for rep in range(2):
        got = graph_executor.eval_grad(w.nodes[out],
                                       [w.nodes[i] for i in wrt], over3)
        if len(got) != len(wrt):
            raise Failure("gradient list", w.txt())
        for i, g in zip(wrt, got):
            want = acc.get(i)
            if want is None:
                want = [zero()]
            if i == out:
                continue
            if not w.same(w.kinds[i], g, want, grad=True):
                raise Failure("gradient", "%s d node %d / d node %d "
                              "(evaluation %d): got %s, the path sum is %s" %
                              (w.txt(), out, i, rep + 1,
                               read_grad(w.kinds[i], g), want))
    # gradients must not share storage
    for a in range(len(got)):
        for b in range(a):
            for x in read_grad(w.kinds[wrt[a]], got[a]):
                for y in read_grad(w.kinds[wrt[b]], got[b]):
                    if (isinstance(x, np.ndarray) and isinstance(
                            y, np.ndarray) and np.shares_memory(
                                x, y, max_work=1)):
                        raise Failure("gradient storage", "%s nodes %d and "
                                      "%d share their gradient array" % (
                                          w.txt(), wrt[a], wrt[b]))


def two_leaf_dags(n, max_in=2):
    """Leaves 0, 1; interior nodes 2..n+1."""
    import itertools
    opts = []
    for i in range(2, n + 2):
        o = []
        for k in range(max_in + 1):
            o += list(itertools.product(range(i), repeat=k))
        opts.append(o)
    for g in itertools.product(*opts):
        yield [(), ()] + list(g)


def b_small(tier, seed):
    n = 0
    kk = ["N", "N", "M", "A", "N"]
    for m in (1, 2):
        for k, g in enumerate(two_leaf_dags(m)):
            for hm in range(2**m):
                heavy = {i + 2 for i in range(m) if hm >> i & 1}
                for fm in range(4):
                    frozen = {i for i in range(2) if fm >> i & 1}
                    kinds = ["N", "N"] + ["N"] * m
                    if m == 2:
                        kinds[2] = "NMA"[(k + fm) % 3]
                    w = World(g, kinds, heavy, frozen,
                              [bool((i + hm + fm) % 2) for i in range(m + 2)],
                              set(), {i for i in range(m + 2)
                                      if (i + k) % 2}, "sym")
                    verify(w, [m + 1] if k % 2 else list(range(m + 2)))
                    n += 1
    return dict(evaluations=n, distinct=n, exhaustive=True)


def b_three(tier, seed):
    n = 0
    step = 9 if tier == "quick" else 1
    rng = random.Random(seed)
    for k, g in enumerate(two_leaf_dags(3)):
        if (k + seed) % step:
            continue
        for rep in range(2):
            hm = rng.randrange(8)
            heavy = {i + 2 for i in range(3) if hm >> i & 1}
            kinds = ["N", "N"] + [rng.choice("NNMA") for _ in range(2)] + ["N"]
            null = {(i, p) for i in range(2, 5) for p in range(len(g[i]))
                    if rng.random() < 0.15}
            w = World(g, kinds, heavy, {i for i in range(2)
                                        if rng.random() < .4},
                      [rng.random() < 0.5 for _ in range(5)], null,
                      {i for i in range(5) if rng.random() < 0.5}, "sym")
            verify(w, [rng.randrange(5), 4])
            n += 1
    return dict(evaluations=n, distinct=n)


def b_large(tier, seed):
    rng = random.Random(seed)
    N = 350 if tier == "quick" else 9000
    samples = []
    for case in range(N):
        m = rng.randrange(3, 9)
        nleaf = rng.randrange(1, 4)
        g = [()] * nleaf
        for i in range(nleaf, nleaf + m):
            k = rng.choice([0, 1, 1, 2, 2, 3, 4])
            g.append(tuple(rng.randrange(max(0, i - 4) if rng.random() < .5
                                         else 0, i) for _ in range(k)))
        n = len(g)
        kinds = [rng.choice("NNNMA") for _ in range(n)]
        kinds[-1] = "N"
        heavy = {i for i in range(n) if rng.random() < 0.5}
        null = {(i, p) for i in range(nleaf, n) for p in range(len(g[i]))
                if rng.random() < 0.12}
        w = World(g, kinds, heavy, {i for i in range(nleaf)
                                    if rng.random() < .4},
                  [rng.random() < 0.5 for _ in range(n)], null,
                  {i for i in range(n) if rng.random() < 0.5},
                  ("sym", "real", "cplx")[case % 3], case, nleaf)
        outs = [rng.randrange(n) for _ in range(rng.randrange(0, 4))] + [n - 1]
        verify(w, outs)
        if case < 3:
            samples.append(w.txt())
    return dict(evaluations=N, distinct=N, samples=samples)


def b_override(tier, seed):
    """Interior nodes with precomputed values: used as given, never
    evaluated."""
    rng = random.Random(seed + 5)
    N = 300 if tier == "quick" else 6000
    for case in range(N):
        m = rng.randrange(2, 7)
        g = [(), ()]
        for i in range(2, 2 + m):
            k = rng.choice([0, 1, 1, 2, 2, 3])
            g.append(tuple(rng.randrange(0, i) for _ in range(k)))
        n = len(g)
        kinds = [rng.choice("NNNMA") for _ in range(n)]
        heavy = {i for i in range(n) if rng.random() < 0.5}
        w = World(g, kinds, heavy, {i for i in range(n)
                                    if rng.random() < .4},
                  [False] * n, set(),
                  {i for i in range(n) if rng.random() < 0.5}, "real", case)
        ov = {i for i in range(2, n) if rng.random() < 0.4}
        verify(w, [rng.randrange(n) for _ in range(rng.randrange(1, 4))], ov)
    return dict(evaluations=N, distinct=N)


class Pair(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
    """out[0] = x * y, out[1] = x + 2 y."""
    node_type = "vc.pair"
    goos_no_register = True

    def __init__(self, x: goos.Function, y: goos.Function,
                 names: int = 0) -> None:
        super().__init__([x, y], flow_types=[goos.Function, goos.Function],
                         flow_names=["p", "s"] if names else None)

    def eval(self, inputs):
        x, y = (f.array for f in inputs)
        return ArrayFlow([flows.NumericFlow(x * y),
                          flows.NumericFlow(x + 2 * y)])

    def grad(self, inputs, grad_val):
        x, y = (f.array for f in inputs)
        g = [0 if f is None else f.array_grad for f in grad_val.flows_grad]
        return [flows.NumericFlow.Grad(g[0] * y + g[1]),
                flows.NumericFlow.Grad(g[0] * x + 2 * g[1])]


def b_plan(tier, seed):
    """Multi-output nodes, indexing and frozen variables in real plans."""
    rng = np.random.default_rng(seed)
    n = 0
    for case in range(80 if tier == "quick" else 1500):
        heavy = [bool(rng.integers(2)) for _ in range(6)]
        names = bool(case % 2)
        x0, y0 = rng.normal(size=2), rng.normal(size=2)
        with goos.OptimizationPlan() as plan:
            x, y = goos.Variable(x0), goos.Variable(y0)
            if case % 3 == 0:
                x.freeze()
            pr = Pair(x, y, int(names))
            p, s = (pr["p"], pr["s"]) if names else (pr[0], pr[1])
            if pr[0] is not p or (names and pr[1] is not s):
                raise Failure("indexing twice", "gives different nodes")
            q = Pair(p, s)
            mix = [p, s, x, y, q[0], q[1]]
            pick = [mix[k] for k in rng.integers(0, 6, 3)]
            w = [float(t) for t in np.round(rng.normal(size=3), 2)]
            obj = goos.dot(pick[0], pick[1]) * w[0] + goos.dot(
                pick[2], pick[2]) * w[1] + goos.dot(
                    pick[0] + pick[2], pick[0]) * w[2]
            for nd, h in zip([pr, q, p, s, q[0], obj], heavy):
                nd.parallelize(h)
            if case % 3 == 0:
                plan.run()

            def f(a, b):
                pp, ss = a * b, a + 2 * b
                m = [pp, ss, a, b, pp * ss, pp + 2 * ss]
                t = [m[mix.index(z)] for z in pick]
                return (np.sum(t[0] * t[1]) * w[0] + np.sum(t[2]**2) * w[1] +
                        np.sum((t[0] + t[2]) * t[0]) * w[2])
            got = np.sum(plan.eval_node(obj).array)
            want = f(x0, y0)
            if not np.isclose(got, want, rtol=1e-9, atol=1e-9):
                raise Failure("plan value", "%r, expected %r" % (got, want))
            gr = plan.eval_grad(obj, [x, y])
            h = 1e-5
            for k, gk in enumerate(gr):
                num = []
                for e in np.eye(2):
                    a = [x0, y0]
                    b = [x0, y0]
                    a[k], b[k] = a[k] + h * e, b[k] - h * e
                    num.append((f(*a) - f(*b)) / (2 * h))
                if not np.allclose(gk.array_grad, num, rtol=1e-5,
                                   atol=1e-5 * (1 + np.max(np.abs(num)))):
                    raise Failure("plan gradient", "case %d wrt variable %d: "
                                  "%r, expected %r" % (case, k,
                                                       gk.array_grad, num))
        n += 1
    return dict(evaluations=n, distinct=n)


def b_flowgrad(tier, seed):
    """Accumulating gradients: componentwise sum, nothing else touched."""
    n = 0
    d = Dom("sym")
    for kind in "NMA":
        k = NC[kind]
        import itertools
        for mask in itertools.product([0, 1], repeat=2 * k):
            if kind != "A" and not all(mask):
                continue
            a = [d.new("a%d" % i, SH) if mask[i] else None for i in range(k)]
            b = [d.new("b%d" % i, SH) if mask[k + i] else None
                 for i in range(k)]
            ga, gb = make_grad(kind, a), make_grad(kind, b)
            a0 = [None if t is None else t.copy() for t in a]
            b0 = [None if t is None else t.copy() for t in b]
            r = ga
            r += gb
            r += gb
            want = []
            for t, u in zip(a0, b0):
                v = zero() if t is None else t
                if u is not None:
                    v = v + u + u
                want.append(v)
            for x, y in zip(read_grad(kind, r), want):
                if not d.same(x, y):
                    raise Failure("gradient sum", "%s %r: %s, expected %s" % (
                        kind, mask, x, y))
            for x, y in zip(read_grad(kind, gb),
                            [zero() if t is None else t for t in b0]):
                if not d.same(x, y):
                    raise Failure("gradient sum changes its right operand",
                                  "%s %r" % (kind, mask))
            n += 1
    return dict(evaluations=n, distinct=n, exhaustive=True)


ITEMS = [
    Bounded("C02.exhaustive", b_small, ANCH,
            bound="every graph of 2 variables and up to 2 free nodes with up "
            "to 2 inputs, every marking of expensive nodes and frozen "
            "variables, flow kinds rotating"),
    Bounded("C02.three", b_three, ANCH,
            bound="graphs of 2 variables and 3 free nodes (quick: 1 in 9)"),
    Bounded("C02.large", b_large, ANCH,
            bound="random graphs of up to 11 nodes with up to 4 inputs"),
    Bounded("C02.override", b_override, ANCH,
            bound="random graphs of up to 8 nodes, any nodes overridden"),
    Bounded("C02.plan", b_plan, ANCH + ["spins/goos/optplan/optplan.py:"
                                        "OptimizationPlan.eval_grad"],
            bound="random objectives over nested two-output nodes"),
    Bounded("C02.gradsum", b_flowgrad,
            ["spins/goos/flows.py:FlowMeta", "spins/goos/array.py:ArrayFlow"],
            bound="flows of one or two fields or sub-flows, every pattern of "
            "missing entries"),
]
