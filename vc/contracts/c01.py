"""C01: invdes graph executor.

Contract of graph_executor.eval_fun / eval_grad over graphs of free nodes:
every value equals plain recursive evaluation, every node is evaluated once
and receives exactly its inputs' values, and the gradient is the path sum.
"""
import itertools
import random
import threading

import numpy as np

from vc.run import Bounded
from vc.harness import Failure
from vc.contracts.graphs import dags, random_dag, reach, Dom, describe

from spins.invdes import problem
from spins.invdes.problem import graph_executor
from spins.invdes.parametrization import Parametrization

LEVEL = "other"
EXPLANATION = (
    "The real executor runs on every graph structure within the bound with "
    "free nodes: values and Jacobians are uninterpreted symbols, so the term "
    "equality decides the graph for all node functions. The structures are "
    "enumerated (bounded), not quantified.")
ASSUMPTIONS = ["graph structures bounded as stated per item",
               "node functions are deterministic and thread safe"]
F = "spins/invdes/problem/graph_executor.py:"
ANCH = [F + "eval_fun", F + "eval_grad", F + "_eval_fun_vals",
        F + "_create_computational_graph", F + "_top_sort_affinity"]
NV, NP = 2, 3  # structure and parameter lengths


class World:
    """A graph instance with its free symbols and the expected results."""

    def __init__(self, g, heavy, legacy, alias, vec, kind, seed=0):
        self.g, self.heavy, self.legacy = g, heavy, legacy
        self.alias, self.vec = alias, vec
        d = self.d = Dom(kind, seed)
        n = len(g)
        shp = (NV, ) if vec else ()
        self.x = d.new("x", (NV, ))
        self.P = d.new("P", (NV, NP))
        if kind == "cplx":
            self.x, self.P = self.x.real, self.P.real
        self.val = [self.x] + [d.new("v%d" % i, shp) for i in range(1, n)]
        self.J = [None]
        for i in range(1, n):
            js = []
            for p, q in enumerate(g[i]):
                s = (NV, ) if (vec or q == 0) else ()
                js.append(d.new("J%d_%d" % (i, p), s))
            if alias[i] and js:
                js = [js[0]] * len(js)
            self.J.append(js)
        self.L = [None] + [d.new("L%d" % i, shp + (NP, ))
                           for i in range(1, n)]
        self.lock = threading.Lock()
        self.count = [0] * n
        self.build()

    def build(self):
        self.nodes = [problem.Variable(NV)]
        for i in range(1, len(self.g)):
            if i in self.legacy:
                self.nodes.append(Old(self, i))
            else:
                self.nodes.append(Free(self, i))
        self.param = Par(self)

    def txt(self):
        return describe(self.g, heavy=sorted(self.heavy),
                        legacy=sorted(self.legacy),
                        alias=[i for i, a in enumerate(self.alias) if a],
                        vector=self.vec)

    def ins(self, i):
        return () if i in self.legacy else self.g[i]

    def expected_grad(self, out):
        g = [self.ins(i) for i in range(len(self.g))]
        acc = {out: 1}
        total = None
        for i in sorted(reach(g, [out]), reverse=True):
            a = acc[i]
            if i == 0:
                t = (a * np.ones(NV)) @ self.P if np.shape(a) == () \
                    else a @ self.P
            elif i in self.legacy:
                t = np.dot(a, self.L[i])
            else:
                for p, q in enumerate(self.g[i]):
                    c = a * self.J[i][p]
                    acc[q] = acc[q] + c if q in acc else c
                continue
            total = t if total is None else total + t
        return total


class Free(problem.OptimizationFunction):

    def __init__(self, w, i):
        super().__init__([w.nodes[q] for q in w.g[i]],
                         heavy_compute=i in w.heavy)
        self.w, self.i = w, i

    def eval(self, input_vals):
        w, i = self.w, self.i
        with w.lock:
            w.count[i] += 1
        if len(input_vals) != len(w.g[i]):
            raise Failure("node inputs", "%s node %d got %d inputs" % (
                w.txt(), i, len(input_vals)))
        for p, q in enumerate(w.g[i]):
            if not w.d.same(input_vals[p], w.val[q]):
                raise Failure("node inputs", "%s node %d input %d is not the "
                              "value of node %d" % (w.txt(), i, p, q))
        return w.val[i]

    def grad(self, input_vals, grad_val):
        w, i = self.w, self.i
        for p, q in enumerate(w.g[i]):
            if not w.d.same(input_vals[p], w.val[q]):
                raise Failure("node inputs of grad", "%s node %d" % (
                    w.txt(), i))
        if w.alias[i] and w.g[i]:
            if isinstance(grad_val, (int, float)) and grad_val == 1:
                r = w.J[i][0]  # the stored Jacobian itself
            else:
                r = grad_val * w.J[i][0]
            return [r] * len(w.g[i])
        return [grad_val * j for j in w.J[i]]


class Old(problem.OptimizationFunction):
    """Whole-parametrization interface: no listed inputs."""

    def __init__(self, w, i):
        self.w, self.i = w, i

    def calculate_objective_function(self, param):
        w = self.w
        with w.lock:
            w.count[self.i] += 1
        if param is not w.param:
            raise Failure("legacy parametrization", w.txt())
        return w.val[self.i]

    def calculate_gradient(self, param):
        return self.w.L[self.i]


class Par(Parametrization):

    def __init__(self, w):
        self.w = w

    def get_structure(self):
        return self.w.x

    def calculate_gradient(self):
        return self.w.P

    def encode(self):
        raise NotImplementedError()

    def decode(self, v):
        raise NotImplementedError()


def verify(w, outs):
    """The contract on one instance."""
    nodes = w.nodes
    g = [w.ins(i) for i in range(len(w.g))]
    w.count = [0] * len(w.g)
    vals = graph_executor.eval_fun([nodes[o] for o in outs], w.param)
    if len(vals) != len(outs):
        raise Failure("value list", "%s outputs %r" % (w.txt(), outs))
    for o, v in zip(outs, vals):
        if not w.d.same(v, w.val[o]):
            raise Failure("value", "%s node %d: %r" % (w.txt(), o, v))
    for i in reach(g, outs):
        if i and w.count[i] != 1:
            raise Failure("evaluated once", "%s outputs %r: node %d evaluated "
                          "%d times" % (w.txt(), outs, i, w.count[i]))
    out = outs[-1]
    v = nodes[out].calculate_objective_function(w.param)
    if not w.d.same(v, w.val[out]):
        raise Failure("value of one function", "%s node %d: %r" % (
            w.txt(), out, v))
    if out in w.legacy:
        if w.vec:
            return 1
        got = graph_executor.eval_grad(nodes[out], w.param)
    else:
        got = nodes[out].calculate_gradient(w.param)
    want = w.expected_grad(out)
    if out == 0:
        return 1
    if want is None:
        if not np.all(np.asarray(got) == 0):
            raise Failure("gradient of a constant", "%s: %r" % (w.txt(), got))
        return 1
    for rep in range(2):
        if not w.d.same(got, want):
            raise Failure("gradient", "%s output %d (evaluation %d): got %s, "
                          "the path sum is %s" % (w.txt(), out, rep + 1,
                                                  got, want))
        got = graph_executor.eval_grad(nodes[out], w.param)
    return 1


def b_small(tier, seed):
    n = 0
    seen = set()
    for m in (1, 2, 3):
        for g in dags(m):
            r = reach(g, [m])
            for hm in range(2**m):
                heavy = {i + 1 for i in range(m) if hm >> i & 1}
                if not heavy <= r:
                    continue
                w = World(g, heavy, set(), [bool((i + hm) % 2) for i in
                                            range(m + 1)], True, "sym")
                outs = list(range(m + 1)) if hm % 2 else [m]
                verify(w, outs)
                n += 1
                seen.add((tuple(g), hm))
    return dict(evaluations=n, distinct=len(seen), exhaustive=True,
                samples=[dict(nodes=m, inputs=2)])


def b_legacy(tier, seed):
    n = 0
    for m in (1, 2, 3):
        for k, g in enumerate(dags(m)):
            for lm in range(2**m):
                legacy = {i + 1 for i in range(m) if lm >> i & 1}
                for vec in ((False, True) if m < 3 else (bool(k % 2), )):
                    heavy = {i for i in range(1, m + 1)
                             if (k + i + lm) % 3 == 0} - legacy
                    w = World(g, heavy, legacy, [False] * (m + 1), vec,
                              "sym")
                    verify(w, [m] if k % 2 else [m, 0, m])
                    n += 1
    return dict(evaluations=n, distinct=n, exhaustive=True,
                samples=[dict(nodes=3)])


def b_large(tier, seed):
    rng = random.Random(seed)
    n = 0
    N = 500 if tier == "quick" else 12000
    samples = []
    for case in range(N):
        m = rng.randrange(3, 10)
        g = random_dag(rng, m)
        vec = rng.random() < 0.6
        legacy = {i for i in range(1, m + 1) if rng.random() < 0.12}
        if vec:
            legacy.discard(m)
        heavy = {i for i in range(1, m + 1) if rng.random() < 0.5} - legacy
        alias = [vec and rng.random() < 0.5 for _ in range(m + 1)]
        kind = ("sym", "real", "cplx")[case % 3]
        w = World(g, heavy, legacy, alias, vec, kind, case)
        outs = [rng.randrange(m + 1) for _ in range(rng.randrange(1, 5))]
        verify(w, outs + [m])
        n += 1
        if case < 3:
            samples.append(w.txt())
    return dict(evaluations=n, distinct=n, samples=samples)


def b_four(tier, seed):
    """Every graph of four interior nodes, a rotating part of the
    labellings."""
    n = 0
    step = 23 if tier == "quick" else 1
    for k, g in enumerate(dags(4)):
        if (k + seed) % step:
            continue
        for hm in ((k * 7 + seed) % 16, 15 - k % 16):
            heavy = {i + 1 for i in range(4) if hm >> i & 1}
            w = World(g, heavy, set(), [bool((i + k) % 2) for i in range(5)],
                      True, "sym")
            verify(w, [4])
            n += 1
    return dict(evaluations=n, distinct=n)


def b_two_variables(tier, seed):
    """More than one design variable is rejected, never mixed up."""
    n = 0
    w = World([(), (0, )], set(), set(), [False] * 2, True, "real")
    for f in (graph_executor.eval_fun, graph_executor.eval_grad):
        a, b = problem.Variable(NV), problem.Variable(NV)
        s = problem.Sum([a, b])
        try:
            f(s, w.param)
        except ValueError:
            n += 1
            continue
        raise Failure("two variables", "accepted by %s" % f.__name__)
    return dict(evaluations=n, distinct=n)


def b_real(tier, seed):
    """Built-in nodes composed at random: value against direct evaluation,
    gradient against finite differences."""
    from spins.invdes.parametrization import DirectParam
    rng = np.random.default_rng(seed)
    n = 0
    for case in range(60 if tier == "quick" else 1500):
        x0 = rng.uniform(0.2, 0.8, 3)
        v = problem.Variable(3)
        pool = [(v, lambda x: x, "x")]
        for _ in range(int(rng.integers(2, 7))):
            a = pool[int(rng.integers(len(pool)))]
            b = pool[int(rng.integers(len(pool)))]
            op = int(rng.integers(5))
            if op == 0:
                q = (a[0] + b[0], lambda x, a=a, b=b: a[1](x) + b[1](x),
                     "(%s+%s)" % (a[2], b[2]))
            elif op == 1:
                q = (a[0] * b[0], lambda x, a=a, b=b: a[1](x) * b[1](x),
                     "(%s*%s)" % (a[2], b[2]))
            elif op == 2:
                q = (a[0]**2, lambda x, a=a: a[1](x)**2, "%s**2" % a[2])
            elif op == 3:
                q = (problem.AbsoluteValue(objective=a[0]) if False else
                     2.5 - a[0], lambda x, a=a: 2.5 - a[1](x),
                     "(2.5-%s)" % a[2])
            else:
                q = (a[0] * 0.7, lambda x, a=a: a[1](x) * 0.7,
                     "0.7%s" % a[2])
            pool.append(q)
        node, f, txt = pool[-1]
        p = DirectParam(x0)
        w = rng.normal(size=3)
        obj = node * problem.Constant(w)
        want = f(x0) * w
        if np.max(np.abs(want)) > 1e4:
            continue
        got = obj.calculate_objective_function(p)
        if not np.allclose(got, want, rtol=1e-9, atol=1e-9):
            raise Failure("composed value", "%s at %r: %r, expected %r" % (
                txt, x0, got, want))
        gr = obj.calculate_gradient(p)
        h = 1e-5
        num = np.array([(f(x0 + h * e) - f(x0 - h * e)) / (2 * h)
                        for e in np.eye(3)])
        want = (num * w).sum(axis=1)
        if not np.allclose(gr, want, rtol=1e-5,
                           atol=1e-5 * (1 + np.max(np.abs(want)))):
            raise Failure("composed gradient", "%s at %r: %r, expected %r" % (
                txt, x0, gr, want))
        n += 1
    return dict(evaluations=n, distinct=n)


ITEMS = [
    Bounded("C01.exhaustive", b_small, ANCH,
            bound="every graph of a variable and up to 3 free nodes with up "
            "to 2 inputs each, every marking of expensive nodes"),
    Bounded("C01.legacy", b_legacy, ANCH,
            bound="every graph of up to 3 free nodes, every subset in the "
            "whole-parametrization interface"),
    Bounded("C01.four", b_four, ANCH,
            bound="graphs of 4 free nodes (quick: 1 in 23; thorough: all)"),
    Bounded("C01.large", b_large, ANCH,
            bound="random graphs of up to 9 free nodes with up to 4 inputs"),
    Bounded("C01.two_variables", b_two_variables, ANCH,
            bound="two variables"),
    Bounded("C01.builtin", b_real, ANCH,
            bound="random compositions of up to 7 built-in nodes"),
]
