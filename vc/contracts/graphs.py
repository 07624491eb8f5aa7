"""Finite acyclic graphs and free (uninterpreted) node functions.

A *free node* i has an unknown value and unknown Jacobian entries: fresh
symbols of the verifier's term language (vc.sym). An executor result that is
equal, as a term over these symbols, to the path sum is right for every
choice of node functions. The graph structures are enumerated.
"""
import itertools
import random

import numpy as np

from vc import sym
from vc.sym import S, as_s
from vc.harness import Failure


def dags(n, max_in=2):
    """All graphs with leaf 0 and interior nodes 1..n; the inputs of node i
    are any sequence (repetitions allowed) of at most max_in nodes < i."""
    opts = []
    for i in range(1, n + 1):
        o = []
        for k in range(max_in + 1):
            o += list(itertools.product(range(i), repeat=k))
        opts.append(o)
    for g in itertools.product(*opts):
        yield [()] + list(g)


def random_dag(rng, n, max_in=4):
    g = [()]
    for i in range(1, n + 1):
        k = rng.choice([0, 1, 1, 2, 2, 2, 3, max_in])
        near = rng.random() < 0.5
        ins = []
        for _ in range(k):
            lo = max(0, i - 3) if near else 0
            ins.append(rng.randrange(lo, i))
        g.append(tuple(ins))
    return g


def reach(g, outs):
    seen = set()
    st = list(outs)
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        st += list(g[i])
    return seen


class Dom:
    """Where free values live: exact symbols or generic numbers."""

    def __init__(self, kind, seed=0):
        self.kind = kind
        self.rng = np.random.default_rng(seed)

    def new(self, name, shape=()):
        if self.kind == "sym":
            sym.declare(name, real=True)
            if shape == ():
                return sym.var(name)
            a = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                a[ix] = sym.var(name, ix)
            return a
        v = self.rng.normal(size=shape)
        if self.kind == "cplx" and self.rng.random() < 0.5:
            v = v + 1j * self.rng.normal(size=shape)
        return v if shape else v.item() if hasattr(v, "item") else v

    def same(self, a, b):
        if self.kind == "sym":
            x, y = np.broadcast_arrays(np.asarray(a, dtype=object),
                                       np.asarray(b, dtype=object))
            if x.shape != np.shape(b):
                return False
            return all((as_s(p) - as_s(q)).is_zero() if hasattr(
                S, "is_zero") else (as_s(p) - as_s(q)).same(sym.ZERO)
                for p, q in zip(x.ravel(), y.ravel()))
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        return bool(np.allclose(a, b, rtol=1e-9, atol=1e-9))


def describe(g, **labels):
    return "inputs=%r %s" % (g, " ".join("%s=%r" % kv
                                         for kv in sorted(labels.items())))
