"""Helpers shared by the contracts."""
import numpy as np


def shape_of(B, nds=(0, 1, 2)):
    nd = B.choose("ndim", list(nds))
    return tuple(B.dim("n%d" % i) for i in range(nd))


def arr_reduce(op, xs):
    out = xs[0]
    for x in xs[1:]:
        out = op(out, x)
    return out


def abs2(z):
    return (z * np.conj(z)).real if not hasattr(z, "t") else (
        z * z.conjugate()).real


def plan_numeric_grad(g, vals, h=1e-5):
    """Central differences with a consistency test; None when not smooth."""
    out = []
    for i, v in enumerate(vals):
        d = np.zeros(v.shape)
        for ix in np.ndindex(*v.shape):
            def f(t):
                w = [u.copy() for u in vals]
                w[i][ix] += t
                return g(w)
            a = (f(h) - f(-h)) / (2 * h)
            b = (f(h / 2) - f(-h / 2)) / h
            if abs(a - b) > 1e-5 * (1 + abs(a)):
                return None
            d[ix] = b
        out.append(d)
    return out
