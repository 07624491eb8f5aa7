"""numpy as seen by the code under verification during a symbolic run.

`symbolic()` temporarily replaces the global `np` of every imported `spins`
module by a proxy that forwards to numpy and handles arrays of symbolic
scalars. The repository's code objects themselves are executed unmodified.
"""
import contextlib
import numbers
import sys
import types

import numpy as np

from . import sym
from .sym import S, Cond, ZERO, ONE, Unsupported, as_s, as_cond, ite, cand, cor
from .arrays import (OArr, IArr, SymArr, oarr, omap, _obin, _plain, _wrap, to_sym,
                     sym_bin, symdot, odot, o_is_complex, raw_dtype, NP_clip,
                     smax, smin, norm_dim, fresh_index, ssum, same_dim)

from .spmat import SPARSE, SCIPY, LINALG
import scipy as _rscipy
import scipy.sparse as _rsp
import scipy.sparse.linalg

ENABLED = [False]


class NumArr(np.ndarray):
    """Integer array created by the code: becomes symbolic when cast."""

    def astype(self, dtype, *a, **k):
        if np.dtype(dtype).kind in "fc":
            return oarr(np.asarray(self).astype(dtype))
        return np.asarray(self).astype(dtype, *a, **k)


def meshgrid(*xs, indexing="xy", sparse=False, **k):
    if not has_any(*xs):
        return np.meshgrid(*xs, indexing=indexing, sparse=sparse, **k)
    if sparse or has_sym(list(xs)):
        raise Unsupported("meshgrid")
    return [oarr(g.view(OArr)) for g in np.meshgrid(
        *[np.asarray(_plain(oarr(x))) for x in xs], indexing=indexing)]


def np_split(a, n, axis=0):
    if isinstance(a, SymArr):
        raise Unsupported("split")
    if isinstance(a, OArr) and axis == 0:
        if isinstance(n, (int, np.integer)):
            if len(a) % n:
                raise ValueError("array split does not result in an equal "
                                 "division")
            n = [len(a) // n * i for i in range(1, n)]
        b = [0] + [int(x) for x in n] + [len(a)]
        return [a[p:q] for p, q in zip(b, b[1:])]
    return np.split(a, n, axis)


def np_diag(a, k=0):
    if not has_o(a):
        return np.diag(a, k)
    a = np.asarray(_plain(oarr(a)))
    if a.ndim == 2:
        return oarr(np.diag(a, k).view(OArr))
    n = len(a) + abs(k)
    r = np.empty((n, n), dtype=object)
    r.fill(ZERO)
    for i in range(len(a)):
        r[i + max(-k, 0), i + max(k, 0)] = a[i]
    return r.view(OArr)


def np_equal(a, b):
    if b is None:
        if a is None:
            return True
        return np.zeros(np.shape(a), dtype=bool)
    if has_any(a, b):
        return oarr(a) == b if np.ndim(a) or np.ndim(b) else as_s(a) == b
    return np.equal(a, b)


def np_cumsum(a, axis=None, **k):
    if not has_o(a):
        return np.cumsum(a, axis, **k)
    p = np.asarray(_plain(oarr(a)))
    return oarr(np.cumsum(p, axis).view(OArr))


def append(a, b, axis=None):
    if not has_any(a, b):
        return np.append(a, b, axis)
    return concatenate([np_ravel1(a), np_ravel1(b)] if axis is None
                       else [oarr(a), oarr(b)], axis or 0)


def np_ravel1(a):
    return oarr(a).ravel() if np.ndim(a) else oarr([a])


def digitize(x, bins, right=False):
    """Bin numbers; comparisons with symbolic values branch."""
    if not has_any(x, bins):
        return np.digitize(x, bins, right)
    if has_sym([x, bins]):
        raise Unsupported("digitize")
    bs = list(oarr(bins))

    def one(v):
        k = 0
        while k < len(bs) and bool((bs[k] < v) if right else (bs[k] <= v)):
            k += 1
        return k
    if np.ndim(x) == 0:
        return one(x)
    a = np.asarray(_plain(oarr(x)))
    r = np.empty(a.shape, dtype=int).view(IArr)
    for ix in np.ndindex(*a.shape):
        r[ix] = one(a[ix])
    return r


def np_ceil(x, **k):
    """Smallest integer not below x; branches over the integers."""
    if not has_any(x):
        return np.ceil(x, **k)
    if np.ndim(x):
        raise Unsupported("ceil of an array")
    for n in range(-16, 17):
        if bool(as_s(x) <= n):
            return np.float64(n)
    raise Unsupported("ceil")


def np_floor(x, **k):
    """Largest integer not above x; branches over the integers."""
    if not has_any(x):
        return np.floor(x, **k)
    if np.ndim(x):
        raise Unsupported("floor of an array")
    for n in range(-16, 17):
        if bool(as_s(x) < n + 1):
            return np.float64(n)
    raise Unsupported("floor")


def np_insert(a, pos, v, axis=None):
    if not has_any(a, v):
        return np.insert(a, pos, v, axis)
    if axis is not None or np.ndim(a) != 1 or np.ndim(pos) != 0:
        raise Unsupported("insert")
    xs = list(oarr(a))
    pos = int(pos)
    vs = list(oarr(v)) if np.ndim(v) else [v]
    return oarr(xs[:pos] + vs + xs[pos:])


def np_sort(a, axis=-1, **k):
    """Sorted values; comparisons branch."""
    if not has_any(a):
        return np.sort(a, axis, **k)
    if has_sym([a]) or np.ndim(a) != 1:
        raise Unsupported("sort")
    out = []
    for v in oarr(a):
        i = len(out)
        while i > 0 and bool(as_s(v) < out[i - 1]):
            i -= 1
        out.insert(i, v)
    return oarr(out)


def searchsorted(a, v, side="left", sorter=None):
    if not has_any(a, v):
        return np.searchsorted(a, v, side, sorter)
    if sorter is not None:
        raise Unsupported("searchsorted")
    return digitize(v, a, right=(side == "left"))


def unique(a, **k):
    """Sorted distinct values; comparisons branch."""
    if not has_any(a):
        return np.unique(a, **k)
    if has_sym([a]) or k:
        raise Unsupported("unique")
    out = []
    for v in oarr(a).ravel():
        i = len(out)
        dup = False
        while i > 0:
            if bool(out[i - 1] < v):
                break
            if bool(as_s(out[i - 1]) == v):
                dup = True
                break
            i -= 1
        if not dup:
            out.insert(i, v)
    return oarr(out)


class _Logical:
    def __init__(self, f, name):
        self.f, self.name = f, name

    def _two(self, a, b):
        if not has_any(a, b):
            return getattr(np, self.name)(a, b)
        if np.ndim(a) == 0 and np.ndim(b) == 0:
            return self.f(as_cond(a), as_cond(b))
        x, y = np.broadcast_arrays(np.asarray(_plain(a)),
                                   np.asarray(_plain(b)))
        r = np.empty(x.shape, dtype=object)
        for ix in np.ndindex(*x.shape):
            r[ix] = self.f(as_cond(x[ix]), as_cond(y[ix]))
        return r.view(OArr)

    def __call__(self, a, b, **k):
        return self._two(a, b)

    def reduce(self, xs, axis=0, **k):
        xs = list(xs)
        out = xs[0]
        for x in xs[1:]:
            out = self._two(out, x)
        return out


def np_interp(x, xp, fp, **k):
    if not has_any(x, xp, fp):
        return np.interp(x, xp, fp, **k)
    if k or has_sym([x, xp, fp]):
        raise Unsupported("interp")
    xp, fp = list(xp), list(fp)

    def one(v):
        if bool(as_s(v) <= xp[0]):
            return as_s(fp[0])
        for i in range(1, len(xp)):
            if bool(as_s(v) <= xp[i]):
                return as_s(fp[i - 1]) + (as_s(v) - xp[i - 1]) * (
                    as_s(fp[i]) - fp[i - 1]) / (as_s(xp[i]) - xp[i - 1])
        return as_s(fp[-1])
    if np.ndim(x) == 0:
        return one(x)
    return omap(one, oarr(x))


class _R:
    def __getitem__(self, k):
        if not isinstance(k, tuple):
            k = (k, )
        if not has_any(*[x for x in k if not isinstance(x, slice)]):
            return np.r_[k]
        return concatenate([np_ravel1(np.r_[x] if isinstance(x, slice)
                                      else x) for x in k])


def has_sym(x):
    if isinstance(x, SymArr):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def has_o(x):
    if isinstance(x, (OArr, S, Cond)):
        return True
    if isinstance(x, np.ndarray):
        return raw_dtype(x) == np.dtype(object) and any(
            isinstance(y, (S, Cond)) for y in np.asarray(x).ravel())
    if isinstance(x, (list, tuple)):
        return any(has_o(y) for y in x)
    return False


def has_any(*xs):
    return any(has_sym(x) or has_o(x) for x in xs)


def _is_symshape(shape):
    if isinstance(shape, S):
        return shape.as_int() is None
    if isinstance(shape, (list, tuple)):
        return any(isinstance(d, S) and d.as_int() is None for d in shape)
    return False


def _cshape(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(int(d) for d in shape)
    if isinstance(shape, np.ndarray):
        return tuple(int(d) for d in shape)
    return (int(shape), )


def _filler(val):
    def f(shape, dtype=float, order="C", **k):
        if _is_symshape(shape):
            shp = tuple(shape) if isinstance(shape, (tuple, list)) else (
                shape, )
            v = as_s(val)
            return SymArr(shp, lambda i: v)
        if dtype is not None and np.dtype(dtype).kind in "iub":
            return getattr(np, {0: "zeros", 1: "ones"}[val])(shape, dtype)
        a = np.empty(_cshape(shape), dtype=object)
        a.fill(as_s(val))
        return a.view(OArr)
    return f


def _full(shape, value, dtype=None, **k):
    if _is_symshape(shape):
        shp = tuple(shape) if isinstance(shape, (tuple, list)) else (shape, )
        v = as_s(value)
        return SymArr(shp, lambda i: v, not v.is_real())
    if has_any(value) or (dtype is None and isinstance(value, float)) or (
            dtype is not None and np.dtype(dtype).kind in "fc"):
        a = np.empty(_cshape(shape), dtype=object)
        a[...] = _plain(oarr(value)) if np.ndim(value) else as_s(value)
        return oarr(a.view(OArr))
    return np.full(shape, value, dtype, **k)


def _like(val):
    def f(a, dtype=None, **k):
        if isinstance(a, SymArr):
            v = as_s(val)
            return SymArr(a.shape, lambda i: v)
        if has_sym(a):
            raise Unsupported("like")
        if isinstance(a, np.ndarray) and raw_dtype(a).kind in "iub" and (
                dtype is None):
            return getattr(np, {0: "zeros_like", 1: "ones_like"}[val])(
                np.asarray(a)).view(NumArr)
        r = np.empty(np.shape(a), dtype=object)
        r.fill(as_s(val))
        return r.view(OArr)
    return f


def _array(x, dtype=None, copy=True, **k):
    if isinstance(x, SymArr):
        return x.copy()
    if has_sym(x):
        return stack(x, axis=0)
    if has_o(x):
        if dtype is not None and np.dtype(dtype).kind in "iub":
            return oarr(x).astype(dtype)
        r = oarr(x)
        return _wrap(_plain(r).copy())
    a = np.array(x, dtype=dtype, **k)
    if raw_dtype(a).kind in "fc" and np.all(np.isfinite(a)):
        # float arrays created during a symbolic run may receive symbolic
        # values later
        return oarr(a)
    return a


def _asarray(x, dtype=None, **k):
    if isinstance(x, (SymArr, OArr)):
        return x
    return _array(x, dtype, **k)


def np_sum(a, axis=None, **k):
    if isinstance(a, SymArr):
        return a.sum(axis=axis, **k)
    if has_sym(a):
        if isinstance(a, (list, tuple)):
            if axis == 0:
                r = a[0]
                for x in a[1:]:
                    r = sym_bin(r, x, lambda p, q: p + q)
                return r.copy() if isinstance(r, SymArr) else r
            if axis is None:
                r = ZERO
                for x in a:
                    r = r + (x.sum() if isinstance(x, SymArr) else as_s(x))
                return r
        raise Unsupported("sum")
    if has_o(a):
        return oarr(a).sum(axis=axis, **{x: k[x] for x in k
                                         if x == "keepdims"})
    return np.sum(a, axis=axis, **k)


def np_prod(a, axis=None, **k):
    if isinstance(a, SymArr):
        return a.prod(axis=axis)
    if has_sym(a):
        if isinstance(a, (list, tuple)) and axis == 0:
            r = a[0]
            for x in a[1:]:
                r = sym_bin(r, x, lambda p, q: p * q)
            return r.copy() if isinstance(r, SymArr) else r
        raise Unsupported("prod")
    if has_o(a):
        if isinstance(a, (list, tuple)) and all(
                isinstance(x, (S, numbers.Number)) for x in a):
            r = ONE
            for x in a:
                r = r * as_s(x)
            return r
        return oarr(a).prod(axis=axis)
    return np.prod(a, axis=axis, **k)


def np_dot(a, b, out=None):
    if has_sym(a) or has_sym(b):
        return symdot(a, b)
    if has_any(a, b):
        return odot(a, b)
    return np.dot(a, b)


def np_vdot(a, b):
    return np_dot(np_conj(ravel(a)), ravel(b))


def np_conj(a):
    if isinstance(a, (SymArr, S)):
        return a.conj()
    if has_o(a):
        return oarr(a).conj()
    return np.conj(a)


def np_real(a):
    if isinstance(a, (SymArr, S)):
        return a.real
    if has_o(a):
        return oarr(a).real
    return np.real(a)


def np_imag(a):
    if isinstance(a, (SymArr, S)):
        return a.imag
    if has_o(a):
        return oarr(a).imag
    return np.imag(a)


def np_abs(a, **k):
    if isinstance(a, (SymArr, S)):
        return abs(a)
    if has_o(a):
        return omap(sym.sabs, a)
    return np.abs(a)


def unary(name, f):
    real = getattr(np, name)

    def g(a, *args, **k):
        if isinstance(a, SymArr):
            return a.map(f)
        if isinstance(a, S):
            return f(a)
        if has_o(a):
            return omap(f, a)
        return real(a, *args, **k)
    return g


def where(c, a=None, b=None):
    if a is None:
        if has_any(c):
            raise Unsupported("where(cond)")
        return np.where(c)
    if has_sym(c) or has_sym(a) or has_sym(b):
        cc = to_sym_cond(c)
        a, b = to_sym(a), to_sym(b)
        ab = sym_bin(a, b, lambda x, y: x)
        r = _tern(cc, a, b)
        return r
    if has_any(c, a, b):
        if isinstance(c, Cond):
            if np.ndim(a) == 0 and np.ndim(b) == 0:
                return ite(c, as_s(a), as_s(b))
        c_ = _plain(c) if isinstance(c, np.ndarray) else np.asarray(c)
        a_, b_ = _plain(oarr(a)), _plain(oarr(b))
        c_, a_, b_ = np.broadcast_arrays(c_, a_, b_)
        r = np.empty(c_.shape, dtype=object)
        for ix in np.ndindex(*c_.shape):
            r[ix] = ite(as_cond(c_[ix]), as_s(a_[ix]), as_s(b_[ix]))
        return r.view(OArr) if r.shape else r[()]
    return np.where(c, a, b)


def to_sym_cond(c):
    if isinstance(c, SymArr):
        return c
    raise Unsupported("condition array")


def _tern(c, a, b):
    # broadcast a, b against c
    za = sym_bin(to_sym(a), c.map(lambda x: ZERO), lambda x, y: x + y)
    zb = sym_bin(to_sym(b), c.map(lambda x: ZERO), lambda x, y: x + y)
    fc, fa, fb = c.fn, to_sym(za).fn, to_sym(zb).fn
    return SymArr(c.shape, lambda i: ite(as_cond(fc(i)), as_s(fa(i)),
                                         as_s(fb(i))), a.cplx or b.cplx)


def maximum(a, b, **k):
    if has_sym(a) or has_sym(b):
        return sym_bin(a, b, smax)
    if has_any(a, b):
        return _obin(smax, a, b)
    return np.maximum(a, b, **k)


def minimum(a, b, **k):
    if has_sym(a) or has_sym(b):
        return sym_bin(a, b, smin)
    if has_any(a, b):
        return _obin(smin, a, b)
    return np.minimum(a, b, **k)


def iscomplexobj(x):
    if isinstance(x, SymArr):
        return x.cplx
    if isinstance(x, S):
        return not x.is_real()
    if has_o(x):
        return o_is_complex(oarr(x))
    return np.iscomplexobj(x)


def _isreal1(x):
    x = as_s(x)
    return True if x.is_real() else bool(x.imag == 0)


def isreal(x):
    if isinstance(x, S):
        return _isreal1(x)
    if isinstance(x, SymArr):
        raise Unsupported("isreal")
    if has_o(x):
        p = _plain(oarr(x))
        r = np.empty(p.shape, dtype=bool)
        for ix in np.ndindex(*p.shape):
            r[ix] = _isreal1(p[ix])
        return r
    return np.isreal(x)


def isscalar(x):
    return isinstance(x, S) or np.isscalar(x)


def np_size(x, axis=None):
    if isinstance(x, (SymArr, )):
        return x.size if axis is None else x.shape[axis]
    if isinstance(x, S):
        return 1
    return np.size(_plain(x) if isinstance(x, np.ndarray) else x, axis)


def np_shape(x):
    if isinstance(x, SymArr):
        return x.shape
    if isinstance(x, S):
        return ()
    return np.shape(_plain(x) if isinstance(x, np.ndarray) else x)


def np_ndim(x):
    if isinstance(x, SymArr):
        return x.ndim
    if isinstance(x, S):
        return 0
    return np.ndim(_plain(x) if isinstance(x, np.ndarray) else x)


def concatenate(xs, axis=0, **k):
    xs = list(xs)
    if has_sym(xs) or any(_is_symshape(np_shape(x)) for x in xs):
        xs = [to_sym(x) for x in xs]
        n = xs[0].ndim
        if axis is None:
            xs = [x.reshape(-1) for x in xs]
            axis, n = 0, 1
        axis = axis % n
        offs = [ZERO]
        for x in xs:
            offs.append(offs[-1] + as_s(x.shape[axis]))
        fns = [x.fn for x in xs]

        def f(i):
            v = i[axis]
            r = None
            for j in range(len(fns) - 1, -1, -1):
                ii = list(i)
                ii[axis] = v - offs[j]
                val = as_s(fns[j](tuple(ii)))
                if r is None:
                    r = val
                else:
                    r = ite(sym.cmp_("<", v, offs[j + 1]), val, r)
            return r
        shp = list(xs[0].shape)
        shp[axis] = norm_dim(offs[-1])
        r = SymArr(shp, f, any(x.cplx for x in xs))
        r.parts = (axis, xs)
        return r
    if has_o(xs):
        return _wrap(np.concatenate([_plain(oarr(x)) for x in xs], axis))
    r = np.concatenate(xs, axis, **k)
    return oarr(r) if raw_dtype(r).kind in "fc" else r


def stack(xs, axis=0, **k):
    xs = list(xs)
    if has_sym(xs):
        xs = [to_sym(x) for x in xs]
        n = xs[0].ndim + 1
        axis = axis % n
        fns = [x.fn for x in xs]
        for x in xs[1:]:
            if len(x.shape) != len(xs[0].shape):
                raise ValueError("inhomogeneous")

        def f(i):
            v = i[axis]
            rest = tuple(i[:axis]) + tuple(i[axis + 1:])
            c = v.as_int()
            if c is not None:
                return fns[c](rest)
            r = as_s(fns[-1](rest))
            for j in range(len(fns) - 2, -1, -1):
                r = ite(sym.cmp_("==", v, S.const(j)), as_s(fns[j](rest)), r)
            return r
        shp = list(xs[0].shape)
        shp.insert(axis, len(xs))
        return SymArr(shp, f, any(x.cplx for x in xs))
    if has_o(xs):
        return _wrap(np.stack([_plain(oarr(x)) for x in xs], axis))
    return np.stack(xs, axis, **k)


def vstack(xs):
    if has_sym(xs):
        xs = [x if x.ndim > 1 else x[None, :] for x in map(to_sym, xs)]
        return concatenate(xs, 0)
    if has_o(xs):
        return _wrap(np.vstack([_plain(oarr(x)) for x in xs]))
    return np.vstack(xs)


def hstack(xs):
    xs = list(xs)
    if has_sym(xs):
        xs = [to_sym(x) for x in xs]
        xs = [x.reshape(1) if x.ndim == 0 else x for x in xs]
        return concatenate(xs, 0 if xs[0].ndim == 1 else 1)
    if has_o(xs):
        return _wrap(np.hstack([_plain(oarr(x)) for x in xs]))
    return np.hstack(xs)


def reshape(a, shape, order="C"):
    if isinstance(a, SymArr):
        return a.reshape(shape, order=order)
    if isinstance(a, S) or has_o(a):
        return _wrap(np.reshape(_plain(oarr(a)), shape, order=order))
    return np.reshape(a, shape, order=order)


def ravel(a, order="C"):
    return reshape(a, -1, order)


def np_any(a, axis=None, **k):
    if has_o(a):
        return oarr(a).any(axis) if not isinstance(a, Cond) else a
    if has_sym(a):
        raise Unsupported("any")
    return np.any(a, axis=axis, **k)


def np_all(a, axis=None, **k):
    if has_o(a):
        return oarr(a).all(axis) if not isinstance(a, Cond) else a
    if has_sym(a):
        raise Unsupported("all")
    return np.all(a, axis=axis, **k)


def norm(x, ord=None, axis=None, keepdims=False):
    if not has_any(x):
        return np.linalg.norm(x, ord, axis, keepdims)
    if axis is not None:
        raise Unsupported("norm axis")
    x = ravel(x)
    if ord is None or ord == 2:
        return sym.power(np_sum(np_real(x * np_conj(x))), sym.HALF)
    if ord == 1:
        return np_sum(np_abs(x))
    if isinstance(ord, (int, float)) and ord not in (float("inf"),
                                                     -float("inf"), 0):
        return sym.power(np_sum(np_abs(x)**ord), S.const(1) / as_s(ord))
    raise Unsupported("norm ord")


def arange(*args, **k):
    if any(isinstance(a, S) and a.as_int() is None for a in args):
        if len(args) == 1:
            return SymArr((args[0], ), lambda i: i[0])
        if len(args) == 2:
            lo = as_s(args[0])
            return SymArr((as_s(args[1]) - lo, ), lambda i: i[0] + lo)
        raise Unsupported("arange step")
    args = [int(a) if isinstance(a, S) else a for a in args]
    return np.arange(*args, **k)


def roll(a, shift, axis=None):
    if isinstance(a, SymArr):
        if axis is None:
            if a.ndim != 1:
                raise Unsupported("roll flat")
            axis = 0
        n = as_s(a.shape[axis])
        g = a.fn

        def f(i):
            ii = list(i)
            ii[axis] = (ii[axis] - as_s(shift)) % n
            return g(tuple(ii))
        return SymArr(a.shape, f, a.cplx)
    if has_o(a):
        return _wrap(np.roll(_plain(oarr(a)), int(shift), axis))
    return np.roll(a, shift, axis)


def expand_dims(a, axis):
    if isinstance(a, SymArr):
        k = [slice(None)] * a.ndim
        k.insert(axis % (a.ndim + 1), None)
        return a[tuple(k)]
    if has_o(a):
        return _wrap(np.expand_dims(_plain(oarr(a)), axis))
    return np.expand_dims(a, axis)


def squeeze(a, axis=None):
    if isinstance(a, SymArr):
        return a.squeeze()
    if isinstance(a, S):
        return a
    if has_o(a):
        r = np.squeeze(_plain(oarr(a)), axis)
        return _wrap(r)
    return np.squeeze(a, axis)


def broadcast_to(a, shape, **k):
    if _is_symshape(shape) or isinstance(a, SymArr):
        return sym_bin(to_sym(a), _filler(0)(shape), lambda x, y: x + y)
    if has_o(a):
        return _wrap(np.broadcast_to(_plain(oarr(a)), _cshape(shape)))
    return np.broadcast_to(a, shape)


def outer(a, b):
    a, b = ravel(a), ravel(b)
    if has_sym([a, b]):
        fa, fb = to_sym(a).fn, to_sym(b).fn
        return SymArr((to_sym(a).shape[0], to_sym(b).shape[0]),
                      lambda i: as_s(fa((i[0], ))) * as_s(fb((i[1], ))))
    return oarr(a).reshape(-1, 1) * oarr(b).reshape(1, -1)


def np_diff(a, n=1, axis=-1):
    if isinstance(a, SymArr) and a.ndim == 1 and n == 1:
        return a[1:] - a[:-1]
    if has_o(a):
        return _wrap(np.diff(_plain(oarr(a)), n, axis))
    return np.diff(a, n, axis)


def np_copy(a, **k):
    if isinstance(a, SymArr):
        return a.copy()
    if has_o(a):
        return _wrap(_plain(oarr(a)).copy())
    return np.copy(a)


def transpose(a, axes=None):
    if isinstance(a, SymArr):
        return a.T if axes is None else a.transpose(*axes)
    if has_o(a):
        return _wrap(np.transpose(_plain(oarr(a)), axes))
    return np.transpose(a, axes)


def np_sign(a):
    from .arrays import sign
    if isinstance(a, SymArr):
        return a.map(sign, False)
    if isinstance(a, S):
        return sign(a)
    if has_o(a):
        return omap(sign, a)
    return np.sign(a)


def np_power(a, b):
    if has_sym(a) or has_sym(b):
        return sym_bin(a, b, sym.power)
    if has_any(a, b):
        return _obin(lambda x, y: sym.power(as_s(x), as_s(y)), a, b)
    return np.power(a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if has_any(a, b):
        d = np_abs(oarr(a) - oarr(b)) if not has_sym([a, b]) else None
        if d is None:
            raise Unsupported("allclose")
        bound = np_abs(oarr(b)) * rtol + atol
        return (oarr(d) <= bound).all()
    return np.allclose(a, b, rtol, atol, **k)


def array_equal(a, b, **k):
    if has_any(a, b):
        if np_shape(a) != np_shape(b):
            return False
        return (oarr(a) == oarr(b)).all()
    return np.array_equal(a, b, **k)


def np_max(a, axis=None, **k):
    if has_o(a):
        return oarr(a).max(axis)
    if has_sym(a):
        raise Unsupported("max")
    return np.max(a, axis=axis, **k)


def np_min(a, axis=None, **k):
    if has_o(a):
        return oarr(a).min(axis)
    if has_sym(a):
        raise Unsupported("min")
    return np.min(a, axis=axis, **k)


def np_mean(a, axis=None, **k):
    if isinstance(a, SymArr) or has_o(a):
        return (a if isinstance(a, SymArr) else oarr(a)).mean(axis)
    return np.mean(a, axis=axis, **k)


def isrealobj(x):
    return not iscomplexobj(x)


FUNCS = {
    "zeros": _filler(0), "ones": _filler(1), "empty": _filler(0),
    "full": _full, "zeros_like": _like(0), "ones_like": _like(1),
    "empty_like": _like(0), "array": _array, "asarray": _asarray,
    "sum": np_sum, "prod": np_prod, "product": np_prod, "dot": np_dot,
    "matmul": np_dot, "vdot": np_vdot, "conj": np_conj, "conjugate": np_conj,
    "real": np_real, "imag": np_imag, "abs": np_abs, "absolute": np_abs,
    "exp": unary("exp", sym.sexp), "log": unary("log", sym.slog),
    "sqrt": unary("sqrt", lambda x: sym.power(as_s(x), sym.HALF)),
    "square": unary("square", lambda x: as_s(x) * as_s(x)),
    "sin": unary("sin", lambda x: as_s(x).sin()),
    "cos": unary("cos", lambda x: as_s(x).cos()),
    "tanh": unary("tanh", lambda x: as_s(x).tanh()),
    "arctan": unary("arctan", lambda x: as_s(x).arctan()),
    "angle": unary("angle", sym.sarg),
    "where": where, "maximum": maximum, "minimum": minimum,
    "iscomplexobj": iscomplexobj, "isrealobj": isrealobj, "isreal": isreal,
    "iscomplex": lambda x: ~isreal(x) if not isinstance(isreal(x), bool)
    else not isreal(x),
    "isscalar": isscalar, "size": np_size, "shape": np_shape, "ndim": np_ndim,
    "concatenate": concatenate, "stack": stack, "vstack": vstack,
    "hstack": hstack, "reshape": reshape, "ravel": ravel, "any": np_any,
    "all": np_all, "arange": arange, "roll": roll, "clip": NP_clip,
    "expand_dims": expand_dims, "squeeze": squeeze,
    "broadcast_to": broadcast_to, "outer": outer, "diff": np_diff,
    "copy": np_copy, "transpose": transpose, "sign": np_sign,
    "power": np_power, "allclose": allclose, "array_equal": array_equal,
    "max": np_max, "amax": np_max, "min": np_min, "amin": np_min,
    "mean": np_mean, "norm": norm, "meshgrid": meshgrid, "split": np_split,
    "diag": np_diag, "equal": np_equal, "cumsum": np_cumsum,
    "append": append, "r_": _R(), "digitize": digitize, "ceil": np_ceil, "floor": np_floor,
    "unique": unique, "insert": np_insert, "sort": np_sort,
    "searchsorted": searchsorted, "interp": np_interp,
    "logical_and": _Logical(lambda a, b: cand(a, b), "logical_and"),
    "logical_or": _Logical(lambda a, b: sym.cor(a, b), "logical_or"),
}
_orig_clip = NP_clip


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, SymArr))

    def __subclasscheck__(cls, c):
        return issubclass(c, (np.ndarray, SymArr))

    def __call__(cls, *a, **k):
        return np.ndarray(*a, **k)


class NDArray(metaclass=_NDMeta):
    pass


class _Linalg:
    norm = staticmethod(norm)

    def __getattr__(self, k):
        return getattr(np.linalg, k)


class _NP(types.ModuleType):
    ndarray = NDArray
    linalg = _Linalg()

    def __getattr__(self, k):
        f = FUNCS.get(k)
        if f is not None:
            return f
        return getattr(np, k)


NP = _NP("numpy_facade")
EXTRA_PATCHES = []  # (module, attr, value)


_PAIRS = [(_rsp, SPARSE), (_rscipy, SCIPY), (_rsp.linalg, LINALG),
          (_rsp.linalg.LinearOperator, LINALG.LinearOperator),
          (_rsp.linalg.aslinearoperator, LINALG.aslinearoperator)]


# functions imported by name (`from numpy import diff`)
_BYID = {id(getattr(np, k)): f for k, f in FUNCS.items()
         if callable(getattr(np, k, None))}
_BACK = {id(f): getattr(np, k) for k, f in FUNCS.items()
         if callable(getattr(np, k, None))}


@contextlib.contextmanager
def symbolic(extra=()):
    """Runs the repository's code with the numpy proxy."""
    saved = []
    try:
        for name, mod in list(sys.modules.items()):
            if name.startswith("spins") and mod is not None:
                for attr in ("np", "numpy"):
                    if mod.__dict__.get(attr) is np:
                        saved.append((mod, attr, np))
                        setattr(mod, attr, NP)
                for attr, val in list(mod.__dict__.items()):
                    f = _BYID.get(id(val))
                    if f is not None:
                        saved.append((mod, attr, val))
                        setattr(mod, attr, f)
                        continue
                    for real, fake in _PAIRS:
                        if val is real:
                            saved.append((mod, attr, val))
                            setattr(mod, attr, fake)
        for mod, attr, val in extra:
            saved.append((mod, attr, getattr(mod, attr)))
            setattr(mod, attr, val)
        yield NP
    finally:
        for mod, attr, val in reversed(saved):
            setattr(mod, attr, val)


@contextlib.contextmanager
def concrete():
    """Inside `symbolic`: runs set-up code with the real numpy."""
    saved = []
    try:
        for name, mod in list(sys.modules.items()):
            if name.startswith("spins") and mod is not None:
                for attr in ("np", "numpy"):
                    if mod.__dict__.get(attr) is NP:
                        saved.append((mod, attr, NP))
                        setattr(mod, attr, np)
                for attr, val in list(mod.__dict__.items()):
                    f = _BACK.get(id(val))
                    if f is not None:
                        saved.append((mod, attr, val))
                        setattr(mod, attr, f)
                        continue
                    for real, fake in _PAIRS:
                        if val is fake:
                            saved.append((mod, attr, val))
                            setattr(mod, attr, real)
        yield
    finally:
        for mod, attr, val in saved:
            setattr(mod, attr, val)
