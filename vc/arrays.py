"""Arrays of symbolic scalars.

`OArr`   concrete shape, symbolic elements: a numpy object array.
`SymArr` symbolic shape (dimensions are integer terms): a map from index
         terms to a symbolic scalar; element-wise operations, reductions and
         in-place updates are exact for every size.
"""
import numbers

import numpy as np

from . import sym
from .sym import (S, Cond, ZERO, ONE, Unsupported, as_s, as_s_or_none, as_cond,
                  ite, cmp_, conj, sabs, sexp, slog, power, ssum, sprod,
                  fresh_index, cand, cnot, smax, smin, PATH)

numbers.Number.register(S)
numbers.Complex.register(S)


# --------------------------------------------------------------------- OArr
class IArr(np.ndarray):
    """Integer array that may be indexed by symbolic masks (which fork)."""

    def __getitem__(self, k):
        m = _cond_mask(k)
        return np.ndarray.__getitem__(self, k if m is None
                                      else _decide_mask(m))

    def __setitem__(self, k, v):
        m = _cond_mask(k)
        np.ndarray.__setitem__(self, k if m is None else _decide_mask(m), v)


def _reduce_cond(a, axis, f):
    p = np.moveaxis(np.asarray(_plain(a)), axis, -1)
    r = np.empty(p.shape[:-1], dtype=object)
    for ix in np.ndindex(*r.shape):
        row = np.empty(p.shape[-1], dtype=object)
        row[:] = list(p[ix])
        r[ix] = as_cond(f(row.view(OArr)))
    return r.view(OArr)


def _times_inf(a, b):
    """Constant array times an infinite scalar, as plain floats."""
    for x, y in ((a, b), (b, a)):
        if isinstance(y, float) and np.isinf(y) and isinstance(x, OArr):
            v = [as_s(t) for t in _plain(x).ravel()]
            if all(t.is_const() and t.cval()[0] and not t.cval()[1]
                   for t in v):
                return np.array([y if t.cval()[0] > 0 else -y for t in v]
                                ).reshape(x.shape)
    return None


class OArr(np.ndarray):
    """Object array of symbolic scalars."""
    __array_priority__ = 500

    def __array_finalize__(self, obj):
        pass

    @property
    def real(self):
        return omap(lambda x: as_s(x).real, self)

    @property
    def imag(self):
        return omap(lambda x: as_s(x).imag, self)

    def conj(self):
        return omap(lambda x: conj(x), self)

    conjugate = conj

    @property
    def dtype(self):
        return np.dtype(complex if o_is_complex(self) else float)

    def astype(self, dtype, *a, **k):
        dt = np.dtype(dtype)
        if dt == np.dtype(object) or dt.kind in "fc":
            return oarr(self.copy())
        if dt.kind in "iub":
            flat = [x for x in np.ndarray.flat.__get__(self)]
            if all(isinstance(x, Cond) for x in flat):
                return omap(lambda c: ite(c, ONE, ZERO), self)
            if all(as_s(x).as_int() is not None for x in flat):
                return np.array([as_s(x).as_int() for x in flat],
                                dtype=dt).reshape(self.shape).view(IArr)
        raise Unsupported("astype %s" % dtype)

    def __lt__(self, o):
        return _ocmp("<", self, o)

    def __le__(self, o):
        return _ocmp("<=", self, o)

    def __gt__(self, o):
        return _ocmp(">", self, o)

    def __ge__(self, o):
        return _ocmp(">=", self, o)

    def __eq__(self, o):
        return _ocmp("==", self, o)

    def __ne__(self, o):
        return _ocmp("!=", self, o)

    __hash__ = None

    def __getitem__(self, k):
        k = _fix_index(k, self)
        r = np.ndarray.__getitem__(self, k)
        return r

    def __setitem__(self, k, v):
        m = _cond_mask(k)
        if m is not None:
            if np.ndim(_plain(v)) != 0:
                # array of the selected entries: decide the mask (forks)
                np.ndarray.__setitem__(self, _decide_mask(m), v)
                return
            v = np.broadcast_to(_plain(v), self.shape)
            it = np.nditer(m, flags=["multi_index", "refs_ok"])
            mm = _plain(m)
            me = _plain(self)
            for _ in it:
                ix = it.multi_index
                me[ix] = ite(as_cond(mm[ix]), as_s(v[ix]), as_s(me[ix]))
            return
        k = _fix_index(k, self)
        np.ndarray.__setitem__(self, k, v)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return _wrap(np.add.reduce(_plain(self), axis=axis, keepdims=keepdims)
                     if axis is not None else _sumall(self))

    def prod(self, axis=None, **k):
        return _wrap(np.multiply.reduce(_plain(self), axis=axis)
                     if axis is not None else _prodall(self))

    def dot(self, o):
        return odot(self, o)

    def __matmul__(self, o):
        if hasattr(o, "__rmatmul__") and not isinstance(o, np.ndarray):
            return NotImplemented
        return odot(self, o)

    def __rmatmul__(self, o):
        return odot(o, self)

    def any(self, axis=None, **k):
        if axis is not None:
            return _reduce_cond(self, axis, lambda r: r.any())
        return sym.cor(*[as_cond(x) for x in _plain(self).ravel()]) \
            if self.size else sym.FALSE

    def all(self, axis=None, **k):
        if axis is not None:
            return _reduce_cond(self, axis, lambda r: r.all())
        return cand(*[as_cond(x) for x in _plain(self).ravel()])

    def max(self, axis=None, **k):
        return _reduce_minmax(self, axis, smax)

    def min(self, axis=None, **k):
        return _reduce_minmax(self, axis, smin)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def clip(self, lo=None, hi=None, **k):
        return NP_clip(self, lo, hi)

    def tolist(self):
        return _plain(self).tolist()

    def item(self, *a):
        return _plain(self).item(*a)

    def __invert__(self):
        return omap(lambda c: cnot(as_cond(c)), self)

    def __and__(self, o):
        return _obin(lambda a, b: cand(as_cond(a), as_cond(b)), self, o)

    __rand__ = __and__

    def __or__(self, o):
        return _obin(lambda a, b: sym.cor(as_cond(a), as_cond(b)), self, o)

    __ror__ = __or__

    def __pow__(self, e):
        return _obin(lambda a, b: power(as_s(a), as_s(b)), self, e)

    def __rpow__(self, b):
        return _obin(lambda a, c: power(as_s(c), as_s(a)), self, b)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        if method == "__call__":
            if name in ("less", "less_equal", "greater", "greater_equal",
                        "equal", "not_equal"):
                op = {"less": "<", "less_equal": "<=", "greater": ">",
                      "greater_equal": ">=", "equal": "==",
                      "not_equal": "!="}[name]
                return _ocmp(op, *inputs)
            if name in _UNARY and out is None:
                return omap(_UNARY[name], inputs[0])
            if name == "multiply" and out is None:
                r = _times_inf(*inputs)
                if r is not None:
                    return r
            if name in _BINARY and out is None:
                return _obin(_BINARY[name], *inputs)
            if name in ("maximum", "minimum"):
                return _obin(smax if name == "maximum" else smin, *inputs)
            if name == "matmul":
                return odot(*inputs)
        elif method == "reduce" and name == "add":
            return OArr.sum(oarr(inputs[0]), axis=kw.get("axis", None))
        elif method == "reduce" and name == "multiply":
            return OArr.prod(oarr(inputs[0]), axis=kw.get("axis", None))
        elif method == "reduce" and name in ("logical_or", "logical_and"):
            a = oarr(inputs[0])
            return a.any() if name == "logical_or" else a.all()
        elif method == "reduce" and name in ("maximum", "minimum"):
            a = oarr(inputs[0])
            return a.max(kw.get("axis")) if name == "maximum" else a.min(
                kw.get("axis"))
        ins = [_plain(x) if isinstance(x, np.ndarray) else x for x in inputs]
        if out is not None:
            outs = tuple(_plain(o) for o in out)
            if any(o.dtype != object for o in outs):
                raise Unsupported("in-place store into a numeric array")
            getattr(ufunc, method)(*ins, out=outs[0], **kw)
            return out[0]
        r = getattr(ufunc, method)(*ins, **kw)
        if isinstance(r, tuple):
            return tuple(_wrap(x) for x in r)
        return _wrap(r)

    def __array_function__(self, func, types, args, kwargs):
        from . import facade
        h = facade.FUNCS.get(func.__name__)
        if h is not None:
            return h(*args, **kwargs)

        def strip(x):
            if isinstance(x, OArr):
                return _plain(x)
            if isinstance(x, (list, tuple)):
                return type(x)(strip(y) for y in x)
            return x
        r = func(*[strip(a) for a in args],
                 **{k: strip(v) for k, v in kwargs.items()})
        if isinstance(r, (list, tuple)):
            return type(r)(_wrap(x) for x in r)
        return _wrap(r)


def _sumall(a):
    r = ZERO
    for x in _plain(a).ravel():
        r = r + as_s(x)
    return r


def _prodall(a):
    r = ONE
    for x in _plain(a).ravel():
        r = r * as_s(x)
    return r


def _plain(x):
    if isinstance(x, OArr):
        return np.ndarray.view(x, np.ndarray)
    if isinstance(x, np.ndarray):
        return x
    return x


def _wrap(r):
    if isinstance(r, np.ndarray) and np.ndarray.dtype.__get__(
            r) == np.dtype(object) and not isinstance(r, OArr):
        return r.view(OArr)
    return r


def raw_dtype(a):
    return np.ndarray.dtype.__get__(a)


def oarr(x, shape=None):
    """Any array-like to OArr with S elements."""
    if isinstance(x, OArr):
        return x
    if isinstance(x, S) or isinstance(x, numbers.Number):
        a = np.empty((), dtype=object)
        a[()] = as_s(x)
        return a.view(OArr)
    if isinstance(x, (list, tuple)):
        parts = [oarr(y) for y in x]
        if not parts:
            return np.empty((0, ), dtype=object).view(OArr)
        shp = parts[0].shape
        if any(p.shape != shp for p in parts):
            raise ValueError("inhomogeneous shape")
        a = np.empty((len(parts), ) + shp, dtype=object)
        for i, p in enumerate(parts):
            a[i] = _plain(p) if shp else _plain(p)[()]
        return a.view(OArr)
    x = np.asarray(x)
    a = np.empty(x.shape, dtype=object)
    for ix in np.ndindex(*x.shape):
        a[ix] = x[ix] if isinstance(x[ix], (S, Cond)) else as_s(x[ix])
    return a.view(OArr)


def omap(f, a):
    a = _plain(oarr(a))
    r = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        r[ix] = f(a[ix])
    if a.shape == ():
        return r[()]
    return r.view(OArr)


def _obin(f, a, b):
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        return NotImplemented
    a, b = _plain(oarr(a)), _plain(oarr(b))
    a, b = np.broadcast_arrays(a, b)
    r = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        r[ix] = f(a[ix], b[ix])
    if a.shape == ():
        return r[()]
    return r.view(OArr)


def _ocmp(op, a, b):
    if b is None:
        return op == "!="

    def f(x, y):
        x, y = as_s(x), as_s(y)
        if op == "<":
            return cmp_("<", x, y)
        if op == "<=":
            return cmp_("<=", x, y)
        if op == ">":
            return cmp_("<", y, x)
        if op == ">=":
            return cmp_("<=", y, x)
        c = cmp_("==", x, y)
        return c if op == "==" else cnot(c)
    return _obin(f, a, b)


def o_is_complex(a):
    for x in _plain(a).ravel():
        if isinstance(x, S) and not x.is_real():
            return True
    return False


def _cond_mask(k):
    if isinstance(k, np.ndarray) and raw_dtype(k) == np.dtype(
            object) and k.size and all(isinstance(x, Cond)
                                       for x in _plain(k).ravel()):
        return k
    return None


def _decide_mask(m):
    mm = _plain(m)
    return np.array([bool(as_cond(x)) for x in mm.ravel()],
                    dtype=bool).reshape(mm.shape)


def _fix_one(k):
    if isinstance(k, S):
        i = k.as_int()
        if i is None:
            raise Unsupported("symbolic index into a concrete-shape array")
        return i
    m = _cond_mask(k)
    if m is not None:
        return np.array([bool(c) for c in _plain(m).ravel()],
                        dtype=bool).reshape(m.shape)
    if isinstance(k, OArr):
        return k.astype(int)
    return k


def _fix_index(k, a):
    if isinstance(k, tuple):
        return tuple(_fix_one(x) for x in k)
    return _fix_one(k)


def _reduce_minmax(a, axis, f):
    p = _plain(a)
    if axis is None:
        xs = [as_s(x) for x in p.ravel()]
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    p = np.moveaxis(p, axis, 0)
    r = oarr(p[0])
    for q in p[1:]:
        r = _obin(f, r, q)
    return r


def odot(a, b):
    if isinstance(a, SymArr) or isinstance(b, SymArr):
        return symdot(a, b)
    a, b = _plain(oarr(a)), _plain(oarr(b))
    if a.ndim == 0 or b.ndim == 0:
        return _wrap(a * b)
    r = np.tensordot(a, b, axes=([a.ndim - 1], [max(b.ndim - 2, 0)])) \
        if False else _odot(a, b)
    return r


def _odot(a, b):
    if a.shape[-1] != b.shape[max(b.ndim - 2, 0)]:
        raise ValueError("shapes not aligned: %r %r" % (a.shape, b.shape))
    a2 = a.reshape(-1, a.shape[-1])
    b2 = np.moveaxis(b, max(b.ndim - 2, 0), 0).reshape(a.shape[-1], -1)
    r = np.empty((a2.shape[0], b2.shape[1]), dtype=object)
    for i in range(a2.shape[0]):
        for j in range(b2.shape[1]):
            s = ZERO
            for k in range(a2.shape[1]):
                s = s + as_s(a2[i, k]) * as_s(b2[k, j])
            r[i, j] = s
    bs = list(b.shape)
    bs.pop(max(b.ndim - 2, 0))
    r = r.reshape(a.shape[:-1] + tuple(bs))
    if r.shape == ():
        return r[()]
    return r.view(OArr)


def sign(x):
    x = as_s(x)
    return ite(cmp_("<", ZERO, x), ONE, ite(cmp_("<", x, ZERO), -ONE, ZERO))


_UNARY = {
    "absolute": sabs, "fabs": sabs, "exp": sexp, "log": slog,
    "sqrt": lambda x: power(as_s(x), sym.HALF),
    "square": lambda x: as_s(x) * as_s(x), "conjugate": conj,
    "sign": sign, "sin": lambda x: as_s(x).sin(),
    "cos": lambda x: as_s(x).cos(), "tanh": lambda x: as_s(x).tanh(),
    "arctan": lambda x: as_s(x).arctan(), "negative": lambda x: -as_s(x),
    "positive": lambda x: as_s(x), "reciprocal": lambda x: sym.inv(as_s(x)),
    "logical_not": lambda x: cnot(as_cond(x)),
    "isnan": lambda x: sym.FALSE, "isinf": lambda x: sym.FALSE,
    "isfinite": lambda x: sym.TRUE,
}
_BINARY = {
    "add": lambda a, b: as_s(a) + as_s(b),
    "subtract": lambda a, b: as_s(a) - as_s(b),
    "multiply": lambda a, b: as_s(a) * as_s(b),
    "divide": lambda a, b: as_s(a) / as_s(b),
    "true_divide": lambda a, b: as_s(a) / as_s(b),
    "power": lambda a, b: power(as_s(a), as_s(b)),
    "float_power": lambda a, b: power(as_s(a), as_s(b)),
    "logical_and": lambda a, b: cand(as_cond(a), as_cond(b)),
    "logical_or": lambda a, b: sym.cor(as_cond(a), as_cond(b)),
}


# ------------------------------------------------------------------- SymArr
def same_dim(a, b):
    return as_s(a).same(as_s(b))


def dim_eq(a, b):
    """Decides (with the path condition) whether two dims are equal."""
    if same_dim(a, b):
        return True
    return bool(cmp_("==", as_s(a), as_s(b)))


def norm_dim(d):
    if isinstance(d, S):
        i = d.as_int()
        return d if i is None else i
    return int(d)


class SymArr:
    """Array with symbolic shape."""
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, shape, fn, cplx=False):
        self.shape = tuple(norm_dim(d) for d in shape)
        self.fn = fn
        self.cplx = cplx

    # -- basics
    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = ONE
        for d in self.shape:
            r = r * as_s(d)
        i = r.as_int()
        return r if i is None else i

    @property
    def dtype(self):
        return np.dtype(complex if self.cplx else float)

    def __len__(self):
        d = self.shape[0]
        if isinstance(d, S):
            raise Unsupported("len() of a symbolic array")
        return d

    def __iter__(self):
        d = self.shape[0] if self.shape else None
        if d is None or isinstance(d, S):
            raise Unsupported("iteration over a symbolic array")
        return (self[i] for i in range(d))

    def at(self, *idx):
        return as_s(self.fn(tuple(as_s(i) for i in idx)))

    def copy(self, *a, **k):
        return SymArr(self.shape, self.fn, self.cplx)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, **k):
        if np.dtype(dtype).kind in "fcO":
            return self.copy()
        raise Unsupported("astype")

    def __array__(self, dtype=None):
        raise Unsupported("conversion of a symbolic array to numpy")

    def __bool__(self):
        raise Unsupported("truth of a symbolic array")

    def map(self, f, cplx=None):
        g = self.fn
        return SymArr(self.shape, lambda i: f(g(i)),
                      self.cplx if cplx is None else cplx)

    # -- arithmetic
    def _bin(self, o, f):
        return sym_bin(self, o, f)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a)

    def __pow__(self, o):
        return self._bin(o, lambda a, b: power(a, b))

    def __rpow__(self, o):
        return self._bin(o, lambda a, b: power(b, a))

    def __mod__(self, o):
        return self._bin(o, lambda a, b: a % b)

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: a // b)

    def __neg__(self):
        return self.map(lambda a: -a)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return self.map(sabs, False)

    def _inplace(self, r):
        if len(r.shape) != len(self.shape):
            raise ValueError("in-place broadcast")
        self.fn = r.fn
        self.cplx = self.cplx or r.cplx
        return self

    def __iadd__(self, o):
        return self._inplace(self + o)

    def __isub__(self, o):
        return self._inplace(self - o)

    def __imul__(self, o):
        return self._inplace(self * o)

    def __itruediv__(self, o):
        return self._inplace(self / o)

    def __lt__(self, o):
        return sym_bin(self, o, lambda a, b: cmp_("<", a, b), cond=True)

    def __le__(self, o):
        return sym_bin(self, o, lambda a, b: cmp_("<=", a, b), cond=True)

    def __gt__(self, o):
        return sym_bin(self, o, lambda a, b: cmp_("<", b, a), cond=True)

    def __ge__(self, o):
        return sym_bin(self, o, lambda a, b: cmp_("<=", b, a), cond=True)

    def __eq__(self, o):
        if o is None:
            return False
        return sym_bin(self, o, lambda a, b: cmp_("==", a, b), cond=True)

    def __ne__(self, o):
        if o is None:
            return True
        return sym_bin(self, o, lambda a, b: cnot(cmp_("==", a, b)),
                       cond=True)

    def conj(self):
        return self.map(conj)

    conjugate = conj

    @property
    def real(self):
        return self.map(lambda a: a.real, False)

    @property
    def imag(self):
        return self.map(lambda a: a.imag, False)

    @property
    def T(self):
        g = self.fn
        return SymArr(self.shape[::-1], lambda i: g(i[::-1]), self.cplx)

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            return self.T
        g = self.fn
        inv_ = [axes.index(k) for k in range(len(axes))]
        return SymArr(tuple(self.shape[a] for a in axes),
                      lambda i: g(tuple(i[k] for k in inv_)), self.cplx)

    # -- reductions
    def sum(self, axis=None, keepdims=False, **k):
        n = self.ndim
        if axis is None:
            axes = tuple(range(n))
        elif isinstance(axis, (tuple, list)):
            axes = tuple(a % n for a in axis)
        else:
            axes = (axis % n, )
        g = self.fn
        shape = self.shape
        keep = [a for a in range(n) if a not in axes]

        def f(i):
            full = [None] * n
            vs = []
            for k_, a in enumerate(keep):
                full[a] = i[k_]
            for a in axes:
                if isinstance(shape[a], int):
                    v = fresh_index(shape[a])
                else:
                    v = fresh_index(shape[a])
                full[a] = v
                vs.append((v, shape[a]))
            body = as_s(g(tuple(full)))
            for v, d in reversed(vs):
                body = ssum(v, d, body)
            return body
        if keepdims:
            return SymArr(tuple(1 if a in axes else shape[a]
                                for a in range(n)),
                          lambda i: f(tuple(i[a] for a in keep)), self.cplx)
        r = SymArr(tuple(shape[a] for a in keep), f, self.cplx)
        return r.fn(()) if r.ndim == 0 else r

    def prod(self, axis=None, **k):
        if axis is not None or self.ndim != 1:
            raise Unsupported("prod axis")
        v = fresh_index(self.shape[0])
        return sprod(v, self.shape[0], as_s(self.fn((v, ))))

    def mean(self, axis=None, **k):
        if axis is not None:
            raise Unsupported("mean axis")
        return self.sum() / as_s(self.size)

    def dot(self, o):
        return symdot(self, o)

    def __matmul__(self, o):
        return symdot(self, o)

    def __rmatmul__(self, o):
        return symdot(o, self)

    def flatten(self, order="C"):
        return self.reshape(-1, order=order)

    ravel = flatten

    def squeeze(self, axis=None):
        keep = [a for a in range(self.ndim) if self.shape[a] != 1]
        g, n = self.fn, self.ndim

        def f(i):
            full = [ZERO] * n
            for k, a in enumerate(keep):
                full[a] = i[k]
            return g(tuple(full))
        return SymArr(tuple(self.shape[a] for a in keep), f, self.cplx)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if any(isinstance(d, (int, np.integer)) and d == -1 for d in shape):
            if len(shape) == 1:
                if self.ndim == 1:
                    return self.copy_view()
                if self.ndim == 0:
                    g = self.fn
                    return SymArr((1, ), lambda i: g(()), self.cplx)
                return flatten_sym(self, order)
            known = ONE
            for d in shape:
                if not (isinstance(d, (int, np.integer)) and d == -1):
                    known = known * as_s(d)
            rest = as_s(self.size) / known
            shape = tuple(rest if isinstance(d, (int, np.integer)) and d == -1
                          else d for d in shape)
        shape = tuple(norm_dim(d) for d in shape)
        if len(shape) == self.ndim and all(
                same_dim(a, b) for a, b in zip(shape, self.shape)):
            return self.copy_view()
        return reshape_sym(self, shape, order)

    def copy_view(self):
        return SymArr(self.shape, lambda i: self.fn(i), self.cplx)

    # -- indexing
    def _parse(self, k):
        if not isinstance(k, tuple):
            k = (k, )
        n_real = sum(1 for x in k if x is not None and x is not Ellipsis)
        out = []
        for x in k:
            if x is Ellipsis:
                out.extend([slice(None)] * (self.ndim - n_real))
            else:
                out.append(x)
        while sum(1 for x in out if x is not None) < self.ndim:
            out.append(slice(None))
        return out

    def __getitem__(self, k):
        ks = self._parse(k)
        dims, maps = [], []
        a = 0
        for x in ks:
            if x is None:
                dims.append(1)
                maps.append(("new", ))
                continue
            n = self.shape[a]
            if isinstance(x, slice):
                lo, hi, st = parse_slice(x, n)
                dims.append(slice_len(lo, hi, st))
                maps.append(("slice", a, lo, st))
            elif isinstance(x, (SymArr, np.ndarray, list)):
                raise Unsupported("fancy indexing")
            else:
                maps.append(("int", a, norm_index(x, n)))
            a += 1
        nd = self.ndim
        base = self

        def f(i):
            full = [None] * nd
            j = 0
            for m in maps:
                if m[0] == "new":
                    j += 1
                elif m[0] == "slice":
                    full[m[1]] = m[2] + i[j] * m[3]
                    j += 1
                else:
                    full[m[1]] = m[2]
            return base.fn(tuple(as_s(z) for z in full))
        if not dims:
            return as_s(f(()))
        return SymArr(dims, f, self.cplx)

    def __setitem__(self, k, v):
        ks = self._parse(k)
        if len(ks) == 1 and isinstance(ks[0], SymArr):
            # mask
            m = ks[0]
            g = self.fn
            if isinstance(v, SymArr):
                raise Unsupported("masked assignment of an array")
            self.fn = lambda i: ite(as_cond(m.fn(i)), as_s(v), as_s(g(i)))
            return
        maps = []
        dims = []
        a = 0
        for x in ks:
            if x is None:
                raise Unsupported("newaxis in assignment")
            n = self.shape[a]
            if isinstance(x, slice):
                lo, hi, st = parse_slice(x, n)
                maps.append(("slice", lo, st, slice_len(lo, hi, st)))
                dims.append(slice_len(lo, hi, st))
            elif isinstance(x, (SymArr, np.ndarray, list)):
                raise Unsupported("fancy assignment")
            else:
                maps.append(("int", norm_index(x, n)))
            a += 1
        g = self.fn
        if isinstance(v, (SymArr, np.ndarray)):
            vv = to_sym(v)
        else:
            vv = None
        shape = self.shape
        if vv is not None:
            vfn, vshape = vv.fn, vv.shape

        def f(i):
            cond = sym.TRUE
            sub = []
            for m, x, n in zip(maps, i, shape):
                if m[0] == "int":
                    cond = cand(cond, cmp_("==", x, as_s(m[1])))
                else:
                    _, lo, st, ln = m
                    if as_s(lo).same(ZERO) and as_s(st).same(
                            ONE) and same_dim(ln, n):
                        sub.append(x)
                        continue
                    if not as_s(st).same(ONE):
                        raise Unsupported("strided assignment")
                    off = x - lo
                    cond = cand(cond, cmp_("<=", ZERO, off),
                                cmp_("<", off, as_s(ln)))
                    sub.append(off)
            if cond.op == "false":
                return g(i)
            if vv is None:
                val = as_s(v)
            else:
                ix = []
                off = len(sub) - len(vshape)
                for kk, d in enumerate(vshape):
                    ix.append(ZERO if isinstance(d, int) and d == 1 else
                              sub[off + kk])
                val = as_s(vfn(tuple(ix)))
            return ite(cond, val, as_s(g(i)))
        self.fn = f
        if vv is not None and vv.cplx:
            self.cplx = True

    # numpy protocols
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        if method == "__call__" and out is None:
            if name in _UNARY:
                cplx = False if name in ("absolute", "fabs") else None
                return to_sym(inputs[0]).map(lambda x: _UNARY[name](x), cplx)
            if name in _BINARY:
                return sym_bin(inputs[0], inputs[1], _BINARY[name])
            if name in ("maximum", "minimum"):
                return sym_bin(inputs[0], inputs[1],
                               smax if name == "maximum" else smin)
            if name in _CMPU:
                return sym_bin(inputs[0], inputs[1], _CMPU[name], cond=True)
            if name == "matmul":
                return symdot(*inputs)
        if method == "__call__" and out is not None:
            r = self.__array_ufunc__(ufunc, method, *inputs)
            if isinstance(out[0], SymArr):
                return out[0]._inplace(r)
        if method == "reduce" and name == "add":
            return to_sym(inputs[0]).sum(axis=kw.get("axis"))
        raise Unsupported("ufunc %s.%s on a symbolic array" % (name, method))

    def __array_function__(self, func, types, args, kwargs):
        from . import facade
        h = facade.FUNCS.get(func.__name__)
        if h is not None:
            return h(*args, **kwargs)
        raise Unsupported("numpy.%s on a symbolic array" % func.__name__)

    def __repr__(self):
        vs = [fresh_index(d) for d in self.shape]
        try:
            return "SymArr%r{%r}" % (self.shape, self.fn(tuple(vs)))
        except Exception:
            return "SymArr%r" % (self.shape, )


_CMPU = {
    "less": lambda a, b: cmp_("<", a, b),
    "less_equal": lambda a, b: cmp_("<=", a, b),
    "greater": lambda a, b: cmp_("<", b, a),
    "greater_equal": lambda a, b: cmp_("<=", b, a),
    "equal": lambda a, b: cmp_("==", a, b),
    "not_equal": lambda a, b: cnot(cmp_("==", a, b)),
}


def norm_index(x, n):
    if isinstance(x, S):
        i = x.as_int()
        if i is None:
            return x
        x = i
    x = int(x)
    if x < 0:
        return as_s(n) + x
    return S.const(x)


def parse_slice(sl, n):
    st = 1 if sl.step is None else int(sl.step)
    if st < 0:
        if sl.start is None and sl.stop is None and st == -1:
            return as_s(n) - 1, -ONE, S.const(-1)
        raise Unsupported("negative step")
    lo = ZERO if sl.start is None else norm_index(sl.start, n)
    hi = as_s(n) if sl.stop is None else norm_index(sl.stop, n)
    # clip when both are constants
    if hi.as_int() is not None and as_s(n).as_int() is not None:
        hi = S.const(min(hi.as_int(), as_s(n).as_int()))
    elif not hi.same(as_s(n)):
        if bool(cmp_("<", as_s(n), hi)):
            hi = as_s(n)
    return lo, hi, S.const(st)


def slice_len(lo, hi, st):
    s = st.as_int()
    d = hi - lo
    if s == -1:
        return norm_dim(lo - hi)
    if s == 1:
        return norm_dim(d)
    i = d.as_int()
    if i is not None:
        return max(0, -(-i // s))
    raise Unsupported("strided symbolic slice")


def to_sym(x):
    if isinstance(x, SymArr):
        return x
    if isinstance(x, (S, numbers.Number)):
        v = as_s(x)
        return SymArr((), lambda i: v, not v.is_real())
    if isinstance(x, (list, tuple)):
        x = oarr(x)
    if isinstance(x, np.ndarray):
        p = _plain(x)
        if p.ndim == 0:
            v = as_s(p[()])
            return SymArr((), lambda i: v, not v.is_real())

        cp = oarr(x)
        cplx = o_is_complex(cp)
        cp = _plain(cp)

        def f(i):
            ii = [k.as_int() for k in i]
            if all(k is not None for k in ii):
                return as_s(cp[tuple(ii)])
            # symbolic index into a concrete array: case expression
            r = ZERO
            for ix in np.ndindex(*cp.shape):
                c = sym.TRUE
                for k, v in zip(i, ix):
                    c = cand(c, cmp_("==", k, S.const(v)))
                r = r + ite(c, as_s(cp[ix]), ZERO)
            return r
        return SymArr(p.shape, f, cplx)
    raise Unsupported("array from %r" % type(x))


def sym_bin(a, b, f, cond=False):
    if a is NotImplemented or b is NotImplemented:
        return NotImplemented
    if not isinstance(a, (SymArr, S, numbers.Number, np.ndarray, list, tuple,
                          Cond)) or not isinstance(
                              b, (SymArr, S, numbers.Number, np.ndarray, list,
                                  tuple, Cond)):
        return NotImplemented
    if isinstance(a, Cond):
        a = ite(a, ONE, ZERO)
    if isinstance(b, Cond):
        b = ite(b, ONE, ZERO)
    a, b = to_sym(a), to_sym(b)
    n = max(a.ndim, b.ndim)
    shape = []
    sa, sb = [], []
    for k in range(n):
        da = a.shape[k - (n - a.ndim)] if k >= n - a.ndim else None
        db = b.shape[k - (n - b.ndim)] if k >= n - b.ndim else None
        if da is None:
            shape.append(db)
            sb.append("k")
        elif db is None:
            shape.append(da)
            sa.append("k")
        else:
            if same_dim(da, db):
                shape.append(da)
                sa.append("k")
                sb.append("k")
            elif isinstance(da, int) and da == 1:
                shape.append(db)
                sa.append("1")
                sb.append("k")
            elif isinstance(db, int) and db == 1:
                shape.append(da)
                sa.append("k")
                sb.append("1")
            elif dim_eq(da, db):
                shape.append(da)
                sa.append("k")
                sb.append("k")
            elif dim_eq(da, 1):
                shape.append(db)
                sa.append("1")
                sb.append("k")
            elif dim_eq(db, 1):
                shape.append(da)
                sa.append("k")
                sb.append("1")
            else:
                raise ValueError("operands could not be broadcast together")
    fa, fb = a.fn, b.fn
    na, nb = a.ndim, b.ndim

    def g(i):
        ia = tuple(x if m == "k" else ZERO
                   for x, m in zip(i[n - na:], sa))
        ib = tuple(x if m == "k" else ZERO
                   for x, m in zip(i[n - nb:], sb))
        x, y = fa(ia), fb(ib)
        if not isinstance(x, S):
            x = as_s(x)
        if not isinstance(y, S):
            y = as_s(y)
        return f(x, y)
    r = SymArr(shape, g, (a.cplx or b.cplx) and not cond)
    if n == 0:
        return g(())
    return r


def symdot(a, b):
    a, b = to_sym(a), to_sym(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    d = a.shape[-1]
    bd = b.shape[max(b.ndim - 2, 0)]
    if not dim_eq(d, bd):
        raise ValueError("shapes not aligned")
    fa, fb = a.fn, b.fn
    oa = a.shape[:-1]
    ob = list(b.shape)
    pos = max(b.ndim - 2, 0)
    ob.pop(pos)

    def g(i):
        v = fresh_index(d)
        ia = tuple(i[:len(oa)]) + (v, )
        ib = list(i[len(oa):])
        ib.insert(pos, v)
        return ssum(v, d, as_s(fa(ia)) * as_s(fb(tuple(ib))))
    r = SymArr(oa + tuple(ob), g, a.cplx or b.cplx)
    return g(()) if r.ndim == 0 else r


# flattening keeps the multi-index structure in an "unflatten" record so that
# flatten/reshape round trips are exact for symbolic shapes.
def flatten_sym(a, order="C"):
    shape = a.shape
    g = a.fn
    size = a.size

    def f(i):
        return g(unravel(i[0], shape, order))
    r = SymArr((size, ), f, a.cplx)
    r.unflat = (shape, order, g)
    return r


def unravel(i, shape, order):
    dims = list(shape)
    idx = [None] * len(dims)
    rng = range(len(dims) - 1, -1, -1) if order == "C" else range(len(dims))
    rest = as_s(i)
    rng = list(rng)
    for k in rng[:-1]:
        d = as_s(dims[k])
        q, r = divmod_sym(rest, d)
        idx[k] = r
        rest = q
    idx[rng[-1]] = rest
    return tuple(idx)


def divmod_sym(a, n):
    """a = q n + r using INDEX_DIM knowledge, else opaque fdiv/mod."""
    q, r = ZERO, ZERO
    ok = True
    if len(n.t) == 1:
        (mn, cn), = n.t.items()
        for m, c in a.t.items():
            d = dict(m)
            if mn and all(d.get(x, 0) >= e for x, e in mn) and not c[1] and (
                    c[0] / cn[0]).denominator == 1:
                for x, e in mn:
                    d[x] -= e
                    if not d[x]:
                        del d[x]
                q = q + S({tuple(sorted(d.items(), key=lambda kv: kv[0].id)):
                           (c[0] / cn[0], sym.F0)})
            elif not mn and (c[0] / cn[0]).denominator == 1:
                q = q + S({m: (c[0] / cn[0], sym.F0)})
            else:
                r = r + S({m: c})
        # remainder must be a known index 0 <= r < n
        if not r.t:
            return q, ZERO
        if sym.in_range_guard(r, n).same(ONE):
            return q, r
        if z3_in_range(r, n):
            return q, r
    i, k = a.as_int(), n.as_int()
    if i is not None and k is not None:
        return S.const(i // k), S.const(i % k)
    return a // n, a % n


def z3_in_range(r, n):
    from .prove import z3_valid
    goal = cand(cmp_("<=", ZERO, r), cmp_("<", r, n))
    if goal.op == "true":
        return True
    if goal.op == "false":
        return False
    return bool(z3_valid(list(PATH.conds), goal, 1000))


def reshape_sym(a, shape, order="C"):
    uf = getattr(a, "unflat", None)
    g = a.fn
    if a.ndim == 1:
        def f(i):
            # ravel index
            lin = ZERO
            dims = list(shape)
            rng = range(len(dims)) if order == "C" else range(
                len(dims) - 1, -1, -1)
            for k in rng:
                lin = lin * as_s(dims[k]) + i[k]
            return g((lin, ))
        return SymArr(shape, f, a.cplx)
    return reshape_sym(flatten_sym(a, order), shape, order) if len(
        shape) != 1 else flatten_sym(a, order)


class _Inf:
    """An infinite bound (never an entry of a symbolic array)."""
    def __init__(self, v):
        self.v = v


def _bound(b):
    if isinstance(b, (S, SymArr)) or isinstance(b, OArr):
        return b
    a = np.array(b, dtype=object)
    r = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        x = a[ix]
        r[ix] = _Inf(x) if isinstance(x, (float, np.floating)) and np.isinf(
            x) else as_s(x)
    return r.view(OArr) if a.shape else r[()]


def _bmax(x, b):
    if isinstance(b, _Inf):
        if b.v > 0:
            raise Unsupported("clip to infinity")
        return x
    return smax(x, b)


def _bmin(x, b):
    if isinstance(b, _Inf):
        if b.v < 0:
            raise Unsupported("clip to infinity")
        return x
    return smin(x, b)


def NP_clip(a, lo, hi):
    if isinstance(a, SymArr):
        r = a
        if lo is not None:
            r = sym_bin(r, lo, smax)
        if hi is not None:
            r = sym_bin(r, hi, smin)
        return r
    r = oarr(a)
    if lo is not None:
        b = _bound(lo)
        r = _obin(_bmax, r, b) if not isinstance(b, _Inf) else omap(
            lambda x: _bmax(x, b), r)
    if hi is not None:
        h = _bound(hi)
        r = _obin(_bmin, r, h) if not isinstance(h, _Inf) else omap(
            lambda x: _bmin(x, h), r)
    return r
