"""scipy.sparse as seen by the code under verification in a symbolic run.

A matrix is a dictionary from index pairs to symbolic scalars; duplicate
entries of a constructor add up, as in scipy. All products, sums, stacks and
reshapes are exact.
"""
import types

import numpy as np
import scipy.sparse as real_sparse

from .sym import S, ZERO, ONE, Unsupported, as_s, conj
from .arrays import OArr, SymArr, oarr, _plain, raw_dtype


def _scalar(x):
    return isinstance(x, (S, int, float, complex, np.number)) or (
        isinstance(x, np.ndarray) and x.ndim == 0)


class _Meta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x) or real_sparse.issparse(x)


class SpMat(metaclass=_Meta):
    __array_ufunc__ = None
    __array_priority__ = 1000
    ndim = 2

    def __init__(self, shape, d=None):
        self.shape = (int(shape[0]), int(shape[1]))
        self.d = d if d is not None else {}

    # -- construction
    @staticmethod
    def of(a):
        if type(a) is SpMat:
            return a
        if real_sparse.issparse(a):
            c = a.tocoo()
            m = SpMat(c.shape)
            for i, j, v in zip(c.row, c.col, c.data):
                m._add(int(i), int(j), as_s(v.item()))
            return m
        a = np.asarray(_plain(oarr(a)))
        if a.ndim == 1:
            a = a[None, :]
        m = SpMat(a.shape)
        for (i, j) in np.ndindex(*a.shape):
            v = as_s(a[i, j])
            if v.t:
                m.d[i, j] = v
        return m

    def _add(self, i, j, v):
        o = self.d.get((i, j))
        v = v if o is None else o + v
        if v.t:
            self.d[i, j] = v
        else:
            self.d.pop((i, j), None)

    def _map(self, f):
        d = {}
        for k, v in self.d.items():
            w = f(v)
            if w.t:
                d[k] = w
        return SpMat(self.shape, d)

    # -- attributes
    @property
    def T(self):
        return SpMat(self.shape[::-1],
                     {(j, i): v for (i, j), v in self.d.items()})

    def transpose(self, *a, **k):
        return self.T

    def conj(self, *a, **k):
        return self._map(conj)

    conjugate = conj

    @property
    def H(self):
        return self.T.conj()

    def getH(self):
        return self.H

    @property
    def real(self):
        return self._map(lambda v: v.real)

    @property
    def imag(self):
        return self._map(lambda v: v.imag)

    @property
    def nnz(self):
        return len(self.d)

    @property
    def dtype(self):
        return np.dtype(complex if any(not v.is_real() for v in
                                       self.d.values()) else float)

    @property
    def data(self):
        return oarr([self.d[k] for k in sorted(self.d)]) if self.d else \
            np.zeros(0)

    def _self(self, *a, **k):
        return self

    tocsr = tocsc = tocoo = tolil = todia = tobsr = asformat = _self
    sort_indices = sum_duplicates = eliminate_zeros = _self

    def astype(self, *a, **k):
        return self

    def copy(self):
        return SpMat(self.shape, dict(self.d))

    def toarray(self, *a, **k):
        r = np.empty(self.shape, dtype=object)
        r.fill(ZERO)
        for k, v in self.d.items():
            r[k] = v
        return r.view(OArr)

    todense = toarray

    @property
    def A(self):
        return self.toarray()

    def diagonal(self, k=0):
        if k:
            raise Unsupported("diagonal(k)")
        n = min(self.shape)
        return oarr([self.d.get((i, i), ZERO) for i in range(n)])

    def nonzero(self):
        ks = sorted(self.d)
        return (np.array([k[0] for k in ks], dtype=int),
                np.array([k[1] for k in ks], dtype=int))

    def getnnz(self, axis=None):
        if axis is None:
            return len(self.d)
        r = np.zeros(self.shape[1 - axis], dtype=int)
        for k in self.d:
            r[k[1 - axis]] += 1
        return r

    def sum(self, axis=None):
        if axis is None:
            r = ZERO
            for v in self.d.values():
                r = r + v
            return r
        n = self.shape[1 - axis]
        out = [ZERO] * n
        for k, v in self.d.items():
            out[k[1 - axis]] = out[k[1 - axis]] + v
        a = oarr(out)
        return a.reshape((1, n) if axis == 0 else (n, 1))

    # -- arithmetic
    def __neg__(self):
        return self._map(lambda v: -v)

    def __add__(self, o):
        if _scalar(o):
            if as_s(o).t:
                raise Unsupported("sparse + scalar")
            return self
        if isinstance(o, np.ndarray):
            return self.toarray() + o
        if not isinstance(o, SpMat):
            return NotImplemented
        o = SpMat.of(o)
        if o.shape != self.shape:
            raise ValueError("inconsistent shapes")
        r = self.copy()
        for (i, j), v in o.d.items():
            r._add(i, j, v)
        return r

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def _matmul(self, o):
        if isinstance(o, SpMat):
            o = SpMat.of(o)
            if self.shape[1] != o.shape[0]:
                raise ValueError("dimension mismatch")
            rows = {}
            for (k, j), v in o.d.items():
                rows.setdefault(k, []).append((j, v))
            r = SpMat((self.shape[0], o.shape[1]))
            for (i, k), a in self.d.items():
                for j, v in rows.get(k, ()):
                    r._add(i, j, a * v)
            return r
        if isinstance(o, SymArr):
            raise Unsupported("sparse @ array of symbolic size")
        o = oarr(o) if not isinstance(o, np.ndarray) or raw_dtype(
            o) != np.dtype(object) else o
        p = _plain(o)
        if p.shape[0] != self.shape[1]:
            raise ValueError("dimension mismatch")
        out = np.empty((self.shape[0], ) + p.shape[1:], dtype=object)
        out.fill(ZERO)
        for (i, j), v in sorted(self.d.items(), key=lambda kv: kv[0]):
            if p.ndim == 1:
                out[i] = out[i] + v * as_s(p[j])
            else:
                for ix in np.ndindex(*p.shape[1:]):
                    out[(i, ) + ix] = out[(i, ) + ix] + v * as_s(
                        p[(j, ) + ix])
        return out.view(OArr)

    def __matmul__(self, o):
        if _scalar(o):
            raise ValueError("Scalar operands are not allowed")
        return self._matmul(o)

    def __rmatmul__(self, o):
        if _scalar(o):
            raise ValueError("Scalar operands are not allowed")
        if isinstance(o, SpMat):
            return SpMat.of(o)._matmul(self)
        o = oarr(o)
        if o.ndim == 1:
            return self.T._matmul(o)
        return self.T._matmul(o.T).T

    def __mul__(self, o):
        if _scalar(o):
            c = as_s(o.item() if isinstance(o, np.ndarray) else o)
            return self._map(lambda v: v * c)
        return self._matmul(o)

    def __rmul__(self, o):
        if _scalar(o):
            return self * o
        return self.__rmatmul__(o)

    def dot(self, o):
        return self * o

    matvec = matmat = dot

    def __truediv__(self, o):
        if _scalar(o):
            c = as_s(o)
            return self._map(lambda v: v / c)
        return NotImplemented

    def multiply(self, o):
        if _scalar(o):
            return self * o
        o = SpMat.of(o)
        if o.shape == self.shape:
            return SpMat(self.shape, {k: v * o.d[k] for k, v in
                                      self.d.items() if k in o.d})
        if o.shape[0] == 1 and o.shape[1] == self.shape[1]:
            return SpMat(self.shape, {k: v * o.d[0, k[1]] for k, v in
                                      self.d.items() if (0, k[1]) in o.d})
        if o.shape[1] == 1 and o.shape[0] == self.shape[0]:
            return SpMat(self.shape, {k: v * o.d[k[0], 0] for k, v in
                                      self.d.items() if (k[0], 0) in o.d})
        raise Unsupported("multiply")

    def __getitem__(self, k):
        a = self.toarray()[k]
        if isinstance(a, np.ndarray):
            if a.ndim == 2:
                return SpMat.of(a)
            raise Unsupported("sparse indexing %r" % (k, ))
        return a

    def __setitem__(self, k, v):
        a = self.toarray()
        a[k] = v if not isinstance(v, SpMat) else SpMat.of(v).toarray()
        self.d = SpMat.of(a).d

    def __len__(self):
        raise TypeError("sparse matrix length is ambiguous")

    def __bool__(self):
        raise ValueError("truth value of a sparse matrix is ambiguous")


def matrix(arg, shape=None, dtype=None, copy=False):
    if isinstance(arg, SpMat):
        return SpMat.of(arg).copy()
    if isinstance(arg, tuple) and len(arg) == 2:
        if all(isinstance(x, (int, np.integer)) for x in arg):
            return SpMat(arg)
        if isinstance(arg[1], tuple) or (isinstance(
                arg[1], (list, np.ndarray)) and len(arg[1]) == 2):
            data, (ri, ci) = arg
            data = list(_plain(oarr(data)).ravel())
            ri = [int(as_s(x).as_int()) if isinstance(x, S) else int(x)
                  for x in np.ravel(_plain(ri) if isinstance(ri, OArr)
                                    else ri)]
            ci = [int(as_s(x).as_int()) if isinstance(x, S) else int(x)
                  for x in np.ravel(_plain(ci) if isinstance(ci, OArr)
                                    else ci)]
            if not len(data) == len(ri) == len(ci):
                raise ValueError("row, column, and data array must all be "
                                 "the same length")
            if shape is None:
                shape = (max(ri) + 1, max(ci) + 1)
            m = SpMat(shape)
            for i, j, v in zip(ri, ci, data):
                if not (0 <= i < m.shape[0] and 0 <= j < m.shape[1]):
                    raise ValueError("index exceeds matrix dimensions")
                m._add(i, j, as_s(v))
            return m
    if isinstance(arg, tuple) and len(arg) == 3:
        data, idx, ptr = arg
        raise Unsupported("csr (data, indices, indptr)")
    return SpMat.of(arg)


def eye(m, n=None, k=0, dtype=float, format=None):
    n = m if n is None else n
    return SpMat((m, n), {(i, i + k): ONE for i in range(int(m))
                          if 0 <= i + k < n})


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if isinstance(offsets, (int, np.integer)):
        d = diagonals
        if isinstance(d, (list, tuple)) and len(d) and np.ndim(
                _plain(oarr(d[0]))) == 1:
            d = d[0]
        elif isinstance(d, np.ndarray) and d.ndim == 2:
            d = d[0]
        diagonals, offsets = [d], [offsets]
    dl = [list(_plain(oarr(d)).ravel()) if np.ndim(_plain(oarr(d))) else
          [d] for d in diagonals]
    if shape is None:
        n = len(dl[0]) + abs(int(offsets[0]))
        shape = (n, n)
    m = SpMat(shape)
    for d, k in zip(dl, offsets):
        k = int(k)
        length = min(shape[0] + min(k, 0), shape[1] - max(k, 0))
        if length < 0:
            raise ValueError("Offset out of bounds")
        if len(d) == 1:
            d = d * length
        if len(d) < length:
            raise ValueError("Diagonal length does not agree")
        for t in range(length):
            m._add(max(-k, 0) + t, max(k, 0) + t, as_s(d[t]))
    return m


def spdiags(data, diags_, m=None, n=None, format=None):
    if m is None:
        raise Unsupported("spdiags")
    if n is None:
        m, n = m
    data = _plain(oarr(data))
    if data.ndim == 1:
        data = data[None]
    out = SpMat((m, n))
    for row, k in zip(data, np.atleast_1d(diags_)):
        for j in range(len(row)):
            i = j - int(k)
            if 0 <= i < m and j < n:
                out._add(i, j, as_s(row[j]))
    return out


def dia_matrix(arg, shape=None, **k):
    if isinstance(arg, tuple) and len(arg) == 2 and not all(
            isinstance(x, (int, np.integer)) for x in arg):
        return spdiags(arg[0], arg[1], *shape)
    return matrix(arg, shape)


def kron(a, b, format=None):
    a, b = SpMat.of(a), SpMat.of(b)
    m = SpMat((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))
    for (i, j), v in a.d.items():
        for (p, q), w in b.d.items():
            m.d[i * b.shape[0] + p, j * b.shape[1] + q] = v * w
    return m


def bmat(blocks, format=None, dtype=None):
    blocks = [[None if b is None else SpMat.of(b) for b in row]
              for row in blocks]
    hs = [None] * len(blocks)
    ws = [None] * len(blocks[0])
    for i, row in enumerate(blocks):
        for j, b in enumerate(row):
            if b is None:
                continue
            for arr, q, s in ((hs, i, b.shape[0]), (ws, j, b.shape[1])):
                if arr[q] is None:
                    arr[q] = s
                elif arr[q] != s:
                    raise ValueError("incompatible block dimensions")
    if None in hs or None in ws:
        raise ValueError("all-None row or column")
    ro = np.concatenate([[0], np.cumsum(hs)])
    co = np.concatenate([[0], np.cumsum(ws)])
    m = SpMat((ro[-1], co[-1]))
    for i, row in enumerate(blocks):
        for j, b in enumerate(row):
            if b is not None:
                for (p, q), v in b.d.items():
                    m.d[int(ro[i]) + p, int(co[j]) + q] = v
    return m


def vstack(xs, format=None, dtype=None):
    return bmat([[x] for x in xs])


def hstack(xs, format=None, dtype=None):
    return bmat([list(xs)])


def block_diag(xs, format=None, dtype=None):
    xs = [SpMat.of(x) for x in xs]
    m = SpMat((sum(x.shape[0] for x in xs), sum(x.shape[1] for x in xs)))
    r = c = 0
    for x in xs:
        for (i, j), v in x.d.items():
            m.d[i + r, j + c] = v
        r, c = r + x.shape[0], c + x.shape[1]
    return m


def issparse(x):
    return isinstance(x, SpMat)


class _CallMeta(_Meta):
    def __call__(cls, *a, **k):
        return cls.make(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, SpMat)


def _cls(f):
    return _CallMeta("matrix", (), {"make": staticmethod(f)})


class LinearOperator:
    """Model of scipy's LinearOperator over symbolic vectors."""
    def __init__(self, shape, matvec=None, rmatvec=None, dtype=None, **k):
        self.shape = tuple(int(n) for n in shape)
        self._mv, self._rmv = matvec, rmatvec

    def _app(self, f, v, n, what):
        if f is None:
            raise NotImplementedError("%s is not defined" % what)
        if np.shape(v) == (n, ):
            return oarr(f(v))
        if len(np.shape(v)) == 2 and np.shape(v)[0] == n:
            cols = [oarr(f(v[:, [j]])).reshape(-1)
                    for j in range(np.shape(v)[1])]
            r = np.empty((len(cols[0]), len(cols)), dtype=object)
            for j, c in enumerate(cols):
                r[:, j] = np.asarray(c, dtype=object)
            return r.view(OArr)
        raise ValueError("dimension mismatch")

    def matvec(self, v):
        return self._app(self._mv, v, self.shape[1], "matvec")

    def rmatvec(self, v):
        return self._app(self._rmv, v, self.shape[0], "rmatvec")

    matmat, rmatmat = matvec, rmatvec

    @property
    def H(self):
        return LinearOperator(self.shape[::-1], self._rmv, self._mv)

    adjoint = H

    @property
    def T(self):
        c = np_conj_
        return LinearOperator(self.shape[::-1],
                              lambda v: c(self.rmatvec(c(v))),
                              lambda v: c(self.matvec(c(v))))

    def dot(self, x):
        if isinstance(x, LinearOperator):
            return LinearOperator(
                (self.shape[0], x.shape[1]),
                lambda v: self.matvec(x.matvec(v)),
                lambda v: x.rmatvec(self.rmatvec(v)))
        if _scalar(x):
            return LinearOperator(
                self.shape, lambda v: self.matvec(v) * x,
                lambda v: self.rmatvec(v) * conj(as_s(x)))
        return self.matvec(x)

    __array_ufunc__ = None
    __matmul__ = __mul__ = dot

    def __rmatmul__(self, x):
        if len(np.shape(x)) == 1:
            return self.T.matvec(x)
        return self.T.matvec(x.T).T

    def __rmul__(self, x):
        return self.dot(x) if _scalar(x) else self.__rmatmul__(x)


def np_conj_(v):
    a = np.asarray(v, dtype=object)
    r = np.empty(a.shape, dtype=object)
    for ix in np.ndindex(*a.shape):
        r[ix] = conj(as_s(a[ix]))
    return r.view(OArr)


def aslinearoperator(A):
    if isinstance(A, LinearOperator):
        return A
    if not isinstance(A, SpMat):
        A = SpMat.of(A)
    return LinearOperator(A.shape, lambda v: A @ np.ravel(v),
                          lambda v: A.H @ np.ravel(v))


class _SLinalg(types.ModuleType):
    LinearOperator = LinearOperator
    aslinearoperator = staticmethod(aslinearoperator)

    def __getattr__(self, k):
        return getattr(real_sparse.linalg, k)


LINALG = _SLinalg("sparse_linalg_facade")


class _Sparse(types.ModuleType):
    spmatrix = SpMat
    csr_matrix = _cls(matrix)
    csc_matrix = _cls(matrix)
    coo_matrix = _cls(matrix)
    lil_matrix = _cls(matrix)
    bsr_matrix = _cls(matrix)
    dia_matrix = _cls(dia_matrix)
    eye = staticmethod(eye)
    identity = staticmethod(lambda n, **k: eye(n))
    diags = staticmethod(diags)
    spdiags = staticmethod(spdiags)
    kron = staticmethod(kron)
    bmat = staticmethod(bmat)
    vstack = staticmethod(vstack)
    hstack = staticmethod(hstack)
    block_diag = staticmethod(block_diag)
    issparse = staticmethod(issparse)
    isspmatrix = staticmethod(issparse)
    linalg = LINALG

    def __getattr__(self, k):
        raise Unsupported("scipy.sparse.%s" % k)


SPARSE = _Sparse("sparse_facade")


class _Scipy(types.ModuleType):
    sparse = SPARSE

    def __getattr__(self, k):
        import scipy
        return getattr(scipy, k)


SCIPY = _Scipy("scipy_facade")
