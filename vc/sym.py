"""Symbolic scalars for deductive verification of numerical Python code.

A `S` is a polynomial with Gaussian-rational coefficients over hash-consed
atoms (variables, inverses, powers, exp, log, abs, ite, finite sums, ...).
Arithmetic on `S` keeps a normal form, so most verification conditions (ring
identities, chain rule / adjoint identities) are discharged by computing the
normal form of `lhs - rhs`; the rest is split on conditions and handed to z3
(see `prove.py`).

Arithmetic is exact (machine floating point is treated as mathematical real
arithmetic; literal floats are taken at their exact binary value, and
coefficients below 1e-11 relative to the largest one are treated as rounding).
"""
from fractions import Fraction
import math
import numbers

import numpy as np


class Unsupported(Exception):
    """The verifier's subset was left: the obligation is undecided."""


class Infeasible(Exception):
    """The current path condition is contradictory."""


# --------------------------------------------------------------------------
# coefficients: (re, im) as Fractions
# --------------------------------------------------------------------------
F0, F1 = Fraction(0), Fraction(1)
_SPECIAL = {}


def _frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        raise Unsupported("nan/inf literal")
    return Fraction(x)


def cadd(a, b):
    return (a[0] + b[0], a[1] + b[1])


def cmul(a, b):
    if not a[1] and not b[1]:
        return (a[0] * b[0], F0)
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cinv(a):
    d = a[0] * a[0] + a[1] * a[1]
    return (a[0] / d, -a[1] / d)


# Symbolic values are immutable: pickling (in the same process) hands out the
# value itself.
_PICKLED = {}


def _unpickle(key):
    return _PICKLED[key]


def _reduce(self):
    _PICKLED[id(self)] = self
    return _unpickle, (id(self), )


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ("kind", "args", "id", "real", "pos", "key", "nn")
    _table = {}
    _count = 0

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, protocol):
        return _reduce(self)

    def __new__(cls, kind, args, real=True, pos=False, nn=False):
        k = (kind, _tkey(args))
        a = cls._table.get(k)
        if a is None:
            a = object.__new__(cls)
            a.kind, a.args, a.real, a.pos = kind, args, real, pos
            a.nn = nn or pos
            a.id = Atom._count
            a.key = None
            Atom._count += 1
            cls._table[k] = a
        return a

    def skey(self):
        if self.key is None:
            self.key = "%s(%s)" % (self.kind, ",".join(_skey(x)
                                                       for x in self.args))
        return self.key

    def __repr__(self):
        if self.kind == "var":
            nm, idx = self.args[0], self.args[1]
            c = "~" if self.args[2] else ""
            return c + nm + ("[%s]" % ",".join(map(repr, idx)) if idx else "")
        return "%s(%s)" % (self.kind, ", ".join(map(repr, self.args)))


def _tkey(x):
    """Structural hash key that never calls S.__eq__."""
    if isinstance(x, S):
        return x.fkey()
    if isinstance(x, tuple):
        return tuple(_tkey(y) for y in x)
    if isinstance(x, Cond):
        return ("C", x.op, tuple(_tkey(y) for y in x.args))
    return x


def _skey(x):
    if isinstance(x, S):
        return x.skey()
    if isinstance(x, Atom):
        return x.skey()
    if isinstance(x, (tuple, list)):
        return "(" + ",".join(_skey(y) for y in x) + ")"
    if isinstance(x, Cond):
        return x.skey()
    return repr(x)


# Families: name -> dict(real=bool, pos=bool, integer=bool)
FAMILIES = {}


FAM_VERSION = [0]


def declare(name, real=True, pos=False, nn=False, integer=False):
    new = dict(real=real, pos=pos, nn=nn or pos, integer=integer)
    if FAMILIES.get(name, new) != new:
        FAM_VERSION[0] += 1
    FAMILIES[name] = new


def var(name, idx=(), conj=False):
    fam = FAMILIES[name]
    if fam["real"]:
        conj = False
    a = Atom("var", (name, tuple(as_s(i) for i in idx), conj), fam["real"],
             fam["pos"], fam["nn"])
    return S.of_atom(a)


# --------------------------------------------------------------------------
# polynomials
# --------------------------------------------------------------------------
MAX_TERMS = 20000


class S:
    """Symbolic scalar. Immutable."""
    __slots__ = ("t", "_h", "_k", "_f")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def tolist(self):
        return self

    def __reduce_ex__(self, protocol):
        return _reduce(self)

    def __init__(self, terms):
        # terms: dict monomial -> coef, monomial: tuple of (Atom, int exp)
        # sorted by atom id.
        self.t = terms
        self._h = None
        self._k = None
        self._f = None

    def fkey(self):
        if self._f is None:
            self._f = frozenset(self.t.items())
        return self._f

    # construction
    @staticmethod
    def const(re, im=0):
        re, im = _frac(re), _frac(im)
        if not re and not im:
            return ZERO
        return S({(): (re, im)})

    @staticmethod
    def of_atom(a, e=1):
        return S({((a, e), ): (F1, F0)})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), (F0, F0))

    def as_int(self):
        if self.is_const():
            c = self.cval()
            if not c[1] and c[0].denominator == 1:
                return int(c[0])
        return None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def same(self, o):
        return self is o or (isinstance(o, S) and self.t == o.t)

    def skey(self):
        if self._k is None:
            parts = []
            for m, c in self.t.items():
                ms = sorted((a.skey(), e) for a, e in m)
                parts.append((ms, c))
            parts.sort(key=repr)
            self._k = repr(parts)
        return self._k

    def is_real(self):
        return self.same(conj(self))

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda kv: repr(kv[0])):
            cs = _cstr(c)
            ms = "*".join(repr(a) + ("^%d" % e if e != 1 else "")
                          for a, e in m)
            out.append(cs + ("*" + ms if ms else "") if cs != "1" or not ms
                       else ms)
        r = " + ".join(out)
        return r if len(r) < 600 else r[:600] + "..."

    # arithmetic
    def __add__(self, o):
        o = as_s_or_none(o)
        if o is None:
            return NotImplemented
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            if m in r:
                s = cadd(r[m], c)
                if s[0] or s[1]:
                    r[m] = s
                else:
                    del r[m]
            else:
                r[m] = c
        if len(r) > MAX_TERMS:
            raise Unsupported("term too large")
        return S(r)

    __radd__ = __add__

    def __neg__(self):
        return S({m: (-c[0], -c[1]) for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = as_s_or_none(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = as_s_or_none(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = as_s_or_none(o)
        if o is None:
            return NotImplemented
        if not self.t or not o.t:
            return ZERO
        if len(self.t) * len(o.t) > 10 * MAX_TERMS:
            raise Unsupported("product too large")
        r = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, k = mmul(m1, m2)
                c = cmul(c1, c2)
                if k is not None:
                    # reduction produced a polynomial factor
                    p = S({m: c}) * k if m else k * S({(): c})
                    extra = p if extra is None else extra + p
                    continue
                if m in r:
                    s = cadd(r[m], c)
                    if s[0] or s[1]:
                        r[m] = s
                    else:
                        del r[m]
                else:
                    r[m] = c
        res = S(r)
        return res if extra is None else res + extra

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = as_s_or_none(o)
        if o is None:
            return NotImplemented
        return self * inv(o)

    def __rtruediv__(self, o):
        o = as_s_or_none(o)
        if o is None:
            return NotImplemented
        return o * inv(self)

    def __floordiv__(self, o):
        o = as_s(o)
        a, b = self.as_int(), o.as_int()
        if a is not None and b is not None:
            return S.const(a // b)
        return mk_floordiv(self, o)

    def __rfloordiv__(self, o):
        return as_s(o) // self

    def __mod__(self, o):
        o = as_s(o)
        a, b = self.as_int(), o.as_int()
        if a is not None and b is not None:
            return S.const(a % b)
        return mk_mod(self, o)

    def __rmod__(self, o):
        return as_s(o) % self

    def __pow__(self, e):
        e = as_s_or_none(e)
        if e is None:
            return NotImplemented
        return power(self, e)

    def __rpow__(self, b):
        b = as_s_or_none(b)
        if b is None:
            return NotImplemented
        return power(b, self)

    def __abs__(self):
        return sabs(self)

    def conjugate(self):
        return conj(self)

    conj = conjugate

    @property
    def real(self):
        return (self + conj(self)) * HALF

    @property
    def imag(self):
        return (self - conj(self)) * S.const(0, Fraction(-1, 2))

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def astype(self, dtype, **k):
        import numpy
        kind = numpy.dtype(dtype).kind
        if kind in "fcO":
            return self
        if kind in "iu" and self.as_int() is not None:
            return numpy.dtype(dtype).type(self.as_int())
        raise Unsupported("astype %s" % dtype)

    def copy(self):
        return self

    def exp(self):
        return sexp(self)

    def log(self):
        return slog(self)

    def sqrt(self):
        return power(self, HALF)

    def sin(self):
        return sfun("sin", self)

    def cos(self):
        return sfun("cos", self)

    def tanh(self):
        return sfun("tanh", self)

    def arctan(self):
        return sfun("arctan", self)

    # comparisons -> Cond
    def __lt__(self, o):
        if _is_inf(o):
            return TRUE if o > 0 else FALSE
        return cmp_("<", self, as_s(o))

    def __le__(self, o):
        if _is_inf(o):
            return TRUE if o > 0 else FALSE
        return cmp_("<=", self, as_s(o))

    def __gt__(self, o):
        if _is_inf(o):
            return TRUE if o < 0 else FALSE
        return cmp_("<", as_s(o), self)

    def __ge__(self, o):
        if _is_inf(o):
            return TRUE if o < 0 else FALSE
        return cmp_("<=", as_s(o), self)

    def __eq__(self, o):
        if _is_inf(o):
            return FALSE
        o = as_s_or_none(o)
        if o is None:
            return False
        return cmp_("==", self, o)

    def __ne__(self, o):
        if _is_inf(o):
            return TRUE
        o = as_s_or_none(o)
        if o is None:
            return True
        return cmp_("==", self, o).__invert__()

    def __bool__(self):
        c = cmp_("==", self, ZERO)
        return not bool(c)

    def __float__(self):
        if self.is_const() and not self.cval()[1]:
            return float(self.cval()[0])
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        i = self.as_int()
        if i is None:
            # truncation of a non-negative value: branch over the integers
            if bool(self >= 0):
                for k in range(17):
                    if bool(self < k + 1):
                        return k
            raise Unsupported("int() of a symbolic value")
        return i

    __index__ = __int__

    def __complex__(self):
        if self.is_const():
            c = self.cval()
            return complex(float(c[0]), float(c[1]))
        raise Unsupported("complex() of a symbolic value")

    def __array__(self, dtype=None):
        if dtype is not None and np.dtype(dtype) != object:
            if self.is_const():
                c = complex(self)
                return np.array(c if c.imag else c.real, dtype=dtype)
            raise Unsupported("conversion of a symbolic value to %s" % dtype)
        a = np.empty((), dtype=object)
        a[()] = self
        return a


def _cstr(c):
    if not c[1]:
        return str(c[0]) if c[0].denominator < 10**6 else repr(float(c[0]))
    return "(%s+%sj)" % (c[0], c[1])


ZERO = S({})
ONE = S({(): (F1, F0)})
HALF = S({(): (Fraction(1, 2), F0)})
I = S({(): (F0, F1)})


def _is_inf(o):
    """Every term denotes a finite number."""
    return isinstance(o, float) and math.isinf(o)


def as_s_or_none(x):
    if isinstance(x, S):
        return x
    if isinstance(x, Cond):
        return ite(x, ONE, ZERO)
    if isinstance(x, (bool, np.bool_)):
        return ONE if x else ZERO
    if isinstance(x, numbers.Integral):
        return S.const(int(x))
    if isinstance(x, Fraction):
        return S.const(x)
    if isinstance(x, numbers.Real):
        return S.const(float(x))
    if isinstance(x, numbers.Complex):
        return S.const(x.real, x.imag)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return as_s_or_none(x[()])
    return None


def as_s(x):
    r = as_s_or_none(x)
    if r is None:
        raise Unsupported("not a scalar: %r" % type(x))
    return r


def mmul(m1, m2):
    """Multiplies monomials; returns (monomial, extra polynomial or None)."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = {}
    for a, e in m1:
        d[a] = e
    touched = []
    for a, e in m2:
        if a in d:
            d[a] += e
            touched.append(a)
        else:
            d[a] = e
    extra = None
    for a in touched:
        if a not in d:
            continue
        e = d[a]
        if e == 0:
            del d[a]
            continue
        if a.kind == "abs" and e >= 2:
            k = e // 2
            base = a.args[0]
            p = ipow(base * conj(base), k)
            extra = p if extra is None else extra * p
            if e % 2:
                d[a] = 1
            else:
                del d[a]
        elif a.kind == "root" and (e >= a.args[1] or e < 0):
            q = a.args[1]
            k = e // q
            p = ipow(a.args[0], k)
            extra = p if extra is None else extra * p
            if e % q:
                d[a] = e % q
            else:
                del d[a]
        elif a.kind == "ind" and e > 1:
            d[a] = 1
        elif a.kind == "ite" and e > 1:
            c, x, y = a.args
            p = ite(c, ipow(x, e), ipow(y, e))
            extra = p if extra is None else extra * p
            del d[a]
    return tuple(sorted(d.items(), key=lambda kv: kv[0].id)), extra


def ipow(p, k):
    if k == 0:
        return ONE
    if k < 0:
        return ipow(inv(p), -k)
    r = None
    b = p
    while k:
        if k & 1:
            r = b if r is None else r * b
        k >>= 1
        if k:
            b = b * b
    return r


_conj_cache = {}


def conj_atom(a):
    if a.real:
        return S.of_atom(a)
    r = _conj_cache.get(a)
    if r is not None:
        return r
    k = a.kind
    if k == "var":
        r = var(a.args[0], a.args[1], not a.args[2])
    elif k == "inv":
        r = inv(conj(a.args[0]))
    elif k == "exp":
        r = sexp(conj(a.args[0]))
    elif k == "root":
        r = S.of_atom(Atom("root", (conj(a.args[0]), a.args[1]), False))
    elif k == "pow":
        r = S.of_atom(
            Atom("pow", (conj(a.args[0]), conj(a.args[1])), False))
    elif k == "ite":
        r = ite(a.args[0], conj(a.args[1]), conj(a.args[2]))
    elif k == "sum":
        dims, mono = a.args
        r = mk_sum_raw(dims, conj(S({mono: (F1, F0)})))
    elif k == "prod":
        r = S.of_atom(mk_prod_atom(a.args[0], conj(a.args[1])))
    elif k == "fun":
        r = S.of_atom(
            Atom("fun", (a.args[0], tuple(conj(x) for x in a.args[1])), False))
    elif k == "log":
        r = slog(conj(a.args[0]))
    else:
        raise Unsupported("conj of " + k)
    _conj_cache[a] = r
    return r


def conj(p):
    p = as_s(p)
    r = None
    fast = {}
    for m, c in p.t.items():
        cc = (c[0], -c[1])
        if all(a.real for a, _ in m):
            fast[m] = cc
            continue
        q = S({(): cc})
        for a, e in m:
            q = q * ipow(conj_atom(a), e)
        r = q if r is None else r + q
    f = S(fast)
    return f if r is None else f + r


def lead_normalize(p):
    """p = c * q with q having a canonical leading coefficient 1."""
    best = None
    for m in p.t:
        k = repr(sorted((a.skey(), e) for a, e in m))
        if best is None or k < best[0]:
            best = (k, m)
    c = p.t[best[1]]
    ci = cinv(c)
    return c, S({m: cmul(x, ci) for m, x in p.t.items()})


def common_monomial(p):
    """Largest monomial dividing every term (only integer exponents)."""
    it = iter(p.t)
    d = dict(next(it))
    for m in it:
        md = dict(m)
        for a in list(d):
            e = md.get(a)
            if e is None or (e > 0) != (d[a] > 0):
                if e is None or d[a] * e < 0:
                    del d[a]
                    continue
            d[a] = min(d[a], e) if d[a] > 0 else max(d[a], e)
        if not d:
            break
    return tuple(sorted(d.items(), key=lambda kv: kv[0].id))


def inv(p):
    p = as_s(p)
    if not p.t:
        raise ZeroDivisionError("symbolic division by zero")
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = S({(): cinv(c)})
        for a, e in m:
            if a.kind == "root":
                # 1/R = R^(q-1)/base
                r = r * ipow(S.of_atom(a, a.args[1] - 1) * inv(a.args[0]), e)
            elif a.kind == "abs":
                # keep as negative power; |z|^-2 = 1/(z zc)
                if e > 1:
                    r = r * inv(ipow(a.args[0] * conj(a.args[0]), e // 2))
                    if e % 2:
                        r = r * S.of_atom(a, -1)
                else:
                    r = r * S.of_atom(a, -e)
            elif a.kind == "ite":
                c_, x, y = a.args
                r = r * ipow(ite(c_, inv_or_zero(x), inv_or_zero(y)), e)
            elif a.kind == "inv":
                r = r * ipow(a.args[0], e) if e > 0 else r * S.of_atom(a, -e)
            else:
                r = r * S({((a, -e), ): (F1, F0)})
        return r
    cm = common_monomial(p)
    if cm:
        mi = inv(S({cm: (F1, F0)}))
        return mi * inv(p * mi)
    c, q = lead_normalize(p)
    a = Atom("inv", (q, ), q.is_real())
    return S({((a, 1), ): cinv(c)})


def inv_or_zero(x):
    if not x.t:
        return ZERO  # branch that is not taken where the division is defined
    return inv(x)


def power(b, e):
    b, e = as_s(b), as_s(e)
    if e.is_const():
        c = e.cval()
        if c[1]:
            raise Unsupported("complex exponent")
        r = c[0]
        if r.denominator == 1:
            return ipow(b, int(r)) if (b.t or r >= 0) else inv(b)
        if r.denominator > 64:
            # literal such as 1/3: take the fraction it was written as
            r2 = r.limit_denominator(64)
            if abs(r2 - r) < Fraction(1, 10**11):
                r = r2
            else:
                f = r - math.floor(r)
                a = Atom("pow", (b, S.const(f)), b.is_real(),
                         len(b.t) == 1 and all(x.pos for m in b.t
                                               for x, _ in m))
                return ipow(b, int(math.floor(r))) * S.of_atom(a)
        if b.is_const() and not b.cval()[1] and b.cval()[0] >= 0:
            # rational constant: exact roots only, otherwise atom
            v = b.cval()[0]
            if v == 0:
                return ZERO
            root_n = round(v.numerator**(1.0 / r.denominator))
            root_d = round(v.denominator**(1.0 / r.denominator))
            if (root_n**r.denominator == v.numerator
                    and root_d**r.denominator == v.denominator):
                return S.const(Fraction(root_n, root_d)**r.numerator)
        k, f = divmod(r, 1)
        q, n = f.denominator, f.numerator
        # monomials split: only positive atoms may be separated
        base = b
        if len(b.t) == 1:
            (m, cc), = b.t.items()
            outer = ONE
            rest = []
            for a, ex in m:
                if a.pos and not (ex % q):
                    outer = outer * S.of_atom(a, ex // q)
                elif q == 2 and ex % 2 == 0 and a.real:
                    outer = outer * ipow(sabs(S.of_atom(a)), ex // 2)
                else:
                    rest.append((a, ex))
            if not cc[1] and cc[0] > 0:
                rn = round(cc[0].numerator**(1.0 / q))
                rd = round(cc[0].denominator**(1.0 / q))
                if rn**q == cc[0].numerator and rd**q == cc[0].denominator:
                    outer = outer * S.const(Fraction(rn, rd))
                    cc = (F1, F0)
            base = S({tuple(rest): cc})
            if base.same(ONE):
                return ipow(b, int(k)) * ipow(outer, n)
            # sqrt(z zc) = |z|
            if q == 2 and len(rest) == 2 and cc == (F1, F0):
                (a1, e1), (a2, e2) = rest
                if e1 == e2 == 1 and not a1.real and conj_atom(a1).same(
                        S.of_atom(a2)):
                    z = S.of_atom(a1 if not a1.args[2:] or not a1.args[2]
                                  else a2)
                    return ipow(b, int(k)) * ipow(outer * sabs(z), n)
            if outer.same(ONE):
                a = Atom("root", (base, q), base.is_real(), nn=True)
                return ipow(b, int(k)) * S.of_atom(a, n)
            a = Atom("root", (base, q), base.is_real(), nn=True)
            return ipow(b, int(k)) * ipow(outer, n) * S.of_atom(a, n)
        a = Atom("root", (base, q), base.is_real(), nn=True)
        return ipow(b, int(k)) * S.of_atom(a, n)
    # symbolic exponent: b^(c + e') = b^c * Pow(b, e'), c integer part
    c = e.t.get((), (F0, F0))
    k = F0
    if not c[1]:
        k = Fraction(math.floor(c[0]))
    e2 = e - S.const(k)
    if b.is_const() and b.cval() == (F1, F0):
        return ONE
    a = Atom("pow", (b, e2), b.is_real() and e2.is_real(),
             len(b.t) == 1 and all(x.pos for m in b.t for x, _ in m))
    return ipow(b, int(k)) * S.of_atom(a)


def sabs(p):
    p = as_s(p)
    if p.is_const():
        c = p.cval()
        if not c[1]:
            return S.const(abs(c[0]))
        if not c[0]:
            return S.const(abs(c[1]))
        return power(S.const(c[0] * c[0] + c[1] * c[1]), HALF)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        out = sabs(S({(): c}))
        for a, e in m:
            if a.nn or a.kind == "abs" or (a.real and e % 2 == 0):
                out = out * S.of_atom(a, e) if e > 0 or a.kind != "root" \
                    else out * ipow(S.of_atom(a), e)
                continue
            z = S.of_atom(a)
            zc = conj_atom(a)
            # canonical representative of {z, zc}
            if not a.real and zc.skey() < z.skey():
                z = zc
            at = Atom("abs", (z, ), True, nn=True)
            out = out * ipow(S.of_atom(at), e)
        return out
    c, q = lead_normalize(p)
    qc = conj(q)
    if not q.same(qc):
        c2, qc2 = lead_normalize(qc)
        if qc2.skey() < q.skey():
            q = qc2
    return sabs(S({(): c})) * S.of_atom(Atom("abs", (q, ), True, nn=True))


def sexp(p):
    p = as_s(p)
    out = ONE
    for m, c in p.t.items():
        # exp(c*m): extract integer multiples of rational unit
        for part, unit in ((c[0], (F1, F0)), (c[1], (F0, F1))):
            if not part:
                continue
            k = part
            q = k.denominator
            n = k.numerator
            arg = S({m: (unit[0] / q, unit[1] / q)})
            re = arg.is_real()
            out = out * S({((Atom("exp", (arg, ), re, re), n), ): (F1, F0)})
    return out


def slog(p):
    p = as_s(p)
    if p.same(ONE):
        return ZERO
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if m and all(a.pos for a, _ in m) and not c[1] and c[0] > 0:
            r = ZERO
            for a, e in m:
                if a.kind == "exp":
                    r = r + a.args[0] * e
                else:
                    r = r + S.const(e) * S.of_atom(
                        Atom("log", (S.of_atom(a), ), True))
            if c[0] != 1:
                r = r + S.of_atom(Atom("log", (S.const(c[0]), ), True))
            return r
    return S.of_atom(Atom("log", (p, ), p.is_real()))


def sfun(name, *args):
    args = tuple(as_s(a) for a in args)
    if name in ("sin", "tanh", "arctan") and not args[0].t:
        return ZERO
    if name == "cos" and not args[0].t:
        return ONE
    return S.of_atom(Atom("fun", (name, args), all(a.is_real()
                                                   for a in args)))


def sarg(p):
    """Argument of a complex number: an opaque real function of it."""
    p = as_s(p)
    q = conj(p)
    return sfun("arg", (p + q) * HALF, (p - q) * S({(): (F0, Fraction(-1, 2))
                                                    }))


# --------------------------------------------------------------------------
# conditions
# --------------------------------------------------------------------------
class Cond:
    """Symbolic truth value: op in < <= == and or not const."""
    __slots__ = ("op", "args", "_k")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, protocol):
        return _reduce(self)

    def __init__(self, op, args):
        self.op, self.args = op, args
        self._k = None

    def skey(self):
        if self._k is None:
            self._k = "%s(%s)" % (self.op, ",".join(_skey(a)
                                                    for a in self.args))
        return self._k

    def __hash__(self):
        return hash(self.skey())

    def __eq__(self, o):
        if isinstance(o, Cond):
            return self.skey() == o.skey()
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, Cond):
            return self.skey() != o.skey()
        return NotImplemented

    def __and__(self, o):
        return cand(self, as_cond(o))

    __rand__ = __and__

    def __or__(self, o):
        return cor(self, as_cond(o))

    __ror__ = __or__

    def __invert__(self):
        return cnot(self)

    def __bool__(self):
        return PATH.decide(self)

    def __repr__(self):
        if self.op in ("<", "<=", "=="):
            return "(%r %s %r)" % (self.args[0], self.op, self.args[1])
        return "%s%r" % (self.op, self.args)

    # numeric use of a truth value
    def _num(self):
        return ite(self, ONE, ZERO)

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return as_s(o) - self._num()


TRUE, FALSE = Cond("true", ()), Cond("false", ())


def as_cond(x):
    if isinstance(x, Cond):
        return x
    if isinstance(x, S):
        return cnot(cmp_("==", x, ZERO))
    return TRUE if x else FALSE


def cnot(c):
    if c.op == "true":
        return FALSE
    if c.op == "false":
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "<":
        return cmp_("<=", c.args[1], c.args[0])
    if c.op == "<=":
        return cmp_("<", c.args[1], c.args[0])
    return Cond("not", (c, ))


def cand(*cs):
    out = []
    for c in cs:
        if c.op == "false":
            return FALSE
        if c.op == "true":
            continue
        if c.op == "and":
            out.extend(c.args)
        else:
            out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Cond("and", tuple(out))


def cor(*cs):
    return cnot(cand(*[cnot(c) for c in cs]))


def cmp_(op, a, b):
    d = b - a
    if d.is_const():
        c = d.cval()
        if c[1]:
            if op == "==":
                return FALSE
            raise Unsupported("ordering of complex values")
        v = c[0]
        ok = {"<": v > 0, "<=": v >= 0, "==": v == 0}[op]
        return TRUE if ok else FALSE
    # normalise: compare difference with zero
    c, q = lead_normalize(d)
    if op == "==":
        return Cond("==", (q, ZERO))
    if c[1]:
        if not d.is_real():
            raise Unsupported("ordering of complex values")
        return Cond(op, (ZERO, d))
    # 0 < d  <=> 0 < q if c>0, else q < 0
    if c[0] > 0:
        return Cond(op, (ZERO, q))
    return Cond(op, (q, ZERO))


def ite(c, a, b):
    c = as_cond(c)
    a, b = as_s(a), as_s(b)
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if a.same(b):
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "<=":
        return ite(cnot(c), b, a)
    if c.op == "and":
        r = ONE
        for x in c.args:
            r = r * ite(x, ONE, ZERO)
        return b + (a - b) * r
    # canonical form: b + (a-b) * ind(c)
    at = Atom("ind", (c, ), True, nn=True)
    return b + (a - b) * S.of_atom(at)


# When set, maximum and minimum branch instead of building indicators.
FORK = [False]


def smax(a, b):
    a, b = as_s(a), as_s(b)
    c = cmp_("<", a, b)
    if FORK[0] and PATH.active:
        return b if PATH.decide(c) else a
    return ite(c, b, a)


def smin(a, b):
    a, b = as_s(a), as_s(b)
    c = cmp_("<", b, a)
    if FORK[0] and PATH.active:
        return b if PATH.decide(c) else a
    return ite(c, b, a)


# --------------------------------------------------------------------------
# integer mod / floordiv (index arithmetic)
# --------------------------------------------------------------------------
def mk_mod(a, n):
    a, n = as_s(a), as_s(n)
    # drop multiples of n: a = q*n + r with syntactic monomials divisible by n
    r = {}
    if len(n.t) == 1:
        (mn, cn), = n.t.items()
        for m, c in a.t.items():
            d = dict(m)
            if mn and all(d.get(x, 0) >= e for x, e in mn):
                k = c[0] / cn[0]
                if k.denominator == 1:
                    continue
            r[m] = c
        a = S(r)
    # (x mod n + y) mod n = (x+y) mod n
    extra = ZERO
    base = {}
    for m, c in a.t.items():
        if (len(m) == 1 and m[0][0].kind == "mod" and m[0][1] == 1
                and m[0][0].args[1].same(n) and not c[1]
                and c[0].denominator == 1):
            extra = extra + m[0][0].args[0] * S.const(c[0])
        else:
            base[m] = c
    if extra.t:
        return mk_mod(S(base) + extra, n)
    if not a.t:
        return ZERO
    if len(a.t) == 1:
        (m, c), = a.t.items()
        if len(m) == 1 and m[0][1] == 1 and c == (F1, F0):
            at = m[0][0]
            if at.kind == "var" and INDEX_DIM.get(at) is not None and \
                    INDEX_DIM[at].same(n):
                return a
    return S.of_atom(Atom("mod", (a, n), True, nn=True))


INDEX_DIM = {}  # atom of an index variable -> its dimension (0 <= i < dim)


def mk_floordiv(a, n):
    return S.of_atom(Atom("fdiv", (a, n), True))


# --------------------------------------------------------------------------
# finite sums: atom sum((dims...), monomial) with bound variables _b0, _b1...
# --------------------------------------------------------------------------
_fresh = [0]


def fresh_index(dim, prefix="i"):
    _fresh[0] += 1
    nm = "_%s%d" % (prefix, _fresh[0])
    declare(nm, integer=True, nn=True)
    v = var(nm)
    at = next(iter(v.t))[0][0]
    INDEX_DIM[at] = as_s(dim)
    return v


_bound = {}


def bound_var(k, dim):
    """Canonical bound variable number k ranging over dim."""
    key = (k, as_s(dim).skey())
    v = _bound.get(key)
    if v is None:
        nm = "_b%d_%d" % (k, len(_bound))
        declare(nm, integer=True, nn=True)
        v = var(nm)
        INDEX_DIM[next(iter(v.t))[0][0]] = as_s(dim)
        _bound[key] = v
    return v


def atom_of(v):
    return next(iter(v.t))[0][0]


_dep_cache = {}


def atom_deps(a):
    """Set of variable atoms occurring in atom a (bound ones excluded)."""
    r = _dep_cache.get(a)
    if r is not None:
        return r
    r = set()
    if a.kind == "var":
        r.add(a)
        for i in a.args[1]:
            r |= deps(i)
    elif a.kind == "sum":
        dims, mono = a.args
        for x, _ in mono:
            r |= atom_deps(x)
        for k, d in enumerate(dims):
            r |= deps(d)
            r.discard(atom_of(bound_var(k, d)))
    elif a.kind == "prod":
        d, body = a.args
        r |= deps(body)
        r.discard(atom_of(bound_var(100, d)))
        r |= deps(d)
    else:
        for x in a.args:
            r |= _deps_any(x)
    _dep_cache[a] = frozenset(r)
    return _dep_cache[a]


def _deps_any(x):
    if isinstance(x, S):
        return deps(x)
    if isinstance(x, Cond):
        r = set()
        for y in x.args:
            r |= _deps_any(y)
        return r
    if isinstance(x, (tuple, list)):
        r = set()
        for y in x:
            r |= _deps_any(y)
        return r
    return set()


def deps(p):
    r = set()
    for m in p.t:
        for a, _ in m:
            r |= atom_deps(a)
    return r


def subst(p, mp):
    """Substitutes variable atoms (dict Atom -> S) in polynomial p."""
    p = as_s(p)
    if not mp:
        return p
    cache = {}

    def satom(a):
        r = cache.get(a)
        if r is None:
            if not (atom_deps(a) & mp.keys()):
                r = S.of_atom(a)
            else:
                r = rebuild(a, go, goc, mp)
            cache[a] = r
        return r

    def go(q):
        out = ZERO
        keep = {}
        for m, c in q.t.items():
            if all(not (atom_deps(a) & mp.keys()) for a, _ in m):
                keep[m] = c
                continue
            t = S({(): c})
            for a, e in m:
                t = t * ipow(satom(a), e)
            out = out + t
        return S(keep) + out

    def goc(c):
        if c.op in ("<", "<=", "=="):
            return cmp_(c.op, go(c.args[0]), go(c.args[1]))
        if c.op == "not":
            return cnot(goc(c.args[0]))
        if c.op == "and":
            return cand(*[goc(x) for x in c.args])
        return c

    return go(p)


def rebuild(a, go, goc, mp=None):
    k = a.kind
    if k == "var":
        if mp is not None and a in mp:
            return mp[a]
        # for complex variables the map may be given on the unconjugated one
        return var(a.args[0], tuple(go(i) for i in a.args[1]), a.args[2])
    if k == "inv":
        return inv(go(a.args[0]))
    if k == "exp":
        return sexp(go(a.args[0]))
    if k == "log":
        return slog(go(a.args[0]))
    if k == "abs":
        return sabs(go(a.args[0]))
    if k == "root":
        return power(go(a.args[0]), S.const(Fraction(1, a.args[1])))
    if k == "pow":
        return power(go(a.args[0]), go(a.args[1]))
    if k == "ind":
        return ite(goc(a.args[0]), ONE, ZERO)
    if k == "fun":
        return sfun(a.args[0], *[go(x) for x in a.args[1]])
    if k == "mod":
        x, n = go(a.args[0]), go(a.args[1])
        return x % n
    if k == "fdiv":
        return go(a.args[0]) // go(a.args[1])
    if k == "sum":
        dims, mono = a.args
        # rename bound variables to fresh ones, rebuild, re-sum
        fr = [fresh_index(d) for d in dims]
        body = subst_bound(S({mono: (F1, F0)}), dims, fr)
        body = go(body)
        for d, v in zip(dims, fr):
            body = ssum(v, go(d), body)
        return body
    if k == "prod":
        d, body = a.args
        v = fresh_index(d)
        b = subst(body, {atom_of(bound_var(100, d)): v})
        return sprod(v, go(d), go(b))
    raise Unsupported("rebuild " + k)


def subst_bound(p, dims, vs):
    return subst(p, {atom_of(bound_var(k, d)): v
                     for k, (d, v) in enumerate(zip(dims, vs))})


def mk_sum_raw(dims, body):
    """Re-sums a polynomial body written with canonical bound vars."""
    fr = [fresh_index(d) for d in dims]
    b = subst_bound(body, dims, fr)
    for d, v in zip(dims, fr):
        b = ssum(v, d, b)
    return b


def ssum(v, dim, body):
    """Sum over index variable v (an S) in [0, dim) of body."""
    dim = as_s(dim)
    n = dim.as_int()
    va = atom_of(v)
    body = as_s(body)
    if n is not None and n <= 64:
        r = ZERO
        for k in range(n):
            r = r + subst(body, {va: S.const(k)})
        return r
    out = ZERO
    for m, c in body.t.items():
        free, dep = [], []
        for a, e in m:
            (dep if va in atom_deps(a) else free).append((a, e))
        coef = S({(): c})
        for a, e in free:
            coef = coef * S({((a, e), ): (F1, F0)})
        if not dep:
            out = out + coef * dim
            continue
        out = out + coef * _sum_mono(v, va, dim, dep)
    return out


def _sum_mono(v, va, dim, dep):
    # delta elimination: ind(v == e)
    for a, e in dep:
        if a.kind == "ind" and a.args[0].op == "==":
            sol = solve_linear(a.args[0].args[0] - a.args[0].args[1], va)
            if sol is not None:
                rest = ONE
                for b, eb in dep:
                    if b is not a:
                        rest = rest * S({((b, eb), ): (F1, F0)})
                return in_range_guard(sol, dim) * subst(rest, {va: sol})
    # merge nested sums
    dims = [dim]
    vars_ = [v]
    mono = []
    for a, e in dep:
        if a.kind == "sum" and e > 0:
            for _ in range(e):
                d2, m2 = a.args
                fr = [fresh_index(d) for d in d2]
                b = subst_bound(S({m2: (F1, F0)}), d2, fr)
                (mm, cc), = b.t.items()
                dims.extend(d2)
                vars_.extend(fr)
                mono.extend(mm)
        else:
            mono.append((a, e))
    poly = ONE
    for a, e in mono:
        poly = poly * S({((a, e), ): (F1, F0)})
    if len(poly.t) != 1:
        r = poly
        for d, w in zip(dims, vars_):
            r = ssum(w, d, r)
        return r
    return canonical_sum(dims, vars_, poly)


def canonical_sum(dims, vars_, poly):
    import itertools
    n = len(dims)
    # pull out inner dims independent
    best = None
    for perm in itertools.permutations(range(n)) if n <= 5 else [
            tuple(range(n))]:
        pd = tuple(dims[p] for p in perm)
        mp = {atom_of(vars_[p]): bound_var(k, dims[p])
              for k, p in enumerate(perm)}
        q = subst(poly, mp)
        key = (_skey(pd), q.skey())
        if best is None or key < best[0]:
            best = (key, pd, q)
    _, pd, q = best
    if len(q.t) != 1:
        raise Unsupported("sum canonicalisation")
    (m, c), = q.t.items()
    real = all(a.real for a, _ in m) or S({m: (F1, F0)}).is_real()
    nn = all(a.nn or (a.real and e % 2 == 0) for a, e in m)
    return S({((Atom("sum", (pd, m), real, nn=nn), 1), ): c})


def solve_linear(p, va):
    """Solves p == 0 for variable atom va when p = c*va + rest, c=+-1."""
    c = p.t.get(((va, 1), ))
    if c is None or c[1] or abs(c[0]) != 1:
        return None
    rest = p - S({((va, 1), ): c})
    if va in deps(rest):
        return None
    return rest * S.const(-1 / c[0])


def in_range_guard(sol, dim):
    """1 if 0 <= sol < dim is known, else an indicator factor."""
    if len(sol.t) == 1:
        (m, c), = sol.t.items()
        if len(m) == 1 and m[0][1] == 1 and c == (F1, F0):
            at = m[0][0]
            if at.kind == "mod" and at.args[1].same(dim):
                return ONE
            d = INDEX_DIM.get(at)
            if d is not None and d.same(dim):
                return ONE
    return ite(cand(cmp_("<=", ZERO, sol), cmp_("<", sol, dim)), ONE, ZERO)


def sprod(v, dim, body):
    dim = as_s(dim)
    n = dim.as_int()
    va = atom_of(v)
    if n is not None and n <= 64:
        r = ONE
        for k in range(n):
            r = r * subst(body, {va: S.const(k)})
        return r
    if va not in deps(body):
        return power(body, dim)
    return S.of_atom(mk_prod_atom(dim, subst(body, {va: bound_var(100, dim)})))


def mk_prod_atom(dim, body):
    return Atom("prod", (dim, body), body.is_real())


# --------------------------------------------------------------------------
# differentiation: D(X[e]) = V[e] for the families in `dirs`
# --------------------------------------------------------------------------
def diff(p, dirs):
    """Directional derivative; dirs: family name -> direction family name."""
    p = as_s(p)
    cache = {}

    def datom(a):
        r = cache.get(a)
        if r is None:
            r = _datom(a)
            cache[a] = r
        return r

    def _datom(a):
        k = a.kind
        if k == "var":
            if a.args[0] in dirs:
                return var(dirs[a.args[0]], a.args[1], a.args[2])
            return ZERO
        if k == "inv":
            d = go(a.args[0])
            return -d * S.of_atom(a, 2) if d.t else ZERO
        if k == "exp":
            return go(a.args[0]) * S.of_atom(a)
        if k == "log":
            d = go(a.args[0])
            return d * inv(a.args[0]) if d.t else ZERO
        if k == "abs":
            z = a.args[0]
            dz = go(z)
            if not dz.t:
                return ZERO
            num = conj(z) * dz
            return (num + conj(num)) * HALF * S.of_atom(a, -1)
        if k == "root":
            d = go(a.args[0])
            if not d.t:
                return ZERO
            return S.of_atom(a) * inv(a.args[0]) * d * S.const(
                Fraction(1, a.args[1]))
        if k == "pow":
            b, e = a.args
            db, de = go(b), go(e)
            r = ZERO
            if db.t:
                r = r + e * S.of_atom(a) * inv(b) * db
            if de.t:
                r = r + S.of_atom(a) * slog(b) * de
            return r
        if k == "ind":
            return ZERO  # differentiable away from the switching surface
        if k == "fun":
            nm, args = a.args
            d = go(args[0])
            if not d.t:
                return ZERO
            if nm == "sin":
                return d * sfun("cos", args[0])
            if nm == "cos":
                return -d * sfun("sin", args[0])
            if nm == "tanh":
                return d * (ONE - S.of_atom(a, 2))
            if nm == "arctan":
                return d * inv(ONE + args[0] * args[0])
            raise Unsupported("derivative of " + nm)
        if k == "sum":
            dims, mono = a.args
            fr = [fresh_index(d) for d in dims]
            body = subst_bound(S({mono: (F1, F0)}), dims, fr)
            body = go(body)
            for d, v in zip(dims, fr):
                body = ssum(v, d, body)
            return body
        if k == "prod":
            d, body = a.args
            v = fresh_index(d)
            b = subst(body, {atom_of(bound_var(100, d)): v})
            # P * sum_i D(b_i)/b_i   (all factors non-zero)
            return S.of_atom(a) * ssum(v, d, go(b) * inv(b))
        if k in ("mod", "fdiv"):
            return ZERO
        raise Unsupported("derivative of " + k)

    def go(q):
        out = ZERO
        for m, c in q.t.items():
            for j, (a, e) in enumerate(m):
                d = datom(a)
                if not d.t:
                    continue
                rest = list(m)
                if e == 1:
                    rest.pop(j)
                    t = S({tuple(rest): c})
                else:
                    rest[j] = (a, e - 1)
                    t = S({tuple(rest): (c[0] * e, c[1] * e)})
                out = out + t * d
        return out

    return go(p)


# --------------------------------------------------------------------------
# paths
# --------------------------------------------------------------------------
class Path:
    """Decision-replay path exploration."""

    def __init__(self):
        self.decisions = []
        self.pos = 0
        self.conds = []
        self.active = False
        self.feasible = None
        self.limit = 4000
        self.counter = 0

    def start(self, decisions, feasible, pre=()):
        self.decisions = list(decisions)
        self.pos = 0
        self.conds = list(pre)
        self.known = {}
        self.implied = set()
        self.seen = 0
        self.active = True
        self.feasible = feasible

    def assume(self, c):
        c = as_cond(c)
        if c.op == "true":
            return
        if c.op == "false":
            raise Infeasible()
        self.conds.append(c)

    def _learn(self, c, val):
        self.known[c.skey()] = val
        self.known[cnot(c).skey()] = not val

    def decide(self, c):
        if c.op == "true":
            return True
        if c.op == "false":
            return False
        if not self.active:
            raise Unsupported("branch on a symbolic condition outside a path")
        while self.seen < len(self.conds):
            self._learn(self.conds[self.seen], True)
            self.seen += 1
        v = self.known.get(c.skey())
        if v is not None:
            return v
        if self.pos < len(self.decisions):
            val, _, forced = self.decisions[self.pos]
        else:
            self.counter += 1
            if self.counter > self.limit:
                raise Unsupported("too many branches")
            core = [k for k in self.conds if k.skey() not in self.implied]
            t = self.feasible(core + [c])
            f = self.feasible(core + [cnot(c)])
            if not t and not f:
                raise Infeasible()
            val = t
            forced = not (t and f)
            self.decisions.append((val, not forced, forced))
        self.pos += 1
        self._learn(c, val)
        lit = c if val else cnot(c)
        # a forced inequality follows from what is already known
        if forced and lit.op in ("<", "<="):
            self.implied.add(lit.skey())
        self.conds.append(lit)
        return val

    def next_decisions(self):
        ds = self.decisions[:self.pos]
        while ds:
            val, open_, forced = ds.pop()
            if open_:
                ds.append((not val, False, False))
                return ds
        return None


PATH = Path()
