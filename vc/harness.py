"""Contracts, their verification conditions, and their evaluation.

A contract is an ordinary Python function `c(B)` that calls the real code of
/repo on inputs obtained from the back end `B` and states facts through `B`:

    SymB   inputs are symbolic: every `B.eq`/`B.holds`/`B.vjp` is a
           verification condition that has to be discharged for all values
           (and, with symbolic dimensions, for all sizes);
    NumB   inputs are numbers: the same contract is evaluated on the
           uninstrumented code (replay of counter-models, bounded search).
"""
import itertools
import random
import signal
import time
import traceback
from fractions import Fraction

import numpy as np

from . import sym, prove, facade
from .sym import (S, Cond, ZERO, ONE, PATH, Unsupported, Infeasible, as_s,
                  as_cond, conj, diff, ssum, fresh_index, cmp_)
from .arrays import OArr, SymArr, oarr, omap, to_sym, _plain, sym_bin


class Failure(Exception):
    """A contract is violated by concrete inputs."""

    def __init__(self, label, detail):
        super().__init__("%s: %s" % (label, detail))
        self.label, self.detail = label, detail


class Skip(Exception):
    """The drawn inputs do not satisfy the precondition."""


class Choices:
    """Exhaustive or random enumeration of `choose`."""

    def __init__(self, script=(), rng=None):
        self.script = list(script)
        self.pos = 0
        self.sizes = []
        self.rng = rng
        self.log = []

    def choose(self, name, options):
        options = list(options)
        if self.pos < len(self.script):
            k = self.script[self.pos]
        elif self.rng is not None:
            k = self.rng.randrange(len(options))
            self.script.append(k)
        else:
            k = 0
            self.script.append(0)
        self.sizes = self.sizes[:self.pos] + [len(options)]
        self.pos += 1
        self.log.append((name, options[k]))
        return options[k]

    def next_script(self):
        s = self.script[:self.pos]
        z = self.sizes
        while s:
            if s[-1] + 1 < z[len(s) - 1]:
                s[-1] += 1
                return s
            s.pop()
        return None


# ------------------------------------------------------------------- SymB
class SymB:
    symbolic = True

    def __init__(self, choices, symdims=True):
        self.ch = choices
        self.symdims = symdims
        self.vcs = []  # (label, status)
        self.unproved = []
        self.families = {}
        self.bounded_dims = False
        sym.FORK[0] = False

    def fork(self):
        """Maximum and minimum branch from here on."""
        sym.FORK[0] = True

    def choose(self, name, options):
        return self.ch.choose(name, options)

    def dim(self, name, lo=1, hi=3):
        if self.symdims:
            nm = "dim_" + name
            sym.declare(nm, integer=True, nn=True)
            v = sym.var(nm)
            PATH.assume(cmp_("<=", S.const(lo), v))
            return v
        self.bounded_dims = True
        return self.choose("dim_" + name, range(lo, hi + 1))

    def _declare(self, name, shape, kind):
        sym.declare(name, real=kind.get("real", True),
                    pos=kind.get("pos", False), nn=kind.get("nn", False),
                    integer=kind.get("integer", False))
        self.families[name] = (shape, kind)
        if any(isinstance(d, S) and d.as_int() is None for d in shape):
            return SymArr(shape, lambda i: sym.var(name, i),
                          not kind.get("real", True))
        shape = tuple(int(d) for d in shape)
        if shape == ():
            return sym.var(name)
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            a[ix] = sym.var(name, ix)
        return a.view(OArr)

    def real(self, name, shape=(), lo=None, hi=None, pos=False, nn=False,
             **k):
        shape = (shape, ) if not isinstance(shape, (tuple, list)) else tuple(
            shape)
        a = self._declare(name, shape, dict(real=True, pos=pos, nn=nn))
        if lo is not None or hi is not None:
            if isinstance(a, SymArr):
                raise Unsupported("bounds on a symbolic array")
            for x in (a.ravel() if shape else [a]):
                if lo is not None:
                    PATH.assume(cmp_("<=", as_s(lo), x))
                if hi is not None:
                    PATH.assume(cmp_("<=", x, as_s(hi)))
        return a

    def cplx(self, name, shape=(), **k):
        shape = (shape, ) if not isinstance(shape, (tuple, list)) else tuple(
            shape)
        return self._declare(name, shape, dict(real=False))

    def assume(self, c):
        if isinstance(c, (OArr, )):
            for x in _plain(c).ravel():
                self.assume(x)
            return
        if isinstance(c, SymArr):
            raise Unsupported("array assumption")
        PATH.assume(as_cond(c))
        if not prove.feasible(PATH.conds):
            raise Infeasible()

    def _flat(self, a):
        if isinstance(a, SymArr):
            vs = [fresh_index(d) for d in a.shape]
            return [as_s(a.fn(tuple(vs)))]
        if isinstance(a, (S, int, float, complex, np.number, Cond)):
            return [as_s(a)]
        a = _plain(oarr(a))
        return [as_s(x) for x in a.ravel()]

    def eq(self, a, b, label="eq"):
        if isinstance(a, SymArr) or isinstance(b, SymArr):
            a, b = to_sym(a), to_sym(b)
            if len(a.shape) != len(b.shape):
                raise Failure(label, "shape %r vs %r" % (a.shape, b.shape))
            ok = True
            for x, y in zip(a.shape, b.shape):
                if prove.prove_zero(as_s(x) - as_s(y),
                                    list(PATH.conds)) is not True:
                    ok = False
            if not ok:
                self._rec(label + ".shape", None, None)
                return
            vs = [fresh_index(d) for d in a.shape]
            pairs = [(as_s(a.fn(tuple(vs))), as_s(b.fn(tuple(vs))))]
        else:
            if np.shape(_pl(a)) != np.shape(_pl(b)):
                raise Failure(label, "shape %r vs %r" %
                              (np.shape(_pl(a)), np.shape(_pl(b))))
            pairs = list(zip(self._flat(a), self._flat(b)))
        for x, y in pairs:
            d = x - y
            r = prove.prove_zero(d, list(PATH.conds))
            self._rec(label, r, d)
        if not pairs:
            self._rec(label, True, None)

    def holds(self, c, label="holds"):
        if isinstance(c, OArr):
            for x in _plain(c).ravel():
                self.holds(x, label)
            return
        if isinstance(c, SymArr):
            vs = [fresh_index(d) for d in c.shape]
            c = as_cond(c.fn(tuple(vs)))
        if isinstance(c, (bool, np.bool_)):
            if not c:
                raise Failure(label, "false")
            self._rec(label, True, None)
            return
        c = as_cond(c)
        self._rec(label, prove.prove_cond(c, list(PATH.conds)), c)

    def _rec(self, label, r, d):
        self.vcs.append((label, bool(r)))
        if r is not True:
            self.unproved.append((label, d, list(PATH.conds)))

    # derivatives
    def vjp(self, label, f, names, xs, vjp, pair=None, inpair=None,
            gcplx=False):
        outs = f(xs)
        gs = []
        for k, o in enumerate(outs):
            mk = self.cplx if gcplx else self.real
            gs.append(mk("g%d_%s" % (k, label), shape_of(o)))
        self.vjp_with(label, outs, names, xs, vjp(xs, gs), gs, pair, inpair)

    def grad_is(self, label, f, names, xs, grads, gs, pair=None,
                inpair=None):
        """grads is the adjoint of the derivative of f applied to gs."""
        self.vjp_with(label, f(xs), names, xs, grads, gs, pair, inpair)

    def vjp_with(self, label, outs, names, xs, grads, gs, pair=None,
                 inpair=None):
        """sum_j <g_j, D out_j> == sum_i <grad_i, V_i>."""
        pair = pair or (lambda g, d: g * d)
        inpair = inpair or pair
        dirs = {}
        for nm in names:
            kind = self.families[nm][1]
            sym.declare("V_" + nm, real=kind.get("real", True))
            dirs[nm] = "V_" + nm
        lhs = ZERO
        for g, o in zip(gs, outs):
            lhs = lhs + total(pair(g, amap(lambda t: diff(t, dirs), o)))
        rhs = ZERO
        for nm, x, gr in zip(names, xs, grads):
            if gr is None:
                continue
            shp = shape_of(x)
            if len(shape_of(gr)) != len(shp):
                raise Failure(label, "gradient shape %r for input shape %r" %
                              (shape_of(gr), shp))
            V = amap(lambda t: subst_dir(t, nm), x)
            rhs = rhs + total(inpair(gr, V))
        r = prove.prove_zero(lhs - rhs, list(PATH.conds))
        self._rec(label, r, lhs - rhs)


def _pl(a):
    if isinstance(a, OArr):
        return _plain(a)
    if isinstance(a, (list, tuple)):
        return _plain(oarr(a))
    return a


def subst_dir(t, nm):
    (m, c), = as_s(t).t.items()
    (a, e), = m
    assert a.kind == "var" and a.args[0] == nm
    return sym.var("V_" + nm, a.args[1], a.args[2])


def shape_of(o):
    if isinstance(o, SymArr):
        return o.shape
    if isinstance(o, S):
        return ()
    return np.shape(_pl(o))


def amap(f, a):
    if isinstance(a, SymArr):
        g = a.fn
        return SymArr(a.shape, lambda i: f(as_s(g(i))), a.cplx)
    if isinstance(a, S):
        return f(a)
    return omap(lambda x: f(as_s(x)), a)


def total(a):
    if isinstance(a, SymArr):
        return as_s(a.sum())
    if isinstance(a, (S, int, float, complex)):
        return as_s(a)
    return as_s(oarr(a).sum())


# ------------------------------------------------------------------- NumB
class NumB:
    symbolic = False

    def __init__(self, choices, rng, values=None, style=0):
        self.ch = choices
        self.rng = rng
        self.values = values or {}
        self.drawn = {}
        self.style = style
        self.checks = 0
        self.directions = {}

    def fork(self):
        pass

    def choose(self, name, options):
        return self.ch.choose(name, options)

    def dim(self, name, lo=1, hi=3):
        v = self.values.get("dim_" + name)
        if v is not None:
            r = int(v)
        else:
            r = int(self.rng.integers(lo, hi + 1))
        self.drawn["dim_" + name] = r
        return r

    def _draw(self, name, shape, cplx, pos, nn, lo, hi):
        shape = (shape, ) if not isinstance(shape, (tuple, list)) else tuple(
            shape)
        shape = tuple(int(d) for d in shape)
        rng = self.rng

        def base():
            st = self.style
            if lo is not None and hi is not None:
                return rng.uniform(lo, hi, shape)
            if lo is not None:
                return lo + np.abs(rng.normal(size=shape))
            if hi is not None:
                return hi - np.abs(rng.normal(size=shape))
            if st == 1:
                return rng.integers(-3, 4, shape).astype(float)
            if st == 2:
                return rng.normal(size=shape) * 10.0
            return rng.normal(size=shape)
        a = base()
        if pos:
            a = np.abs(a) + 0.2
        elif nn:
            a = np.abs(a)
        if cplx:
            im = base()
            # A complex array whose imaginary parts happen to be zero.
            if rng.random() < 0.12:
                im = im * 0
            a = a + 1j * im
        given = self.values.get(name)
        if given is not None:
            a = np.array(a, copy=True)
            for ix, v in given.items():
                try:
                    a[ix] = v
                except (IndexError, TypeError):
                    pass
        self.drawn[name] = np.array(a, copy=True)
        if shape == ():
            return complex(a) if cplx else float(a)
        return a

    def real(self, name, shape=(), lo=None, hi=None, pos=False, nn=False,
             **k):
        return self._draw(name, shape, False, pos, nn, lo, hi)

    def cplx(self, name, shape=(), **k):
        return self._draw(name, shape, True, False, False, None, None)

    def assume(self, c):
        if not np.all(c):
            raise Skip()

    def eq(self, a, b, label="eq", tol=1e-8):
        self.checks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Failure(label, "shape %r, expected %r" % (a.shape, b.shape))
        if not close(a, b, tol):
            raise Failure(label, "got %s, expected %s" % (brief(a), brief(b)))

    def holds(self, c, label="holds"):
        self.checks += 1
        if not np.all(c):
            raise Failure(label, "false")

    def vjp(self, label, f, names, xs, vjp, pair=None, inpair=None,
            gcplx=False):
        outs = f([cp(x) for x in xs])
        gs = [self.rng.normal(size=np.shape(o)) +
              (1j * self.rng.normal(size=np.shape(o)) if gcplx else 0)
              for o in outs]
        grads = vjp([cp(x) for x in xs], [cp(g) for g in gs])
        self.fd(label, f, xs, grads, gs, pair, inpair)

    def grad_is(self, label, f, names, xs, grads, gs, pair=None,
                inpair=None):
        self.fd(label, f, xs, grads, gs, pair, inpair)

    def fd(self, label, f, xs, grads, gs, pair=None, inpair=None):
        pair = pair or (lambda g, d: g * d)
        inpair = inpair or pair
        self.checks += 1
        for x, gr in zip(xs, grads):
            if gr is not None and np.shape(gr) != np.shape(x):
                raise Failure(label, "gradient shape %r for input shape %r" %
                              (np.shape(gr), np.shape(x)))
        for _ in range(2):
            Vs = [self.rng.normal(size=np.shape(x)) +
                  (1j * self.rng.normal(size=np.shape(x))
                   if np.iscomplexobj(x) else 0) for x in xs]

            def dd(h):
                p = f([x + h * v for x, v in zip(xs, Vs)])
                m = f([x - h * v for x, v in zip(xs, Vs)])
                return sum(np.sum(pair(g, (np.asarray(a) - np.asarray(b)) /
                                       (2 * h)))
                           for g, a, b in zip(gs, p, m))
            rhs = sum(np.sum(inpair(np.asarray(gr), v))
                      for gr, v in zip(grads, Vs) if gr is not None)
            best = None
            for h in (1e-4, 1e-5, 1e-6):
                d1, d2 = dd(h), dd(h / 2)
                e = (4 * d2 - d1) / 3
                err = abs(e - rhs)
                noise = abs(d1 - d2)
                scale = 1 + abs(rhs) + abs(e)
                q = (err / scale, err, e, noise / scale)
                if best is None or q < best:
                    best = q
            if best[0] > 1e-5 + 3 * best[3]:
                raise Failure(label, "directional derivative %s, gradient "
                              "gives %s" % (brief(best[2]), brief(rhs)))


def cp(x):
    return np.array(x, copy=True) if isinstance(x, np.ndarray) else x


def close(a, b, tol=1e-8):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    with np.errstate(all="ignore"):
        scale = max(1.0, np.nanmax(np.abs(np.where(np.isfinite(b), b, 0))))
        same = (a == b) | (np.isnan(a) & np.isnan(b))
        return bool(np.all(same | (np.abs(a - b) <= tol * scale)))


def brief(a):
    s = repr(a).replace("\n", " ")
    return s if len(s) < 300 else s[:300] + "..."


# ------------------------------------------------------------ running
class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def run_symbolic(fn, symdims=True, max_instances=200, budget=30.0, extra=()):
    """Generates and discharges the VCs of contract `fn`.

    Returns dict(status=..., vcs=, proved=, paths=, instances=, unproved=[...])
    status: proved | undecided | refuted
    """
    t0 = time.time()
    out = dict(status="proved", vcs=0, proved=0, paths=0, instances=0,
               unproved=[], reason=None, bounded=not symdims, failures=[])
    script = []
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, budget)
    try:
        while True:
            out["instances"] += 1
            # names are redeclared per instance (real in one, complex in
            # another): never reuse the atoms of an earlier instance
            sym.Atom._table.clear()
            sym.FAMILIES.clear()
            sym.FAM_VERSION[0] += 1
            decisions = []
            PATH.counter = 0
            while True:
                ch = Choices(script)
                B = SymB(ch, symdims)
                PATH.start(decisions, prove.feasible)
                try:
                    with facade.symbolic(extra):
                        fn(B)
                    out["paths"] += 1
                except Infeasible:
                    pass
                except Skip:
                    pass
                finally:
                    PATH.active = False
                out["vcs"] += len(B.vcs)
                out["proved"] += sum(1 for _, ok in B.vcs if ok)
                for lab, d, conds in B.unproved:
                    out["status"] = "undecided"
                    out["unproved"].append((lab, d, conds, list(ch.log)))
                decisions = PATH.next_decisions()
                if decisions is None:
                    break
            script = ch.next_script()
            if script is None or out["instances"] >= max_instances:
                break
    except Timeout:
        out["status"] = "undecided"
        out["reason"] = "time budget"
    except Unsupported as e:
        out["status"] = "undecided"
        out["reason"] = "unsupported: %s" % e
    except Failure as e:
        out["status"] = "undecided"
        out["reason"] = "failed: %s" % e
        out["failures"].append((str(e), list(ch.log), list(ch.script)))
    except RecursionError:
        out["status"] = "undecided"
        out["reason"] = "recursion"
    except Exception as e:  # the code under test or the proxy failed
        out["status"] = "undecided"
        out["reason"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        out["trace"] = traceback.format_exc()
        out["failures"].append((out["reason"], list(ch.log), list(ch.script)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        PATH.active = False
    if out["status"] == "proved" and (out["vcs"] == 0 or out["paths"] == 0):
        out["status"] = "undecided"
        out["reason"] = "vacuous: no obligation generated"
    out["time"] = time.time() - t0
    return out


def model_values(d, conds):
    """Counter-model of d == 0 under conds as NumB values, or None."""
    import z3
    enc = prove.Z3Enc()
    s = z3.Solver()
    s.set("timeout", 3000)
    try:
        fs = [enc.cond(c) for c in conds]
        if isinstance(d, S):
            fs.append(z3.Not(enc.cond(cmp_("==", d, ZERO))))
        elif isinstance(d, Cond):
            fs.append(z3.Not(enc.cond(d)))
        s.add(*fs)
        s.add(*enc.axioms)
        if s.check() != z3.sat:
            return None
        m = s.model()
        vals = {}
        for a, (re, im) in enc.memo.items():
            if not isinstance(a, sym.Atom) or a.kind != "var":
                continue
            idx = tuple(i.as_int() for i in a.args[1])
            if any(i is None for i in idx):
                continue

            def num(e):
                v = m.eval(e, model_completion=True)
                try:
                    if z3.is_algebraic_value(v):
                        v = v.approx(20)
                    return float(v.as_fraction())
                except Exception:
                    return 0.0
            x = num(re)
            if not sym.FAMILIES[a.args[0]]["real"]:
                y = num(im)
                x = complex(x, -y if a.args[2] else y)
            if a.args[0].startswith("dim_"):
                vals[a.args[0]] = x
            else:
                vals.setdefault(a.args[0], {})[idx] = x
        return vals
    except Exception:
        return None


def run_numeric(fn, n, seed, values=None, script=None):
    """Evaluates the contract on n drawn inputs; returns (evals, failure)."""
    evals = 0
    skipped = 0
    for k in range(n):
        rng = np.random.default_rng([seed, k])
        prng = random.Random(seed * 1000003 + k)
        ch = Choices(script or (), prng)
        B = NumB(ch, rng, values, style=k % 3)
        try:
            fn(B)
            evals += B.checks
        except Skip:
            skipped += 1
        except Failure as e:
            return evals, dict(label=e.label, detail=e.detail, seed=seed,
                               case=k, script=list(ch.script),
                               choices=[(a, repr(b)) for a, b in ch.log],
                               inputs={a: repr(b) for a, b in
                                       B.drawn.items()}, values=values)
    return evals, None
