"""Discharging verification conditions: normal form, case split, z3."""
import time
from fractions import Fraction

import z3

from . import sym
from .sym import (S, Atom, Cond, ZERO, ONE, F0, F1, HALF, Unsupported, conj,
                  ipow, inv, as_s, as_cond, cnot, cmp_, subst, rebuild,
                  FAMILIES, PATH, Infeasible, TRUE, FALSE, INDEX_DIM, cand,
                  _tkey)

STATS = {"nf": 0, "split": 0, "z3": 0, "z3_time": 0.0, "feas": 0}


# ---------------------------------------------------------------- z3 back end
class Z3Enc:
    """Encodes S terms as pairs (re, im) of z3 reals."""

    def __init__(self):
        self.axioms = []
        self.memo = {}
        self.ax = {}  # atom -> axioms it brings along
        self.conds = {}
        self.n = 0

    def fresh(self, nm="a"):
        self.n += 1
        return z3.Real("%s_%d" % (nm, self.n))

    def atom(self, a):
        r = self.memo.get(a)
        if r is not None:
            self.axioms.extend(self.ax.get(a, ()))
            return r
        outer, self.axioms = self.axioms, []
        try:
            r = self._atom(a)
        finally:
            outer.extend(self.axioms)
            mine, self.axioms = self.axioms, outer
        self.ax[a] = mine
        return r

    def formula(self, c):
        """The formula of a condition and the axioms of its atoms."""
        k = c.skey()
        r = self.conds.get(k)
        if r is None:
            self.axioms = []
            f = self.cond(c)
            r = self.conds[k] = (f, self.axioms)
        return r

    def _atom(self, a):
        k = a.kind
        zero = z3.RealVal(0)
        if k == "var":
            fam = FAMILIES[a.args[0]]
            if fam["real"]:
                v = z3.Real(repr(a))
                r = (v, zero)
                if fam["integer"]:
                    iv = z3.Int(repr(a) + "_int")
                    self.axioms.append(v == z3.ToReal(iv))
                if fam["pos"]:
                    self.axioms.append(v > 0)
                elif fam["nn"]:
                    self.axioms.append(v >= 0)
                self.memo[a] = r
                if a in INDEX_DIM:
                    d = self.term(INDEX_DIM[a])[0]
                    self.axioms.append(v >= 0)
                    self.axioms.append(v <= d - 1)
                return r
            base = Atom("var", (a.args[0], a.args[1], False), False)
            nm = repr(base)
            re, im = z3.Real(nm + ".re"), z3.Real(nm + ".im")
            r = (re, -im) if a.args[2] else (re, im)
        elif k == "inv":
            p = self.term(a.args[0])
            u, w = self.fresh("inv"), (zero if a.real else self.fresh("invi"))
            self.axioms.append(p[0] * u - p[1] * w == 1)
            if not a.real:
                self.axioms.append(p[0] * w + p[1] * u == 0)
            r = (u, w)
        elif k == "abs":
            p = self.term(a.args[0])
            u = self.fresh("abs")
            self.axioms.append(u >= 0)
            self.axioms.append(u * u == p[0] * p[0] + p[1] * p[1])
            r = (u, zero)
        elif k == "root" and a.real:
            p = self.term(a.args[0])
            u = self.fresh("root")
            self.axioms.append(u >= 0)
            e = u
            for _ in range(a.args[1] - 1):
                e = e * u
            self.axioms.append(e == p[0])
            r = (u, zero)
        elif k == "ind":
            c = self.cond(a.args[0])
            r = (z3.If(c, z3.RealVal(1), zero), zero)
        elif k == "mod":
            x, n = self.term(a.args[0])[0], self.term(a.args[1])[0]
            u = self.fresh("mod")
            q = z3.Int("q_%d" % self.n)
            iu = z3.Int("m_%d" % self.n)
            self.axioms += [u == z3.ToReal(iu), u >= 0, u <= n - 1,
                            x == z3.ToReal(q) * n + u]
            r = (u, zero)
        elif k == "fdiv":
            x, n = self.term(a.args[0])[0], self.term(a.args[1])[0]
            u = self.fresh("fdiv")
            iu = z3.Int("d_%d" % self.n)
            self.axioms += [u == z3.ToReal(iu), u * n <= x, x < u * n + n]
            r = (u, zero)
        else:
            u = self.fresh(k)
            r = (u, zero if a.real else self.fresh(k + "i"))
            if a.pos:
                self.axioms.append(u > 0)
            elif a.nn:
                self.axioms.append(u >= 0)
        self.memo[a] = r
        return r

    def term(self, p):
        re, im = z3.RealVal(0), z3.RealVal(0)
        for m, c in p.t.items():
            tr = z3.RealVal(str(c[0]))
            ti = z3.RealVal(str(c[1]))
            t = (tr, ti, bool(c[1]))
            for a, e in m:
                if e < 0:
                    # 1/a
                    key = ("recip", a)
                    ar = self.memo.get(key)
                    if ar is not None:
                        self.axioms.extend(self.ax[key])
                    else:
                        outer, self.axioms = self.axioms, []
                        x = self.atom(a)
                        u = self.fresh("rc")
                        if a.real:
                            self.axioms.append(x[0] * u == 1)
                            ar = (u, z3.RealVal(0))
                        else:
                            w = self.fresh("rci")
                            self.axioms.append(x[0] * u - x[1] * w == 1)
                            self.axioms.append(x[0] * w + x[1] * u == 0)
                            ar = (u, w)
                        self.memo[key] = ar
                        self.ax[key] = self.axioms
                        outer.extend(self.axioms)
                        self.axioms = outer
                else:
                    ar = self.atom(a)
                for _ in range(abs(e)):
                    if a.real:
                        t = (t[0] * ar[0], t[1] * ar[0] if t[2] else t[1],
                             t[2])
                    else:
                        if t[2]:
                            t = (t[0] * ar[0] - t[1] * ar[1],
                                 t[0] * ar[1] + t[1] * ar[0], True)
                        else:
                            t = (t[0] * ar[0], t[0] * ar[1], True)
            re = re + t[0]
            if t[2]:
                im = im + t[1]
        return (re, im)

    def cond(self, c):
        if c.op == "true":
            return z3.BoolVal(True)
        if c.op == "false":
            return z3.BoolVal(False)
        if c.op == "not":
            return z3.Not(self.cond(c.args[0]))
        if c.op == "and":
            return z3.And([self.cond(x) for x in c.args])
        a, b = self.term(c.args[0]), self.term(c.args[1])
        if c.op == "<":
            return a[0] < b[0]
        if c.op == "<=":
            return a[0] <= b[0]
        return z3.And(a[0] == b[0], a[1] == b[1])


_feas_cache = {}


_ENC = [None, None]


def encoder():
    """The encoder of the current declarations."""
    if _ENC[0] != sym.FAM_VERSION[0] or len(_ENC[1].memo) > 20000:
        _ENC[0], _ENC[1] = sym.FAM_VERSION[0], Z3Enc()
    return _ENC[1]


def assert_all(s, conds):
    enc = encoder()
    seen = set()
    for c in conds:
        f, ax = enc.formula(c)
        s.add(f)
        for x in ax:
            if x.get_id() not in seen:
                seen.add(x.get_id())
                s.add(x)


def feasible(conds, timeout=1500):
    """False only if the conjunction is definitely unsatisfiable."""
    key = (sym.FAM_VERSION[0], frozenset(c.skey() for c in conds))
    r = _feas_cache.get(key)
    if r is not None:
        return r
    STATS["feas"] += 1
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", timeout)
    assert_all(s, conds)
    res = s.check() != z3.unsat
    STATS["z3_time"] += time.time() - t0
    _feas_cache[key] = res
    return res


def z3_valid(conds, goal, timeout=8000):
    """True if conds => goal is proved."""
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", timeout)
    assert_all(s, list(conds) + [cnot(goal)])
    r = s.check()
    STATS["z3_time"] += time.time() - t0
    return True if r == z3.unsat else (False if r == z3.sat else None)


# ------------------------------------------------------------- normal form
def _small(p):
    """Coefficients that are only rounding of literals."""
    return all(abs(float(c[0])) < 1e-11 and abs(float(c[1])) < 1e-11
               for c in p.t.values())


def max_coef(p):
    return max([max(abs(float(c[0])), abs(float(c[1])))
                for c in p.t.values()] + [0.0])


def clear_inv(p):
    """Multiplies p by denominators (all non-zero): result==0 iff p==0."""
    for _ in range(60):
        target = None
        best = -1
        for m in p.t:
            for a, e in m:
                if a.kind == "inv" and a.id > best:
                    target, best = a, a.id
        if target is None:
            break
        q = target.args[0]
        K = 0
        by = {}
        for m, c in p.t.items():
            k = 0
            rest = []
            for a, e in m:
                if a is target:
                    k = e
                else:
                    rest.append((a, e))
            K = max(K, k)
            d = by.setdefault(k, {})
            d[tuple(rest)] = c
        out = ZERO
        for k, d in by.items():
            out = out + S(d) * ipow(q, K - k)
        p = out
    # negative powers of plain atoms
    for _ in range(40):
        neg = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        if not neg:
            break
        mul = ONE
        for a, e in neg.items():
            mul = mul * S({((a, -e), ): (F1, F0)})
        # multiply monomials
        p = p * mul
    return p


def first_cond(p):
    best = None

    def visit_atom(a):
        nonlocal best
        if a.kind == "ind":
            c = a.args[0]
            if best is None or a.id < best[0]:
                best = (a.id, c)
            return
        if a.kind == "sum":
            return  # bound variables: not split here
        for x in a.args:
            visit(x)

    def visit(x):
        if isinstance(x, S):
            for m in x.t:
                for a, _ in m:
                    visit_atom(a)
        elif isinstance(x, tuple):
            for y in x:
                visit(y)

    visit(p)
    return best[1] if best else None


def assign(p, c, val):
    """Replaces ind(c) by val everywhere outside sums."""
    target = c.skey()
    cache = {}

    def satom(a):
        r = cache.get(a)
        if r is None:
            if a.kind == "ind" and a.args[0].skey() == target:
                r = ONE if val else ZERO
            elif a.kind in ("var", "sum", "ind"):
                r = S.of_atom(a)
            else:
                r = rebuild(a, go, lambda x: x)
            cache[a] = r
        return r

    def go(q):
        out = ZERO
        for m, k in q.t.items():
            t = S({(): k})
            for a, e in m:
                t = t * ipow(satom(a), e)
            out = out + t
        return out

    return go(p)


def pointwise(p, conds, depth, budget):
    """Combines sums over the same ranges: sum_i (a_i + b_i) is zero when
    every a_i + b_i is."""
    groups = {}
    for m, c in p.t.items():
        sums = [(a, e) for a, e in m if a.kind == "sum"]
        if len(sums) != 1 or sums[0][1] != 1:
            return False
        sa = sums[0][0]
        outer = tuple(x for x in m if x[0] is not sa)
        dims, body = sa.args
        groups.setdefault((outer, tuple(repr(d) for d in dims)),
                          []).append((dims, body, c))
    if not groups or all(len(g) == 1 for g in groups.values()):
        return False
    for g in groups.values():
        dims = g[0][0]
        fr = [sym.fresh_index(d) for d in dims]
        tot = ZERO
        for d2, body, c in g:
            tot = tot + S({(): c}) * sym.subst_bound(
                S({body: (sym.F1, sym.F0)}), d2, fr)
        if prove_zero(tot, conds, depth + 1, budget) is not True:
            return False
    return True


def drop_zero(p, conds):
    """p without the monomials that hold a factor known to be zero."""
    keys = set()
    for c in conds:
        if c.op == "==" or c.op == "<=":
            l, r = c.args
            d = l - r
            if len(d.t) != 1:
                continue
            (m, _), = d.t.items()
            if len(m) != 1 or m[0][1] < 1:
                continue
            a = m[0][0]
            if c.op == "==" and a.kind == "var":
                keys.add(a.args[:2])
            elif a.kind == "abs" and r.is_const() and not r.t:
                t = a.args[0]
                if len(t.t) == 1:
                    (m, _), = t.t.items()
                    if len(m) == 1 and m[0][0].kind == "var":
                        keys.add(m[0][0].args[:2])
    if not keys:
        return p

    def zero(a):
        if a.kind == "var":
            return a.args[:2] in keys
        if a.kind == "abs":
            t = a.args[0]
            return len(t.t) == 1 and any(zero(x) and e > 0 for x, e in
                                         next(iter(t.t)))
        return False
    out = {}
    for m, c in p.t.items():
        if any(e < 0 for _, e in m):
            return p
        if not any(zero(a) for a, _ in m):
            out[m] = c
    return S(out)


def eq_subst(p, conds):
    """p after eliminating variables that a condition gives as v == t."""
    eqs = []
    for c in conds:
        for k in (c.args if c.op == "and" else (c, )):
            if k.op == "==":
                eqs.append(k.args[0] - k.args[1])
    for i in range(len(eqs)):
        d = eqs[i]
        for m, c in d.t.items():
            if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "var":
                continue
            v = m[0][0]
            name, idx, cj = v.args
            rest = S({k: x for k, x in d.t.items() if k != m})
            t = -rest / S({(): c})
            pair = {v: t}
            if sym.FAMILIES[name]["real"]:
                if not t.is_real():
                    continue
            else:
                pair[sym.atom_of(sym.var(name, idx, not cj))] = sym.conj(t)
            if sym.deps(rest) & pair.keys():
                continue
            p = sym.subst(p, pair)
            eqs = [sym.subst(e, pair) for e in eqs]
            break
    return p


def prove_zero(p, conds, depth=0, budget=None):
    """Returns True (proved), or None (undecided)."""
    if budget is None:
        budget = [400]
    p = as_s(p)
    if not p.t:
        STATS["nf"] += 1
        return True
    if budget[0] <= 0:
        return None
    budget[0] -= 1
    c = first_cond(p)
    if c is not None and depth < 14:
        STATS["split"] += 1
        for val in (True, False):
            cc = c if val else cnot(c)
            if any(k == cnot(cc) for k in conds):
                continue
            if not any(k == cc for k in conds) and not feasible(conds + [cc]):
                continue
            try:
                q = assign(p, c, val)
            except ZeroDivisionError:
                return None
            r = prove_zero(q, conds + [cc], depth + 1, budget)
            if r is not True:
                return r
        return True
    p0 = p
    p = clear_inv(p)
    if not p.t or _small(p):
        STATS["nf"] += 1
        return True
    if depth < 14 and pointwise(p0, conds, depth, budget):
        return True
    q = drop_zero(p, conds)
    if q is not p and (not q.t or _small(q)):
        STATS["nf"] += 1
        return True
    if any(c.op in ("==", "and") for c in conds):
        try:
            q = clear_inv(eq_subst(p0, conds))
        except (ZeroDivisionError, sym.Unsupported):
            q = p
        if not q.t or _small(q):
            STATS["nf"] += 1
            return True
    if not feasible(conds):
        return True
    if len(p.t) <= 60:
        STATS["z3"] += 1
        r = z3_valid(conds, cmp_("==", p, ZERO), 4000)
        if r:
            return True
    return None


def prove_cond(c, conds):
    c = as_cond(c)
    if c.op == "true":
        return True
    if any(k == c for k in conds):
        return True
    if c.op == "and":
        for x in c.args:
            r = prove_cond(x, conds)
            if r is not True:
                return r
        return True
    if c.op == "==":
        return prove_zero(c.args[0] - c.args[1], conds)
    STATS["z3"] += 1
    r = z3_valid(conds, c)
    return True if r else None
