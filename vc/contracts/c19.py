"""C19: simulations solve the wave equation, adjoint and caches included.

* The matrix solver's contract (A x = b) is assumed of scipy; everything the
  repository does around it (source, stretched grid, preconditioning, adjoint)
  is executed symbolically and the returned field is related to the discrete
  wave equation for every solution the solver may return.
* Gradients: the simulation is an arbitrary linear system A, so the identity
  "gradient . d(eps) = derivative of the objective" is decided for every grid,
  source and absorbing layer at once.
* Caches: the solver is an arbitrary function of the request; histories of
  requests, in-place changes of the caller's arrays and of returned arrays.
"""
import contextlib
import types

import numpy as np
import scipy.sparse
import scipy.sparse.linalg

from vc.run import Contract, Bounded
from vc.harness import Failure
from vc.contracts.c08 import dxes_, mat, omega_, field, vec

from spins import fdfd_tools
from spins import goos
from spins.fdfd_solvers import local_matrix_solvers as lms
from spins.fdfd_tools import operators as op
from spins.goos_sim import maxwell
from spins.goos_sim.maxwell import simulate as gsim
from spins.invdes import problem
from spins.invdes.problem import emobjective
from spins.invdes.problem import simulation as oldsim
from spins.invdes.problem_graph import creator_em as em
from spins.invdes.problem_graph.functions import poynting

LEVEL = "proof"
TECHNIQUE = ("contracts on the real solvers, simulation nodes and caches, "
             "symbolic execution with an assumed contract of the linear "
             "solver (A x = b for an arbitrary A); normal form and z3")
ASSUMPTIONS = [
    "scipy.sparse.linalg.spsolve returns the solution of the system it is "
    "given; qmr and bicg return a residual below max(tol*|b|, atol) when "
    "they report convergence",
    "the wave operator e_full and the stretched grid apply_scpml are used by "
    "their contracts C08 and C09",
    "grids of a fixed list of small shapes with all values symbolic; linear "
    "systems of 3 and 6 unknowns with arbitrary entries for the gradients",
    "histories of three requests with up to two caller-owned arrays and "
    "changes in between, cache sizes 0 to 3 (random histories of up to 14 "
    "operations numerically)",
    "real Bloch vectors; the modes of mode sources and overlaps are computed "
    "once per simulation node and treated as fixed",
]
M = "spins/fdfd_solvers/local_matrix_solvers.py:"
O = "spins/invdes/problem/simulation.py:"
C = "spins/invdes/problem_graph/creator_em.py:"
G = "spins/goos_sim/maxwell/simulate.py:"
AX = (0, 1, 2)


def oa(B, xs, dtype=complex):
    if B.symbolic:
        from vc.arrays import oarr
        xs = np.array([x for x in xs] + [None], dtype=object)[:-1]
        return oarr(xs)
    return np.array(list(xs), dtype=dtype)


def spm(B, a):
    if B.symbolic:
        from vc.spmat import SpMat
        return SpMat.of(np.asarray(a, dtype=float))
    return scipy.sparse.csr_matrix(a)


def mv(B, A, x):
    """A @ x for a nested list of (symbolic) entries."""
    out = []
    for row in A:
        r = 0
        for a, v in zip(row, x):
            r = r + a * v
        out.append(r)
    return oa(B, out)


def cj(x):
    return np.conj(x)


# ------------------------------------------------------------- matrix solves
SHAPES = [(2, 1, 2), (1, 2, 2), (2, 2, 1), (1, 1, 3)]


def nset(B, with_masks):
    """Well conditioned values for the numeric evaluations."""
    layers = B.choose("layers", [None, "x"])
    shape = (4, 1, 2) if layers else B.choose("shape", SHAPES + [(3, 3, 2)])
    layers = [1, 2, 0, 0, 0, 0] if layers else None
    n = 3 * int(np.prod(shape))
    lossy = not layers and B.choose("lossy", [False, True])
    dx = [[B.real("d%d%d" % (g, a), (shape[a], ), lo=0.5, hi=2) *
           (1 - (0.5j if lossy else 0)) for a in AX] for g in range(2)]
    eps = B.real("er", (n, ), lo=1, hi=4) - 1j * B.real("ei", (n, ), lo=0.1,
                                                        hi=1)
    mu = B.real("mu", (n, ), lo=1, hi=2) + 0.1j if B.choose(
        "mu", [False, True]) else None
    pmc = None
    if with_masks and B.choose("pmc", [False, True]):
        pmc = np.array([(7 * i) % 3 == 0 for i in range(n)], dtype=int)
    bloch = B.real("k", (3, )) if B.choose("bloch", [False, True]) else None
    if bloch is not None and (layers or lossy):
        # complex phases grow exponentially along stretched axes
        bloch = bloch * [0, 1, 1] if layers else 0.05 * bloch
    w = 1.3 if layers else complex(1.3, B.choose("wi", [0, 0.2]))
    return shape, n, layers, dx, eps, mu, pmc, bloch, w, B.cplx("J", (n, ))


def setup(B, with_masks=True, cplx=None):
    if not B.symbolic:
        return nset(B, with_masks)
    layers = B.choose("layers", [None, "x"])
    if layers:
        shape = (4, 1, 2)
        layers = [1, 2, 0, 0, 0, 0]
        dx = dxes_(B, shape, cplx=False)
    else:
        shape = B.choose("shape", SHAPES)
        dx = dxes_(B, shape, cplx=cplx)
    n = 3 * int(np.prod(shape))
    eps = mat(B, "eps", shape)
    mu = mat(B, "mu", shape) if B.choose("mu", [False, True]) else None
    pmc = None
    if with_masks and B.choose("pmc", [False, True]):
        pmc = np.array([(7 * i) % 3 == 0 for i in range(n)], dtype=int)
    bloch = B.choose("bloch", [None, "k"])
    if bloch:
        bloch = B.real("k", (3, ))
    if layers:
        # the stretched widths depend on the frequency
        w = B.real("w", pos=True)
    else:
        w = omega_(B)
    J = B.cplx("J", (n, ))
    return shape, n, layers, dx, eps, mu, pmc, bloch, w, J


def related(B, label, A0, E, b0, A, x, b, n):
    """A0 E = b0 follows from A x = b, for every x and source.

    With b = D b0, D diagonal without zeros, the residuals are related by
    A x - b = D (A0 E - b0); D is eliminated by cross multiplication.
    """
    if not B.symbolic:
        r = np.linalg.norm(A0 @ E - b0)
        size = abs(A0).sum(axis=1).max() * np.linalg.norm(E)
        if not r <= 1e-7 * (np.linalg.norm(b0) + size) + 1e-12:
            raise Failure(label, "residual %g of a source of size %g" %
                          (r, np.linalg.norm(b0)))
        B.holds(True, label)
        return
    r, s = A @ x, A0 @ E
    from vc.sym import S as Sym, as_s
    names = {a.args[0] for v in x for m in as_s(v).t for a, _ in m}
    for i in range(n):
        d = as_s(b[i] * s[i] - b0[i] * r[i])
        # the coefficients of every entry of x vanish
        parts = {}
        for m, c in d.t.items():
            key = tuple(a for a, _ in m
                        if a.kind == "var" and a.args[0] in names)
            parts.setdefault(key, {})[m] = c
        for p in list(parts.values()) or [{}]:
            B.eq(Sym(p), 0, label + ".row")


class SymSolver(lms.LocalMatrixSolver):

    def __init__(self, B, n):
        self.B, self.n = B, n
        self.x = B.cplx("x", (n, )) if B.symbolic else None

    def solve_matrix_equation(self, A, b):
        self.A, self.b = A, b
        if not self.B.symbolic:
            self.x = np.linalg.solve(A.toarray(), b)
        return self.x


def c_solve(adjoint):

    def f(B):
        shape, n, layers, dx, eps, mu, pmc, bloch, w, J = setup(B)
        s = SymSolver(B, n)
        kw = dict(omega=w, dxes=dx, J=J, epsilon=eps, pml_layers=layers,
                  mu=mu, pmc=pmc, bloch_vec=bloch)
        if adjoint:
            kw["adjoint"] = True
        E = s.solve(**kw)
        d2 = fdfd_tools.grid.apply_scpml(dx, layers, w)
        A0 = op.e_full(w, d2, eps, mu=mu, pmc=pmc, bloch_vec=bloch)
        if adjoint:
            A0 = A0.T.conj()
        related(B, "wave equation", A0, E, -1j * w * J, s.A, s.x, s.b, n)

    return f


def c_reject(B):
    """Unsupported options raise and are not ignored."""
    shape = (1, 1, 2)
    n = 6
    dx = dxes_(B, shape, cplx=False)
    s = SymSolver(B, n)
    kw = dict(omega=omega_(B), dxes=dx, J=B.cplx("J", (n, )),
              epsilon=mat(B, "eps", shape))
    which = B.choose("which", ["symmetry", "pemc"])
    val = np.zeros(3 if which == "symmetry" else 6)
    k = B.choose("index", [0, 1, 2])
    val[k] = 1
    try:
        s.solve(**{which: val}, **kw)
    except NotImplementedError:
        B.holds(True, which)
    else:
        raise Failure(which, "option accepted and ignored")
    s.solve(**{which: 0 * val}, **kw)
    s.solve(**{which: None}, **kw)


def c_direct(B):
    """DirectSolver returns the solution of the system it is given."""
    n = B.choose("n", [1, 2, 3])
    A = [[B.cplx("a%d%d" % (i, j)) for j in range(n)] for i in range(n)]
    if not B.symbolic:
        A = np.array(A, dtype=complex) + 5 * np.eye(n)
        b = B.cplx("b", (n, ))
        x = lms.DirectSolver().solve_matrix_equation(
            scipy.sparse.csr_matrix(A), b)
        B.eq(A @ x, b, "A x = b")
        return
    from vc.spmat import SpMat
    Am = SpMat((n, n), {(i, j): A[i][j] for i in range(n)
                        for j in range(n)})
    b, x = B.cplx("b", (n, )), B.cplx("x", (n, ))
    seen = []

    def spsolve(A_, b_, *a, **k):
        seen.append((A_, b_))
        return x

    with patched(scipy.sparse.linalg, spsolve=spsolve):
        got = lms.DirectSolver().solve_matrix_equation(Am, b)
    B.holds(len(seen) == 1, "solved once")
    # A x = b follows from A_ x = b_
    for i in range(n):
        B.eq((Am @ got)[i] - b[i], (seen[0][0] @ x)[i] - seen[0][1][i],
             "A x = b")


@contextlib.contextmanager
def patched(mod, **kw):
    old = {k: getattr(mod, k) for k in kw}
    try:
        for k, v in kw.items():
            setattr(mod, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(mod, k, v)


# --------------------------------------------- invdes.problem.FdfdSimulation
class ForwardSolver:
    """Contract of a forward solver: A(args) v = -i omega J."""

    def __init__(self, B, n, key="v"):
        self.B, self.n, self.key = B, n, key
        self.calls = []

    def solve(self, omega, dxes, J, epsilon, pml_layers=None, mu=None,
              pec=None, pmc=None, pemc=None, bloch_vec=None, symmetry=None,
              adjoint=False, E0=None):
        B = self.B
        d2 = fdfd_tools.grid.apply_scpml(dxes, pml_layers, omega)
        A = op.e_full(omega, d2, epsilon, mu=mu, pec=pec, pmc=pmc,
                      bloch_vec=bloch_vec)
        if adjoint:
            A = A.T.conj()
        b = -1j * omega * J
        if B.symbolic:
            v = B.cplx("%s%d" % (self.key, len(self.calls)), (self.n, ))
        else:
            v = np.linalg.solve(A.toarray(), b)
        self.calls.append((A, v, b))
        return v


def old_sim(B, solver, cache_size=1):
    shape, n, layers, dx, eps, mu, pmc, bloch, w, J = setup(
        B, with_masks=False)
    # both grids of a period have the same length
    for a in AX:
        tot, oth = 0, 0
        for i in range(shape[a]):
            tot = tot + dx[0][a][i]
        for i in range(shape[a] - 1):
            oth = oth + dx[1][a][i]
        if B.symbolic:
            dx[1][a][shape[a] - 1] = tot - oth
        else:
            dx[1][a] = dx[1][a] * (tot / np.sum(dx[1][a]))
    if layers and bloch is not None:
        bloch = oa(B, [0, bloch[1], bloch[2]], float)
    if layers:
        dx = fdfd_tools.grid.apply_scpml(dx, layers, w)
    m = 2
    S_ = np.array([[(i + j) % 2 for j in range(m)] for i in range(n)],
                  dtype=float)
    un = lambda v: fdfd_tools.unvec(v, shape)
    sim = oldsim.FdfdSimulation(
        solver, list(shape), w, dx, un(J), spm(B, S_),
        un(eps), mu=None if mu is None else un(mu), bloch_vec=bloch,
        cache_size=cache_size)
    return sim, S_, n, shape, dx, eps, mu, bloch, w, J, m


def c_oldforward(B):
    s = ForwardSolver(B, 0)
    sim, S_, n, shape, dx, eps, mu, bloch, w, J, m = old_sim(B, s)
    s.n = n
    z = B.real("z", (m, ), pos=True)
    E = sim.simulate(z)
    e2 = eps + oa(B, [sum(S_[i, j] * z[j] for j in range(m))
                      for i in range(n)])
    A0 = op.e_full(w, dx, e2, mu=mu, bloch_vec=bloch)
    A, v, b = s.calls[-1]
    related(B, "wave equation", A0, E, -1j * w * J, A, v, b, n)


def c_oldadjoint(B):
    s = ForwardSolver(B, 0)
    sim, S_, n, shape, dx, eps, mu, bloch, w, J, m = old_sim(B, s)
    s.n = n
    z = B.real("z", (m, ), pos=True)
    E = oldsim.AdjointFdfdSimulation(sim).simulate(z, J)
    e2 = eps + oa(B, [sum(S_[i, j] * z[j] for j in range(m))
                      for i in range(n)])
    A0 = op.e_full(w, dx, e2, mu=mu, bloch_vec=bloch).T.conj()
    A, v, b = s.calls[-1]
    related(B, "adjoint equation", A0, E, -1j * w * J, A, v, b, n)


# ------------------------------------------------------------------ gradients
class System:
    """A simulation as an arbitrary linear system A (depending on eps).

    E is the field for eps, A E' = omega^2 diag(delta) E its derivative in
    the direction delta. For the symbolic run E', delta, A and the adjoint
    field d are free; E and the objective's gradient g = conj(A^H d) follow.
    """

    def __init__(self, B, n, w, real, tag=""):
        self.B, self.n, self.w = B, n, w
        self.A = [[B.cplx("A%s%d%d" % (tag, i, j)) for j in range(n)]
                  for i in range(n)]
        if real:
            self.delta = B.real("delta" + tag, (n, ), pos=True)
        else:
            self.delta = B.cplx("delta" + tag, (n, )) if B.symbolic else \
                B.real("delta", (n, ), lo=0.5, hi=2) + 1j * B.real(
                    "deltai", (n, ))
        self.dE = B.cplx("dE" + tag, (n, ))
        self.d = B.cplx("d" + tag, (n, ))
        AdE = mv(B, self.A, self.dE)
        self.E = oa(B, [AdE[i] / (w * w * self.delta[i]) for i in range(n)])
        AH = [[cj(self.A[j][i]) for j in range(n)] for i in range(n)]
        self.rhs = mv(B, AH, self.d)  # A^H d
        self.g = oa(B, [cj(x) for x in self.rhs])


class SysSolver:
    """Solver whose answers are the system's; every request is checked."""

    def __init__(self, B, sy, expect):
        self.B, self.sy, self.expect = B, sy, expect
        self.adj = self.fwd = 0

    def same(self, a, b, label):
        if a is None or b is None:
            a = 0 if a is None else a
            b = 0 if b is None else b
            if np.ndim(a) == 0:
                a = np.zeros(np.shape(b))
            if np.ndim(b) == 0:
                b = np.zeros(np.shape(a))
        if isinstance(a, (list, tuple)) and a and isinstance(
                a[0], (list, tuple, np.ndarray)):
            B = self.B
            B.holds(len(a) == len(b), label)
            for x, y in zip(a, b):
                self.same(x, y, label)
            return
        self.B.eq(np.asarray(a) if isinstance(a, (list, tuple)) else a,
                  np.asarray(b) if isinstance(b, (list, tuple)) else b,
                  label)

    def solve(self, omega, dxes, J, epsilon, pml_layers=None, mu=None,
              bloch_vec=None, symmetry=None, adjoint=False, **kw):
        B, sy, e = self.B, self.sy, self.expect
        for k, v in kw.items():
            if v is not None:
                raise Failure("request", "unexpected option %s" % k)
        self.same(omega, e["omega"], "request.omega")
        self.same(dxes, e["dxes"], "request.dxes")
        self.same(epsilon, e["eps"], "request.epsilon")
        self.same(pml_layers, e.get("pml"), "request.pml_layers")
        self.same(bloch_vec, e.get("bloch"), "request.bloch_vec")
        self.same(symmetry, e.get("symmetry"), "request.symmetry")
        self.same(mu, None, "request.mu")
        if adjoint:
            self.adj += 1
            # d solves A^H d = -i omega J: the adjoint source is g's
            B.eq(-1j * omega * J, sy.rhs, "adjoint source")
            return sy.d * 1
        self.fwd += 1
        self.same(J, e["J"], "request.J")
        return sy.E * 1


def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = r + x * y
    return r


def c_emgrad(B):
    """creator_em.FdfdSimulation: values and gradient."""
    shape = B.choose("shape", [(1, 1, 1), (2, 1, 1)])
    n = 3 * int(np.prod(shape))
    real = B.choose("eps", ["complex", "real"]) == "real"
    wl = B.real("wlen", pos=True)
    w = 2 * np.pi / wl
    sy = System(B, n, w, real)
    eps = B.real("eps", (n, ), pos=True) if real else B.cplx("eps", (n, ))
    if not real and not B.symbolic:
        eps = eps + 0j
    dx = dxes_(B, shape, cplx=False)
    pml = B.choose("pml", [[0, 0, 0, 0, 0, 0], [10, 10, 9, 8, 7, 6]])
    bloch = B.choose("bloch", [None, "k"])
    if bloch:
        bloch = B.real("k", (3, ))
    J = field(B, "J", shape)
    space = types.SimpleNamespace(dxes=dx, pml_layers=pml)
    s = SysSolver(B, sy, dict(omega=w, dxes=dx, eps=eps, pml=pml,
                              bloch=bloch, J=vec(J)))
    sim = em.FdfdSimulation(eps=problem.Variable(n), solver=s, wlen=wl,
                            source=J, simspace=space, bloch_vector=bloch,
                            cache_size=B.choose("cache", [1, 2]))
    order = B.choose("order", ["value first", "gradient first"])
    if order == "value first":
        B.eq(sim.eval([eps]), sy.E, "field")
    gr = sim.grad([eps], sy.g)
    B.holds(len(gr) == 1, "one gradient")
    B.eq(np.real(dot(gr[0], sy.delta)), np.real(dot(sy.g, sy.dE)),
         "gradient")
    if real:
        B.eq(np.imag(gr[0]), 0 * np.real(sy.E), "real gradient")
    B.eq(sim.eval([eps]), sy.E, "field")
    B.holds(s.adj == 1, "one adjoint solve")


def c_emobjective(B):
    """EmObjective: gradient of the structure through the simulation."""
    shape = (1, 1, 1)
    n, m = 3, 2
    w = omega_(B) if B.choose("omega", ["real", "complex"]) == "complex" \
        else (B.real("w", pos=True) if B.symbolic else 1.7)
    sy = System(B, n, w, True)
    S_ = [[B.real("s%d%d" % (i, j), pos=True) for j in range(m)]
          for i in range(n)]
    dz = B.real("dz", (m, ), pos=True)
    # delta = S dz; E is recomputed accordingly
    delta = [dot(S_[i], dz) for i in range(n)]
    AdE = mv(B, sy.A, sy.dE)
    E = oa(B, [AdE[i] / (w * w * delta[i]) for i in range(n)])
    if B.symbolic:
        from vc.spmat import SpMat
        sel = SpMat((n, m), {(i, j): S_[i][j] for i in range(n)
                             for j in range(m)})
    else:
        sel = scipy.sparse.csr_matrix(np.array(S_, dtype=float))
    base = B.cplx("eps", (n, ))
    z = B.real("z", (m, ), pos=True)
    dx = dxes_(B, shape, cplx=False)
    full = base + oa(B, [dot(S_[i], z) for i in range(n)])

    class Fwd:

        def solve(self, **kw):
            B.eq(kw["epsilon"], full, "epsilon")
            return E * 1

    class Adj:
        """Contract of AdjointFdfdSimulation: A^H x = -i omega J."""

        def simulate(self, z_, J_):
            B.eq(z_, z, "adjoint structure")
            B.eq(-1j * w * J_, sy.rhs, "adjoint source")
            return sy.d * 1

    un = lambda v: fdfd_tools.unvec(v, shape)
    sim = oldsim.FdfdSimulation(Fwd(), list(shape), w, dx,
                                un(B.cplx("J", (n, ))), sel, un(base))
    part = B.real("part", (m, ))
    val = B.real("val")

    class Obj(emobjective.EmObjective):

        def calculate_f(self, x, st):
            B.eq(x, E, "fields")
            return val

        def calculate_partial_df_dx(self, x, st):
            B.eq(x, E, "fields")
            return sy.g

        def calculate_partial_df_dz(self, x, st):
            return part

    with patched(emobjective, AdjointFdfdSimulation=lambda s: Adj()):
        o = Obj(sim)
    got = o.calculate_df_dz(sim.simulate(z), z)
    want = 2 * np.real(dot(sy.g, sy.dE))
    B.eq(dot(got, dz), want, "gradient of the structure")
    if B.symbolic:
        return
    p, dp = B.real("p", (m, )), B.real("dp", (m, m))

    class P:

        def get_structure(self):
            return z

        def calculate_gradient(self):
            return dp

    B.eq(o.calculate_objective_function(P()), val, "value")
    B.eq(o.calculate_gradient(P()), dp.T @ (got + part), "chain rule")


def c_linear(B):
    """Epsilon and OverlapFunction: affine maps and their gradients."""
    which = B.choose("which", ["epsilon", "overlap"])
    n, m = 6, 2
    if which == "overlap":
        ov = B.cplx("ov", (n, ))
        f = em.OverlapFunction(problem.Variable(n), ov)
        x, dx = B.cplx("x", (n, )), B.cplx("dx", (n, ))
        g = B.cplx("g")
        B.eq(f.eval([x]), dot(ov, x), "overlap")
        gr = f.grad([x], g)
        B.eq(np.real(dot(gr[0], dx)), np.real(g * dot(ov, dx)), "gradient")
        return
    shape = (2, 1, 1)
    bg = field(B, "bg", shape)
    S_ = [[B.cplx("s%d%d" % (i, j)) for j in range(m)] for i in range(n)]
    if B.symbolic:
        from vc.spmat import SpMat
        sel = SpMat((n, m), {(i, j): S_[i][j] for i in range(n)
                             for j in range(m)})
    else:
        sel = scipy.sparse.csr_matrix(np.array(S_, dtype=complex))
    wl = B.real("wl", pos=True)
    asked = []

    def space(wlen):
        asked.append(wlen)
        return types.SimpleNamespace(eps_bg=types.SimpleNamespace(grids=bg),
                                     selection_matrix=sel)

    f = em.Epsilon(problem.Variable(m), wl, space)
    for a in asked:
        B.eq(a, wl, "wavelength")
    x, dx = B.real("x", (m, )), B.real("dx", (m, ))
    B.eq(f.eval([x]), vec(bg) + oa(B, [dot(S_[i], x) for i in range(n)]),
         "permittivity")
    g = B.cplx("g", (n, ))
    gr = f.grad([x], g)
    B.eq(dot(gr[0], dx),
         np.real(dot(g, [dot(S_[i], dx) for i in range(n)])), "gradient")


def c_diffeps(B):
    n = 3
    x, ref = B.cplx("x", (n, )), B.cplx("ref", (n, ))
    # the function is quadratic: f(x+h) - f(x-h) is twice its derivative
    h = B.real("h", (n, )) if B.choose("dir", ["real", "imag"]) == "real" \
        else B.real("h", (n, )) * 1j
    real = B.choose("x", ["complex", "real"]) == "real"
    if real:
        x = B.real("xr", (n, ))
        h = B.real("hr", (n, ))
    f = em.DiffEpsilon(problem.Variable(n), lambda: ref)
    B.eq(f.eval([x]), sum(np.real((x[i] - ref[i]) * cj(x[i] - ref[i]))
                          for i in range(n)), "distance")
    c = B.real("g")
    gr = f.grad([x], c)
    g = f.grad([x], 1.0)
    B.eq(f.eval([x + h]) - f.eval([x - h]), 2 * np.real(dot(g[0], h)),
         "derivative")
    B.eq(gr[0], c * g[0], "linear in the incoming gradient")


def c_power(B):
    """PowerTransmissionFunction: its value and Wirtinger gradient."""
    shape = B.choose("shape", [(2, 2, 1), (1, 2, 2), (2, 1, 2)])
    n = 3 * int(np.prod(shape))
    dx = dxes_(B, shape, cplx=False)
    axis = B.choose("axis", AX)
    pol = B.choose("polarity", [1, -1])
    sl = [slice(0, s) for s in shape]
    sl[axis] = slice(shape[axis] - 1, shape[axis])
    wl = B.real("wlen", pos=True)
    if not B.symbolic:
        wl = wl + 1.0
    space = types.SimpleNamespace(dxes=dx, dims=list(shape))
    f = poynting.PowerTransmissionFunction(problem.Variable(n), space, wl,
                                           tuple(sl), axis, pol)
    E, h = B.cplx("E", (n, )), B.cplx("h", (n, ))
    w = 2 * np.pi / wl
    H = op.e2h(w, dx) @ E
    S_ = op.poynting_chew_e_cross(E, dx) @ np.conj(H)
    S3 = fdfd_tools.unvec(0.5 * np.real(S_), shape)[axis]
    tot = 0
    for ix in np.ndindex(*shape):
        if ix[axis] == shape[axis] - 1:
            tot = tot + S3[ix]
    B.eq(f.eval([E]), pol * tot, "power")
    g = f.grad([E], 1)
    B.eq(f.eval([E + h]) - f.eval([E - h]), 4 * np.real(dot(g[0], h)),
         "Wirtinger derivative")
    c = B.real("c")
    B.eq(f.grad([E], c)[0], c * g[0], "linear in the incoming gradient")


# ------------------------------------------------------------------------ goos
@goos.polymorphic_model()
class StubSolver(maxwell.Solver):
    type = goos.ModelNameType("solver.vc_stub")


@goos.polymorphic_model()
class StubSource(maxwell.SimSource):
    type = goos.ModelNameType("source.vc_stub")


CUR = {}


@maxwell.register(StubSolver)
class StubSolverImpl:

    def __init__(self, solver, dims):
        self.dims = dims

    def solve(self, *a, **k):
        return CUR["solver"].solve(*a, **k)


@maxwell.register(StubSource)
class StubSourceImpl(gsim.SimSourceImpl):

    def __init__(self, params):
        pass

    def before_sim(self, sim):
        sim.source += CUR["J"]


def goos_node(plan_eps, nx, outputs, wl, symmetry=None, pml=None):
    kw = {}
    if symmetry is not None:
        kw["reflection_symmetry"] = symmetry
    space = maxwell.SimulationSpace(
        sim_region=goos.Box3d(center=[0, 0, 0], extents=[40 * nx, 40, 40]),
        mesh=maxwell.UniformMesh(dx=40),
        pml_thickness=pml or [0, 0, 0, 0, 0, 0], **kw)
    return maxwell.SimulateNode(eps=plan_eps, sources=[StubSource()],
                                wavelength=wl, simulation_space=space,
                                outputs=outputs, solver_info=StubSolver())


def overlap_out(name, k):
    return maxwell.WaveguideModeOverlap(
        name=name, wavelength=1000, center=[0, 0, 0], extents=[0, 40, 40],
        normal=[1, 0, 0], mode_num=k, power=1)


def c_goosgrad(B):
    """SimulateNode: outputs and gradient for every eps and overlap."""
    nx = B.choose("nx", [1, 2])
    shape = (nx, 1, 1)
    n = 3 * nx
    real = B.choose("eps", ["complex", "real"]) == "real"
    wl = 1000.0
    w = 2 * np.pi / wl
    sy = System(B, n, w, real)
    e3 = B.real("eps", (3, ) + shape, pos=True) if real else B.cplx(
        "eps", (3, ) + shape)
    ev = vec([e3[a] for a in AX])
    J3 = B.cplx("J", (3, ) + shape)
    # g = sum of gradient times overlap of the outputs used
    used = B.choose("used", ["one", "both", "second"])
    ov = [B.cplx("ov%d" % k, (3, ) + shape) for k in range(2)]
    g = [B.cplx("g%d" % k) for k in range(2)]
    act = dict(one=[0], both=[0, 1], second=[1])[used]
    ovv = [vec([o[a] for a in AX]) for o in ov]
    gv = [sum(g[k] * ovv[k][i] for k in act) for i in range(n)]
    pml = B.choose("pml", [[0] * 6, [80, 40, 0, 0, 0, 120]])
    layers = [int(p // 40) for p in pml]
    dx = [[np.full(s, 40.0) for s in shape] for _ in range(2)]

    class Sol(SysSolver):

        def solve(self, omega, dxes, J, epsilon, adjoint=False, **kw):
            if adjoint:
                self.adj += 1
                for k in ("pml_layers", "bloch_vec", "symmetry"):
                    self.same(kw.get(k), self.expect.get(k), "request." + k)
                self.same(epsilon, self.expect["eps"], "request.epsilon")
                B.eq(-1j * omega * J,
                     oa(B, [-1j * w * cj(x) for x in gv]), "adjoint source")
                return sy.d * 1
            return super().solve(omega, dxes, J, epsilon, **kw)

    s = Sol(B, sy, dict(omega=w, dxes=dx, eps=ev, pml=layers,
                        pml_layers=layers, bloch=[0, 0, 0],
                        bloch_vec=[0, 0, 0], symmetry=[0, 0, 0],
                        J=vec([J3[a] for a in AX])))
    CUR["solver"], CUR["J"] = s, J3
    calls = []

    def build(**kw):
        calls.append(kw["mode_num"])
        return [ov[kw["mode_num"]][a] for a in AX]

    outs = [maxwell.Epsilon(name="eps"), maxwell.ElectricField(name="E"),
            overlap_out("o0", 0), overlap_out("o1", 1)]
    with patched(gsim.fdfd_solvers.waveguide_mode, build_overlap=build):
        with goos.OptimizationPlan() as plan:
            node = goos_node(goos.Constant(1.0), nx, outs, wl, pml=pml)
            flow = goos.NumericFlow(e3)
            out = node.eval([flow])
            for a in AX:
                B.eq(out[0].array[a], e3[a], "eps output")
                E3 = fdfd_tools.unvec(sy.E, shape)
                B.eq(out[1].array[a], E3[a], "field output")
            for k in range(2):
                B.eq(out[2 + k].array, dot(ovv[k], sy.E), "overlap output")
            gf = [None] * 4
            for k in act:
                gf[2 + k] = goos.NumericFlow.Grad(g[k])
            gr = node.grad([flow], goos.ArrayFlow.Grad(gf))
    B.holds(s.adj == 1 and len(gr) == 1, "one adjoint solve")
    # With A^H d = -i w conj(gv): the derivative of the objective along delta
    # is Re(gv . E') with E' from the system; -i w conj(gv) plays sy.rhs.
    G3 = gr[0].array_grad
    Gv = vec([G3[a] for a in AX])
    # gv . E' where gv = conj(rhs/(-i w)): substitute rhs = A^H d
    gE = dot([cj(x / (-1j * w)) for x in sy.rhs], sy.dE)
    if real:
        B.eq(dot(Gv, sy.delta), 2 * np.real(gE), "gradient")
    else:
        B.eq(2 * np.real(dot(Gv, sy.delta)), 2 * np.real(gE), "gradient")


# --------------------------------------------------------------------- caches
class FunSolver:
    """A solver whose field is an arbitrary linear function of the request."""

    def __init__(self, B, n):
        self.B, self.n = B, n
        self.W = [[B.real("W%d%d" % (i, j)) for j in range(2 * n + 2)]
                  for i in range(n)]
        self.calls = 0

    def field(self, eps, J, adjoint):
        row = list(eps) + list(J) + [1, 1 if adjoint else 0]
        return mv(self.B, self.W, row)

    def solve(self, omega, dxes, J, epsilon, adjoint=False, **kw):
        self.calls += 1
        return self.field(epsilon, J, adjoint)


def setall(a, v):
    for i in range(len(v)):
        a[i] = v[i]


def history(B, n, size, request, requests):
    """Run a history; request(a, j) returns (result, expected)."""
    memo = {}

    def fresh(tag):
        if B.symbolic:
            return B.cplx(tag, (n, ))
        # few distinct values, so that requests repeat
        k = B.choose("val", [0, 1, 2])
        return np.array([1.0 + k + 0.5 * i + 0.1j * k for i in range(n)])

    def init(tag, k):
        if B.symbolic:
            return B.cplx(tag, (n, ))
        return np.array([1.0 + k + 0.5 * i + 0.1j * k for i in range(n)])

    arrs = [oa(B, list(init("p%d" % k, k))) for k in range(2)]
    srcs = [oa(B, list(init("q%d" % k, k))) for k in range(2)]
    last = None
    for step in range(requests):
        kind = B.choose("request%d" % step, ["p0", "p1"])
        last, want = request(step, arrs[int(kind[1])], srcs)
        B.eq(last, want, "request %d returns the field of its inputs" % step)
        if step == requests - 1:
            break
        o = B.choose("then%d" % step, ["nothing", "write p0", "write p1",
                                       "write result"])
        if o.startswith("write p"):
            setall(arrs[int(o[-1])], fresh("v%d" % step))
        elif o == "write result":
            setall(last, fresh("v%d" % step))


def nreq(B):
    return 3 if B.symbolic else B.choose("len", [3, 5, 8, 14])


def c_hist_em(B):
    n = 3
    size = B.choose("cache", [1, 2] if B.symbolic else [0, 1, 2, 3])
    s = FunSolver(B, n)
    J = [oa(B, [x]).reshape(1, 1, 1) for x in B.cplx("J", (3, ))]
    space = types.SimpleNamespace(dxes=dxes_(B, (1, 1, 1), cplx=False),
                                  pml_layers=[0] * 6)
    sim = em.FdfdSimulation(eps=problem.Variable(n), solver=s, wlen=1.0,
                            source=J, simspace=space, cache_size=size)
    Jv = vec(J)
    history(B, n, size, lambda k, p, q: (
        sim.eval([p]), s.field(p, Jv, False)), nreq(B))


def c_hist_em_adj(B):
    """Forward and adjoint requests interleaved (through the gradient)."""
    n = 3
    size = B.choose("cache", [1] if B.symbolic else [0, 1, 2, 3])
    s = FunSolver(B, n)
    J = [oa(B, [x]).reshape(1, 1, 1) for x in B.cplx("J", (3, ))]
    space = types.SimpleNamespace(dxes=dxes_(B, (1, 1, 1), cplx=False),
                                  pml_layers=[0] * 6)
    sim = em.FdfdSimulation(eps=problem.Variable(n), solver=s, wlen=1.0,
                            source=J, simspace=space, cache_size=size)
    w = 2 * np.pi
    Jv = vec(J)

    def request(k, p, q):
        g = q[B.choose("g%d" % k, [0, 1])]
        got = sim.grad([p], g)[0]
        E = s.field(p, Jv, False)
        d = s.field(p, [cj(x) / (-1j * w) for x in g], True)
        return got, oa(B, [w * w * cj(d[i]) * E[i] for i in range(n)])

    history(B, n, size, request, 2 if B.symbolic else nreq(B))


def old_stub(B, size):
    n = 3
    s = FunSolver(B, n)
    J = [oa(B, [x]).reshape(1, 1, 1) for x in B.cplx("J", (3, ))]
    base = [oa(B, [x]).reshape(1, 1, 1) for x in B.cplx("eps", (3, ))]
    dx = [[oa(B, [1], float) for _ in AX] for _ in range(2)]
    sim = oldsim.FdfdSimulation(s, [1, 1, 1], 1.5, dx, J,
                                spm(B, np.eye(n)), base,
                                cache_size=size)
    return n, s, vec(J), vec(base), sim


def c_hist_old(B):
    size = B.choose("cache", [1, 2] if B.symbolic else [0, 1, 2, 3])
    n, s, J, base, sim = old_stub(B, size)
    history(B, n, size, lambda k, p, q: (
        sim.simulate(p), s.field(base + p, J, False)), nreq(B))


def c_hist_oldadj(B):
    size = B.choose("cache", [1] if B.symbolic else [0, 1, 2, 3])
    n, s, J, base, sim = old_stub(B, size)
    adj = oldsim.AdjointFdfdSimulation(sim)

    def request(k, p, q):
        src = q[B.choose("g%d" % k, [0, 1])]
        return adj.simulate(p, src), s.field(np.conj(base + p), src, False)

    history(B, n, size, request, 2 if B.symbolic else nreq(B))


def c_hist_goos(B):
    nx, n = 1, 3
    s = FunSolver(B, n)
    J3 = B.cplx("J", (3, 1, 1, 1))
    CUR["solver"], CUR["J"] = s, J3
    ov = B.cplx("ov", (3, 1, 1, 1))
    ovv = vec([ov[a] for a in AX])
    Jv = vec([J3[a] for a in AX])
    w = 2 * np.pi / 1000.0
    with patched(gsim.fdfd_solvers.waveguide_mode,
                 build_overlap=lambda **k: [ov[a] for a in AX]):
        with goos.OptimizationPlan() as plan:
            node = goos_node(goos.Constant(1.0), nx,
                             [maxwell.Epsilon(name="eps"),
                              maxwell.ElectricField(name="E"),
                              overlap_out("o", 0)], 1000.0)

            def request(k, p, q):
                # the flow refers to the caller's array
                flow = goos.NumericFlow(p.reshape(3, 1, 1, 1))
                E = s.field(p, Jv, False)
                r = B.choose("r%d" % k, ["value", "gradient"])
                if r == "gradient":
                    gr = node.grad([flow], goos.ArrayFlow.Grad(
                        [None, None, goos.NumericFlow.Grad(q[0][0])]))
                    d = s.field(p, [cj(q[0][0] * x) for x in ovv], True)
                    return gr[0].array_grad.reshape(3), oa(
                        B, [-1j * w * cj(d[i]) * E[i] for i in range(n)])
                out = node.eval([flow])
                B.eq(out[0].array.reshape(3), p, "eps output")
                B.eq(out[2].array, dot(ovv, E), "overlap output")
                which = out[1].array
                return which.reshape(3), E

            history(B, n, 1, request, 2 if B.symbolic else nreq(B))


# -------------------------------------------------------------------- bounded
def b_solvers(tier, seed):
    """The real solvers: residual of the wave equation, forward and adjoint."""
    rng = np.random.RandomState(seed)
    ev, samples = 0, []
    N = 6 if tier == "quick" else 40
    pool = lms.MultiprocessingSolver(lms.DirectSolver(), 2)
    solvers = [("direct", lms.DirectSolver(), 1e-9),
               ("multiprocessing", pool, 1e-9),
               ("qmr", lms.QmrSolver(1e-8), 1e-6),
               ("bicg", lms.BiCgSolver(1e-8), 1e-6)]
    for k in range(N):
        shape = [(3, 3, 1), (4, 3, 2), (2, 3, 3)][k % 3]
        n = 3 * int(np.prod(shape))
        dx = [[0.5 + rng.rand(s) for s in shape] for _ in range(2)]
        eps = 1 + 3 * rng.rand(n) - 1j * rng.rand(n)
        # large and small sources: tolerances are relative
        J = (rng.randn(n) + 1j * rng.randn(n)) * [1e-4, 1, 1e4][k % 3]
        w = 1.1 + 0.2 * rng.rand()
        bl = None if k % 2 else rng.randn(3)
        pml = None if k % 4 < 2 else [1, 1, 1, 0, 0, 0]
        if pml and bl is not None:
            bl = bl * [0, 0, 1]
        d2 = fdfd_tools.grid.apply_scpml(dx, pml, w)
        A = op.e_full(w, d2, eps, bloch_vec=bl)
        b = -1j * w * J
        for name, s, tol in solvers:
            for adj in (False, True):
                x = s.solve(omega=w, dxes=dx, J=J, epsilon=eps, bloch_vec=bl,
                            pml_layers=pml, adjoint=adj)
                A_ = A.T.conj() if adj else A
                ev += 1
                r = np.linalg.norm(A_ @ x - b) / np.linalg.norm(b)
                if not r <= tol:
                    raise Failure(
                        "solver." + name,
                        "relative residual %g, adjoint=%s, shape %r, pml %r, "
                        "|J| %g" % (r, adj, shape, pml, np.linalg.norm(J)))
        samples.append("shape %r pml %r bloch %s" % (shape, pml,
                                                     bl is not None))
    return dict(evaluations=ev, distinct=N, samples=samples[:3])


def fd(f, x, h):
    return (f(x + h) - f(x - h)) / 2


def b_endtoend(tier, seed):
    """Brute-force derivative of objectives through the real simulation."""
    rng = np.random.RandomState(seed)
    from spins.invdes.problem import graph_executor
    ev, samples, known = 0, [], []
    for k in range(3 if tier == "quick" else 15):
        shape = [(3, 3, 1), (4, 2, 2), (3, 1, 3)][k % 3]
        n = 3 * int(np.prod(shape))
        dx = [[0.5 + rng.rand(s) for s in shape] for _ in range(2)]
        pml = [1, 0, 0, 0, 0, 0] if k % 2 else [0] * 6
        space = types.SimpleNamespace(dxes=dx, pml_layers=pml,
                                      dims=list(shape))
        J = [rng.randn(*shape) + 1j * rng.randn(*shape) for _ in AX]
        var = problem.Variable(n)
        sim = em.FdfdSimulation(eps=var, solver=lms.DirectSolver(), wlen=4.0,
                                source=J, simspace=space,
                                bloch_vector=rng.randn(3))
        ov = em.OverlapFunction(sim, rng.randn(n) + 1j * rng.randn(n))
        sl = (slice(0, shape[0]), slice(0, shape[1]), slice(0, 1))
        pw = poynting.PowerTransmissionFunction(sim, space, 4.0, sl, 2, 1)
        eps = 1 + 3 * rng.rand(n)
        d = rng.randn(n) * 1e-6

        class P:

            def __init__(self, v):
                self.v = v

            def get_structure(self):
                return self.v

            def calculate_gradient(self):
                return scipy.sparse.eye(n).tocsr()

        for name, f, kf in (("overlap", problem.AbsoluteValue(ov)**2, None),
                            ("power", pw, "C19-power-half")):
            val = lambda e: graph_executor.eval_fun(f, P(e))
            want = fd(val, eps, d)
            got = np.dot(graph_executor.eval_grad(f, P(eps)), d)
            ev += 1
            scale = max(abs(want), 1e-12)
            if abs(got - want) <= 1e-4 * scale + 1e-11:
                continue
            if kf and abs(2 * got - want) <= 1e-4 * scale + 1e-11:
                if kf not in known:
                    known.append(kf)
                continue
            raise Failure("gradient." + name,
                          "gradient %g, derivative %g" % (got, want))
        samples.append("shape %r" % (shape, ))
    return dict(evaluations=ev, distinct=ev, samples=samples[:3],
                known=known)


def c_create(B):
    """optplan.FdfdSimulation: the node simulates what the plan describes."""
    from spins.invdes.problem_graph import optplan
    n = 3
    s = FunSolver(B, n)
    J = [oa(B, [x]).reshape(1, 1, 1) for x in B.cplx("J", (3, ))]
    dx = dxes_(B, (1, 1, 1), cplx=False)
    pml = [1, 2, 3, 4, 5, 6]
    space = types.SimpleNamespace(dxes=dx, pml_layers=pml, dims=[1, 1, 1])
    bl = B.choose("bloch", ["none", "plan", "source", "both"])
    kp, ks = [0.25, -0.5, 1.5], [1.0, 2.0, -3.0]
    wl = B.choose("wavelength", [1.0, 1550.0, 0.3])
    asked = []

    def source(sp, wlen, solver=None, **kw):
        asked.append((sp, wlen, solver))
        return (J, np.array(ks)) if bl in ("source", "both") else J

    seen = []

    class Rec:

        def solve(self, **kw):
            seen.append(kw)
            return s.field(kw["epsilon"], kw["J"], False)

    eps = B.cplx("eps", (n, ))

    class E(problem.OptimizationFunction):

        def __init__(self):
            super().__init__([])

        def eval(self, v):
            return eps

    pl = optplan.FdfdSimulation(
        simulation_space=optplan.SimulationSpace(),
        epsilon=optplan.Epsilon(wavelength=wl), wavelength=wl,
        source=optplan.WaveguideModeSource(), solver="local_direct")
    if bl in ("plan", "both"):
        pl.bloch_vector = kp
    objs = {id(pl.simulation_space): space, id(pl.source): source,
            id(pl.epsilon): E()}
    work = types.SimpleNamespace(get_object=lambda p: objs[id(p)])
    rec = Rec()
    with patched(em, DIRECT_SOLVER=rec):
        sim = em.create_fdfd_simulation(pl, work)
    B.holds(len(asked) == 1 and asked[0][0] is space and
            asked[0][1] == wl and asked[0][2] is rec, "source request")
    Jv = vec(J)
    B.eq(sim.eval([eps]), s.field(eps, Jv, False), "field")
    kw = seen[-1]
    want = dict(none=[0, 0, 0], plan=kp, source=ks, both=ks)[bl]
    got = kw.get("bloch_vec")
    B.holds([float(x) for x in (got if got is not None else [0, 0, 0])] ==
            [float(x) for x in want], "Bloch vector")
    B.holds(list(kw["pml_layers"]) == pml and kw["dxes"] is dx and
            abs(kw["omega"] - 2 * np.pi / wl) < 1e-12 * kw["omega"] and
            not kw.get("adjoint") and kw.get("mu") is None, "request")
    B.eq(kw["J"], Jv, "source")
    B.eq(kw["epsilon"], eps, "permittivity")


def c_creators(B):
    """Overlap, epsilon, distance and power as a plan describes them."""
    from spins.invdes.problem_graph import optplan, workspace
    which = B.choose("which", ["overlap", "epsilon", "distance", "power"])
    wls = B.choose("wavelengths", [(1.0, 2.0), (1550.0, 1300.0)])
    shape = (2, 1, 1)
    n, m = 6, 2
    objs, asked = {}, []

    def node(model, obj):
        objs[id(model)] = obj
        return model

    def get(p):
        if isinstance(p, str):
            return objs[p]
        return objs[id(p)]

    work = types.SimpleNamespace(get_object=get)

    def space_of(tag, edges=None):
        vals = {}
        S_ = {}
        for wl in wls:
            vals[wl] = field(B, "%sbg%g" % (tag, wl), shape)
            S_[wl] = [[B.cplx("%ss%g%d%d" % (tag, wl, i, j))
                       for j in range(m)] for i in range(n)]

        def space(wlen):
            a = S_[wlen]
            if B.symbolic:
                from vc.spmat import SpMat
                sel = SpMat((n, m), {(i, j): a[i][j] for i in range(n)
                                     for j in range(m)})
            else:
                sel = scipy.sparse.csr_matrix(np.array(a, dtype=complex))
            return types.SimpleNamespace(
                eps_bg=types.SimpleNamespace(grids=vals[wlen]),
                selection_matrix=sel)

        def eps(wlen, x):
            return vec(vals[wlen]) + oa(
                B, [dot(S_[wlen][i], x) for i in range(n)])

        return space, eps

    sp, eps = space_of("a")
    plan_space = node(optplan.SimulationSpace(), sp)
    objs[workspace.VARIABLE_NODE] = problem.Variable(m)
    x = B.real("x", (m, ))
    peps = optplan.Epsilon(simulation_space=plan_space, wavelength=wls[1])
    fsim = problem.Variable(n)
    if which == "power":
        dx = dxes_(B, (2, 2, 1), cplx=False)
        # real edges decide which cells the plane covers
        ec = [np.array([0., 10., 20.]), np.array([0., 10., 20.]),
              np.array([0., 10.])]
        objs[id(plan_space)] = types.SimpleNamespace(
            dxes=dx, dims=[2, 2, 1], edge_coords=ec)
        axis, pol = B.choose("axis", AX), B.choose("polarity", [1, -1])
        at = B.choose("plane", [5.0, 15.0])
        cen, ext = [10.0, 10.0, 5.0], [20.0, 20.0, 10.0]
        if axis < 2:
            cen[axis], ext[axis] = at, 0
        else:
            ext[2] = 0
        nrm = [0, 0, 0]
        nrm[axis] = pol
        psim = node(optplan.FdfdSimulation(
            simulation_space=plan_space, wavelength=wls[0]), fsim)
        f = poynting.create_power_transmission_function(
            poynting.PowerTransmission(field=psim, center=cen, extents=ext,
                                       normal=nrm), work)
        E = B.cplx("E", (12, ))
        w = 2 * np.pi / wls[0]
        H = op.e2h(w, dx) @ E
        S_ = op.poynting_chew_e_cross(E, dx) @ np.conj(H)
        S3 = fdfd_tools.unvec(0.5 * np.real(S_), (2, 2, 1))[axis]
        tot = 0
        for ix in np.ndindex(2, 2, 1):
            if axis == 2 or ix[axis] == int(at // 10):
                tot = tot + S3[ix]
        B.eq(f.eval([E]), pol * tot, "power of the plane of the plan")
        return
    if which == "epsilon":
        f = em.create_epsilon(peps, work)
        B.eq(f.eval([x]), eps(wls[1], x), "permittivity of the plan")
        return
    if which == "distance":
        sp2, eps2 = space_of("b")
        state = {"x": B.real("y", (m, ))}
        prm = types.SimpleNamespace(get_structure=lambda: state["x"])
        pp = node(optplan.PixelParametrization(), prm) if hasattr(
            optplan, "PixelParametrization") else node(
                optplan.CubicParametrization(), prm)
        ps2 = node(optplan.SimulationSpace(), sp2)
        node(peps, problem.Variable(n))
        f = em.create_diff_epsilon(optplan.DiffEpsilon(
            epsilon=peps, epsilon_ref=optplan.ParamEps(
                parametrization=pp, simulation_space=ps2,
                wavelength=wls[0])), work)
        for k in range(2):
            v = B.cplx("v%d" % k, (n, ))
            r = eps2(wls[0], state["x"])
            B.eq(f.eval([v]), sum(np.real((v[i] - r[i]) * cj(v[i] - r[i]))
                                  for i in range(n)), "distance")
            # the reference follows the parametrization
            state["x"] = B.real("z", (m, ))
        return
    ov = field(B, "ov", shape)
    got = []

    def overlap(sp_, wl, **kw):
        got.append((sp_, wl))
        return ov

    pov = node(optplan.WaveguideModeOverlap(), overlap)
    psim = node(optplan.FdfdSimulation(
        simulation_space=plan_space, wavelength=wls[0], epsilon=peps), fsim)
    f = em.create_overlap_function(
        optplan.Overlap(simulation=psim, overlap=pov), work)
    B.holds(len(got) == 1 and got[0][0] is sp and got[0][1] == wls[0],
            "overlap of the simulation's space and wavelength")
    E = B.cplx("E", (n, ))
    B.eq(f.eval([E]), dot(vec(ov), E), "overlap with the field")


def b_goos(tier, seed):
    """Brute-force derivative through the real goos simulation node."""
    rng = np.random.RandomState(seed)
    ev, samples = 0, []
    for k in range(3 if tier == "quick" else 12):
        nx = 2 + k % 2
        ov = [rng.randn(3, nx, 1, 1) + 1j * rng.randn(3, nx, 1, 1)
              for _ in range(2)]
        CUR["solver"] = lms.DirectSolver()
        CUR["J"] = rng.randn(3, nx, 1, 1) + 1j * rng.randn(3, nx, 1, 1)
        with patched(gsim.fdfd_solvers.waveguide_mode,
                     build_overlap=lambda **kw: [ov[kw["mode_num"]][a]
                                                 for a in AX]):
            with goos.OptimizationPlan() as plan:
                e0 = 1 + 3 * rng.rand(3, nx, 1, 1)
                var = goos.Variable(e0)
                node = goos_node(var, nx, [overlap_out("o0", 0),
                                           overlap_out("o1", 1)], 300.0)
                o0, o1 = goos.abs(node["o0"]), goos.abs(node["o1"])
                for name, f in (("first", o0), ("sum", o0 + o1 * o1)):
                    d = rng.randn(*e0.shape) * 1e-5
                    var.set(e0)
                    plan.run()
                    got = np.sum(f.get_grad([var])[0].array_grad * d)
                    vals = []
                    for sgn in (1, -1):
                        var.set(e0 + sgn * d)
                        plan.run()
                        vals.append(float(f.get().array))
                    want = (vals[0] - vals[1]) / 2
                    ev += 1
                    if not abs(got - want) <= 1e-4 * abs(want) + 1e-13:
                        raise Failure("goos gradient." + name,
                                      "gradient %g, derivative %g" %
                                      (got, want))
        samples.append("nx=%d" % nx)
    return dict(evaluations=ev, distinct=ev, samples=samples[:3])


def tolcontract(B):
    """qmr/bicg are asked for the documented tolerance relative to b."""
    which = B.choose("which", ["qmr", "bicg"])
    n = 2
    scale = B.choose("scale", [1e-6, 1.0, 1e6])
    rel = B.choose("rel", [1e-3, 1e-6, 1e-9])
    b = np.array([3.0, 4.0j]) * scale
    A = scipy.sparse.eye(n).tocsr()
    seen = []

    def stub(A_, b_, x0=None, tol=1e-5, maxiter=None, *a, rtol=None,
             atol=None, **k):
        t = tol if rtol is None else rtol
        at_ = t if atol in (None, "legacy") else atol
        seen.append(max(t * np.linalg.norm(b_), at_))
        B.eq(A_ @ np.ones(n), A @ np.ones(n), "matrix")
        B.eq(b_, b, "right side")
        return b.copy(), 0

    s = (lms.QmrSolver if which == "qmr" else lms.BiCgSolver)(rel)
    with patched(scipy.sparse.linalg, **{which: stub}):
        x = s.solve_matrix_equation(A, b)
    B.eq(x, b, "solution returned")
    B.holds(len(seen) == 1, "solved once")
    B.holds(bool(seen[0] <= rel * np.linalg.norm(b) * (1 + 1e-9)),
            "tolerance relative to b")


ITEMS = [
    Contract("C19.forward solve", c_solve(False),
             [M + "LocalMatrixSolver.solve"], sym="obj", num=(30, 300)),
    Contract("C19.adjoint solve", c_solve(True),
             [M + "LocalMatrixSolver.solve"], sym="obj", num=(30, 300)),
    Contract("C19.unsupported options", c_reject,
             [M + "LocalMatrixSolver.solve"], sym="obj", num=(12, 30)),
    Contract("C19.direct solver", c_direct, [M + "DirectSolver"], sym="obj",
             num=(9, 60)),
    Contract("C19.solver tolerance", tolcontract,
             [M + "QmrSolver", M + "BiCgSolver"], sym="obj", num=(18, 40)),
    Contract("C19.simulation", c_oldforward, [O + "FdfdSimulation"],
             sym="obj", num=(20, 200)),
    Contract("C19.adjoint simulation", c_oldadjoint,
             [O + "AdjointFdfdSimulation"], sym="obj", num=(20, 200)),
    Contract("C19.simulation gradient", c_emgrad,
             [C + "FdfdSimulation.grad", C + "FdfdSimulation.eval"],
             sym="obj", num=(40, 300)),
    Contract("C19.objective gradient", c_emobjective,
             ["spins/invdes/problem/emobjective.py:EmObjective"], sym="obj",
             num=(30, 300)),
    Contract("C19.permittivity and overlap", c_linear,
             [C + "Epsilon", C + "OverlapFunction"], sym="obj",
             num=(20, 100)),
    Contract("C19.permittivity distance", c_diffeps, [C + "DiffEpsilon"],
             sym="obj", num=(20, 100)),
    Contract("C19.power", c_power,
             ["spins/invdes/problem_graph/functions/poynting.py:"
              "PowerTransmissionFunction"], sym="obj", num=(20, 100)),
    Contract("C19.goos simulation", c_goosgrad,
             [G + "SimulateNode", G + "WaveguideModeOverlapImpl"],
             sym="obj", num=(30, 200)),
    Contract("C19.requests", c_hist_em, [C + "FdfdSimulation._simulate"],
             sym="obj", num=(60, 600), max_instances=2000, budget=60),
    Contract("C19.gradient requests", c_hist_em_adj,
             [C + "FdfdSimulation._simulate_adjoint"], sym="obj",
             num=(60, 600), max_instances=2000, budget=60),
    Contract("C19.simulation requests", c_hist_old,
             [O + "FdfdSimulation.simulate"], sym="obj", num=(60, 600),
             max_instances=2000, budget=60),
    Contract("C19.adjoint requests", c_hist_oldadj,
             [O + "AdjointFdfdSimulation.simulate"], sym="obj",
             num=(60, 600), max_instances=2000, budget=60),
    Contract("C19.goos requests", c_hist_goos, [G + "SimulateNode"],
             sym="obj", num=(60, 600), max_instances=2000, budget=60),
    Contract("C19.plan simulation", c_create,
             [C + "create_fdfd_simulation", C + "_create_solver"],
             sym="obj", num=(12, 24)),
    Contract("C19.plan functions", c_creators,
             [C + "create_overlap_function", C + "create_epsilon",
              C + "create_diff_epsilon", "spins/invdes/problem_graph/"
              "functions/poynting.py:create_power_transmission_function"],
             sym="obj", num=(36, 60)),
    Bounded("C19.goos end to end", b_goos, [G + "SimulateNode"],
            bound="random grids of up to 3 cells, finite differences"),
    Bounded("C19.real solvers", b_solvers, [M + "DirectSolver",
            M + "MultiprocessingSolver", M + "QmrSolver", M + "BiCgSolver"],
            bound="random grids of up to 24 cells, forward and adjoint"),
    Bounded("C19.end to end", b_endtoend,
            [C + "FdfdSimulation", "spins/invdes/problem_graph/functions/"
             "poynting.py:PowerTransmissionFunction"],
            bound="random grids of up to 16 cells, finite differences"),
]
