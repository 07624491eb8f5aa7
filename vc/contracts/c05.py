"""C05: expressions written with Python operators mean their arithmetic."""
import operator

import numpy as np

from vc.run import Contract, Bounded
from vc.harness import Failure

from spins import goos
from spins.goos import flows
from spins.goos import graph_executor as gexec
from spins.invdes import problem
from spins.invdes.problem import graph_executor as iexec
from spins.invdes.parametrization import Parametrization

LEVEL = "proof"
ASSUMPTIONS = ["operand literals are a fixed list of numbers and arrays of "
               "every accepted type; the function operands' values are "
               "symbolic", "arrays of two entries in the symbolic run"]

OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul,
       "/": operator.truediv, "**": operator.pow}
LITERALS = {
    "0": 0, "1": 1, "-1": -1, "2": 2, "0.0": 0.0, "1.0": 1.0, "0.5": 0.5,
    "-2.5": -2.5, "complex": 1 + 2j, "np.float64": np.float64(1.5),
    "np.int64": np.int64(3), "np.complex128": np.complex128(2 - 1j),
    "array": np.array([0.5, -2.0]), "int array": np.array([2, -3]),
    "ones": np.ones(2), "zeros": np.zeros(2),
    "complex array": np.array([1j, 2.0]), "array1": np.array([1.5]),
}


class Weigh(problem.OptimizationFunction):
    """Scalar objective sum(w * f) of an expression f."""

    def __init__(self, f, w):
        super().__init__([f])
        self.w = w

    def eval(self, input_vals):
        return (self.w * input_vals[0]).sum()

    def grad(self, input_vals, grad_val):
        g = grad_val * self.w
        if np.shape(input_vals[0]) == () or hasattr(input_vals[0], "t"):
            g = g.sum()
        elif np.shape(input_vals[0]) == (1, ):
            g = g.sum() + 0 * input_vals[0]
        return [g]


class Par(Parametrization):

    def __init__(self, x):
        self.x = x

    def get_structure(self):
        return self.x

    def calculate_gradient(self):
        return np.eye(2)

    def encode(self):
        return self.x

    def decode(self, v):
        self.x = v


# ------------------------------------------------------------- frameworks
class Inv:
    name = "invdes"
    ops = ["+", "-", "*", "**"]
    mod = problem
    Function = problem.OptimizationFunction
    kinds = ["x", "const", "number const", "sum", "product", "power", "abs"]

    def atoms(self, x):
        P = problem
        v = P.Variable(2)
        return v, {
            "x": (v, lambda x: x),
            "const": (P.Constant(np.array([1.5, -0.5])),
                      lambda x: np.array([1.5, -0.5])),
            "number const": (P.Constant(4.0), lambda x: 4.0),
            "sum": (P.Sum([v, P.Constant(2.0)]), lambda x: x + 2.0),
            "product": (P.Product([v, v]), lambda x: x * x),
            "power": (P.Power(v, 3), lambda x: x * x * x),
            "abs": (P.AbsoluteValue(v), lambda x: x),
        }

    def value(self, v, expr, x):
        return iexec.eval_fun(expr, Par(x))

    def grad(self, v, expr, x, w):
        return iexec.eval_grad(Weigh(expr, w), Par(x))


class Goos:
    name = "goos"
    ops = ["+", "-", "*", "/", "**"]
    mod = goos
    Function = goos.Function
    kinds = ["x", "const", "number const", "sum", "product", "power", "abs"]

    def atoms(self, x):
        from vc.facade import concrete
        with concrete():
            v = goos.Variable(np.ones(2))
            v._goos_inputs = []
        return v, {
            "x": (v, lambda x: x),
            "const": (goos.Constant(np.array([1.5, -0.5])),
                      lambda x: np.array([1.5, -0.5])),
            "number const": (goos.Constant(4.0), lambda x: 4.0),
            "sum": (goos.Sum([v, goos.Constant(2.0)]), lambda x: x + 2.0),
            "product": (goos.Product([v, v]), lambda x: x * x),
            "power": (goos.Power(v, 3), lambda x: x * x * x),
            "abs": (goos.AbsoluteValue(v), lambda x: x),
        }

    def _flags(self):
        return goos.NodeFlags(const_flags=flows.NumericFlow.ConstFlags(False),
                              frozen_flags=flows.NumericFlow.ConstFlags(False))

    def value(self, v, expr, x):
        return gexec.eval_fun(expr, {v: (flows.NumericFlow(x),
                                         self._flags())}).array

    def grad(self, v, expr, x, w):
        from vc.facade import concrete
        with concrete():
            c = goos.Constant(np.ones(2))
            ones = goos.Constant(np.ones(2))
            expr = goos.DotProduct(goos.Product([expr, c]), ones)
        c._value = w
        r = gexec.eval_grad(expr, [v], {v: (
            flows.NumericFlow(x), flows.NumericFlow(np.ones(2)),
            self._flags())})
        return r[0].array_grad


def supported(fw, op, left, right):
    """Combinations the package promises; others may raise TypeError."""
    lf, rf = left in fw.kinds, right in fw.kinds
    if op == "**":
        if not lf:
            return False
        if rf:
            # invdes accepts a Constant exponent, goos numbers only
            return fw.name == "invdes" and right == "number const"
        return right in ("0", "1", "-1", "2", "0.0", "1.0", "0.5", "-2.5",
                         "np.float64", "np.int64")
    return True


def zero_division(fw, op, left, right):
    return (op == "/" and right in ("0", "0.0", "zeros"))


def arith(op, a, b):
    if op == "/":
        return a * (1.0 / b) if isinstance(b, np.ndarray) and \
            b.dtype != object else a / b
    if op == "**":
        if isinstance(b, np.generic):
            b = b.item()
        return a**b
    return OPS[op](a, b)


def wide(a):
    """Value of shape (2,)."""
    return a + np.zeros(2) if np.shape(a) != (2, ) else a


def run_expr(B, fw, build, ref, x, v, atoms):
    """Contract of one expression."""
    expr = build(atoms)
    from vc.arrays import OArr
    w = B.real("w", (2, ))
    B.eq(wide(fw.value(v, expr, x)), wide(ref(x)), "value")
    g = fw.grad(v, expr, x, w)
    if B.symbolic:
        if np.shape(g) == ():
            g = np.array([g, g], dtype=object)
        if not isinstance(g, OArr):
            g = np.asarray(g).astype(object).view(OArr)
    else:
        g = np.asarray(g) + np.zeros(2)  # a constant may give a scalar zero
    B.grad_is("gradient", lambda z: [wide(ref(z[0]))], ["x"], [x], [g], [w])


def pair_contract(fw, ops):
    lits = list(LITERALS)
    combos = []
    for op in ops:
        for l in fw.kinds:
            for r in fw.kinds + lits:
                combos.append((op, l, r))
        for l in lits:
            for r in fw.kinds:
                combos.append((op, l, r))
    combos = [c for c in combos if not zero_division(fw, *c)]
    # negative number to a fractional power: not a number
    combos = [c for c in combos if not (
        c[0] == "**" and c[1] == "const" and c[2] not in (
            "0", "1", "-1", "2", "0.0", "1.0", "np.int64", "array"))]

    def c(B):
        op, l, r = B.choose("expression", combos)
        x = B.real("x", (2, ), pos=True)
        ok = supported(fw, op, l, r)
        if B.symbolic and op == "**" and "complex" in r:
            B.holds(True, "complex exponents: numeric evaluation only")
            return
        with goos.OptimizationPlan():
            v, atoms = fw.atoms(x)

            def operand(k):
                if k in atoms:
                    return atoms[k]
                val = LITERALS[k]
                return val, lambda z: val
            (a, fa), (b, fb) = operand(l), operand(r)
            try:
                expr = OPS[op](a, b)
            except TypeError:
                if ok:
                    raise Failure("operator", "%s %s %s is rejected" % (
                        l, op, r))
                B.holds(True, "rejected")
                return
            if not isinstance(expr, fw.Function):
                raise Failure("operator", "%s %s %s gives a %s" % (
                    l, op, r, type(expr).__name__))
            run_expr(B, fw, lambda _: expr,
                     lambda z: arith(op, fa(z), fb(z)), x, v, atoms)
    return c


def chain_contract(fw):
    """Nested expressions: (a op b) op c, a op (b op c), unary minus."""
    lits = ["0", "1", "2", "0.5", "array", "-1"]
    base = ["x", "const", "sum", "product", "power"]
    ops = [o for o in fw.ops if o != "**"]

    def c(B):
        x = B.real("x", (2, ), pos=True)
        with goos.OptimizationPlan():
            v, atoms = fw.atoms(x)

            def operand(k):
                if k in atoms:
                    return atoms[k]
                val = LITERALS[k]
                return val, lambda z: val
            if B.symbolic:
                kind = B.choose("kind", list(range(len(CHAINS))))
                l, o1, m, o2, r, assoc, n1, n2 = CHAINS[kind]
                if "/" in (o1, o2) and "/" not in ops:
                    B.holds(True)
                    return
            else:
                l, m, r = (B.choose(t, base + lits) for t in "lmr")
                o1, o2 = B.choose("o1", ops), B.choose("o2", ops)
                assoc = B.choose("assoc", ["left", "right"])
                n1, n2 = B.choose("n1", [0, 1]), B.choose("n2", [0, 1])
            (a, fa), (b, fb), (d, fd) = operand(l), operand(m), operand(r)
            try:
                with np.errstate(all="ignore"):
                    if assoc == "left":
                        e1 = OPS[o1](a, b)
                        if n1:
                            e1 = -e1
                        e = OPS[o2](e1, d)
                    else:
                        e1 = OPS[o2](b, d)
                        if n1:
                            e1 = -e1
                        e = OPS[o1](a, e1)
                    if n2:
                        e = -e
            except ZeroDivisionError:
                B.holds(True)
                return

            def ref(z):
                if assoc == "left":
                    t = arith(o1, fa(z), fb(z))
                    t = -t if n1 else t
                    t = arith(o2, t, fd(z))
                else:
                    t = arith(o2, fb(z), fd(z))
                    t = -t if n1 else t
                    t = arith(o1, fa(z), t)
                return -t if n2 else t
            if not isinstance(e, fw.Function):
                B.holds(True)
                return
            if not B.symbolic:
                with np.errstate(all="ignore"):
                    t = np.asarray(ref(x))
                    if not np.all(np.isfinite(t)) or np.max(
                            np.abs(t)) > 1e5 or (
                                "/" in (o1, o2) and
                                not _away(fa, fb, fd, x, o1, o2)):
                        B.holds(True)
                        return
            run_expr(B, fw, lambda _: e, ref, x, v, atoms)
    return c


def _away(fa, fb, fd, x, o1, o2):
    vals = [np.min(np.abs(f(x))) for f in (fa, fb, fd)]
    return min(vals) > 1e-2


def _chains():
    out = []
    base = ["x", "sum", "product", "const", "2", "array"]
    import itertools
    k = 0
    for l, m, r in itertools.product(base, repeat=3):
        if not {"x", "sum", "product"} & {l, m, r}:
            continue
        for o1, o2 in itertools.product("+-*/", repeat=2):
            k += 1
            if k % 7:
                continue
            asc = "left" if k % 2 else "right"
            # division by something that may vanish is left to the numeric
            # evaluation
            if "/" in (o1, o2) and asc == "right" and o2 != "*":
                continue
            if o2 == "/" and r not in ("x", "product", "2", "array"):
                continue
            if o1 == "/" and asc == "left" and m not in ("x", "product", "2",
                                                         "array"):
                continue
            if o1 == "/" and asc == "right":
                continue
            out.append((l, o1, m, o2, r, asc, k // 2 % 2, k // 4 % 2))
    return out


CHAINS = _chains()


def slices(B):
    """Indexing an invdes function."""
    sl = B.choose("slice", [0, 1, -1, slice(0, 1), slice(None),
                            slice(None, None, -1)])
    x = B.real("x", (2, ), pos=True)
    v = problem.Variable(2)
    f = problem.ValueSlice(v, sl) * 2 + 1
    want = x[sl] * 2 + 1
    B.eq(iexec.eval_fun(f, Par(x)), want, "value")
    if isinstance(sl, int):
        g = iexec.eval_grad(f, Par(x))
        B.grad_is("gradient", lambda z: [z[0][sl] * 2 + 1], ["x"], [x],
                  [g], [1.0])


# ---------------------------------------------------- optimization plans
_LEAF = []


def leaf_model():
    """A plan node whose object is the variable of the workspace."""
    if not _LEAF:
        from schematics import types
        from spins.invdes.problem_graph import creator  # pylint: disable=unused-import
        from spins.invdes.problem_graph import optplan, workspace

        class Leaf(optplan.Function):
            type = types.StringType(default="function.verif05",
                                    required=True,
                                    choices=("function.verif05", ))
        optplan.GLOBAL_CONTEXT_STACK.push(optplan.OptplanContext())
        optplan.register_node(Leaf)(
            lambda node, work: work.get_object(workspace.VARIABLE_NODE))
        _LEAF.append(Leaf)
    return _LEAF[0]


PLAN_LITERALS = ["0", "1", "-1", "2", "0.0", "0.5", "-2.5", "complex",
                 "np.float64", "np.complex128"]


def plan_pairs(B):
    """Expressions of plan nodes, through their creators."""
    import warnings
    from spins.invdes.problem_graph import optplan, workspace
    op = B.choose("op", ["+", "-", "*", "/", "**"])
    kinds = ["x", "const", "sum", "product", "power", "abs", "complex const"]
    l = B.choose("left", kinds + PLAN_LITERALS)
    r = B.choose("right", kinds + PLAN_LITERALS)
    minus = B.choose("then", ["nothing", "minus", "sum", "product"])
    if l not in kinds and r not in kinds:
        return
    x = B.real("x", (2, ), pos=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        X = leaf_model()()
        atoms = {
            "x": (X, lambda z: z),
            "const": (optplan.make_constant(3), lambda z: 3.0),
            "complex const": (optplan.make_constant(1 - 2j),
                              lambda z: 1 - 2j),
            "sum": (optplan.Sum(functions=[X, optplan.make_constant(2)]),
                    lambda z: z + 2),
            "product": (optplan.Product(functions=[X, X]), lambda z: z * z),
            "power": (optplan.Power(function=X, exp=3),
                      lambda z: z * z * z),
            "abs": (optplan.abs(X), lambda z: z),
        }

        def operand(k):
            if k in atoms:
                return atoms[k]
            return LITERALS[k], lambda z: LITERALS[k]
        (a, fa), (b, fb) = operand(l), operand(r)
        if op == "/" and r in PLAN_LITERALS and LITERALS[r] == 0:
            return
        if op == "**":
            # real constant exponents only
            ok = (l in kinds and (r == "const" or (
                r in PLAN_LITERALS and not isinstance(
                    LITERALS[r], (complex, np.complexfloating)))))
            if not ok:
                if l in kinds and not rejects(lambda: a**b):
                    raise Failure("exponent", "%s ** %s accepted" % (l, r))
                return
        kept = [list(n.functions) for n in (atoms["sum"][0],
                                            atoms["product"][0])]
        e = OPS[op](a, b)
        if not isinstance(e, optplan.Function):
            raise Failure("expression", repr(e))
        want = arith(op, fa(x), fb(x) if op != "**" else (
            3 if r == "const" else LITERALS[r]))
        if minus == "minus":
            e, want = -e, -want
        elif minus == "sum":
            e, want = 2 + e + (e - 1), 2 + want + (want - 1)
        elif minus == "product":
            e, want = 2 * e * e * X, 2 * want * want * x
        if kept != [list(n.functions) for n in (atoms["sum"][0],
                                                atoms["product"][0])] or any(
                u is not v for n, k in zip(("sum", "product"), kept)
                for u, v in zip(atoms[n][0].functions, k)):
            raise Failure("operands", "changed")
        work = workspace.Workspace(savepath=None)
        obj = work.get_object(e)
    got = iexec.eval_fun(obj, Par(x))
    B.eq(got + np.zeros(2), want + np.zeros(2), "value")


def rejects(fn):
    try:
        fn()
    except (TypeError, ValueError):
        return True
    return False


I, G = Inv(), Goos()
OA = ["__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__",
      "__neg__", "__pow__"]
IA = ["spins/invdes/problem/objective.py:OptimizationFunction." + n
      for n in OA]
GA = ["spins/goos/math.py:Function." + n for n in OA + ["__truediv__",
                                                        "__rtruediv__"]]
ITEMS = []
for fw, an in ((I, IA), (G, GA)):
    for op in fw.ops:
        ITEMS.append(Contract(
            "C05.%s %s" % (fw.name, op), pair_contract(fw, [op]), an,
            sym="obj", max_instances=4000, budget=150, num=(250, 4000),
            bound="two-operand expressions over every pair of operand kinds, "
            "arrays of 2 entries"))
    ITEMS.append(Contract(
        "C05.%s chains" % fw.name, chain_contract(fw), an, sym="obj",
        max_instances=4000, budget=150, num=(400, 8000),
        bound="three-operand expressions with either association and unary "
        "minus; arrays of 2 entries"))
ITEMS.append(Contract("C05.slices", slices,
                      ["spins/invdes/problem/objective.py:ValueSlice"],
                      sym="obj", bound="arrays of 2 entries"))
OPT = "spins/invdes/problem_graph/optplan/"
CF = "spins/invdes/problem_graph/creator_function.py:"
ITEMS.append(Contract(
    "C05.plan nodes", plan_pairs,
    [OPT + "optplan.py:Function." + n for n in OA + [
        "__truediv__", "__rtruediv__"]] + [
            OPT + "schema_function.py:Sum.__add__",
            OPT + "schema_function.py:Product.__mul__",
            OPT + "schema_function.py:make_constant",
            CF + "create_sum", CF + "create_product", CF + "create_power",
            CF + "create_constant", CF + "create_abs"],
    sym="obj", max_instances=6000, budget=200, num=(150, 2000),
    bound="two-operand expressions over every pair of operand kinds, then "
    "combined again; arrays of 2 entries"))
