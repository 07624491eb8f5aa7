"""C13: serializing an invdes optimization plan and parsing it back.

The real dumps and loads run on plans whose numbers are symbolic, through the
contract of the json module (what is written is what is read).
"""
import contextlib
import copy
import json
import random
import warnings

import numpy as np

from vc.run import Contract, Bounded
from vc.harness import Failure
from vc.contracts.c12 import json_contract

from schematics import models
from schematics import types
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import schema_utils

LEVEL = "proof"
TECHNIQUE = ("contracts on the real serialization code executed with symbolic "
             "numbers through the contract of the json module; every "
             "registered model and every listed graph, name and context "
             "history; normal form")
ASSUMPTIONS = [
    "json reads back the numbers, strings, lists and dictionaries it wrote",
    "the schematics library converts and exports built-in types as "
    "documented (a float field keeps a float)",
    "graphs are the listed sharing patterns and every registered model under "
    "five fillings of its fields; references in lists and dictionaries one "
    "level deep, as every registered model has them",
    "names that the user chooses do not contain a period, unless they were "
    "loaded (the documented condition for unique generated names)",
    "nodes of one name and equal contents are one node",
]
IO = "spins/invdes/problem_graph/optplan/io.py:"
CX = "spins/invdes/problem_graph/optplan/context.py:"
OP = "spins/invdes/problem_graph/optplan/optplan.py:"
SU = "spins/invdes/problem_graph/schema_utils.py:"


@contextlib.contextmanager
def world(B):
    """json and float conversion for symbolic numbers; quiet schematics."""
    from vc.sym import S
    real = types.FloatType.to_native

    def to_native(self, value, context=None):
        return value if isinstance(value, S) else real(self, value, context)
    own = "to_native" in vars(types.FloatType)
    depth = len(stack_of())
    with warnings.catch_warnings(), json_contract(B):
        warnings.simplefilter("ignore")
        if B.symbolic:
            types.FloatType.to_native = to_native
        try:
            optplan.GLOBAL_CONTEXT_STACK.push(optplan.OptplanContext())
            optplan.register_node_type()(VNode)
            optplan.register_node_type(optplan.NodeMetaType.TRANSFORMATION)(
                VTrans)
            yield
        finally:
            while len(stack_of()) > depth:
                optplan.GLOBAL_CONTEXT_STACK.pop()
            if B.symbolic:
                if own:
                    types.FloatType.to_native = real
                else:
                    del types.FloatType.to_native


def stack_of():
    """The contexts on the stack, through pop and push."""
    st, seen = optplan.GLOBAL_CONTEXT_STACK, []
    while st.peek() is not None:
        seen.append(st.pop())
    for c in reversed(seen):
        st.push(c)
    return seen


class VInner(schema_utils.Model):
    x = types.FloatType()
    ref = optplan.ReferenceType(optplan.Function)
    refs = types.ListType(optplan.ReferenceType(optplan.Function))


class VNode(optplan.Function):
    type = types.StringType(default="function.verif13", required=True,
                            choices=("function.verif13", ))
    x = types.FloatType()
    xs = types.ListType(types.FloatType())
    one = optplan.ReferenceType(optplan.Function)
    many = types.ListType(optplan.ReferenceType(optplan.Function))
    named = types.DictType(optplan.ReferenceType(optplan.Function))
    inner = types.ModelType(VInner)
    inners = types.ListType(types.ModelType(VInner))
    innerd = types.DictType(types.ModelType(VInner))
    label = types.StringType()
    flag = types.BooleanType()
    num = types.IntType()


class VTrans(optplan.TransformationBase):
    type = types.StringType(default="verif13.trans", required=True,
                            choices=("verif13.trans", ))
    x = types.FloatType()
    fun = optplan.ReferenceType(optplan.Function)
    funs = types.ListType(optplan.ReferenceType(optplan.Function))
    inner = types.ModelType(VInner)


# comparison ------------------------------------------------------------------


def is_node(v):
    return isinstance(v, optplan.ProblemGraphNode)


def reach(v, out, path="plan"):
    """Every node reachable from v, by name."""
    if is_node(v):
        if v.name in out:
            if out[v.name] is not v:
                raise Failure("one object per name", "%s at %s" % (v.name,
                                                                   path))
            return
        out[v.name] = v
    if isinstance(v, models.Model):
        for k in v.keys():
            reach(v[k], out, path + "." + k)
    elif isinstance(v, (list, tuple)):
        for i, w in enumerate(v):
            reach(w, out, "%s[%d]" % (path, i))
    elif isinstance(v, dict):
        for k, w in v.items():
            reach(w, out, "%s[%r]" % (path, k))


def compare(B, a, b, path, top=True, seen=None):
    """b is a again, nodes compared once."""
    seen = {} if seen is None else seen
    if isinstance(a, str) and is_node(b):
        # a reference written by name
        if b.name != a:
            raise Failure("reference " + path, "%s instead of %s" % (b.name,
                                                                     a))
        return
    if isinstance(a, models.Model):
        if type(a) is not type(b):
            raise Failure("type of " + path, "%s instead of %s" %
                          (type(b).__name__, type(a).__name__))
        if is_node(a):
            if a.name != b.name:
                raise Failure("name of " + path, "%s instead of %s" %
                              (b.name, a.name))
            if a.name in seen:
                if seen[a.name] is not b:
                    raise Failure("sharing at " + path, a.name)
                return
            seen[a.name] = b
        for k in a.keys():
            if isinstance(a, optplan.OptimizationPlan) and k == "nodes":
                continue
            compare(B, a[k], b[k], path + "." + k, False, seen)
        return
    if isinstance(a, (list, tuple, np.ndarray)):
        if not isinstance(b, (list, tuple, np.ndarray)) or len(a) != len(b):
            raise Failure(path, "%r instead of %r" % (b, a))
        for i, (x, y) in enumerate(zip(a, b)):
            compare(B, x, y, "%s[%d]" % (path, i), False, seen)
        return
    if isinstance(a, dict):
        if not isinstance(b, dict) or sorted(a) != sorted(b):
            raise Failure(path, "%r instead of %r" % (b, a))
        for k in a:
            compare(B, a[k], b[k], "%s[%r]" % (path, k), False, seen)
        return
    if a is None or isinstance(a, (str, bool)):
        if a != b or type(a) is not type(b):
            raise Failure(path, "%r instead of %r" % (b, a))
        return
    if b is None or isinstance(b, (str, models.Model)):
        raise Failure(path, "%r instead of %r" % (b, a))
    B.eq(b, a, path)


def snapshot(v, out=None):
    """Identities of everything in the caller's plan."""
    out = [] if out is None else out
    if isinstance(v, models.Model):
        for k in v.keys():
            out.append((id(v), k, id(v[k])))
        for k in v.keys():
            if not (is_node(v[k]) and any(o[0] == id(v[k]) for o in out)):
                snapshot(v[k], out)
    elif isinstance(v, (list, tuple)):
        out.append((id(v), len(v), tuple(map(id, v))))
        for w in v:
            snapshot(w, out)
    elif isinstance(v, dict):
        out.append((id(v), tuple(v), tuple(map(id, v.values()))))
        for w in v.values():
            snapshot(w, out)
    return out


def round_trip(B, plan, again=True):
    before = snapshot(plan)
    text = optplan.dumps(plan)
    if snapshot(plan) != before:
        raise Failure("caller's plan", "changed by dumps")
    if not isinstance(text, str):
        raise Failure("serialized plan", repr(type(text)))
    new = optplan.loads(text)
    seen = {}
    compare(B, plan, new, "plan", seen=seen)
    found = {}
    reach(new, found)
    mine = {}
    reach(plan, mine)
    names = [n.name for n in new.nodes or []]
    if len(set(names)) != len(names):
        raise Failure("nodes", "listed twice: %r" % names)
    if sorted(names) != sorted(mine):
        raise Failure("nodes", "%r instead of %r" % (sorted(names),
                                                     sorted(mine)))
    for n in new.nodes or []:
        compare(B, mine[n.name], n, n.name, seen=seen)
        if found[n.name] is not n:
            raise Failure("one object per name", n.name)
    if any(id(m) == id(n) for m in mine.values() for n in found.values()):
        raise Failure("loaded plan", "shares nodes with the caller's")
    if again:
        other = optplan.loads(optplan.dumps(new))
        compare(B, new, other, "second plan")
        if sorted(n.name for n in other.nodes or []) != sorted(names):
            raise Failure("nodes", "of the second plan")
    return new


# every registered model ------------------------------------------------------


FILL = ["nothing", "everything", "twice", "empty", "shared"]


class Maker:
    def __init__(self, B, fill):
        self.B, self.fill, self.n = B, fill, 0
        self.pool = []

    def fresh(self):
        self.n += 1
        return "v%d" % self.n

    def number(self):
        return self.B.real(self.fresh())

    def node(self, want, depth):
        """A node of (a subclass of) the wanted class."""
        if self.fill == "shared" or depth > 2:
            for n in self.pool:
                if isinstance(n, want):
                    return n
        for cls in sorted(nodes_of(), key=lambda c: c.__name__):
            if issubclass(cls, want) and cls is not VNode:
                return self.build(cls, depth)
        return None

    def value(self, typ, depth):
        if isinstance(typ, optplan.ReferenceType):
            return self.node(typ.reference_type, depth + 1)
        if isinstance(typ, types.FloatType):
            return self.number()
        if isinstance(typ, types.IntType):
            self.n += 1
            return self.n
        if isinstance(typ, types.BooleanType):
            return self.n % 2 == 0
        if isinstance(typ, types.StringType):
            return typ.choices[-1] if typ.choices else self.fresh()
        if isinstance(typ, types.ListType):
            k = {"empty": 0, "everything": 1}.get(self.fill, 2)
            k = max(k, typ.min_size or 0)
            vals = [self.value(typ.field, depth) for _ in range(k)]
            return [v for v in vals if v is not None]
        if isinstance(typ, types.DictType):
            k = {"empty": 0, "everything": 1}.get(self.fill, 2)
            return {"k%d" % i: self.value(typ.field, depth) for i in range(k)}
        if isinstance(typ, optplan.OptplanPolyModelType):
            return None
        if isinstance(typ, types.PolyModelType):
            subs = []
            for c in typ.model_classes:
                subs += [c] + all_subclasses(c)
            subs = sorted(set(c for c in subs if "type" in c._schema.fields
                              or not all_subclasses(c)),
                          key=lambda c: c.__name__)
            return self.build(subs[(self.n + len(self.fill)) % len(subs)],
                              depth + 1)
        if isinstance(typ, types.ModelType):
            return self.build(typ.model_class, depth + 1)
        raise Failure("field type", "unknown %r" % typ)

    def build(self, cls, depth=0):
        kw = {}
        isnode = issubclass(cls, optplan.ProblemGraphNode)
        if isnode:
            kw["name"] = "n" + self.fresh()
        for k, t in cls._schema.fields.items():
            if k in ("type", "name"):
                continue
            if self.fill == "nothing" or (depth > 2 and isinstance(
                    t, (types.CompoundType, optplan.ReferenceType))):
                continue
            v = self.value(t, depth)
            if v is not None:
                kw[k] = v
        m = cls(**kw)
        if isnode:
            self.pool.append(m)
        return m


def all_subclasses(c):
    out = []
    for s in c.__subclasses__():
        out += [s] + all_subclasses(s)
    return out


def nodes_of():
    return list(optplan.GLOBAL_CONTEXT_STACK.get_node_model_dict(
        optplan.NodeMetaType.OPTPLAN_NODE).values())


def trans_of():
    return list(optplan.GLOBAL_CONTEXT_STACK.get_node_model_dict(
        optplan.NodeMetaType.TRANSFORMATION).values())


NODE_TYPES = sorted(c.__name__ for c in nodes_of()
                    if c.__module__.startswith("spins"))
TRANS_TYPES = sorted(c.__name__ for c in trans_of()
                     if c.__module__.startswith("spins"))


def by_name(classes, name):
    for c in classes:
        if c.__name__ == name:
            return c
    raise Failure("registered model", name + " is gone")


def c_models(B):
    """Every registered model with its fields filled."""
    kind = B.choose("model", NODE_TYPES + TRANS_TYPES + ["VNode"])
    fill = B.choose("fields", FILL)
    with world(B):
        mk = Maker(B, fill)
        if kind in TRANS_TYPES:
            m = mk.build(by_name(trans_of(), kind))
            tr = optplan.Transformation(
                name="t", transformation=m,
                parametrization=mk.node(optplan.Parametrization, 1)
                if fill != "nothing" else None)
            plan = optplan.OptimizationPlan(transformations=[tr])
        else:
            m = mk.build(by_name(nodes_of(), kind))
            plan = optplan.OptimizationPlan(nodes=[m])
        round_trip(B, plan, again=fill in ("twice", "shared"))


# graphs ----------------------------------------------------------------------


def const(B, i):
    return optplan.Constant(
        name="c%d" % i,
        value=optplan.ComplexNumber(real=B.real("re%d" % i),
                                    imag=B.real("im%d" % i)))


def graphs(B, kind):
    """Transformations and nodes of one sharing pattern."""
    a, b, c = (const(B, i) for i in range(3))
    par = optplan.PixelParametrization(
        name="par", simulation_space=optplan.SimulationSpace(name="sp"))
    T = optplan.Transformation
    if kind == "diamond":
        s = optplan.Sum(name="s", functions=[a, b])
        p = optplan.Product(name="p", functions=[s, a])
        return [], [optplan.Sum(name="top", functions=[p, s, b, p])]
    if kind == "chain":
        n = a
        for i in range(7):
            n = optplan.Power(name="p%d" % i, function=n,
                              exp=B.real("e%d" % i))
        return [], [n]
    if kind == "shared by transformations":
        s = optplan.Sum(name="s", functions=[a, b])
        return [T(name="t%d" % i, parametrization=par,
                  transformation=VTrans(x=B.real("x%d" % i), fun=s,
                                        funs=[a, s] * i,
                                        inner=VInner(ref=b, refs=[s])))
                for i in range(3)], []
    if kind == "containers":
        n = VNode(name="v", x=B.real("x"), xs=[B.real("y"), B.real("z")],
                  one=a, many=[b, a, b], named={"u": a, "w": c},
                  inner=VInner(ref=c), inners=[VInner(refs=[a]), VInner()],
                  innerd={"k": VInner(x=B.real("q"), ref=b, refs=[c, c])},
                  label="a b", flag=False, num=0)
        return [], [VNode(name="w", one=n, many=[n], named={"n": n})]
    if kind == "only inside":
        # nodes reachable only through nested models
        return [T(name="t", parameter_list=[
            optplan.SetParam(parameter=optplan.Parameter(
                name="par0", initial_value=B.real("i")), function=a,
                parametrization=par, inverse=True)])], [
            optplan.SimulationSpace(
                name="sp2", eps_fg=optplan.ParamEps(
                    parametrization=par, wavelength=B.real("w"))),
            VNode(name="v", inners=[VInner(ref=b)],
                  innerd={"k": VInner(refs=[c])})]
    if kind == "equal contents":
        x, y = (optplan.Constant(
            name=n, value=optplan.ComplexNumber(real=1.0)) for n in "xy")
        return [], [optplan.Sum(name="s", functions=[x, y, x])]
    if kind == "names":
        a.name, b.name, c.name = "x", "x y", "-/\u00e9\""
        return [], [optplan.Sum(functions=[a, b, c]), optplan.Sum()]
    if kind == "by name":
        return [T(name="t", transformation=VTrans(fun="c0", funs=["c1"]))], [
            optplan.Sum(name="s", functions=["c0", b, "c2"]), a, b, c,
            VNode(name="v", one="c1", named={"k": "c0"},
                  inner=VInner(ref="s"))]
    if kind == "unnamed":
        fs = [optplan.make_constant(i) for i in range(3)]
        return [T(transformation=VTrans(fun=fs[0] * fs[1] - fs[2]))], [
            optplan.Sum(functions=fs)]
    if kind == "nothing":
        return [], []
    if kind == "empty":
        return [T(name="t", parameter_list=[], transformation=VTrans(
            funs=[], inner=VInner(refs=[])))], [
                VNode(name="v", xs=[], many=[], named={}, inner=VInner(),
                      inners=[], innerd={}, label=""),
                optplan.Product(name="p", functions=[])]
    raise Failure("graph", kind)


GRAPHS = ["diamond", "chain", "shared by transformations", "containers",
          "only inside", "equal contents", "names", "by name", "unnamed",
          "nothing", "empty"]


def c_graphs(B):
    """Sharing, containers and names survive; the caller's plan is kept."""
    kind = B.choose("graph", GRAPHS)
    listed = B.choose("nodes listed", ["roots", "none", "all", "reversed"])
    with world(B):
        trs, nodes = graphs(B, kind)
        if listed == "none" and nodes:
            # reachable from a transformation only
            trs = trs + [optplan.Transformation(
                name="holder", transformation=VTrans(funs=[
                    n for n in nodes if isinstance(n, optplan.Function)]))]
            nodes = [n for n in nodes if not isinstance(n, optplan.Function)]
        elif listed in ("all", "reversed"):
            found = {}
            reach(nodes, found)
            reach(trs, found)
            nodes = list(found.values())
            if listed == "reversed":
                nodes.reverse()
        plan = optplan.OptimizationPlan(transformations=trs)
        if nodes or listed == "all":
            plan.nodes = nodes
        new = round_trip(B, plan)
        # the loaded plan is the caller's own
        for n in new.nodes:
            n.name = n.name + "_changed"
        for t in new.transformations or []:
            t.name = "changed"
        if listed == "roots":
            round_trip(B, plan, again=False)


def c_copies(B):
    """Copying a model: equal, deep where asked, sharing kept."""
    kind = B.choose("graph", ["diamond", "containers", "only inside",
                              "shared by transformations", "empty"])
    deep = B.choose("copy", ["deep", "shallow"])
    with world(B):
        trs, nodes = graphs(B, kind)
        plan = optplan.OptimizationPlan(transformations=trs, nodes=nodes)
        before = snapshot(plan)
        new = copy.deepcopy(plan) if deep == "deep" else copy.copy(plan)
        if snapshot(plan) != before:
            raise Failure("copied plan", "changed")
        if type(new) is not type(plan) or new is plan:
            raise Failure("copy", repr(type(new)))
        compare(B, plan, new, "copy")
        mine, found = {}, {}
        reach(plan, mine)
        reach(new, found)
        if sorted(mine) != sorted(found):
            raise Failure("copied nodes", repr(sorted(found)))
        shares = [n for n in mine if mine[n] is found[n]]
        if deep == "deep" and shares:
            raise Failure("deep copy", "shares %r" % shares)
        if deep == "shallow":
            if sorted(shares) != sorted(mine):
                raise Failure("shallow copy", "copied nodes")
            new.version = "9.9.9"
            new.nodes = None
            if plan.version == "9.9.9" or plan.nodes is None:
                raise Failure("shallow copy", "assignments reach the model")


# rejections ------------------------------------------------------------------


def rejected(fn):
    try:
        fn()
    except Exception:  # pylint: disable=broad-except
        return True
    return False


def c_reject(B):
    """Wrong references, unknown types and names, duplicates, versions."""
    kind = B.choose("defect", [
        "constructor reference", "list reference", "dictionary reference",
        "nested reference", "nested list reference", "transformation reference",
        "parametrization reference", "file reference type",
        "file list reference type", "file unknown name", "file unknown type",
        "file unknown transformation type", "file duplicate name",
        "duplicate names", "duplicate names deep", "hidden name",
        "missing type", "unregistered node", "wrong value", "wrong size",
        "wrong choice", "version", "deep wrong reference"])
    with world(B):
        a, b = const(B, 0), const(B, 1)
        src = optplan.DipoleSource(name="src")
        P = optplan.OptimizationPlan
        T = optplan.Transformation

        def nodes(*n):
            return lambda: optplan.dumps(P(nodes=list(n)))

        def raw(nodes_, trs=(), version="0.2.3"):
            text = json.dumps({"version": version, "nodes": nodes_,
                               "transformations": list(trs)})
            return lambda: optplan.loads(text)
        ca = {"type": "function.constant", "name": "c0",
              "value": {"real": 1.0, "imag": 0.0}}
        ds = {"type": "source.dipole_source", "name": "src"}
        good = {
            "constructor reference": lambda: VNode(name="v", one=a),
            "list reference": nodes(VNode(name="v", many=[a, b])),
            "dictionary reference": nodes(VNode(name="v", named={"k": a})),
            "nested reference": nodes(VNode(name="v", inner=VInner(ref=a))),
            "nested list reference": nodes(VNode(name="v", inners=[
                VInner(refs=[a])])),
            "transformation reference": lambda: optplan.dumps(P(
                transformations=[T(name="t", transformation=VTrans(
                    funs=[a, b]))])),
            "parametrization reference": lambda: optplan.dumps(P(
                transformations=[T(name="t", parametrization=optplan.
                                   PixelParametrization(name="p"))])),
            "file reference type": raw([ca, {
                "type": "function.abs", "name": "x", "function": "c0"}]),
            "file list reference type": raw([ca, {
                "type": "function.sum", "name": "x", "functions": ["c0"]}]),
            "file unknown name": raw([ca, {
                "type": "function.abs", "name": "x", "function": "c0"}]),
            "file unknown type": raw([ca]),
            "file unknown transformation type": raw([ca], [
                {"name": "t", "transformation": {"type": "verif13.trans"}}]),
            "file duplicate name": raw([ca, dict(ca, name="c1")]),
            "duplicate names": nodes(optplan.Sum(name="s", functions=[a, b])),
            "duplicate names deep": nodes(VNode(name="v", inners=[
                VInner(ref=a), VInner(refs=[b])])),
            "hidden name": lambda: optplan.Sum(name="_s"),
            "missing type": raw([ca]),
            "unregistered node": nodes(VNode(name="v")),
            "wrong value": raw([ca]),
            "wrong size": raw([dict(ds, position=[1.0, 2.0, 3.0])]),
            "wrong choice": raw([{"type": "simulation_space", "name": "sp",
                                  "selection_matrix_type": "uniform"}]),
            "version": raw([ca], version="0.2.3"),
            "deep wrong reference": nodes(optplan.Sum(
                name="t", functions=[VNode(name="v", named={
                    "k": VNode(name="u", innerd={"z": VInner(
                        refs=[a, b])})})])),
        }[kind]
        try:
            good()
        except Exception as e:
            raise Failure(kind, "rejected without the defect: %r" % e)
        if kind in ("duplicate names", "duplicate names deep"):
            twin = const(B, 2)
            twin.name = "c0"
            twin.value.real = B.real("re0") + 1
            bad = [nodes(optplan.Sum(name="s", functions=[a, twin])),
                   nodes(VNode(name="v", inners=[VInner(ref=a),
                                                 VInner(refs=[twin])])),
                   nodes(a, optplan.Abs(name="c0", function=b)),
                   lambda: optplan.dumps(P(nodes=[a], transformations=[
                       T(name="t", transformation=VTrans(fun=twin))]))]
        else:
            bad = [{
                "constructor reference": lambda: VNode(name="v", one=src),
                "list reference": nodes(VNode(name="v", many=[a, src])),
                "dictionary reference": nodes(VNode(name="v",
                                                    named={"k": src})),
                "nested reference": nodes(VNode(name="v",
                                                inner=VInner(ref=src))),
                "nested list reference": nodes(VNode(name="v", inners=[
                    VInner(refs=[a, src])])),
                "transformation reference": lambda: optplan.dumps(P(
                    transformations=[T(name="t", transformation=VTrans(
                        funs=[a, src]))])),
                "parametrization reference": lambda: optplan.dumps(P(
                    transformations=[T(name="t", parametrization=a)])),
                "file reference type": raw([ds, {
                    "type": "function.abs", "name": "x",
                    "function": "src"}]),
                "file list reference type": raw([ca, ds, {
                    "type": "function.sum", "name": "x",
                    "functions": ["c0", "src"]}]),
                "file unknown name": raw([ca, {
                    "type": "function.abs", "name": "x",
                    "function": "c9"}]),
                "file unknown type": raw([dict(ca, type="function.nope")]),
                "file unknown transformation type": raw([ca], [
                    {"name": "t", "transformation": {"type": "nope"}}]),
                "file duplicate name": raw([ca, dict(ds, name="c0")]),
                "hidden name": lambda: optplan.Sum(name="__s"),
                "missing type": raw([{"name": "c0"}]),
                "unregistered node": lambda: optplan.dumps(P(
                    nodes=[Unregistered(name="v")])),
                "wrong value": raw([dict(ca, value={"real": "abc"})]),
                "wrong size": raw([dict(ds, position=[1.0, 2.0])]),
                "wrong choice": raw([{
                    "type": "simulation_space", "name": "sp",
                    "selection_matrix_type": "nope"}]),
                "deep wrong reference": nodes(optplan.Sum(
                    name="t", functions=[VNode(name="v", named={
                        "k": VNode(name="u", innerd={"z": VInner(
                            refs=[a, src])})})])),
                "version": raw([ca], version="0.2.2"),
            }[kind]]
            if kind == "version":
                bad += [raw([ca], version=v) for v in ("0.1.9", "0.0.7")]
                for v in ("0.2.4", "0.2.10", "0.3.0", "1.0.0", "10.1.2"):
                    if rejected(raw([ca], version=v)):
                        raise Failure("version " + v, "rejected")
        for i, f in enumerate(bad):
            if not rejected(f):
                raise Failure(kind, "accepted (%d)" % i)
        B.eq(a.value.real, B.real("re0") if B.symbolic else a.value.real,
             "value of a node of a rejected plan")


class Unregistered(optplan.Function):
    type = types.StringType(default="function.unregistered13", required=True,
                            choices=("function.unregistered13", ))


# names -----------------------------------------------------------------------


def c_names(B):
    """Generated names: unique among each other and among loaded ones."""
    ops = [B.choose("step %d" % i, ["constant", "sum", "load", "copy", "dump",
                                    "named"]) for i in range(4)]
    with world(B):
        optplan.reset_graph()
        # a plan written by another process
        old = [optplan.make_constant(B.real("k%d" % i) if not B.symbolic
                                     else i) for i in range(2)]
        old.append(optplan.Sum(functions=old[:]))
        text = optplan.dumps(optplan.OptimizationPlan(nodes=[old[-1]]))
        optplan.reset_graph()
        live, loaded = [], False
        for k, o in enumerate(ops):
            if o == "constant":
                live.append(optplan.make_constant(k))
            elif o == "sum":
                live.append(optplan.Sum(functions=live[:1]))
            elif o == "named":
                live.append(optplan.Constant(name="mine%d" % k))
            elif o == "load" and not loaded and not live:
                live += optplan.loads(text).nodes
                loaded = True
            elif o == "copy" and live:
                n = copy.deepcopy(live[-1])
                if n.name != live[-1].name:
                    raise Failure("name of a copy", n.name)
            elif o == "dump" and live:
                optplan.dumps(optplan.OptimizationPlan(nodes=live[-1:]))
            names = [n.name for n in live]
            if len(set(names)) != len(names):
                raise Failure("generated names", repr(names))
            if not all(names):
                raise Failure("generated names", "missing")
        if live:
            new = optplan.loads(optplan.dumps(optplan.OptimizationPlan(
                nodes=live)))
            if sorted(n.name for n in new.nodes) != sorted(
                    n.name for n in live):
                raise Failure("names", "changed by serializing")
            extra = optplan.Constant(value=optplan.ComplexNumber(
                real=B.real("e")))
            top = optplan.Sum(functions=[n for n in new.nodes] + [extra])
            round_trip(B, optplan.OptimizationPlan(nodes=[top]))


# contexts --------------------------------------------------------------------


def c_contexts(B):
    """Models and creators of the topmost context that defines them."""
    ops = [B.choose("step %d" % i, [
        "push", "pop", "register a", "register b", "register a elsewhere"])
        for i in range(5)]
    st = optplan.OptplanContextStack()
    ref = []  # [{(meta, type): (model, creator)}]
    serial = 0
    tag = B.real("tag")
    if st.pop() is not None or st.peek() is not None:
        raise Failure("empty stack", "")

    def model(n):
        return type("M%d" % n, (models.Model, ), {})

    def creator(n):
        return lambda node, work: tag + n
    meta, other = optplan.NodeMetaType.OPTPLAN_NODE, \
        optplan.NodeMetaType.TRANSFORMATION
    for o in ops:
        serial += 1
        if o == "push":
            c = optplan.OptplanContext()
            st.push(c)
            ref.append((c, {}))
        elif o == "pop":
            got = st.pop()
            want = ref.pop()[0] if ref else None
            if got is not want:
                raise Failure("pop", "another context")
        else:
            if not ref:
                continue
            m, f = model(serial), creator(serial)
            key = (other if "elsewhere" in o else meta, o.split()[1])
            c, d = ref[-1]
            # the top context, through the stack
            top = st.peek()
            if top is not c:
                raise Failure("peek", "another context")
            if key in d:
                if not rejected(lambda: top.register_node_type(
                        key[0], key[1], m, f)):
                    raise Failure("second registration", "accepted")
            else:
                top.register_node_type(key[0], key[1], m, f)
                d[key] = (m, f, serial)
        for mt in (meta, other):
            view = {}
            for c, d in ref:
                for (mm, t), v in d.items():
                    if mm == mt:
                        view[t] = v
            for t in ("a", "b", "c"):
                gm = st.get_node_model(mt, t)
                gc = st.get_node_creator(mt, t)
                if gm is not (view[t][0] if t in view else None):
                    raise Failure("model of " + t, repr(gm))
                if (gc is None) != (t not in view):
                    raise Failure("creator of " + t, repr(gc))
                if gc is not None:
                    B.eq(gc(None, None), tag + view[t][2],
                         "creator of " + t)
            gd = st.get_node_model_dict(mt)
            if sorted(gd) != sorted(view) or any(
                    gd[t] is not view[t][0] for t in view):
                raise Failure("models", repr(gd))
            gd.clear()
            for c, d in ref:
                own = {t: v[0] for (mm, t), v in d.items() if mm == mt}
                cd = c.get_node_model_dict(mt)
                if cd != own:
                    raise Failure("models of a context", repr(cd))
                cd["zz"] = None


def c_register(B):
    """register_node_type and register_node act on the topmost context."""
    how = B.choose("registered by", ["node type", "node", "transformation",
                                     "both", "other stack"])
    with world(B):
        val = B.real("val")
        st = optplan.GLOBAL_CONTEXT_STACK
        meta = optplan.NodeMetaType.TRANSFORMATION \
            if how == "transformation" else optplan.NodeMetaType.OPTPLAN_NODE

        class New(optplan.Function):
            type = types.StringType(default="function.constant",
                                    required=True,
                                    choices=("function.constant", ))
            extra = types.FloatType()
        below = st.get_node_model(meta, "function.constant")
        below_c = st.get_node_creator(meta, "function.constant")
        if how == "other stack":
            mine = optplan.OptplanContextStack()
            mine.push(optplan.OptplanContext())
            optplan.register_node(New, context_stack=mine)(
                lambda n, w: val)
            if st.get_node_model(meta, "function.constant") is not below or \
                    mine.get_node_model(meta, "function.constant") is not New:
                raise Failure("registration", "in another stack")
            B.eq(mine.get_node_creator(meta, "function.constant")(None, None),
                 val, "creator")
            return
        st.push(optplan.OptplanContext())
        if how == "node type":
            back = optplan.register_node_type()(New)
            if back is not New:
                raise Failure("decorator", repr(back))
            if not rejected(lambda: st.get_node_creator(
                    meta, "function.constant")(None, None)):
                raise Failure("creator", "without one")
        elif how == "transformation":
            f = lambda n, w: val
            if optplan.register_transformation(New)(f) is not f:
                raise Failure("decorator", "replaces the creator")
        else:
            f = lambda n, w: val
            if optplan.register_node(New)(f) is not f:
                raise Failure("decorator", "replaces the creator")
        if how == "both":
            st.push(optplan.OptplanContext())
            optplan.register_node(New)(lambda n, w: 2 * val)
            B.eq(st.get_node_creator(meta, "function.constant")(None, None),
                 2 * val, "creator of the topmost context")
            st.pop()
        if st.get_node_model(meta, "function.constant") is not New:
            raise Failure("model", "not the topmost one")
        if how != "node type":
            B.eq(st.get_node_creator(meta, "function.constant")(None, None),
                 val, "creator")
        if how in ("node", "both"):
            plan = optplan.OptimizationPlan(nodes=[New(name="n",
                                                       extra=val)])
            new = round_trip(B, plan)
            if type(new.nodes[0]) is not New:
                raise Failure("loaded model", repr(type(new.nodes[0])))
        st.pop()
        if st.get_node_model(meta, "function.constant") is not below or \
                st.get_node_creator(meta, "function.constant") is not below_c:
            raise Failure("registration", "survives the context")
        if below is not None:
            round_trip(B, optplan.OptimizationPlan(nodes=[const(B, 0)]))


ITEMS = [
    Contract("models", c_models,
             [IO + "dumps", IO + "loads", IO + "_extract_nodes",
              IO + "_iter_optplan_fields",
              IO + "_replace_ref_nodes_with_names", IO + "validate",
              OP + "OptplanPolyModelType._convert",
              OP + "OptplanPolyModelType._export"], sym="obj", num=(40, 200),
             max_instances=1000, budget=300),
    Contract("graphs", c_graphs,
             [IO + "dumps", IO + "loads", IO + "_extract_nodes",
              IO + "_iter_optplan_fields",
              IO + "_replace_ref_nodes_with_names"], sym="obj",
             num=(30, 120)),
    Contract("copies", c_copies, [SU + "CopyModelMixin.__deepcopy__",
                                  SU + "CopyModelMixin.__copy__"], sym="obj",
             num=(10, 40)),
    Contract("rejections", c_reject,
             [IO + "validate", IO + "validate_references", IO + "loads",
              IO + "dumps", IO + "_validate_optplan_version",
              OP + "ProblemGraphNode.__init__"], sym="obj", num=(25, 60)),
    Contract("names", c_names, [IO + "generate_name", IO + "autoname",
                                IO + "loads",
                                OP + "ProblemGraphNode.__init__"], sym="obj",
             num=(30, 120), max_instances=2000, budget=200),
    Contract("contexts", c_contexts,
             [CX + "OptplanContext.register_node_type",
              CX + "OptplanContext.get_node_model_dict",
              CX + "OptplanContextStack.get_node_model",
              CX + "OptplanContextStack.get_node_creator",
              CX + "OptplanContextStack.get_node_model_dict",
              CX + "OptplanContextStack.pop"], sym="obj", num=(30, 120),
             max_instances=4000, budget=200),
    Contract("registration", c_register,
             ["spins/invdes/problem_graph/optplan/__init__.py:register_node",
              "spins/invdes/problem_graph/optplan/__init__.py:"
              "register_node_type", CX + "OptplanContextStack.push"],
             sym="obj", num=(10, 30)),
]
