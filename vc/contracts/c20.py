"""C20: the workspace's object cache, the log files and the log loader.

The real Workspace, Logger, run_plan and loader are executed; logged values,
parametrization vectors and parameters are symbolic and travel through the
real pickle files and data frames, so that a value attributed to the wrong
entry is a different symbol.
"""
import contextlib
import logging
import os
import pickle
import random
import shutil
import tempfile

import numpy as np

from vc.run import Contract, Bounded
from vc.harness import Failure

from schematics import types
from spins.invdes import parametrization
from spins.invdes import problem
from spins.invdes.problem_graph import creator  # pylint: disable=unused-import
from spins.invdes.problem_graph import optplan
from spins.invdes.problem_graph import solver
from spins.invdes.problem_graph import workspace
from spins.invdes.problem_graph.log_tools import loader
from spins.invdes.problem_graph.log_tools import monitor_spec

LEVEL = "proof"
TECHNIQUE = ("contracts on the real workspace, logger, plan runner and log "
             "loader executed with symbolic logged values; every request and "
             "log history up to the stated length; normal form")
ASSUMPTIONS = [
    "graphs of up to 5 nodes, 4 requests; histories of up to 13 log entries, "
    "3 transformations, 3 monitors; plans of up to 3 transformations killed "
    "after any log entry",
    "pickle, pandas and flatdict are trusted to return the objects they are "
    "given (symbolic scalars are pickled by reference)",
    "log entries of one transformation and event either all carry an "
    "iteration or none does; logged values are not NaN; an iteration that "
    "was not logged is not claimed",
    "log files are complete (no crash while a file is being written)",
]
WS = "spins/invdes/problem_graph/workspace.py:"
LD = "spins/invdes/problem_graph/log_tools/loader.py:"
MS = "spins/invdes/problem_graph/log_tools/monitor_spec.py:"
SO = "spins/invdes/problem_graph/solver.py:"

optplan.GLOBAL_CONTEXT_STACK.push(optplan.OptplanContext())
MADE = []  # (node, object) for every creator call
TABLE = {}  # node name -> payload


class Thing:
    def __init__(self, node, parts):
        self.node, self.parts = node, parts
        self.load = TABLE["load"].get(node.name)



class VOther(optplan.ProblemGraphNode):
    type = types.StringType(default="verif20.other", required=True,
                            choices=("verif20.other", ))
    left = optplan.ReferenceType(optplan.ProblemGraphNode)



class VList(optplan.Function):
    type = types.StringType(default="function.verif20list", required=True,
                            choices=("function.verif20list", ))
    left = optplan.ReferenceType(optplan.ProblemGraphNode)
    parts = types.ListType(optplan.ReferenceType(optplan.ProblemGraphNode))


def make(node, work):
    parts = []
    if node.left is not None:
        parts.append(work.get_object(node.left))
    for p in getattr(node, "parts", None) or []:
        parts.append(work.get_object(p))
    t = Thing(node, parts)
    MADE.append((node, t))
    return t


optplan.register_node(VList)(make)
optplan.register_node(VOther)(make)


class Value(problem.OptimizationFunction):
    """Function with the value TABLE[name] at the time of evaluation."""

    def __init__(self, name):
        super().__init__([])
        self.name = name

    def eval(self, input_vals):
        return TABLE[self.name]


class VValue(optplan.Function):
    type = types.StringType(default="function.verif20value", required=True,
                            choices=("function.verif20value", ))


optplan.register_node(VValue)(lambda node, work: Value(node.name))


class VParam(optplan.Parametrization):
    type = types.StringType(default="parametrization.verif20", required=True,
                            choices=("parametrization.verif20", ))


optplan.register_node(VParam)(
    lambda node, work: parametrization.DirectParam(TABLE[node.name],
                                                   bounds=None))


class VSteps(optplan.TransformationBase):
    type = types.StringType(default="verif20.steps", required=True,
                            choices=("verif20.steps", ))
    count = types.IntType()
    key = types.StringType()
    monitors = types.ListType(optplan.ReferenceType(optplan.Monitor))
    parameter = optplan.ReferenceType(optplan.Parameter)


class Killed(Exception):
    pass


class Steps:
    """x -> (p + c_k) x + d_k, a log entry after each step."""

    def __init__(self, node, work):
        self.node, self.work = node, work
        if node.parameter is not None:
            work.get_object(node.parameter)

    def __call__(self, param, event_data=None):
        n = self.node
        at = -1
        if event_data:
            at = event_data.get("iteration", 0)
        if at < 0:
            self.log(param, {"state": "start"})
            at = 0
        for k in range(at, n.count):
            c, d = TABLE[n.key][k]
            p = self.work.get_object(n.parameter).calculate_objective_function(
                param) if n.parameter is not None else 0
            param.decode((p + c) * param.encode() + d)
            TABLE["runs"].append((n.key, k))
            self.log(param, {"state": "optimizing", "iteration": k + 1})

    def log(self, param, event):
        self.work.logger.write(event, param, self.node.monitors)
        TABLE["writes"] = TABLE.get("writes", 0) + 1
        if TABLE["writes"] == TABLE.get("kill"):
            raise Killed()


optplan.register_transformation(VSteps)(Steps)


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(prefix="verif-c20-")
    root = logging.getLogger("")
    had, level = list(root.handlers), root.level
    try:
        yield d
    finally:
        for h in list(root.handlers):
            if h not in had:
                root.removeHandler(h)
                h.close()
        root.setLevel(level)
        shutil.rmtree(d)


def raises(fn):
    try:
        fn()
    except (ValueError, TypeError):
        return True
    return False


# object cache ----------------------------------------------------------------


def c_cache(B):
    """One object per node, the same one ever after."""
    shape = B.choose("graph", ["single", "chain", "diamond", "list", "mixed"])
    first = B.choose("constructor nodes", ["none", "root", "[root]", "all"])
    del MADE[:]
    a = VList(name="a")
    if shape == "single":
        nodes = [a]
    elif shape == "chain":
        b = VOther(name="b", left=a)
        nodes = [a, b, VList(name="c", left=b)]
    elif shape == "diamond":
        b, c = VList(name="b", left=a), VOther(name="c", left=a)
        nodes = [a, b, c, VList(name="d", left=b, parts=[c, a])]
    elif shape == "list":
        b = VOther(name="b")
        nodes = [a, b, VList(name="d", parts=[a, b, a])]
    else:
        b = VList(name="b", parts=[a])
        c = VOther(name="c", left=b)
        e = VOther(name="other", left=c)
        nodes = [a, b, c, e, VList(name="d", left=c, parts=[b, e])]
    root = nodes[-1]
    load_ = {n.name: B.real("load_" + n.name) for n in nodes}
    TABLE["load"] = load_
    init = {"none": None, "root": root, "[root]": [root],
            "all": list(nodes)}[first]
    requests = [B.choose("request %d" % i, ["root", "leaf", "name of leaf",
                                            "type", "other root",
                                            "other leaf"])
                for i in range(3)]
    with folder() as d:
        work = workspace.Workspace(d, d, init) if init is not None else \
            workspace.Workspace(d, d)
        known = set()
        if init is not None:
            known = set(n.name for n in nodes)
        got = {}
        # an object built by the creator of its own node, from its parts'
        # objects, and never another one
        for r in requests:
            before = len(MADE)
            if r in ("root", "leaf"):
                n = root if r == "root" else a
                o, back = work.get_object(n, return_graph_node=True)
                if back is not n:
                    raise Failure("node of an object", n.name)
                objs = {n.name: o}
                known |= {"a"} if n is a else set(m.name for m in nodes)
            elif r == "name of leaf":
                if "a" not in known:
                    if not fails(lambda: work.get_object("a")):
                        raise Failure("unknown name", "accepted")
                    continue
                objs = {"a": work.get_object("a")}
            elif r == "type":
                objs = work.get_objects_by_type(VOther)
                want = sorted(n.name for n in nodes
                              if isinstance(n, VOther) and n.name in known)
                if sorted(objs) != want:
                    raise Failure("objects of a type", "%r instead of %r" %
                                  (sorted(objs), want))
            else:
                n = root if r == "other root" else a
                twin = type(n)(name=n.name)
                if n.name not in known:
                    continue
                if not raises(lambda: work.get_object(twin)):
                    raise Failure("different node under a known name",
                                  "accepted")
                if len(MADE) != before:
                    raise Failure("different node under a known name",
                                  "created")
                continue
            for k, o in objs.items():
                if not isinstance(o, Thing) or o.node.name != k:
                    raise Failure("object of " + k, repr(o))
                if got.setdefault(k, o) is not o:
                    raise Failure("object of " + k, "another one")
                B.eq(o.load, load_[k], "content of the object of " + k)
        made = [n.name for n, _ in MADE]
        if len(set(made)) != len(made):
            raise Failure("one object per node", "created %r" % made)
        by = {n.name: t for n, t in MADE}
        for n, t in MADE:
            if not any(n is m for m in nodes):
                raise Failure("nodes created", n.name)
            ins = ([n.left.name] if n.left is not None else []) + [
                p.name for p in (getattr(n, "parts", None) or [])]
            if [p.node.name for p in t.parts] != ins or any(
                    by[p.node.name] is not p for p in t.parts):
                raise Failure("parts of " + n.name, repr(ins))
        for k, o in got.items():
            if by[k] is not o:
                raise Failure("object of " + k, "not the created one")
        if known and not raises(lambda: work.get_object(
                VOther(name="outer", left=VList(name="a")))):
            raise Failure("different node under a known name",
                          "accepted as an input of another node")


def fails(fn):
    try:
        fn()
    except Exception:  # pylint: disable=broad-except
        return True
    return False


# logs ------------------------------------------------------------------------

# (transformation, event state, iteration, monitors)
A, Z = "alpha", "zeta"
HIST = {
    "none": [],
    "one": [(A, "start", None, "ms")],
    "one transformation": [(A, "start", None, "m"), (A, "opt", 1, "mf"),
                           (A, "opt", 2, "mf"), (A, "end", None, "s")],
    "two transformations": [
        (Z, "start", None, "ms"), (Z, "opt", 1, "m"), (Z, "opt", 2, "m"),
        (Z, "opt", 3, "ms"), (Z, "end", None, "m"),
        (A, "start", None, "ms"), (A, "opt", 1, "m"), (A, "opt", 2, "mf"),
        (A, "end", None, "sf")],
    "past nine": [(Z, "start", None, "m")] + [
        (Z, "opt", k, "ms") for k in range(1, 10)] + [
            (A, "opt", 1, "m"), (A, "opt", 2, "f"), (A, "end", None, "m")],
    "no monitors at first": [(Z, "start", None, ""), (Z, "opt", 1, ""),
                             (A, "opt", 1, "m"), (A, "opt", 2, "ms")],
    "event order differs": [(Z, "end", None, "m"), (Z, "opt", 1, "m"),
                            (A, "opt", 1, "m"), (A, "end", None, "m")],
    "events of one transformation": [
        (A, "warm", 4, "m"), (A, "opt", 1, "m"), (Z, "warm", 1, "s"),
        (Z, "opt", 2, "s"), (A, "warm", 5, "m")],
    "cycles": [(A, "opt", k, "ms" if k % 2 else "m") for k in (1, 2, 3, 4)],
    "no monitors": [(A, "start", None, ""), (A, "end", None, "")],
}
NAMES = {"m": "mon_overlap.1", "s": "second", "f": "field"}


def history(B):
    key = B.choose("history", sorted(HIST))
    return HIST[key]


def value(B, k, m):
    if m == "m":
        return B.cplx("m%d" % k)
    if m == "s":
        return B.real("s%d" % k)
    return B.real("f%d" % k, (2, ))


@contextlib.contextmanager
def order(how):
    """Directory listings come in any order."""
    real = os.listdir

    def listdir(p="."):
        names = sorted(real(p))
        if how == "reversed":
            names.reverse()
        elif how == "rotated":
            names = names[len(names) // 2:] + names[:len(names) // 2]
        return names
    os.listdir = listdir
    try:
        yield
    finally:
        os.listdir = real


def write(B, d, entries, work=None, chkpt=False):
    """The entries through the real logger; what was logged."""
    work = work or workspace.Workspace(d, d)
    pn = VParam(name="p")
    TABLE["p"] = B.real("x", (2, ))
    par = work.get_object(pn)
    ctl = optplan.Parameter(name="ctl", initial_value=1.0)
    cobj = work.get_object(ctl)
    mons = {m: optplan.SimpleMonitor(name=NAMES[m],
                                     function=VValue(name="v" + m))
            for m in "msf"}
    out = []
    last = None
    for k, (tr, st, it, ms) in enumerate(entries):
        if tr != last:
            if chkpt and last is not None:
                work.logger.write_checkpoint(last)
            work.logger.set_transformation_name(tr)
            last = tr
        vals = {m: value(B, k, m) for m in ms}
        for m in ms:
            TABLE["v" + m] = vals[m]
        cobj.set_parameter_value(B.real("ctl%d" % k))
        vec = B.real("vec%d" % k, (2, ))
        par.decode(vec)
        ev = {"state": st}
        if it is not None:
            ev["iteration"] = it
        work.logger.write(ev, par, [mons[m] for m in ms] if ms else None)
        out.append((tr, st, it, vals, vec, cobj.value))
    return out


def same(B, got, want, label):
    if np.shape(got) != np.shape(want):
        raise Failure(label, "shape %r instead of %r" %
                      (np.shape(got), np.shape(want)))
    B.eq(got, want, label)


def c_files(B):
    """Consecutive numbers, nothing overwritten, everything in the file."""
    entries = history(B)
    foreign = B.choose("other files", [[], ["step99.pkl.bak", "laststep7.pkl",
                                            "stepA.pkl", "step.pkl"]])
    with folder() as d:
        for f in foreign:
            with open(os.path.join(d, f), "wb") as h:
                pickle.dump({}, h)
        if workspace.get_latest_log_step(d) != 0 or \
                workspace.get_latest_log_file(d) is not None:
            raise Failure("latest log", "of a folder without logs")
        out = write(B, d, entries, chkpt=True)
        n = len(entries)
        names = sorted(x for x in os.listdir(d)
                       if x not in foreign and not x.endswith(".chkpt.pkl"))
        if names != sorted("step%d.pkl" % (k + 1) for k in range(n)):
            raise Failure("log files", repr(names))
        if workspace.get_latest_log_step(d) != n:
            raise Failure("latest log step", "%r instead of %d" %
                          (workspace.get_latest_log_step(d), n))
        lf = workspace.get_latest_log_file(d)
        if (lf is None) != (n == 0) or (n and not os.path.samefile(
                lf, os.path.join(d, "step%d.pkl" % n))):
            raise Failure("latest log file", repr(lf))
        for k, (tr, st, it, vals, vec, ctl) in enumerate(out):
            with open(os.path.join(d, "step%d.pkl" % (k + 1)), "rb") as h:
                data = pickle.load(h)
            ev = {"state": st}
            if it is not None:
                ev["iteration"] = it
            if (data["transformation"], data["event"],
                    data["log_counter"]) != (tr, ev, k + 1):
                raise Failure("log entry %d" % (k + 1), repr(data))
            if sorted(data["monitor_data"]) != sorted(NAMES[m] for m in vals):
                raise Failure("monitors of entry %d" % (k + 1),
                              repr(sorted(data["monitor_data"])))
            for m, v in vals.items():
                same(B, data["monitor_data"][NAMES[m]], v,
                     "monitor %s of entry %d" % (m, k + 1))
            same(B, data["parametrization"]["vector"], vec,
                 "parametrization of entry %d" % (k + 1))
            if list(data["parameters"]) != ["ctl"]:
                raise Failure("parameters", repr(list(data["parameters"])))
            same(B, data["parameters"]["ctl"], ctl,
                 "parameter of entry %d" % (k + 1))


def expected(out, names, event):
    """Transformation -> (values, iterations), by first occurrence."""
    res = {}
    for tr in dict.fromkeys(o[0] for o in out):
        for nm in names:
            m = {v: k for k, v in NAMES.items()}.get(nm)
            rows = [o for o in out if o[0] == tr and o[1] == event and
                    m in o[3]]
            if rows:
                res[tr] = ([o[3][m] for o in rows],
                           [o[2] for o in rows if o[2] is not None])
                break
    return res


def load(d, how):
    with order(how):
        return loader.create_log_data_frame(loader.load_all_logs(d))


def check_lists(B, got, want, label):
    got = list(got)
    if len(got) != len(want):
        raise Failure(label, "%d values instead of %d" % (len(got),
                                                          len(want)))
    for i, (g, w) in enumerate(zip(got, want)):
        same(B, g, w, "%s[%d]" % (label, i))


def c_load(B):
    """Every logged value, attributed and in the order of writing."""
    entries = history(B)
    how = B.choose("directory order", ["reversed", "rotated", "sorted"])
    if not any(e[3] for e in entries):
        return
    with folder() as d:
        out = write(B, d, entries, chkpt=True)
        df = load(d, how)
        if len(df) != len(out):
            raise Failure("log entries", "%d instead of %d" % (len(df),
                                                               len(out)))
        if list(df[loader.LOG_TRANSFORMATION_KEY]) != [o[0] for o in out] or \
                list(df[loader.LOG_TRANSFORMATION_INFO_KEY]) != \
                [o[1] for o in out]:
            raise Failure("order of entries", "")
        if [int(c) for c in df[loader.LOG_COUNTER]] != list(
                range(1, len(out) + 1)):
            raise Failure("log numbers", "")
        check_lists(B, list(df["parametrization:vector"]),
                    [o[4] for o in out], "parametrization")
        check_lists(B, list(df["parameters:ctl"]), [o[5] for o in out],
                    "parameter")
        for names in (["mon_overlap.1"], ["second"], ["field"],
                      ["second", "mon_overlap.1"], ["field", "second"],
                      ["absent"]):
            for event in ("start", "opt", "end", "warm", "never"):
                want = expected(out, names, event)
                got = loader.get_monitor_data(
                    df, names[0] if len(names) == 1 else names, event)
                lab = "%s during %s" % ("+".join(names), event)
                if list(got) != list(want):
                    raise Failure(lab, "transformations %r instead of %r" %
                                  (list(got), list(want)))
                for tr, (vals, its) in want.items():
                    check_lists(B, got[tr].data, vals, lab + " in " + tr)
                    if [int(i) for i in got[tr].iteration] != its:
                        raise Failure("iterations of %s in %s" % (lab, tr),
                                      "%r instead of %r" %
                                      (got[tr].iteration, its))
        ov = loader.get_overlap_monitor_names(df)
        if ov != ([NAMES["m"]] if any("m" in o[3] for o in out) else []):
            raise Failure("overlap monitors", repr(ov))


def c_single(B):
    """The entry asked for, the last one where nothing is asked."""
    entries = history(B)
    nm = B.choose("monitor", ["m", "s"])
    how = B.choose("directory order", ["reversed", "sorted"])
    if not any(e[3] for e in entries):
        return
    with folder() as d:
        out = write(B, d, entries)
        df = load(d, how)
        trs = [None] + sorted(set(o[0] for o in out))
        evs = [None] + sorted(set(o[1] for o in out))
        for tr in trs:
            for ev in evs:
                rows = [o for o in out if nm in o[3] and
                        (tr is None or o[0] == tr) and
                        (ev is None or o[1] == ev)]
                if tr is None and rows:
                    # the last transformation with data
                    names = [o[0] for o in out]
                    last = max((len(names) - 1 - names[::-1].index(t), t)
                               for t in set(o[0] for o in rows))[1]
                    rows = [o for o in rows if o[0] == last]
                if ev is None and rows:
                    evn = [o[1] if o[0] == rows[0][0] else None for o in out]
                    last = max((len(evn) - 1 - evn[::-1].index(e), e)
                               for e in set(o[1] for o in rows))[1]
                    rows = [o for o in rows if o[1] == last]
                for it in [None] + [o[2] for o in rows if o[2] is not None]:
                    got = loader.get_single_monitor_data(
                        df, [NAMES[nm]], transformation_name=tr,
                        iteration=it, event_name=ev)
                    lab = "%s of %s, %s, %s" % (nm, tr, ev, it)
                    if not rows:
                        if not (isinstance(got, list) and got == []):
                            raise Failure(lab, "%r instead of nothing" %
                                          (got, ))
                        continue
                    w = rows[-1] if it is None else [
                        o for o in rows if o[2] == it][0]
                    same(B, got, w[3][nm], lab)


OPS = [None, "magnitude_squared", "magnitude", "real", "imag", "Magnitude"]


def apply_op(v, op):
    from vc.sym import S
    if op is None:
        return v
    if op == "real":
        return np.real(v) if not isinstance(v, S) else (v + v.conj()) / 2
    if op == "imag":
        return np.imag(v) if not isinstance(v, S) else \
            (v - v.conj()) * (-0.5j)
    r = v * (np.conj(v) if not isinstance(v, S) else v.conj())
    return r if op == "magnitude_squared" else np.sqrt(
        np.real(r)) if not isinstance(v, S) else r**0.5


def c_join(B):
    """Scalar monitors joined over transformations, with the operation."""
    entries = history(B)
    op = B.choose("operation", OPS)
    event = B.choose("event", ["opt", "start", "end"])
    names = B.choose("monitors", [["mon_overlap.1"], ["second"],
                                  ["second", "mon_overlap.1"]])
    if not any(e[3] for e in entries):
        return
    with folder() as d:
        out = write(B, d, entries)
        df = load(d, "reversed")
        want = expected(out, names, event)
        vals, its, changes = [], [], []
        for tr, (v, i) in want.items():
            if vals:
                changes.append(len(vals))
            base = its[-1] if its else 0
            vals += v
            its += [base + k for k in i]
        got = loader.get_joined_scalar_monitors(df, names, event, op)
        if list(got.transformation_changes) != changes:
            raise Failure("transformation changes", "%r instead of %r" %
                          (got.transformation_changes, changes))
        if [int(k) for k in got.iterations] != its:
            raise Failure("iterations", "%r instead of %r" %
                          (got.iterations, its))
        check_lists(B, list(got.data),
                    [apply_op(v, op.lower() if op else None) for v in vals],
                    "joined data")


def c_field(B):
    """process_field and process_scalar element by element."""
    vop = B.choose("component", ["x", "y", "z", "magnitude", "X"])
    sop = B.choose("operation", [None, "magnitude_squared", "magnitude",
                                 "real", "imag"])
    f = [B.cplx("e%d" % i, (2, 2)) for i in range(3)]
    keep = [+a for a in f]
    got = loader.process_field(f, vop, sop)
    if vop.lower() == "magnitude":
        sq = sum(np.vectorize(lambda v: apply_op(v, "magnitude_squared"),
                              otypes=[object])(np.asarray(a)) for a in f)
        if sop == "magnitude_squared":
            want = sq
        elif sop == "imag":
            want = sq * 0
        else:
            want = np.vectorize(
                lambda v: v**0.5 if B.symbolic else np.sqrt(np.real(v)),
                otypes=[object])(sq)
        if sop != "magnitude_squared" and sop != "imag":
            # non-negative roots of the same square
            B.eq(got**2, sq if B.symbolic else sq.astype(complex), "squared magnitude")
            return
    else:
        a = f["xyz".index(vop.lower())]
        want = np.vectorize(lambda v: apply_op(v, sop), otypes=[object])(
            np.asarray(a))
    if not B.symbolic:
        want = want.astype(complex)
    B.eq(got, want, "processed field")
    for a, b in zip(f, keep):
        B.eq(a, b, "input")
    if not raises(lambda: loader.process_scalar(f[0], "median")):
        raise Failure("unknown operation", "accepted")


# plans -----------------------------------------------------------------------

PLANS = {
    "one": [(2, None)],
    "two": [(2, None), (1, None)],
    "set at start": [(1, None), (2, "set")],
    "set twice": [(1, "set"), (1, "inverse"), (1, None)],
}


def plan_of(B, key, cons, monitors):
    """The plan and its nodes, freshly built (as loaded from a file)."""
    par = VParam(name="par")
    fun = VValue(name="vset")
    ctl = optplan.Parameter(name="ctl", initial_value=1.0)
    mon = optplan.SimpleMonitor(name="mon", function=VValue(name="vmon"))
    trs = []
    for i, (n, s) in enumerate(PLANS[key]):
        pl = None
        if s:
            pl = [optplan.SetParam(parameter=ctl, function=fun,
                                   parametrization=par,
                                   inverse=s == "inverse")]
        trs.append(optplan.Transformation(
            name="t%d" % i, parametrization=par, parameter_list=pl,
            transformation=VSteps(count=n, key="k%d" % i, parameter=ctl,
                                  monitors=[mon] if monitors else None)))
    return optplan.OptimizationPlan(transformations=trs)


def c_resume(B):
    """A killed and resumed plan: the same logs and the same final state."""
    key = B.choose("plan", sorted(PLANS))
    total = sum(n + 1 for n, _ in PLANS[key])
    kill = B.choose("killed after log", list(range(1, total + 1)))
    again = B.choose("killed again", [None, 1])
    monitors = B.choose("monitors", [True, False]) if again is None else True
    cons = {}
    x0 = B.real("x", (2, ))
    TABLE.update(runs=[], par=x0, vset=B.real("vset", pos=True),
                 vmon=B.real("vmon"))
    for i, (n, _) in enumerate(PLANS[key]):
        cons["k%d" % i] = [(B.real("c%d_%d" % (i, k)),
                            B.real("d%d_%d" % (i, k), (2, )))
                           for k in range(n)]
    TABLE.update(cons)
    states, steps = [], []
    x, p = x0, 1.0
    for i, (n, s) in enumerate(PLANS[key]):
        if s:
            p = TABLE["vset"]**(-1 if s == "inverse" else 1)
        states.append(("t%d" % i, {"state": "start"}, x, p))
        for k in range(n):
            c, dd = cons["k%d" % i][k]
            x = (p + c) * x + dd
            steps.append(("k%d" % i, k))
            states.append(("t%d" % i, {"state": "optimizing",
                                       "iteration": k + 1}, x, p))
    with folder() as d:
        for kl in [kill] + ([again] if again else []) + [None]:
            TABLE.update(writes=0, kill=kl)
            try:
                solver.run_plan(plan_of(B, key, cons, monitors), d,
                                resume=kl is not kill or kl is None)
                if kl is kill and kl is not None:
                    raise Failure("kill", "plan ended early")
            except Killed:
                pass
            if kl is None:
                break
        # resuming a finished plan changes nothing
        TABLE.update(kill=None)
        solver.run_plan(plan_of(B, key, cons, monitors), d, resume=True)
        names = sorted(f for f in os.listdir(d) if f.startswith("step"))
        if names != sorted("step%d.pkl" % (k + 1)
                           for k in range(len(states))):
            raise Failure("log files after resuming", repr(names))
        if TABLE["runs"] != steps:
            raise Failure("steps executed", "%r instead of %r" %
                          (TABLE["runs"], steps))
        for k, (tr, ev, xs, ps) in enumerate(states):
            with open(os.path.join(d, "step%d.pkl" % (k + 1)), "rb") as h:
                data = pickle.load(h)
            if (data["transformation"], data["event"],
                    data["log_counter"]) != (tr, ev, k + 1):
                raise Failure("log entry %d" % (k + 1), "%r of %s" % (
                    data["event"], data["transformation"]))
            same(B, data["parametrization"]["vector"], xs,
                 "parametrization of entry %d" % (k + 1))
            same(B, data["parameters"]["ctl"], ps,
                 "parameter of entry %d" % (k + 1))
        with open(os.path.join(d, "t%d.chkpt.pkl" % (len(PLANS[key]) - 1)),
                  "rb") as h:
            data = pickle.load(h)
        same(B, data["parametrizations"]["par"]["vector"], x,
             "final parametrization")
        same(B, data["parameters"]["ctl"], p, "final parameter")


# listings and descriptions ---------------------------------------------------


def b_latest(tier, seed):
    """The latest log is the file step<N>.pkl with the largest N."""
    rng = random.Random(seed)
    pool = ["step1.pkl", "step2.pkl", "step9.pkl", "step10.pkl",
            "step100.pkl", "xstep55.pkl", "step77.pkl.tmp", "step.pkl",
            "stepx.pkl", "step12.txt", "step5_old.pkl", "laststep88.pkl",
            "step-3.pkl", "step4.chkpt.pkl", "notes"]
    subs = [[]] + [[p] for p in pool] + [
        [p, q] for p in pool for q in pool if p < q]
    for _ in range(60 if tier == "quick" else 400):
        subs.append(sorted(set(rng.sample(pool, rng.randrange(3, 10)) + [
            "step%d.pkl" % rng.randrange(1, 3000)])))
    dirs = ["logs", "[ab]", "a?b", "x*", "step9.pkl.d", "sp ace"]
    ev, seen = 0, set()
    for i, sub in enumerate(subs):
        for name in ([dirs[i % len(dirs)]] if i > 20 else dirs):
            with folder() as top:
                d = os.path.join(top, name)
                os.mkdir(d)
                # decoys that a pattern in the folder's name would match
                for alt in ("a", "b", "axb", "xy"):
                    os.makedirs(os.path.join(top, alt), exist_ok=True)
                    open(os.path.join(top, alt, "step9999.pkl"), "wb").close()
                for f in sub:
                    open(os.path.join(d, f), "wb").close()
                want = max([int(f[4:-4]) for f in sub
                            if f[:4] == "step" and f[-4:] == ".pkl" and
                            f[4:-4].isdigit()] + [0])
                got = workspace.get_latest_log_step(d)
                gf = workspace.get_latest_log_file(d)
                ev += 1
                seen.add((name, tuple(sub)))
                if got != want:
                    raise Failure("latest log step",
                                  "%r instead of %d among %r in %r" %
                                  (got, want, sub, name))
                wf = os.path.join(d, "step%d.pkl" % want) if want else None
                if (gf is None) != (wf is None) or (
                        wf and not os.path.samefile(gf, wf)):
                    raise Failure("latest log file", "%r among %r in %r" %
                                  (gf, sub, name))
    return dict(evaluations=ev, distinct=len(seen),
                samples=[repr(subs[40]), repr(subs[-1])], exhaustive=False)


def b_spec(tier, seed):
    """Monitor descriptions: grouped by joiner, through yml and back."""
    rng = random.Random(seed)
    ev, seen = 0, []
    mtypes = ["scalar", "planar", "volume"]
    sops = [None, "magnitude_squared", "magnitude", "phase", "real", "imag"]
    vops = [None, "magnitude", "x", "y", "z"]
    known = set()
    for n in range(80 if tier == "quick" else 400):
        joiners = {}
        descs = []
        bad = None
        for i in range(rng.randrange(1, 7)):
            j = "j%d" % rng.randrange(3)
            tup = joiners.setdefault(j, (rng.choice(mtypes),
                                         rng.choice(sops), rng.choice(vops)))
            if n % 4 == 3 and bad is None and any(
                    m.joiner_id == j for m in descs):
                bad = rng.randrange(3)
                tup = list(tup)
                pool = [mtypes, sops, vops][bad]
                tup[bad] = rng.choice([o for o in pool if o != tup[bad]])
            descs.append(monitor_spec.MonitorDescription(
                monitor=optplan.SimpleMonitor(
                    name="mon%d" % i, function=VValue(name="f%d" % i)),
                joiner_id=j, monitor_type=tup[0], scalar_operation=tup[1],
                vector_operation=tup[2]))
        ev += 1
        seen.append([(m.joiner_id, m.monitor.name) for m in descs])
        if bad is not None:
            if not raises(lambda: monitor_spec.convert_element_list(descs)):
                raise Failure("inconsistent descriptions", "accepted")
            continue
        want = {}
        for m in descs:
            want.setdefault(m.joiner_id, []).append(m.monitor.name)
        joined = monitor_spec.convert_element_list(descs)
        objs = monitor_spec.get_monitor_objects(descs)
        if [o.name for o in objs] != [m.monitor.name for m in descs]:
            raise Failure("monitor objects", "")
        for t in mtypes:
            if [o.name for o in monitor_spec.get_monitor_objects(descs, t)] \
                    != [m.monitor.name for m in descs
                        if m.monitor_type == t]:
                raise Failure("monitor objects of type " + t, "")
        with folder() as d:
            f = os.path.join(d, "spec.yml")
            monitor_spec.save_to_yml(joined, f)
            try:
                back = monitor_spec.load_from_yml(f)
            except TypeError as e:
                # yaml.load without the Loader argument PyYAML 6 requires
                if "Loader" not in str(e):
                    raise
                known.add("C20-load_from_yml")
                back = None
        for where, lst in (("joined", joined), ("loaded", back)):
            if lst is None:
                continue
            got = {m.joiner_id: list(m.monitor_names)
                   for m in lst.monitor_list}
            if got != want or [m.joiner_id for m in lst.monitor_list] != \
                    list(want):
                raise Failure(where + " monitors", "%r instead of %r" %
                              (got, want))
            for m in lst.monitor_list:
                if (m.monitor_type, m.scalar_operation,
                        m.vector_operation) != joiners[m.joiner_id]:
                    raise Failure(where + " operations", m.joiner_id)
                one = monitor_spec.get_joined_monitor_description(
                    lst, m.joiner_id)
                if one is not m:
                    raise Failure("description of a joiner", m.joiner_id)
            kinds = loader.get_monitors_by_type(None, lst)
            for t, part in zip(mtypes, kinds):
                if [m.joiner_id for m in part.monitor_list or []] != [
                        j for j in want if joiners[j][0] == t]:
                    raise Failure(where + " monitors of type " + t, "")
    return dict(evaluations=ev, distinct=len(set(map(repr, seen))),
                samples=[repr(s) for s in seen[:2]], exhaustive=False,
                known=sorted(known))


ITEMS = [
    Contract("object cache", c_cache,
             [WS + "Workspace.__init__", WS + "Workspace._add_node",
              WS + "Workspace.get_object",
              WS + "Workspace.get_objects_by_type"], sym="obj",
             num=(40, 120), max_instances=5000, budget=200),
    Contract("log files", c_files,
             [WS + "Logger.write", WS + "Logger.write_checkpoint",
              WS + "get_latest_log_step", WS + "get_latest_log_file"],
             sym="obj", num=(20, 60)),
    Contract("loading", c_load,
             [LD + "load_all_logs", LD + "create_log_data_frame",
              LD + "get_monitor_data", LD + "get_overlap_monitor_names"],
             sym="obj", num=(20, 60), budget=200),
    Contract("single entries", c_single, [LD + "get_single_monitor_data"],
             sym="obj", num=(20, 60), budget=200),
    Contract("joined monitors", c_join,
             [LD + "get_joined_scalar_monitors", LD + "process_scalar"],
             sym="obj", num=(20, 60), max_instances=1000, budget=200),
    Contract("field data", c_field, [LD + "process_field",
                                     LD + "process_scalar"],
             sym="obj", num=(20, 60)),
    Contract("resumed plans", c_resume,
             [SO + "run_plan", SO + "restore_workspace", WS + "Workspace.run",
              WS + "_set_parameters", WS + "Logger.write"], sym="obj",
             num=(30, 120), max_instances=400, budget=300),
    Bounded("latest log", b_latest, [WS + "get_latest_log_step",
                                     WS + "get_latest_log_file"],
            bound="folders of up to 11 files out of 15 patterns and numbers "
            "up to 3000"),
    Bounded("monitor descriptions", b_spec,
            [MS + "convert_element_list", MS + "save_to_yml",
             MS + "load_from_yml", LD + "get_monitors_by_type"],
            bound="80 (quick) or 400 random lists of up to 6 descriptions"),
]
