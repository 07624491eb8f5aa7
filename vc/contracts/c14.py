"""C14: running, protecting, checkpointing and resuming a goos plan.

The real OptimizationPlan is executed with symbolic variable values; actions
are affine maps with symbolic coefficients, so equality of final states is
equality of polynomials in all of them.
"""
import os
import shutil
import tempfile

import numpy as np

from vc.run import Contract
from vc.harness import Failure

from spins import goos

LEVEL = "proof"
TECHNIQUE = ("contracts on the real plan executed with symbolic variable "
             "values and action coefficients; every action sequence, failure "
             "point and kill point up to the stated length; normal form")
ASSUMPTIONS = [
    "plans of up to 4 actions (every position of a failure, checkpoint, kill "
    "and resume), variables of up to 2 dimensions",
    "files written by write_event and write_checkpoint are read back as "
    "written; pickling returns an equal object (symbolic scalars are pickled "
    "by reference, arrays and the state dictionary by the real pickle)",
    "a process killed between two events leaves the complete files of the "
    "events before",
]
OP = "spins/goos/optplan/optplan.py:OptimizationPlan."
MA = "spins/goos/math.py:"


class Base(goos.Action):
    node_type = "verif.c14.base"
    goos_no_register = True

    def __init__(self) -> None:
        super().__init__()


class Act(Base):
    node_type = "verif.c14.act"
    goos_no_register = True

    def __init__(self) -> None:
        super().__init__()
        self.fn = None

    def run(self, plan):
        self.fn(plan)


class Steps(Base):
    """x -> c_k x + d_k for every k, an event after each; resumable."""
    node_type = "verif.c14.steps"
    goos_no_register = True

    def __init__(self) -> None:
        super().__init__()
        self.var = self.maps = self.done = None
        self.after = None

    def run(self, plan):
        self._go(plan, 0)

    def resume(self, plan, event):
        self._go(plan, event["step"])

    def _go(self, plan, k):
        for i in range(k, len(self.maps)):
            c, d = self.maps[i]
            plan.set_var_value(self.var, c * plan.get_var_value(self.var) + d)
            self.done.append(i)
            plan.write_event({"step": i + 1})
            if self.after:
                self.after(plan, i)


class Plain(Steps):
    """The same without resume: executed again from the checkpoint state."""
    node_type = "verif.c14.plain"
    goos_no_register = True
    resume = property()

    def __init__(self) -> None:
        super().__init__()


class Killed(Exception):
    pass


def act(plan, fn):
    a = Act()
    a.fn = fn
    plan.add_action(a)
    return a


def once(plan, fn):
    act(plan, fn)
    plan.run(auto_checkpoint=False)


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-c14-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def frozen(plan, v):
    return bool(plan.get_state_dict()["variable_data"][v._goos_name]["frozen"])


def raises(fn):
    try:
        fn()
    except (ValueError, TypeError):
        return True
    return False


def bound_arrays(B, shape, tag):
    """Bounds (concrete; infinite where absent)."""
    n = int(np.prod(shape))
    k = {"a": 0, "b": 1, "c": 2}[tag]
    lo = np.where(np.arange(n) % 2 == k % 2, -1.0 - k, -np.inf)
    hi = np.where(np.arange(n) % 3 == k % 3, 2.0 + k, np.inf)
    return [lo.reshape(shape), hi.reshape(shape)]


def check_state(B, plan, want, where):
    for v, (val, bnd, fro) in want.items():
        nm = v._goos_name
        B.eq(plan.get_var_value(v), val, "value of %s %s" % (nm, where))
        got = plan.get_var_bounds(v)
        if len(got) != 2 or any(
                np.shape(g) != np.shape(w) or not np.array_equal(g, w)
                for g, w in zip(got, bnd)):
            raise Failure("bounds of %s %s" % (nm, where),
                          "%r instead of %r" % (got, bnd))
        if frozen(plan, v) != fro:
            raise Failure("frozen state of %s %s" % (nm, where), str(not fro))


def two_vars(B, plan):
    x0, y0 = B.real("x", (2, )), B.real("y", (1, 2))
    bx, by = bound_arrays(B, (2, ), "a"), bound_arrays(B, (1, 2), "b")
    x = goos.Variable(np.zeros(2), name="x", lower_bounds=bx[0].copy(),
                      upper_bounds=bx[1].copy())
    y = goos.Variable(np.zeros((1, 2)), name="y", lower_bounds=by[0].copy(),
                      upper_bounds=by[1].copy())

    def fn(plan):
        plan.set_var_value(x, x0)
        plan.set_var_value(y, y0)
    once(plan, fn)
    return x, y, {x: [x0, bx, False], y: [y0, by, False]}


# running ---------------------------------------------------------------------


def c_run(B):
    """Every action once, in order, modifying only inside an action."""
    n = B.choose("actions", [0, 1, 2, 3, 4])
    fail = B.choose("failing action", [None] + list(range(n)))
    split = B.choose("actions added later", list(range(n + 1))[:3])
    auto = B.choose("autorun", [False, True]) if fail is None else False
    log = []
    err = []
    with goos.OptimizationPlan(autorun=auto) as plan:
        x, y, st = two_vars(B, plan) if not auto else (None, None, None)
        if auto:
            x = goos.Variable(np.zeros(2), name="x")
            st = {x: [np.zeros(2), [np.full(2, -np.inf), np.full(2, np.inf)],
                      False]}
        want = st[x][0]
        maps = [(B.real("c%d" % i), B.real("d%d" % i, (2, )))
                for i in range(n)]

        def mk(i):
            def fn(p):
                if p is not plan:
                    err.append("another plan")
                log.append(i)
                c, d = maps[i]
                p.set_var_value(x, c * p.get_var_value(x) + d)
                if i == fail and not err:
                    raise Killed()
            return fn

        for i in range(n - split):
            act(plan, mk(i))
            if auto and log != list(range(i + 1)):
                raise Failure("autorun", repr(log))
        done = 0
        for stage in (0, 1, 2):
            if stage == 1:
                for i in range(n - split, n):
                    act(plan, mk(i))
            upto = n - split if stage == 0 else n
            try:
                plan.run(auto_checkpoint=False)
                died = False
            except Killed:
                died = True
            stop = fail if fail is not None and fail < upto else upto
            if died != (fail is not None and fail < upto and fail >= done):
                raise Failure("failing action", "died: %s" % died)
            expect = list(range(stop)) + ([stop] if died else [])
            if log != expect:
                raise Failure("actions executed", "%r instead of %r" %
                              (log, expect))
            w = want
            for i in expect:
                w = maps[i][0] * w + maps[i][1]
            B.eq(plan.get_var_value(x), w, "value after %d actions" %
                 len(expect))
            if not raises(lambda: plan.set_var_value(x, np.zeros(2))):
                raise Failure("protection", "variable set after run" +
                              (" failed" if died else ""))
            B.eq(plan.get_var_value(x), w, "value after rejected change")
            if died:
                return
            done = upto
        if err:
            raise Failure("plan", err[0])


MUTATE = ["value", "value unchecked", "bounds", "freeze", "thaw", "event",
          "thawed variables"]


def c_protect(B):
    """Outside an action every change is rejected and nothing changes."""
    kind = B.choose("change", MUTATE)
    when = B.choose("when", ["after run", "after failed run", "added action",
                             "after failed resume"])
    with goos.OptimizationPlan() as plan:
        x, y, st = two_vars(B, plan)
        if kind == "thaw":
            once(plan, lambda p: p.freeze_var(x))
            st[x][2] = True
        if when in ("after failed run", "after failed resume"):
            def bad(p):
                raise Killed()
            act(plan, bad)
            try:
                (plan.run if when == "after failed run" else plan.resume)(
                    auto_checkpoint=False)
            except Killed:
                pass
        if when == "added action":
            act(plan, lambda p: None)
        new = B.real("new", (2, ))
        calls = {
            "value": lambda: plan.set_var_value(x, new),
            "value unchecked": lambda: plan.set_var_value(
                x, new, check_frozen=False),
            "bounds": lambda: plan.set_var_bounds(
                x, bound_arrays(B, (2, ), "c")),
            "freeze": lambda: plan.freeze_var(x),
            "thaw": lambda: plan.thaw_var(x),
            "event": lambda: plan.write_event({}),
            "thawed variables": lambda: plan.get_thawed_vars(),
        }
        if not raises(calls[kind]) and kind != "thawed variables":
            raise Failure("protection", "%s accepted outside an action" % kind)
        check_state(B, plan, st, "after a rejected change")


def c_frozen(B):
    """Frozen variables reject changes; only listed variables are thawed."""
    seq = B.choose("sequence", ["", "f", "ft", "ftf", "ff", "t"])
    how = B.choose("by", ["variable actions", "plan"])
    par = B.choose("parameter", [False, True])
    seen = {}
    with goos.OptimizationPlan() as plan:
        x, y, st = two_vars(B, plan)
        p0 = B.real("p", (1, ))
        p = goos.Variable(0.0, name="p", parameter=par)
        once(plan, lambda q: q.set_var_value(p, p0, check_frozen=False))
        for s in seq:
            if how == "plan":
                once(plan, lambda q: (q.freeze_var if s == "f" else
                                      q.thaw_var)(x))
            else:
                (x.freeze if s == "f" else x.thaw)()
                plan.run(auto_checkpoint=False)
        fro = seq[-1:] == "f"
        st[x][2] = fro
        st[p] = [p0, [np.full(1, -np.inf), np.full(1, np.inf)], par]
        check_state(B, plan, st, "after freezing")
        once(plan, lambda q: seen.update(t=q.get_thawed_vars()))
        names = sorted(v._goos_name for v in seen["t"])
        if names != ([] if par else ["p"]) + ([] if fro else ["x"]) + ["y"]:
            raise Failure("thawed variables", repr(names))
        new = B.real("new", (2, ))
        x.set(goos.Constant(np.zeros(2)) + 1)
        try:
            plan.run(auto_checkpoint=False)
            done = True
        except ValueError:
            done = False
        if done == fro:
            raise Failure("frozen variable", "set by an action: %s" % done)
        if not fro:
            st[x][0] = np.ones(2)
        check_state(B, plan, st, "after set")
    with goos.OptimizationPlan() as plan:
        x, y, st = two_vars(B, plan)
        if fro:
            once(plan, lambda q: q.freeze_var(x))
        got = []

        def direct(q):
            got.append(raises(lambda: q.set_var_value(x, new)))
            got.append(raises(lambda: q.set_var_value(y, new.reshape(1, 2))))
        once(plan, direct)
        st[x][2] = fro
        if not fro:
            st[x][0] = new
        st[y][0] = new.reshape(1, 2)
        if got != [fro, False]:
            raise Failure("frozen variable", "rejections %r" % got)
        check_state(B, plan, st, "after direct set")
        once(plan, lambda q: q.set_var_value(x, 2 * new, check_frozen=False))
        st[x][0] = 2 * new
        check_state(B, plan, st, "after unchecked set")
    with goos.OptimizationPlan() as plan:
        q = goos.Variable(1.0, name="q", parameter=True)
        if not raises(q.thaw):
            raise Failure("parameter", "thawed")
        plan.run(auto_checkpoint=False)
        if not frozen(plan, q):
            raise Failure("parameter", "not frozen")
        q.set(5)
        plan.run(auto_checkpoint=False)
        B.eq(np.ravel(plan.get_var_value(q)), np.array([5.0]),
             "set parameter")


# aliasing --------------------------------------------------------------------


def scramble(a):
    if isinstance(a, dict):
        for v in a.values():
            scramble(v)
    elif isinstance(a, (list, tuple)):
        for v in a:
            scramble(v)
    elif isinstance(a, np.ndarray) and np.ndim(a):
        a[...] = 77.0


def c_alias(B):
    """Arrays handed in or out share nothing with the plan."""
    route = B.choose("route", [
        "set value", "set bounds", "get value", "get bounds", "state dict",
        "evaluate variable", "evaluate cast", "gradient", "event",
        "set constant", "initial value", "initial bounds", "set from variable",
        "variable in two plans"])
    with Dir() as d, goos.OptimizationPlan(
            save_path=d if route == "event" else None) as plan:
        x, y, st = two_vars(B, plan)
        new = B.real("new", (2, ))
        keep = +new
        if route == "set value":
            once(plan, lambda p: p.set_var_value(x, new))
            scramble(new)
            st[x][0] = keep
        elif route == "set bounds":
            b = bound_arrays(B, (2, ), "c")
            once(plan, lambda p: p.set_var_bounds(x, b))
            scramble(b)
            b[0] = None
            st[x][1] = bound_arrays(B, (2, ), "c")
        elif route == "get value":
            scramble(plan.get_var_value(x))
        elif route == "get bounds":
            b = plan.get_var_bounds(x)
            scramble(b)
            if isinstance(b, list):
                b[0] = None
        elif route == "state dict":
            s = plan.get_state_dict()
            scramble(s)
            s["variable_data"]["x"]["frozen"] = True
            s["variable_data"].clear()
        elif route == "evaluate variable":
            scramble(plan.eval_node(x).array)
            scramble(plan.eval_nodes([y, x])[1].array)
        elif route == "evaluate cast":
            f = goos.rename(x, "renamed")
            scramble(plan.eval_node(f).array)
        elif route == "gradient":
            f = goos.Sum([goos.dot(np.ones(2), x),
                          goos.dot(np.ones((1, 2)), y)])
            for g in plan.eval_grad(f, [x, y]):
                scramble(g.array_grad)
            g = plan.eval_grad(f, [x, y])
            B.eq(g[0].array_grad, np.ones(2), "gradient again")
        elif route == "event":
            ev = {"list": [1, 2], "array": np.zeros(2)}

            def fn(p):
                p.write_event(ev, monitor_list=[x])
                scramble(ev)
                ev["list"].append(3)
            once(plan, fn)
        elif route == "set constant":
            c = np.array([1.0, 2.0])
            x.set(c)
            scramble(c)
            plan.run(auto_checkpoint=False)
            st[x][0] = np.array([1.0, 2.0])
        elif route == "initial value":
            c = np.array([1.0, 2.0])
            z = goos.Variable(c, name="z")
            scramble(c)
            st[z] = [np.array([1.0, 2.0]),
                     [np.full(2, -np.inf), np.full(2, np.inf)], False]
        elif route == "initial bounds":
            lo, hi = bound_arrays(B, (2, ), "c")
            z = goos.Variable(np.zeros(2), name="z", lower_bounds=lo,
                              upper_bounds=hi)
            scramble([lo, hi])
            st[z] = [np.zeros(2), bound_arrays(B, (2, ), "c"), False]
        elif route == "set from variable":
            z = goos.Variable(np.zeros(2), name="z")
            z.set(x)
            x.set(goos.Constant(np.zeros(2)))
            plan.run(auto_checkpoint=False)
            once(plan, lambda p: p.set_var_value(x, new))
            st[z] = [st[x][0],
                     [np.full(2, -np.inf), np.full(2, np.inf)], False]
            st[x][0] = keep
        elif route == "variable in two plans":
            with goos.OptimizationPlan() as other:
                other.add_node(x)
                B.eq(other.get_var_value(x), np.zeros(2), "own initial value")
                once(other, lambda p: (p.set_var_value(x, new),
                                       p.freeze_var(x)))
                scramble(other.get_var_value(x))
                B.eq(other.get_var_value(x), keep, "value in the other plan")
        check_state(B, plan, st, "after " + route)


# checkpoints and resuming ----------------------------------------------------


def build(B, spec, d, done, hook=None):
    """A plan of actions described by spec; the same in every process."""
    plan = goos.OptimizationPlan(save_path=d)
    table = B.__dict__.setdefault("c14", {})

    def real(name, shape=()):
        if name not in table:
            table[name] = B.real(name, shape)
        return +table[name]
    with plan:
        bx, by = bound_arrays(B, (2, ), "a"), bound_arrays(B, (1, 2), "b")
        x = goos.Variable(np.zeros(2), name="x", lower_bounds=bx[0],
                          upper_bounds=bx[1])
        y = goos.Variable(np.zeros((1, 2)), name="y", lower_bounds=by[0],
                          upper_bounds=by[1])
        for k, kind in enumerate(spec):
            if kind in ("steps", "plain"):
                a = (Steps if kind == "steps" else Plain)(name="act%d" % k)
                a.var = x
                a.maps = [(real("c%d.%d" % (k, i)),
                           real("d%d.%d" % (k, i), (2, )))
                          for i in range(2)]
                a.done = done.setdefault(k, [])
                if hook:
                    a.after = lambda p, i, k=k: hook(k, i)
            else:
                a = Act(name="act%d" % k)

                def fn(p, k=k, kind=kind):
                    done.setdefault(k, []).append(0)
                    if kind == "freeze":
                        p.freeze_var(y)
                    elif kind == "thaw":
                        p.thaw_var(y)
                    elif kind == "bounds":
                        p.set_var_bounds(x, bound_arrays(B, (2, ), "c"))
                    else:
                        p.set_var_value(
                            y, p.get_var_value(y) * real("m%d" % k) +
                            p.get_var_value(x).reshape(1, 2),
                            check_frozen=False)
                    if hook:
                        hook(k, -1)
                a.fn = fn
            plan.add_action(a)
    return plan, x, y


def snapshot(plan, x, y):
    return [plan.get_var_value(x), plan.get_var_value(y),
            plan.get_var_bounds(x), plan.get_var_bounds(y),
            frozen(plan, x), frozen(plan, y)]


def same_state(B, plan, x, y, want, where):
    check_state(B, plan, {x: (want[0], want[2], want[4]),
                          y: (want[1], want[3], want[5])}, where)


SPECS = [("steps", ), ("set", "steps", "freeze"),
         ("steps", "bounds", "freeze", "set"), ("plain", "set"),
         ("freeze", "steps", "thaw", "steps")]


def c_resume(B):
    """Killed anywhere and resumed from the newest checkpoint or event file:
    same final state, only the remaining work."""
    spec = B.choose("actions", SPECS)
    with Dir() as d0:
        full = {}
        plan, x, y = build(B, spec, d0, full)
        plan.run()
        want = snapshot(plan, x, y)
        files = sorted(os.listdir(d0))
    for k in range(len(spec)):
        if full.get(k) != ([0, 1] if spec[k] in ("steps", "plain") else [0]):
            raise Failure("uninterrupted run", repr(full))
    points = [(k, i) for k, kind in enumerate(spec)
              for i in ((0, 1) if kind in ("steps", "plain") else (-1, ))]
    points.append(None)
    kill = B.choose("killed after", points)
    src = B.choose("resume from", ["event", "checkpoint"])

    class Stop(Exception):
        pass

    def hook(k, i):
        if (k, i) == kill:
            raise Stop()
    with Dir() as d:
        first = {}
        plan, x, y = build(B, spec, d, first, hook)
        try:
            plan.run()
            if kill is not None:
                raise Failure("kill", "not reached")
        except Stop:
            pass
        there = sorted(os.listdir(d))
        stamp = {f: open(os.path.join(d, f), "rb").read() for f in there}
        # what the newest file of each kind stands for
        if src == "checkpoint":
            c = [f for f in there if f.endswith(".chkpt")]
            n = len(spec) if kill is None else kill[0]
            if c != sorted("action%d.chkpt" % i for i in range(n)):
                raise Failure("checkpoints", repr(c))
            name = "action%d.chkpt" % (n - 1) if n else None
            pos, step = n, 0
        else:
            ev = [(k, i) for k, i in points[:-1] if i >= 0 and
                  (kill is None or (k, i) <= kill)]
            s = [f for f in there if f.endswith(".pkl")]
            if sorted(s) != sorted("step%d.pkl" % (i + 1)
                                   for i in range(len(ev))):
                raise Failure("event files", repr(s))
            name = "step%d.pkl" % len(ev) if ev else None
            pos, step = (ev[-1][0], ev[-1][1] + 1) if ev else (0, 0)
        second = {}
        plan, x, y = build(B, spec, d, second)
        plan.resume(os.path.join(d, name) if name else None)
        for k, kind in enumerate(spec):
            whole = [0, 1] if kind in ("steps", "plain") else [0]
            todo = (whole if k > pos or (k == pos and kind != "steps") else
                    whole[step:] if k == pos else [])
            if second.get(k, []) != todo:
                raise Failure("remaining actions",
                              "action %d (%s) performs steps %r instead of %r"
                              % (k, kind, second.get(k, []), todo))
        if name is None or spec[pos if pos < len(spec) else -1] != "plain" \
                or not step:
            same_state(B, plan, x, y, want, "after resuming")
            # nothing written before is lost
            if src == "event" or kill is None:
                for f in there:
                    if f.endswith(".pkl") and open(
                            os.path.join(d, f), "rb").read() != stamp[f]:
                        raise Failure("event files", "%s overwritten" % f)
                if sorted(os.listdir(d)) != files:
                    raise Failure("files", "%r instead of %r" %
                                  (sorted(os.listdir(d)), files))
        if not raises(lambda: plan.set_var_value(x, np.zeros(2))):
            raise Failure("protection", "variable set after resume")
        # a further run has nothing left to do
        n = {k: list(v) for k, v in second.items()}
        plan.run()
        if n != second:
            raise Failure("run after resume", "executed actions again")


def c_checkpoint(B):
    """write_checkpoint and read_checkpoint restore state and position."""
    spec = ("set", "freeze", "bounds", "set")
    at = B.choose("written before action", [0, 1, 2, 3, 4])
    into = B.choose("read into a plan after", [0, 2, 4])
    with Dir() as d:
        log = {}
        plan, x, y = build(B, spec[:at], None, log)
        plan.run()
        with plan:
            nx = B.real("nx", (2, ))

            # any combination of frozen variables and changed bounds
            fr = B.choose("frozen at writing", ["", "x", "y", "xy"])
            bd = B.choose("bounds changed before", [False, True])

            def state(p):
                p.thaw_var(x)
                p.set_var_value(x, nx)
                for v, node in (("x", x), ("y", y)):
                    if bd:
                        p.set_var_bounds(node, bound_arrays(
                            B, np.shape(p.get_var_value(node)), "c"))
                    (p.freeze_var if v in fr else p.thaw_var)(node)
            once(plan, state)
        want = snapshot(plan, x, y)
        f = os.path.join(d, "c")
        plan.write_checkpoint(f)
        same_state(B, plan, x, y, want, "after writing")
        # later changes do not reach the file
        with plan:
            once(plan, lambda p: (p.thaw_var(x), p.set_var_value(x, 3 * nx),
                                  p.set_var_bounds(x, bound_arrays(
                                      B, (2, ), "b")), p.freeze_var(x)))
        other, x2, y2 = build(B, spec[:into], None, {})
        other.run()
        for again in (0, 1):
            other.read_checkpoint(f)
            same_state(B, other, x2, y2, want, "after reading")
            if not raises(lambda: other.set_var_value(x2, nx)):
                raise Failure("protection", "set after reading a checkpoint")
            scramble(other.get_var_value(x2))
            scramble(other.get_state_dict())
        plan.read_checkpoint(f)
        same_state(B, plan, x, y, want, "after going back")
        # the position is the one of writing
        logs = {}
        third, x3, y3 = build(B, ("set", "freeze", "set", "thaw", "set",
                                  "set", "set"), None, logs)
        third.read_checkpoint(f)
        third.run()
        if sorted(logs) != list(range(at + 1, 7)) or any(
                v != [0] for v in logs.values()):
            raise Failure("position", "executed %r" % logs)


ITEMS = [
    Contract("running", c_run, [OP + "run", OP + "add_action",
                                OP + "_finish_action"], sym="obj",
             num=(60, 300), max_instances=400, budget=200),
    Contract("protection", c_protect,
             [OP + "set_var_value", OP + "set_var_bounds", OP + "freeze_var",
              OP + "thaw_var", OP + "write_event"], sym="obj", num=(40, 120)),
    Contract("freezing", c_frozen,
             [OP + "freeze_var", OP + "thaw_var", OP + "get_thawed_vars",
              OP + "set_var_value", MA + "SetVariable.run",
              MA + "FreezeVariable.run", MA + "ThawVariable.run",
              MA + "Variable.thaw"], sym="obj", num=(40, 120)),
    Contract("aliasing", c_alias,
             [OP + "add_node", OP + "get_var_value", OP + "get_var_bounds",
              OP + "get_state_dict", OP + "eval_nodes", OP + "eval_grad",
              MA + "Variable.__init__"], sym="obj", num=(40, 160)),
    Contract("checkpoint", c_checkpoint,
             [OP + "write_checkpoint", OP + "read_checkpoint",
              OP + "get_state_dict"], sym="obj", num=(60, 240),
             max_instances=400, budget=200),
    Contract("resume", c_resume,
             [OP + "resume", OP + "run", OP + "_finish_action",
              OP + "write_event", OP + "read_checkpoint"], sym="obj",
             num=(60, 300), max_instances=400, budget=300),
]
