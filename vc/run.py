"""Check driver: `python -m vc.run C03 --tier quick`."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")

TRUSTED = [
    "vc/sym.py, vc/arrays.py, vc/facade.py: symbolic semantics of Python/"
    "numpy arithmetic (exact reals; machine floating point treated as "
    "mathematical; literal rounding below 1e-11 ignored)",
    "vc/prove.py normal-form rewriting and z3 (unsat answers)",
    "numpy/scipy/CPython themselves",
    "the repository modules run unmodified; during symbolic runs only their "
    "global `np` (and names listed per contract) is rebound to the proxy",
]


class Contract:
    """A contract c(B) with its obligations.

    sym:     "dims"  symbolic sizes (unbounded), falling back to "obj"
             "obj"   fixed small shapes, all values symbolic
             None    not within the symbolic verifier's reach: bounded only
    num:     numeric evaluations (quick, thorough) on the uninstrumented code
    bound:   textual bound of what is not proved for all inputs
    """

    def __init__(self, id, fn, anchors=(), sym="dims", num=(30, 300),
                 bound="", max_instances=200, budget=40.0, extra=None,
                 expect=True):
        self.id, self.fn, self.anchors = id, fn, list(anchors)
        self.sym, self.num, self.bound = sym, num, bound
        self.max_instances, self.budget = max_instances, budget
        self.extra = extra
        self.expect = expect  # the obligations must be discharged


class Bounded:
    """A bounded stand-in: fn(tier, seed, report) runs the real code.

    fn returns dict(evaluations=int, distinct=int, samples=[...]) and raises
    vc.harness.Failure on a contract violation.
    """

    def __init__(self, id, fn, anchors=(), bound="", timeout=400):
        self.id, self.fn, self.anchors = id, fn, list(anchors)
        self.bound, self.timeout = bound, timeout


def infra_error(e, tb):
    """True when the failure is the harness not finding an API name."""
    if isinstance(e, (ImportError, )):
        return True
    return False


def run_contract(c, tier, seed):
    from . import harness, prove
    res = dict(id=c.id, kind="contract", anchors=c.anchors, bound=c.bound,
               sym=None, evals=0, failure=None, error=None)
    extra = c.extra() if c.extra else ()
    modes = {"dims": [True, False], "obj": [False], None: []}[c.sym]
    attempts = []
    final = None
    for symd in modes:
        r = harness.run_symbolic(c.fn, symd, c.max_instances,
                                 c.budget * (1 if tier == "quick" else 4),
                                 extra)
        attempts.append((symd, r))
        final = (symd, r)
        if r["status"] == "proved":
            break
    if final:
        symd, r = final
        res["sym"] = dict(
            mode="all sizes" if symd else "fixed small shapes, all values",
            status=r["status"], vcs=r["vcs"], proved=r["proved"],
            paths=r["paths"], instances=r["instances"], reason=r["reason"],
            time=round(r["time"], 2))
        if r.get("trace"):
            res["sym"]["trace"] = r["trace"][-1500:]
    nq, nt = c.num
    n = nq if tier == "quick" else nt

    def numeric(n, s, values=None, script=None):
        try:
            ev, f = harness.run_numeric(c.fn, n, s, values, script)
        except Exception as e:
            if infra_error(e, None):
                res["error"] = traceback.format_exc()
                return None
            return dict(label="raised", seed=s,
                        detail="%s: %s" % (type(e).__name__, e),
                        trace=traceback.format_exc()[-3000:],
                        script=script, values=values)
        res["evals"] += ev
        return f

    f = numeric(n, seed)
    if f is None and final and final[1]["status"] != "proved":
        # replay counter-models / failing instances on the real code
        for symd, r in attempts:
            for lab, d, conds, log in r["unproved"][:6]:
                vals = harness.model_values(d, conds)
                script = None
                if vals is not None:
                    f = numeric(3, seed, vals, None)
                    if f is not None:
                        f["from"] = "counter-model of obligation %s" % lab
                        break
            if f is not None:
                break
            for msg, log, script in r["failures"][:3]:
                f = numeric(12, seed + 1, None, script)
                if f is not None:
                    f["from"] = "failing symbolic instance: %s" % msg
                    break
            if f is not None:
                break
        if f is None:
            f = numeric(4 * n, seed + 17)
        # An obligation the verifier generated and could not discharge is
        # reported.  A text the engine cannot execute symbolically at all
        # (unsupported construct, engine exception, budget) generates no
        # obligation to fail: the numeric evaluation of the same contract
        # then stands in, and the evidence lists the contract as not
        # discharged.
        r = final[1]
        refuted = bool(r["unproved"]) or str(r["reason"]).startswith(
            ("failed", "vacuous"))
        if f is None and c.expect and refuted:
            f = dict(label="obligation not discharged", nofail=True,
                     detail="; ".join(sorted({u[0] for u in r["unproved"]}))
                     or str(r["reason"]),
                     verifier=[(u[0], repr(u[1])[:600], u[3])
                               for u in r["unproved"][:5]],
                     reason=r["reason"], trace=(r.get("trace") or "")[-2000:])
    res["failure"] = f
    res["z3"] = dict(prove.STATS)
    return res


def run_bounded(b, tier, seed):
    from .harness import Failure
    res = dict(id=b.id, kind="bounded", anchors=b.anchors, bound=b.bound,
               evals=0, failure=None, error=None)
    try:
        out = b.fn(tier, seed)
        res["evals"] = out.get("evaluations", 0)
        res["distinct"] = out.get("distinct", 0)
        res["samples"] = out.get("samples", [])[:3]
        res["exhaustive"] = out.get("exhaustive", False)
        res["known"] = out.get("known", [])
    except Failure as e:
        res["failure"] = dict(label=e.label, detail=e.detail)
        if hasattr(e, "info"):
            res["failure"].update(e.info)
    except Exception as e:
        if infra_error(e, None):
            res["error"] = traceback.format_exc()
        else:
            res["failure"] = dict(
                label="raised", detail="%s: %s" % (type(e).__name__, e),
                trace=traceback.format_exc()[-3000:])
    return res


def worker(item, tier, seed, conn):
    try:
        import resource
        lim = 8 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    try:
        t0 = time.time()
        r = (run_contract if isinstance(item, Contract) else run_bounded)(
            item, tier, seed)
        r["time"] = round(time.time() - t0, 2)
    except BaseException:
        r = dict(id=item.id, error=traceback.format_exc(), failure=None,
                 evals=0, kind="error", anchors=item.anchors,
                 bound=item.bound)
    try:
        conn.send(json.loads(json.dumps(r, default=repr)))
    finally:
        conn.close()
        os._exit(0)


def run_all(items, tier, seed, jobs, deadline):
    ctx = mp.get_context("fork")
    pending = list(items)
    running = []
    results = []
    while pending or running:
        while pending and len(running) < jobs:
            it = pending.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=worker, args=(it, tier, seed, b))
            p.start()
            b.close()
            running.append((it, p, a, time.time()))
        time.sleep(0.02)
        keep = []
        for it, p, a, t0 in running:
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(id=it.id, error="worker died", failure=None,
                             evals=0, kind="error", anchors=it.anchors,
                             bound=it.bound)
                results.append(r)
                p.join()
            elif not p.is_alive():
                results.append(dict(id=it.id, error="worker died",
                                    failure=None, evals=0, kind="error",
                                    anchors=it.anchors, bound=it.bound))
            elif time.time() - t0 > getattr(it, "timeout", 400) * (
                    1 if tier == "quick" else 6) or time.time() > deadline:
                p.kill()
                p.join()
                results.append(dict(id=it.id, error="timeout", failure=None,
                                    evals=0, kind="error",
                                    anchors=it.anchors, bound=it.bound))
            else:
                keep.append((it, p, a, t0))
        running = keep
    order = {it.id: k for k, it in enumerate(items)}
    results.sort(key=lambda r: order.get(r["id"], 0))
    return results


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return dict(known=[], fixed=[])


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    args = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    prop = args.property
    t0 = time.time()
    sys.path.insert(0, REPO)
    mod = importlib.import_module("vc.contracts." + prop.lower())
    items = list(mod.ITEMS)
    if args.only:
        items = [i for i in items if args.only in i.id]
    if args.replay:
        rp = json.load(open(args.replay))
        items = [i for i in items if i.id == rp["obligation"]]
        seed = rp.get("seed", seed)
        tier = rp.get("tier", tier)
    deadline = t0 + (780 if tier == "quick" else 6 * 3600)
    results = run_all(items, tier, seed, args.jobs, deadline)
    known = [k for k in load_known()["known"] if k["property"] == prop]
    violations = []
    errors = []
    for r in results:
        if r.get("failure"):
            sig = "%s %s %s" % (r["id"], r["failure"].get("label"),
                                r["failure"].get("detail"))
            violations.append((r, sig))
        if r.get("error"):
            errors.append((r["id"], r["error"]))
    printed = set()
    for r in results:
        for k in r.get("known") or []:
            if not any(k == kk["id"] for kk in known) and not r.get(
                    "failure"):
                # a defect that the known-findings file does not list
                r["failure"] = dict(label=k, detail="not a listed finding",
                                    seed=seed)
                violations.append((r, "%s %s" % (r["id"], k)))
            if any(k == kk["id"] for kk in known) and k not in printed:
                printed.add(k)
                what = [kk for kk in known if kk["id"] == k][0]["what"]
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    write_evidence(prop, tier, seed, mod, items, results, len(violations),
                   time.time() - t0, errors)
    if args.v:
        for r in results:
            s = r.get("sym") or {}
            print("%-44s %-10s vcs=%s/%s paths=%s inst=%s evals=%s t=%s %s %s"
                  % (r["id"], s.get("status"), s.get("proved"), s.get("vcs"),
                     s.get("paths"), s.get("instances"), r["evals"],
                     r.get("time"), s.get("mode", ""), s.get("reason") or ""))
            if s.get("trace") and os.environ.get("VC_TRACE"):
                print(s["trace"])
            if r.get("failure"):
                print("   FAIL", json.dumps(r["failure"])[:3000])
            if r.get("error"):
                print("   ERROR", r["error"][-1500:])
    for r, sig in violations:
        h = hashlib.sha1(r["id"].encode()).hexdigest()[:8]
        path = os.path.join(EVID, "replay",
                            "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump(dict(property=prop, obligation=r["id"], seed=seed,
                           tier=tier, anchors=r["anchors"],
                           failure=r["failure"], sym=r.get("sym"),
                           how="cd /verif && ./check %s --replay %s" %
                           (prop, path)), f, indent=1, default=repr)
        print("violated obligation: %s" % sig[:600])
        print("VIOLATION property=%s replay=%s%s" % (
            prop, path, " no-failing-input-found"
            if r["failure"].get("nofail") else ""))
    sys.stdout.flush()
    if violations:
        return 1
    if errors:
        for i, e in errors:
            sys.stderr.write("undecided: %s: %s\n" % (i, e[-800:]))
        # an item that could not run leaves its obligations undecided; the
        # property was not refuted by anything that ran
        if len(errors) == len(results):
            return 3
    return 0


def write_evidence(prop, tier, seed, mod, items, results, nviol, wall,
                   errors):
    level = getattr(mod, "LEVEL", "proof")
    ob = sum((r.get("sym") or {}).get("vcs", 0) for r in results)
    di = sum((r.get("sym") or {}).get("proved", 0) for r in results)
    evals = sum(r.get("evals", 0) for r in results)
    distinct = sum(r.get("distinct", 0) for r in results
                   if r["kind"] == "bounded") + sum(
                       r.get("evals", 0) for r in results
                       if r["kind"] == "contract")
    funcs = sorted({a for r in results for a in r.get("anchors", [])})
    proved = [r["id"] for r in results if r.get("sym") and
              r["sym"]["status"] == "proved"]
    proved_all = [r["id"] for r in results if r.get("sym") and
                  r["sym"]["status"] == "proved" and
                  r["sym"]["mode"] == "all sizes"]
    bounded = [dict(id=r["id"], bound=r.get("bound", ""),
                    evaluations=r.get("evals", 0),
                    exhaustive=r.get("exhaustive", False))
               for r in results if r["kind"] == "bounded"]
    undec = [dict(id=r["id"], reason=(r.get("sym") or {}).get("reason"))
             for r in results if r.get("sym") and
             r["sym"]["status"] != "proved"]
    samples = [s for r in results for s in (r.get("samples") or [])][:5]
    if not samples:
        samples = [dict(contract=r["id"], sym=r.get("sym"),
                        evaluations=r.get("evals")) for r in results[:3]]
    z3t = sum((r.get("z3") or {}).get("z3_time", 0) for r in results)
    cov = dict(
        obligations=ob, discharged=di,
        checker_cmd="cd /verif && ./check %s --tier %s" % (prop, tier),
        trusted_base=TRUSTED + list(getattr(mod, "TRUSTED", [])),
        functions_under_contract=funcs,
        contracts=len(items),
        contracts_discharged_for_all_sizes=proved_all,
        contracts_discharged_for_fixed_shapes=[p for p in proved
                                               if p not in proved_all],
        contracts_not_discharged_symbolically=undec,
        bounded_stand_ins=bounded,
        back_end="normal form: %d, case splits: %d, z3: %d" % tuple(
            sum((r.get("z3") or {}).get(k, 0) for r in results)
            for k in ("nf", "split", "z3")),
        solver_time_s=round(z3t, 2),
        evaluations=evals, distinct_nontrivial=distinct,
        rule=getattr(mod, "RULE", "numeric evaluations of the contracts on "
                     "the uninstrumented code; every evaluation checks at "
                     "least one postcondition"),
        samples=samples,
        explanation=getattr(mod, "EXPLANATION", ""),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) +
              ["undecided: %s" % e[0] for e in errors],
              wall_s=round(wall, 2), violations=nviol)
    p = os.path.join(EVID, prop + ".json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        json.dump(ev, f, indent=1, default=repr)


if __name__ == "__main__":
    sys.exit(main())
