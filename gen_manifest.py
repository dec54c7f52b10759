"""Writes MANIFEST.json from the table below."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = ("contract-based deductive verification: verification conditions generated from the AST of the functions in /repo "
        "on every run (pyvc), discharged by z3 with cvc5 as second back end; refuted or undecided obligations are searched for a "
        "concrete failing input on the real code")
LEVEL = {}
exec(open(os.path.join(HERE, "levels.py")).read())
checks = []
for pid, (level, note) in sorted(LEVEL.items()):
    if not (os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py"))):
        continue
    checks.append(dict(property=pid, quick_cmd="python3-vt check.py %s quick" % pid, thorough_cmd="python3-vt check.py %s thorough" % pid,
                       technique=TECH, level=level, level_note=note))
have = {c["property"] for c in checks}
na = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in have:
        na.append(dict(property=p, reason=NA.get(p, "contracts not written yet")))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, sys; print(z3.get_version_string())'", checks=checks, not_applicable=na),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
