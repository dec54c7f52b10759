#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]

Decides one property on the current tree of /repo:
 1. every proof harness of contracts/<id>.py is run on the source of /repo
    (unbounded; where the code leaves the subset of the verifier, the same
    obligations are checked for sequences of bounded length, labelled so);
 2. oracles/<id>.py looks for a concrete failing input by running the real
    code (also the replay of what the verifier refutes).
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import driver

PY = "/opt/venv/bin/python"


def load_findings(pid):
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid:
                    out.append(d)
    return out


def run_oracle(pid, seed, tier, tmp, secs):
    mod = os.path.join(HERE, "oracles", pid.lower() + ".py")
    if not os.path.exists(mod):
        return None
    out = os.path.join(tmp, "oracle.json")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=driver.REPO)
    p = subprocess.Popen(
        [PY, os.path.join(HERE, "oracles", "run.py"), pid, str(seed), tier, out, str(secs)],
        stdout=open(os.path.join(tmp, "oracle.log"), "w"),
        stderr=subprocess.STDOUT,
        env=env,
        cwd=tmp,
        start_new_session=True,
    )
    return p, out


def end_oracle(proc, out, tmp, secs):
    try:
        rc = proc.wait(timeout=secs)
    except subprocess.TimeoutExpired:
        os.killpg(proc.pid, signal.SIGKILL)
        rc = "timeout"
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except OSError:
        pass
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    log = open(os.path.join(tmp, "oracle.log"), errors="replace").read()[-3000:]
    if res is None:
        res = dict(cases=0, violations=[], error="no result (exit %s)\n%s" % (rc, log))
        prog = out + ".progress"
        if isinstance(rc, int) and rc < 0 and os.path.exists(prog):
            case = open(prog, errors="replace").read()
            res["violations"] = [dict(case=case, expected="no crash", got="killed by signal %d" % -rc)]
    return res


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    thorough = tier == "thorough"
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        sys.exit(decide(pid, tier, seed, thorough, tmp, t0))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def contract_info(pid):
    """Harness names and texts of the contract module, without importing the
    code under verification in this process."""
    code = (
        "import sys,json;sys.path.insert(0,%r);from pyvc import driver;driver.setup_path();"
        "import importlib;m=importlib.import_module('contracts.%s');"
        "print(json.dumps(dict(h=m.HARNESSES,f=m.FUNCTIONS,a=getattr(m,'ASSUMPTIONS',[]),"
        "lvl=getattr(m,'LEVEL',None),b=getattr(m,'BOUND',2),bt=getattr(m,'BOUND_THOROUGH',3),secs=getattr(m,'SECS',150),bh=getattr(m,'BOUNDED_ONLY',[]))))"
    ) % (HERE, pid.lower())
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=300,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    if r.returncode:
        return None, r.stderr[-2000:]
    return json.loads(r.stdout.strip().splitlines()[-1]), ""


def decide(pid, tier, seed, thorough, tmp, t0):
    osecs = 700 if thorough else 110
    orc = run_oracle(pid, seed, tier, tmp, osecs)
    results, bounded = [], []
    info, err = None, ""
    mod = "contracts." + pid.lower()
    if os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py")):
        info, err = contract_info(pid)
    notes = []
    if info:
        secs = min(info["secs"], 420) * (1.5 if thorough else 1)
        bsecs = 240
        jobs, bjobs = [], []
        for h in info["h"]:
            if h in info["bh"]:
                bjobs.append((mod, h, info["bt"] if thorough else info["b"], bsecs))
            else:
                jobs.append((mod, h, None, secs))
        results = driver.run_many(jobs + bjobs, 7)
        again = [r["name"] for r in results if r["status"] in ("unsupported", "unknown") and r["bound"] is None]
        bounded = [r for r in results if r["bound"] is not None]
        results = [r for r in results if r["bound"] is None]
        if again:
            bounded += driver.run_many([(mod, h, info["bt"] if thorough else info["b"], bsecs) for h in again], 7)
    elif err:
        notes.append("contracts could not be loaded on this tree: " + err)
    ores = end_oracle(orc[0], orc[1], tmp, osecs + 60) if orc else None

    # --- verdict ---------------------------------------------------------------
    lines = []
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    findings = load_findings(pid)
    viol = []
    known = []
    for v in (ores or {}).get("violations", []):
        m = [f for f in findings if f.get("case") == v.get("case")]
        (known if m else viol).append(v)
    failed = [r for r in results + bounded if r["status"] == "failed"]
    if viol:
        path = os.path.join(rdir, "%s.json" % pid)
        json.dump(
            dict(
                property=pid,
                kind="concrete",
                reproduce="%s %s/oracles/run.py %s %d %s /tmp/out.json" % (PY, HERE, pid, seed, tier),
                violations=viol[:20],
                failed_obligations=[dict(harness=r["name"], failed=r["failed"]) for r in failed],
            ),
            open(path, "w"),
            indent=1,
            default=str,
        )
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    elif failed:
        path = os.path.join(rdir, "%s.json" % pid)
        json.dump(
            dict(
                property=pid,
                kind="failed obligation",
                reproduce="cd %s && python3-vt -m pyvc.driver %s %s" % (HERE, mod, ",".join(r["name"] for r in failed)),
                obligations=[dict(harness=r["name"], bound=r["bound"], failed=r["failed"]) for r in failed],
                functions=info["f"],
            ),
            open(path, "w"),
            indent=1,
            default=str,
        )
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    for v in known:
        lines.append("KNOWN-FINDING: property=%s %s" % (pid, v.get("case")))

    # --- evidence ---------------------------------------------------------------
    obl = sum(r["obligations"] for r in results)
    dis = sum(r["discharged"] for r in results)
    proved = [r["name"] for r in results if r["status"] == "ok"]
    unsup = [dict(harness=r["name"], why=r["why"]) for r in results if r["status"] in ("unsupported", "unknown")]
    if info and not results and bounded:
        level = "other"
    else:
        level = "proof" if info and proved else "other"
    if info and info["lvl"]:
        level = info["lvl"]
    solvers = {}
    for r in results:
        for k, n in r.get("solvers", {}).items():
            solvers[k] = solvers.get(k, 0) + n
    cov = dict(
        obligations=obl,
        discharged=dis,
        checker_cmd="python3-vt -m pyvc.driver %s all  (weakest-precondition style VC generation from the AST of /repo, back ends z3 %s and cvc5)" % (mod, _z3v()),
        trusted_base=[
            "pyvc (VC generator of this directory: Python semantics of the subset, loop rule, encodings)",
            "z3 and cvc5",
            "models of builtins and of library functions used: "
            + ", ".join(sorted({m for r in results for m in r.get("models_used", [])})),
        ],
        functions_under_contract=(info or {}).get("f", []),
        harnesses=[
            {k: r.get(k) for k in ("name", "status", "why", "obligations", "discharged", "paths", "loops", "solver_s", "wall_s", "inlined", "contracts_used")}
            for r in results
        ],
        obligations_by_back_end=solvers,
        solver_seconds=round(sum(r.get("solver_s", 0) for r in results), 2),
        not_proved_here=unsup,
        bounded_stand_ins=[
            {k: r.get(k) for k in ("name", "status", "why", "bound", "obligations", "discharged", "paths", "wall_s", "notes")} for r in bounded
        ],
        concrete_replay=dict(
            cases=(ores or {}).get("cases", 0),
            distinct=(ores or {}).get("distinct", 0),
            samples=(ores or {}).get("samples", []),
            error=(ores or {}).get("error", ""),
        ),
        notes=notes,
    )
    if level == "other":
        cov["explanation"] = "part of the property is decided within a bound only: see assumptions, bounded_stand_ins and concrete_replay" if proved else "no harness was discharged without a bound on this run; see bounded_stand_ins and concrete_replay"
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level=level,
        coverage=cov,
        assumptions=(info or {}).get("a", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(viol) + (len(failed) if not viol else 0),
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s %s: proved %d/%d harnesses, obligations %d/%d, bounded %d, concrete cases %s%s, %.0f s" % (
        pid, tier, len(proved), len(results), dis, obl, len(bounded), (ores or {}).get("cases"),
        " (oracle error: %s)" % ores["error"][:300] if ores and ores.get("error") else "", time.time() - t0))
    for u in unsup:
        print("  not proved without bound: %s (%s)" % (u["harness"], u["why"][:200]))
    for r in bounded:
        print("  bounded stand-in: %s %s bound=%s %s" % (r["name"], r["status"], r["bound"], r["why"][:200] if r["status"] != "ok" else ""))
    for r in failed:
        print("  failed: %s: %s" % (r["name"], r["failed"][0]["label"] if r["failed"] else r["why"]))
    for v in viol[:3]:
        print("  case %s\n    expected %s\n    got      %s" % tuple(str(v.get(k))[:600] for k in ("case", "expected", "got")))
    for l in lines:
        print(l)
    return 1 if any(l.startswith("VIOLATION") for l in lines) else 0


def _z3v():
    import z3

    return z3.get_version_string()


if __name__ == "__main__":
    main()
