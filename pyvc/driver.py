"""Runs proof harnesses, each in a process of its own."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"


def setup_path():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.dont_write_bytecode = True
    for p in (here, REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
    if SITE not in sys.path:
        sys.path.append(SITE)


class Result(dict):
    pass


def guarded(E, fn):
    from .core import PyRaise, PathEnd
    import z3

    try:
        fn(E)
    except PyRaise:
        if not E.feasible(z3.BoolVal(True)):
            raise PathEnd()
        raise


def run_one(fn, name, bound=None, secs=120, setup=None):
    """Run one harness in this process; returns a JSON-able dict."""
    from . import interp
    from .core import NeedTemplate, Enough
    from .values import Unsupported
    import z3

    t0 = time.time()
    live = set()
    restarts = 0
    while True:
        E = interp.Interp(bound=bound, deadline=t0 + secs)
        E.live = live
        status, why = "ok", ""
        try:
            outs = E.explore(lambda: guarded(E, fn))
            for conds, o, st in outs:
                if o[0] in ("raise", "break", "return"):
                    status, why = "unsupported", "harness ended with %s %r" % o
        except Enough:
            pass
        except NeedTemplate as e:
            k = e.args[0]
            if isinstance(k, tuple) and k and k[0] != "hard" and k not in live and restarts < 40:
                live.add(k)
                restarts += 1
                continue
            status, why = "unsupported", "no invariant for %s" % (k,)
        except Unsupported as e:
            status, why = "unsupported", "%s: %s" % (type(e).__name__, e)
            if os.environ.get("PYVC_TRACE"):
                traceback.print_exc()
        except RecursionError as e:
            status, why = "unsupported", "recursion"
        except z3.Z3Exception as e:
            status, why = "unsupported", "z3: %s" % e
            if os.environ.get("PYVC_TRACE"):
                traceback.print_exc()
        except Exception as e:
            status, why = "unsupported", "internal: %s" % "".join(traceback.format_exception(e)[-3:])
            if os.environ.get("PYVC_TRACE"):
                traceback.print_exc()
        break
    bad = [o for o in E.obls if o.status != "ok"]
    if status == "ok" and bad:
        refuted = [o for o in bad if o.status == "refuted"]
        if refuted and not E.havocked:
            status, why = "failed", refuted[0].label
        else:
            # the solvers found neither a proof nor a counterexample (or the
            # counterexample depends on a location the loop rule gave up on)
            status, why = "unknown", "undecided: " + bad[0].label
    if status == "ok" and not E.obls:
        status, why = "unsupported", "no obligation was generated"
    if status == "ok" and E.want - E.reached:
        status, why = "unsupported", "not reached: %s" % sorted(E.want - E.reached)
    solvers = {}
    for o in E.obls:
        solvers[o.solver] = solvers.get(o.solver, 0) + 1
    return dict(
        name=name,
        status=status,
        why=why,
        bound=bound,
        obligations=len(E.obls),
        discharged=len([o for o in E.obls if o.status == "ok"]),
        failed=[dict(label=o.label, status=o.status, detail=o.detail[:6000]) for o in bad[:5]],
        labels=sorted({o.label for o in E.obls}),
        solvers=solvers,
        solver_s=round(E.stats["qsecs"] + E.stats["fsecs"], 2),
        paths=E.stats["paths"],
        queries=E.stats["queries"],
        feasibility=E.stats["feas"],
        loops=len(E.covered.get("loops", ())),
        inlined=sorted(E.inlined),
        contracts_used=sorted(E.used_contracts),
        models_used=sorted(E.used_models),
        notes=sorted(E.notes),
        wall_s=round(time.time() - t0, 2),
    )


def _worker(conn, modname, fname, bound, secs):
    try:
        setup_path()
        sys.setrecursionlimit(20000)
        mod = importlib.import_module(modname)
        r = run_one(getattr(mod, fname), fname, bound, secs)
    except BaseException as e:
        r = dict(name=fname, status="unsupported", why="harness: " + "".join(traceback.format_exception(e)[-4:]), bound=bound,
                 obligations=0, discharged=0, failed=[], wall_s=0, solver_s=0)
    conn.send(r)
    conn.close()


def run_many(jobs, ncpu=8):
    """jobs: (module, function, bound, seconds).  Returns results in order."""
    ctx = mp.get_context("spawn")
    pending = list(enumerate(jobs))
    running = {}
    results = {}
    while pending or running:
        while pending and len(running) < ncpu:
            k, (m, f, b, s) = pending.pop(0)
            a, c = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(c, m, f, b, s), daemon=True)
            p.start()
            c.close()
            running[k] = (p, a, time.time() + s * 1.2 + 20, f, b)
        time.sleep(0.02)
        for k, (p, a, dl, f, b) in list(running.items()):
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                    p.join(1)
            if r is None and not p.is_alive() and not a.poll():
                r = dict(name=f, status="unsupported", why="process died", bound=b, obligations=0, discharged=0, failed=[], wall_s=0, solver_s=0)
            if r is None and time.time() > dl:
                p.kill()
                r = dict(name=f, status="unsupported", why="time limit", bound=b, obligations=0, discharged=0, failed=[], wall_s=0, solver_s=0)
            if r is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                results[k] = r
                del running[k]
    return [results[k] for k in range(len(jobs))]


if __name__ == "__main__":
    # python -m pyvc.driver module function [bound]
    setup_path()
    sys.setrecursionlimit(20000)
    mod = importlib.import_module(sys.argv[1])
    names = sys.argv[2].split(",") if len(sys.argv) > 2 and sys.argv[2] != "all" else [h if isinstance(h, str) else h[0] for h in mod.HARNESSES]
    b = int(sys.argv[3]) if len(sys.argv) > 3 else None
    for n in names:
        r = run_one(getattr(mod, n), n, b, secs=float(os.environ.get("SECS", "300")))
        print(n, r["status"], r["why"], "obl %d/%d" % (r["discharged"], r["obligations"]), "paths", r["paths"], "loops", r["loops"], "wall", r["wall_s"])
        for f in r["failed"]:
            print("   FAILED", f["label"], f["status"])
            print("      ", f["detail"][:2500])
        if os.environ.get("V"):
            print(json.dumps(r, indent=1))
