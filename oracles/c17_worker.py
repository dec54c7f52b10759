"""One process: initialise, then report what parser and backend know."""
import ctypes
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
q = json.load(open(sys.argv[1]))
res = {}


def classes(d):
    return None if d is None else {k: getattr(ctypes, v) for k, v in d.items()}


def attempt(fn):
    try:
        fn()
        return "ok"
    except Exception as e:
        return type(e).__name__


def main():
    from pyclibrary import init, auto_init, CParser, CLibrary
    from oracles.fake import FakeDLL

    types, mods = classes(q["types"]), q["mods"]
    t0, m0 = (None if types is None else dict(types)), (None if mods is None else list(mods))
    if q["how"] == "init":
        res["first"] = attempt(lambda: init(types, mods))
    elif q["how"] == "auto":
        res["first"] = attempt(lambda: auto_init(types, mods, q["os"]))
    elif q["how"] == "parser":
        res["first"] = attempt(lambda: CParser(process_all=False))
    res["args_kept"] = types == t0 and mods == m0 and (types is None or list(types) == list(t0))

    def look(tag):
        p = CParser([q["header"]])
        so = os.path.join(os.path.dirname(q["header"]), "lib%s.so" % tag)
        open(so, "w").close()
        lib = CLibrary(FakeDLL(so), p)
        out = {}
        for n in q["names"]:
            try:
                c = lib("types", n)
                out[n] = "%s.%s" % (c.__module__, c.__name__)
            except Exception as e:
                out[n] = "%s: %s" % (type(e).__name__, e)
        out["#vars"] = {k: str(p.defs["variables"].get(k, (None, None))[1]) for k in q["vars"]}
        out["#funcs"] = {k: str(p.defs["functions"].get(k)) for k in q["funcs"]}
        out["#types"] = {k: str(p.defs["types"].get(k)) for k in q["names"]}
        return out

    res["before"] = look("a")
    res["later"] = []
    for how, t, m in q["later"]:
        t = classes(t)
        t1, m1 = (None if t is None else dict(t)), (None if m is None else list(m))
        r = attempt((lambda: init(t, m)) if how == "init" else (lambda: auto_init(t, m)))
        res["later"].append([r, t == t1 and m == m1])
    res["after"] = look("b")


try:
    main()
except Exception:
    import traceback

    res["error"] = traceback.format_exc()
json.dump(res, open(sys.argv[2], "w"))
sys.stdout.flush()
os._exit(0)
