"""Initialisation in new processes: random extra types and modifiers, later
attempts, and what parser and backend know before and after them."""
import ctypes
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

CT = ["c_int", "c_uint16", "c_double", "c_longlong", "c_ubyte", "c_char_p", "c_void_p", "c_float", "c_long"]
NAMES = ["WORD", "__my_int", "REAL", "u128", "t", "foo_t", "INT", "intx", "xint", "LONG", "long_t", "_b", "unsignedx"]
MODS = ["APIENTRY", "__mod", "EXPORT", "CALLBACK", "NEAR", "_In_", "_In_opt_", "APIENTRYX", "m", "__w"]
STD = [
    ("char", "c_char"), ("int", "c_int"), ("short", "c_short"), ("long", "c_long"), ("unsigned int", "c_uint"),
    ("unsigned char", "c_ubyte"), ("unsigned short", "c_ushort"), ("unsigned long", "c_ulong"), ("float", "c_float"),
    ("double", "c_double"), ("long long", "c_longlong"), ("unsigned long long", "c_ulonglong"), ("bool", "c_bool"),
    ("uint8_t", "c_uint8"), ("int8_t", "c_int8"), ("uint16_t", "c_uint16"), ("int16_t", "c_int16"),
    ("uint32_t", "c_uint32"), ("int32_t", "c_int32"), ("uint64_t", "c_uint64"), ("int64_t", "c_int64"),
    ("size_t", "c_size_t"), ("ssize_t", "c_ssize_t"), ("wchar_t", "c_wchar"), ("unsigned", "c_uint"),
    ("long double", "c_longdouble"),
]
if sys.version_info >= (3, 12):
    STD.append(("time_t", "c_time_t"))
    NAMES.append("time_t")


def full(n):
    c = getattr(ctypes, n)
    return "%s.%s" % (c.__module__, c.__name__)


def make(o, it):
    rng = o.rng
    how = rng.choice(["init", "auto", "auto", "init", "parser"])
    if how == "parser":
        types = mods = None
    else:
        types = rng.choice([None, {}, 1, 1, 1, 1])
        if types == 1:
            types = {n: rng.choice(CT) for n in rng.sample(NAMES, rng.randint(1, 5))}
        mods = rng.choice([None, [], 1, 1, 1, 1])
        if mods == 1:
            mods = rng.sample(MODS, rng.randint(1, 4))
    osn = rng.choice([None, "linux2", "darwin", "win32"])
    lines, want, vs, fs = [], {}, {}, {}
    for i, (n, c) in enumerate(STD):
        c = (types or {}).get(n, c)
        lines.append("typedef %s std_%d;" % (n, i))
        want["std_%d" % i] = full(c)
    allm = list(mods or []) + (["__fastcall", "__w64"] if how == "auto" and osn == "win32" else [])
    for n, c in (types or {}).items():
        lines.append("typedef %s T_%s;" % (n, n))
        want["T_" + n] = full(c)
        lines.append("%s v_%s;\n%s *w_%s[3];" % (n, n, n, n))
        vs["v_" + n] = (n,)
        vs["w_" + n] = (n, "*", [3])
        lines.append("%s f_%s(%s a, int b);" % (n, n, n))
        fs["f_" + n] = ((n,), (("a", (n,), None), ("b", ("int",), None)))
    for m in allm:
        b = rng.choice(["int", "unsigned char"] + list(types or {}))
        lines.append("%s %s mv_%s;" % (b, m, m))
        vs["mv_" + m] = (b,)
        lines.append("%s %s mf_%s(%s %s a);" % (b, m, m, b, m))
        fs["mf_" + m] = ((b,), (("a", (b,), None),))
        lines.append("%s %s(4) mg_%s(int x);" % (b, m, m))
        fs["mg_" + m] = ((b,), (("x", ("int",), None),))
    if len(allm) > 1:
        lines.append("int %s %s both(int x);" % (allm[0], allm[1]))
        fs["both"] = (("int",), (("x", ("int",), None),))
    later = []
    for _ in range(rng.randint(1, 2)):
        later.append([
            rng.choice(["init", "auto"]),
            rng.choice([None, {}, {n: rng.choice(CT) for n in rng.sample(NAMES + ["int", "size_t"], 2)}]),
            rng.choice([None, [], rng.sample(MODS, 2)]),
        ])
    rng.shuffle(lines)
    d = o.dir("i%d" % it)
    h = os.path.join(d, "h.h")
    open(h, "w").write("\n".join(lines) + "\n")
    q = dict(how=how, types=types, mods=mods, os=osn, header=h, names=sorted(want), vars=sorted(vs), funcs=sorted(fs), later=later)
    case = "%s(types=%r, mods=%r, os=%r), then %r, header %r" % (how, types, mods, osn, later, lines)
    exp = dict(want)
    exp["#vars"] = vs
    exp["#funcs"] = fs
    return d, q, case, exp


def ask(a):
    d, q, case, exp = a
    i, out = os.path.join(d, "q.json"), os.path.join(d, "a.json")
    json.dump(q, open(i, "w"))
    try:
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "c17_worker.py"), i, out],
                           capture_output=True, text=True, timeout=60, cwd=d)
        return json.load(open(out))
    except subprocess.TimeoutExpired:
        return dict(error="no answer in 60 s")
    except OSError:
        return dict(error="ended with status %s: %s" % (r.returncode, r.stderr[-500:]))


def run(o):
    qs = [make(o, it) for it in range(o.scale(150, 2000))]
    with ThreadPoolExecutor(6) as ex:
        for a, r in zip(qs, ex.map(ask, qs)):
            d, q, case, exp = a
            o.eq(case + ": runs", lambda: r.get("error"), None)
            o.eq(case + ": first initialisation", lambda: r["first"], "ok")
            o.true(case + ": arguments are kept", lambda: r["args_kept"])
            for n in q["names"]:
                o.eq(case + ": class of " + n, lambda: r["before"][n], exp[n])
            for n in q["vars"]:
                o.eq(case + ": variable " + n, lambda: r["before"]["#vars"][n], typ(exp["#vars"][n]))
            for n in q["funcs"]:
                o.eq(case + ": function " + n, lambda: r["before"]["#funcs"][n], fun(exp["#funcs"][n]))
            o.eq(case + ": later attempts", lambda: r["later"], [["RuntimeError", True]] * len(q["later"]))
            o.eq(case + ": nothing changed", lambda: r["after"], r["before"])


def typ(t):
    from pyclibrary.c_parser import Type

    return str(Type(*t))


def fun(f):
    from pyclibrary.c_parser import Type

    return str(Type(Type(*f[0]), tuple((n, Type(*t), d) for n, t, d in f[1])))
