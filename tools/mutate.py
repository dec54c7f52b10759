#!/usr/bin/env python3
"""Mutation campaign on scratch copies of /repo.

mutate.py gen OUTDIR [seed] [n]   n random mutants of the functions below that
                                  still pass the tests: OUTDIR/<k>.json
mutate.py run OUTDIR              the checks of the properties of each, quick tier;
                                  results in OUTDIR/results.jsonl
"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
P, L, B, U, I = ("pyclibrary/c_parser.py", "pyclibrary/c_library.py", "pyclibrary/backends/ctypes.py", "pyclibrary/utils.py", "pyclibrary/init.py")
FUNS = {
    P: {
        "Type.__new__": "C01", "Type.__init__": "C01 C13", "Type.is_fund_type": "C01", "Type.eval": "C01",
        "Type.add_compatibility_hack": "C13", "Type.remove_compatibility_hack": "C13",
        "CParser.__init__": "C14 C15", "CParser.process_all": "C15", "CParser.load_cache": "C15", "CParser.import_dict": "C14 C15",
        "CParser.write_cache": "C15", "CParser.find_headers": "C16", "CParser.load_file": "C15", "CParser.preprocess": "C09 C10 C11",
        "CParser.process_macro_defn": "C11", "CParser.compile_fn_macro": "C11", "CParser.expand_macros": "C11", "CParser.expand_fn_macro": "C11",
        "CParser.process_declarator": "C13", "CParser.process_type": "C13", "CParser.process_enum": "C12", "CParser.process_function": "C13",
        "CParser.packing_at": "C10", "CParser.process_struct": "C13 C10 C14", "CParser.process_variable": "C13", "CParser.process_typedef": "C13",
        "CParser.eval_expr": "C12", "CParser.eval": "C12", "CParser.add_def": "C14", "CParser.rem_def": "C14", "CParser.build_parser": "C13 C12",
        "_init_cparser": "C17", "CParser.eval_type": "C01", "CParser.is_fund_type": "C01",
        "CParser.remove_comments": "C18",
    },
    L: {
        "CLibraryMeta.__call__": "C08", "CLibrary.__init__": "C06 C08", "CLibrary.__call__": "C07 C03", "CLibrary.__getattr__": "C07",
        "CLibrary.__getitem__": "C07", "CLibrary._all_names_": "C07", "CLibrary._make_obj_": "C07", "CLibrary._get_function": "C06",
        "CLibrary._resolve_struct_alias": "C03", "CFunction.__init__": "C04", "CFunction.__call__": "C04 C06",
        "CallResult.__init__": "C05", "CallResult.__call__": "C05", "CallResult.__getitem__": "C05", "CallResult.__setitem__": "C05",
        "CallResult.find_arg": "C05", "CallResult.__iter__": "C05", "CallResult.auto": "C05", "build_array": "C02", "cast_to": "C02",
    },
    B: {
        "CTypesCLibrary._extract_val_": "C05", "CTypesCLibrary._get_type": "C02", "CTypesCLibrary._get_struct": "C03",
        "CTypesCLibrary._get_pointer": "C04", "CTypesCLibrary._cast_to": "C02", "CTypesCLibrary._get_array": "C02",
        "CTypesCLibrary._init_function": "C04", "init_clibrary": "C17", "identify_library": "C08", "get_library_path": "C08",
    },
    U: {
        "add_header_locations": "C16", "find_header": "C16", "add_library_locations": "C16", "find_library": "C16",
        "LibraryPath.__new__": "C08", "LibraryPath.arch": "C08", "LibraryPath.is_32bit": "C08", "LibraryPath.is_64bit": "C08",
        "LibraryPath.bitness": "C08", "get_arch": "C08",
    },
    I: {"init": "C17", "auto_init": "C17"},
}


def functions(tree):
    def walk(body, pre):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                yield pre + n.name, n
            elif isinstance(n, ast.ClassDef):
                yield from walk(n.body, n.name + ".")
    return list(walk(tree.body, ""))


CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add}


def points(fn):
    """(description, mutate in place)"""
    out = []

    def logish(n):
        s = ast.unparse(n)
        return "logger" in s or "logging" in s

    for node in ast.walk(fn):
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for o in CMP.get(type(node.ops[0]), []):
                out.append(("cmp %s -> %s" % (ast.unparse(node), o.__name__), lambda n=node, o=o: n.ops.__setitem__(0, o())))
        if isinstance(node, ast.BoolOp):
            o = ast.Or if isinstance(node.op, ast.And) else ast.And
            out.append(("bool %s" % ast.unparse(node)[:60], lambda n=node, o=o: setattr(n, "op", o())))
            for k in range(len(node.values)):
                if len(node.values) >= 2:
                    out.append(("drop operand %d of %s" % (k, ast.unparse(node)[:60]), lambda n=node, k=k: n.values.pop(k)))
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            out.append(("bin %s" % ast.unparse(node)[:60], lambda n=node: setattr(n, "op", BIN[type(n.op)]())))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            out.append(("not %s" % ast.unparse(node)[:60], lambda n=node: (setattr(n, "op", ast.Not()), setattr(n, "operand", ast.UnaryOp(ast.Not(), n.operand)))))
        if isinstance(node, ast.Constant) and isinstance(node.value, int) and not isinstance(node.value, bool):
            for d in (1, -1):
                out.append(("const %r%+d" % (node.value, d), lambda n=node, d=d: setattr(n, "value", n.value + d)))
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            out.append(("const %r" % node.value, lambda n=node: setattr(n, "value", not n.value)))
        if isinstance(node, ast.Slice):
            for f in ("lower", "upper"):
                if getattr(node, f) is not None:
                    out.append(("slice %s drop %s" % (ast.unparse(node), f), lambda n=node, f=f: setattr(n, f, None)))
        if isinstance(node, ast.IfExp):
            out.append(("ifexp swap %s" % ast.unparse(node)[:60], lambda n=node: (lambda a, b: (setattr(n, "body", b), setattr(n, "orelse", a)))(n.body, n.orelse)))
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "strip", "append", "update") :
            if node.func.attr in ("copy", "strip") and not node.args:
                out.append(("drop .%s() %s" % (node.func.attr, ast.unparse(node)[:60]), ("replace", node, node.func.value)))
        if isinstance(node, ast.Call) and len(node.args) >= 2 and not logish(node) and not (isinstance(node.func, ast.Name) and node.func.id == "isinstance"):
            def sw(n=node):
                n.args[0], n.args[1] = n.args[1], n.args[0]
            out.append(("swap args %s" % ast.unparse(node)[:60], sw))
        for field in ("body", "orelse", "finalbody"):
            body = getattr(node, field, None)
            if isinstance(body, list):
                for k, st in enumerate(body):
                    if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Delete)) and not logish(st):
                        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                            continue
                        out.append(("delete %s" % ast.unparse(st)[:70], lambda b=body, k=k: b.__setitem__(k, ast.Pass())))
                    if k + 1 < len(body) and isinstance(st, (ast.Assign, ast.Expr, ast.AugAssign)) and isinstance(body[k + 1], (ast.Assign, ast.Expr, ast.AugAssign)) and not logish(st) and not logish(body[k + 1]) and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        def swp(b=body, k=k):
                            b[k], b[k + 1] = b[k + 1], b[k]
                        out.append(("reorder %s" % ast.unparse(st)[:70], swp))
        if isinstance(node, (ast.If, ast.While)):
            out.append(("if True %s" % ast.unparse(node.test)[:60], lambda n=node: setattr(n, "test", ast.Constant(True))) if isinstance(node, ast.If) else ("negate", lambda n=node: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test))))
            if isinstance(node, ast.If):
                out.append(("if False %s" % ast.unparse(node.test)[:60], lambda n=node: setattr(n, "test", ast.Constant(False))))
                out.append(("if not %s" % ast.unparse(node.test)[:60], lambda n=node: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test))))
    return out


class Rep(ast.NodeTransformer):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def visit(self, n):
        return self.b if n is self.a else self.generic_visit(n)


def tree_copy():
    d = tempfile.mkdtemp(prefix="mut_")
    subprocess.run("git -C /repo archive HEAD | tar x -C %s/ && cp /repo/pyclibrary/version.py %s/pyclibrary/ 2>/dev/null; true" % (d, d), shell=True)
    return d


def mutant(path, fname, k):
    src = open("/repo/" + path).read()
    t = ast.parse(src)
    fn = dict(functions(t))[fname]
    a = ast.unparse(fn)
    pts = points(fn)
    desc, m = pts[k]
    line = fn.lineno
    if isinstance(m, tuple):
        Rep(m[1], m[2]).visit(fn)
    else:
        m()
    b = ast.unparse(ast.fix_missing_locations(fn))
    if a == b:
        return None
    # only the function is rewritten, the rest of the file stays as it is
    lines = src.split("\n")
    ind = " " * fn.col_offset
    first = min([fn.lineno] + [x.lineno for x in fn.decorator_list]) - 1
    new = lines[:first] + [ind + l if l else l for l in b.split("\n")] + lines[fn.end_lineno:]
    return desc, "\n".join(new)


def survives(args):
    path, fname, k = args
    try:
        m = mutant(path, fname, k)
    except Exception as e:
        return None
    if m is None:
        return None
    d = tree_copy()
    try:
        open(os.path.join(d, path), "w").write(m[1])
        try:
            r = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-x"], cwd=d, capture_output=True, text=True, timeout=90,
                               env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"))
        except subprocess.TimeoutExpired:
            return None
        return (path, fname, k, m[0], m[1]) if r.returncode == 0 else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen(out, seed=1, n=100, only=None):
    os.makedirs(out, exist_ok=True)
    rnd = random.Random(int(seed))
    todo = []
    for path, fs in FUNS.items():
        t = dict(functions(ast.parse(open("/repo/" + path).read())))
        for f, props in fs.items():
            if only and not set(props.split()) & set(only.split(",")):
                continue
            todo += [(path, f, k) for k in range(len(points(t[f])))]
    print(len(todo), "mutants in all")
    rnd.shuffle(todo)
    todo = todo[:int(n)]
    c = 0
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(survives, todo):
            if r:
                json.dump(dict(path=r[0], function=r[1], point=r[2], what=r[3], props=FUNS[r[0]][r[1]].split(), text=r[4]), open("%s/%03d.json" % (out, c), "w"))
                print("%03d %s %s" % (c, r[1], r[3]), flush=True)
                c += 1
    print(c, "of", len(todo), "survive the tests")


def run(out, fast=False):
    res = open(os.path.join(out, "results.jsonl"), "a")
    done = {json.loads(l)["k"] for l in open(res.name)}
    for f in sorted(os.listdir(out)):
        if not f[:3].isdigit() or f[:3] in done:
            continue
        m = json.load(open(os.path.join(out, f)))
        d = tree_copy()
        try:
            open(os.path.join(d, m["path"]), "w").write(m["text"])
            got = {}
            for p in m["props"]:
                r = subprocess.run(["python3-vt", os.path.join(HERE, "check.py"), p, "quick"], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"))
                v = "VIOLATION" in r.stdout
                got[p] = [r.returncode, "obligation" if "no-failing-input-found" in r.stdout else "concrete" if v else "quiet", r.stdout.strip()[-700:]]
                if v:
                    break
            json.dump(dict(k=f[:3], function=m["function"], what=m["what"], got=got), res)
            res.write("\n")
            res.flush()
            print(f[:3], m["function"], m["what"], {p: g[:2] for p, g in got.items()}, flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def quick(f):
    """The oracles alone."""
    m = json.load(open(f))
    d = tree_copy()
    t = tempfile.mkdtemp(prefix="muto_")
    got = {}
    try:
        open(os.path.join(d, m["path"]), "w").write(m["text"])
        for p in m["props"]:
            o = os.path.join(t, p + ".json")
            try:
                subprocess.run([PY, os.path.join(HERE, "oracles", "run.py"), p, "1", "quick", o, "60"], cwd=t, capture_output=True, timeout=120,
                               env=dict(os.environ, VERIF_REPO=d, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"), start_new_session=True)
                r = json.load(open(o))
                got[p] = [1 if r["violations"] else 0, "concrete" if r["violations"] else "quiet", str(r["violations"][:1])[:600] + r["error"][-500:]]
            except Exception as e:
                got[p] = [2, "quiet", str(e)[:300]]
            if got[p][0] == 1:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(t, ignore_errors=True)
    return m, got


def oracles(out):
    """Mutants caught by the oracles go to results.jsonl, the others wait for run."""
    res = open(os.path.join(out, "results.jsonl"), "a")
    done = {json.loads(l)["k"] for l in open(res.name)}
    fs = [f for f in sorted(os.listdir(out)) if f[:3].isdigit() and f[:3] not in done]
    c = 0
    with ThreadPoolExecutor(5) as ex:
        for f, (m, got) in zip(fs, ex.map(quick, [os.path.join(out, f) for f in fs])):
            if any(g[0] == 1 for g in got.values()):
                json.dump(dict(k=f[:3], function=m["function"], what=m["what"], got=got), res)
                res.write("\n")
                res.flush()
                c += 1
            else:
                print(f[:3], m["function"], m["what"], {p: g[2][-200:] for p, g in got.items()}, flush=True)
    print(c, "of", len(fs), "caught by the oracles")


if __name__ == "__main__":
    {"gen": gen, "run": run, "oracles": oracles}[sys.argv[1]](*sys.argv[2:])
