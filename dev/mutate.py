"""Automatic mutants of the package that still pass its tests, judged by the checks.

    python3 dev/mutate.py gen OUT.json [file...]    make mutants, keep those that pass the tests
    python3 dev/mutate.py run OUT.json RES.json [start [end]]   run the checks on them

A scratch copy per worker below /tmp/mut; nothing in /repo changes.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

FILES = ["htmltools/_core.py", "htmltools/_util.py", "htmltools/_jsx.py"]
REPO = "/repo"
PY = "/opt/venv/bin/python"


def qualnames(tree):
    out = {}

    def go(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                for d in ast.walk(c):
                    out[id(d)] = q + [c.name]
                go(c, q + [c.name])
            else:
                go(c, q)
    go(tree, [])
    return out


SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
METH = {"append": "extend", "lower": "upper", "lstrip": "strip", "rstrip": "strip", "strip": "rstrip", "startswith": "endswith", "endswith": "startswith", "items": "copy", "extend": "append", "split": "rsplit"}


def mutants(src):
    """(line, what, qualified name, new source)"""
    base = ast.parse(src)
    nodes = list(ast.walk(base))
    q = qualnames(base)
    docs = set()
    for n in nodes:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0].value))
    ann = set()
    for n in nodes:
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                ann.update(id(x) for x in ast.walk(a))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("cast", "TypeVar"):
            ann.update(id(x) for x in ast.walk(n.args[0]))
        if isinstance(n, ast.Raise) and n.exc is not None and isinstance(n.exc, ast.Call):
            for a in n.exc.args:
                ann.update(id(x) for x in ast.walk(a))
        if isinstance(n, ast.FunctionDef) and any("overload" in ast.dump(d) for d in n.decorator_list):
            ann.update(id(x) for x in ast.walk(n))
    out = []

    def put(i, what, f):
        t = ast.parse(src)
        n = list(ast.walk(t))[i]
        r = f(n, t)
        if r is False:
            return
        try:
            s = ast.unparse(ast.fix_missing_locations(t))
            compile(s, "m", "exec")
        except Exception:
            return
        out.append((nodes[i].lineno, what, ".".join(q.get(id(nodes[i]), [])), s))

    for i, n in enumerate(nodes):
        if id(n) in ann or id(n) in docs or id(n) not in q or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare):
            for k, o in enumerate(n.ops):
                if type(o) in SWAP:
                    put(i, f"{type(o).__name__} swapped", lambda m, t, k=k, o=o: m.ops.__setitem__(k, SWAP[type(o)]()))
        if isinstance(n, ast.BoolOp):
            def flip(m, t):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            put(i, "and/or", flip)
            for k in range(len(n.values)):
                def drop(m, t, k=k):
                    del m.values[k]
                put(i, f"operand {k} dropped", drop if len(n.values) > 2 else lambda m, t, k=k: (m.values.__setitem__(slice(None), [m.values[1 - k], m.values[1 - k]])))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def unneg(m, t):
                m.operand = ast.UnaryOp(ast.Not(), m.operand)
            put(i, "not removed", unneg)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            for v in (True, False):
                def cst(m, t, v=v):
                    m.test = ast.Constant(v)
                if not (isinstance(n, ast.While) and v):
                    put(i, f"condition {v}", cst)
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(i, "bool flipped", lambda m, t: setattr(m, "value", not m.value))
            elif isinstance(n.value, int):
                for d in (1, -1):
                    put(i, f"int {d:+d}", lambda m, t, d=d: setattr(m, "value", m.value + d))
            elif isinstance(n.value, str):
                put(i, f"string {n.value[:20]!r} emptied" if n.value else "empty string filled", lambda m, t: setattr(m, "value", "" if m.value else "x"))
                if n.value and n.value.strip() != n.value:
                    put(i, f"string {n.value[:20]!r} stripped", lambda m, t: setattr(m, "value", m.value.strip()))
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in METH:
                put(i, f"{n.func.attr} -> {METH[n.func.attr]}", lambda m, t: setattr(m.func, "attr", METH[m.func.attr]))
            for k in range(len(n.keywords)):
                def dk(m, t, k=k):
                    del m.keywords[k]
                put(i, f"keyword {n.keywords[k].arg} dropped", dk)
            if len(n.args) >= 2:
                def sw(m, t):
                    m.args[0], m.args[1] = m.args[1], m.args[0]
                put(i, "arguments swapped", sw)
            if len(n.args) >= 1 and not isinstance(n.args[-1], ast.Starred):
                def la(m, t):
                    del m.args[-1]
                put(i, "last argument dropped", la)
        if isinstance(n, ast.BinOp):
            def sb(m, t):
                m.left, m.right = m.right, m.left
            put(i, "operands swapped", sb)
            put(i, "only left", lambda m, t: (setattr(m, "op", ast.Add()), setattr(m, "right", copy.deepcopy(m.left)))[1] and None if False else (m.__setattr__("op", ast.BitOr()), None)[1])
            put(i, "arith", lambda m, t: setattr(m, "op", ast.Sub() if isinstance(m.op, ast.Add) else ast.Add()))
        if isinstance(n, ast.Slice):
            for f in ("lower", "upper", "step"):
                if getattr(n, f) is not None:
                    put(i, f"slice {f} dropped", lambda m, t, f=f: setattr(m, f, None))
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, ast.ClassDef):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    def rm(m, t, k=k, field=field):
                        getattr(m, field)[k] = ast.Pass()
                    line = s.lineno
                    put(i, f"statement removed: {ast.unparse(s)[:60]!r} (line {line})", rm)
                    if isinstance(s, ast.Return) and s.value is not None:
                        def rn(m, t, k=k, field=field):
                            getattr(m, field)[k] = ast.Return(ast.Constant(None))
                        put(i, f"return None (line {line})", rn)
                    if k + 1 < len(b) and isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign)) and isinstance(b[k + 1], (ast.Assign, ast.Expr, ast.AugAssign)):
                        def sws(m, t, k=k, field=field):
                            bb = getattr(m, field)
                            bb[k], bb[k + 1] = bb[k + 1], bb[k]
                        put(i, f"statements swapped (line {line})", sws)
        if isinstance(n, ast.For):
            def rev(m, t):
                m.iter = ast.Call(ast.Name("reversed", ast.Load()), [ast.Call(ast.Name("list", ast.Load()), [m.iter], [])], [])
            put(i, "loop reversed", rev)

            def first(m, t):
                m.body.append(ast.Break())
            put(i, "loop once", first)
        if isinstance(n, (ast.Continue, ast.Break)):
            pass
        if isinstance(n, ast.ListComp) or isinstance(n, ast.GeneratorExp):
            for k, g in enumerate(n.generators):
                for j in range(len(g.ifs)):
                    def di(m, t, k=k, j=j):
                        del m.generators[k].ifs[j]
                    put(i, "filter dropped", di)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple):
            for k in range(len(n.args[1].elts)):
                def dt(m, t, k=k):
                    del m.args[1].elts[k]
                put(i, f"isinstance without {ast.unparse(n.args[1].elts[k])}", dt)
        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            if nm in ("copy", "deepcopy", "list", "dict", "str", "HTML", "tuple", "TagList", "set", "sorted", "html_escape", "quote", "Version") and len(n.args) == 1 and not n.keywords:
                t0 = n
                for j, par in enumerate(nodes):
                    for f, v in ast.iter_fields(par):
                        if v is t0:
                            put(j, f"{nm}() unwrapped", lambda m, t, f=f: setattr(m, f, getattr(m, f).args[0]))
                        elif isinstance(v, list) and any(x is t0 for x in v):
                            k = next(k for k, x in enumerate(v) if x is t0)
                            put(j, f"{nm}() unwrapped", lambda m, t, f=f, k=k: getattr(m, f).__setitem__(k, getattr(m, f)[k].args[0]))
    return out


def fresh(w):
    """a scratch copy that belongs to an unprivileged user: mutants may delete files"""
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(REPO, w, symlinks=True)
    subprocess.run(["chown", "-R", "nobody:nogroup", w], check=True)


def workers(n):
    qu = Queue()
    os.makedirs("/tmp/mut", exist_ok=True)
    for i in range(n):
        w = f"/tmp/mut/w{i}"
        if os.path.isdir(w):
            shutil.rmtree(w)
        fresh(w)
        qu.put(w)
    return qu


BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if isinstance(json.load(open("/opt/vp/BASELINE.json")), dict) else set()


def tests_pass(w):
    r = subprocess.run(["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests", *DESEL], cwd=w, env={**os.environ, "HOME": w, "PYTHONPATH": w, "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, text=True, timeout=120)
    return r.returncode == 0, r.stdout[-300:]


DESEL = []


def gen(out, files):
    qu = workers(8)
    todo = []
    for f in files:
        src = open(os.path.join(REPO, f)).read()
        norm = ast.unparse(ast.parse(src))
        seen = {norm}
        for line, what, qn, s in mutants(src):
            if s not in seen:
                seen.add(s)
                todo.append((f, line, what, qn, s))
    print(len(todo), "mutants", flush=True)

    def one(mu):
        f, line, what, qn, s = mu
        w = qu.get()
        try:
            p = os.path.join(w, f)
            with open(p, "w") as h:
                h.write(s)
            try:
                return tests_pass(w)[0]
            except subprocess.TimeoutExpired:
                return False
            finally:
                try:
                    shutil.copy(os.path.join(REPO, f), p)
                    if subprocess.run(["diff", "-rq", "-x", "__pycache__", "-x", ".git", REPO, w], capture_output=True).returncode:
                        fresh(w)
                except OSError:
                    fresh(w)
        finally:
            qu.put(w)
    w = qu.get()
    ok, t = tests_pass(w)
    qu.put(w)
    print("unchanged:", ok, t[-100:])
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, todo))
    keep = [m for m, r in zip(todo, rs) if r]
    print(len(keep), "pass the tests")
    json.dump(keep, open(out, "w"))


HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = [
    ("JSX", ["C20"]), ("_tag_show", None), ("show", None), ("http", None), ("open_port", None), ("unique", None), ("HTMLDependency.__repr__", None), ("HTMLDependency.__str__", None), ("TagList.__repr__", ["C08"]), ("Tag.__repr__", ["C08"]),
    ("TagAttrDict", ["C15", "C16", "C03", "C04"]), ("HTMLDependency.__init__", ["C10", "C12", "C11", "C13", "C08"]), ("HTMLDependency._validate", ["C10", "C12"]), ("HTMLDependency.__copy__", ["C08"]), ("HTMLDependency.__eq__", ["C08"]), ("HTMLDependency.copy_to", ["C12"]), ("HTMLDependency", ["C12", "C11", "C13", "C08", "C10"]),
    ("HTMLDocument.save", ["C12"]), ("HTMLDocument", ["C11", "C08", "C09", "C12"]), ("HTMLTextDocument", ["C13", "C12"]), ("HTML", ["C04", "C02", "C14", "C08"]),
    ("Tag.__enter", ["C17"]), ("Tag.__exit", ["C17"]), ("Tag._class", ["C16"]), ("Tag.remove", ["C16"]), ("Tag.has", ["C16"]), ("Tag.add", ["C16"]), ("Tag.get_html", ["C06", "C05", "C01", "C07", "C04", "C09"]), ("Tag.__init__", ["C19", "C15", "C17", "C14", "C08"]), ("Tag.__copy__", ["C08", "C17"]), ("Tag.save", ["C12"]), ("Tag", ["C14", "C08", "C09", "C10", "C04", "C07", "C05"]),
    ("wrap_displayhook", ["C17"]), ("head_content", ["C11", "C18"]), ("equals", ["C08"]), ("hash", ["C18"]), ("escape", ["C02", "C03"]), ("css", ["C16"]), ("flatten", ["C14"]), ("package", ["C12"]), ("consolidate", ["C15"]), ("resolve", ["C10"]), ("render", ["C13", "C08"]), ("is_tag", ["C14"]), ("tagchilds", ["C14"]), ("normalize", ["C14", "C02"]),
    ("", ["C14", "C10", "C08", "C12"]),
]


def run(inp, out, lo=0, hi=None):
    ms = json.load(open(inp))[lo:hi]
    os.makedirs("/tmp/mut", exist_ok=True)
    w = f"/tmp/mut/r{lo}"
    fresh(w)
    res = []
    for k, (f, line, what, qn, s) in enumerate(ms):
        p = os.path.join(w, f)
        with open(p, "w") as h:
            h.write(s)
        key = ("JSX " if "_jsx" in f else "") + qn
        props = next(v for kk, v in ORDER if key.startswith(kk) or kk and kk.islower() and kk in key)
        if props is None:
            shutil.copy(os.path.join(REPO, f), p)
            continue
        got = []
        for c in props:
            try:
                r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), c], env={**os.environ, "VERIF_REPO": w}, capture_output=True, text=True, timeout=900, cwd=HERE)
            except subprocess.TimeoutExpired:
                got.append(f"{c}:timeout")
                continue
            if r.returncode == 1:
                got.append(f"{c}:CAUGHT")
                break
            und = [x for x in r.stdout.splitlines() if "undecided:" in x]
            got.append(f"{c}:{r.returncode}" + (" " + und[0].split("(")[0].strip() if und else ""))
        res.append([lo + k, f, line, what, qn, got])
        caught = "CAUGHT" in got[-1]
        print(lo + k, f, line, qn, "|", what, "|", got[-1] if caught else "SURVIVES " + " ".join(got), flush=True)
        shutil.copy(os.path.join(REPO, f), p)
        json.dump(res, open(out, "w"))


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2], sys.argv[3:] or FILES)
    else:
        run(sys.argv[2], sys.argv[3], *[int(x) for x in sys.argv[4:]])
