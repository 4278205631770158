"""Loading the package abstractly and exploring the trace partitions of a client."""
from __future__ import annotations

import os
import signal
import sys

from . import engine as E
from . import lib, remodel, fs  # noqa: F401  (transfer functions)
from . import terms as T
from . import witness
from .engine import (Inst, Raised, call, getattr_, mkdict, mklist, setattr_, str_, text_of)
from .terms import Infeasible, NeedChars, Path, PathLimit, Str, Unsupported

sys.setrecursionlimit(20000)
REPO = os.environ.get("VERIF_REPO", "/repo")


class AnchorMissing(Exception):
    """code the property is anchored in no longer exists: no verdict"""


class Bad(Exception):
    """the property's assertion is violated on this trace partition"""

    def __init__(self, msg, loc=None, rule=None):
        super().__init__(msg)
        self.msg = msg
        self.loc = loc
        self.rule = rule


def source_map(repo):
    out = {}
    base = os.path.join(repo, "htmltools")
    for root, dirs, files in os.walk(base):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            path = os.path.join(root, f)
            rel = os.path.relpath(path, repo)
            mod = rel[:-3].replace(os.sep, ".")
            pkg = mod.endswith(".__init__")
            if pkg:
                mod = mod[: -len(".__init__")]
            out[mod] = (path, rel, pkg)
    return out


_LOADED = [False]


def load(repo=None):
    """abstractly execute the package's module bodies (class/def/constant setup)"""
    repo = repo or REPO
    if _LOADED[0]:
        return E.MODULES["htmltools"]
    E.SOURCE_PATHS.update(source_map(repo))
    if "htmltools" not in E.SOURCE_PATHS:
        raise AnchorMissing("package htmltools not found")
    T.set_path(Path())
    E.LOADING[0] = True
    try:
        m = E.import_module("htmltools")
    except Raised as e:
        raise AnchorMissing(f"package import raises: {e} at {E.loc_str(e.loc)}")
    finally:
        E.LOADING[0] = False
    _LOADED[0] = True
    return m


def mod(name):
    load()
    try:
        return E.import_module(name)
    except Raised:
        raise AnchorMissing(f"module {name} not found")


def g(name, module="htmltools"):
    """a (dotted) attribute of the package"""
    v = mod(module)
    for part in name.split("."):
        try:
            v = getattr_(v, part)
        except Raised:
            raise AnchorMissing(f"{module}.{name} not found")
    return v


def new(name, *args, module="htmltools", **kw):
    return call(g(name, module), list(args), [(k, v) for k, v in kw.items()])


def m(obj, name, *args, **kw):
    """method call"""
    return call(getattr_(obj, name), list(args), [(k, v) for k, v in kw.items()])


class Env:
    def __init__(self, mat):
        self.mat = mat
        self.used = set()

    def sym(self, name, **kw):
        self.used.add(name)
        if name in self.mat:
            n = self.mat[name]
            if n == 0 and (kw.get("nonempty") or kw.get("single")):
                raise Infeasible()
            kw = {k: v for k, v in kw.items() if k in ("excl", "only")}
            out = T.concat(*[T.sym(f"{name}.{i}", single=True, **kw) for i in range(n)]) if n else ""
            T.P().sub[name] = tuple(T.parts_of(out))
            return out
        return T.sym(name, **kw)

    def symtag(self, name, **kw):
        return self.sym(name, **kw)


def root_atom(name):
    import re

    return re.split(r"[~'‹›#]", name)[0]


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.infeasible = 0
        self.undecided = []
        self.violations = []
        self.cover = set()
        self.thresholds = set()
        self.notes = set()
        self.nd_used = set()
        self.decisions = 0
        self.materialised = {}


MAT_SIZES = (0, 1, 2, 3)


class TimeUp(BaseException):
    """the analysis of a scenario takes too long"""


def explore(name, client, max_paths=4000, nd_modes=(0,), limit=0):
    """run `client(env)` on every trace partition (replayed decision DFS)"""
    res = Result(name)

    def up(*a):
        raise TimeUp
    if limit:
        signal.signal(signal.SIGPROF, up)
        signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        return _explore(res, client, max_paths, nd_modes)
    except TimeUp:
        signal.setitimer(signal.ITIMER_PROF, 0)
        E.JOURNAL.restore()
        res.undecided.append(f"not finished after {limit} s")
        return res
    finally:
        if limit:
            signal.setitimer(signal.ITIMER_PROF, 0)


def _explore(res, client, max_paths, nd_modes):
    mats = [{}]
    seen_mats = set()
    while mats:
        mat = mats.pop()
        key = tuple(sorted(mat.items()))
        if key in seen_mats:
            continue
        seen_mats.add(key)
        need = _explore_one(res, client, mat, max_paths, nd_modes)
        if need is not None:
            if need in mat or len(seen_mats) > 80:
                res.undecided.append(f"per-character loop over {need}: bound exceeded")
                continue
            res.materialised[need] = MAT_SIZES
            for k in MAT_SIZES:
                mats.append({**mat, need: k})
    return res


def _explore_one(res, client, mat, max_paths, nd_modes):
    for nd in nd_modes:
        stack = [[]]
        n = 0
        while stack:
            script = stack.pop()
            p = Path(script, nd)
            T.set_path(p)
            T.CUR_LOC[0] = None
            E.STACK.clear()
            E.COVER.clear()
            E.LAST_FUNC[0] = None
            E.STMTS[0] = 0
            lib.reset_path_state()
            env = Env(mat)
            n += 1
            ok = True
            try:
                client(env)
            except Infeasible:
                res.infeasible += 1
                ok = False
            except NeedChars as e:
                r = root_atom(e.atom)
                if r in env.used:
                    E.JOURNAL.restore()
                    return r
                res.undecided.append(f"per-character access to {e.atom}")
            except (Unsupported, PathLimit) as e:
                res.undecided.append(f"{e} at {E.loc_str(T.CUR_LOC[0])}")
            except Bad as e:
                if not witness.feasible():
                    res.undecided.append("no values found for the equalities assumed on a path")
                else:
                    res.violations.append((e.msg, e.loc or T.CUR_LOC[0] or fallback_loc(), e.rule, describe(p, mat)))
            except Raised as e:
                if E.exc_text(e.value).startswith("RecursionError") and p.undecided:
                    res.undecided.append("recursion")
                elif not witness.feasible():
                    res.undecided.append("no values found for the equalities assumed on a path")
                else:
                    res.violations.append((f"unexpected exception {E.exc_text(e.value)}", e.loc, "no-exception", describe(p, mat)))
            except RecursionError:
                res.undecided.append("analysis recursion limit")
            except (AnchorMissing, KeyboardInterrupt):
                raise
            except Exception as e:  # a construct the transfer functions do not cover
                if os.environ.get("VERIF_DEBUG") == "1":
                    raise
                bad = not_text(e)
                if bad is not None and witness.feasible():
                    res.violations.append((f"a text is expected, the package produced {bad}", fallback_loc(), "no-text", describe(p, mat)))
                else:
                    res.undecided.append(f"analysis error {type(e).__name__}: {e} at {E.loc_str(T.CUR_LOC[0])}")
            finally:
                E.JOURNAL.restore()
            if ok:
                res.paths += 1
                res.cover |= E.COVER
            res.thresholds |= p.thresholds
            res.notes |= set(p.notes)
            res.nd_used |= p.nd_used
            res.decisions += len(p.decisions) - len(script)
            base = [c for _, c, _ in p.decisions]
            for i in range(len(p.decisions) - 1, len(script) - 1, -1):
                _, c, k = p.decisions[i]
                for alt in range(c + 1, k):
                    stack.append(base[:i] + [alt])
            if n >= max_paths:
                res.undecided.append(f"more than {max_paths} partitions")
                break
            if len(res.violations) >= 8:
                return None
    return None


def not_text(e):
    """the specification compares texts; what it was given instead, if the error is that"""
    if not isinstance(e, (AttributeError, TypeError)):
        return None
    tb, frames = e.__traceback__, []
    while tb is not None:
        frames.append(tb.tb_frame)
        tb = tb.tb_next
    i = len(frames)
    while i and frames[i - 1].f_code.co_filename.endswith("/sa/terms.py"):
        i -= 1
    if not 0 < i < len(frames):
        return None
    name = frames[i - 1].f_code.co_filename
    if "/sa/props/" not in name and not name.endswith(("/sa/oracle.py", "/sa/stream.py")):
        return None
    code = frames[-1].f_code
    for a in code.co_varnames[:code.co_argcount]:
        v = frames[-1].f_locals.get(a)
        if v is None or isinstance(v, (Inst, bool, int, float)):
            return "None" if v is None else f"an object of type {E.type_of(v).name}"
    return None


def fallback_loc():
    """the last function of the package the partition entered"""
    from .base import functions_index

    if E.LAST_FUNC[0] is None:
        return None
    f, q = E.LAST_FUNC[0]
    return (f, functions_index().get((f, q), 0), q)


def describe(p, mat):
    out = []
    for k, c, n in p.decisions:
        out.append(f"{_key(k)}={'yes' if c else 'no'}" if n == 2 else f"{_key(k)}#{c}")
    for a, k in mat.items():
        out.append(f"len({a})={k}")
    return "; ".join(out)


def _key(k):
    if isinstance(k, tuple):
        return "(" + " ".join(_key(x) for x in k) + ")"
    return str(k) if len(str(k)) < 80 else str(k)[:77] + "…"
