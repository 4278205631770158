"""Independent specifications shared by the properties: escaping canonicaliser,
occurrence extraction, layout renderer, object graph snapshots."""
from __future__ import annotations

import html as _html
import re as _re

from . import engine as E
from . import terms as T
from .api import Bad, g, m
from .engine import Inst, call, getattr_, text_of
from .model import VOID, build, diff, expand, is_void, taglist
from .terms import Str

TEXT_MAP = (("&", "&amp;"), ("<", "&lt;"), (">", "&gt;"))
ATTR_MAP = TEXT_MAP + (('"', "&quot;"), ("'", "&apos;"), ("\r", "&#13;"), ("\n", "&#10;"))
CANON = {k: v for k, v in ATTR_MAP}
_REF = _re.compile(r"&(?:#[0-9]+|#[xX][0-9a-fA-F]+|[A-Za-z][A-Za-z0-9]*);")


def esc_text(v):
    return T.apply_hom(v, dict(TEXT_MAP))


def esc_attr(v):
    return T.apply_hom(v, dict(ATTR_MAP))


def _canon_img(c, img):
    """canonical image if img is a character reference decoding to c"""
    if c in CANON and _REF.fullmatch(img) and _html.unescape(img) == c:
        return CANON[c]
    return img


def _canon_lit(t):
    def f(mo):
        u = _html.unescape(mo.group(0))
        return CANON[u] if u in CANON else mo.group(0)
    return _REF.sub(f, t)


def canon(v):
    """rewrite every character reference to a canonical spelling, so that any
    reference that decodes to the character is accepted"""
    out = []
    lits = []
    for p in list(T._resolve_parts(T.parts_of(v))) + [None]:
        if p is not None and p[0] == "L":
            lits.append(p)
            continue
        if lits:
            whole = "".join(q[1] for q in lits)
            cw = _canon_lit(whole)
            if cw == whole or len(lits) == 1:
                out.extend(lits if cw == whole else [("L", cw, lits[0][2])])
            else:
                cs = [("L", _canon_lit(q[1]), q[2]) for q in lits]
                out.extend(cs if "".join(c[1] for c in cs) == cw else [("L", cw, lits[0][2])])
            lits = []
        if p is None:
            break
        if p[0] == "A":
            atom, hom = p[1]
            h = T.eff_hom(atom, hom)
            if h:
                h = tuple((c, _canon_img(c, i)) for c, i in h)
            out.append(("A", (atom, h), p[2]))
        elif p[0] == "O" and p[1][0] == "hom" and len(p[1][1]) == 2:
            h = tuple(sorted((c, _canon_img(c, i)) for c, i in p[1][1][0]))
            out.append(("O", ("hom", (h, p[1][1][1])), p[2]))
        else:
            out.append(p)
    return Str(out)


def same_markup(actual, expected, what, rule=None):
    """equality up to the spelling of character references"""
    d = diff(canon(actual), canon(expected))
    if d:
        raise Bad(f"{what}: {d[0]}", d[1], rule)


def sources(p, name):
    """does part p stem from atom `name`"""
    if p[0] == "A":
        return p[1][0].name == name or p[1][0].name.split(".")[0] == name
    if p[0] == "O":
        return any(_mentions(a, name) for a in p[1][1])
    return False


def _mentions(a, name):
    if isinstance(a, Str):
        return any(sources(p, name) for p in T._resolve_parts(a.parts))
    if isinstance(a, (tuple, list)):
        return any(_mentions(x, name) for x in a)
    return False


def find_term(out, term):
    """positions at which `term` occurs contiguously in `out` (unit lists)"""
    a, b = expand(Str(T._resolve_parts(T.parts_of(out)))), expand(Str(T._resolve_parts(T.parts_of(term))))
    a0, b0 = [x[0] for x in a], [x[0] for x in b]
    if not b0:
        return []
    return [i for i in range(len(a0) - len(b0) + 1) if a0[i:i + len(b0)] == b0]


def check_contains(out, term, what, times=1, canonical=True):
    o, t = (canon(out), canon(term)) if canonical else (out, term)
    hits = find_term(o, t)
    if (times is None and not hits) or (times is not None and len(hits) != times):
        raise Bad(f"{what}: {T.show(term)} expected {times if times is not None else 'at least one'}x in {T.show(out, 700)}, found {len(hits)}x", near_loc(out, term))


def near_loc(out, term):
    """source position that emitted the first character where out departs from term"""
    names = [p[1][0].name.split(".")[0] for p in T._resolve_parts(T.parts_of(term)) if p[0] == "A"]
    for p in T._resolve_parts(T.parts_of(out)):
        for n in names:
            if sources(p, n) and p[2]:
                return p[2]
    for p in T._resolve_parts(T.parts_of(out)):
        if p[2] and str(p[2][0]).startswith("htmltools"):
            return p[2]
    return None


# ------------------------------------------------------------------ layout
def esc(n):
    if n.k == "num":
        return T.apply_hom(E.str_(n.t), dict(TEXT_MAP))
    return esc_text(n.t)


def leaf(n, raw=False):
    if n.k in ("html", "repr"):
        return n.t
    if raw:
        return E.str_(n.t) if n.k == "num" else n.t
    return esc(n)


def real(kids):
    for c in kids:
        if c.k in ("list", "tuple", "taglist"):
            yield from real(c.kids)
        elif c.k not in ("meta", "dep", "none"):
            yield c


def attrs_term(n):
    out = []
    for k, v in n.attrs:
        out += [" ", k, '="', esc_attr(v), '"']
    return T.concat(*out)


def opening(n):
    return T.concat("<", n.name, attrs_term(n))


def spec_tag(n, pad, eol, unit="  "):
    """documented rendering of an element (inline elements hold no block content)"""
    kids = list(real(n.kids))
    o = opening(n)
    if not kids and is_void(n.name):
        return T.concat(o, "/>")
    o = T.concat(o, ">")
    c = T.concat("</", n.name, ">")
    raw = any(T.eq(n.name, x) for x in ("script", "style"))
    if not kids:
        return T.concat(o, c)
    if len(kids) == 1 and kids[0].k in ("text", "html", "num"):
        return T.concat(o, leaf(kids[0], raw), c)
    if n.ws:
        return T.concat(o, eol, spec_lines(kids, T.concat(pad, unit), eol, raw), eol, pad, c)
    return T.concat(o, *[spec_flat(k, raw) for k in kids], c)


def spec_flat(n, raw=False):
    if n.k != "el":
        return leaf(n, raw)
    kids = list(real(n.kids))
    o = opening(n)
    if not kids and is_void(n.name):
        return T.concat(o, "/>")
    raw = any(T.eq(n.name, x) for x in ("script", "style"))
    return T.concat(o, ">", *[spec_flat(k, raw) for k in kids], "</", n.name, ">")


def spec_lines(kids, pad, eol, raw=False):
    lines = []
    run = []
    for k in kids:
        if k.k == "el" and k.ws:
            if run:
                lines.append(T.concat(pad, *run))
                run = []
            lines.append(T.concat(pad, spec_tag(k, pad, eol)))
        else:
            run.append(spec_flat(k, raw))
    if run:
        lines.append(T.concat(pad, *run))
    out = []
    for i, x in enumerate(lines):
        if i:
            out.append(eol)
        out.append(x)
    return T.concat(*out)


# ------------------------------------------------------------------ heap snapshots
IMMUT = (E.ClassV, E.FuncV, E.NativeF, E.BoundM, E.ModV, E.StaticM, E.ClassM, E.PropertyV)


class Leaf:
    """an immutable value; compared under the facts known at comparison time"""

    __slots__ = ("v",)
    __hash__ = None

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        if not isinstance(o, Leaf):
            return NotImplemented
        return self.v is o.v or T.freeze(self.v) == T.freeze(o.v)

    def __repr__(self):
        return T.show(self.v) if isinstance(self.v, (str, Str)) else repr(self.v)


class Snap:
    """structure and identity of everything reachable from some roots"""

    def __init__(self, *roots):
        self.ids = {}
        self.objs = []
        self.text = tuple(self.visit(r) for r in roots)

    def visit(self, v):
        if isinstance(v, tuple):
            return ("tuple",) + tuple(self.visit(x) for x in v)
        if isinstance(v, E.BoundM):
            return ("bound", id(v.func), self.visit(v.self))
        if isinstance(v, IMMUT):
            return ("const", id(v))
        if not isinstance(v, Inst):
            return Leaf(v)
        if id(v) in self.ids:
            return ("ref", self.ids[id(v)])
        i = self.ids[id(v)] = len(self.objs)
        self.objs.append(v)
        return (i, v.cls.name, id(v), self._data(v), tuple((k, self.visit(x)) for k, x in v.d.items()) if v.d is not None else ())

    def _data(self, v):
        d = v.data
        if isinstance(d, list):
            return tuple(self.visit(x) for x in d)
        if isinstance(d, E.DictData):
            return tuple((Leaf(k) if not isinstance(k, (Inst, tuple)) else self.visit(k), self.visit(x)) for k, x in d.items())
        if isinstance(d, tuple):
            return tuple(self.visit(x) for x in d)
        if isinstance(d, (str, Str)):
            return Leaf(d)
        if d is None:
            return None
        return Leaf(d)

    def reachable(self):
        return {id(o): o for o in self.objs}


def path_diff(a, b, at="value"):
    """human-readable first difference of two snapshots"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == 5 and len(b) == 5 and isinstance(a[0], int) and isinstance(b[0], int):
            if a[2] != b[2]:
                return f"{at}: a different object ({a[1]})"
            return path_diff(a[3], b[3], at + f"<{a[1]}>") or path_diff(a[4], b[4], at + f"<{a[1]}>.__dict__")
        if len(a) != len(b):
            return f"{at}: {len(a)} entries before, {len(b)} after"
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                lab = f"[{i}]"
                if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], (str, Leaf)):
                    k = x[0]
                    lab = "." + (k if isinstance(k, str) else repr(k))
                    if isinstance(y, tuple) and len(y) == 2 and y[0] == x[0]:
                        return path_diff(x[1], y[1], at + lab)
                return path_diff(x, y, at + lab)
    return f"{at}: {_short(a)} became {_short(b)}"


def _short(x):
    s = str(x)
    return s if len(s) < 160 else s[:157] + "…"


def struct(v, seen=None):
    """structure without identity (for value comparison of results)"""
    seen = seen if seen is not None else {}
    if isinstance(v, tuple):
        return ("tuple",) + tuple(struct(x, seen) for x in v)
    if isinstance(v, E.BoundM):
        return ("bound", struct(v.self, seen))
    if not isinstance(v, Inst):
        if isinstance(v, IMMUT):
            return ("const", id(v))
        return Leaf(v)
    if id(v) in seen:
        return ("ref", seen[id(v)])
    seen[id(v)] = len(seen)
    d = v.data
    if isinstance(d, (list, tuple)):
        dd = tuple(struct(x, seen) for x in d)
    elif isinstance(d, E.DictData):
        dd = tuple((struct(k, seen), struct(x, seen)) for k, x in d.items())
    elif isinstance(d, (str, Str)):
        dd = Leaf(d)
    else:
        dd = None if d is None else Leaf(d)
    return (v.cls.name, dd, tuple((k, struct(x, seen)) for k, x in v.d.items()) if v.d is not None else ())
