"""Tree specifications, the abstract HTML tokenizer and term comparison."""
from __future__ import annotations

import html as _html
import os

from . import engine as E
from . import terms as T
from . import witness
from .api import Bad, g, m, mod, new
from .engine import call, getattr_, mkdict, mklist, text_of
from .terms import Infeasible, Str, Unsupported

E.SOURCE_PATHS["userland"] = (os.path.join(os.path.dirname(os.path.abspath(__file__)), "userland.py"), "<user>", False)

VOID = ("area", "base", "br", "col", "command", "embed", "hr", "img", "input", "keygen", "link", "meta", "param", "source", "track", "wbr")
TEXT_MAP = {"&": "&amp;", "<": "&lt;", ">": "&gt;"}
META = "&<>"


def user(name, *args):
    if "userland" not in E.MODULES:
        E.LOADING[0] = True
        try:
            E.import_module("userland")
        finally:
            E.LOADING[0] = False
    return call(getattr_(E.MODULES["userland"], name), list(args))


def preload():
    user("Plain")


# ------------------------------------------------------------------ specs
class N:
    """specification of a tree node"""

    __slots__ = ("k", "name", "kids", "ws", "attrs", "t")

    def __init__(self, k, name=None, kids=(), ws=None, attrs=(), t=None):
        self.k, self.name, self.kids, self.ws, self.attrs, self.t = k, name, list(kids), ws, list(attrs), t

    def __repr__(self):
        if self.k == "el":
            nm = self.name if isinstance(self.name, str) else T.show(self.name)
            return f"{nm}{'' if self.ws else '~'}({', '.join(map(repr, self.kids))})"
        return self.k + ("" if self.t is None else ":" + (self.t if isinstance(self.t, str) else "•"))


def el(name, *kids, ws=True, attrs=()):
    return N("el", name, kids, ws, attrs)


def tx(t):
    return N("text", t=t)


def htm(t):
    return N("html", t=t)


def rep(t):
    return N("repr", t=t)


def meta():
    return N("meta")


def dep(d):
    return N("dep", t=d)


def num(v):
    return N("num", t=v)


def build(n):
    if n.k == "el":
        kids = [build(c) for c in n.kids]
        if all(isinstance(k, str) for k, _ in n.attrs):
            return call(g("Tag"), [n.name, *kids], [("_add_ws", n.ws), *[(k, v) for k, v in n.attrs]])
        return call(g("Tag"), [n.name, mkdict(list(n.attrs)), *kids], [("_add_ws", n.ws)])
    if n.k == "text":
        return n.t
    if n.k == "num":
        return n.t
    if n.k == "html":
        return new("HTML", n.t)
    if n.k == "repr":
        return user("Selfie", n.t)
    if n.k == "meta":
        return user("Meta")
    if n.k == "dep":
        return n.t if not isinstance(n.t, str) else new("HTMLDependency", n.t, "1.0")
    if n.k == "list":
        return mklist([build(c) for c in n.kids])
    if n.k == "tuple":
        return tuple(build(c) for c in n.kids)
    if n.k == "taglist":
        return call(g("TagList"), [build(c) for c in n.kids])
    if n.k == "none":
        return None
    if n.k == "expand":
        return user("Expand", build(n.kids[0]))
    if n.k == "raw":
        return n.t
    raise AssertionError(n.k)


def taglist(nodes):
    return call(g("TagList"), [build(c) for c in nodes])


# ------------------------------------------------------------------ comparison
def expand(v):
    """flat list of (unit, loc): single characters, opaque parts"""
    out = []
    for p in T._resolve_parts(T.parts_of(v)):
        if p[0] == "L":
            out.extend((c, p[2]) for c in p[1])
        elif p[0] == "A":
            out.append((("A", p[1][0].name, T.eff_hom(*p[1])), p[2]))
        elif p[0] == "R":
            out.append((("R",) + tuple(p[1]), p[2]))
        else:
            out.append((T.norm(Str([p]))[0], p[2]))
    return out


def diff(actual, expected):
    """None if equal, else (message, loc of first differing part of actual)"""
    na, ne = T.norm(actual), T.norm(expected)
    if na == ne:
        return None
    env = witness.differ(actual, expected)
    if env is None:
        raise Unsupported("two texts are neither shown equal nor told apart")
    a, e = expand(Str(_canon(actual))), expand(Str(_canon(expected)))
    i = 0
    while i < len(a) and i < len(e) and a[i][0] == e[i][0]:
        i += 1
    loc = None
    for j in list(range(i, len(a))) + list(range(min(i, len(a)) - 1, -1, -1)):
        if a[j][1] and str(a[j][1][0]).startswith("htmltools"):
            loc = a[j][1]
            break
    return f"got {T.show(actual, 700)!s} expected {T.show(expected, 700)!s}" + (" e.g. with " + ", ".join(f"{k[1]}={v!r}" for k, v in list(env.items())[:6]) if env else ""), loc


def _canon(v):
    out = []
    for p in T.norm(v):
        pass
    return T._resolve_parts(T.parts_of(v))


def check_same(actual, expected, what, rule=None):
    d = diff(actual, expected)
    if d:
        raise Bad(f"{what}: {d[0]}", d[1], rule)


def need_str(v, what):
    t = text_of(v)
    if t is None:
        raise Bad(f"{what}: expected text, got {E.type_of(E.unk(v)).name}")
    return t


# ------------------------------------------------------------------ decode
def decode(v, what="text"):
    """what an HTML parser sees after character-reference decoding; Bad when an
    opaque part could contribute to a reference or to markup"""
    out = []
    ps = T._resolve_parts(T.parts_of(v))
    m_ = []
    for p in ps:
        if p[0] == "L" and m_ and m_[-1][0] == "L":
            m_[-1] = ("L", m_[-1][1] + p[1], m_[-1][2] or p[2])
        else:
            m_.append(p)
    for i, p in enumerate(m_):
        if p[0] == "L":
            t = p[1]
            if i + 1 < len(m_):
                j = t.rfind("&")
                if j >= 0 and ";" not in t[j:] and all(c.isalnum() or c in "#" for c in t[j + 1:]):
                    raise Bad(f"{what}: character reference may extend into the following value: {T.show(v)}", p[2])
            out.append(("L", _html.unescape(t), p[2]))
        elif p[0] == "A":
            atom, hom = p[1]
            h = T.eff_hom(atom, hom) or ()
            hm = dict(h)
            for c, img in h:
                if _html.unescape(img) != c:
                    raise Bad(f"{what}: character {c!r} is written as {img!r}, which decodes to {_html.unescape(img)!r}", p[2])
                if img.startswith("&") and not img.endswith(";"):
                    raise Bad(f"{what}: character {c!r} is written as {img!r} (unterminated reference)", p[2])
            if T.atom_can(atom, "&") and "&" not in hm:
                raise Bad(f"{what}: '&' of the supplied text is emitted unescaped", p[2] or _near(m_, i))
            out.append(("A", (atom, None), p[2]))
        elif p[0] == "R":
            out.append(p)
        else:
            name, args = p[1]
            if name == "hom" and len(args) == 2:
                hm = dict(args[0])
                for c, img in args[0]:
                    if _html.unescape(img) != c:
                        raise Bad(f"{what}: character {c!r} is written as {img!r}", p[2])
                only = None
                inner = args[1]
                if len(inner.parts) == 1 and inner.parts[0][0] == "O":
                    only = T.op_only(inner.parts[0])
                if "&" not in hm and (only is None or "&" in only):
                    raise Bad(f"{what}: '&' of the supplied text is emitted unescaped", p[2])
                out.extend(T.parts_of(inner))
            else:
                only = T.op_only(p)
                if only is None or "&" in only:
                    raise Bad(f"{what}: cannot show that {T.show(Str([p]))} decodes to the supplied text", p[2])
                out.append(p)
    return Str(out)


def _near(ps, i):
    for j in list(range(i, -1, -1)) + list(range(i, len(ps))):
        if ps[j][2]:
            return ps[j][2]
    return None


def part_hits(p, chars):
    return [c for c in chars if T.part_may(p, c)]


# ------------------------------------------------------------------ tokenizer
NAMECH = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_:.")
ATTRCH = NAMECH | frozenset("@")


def tokenize(v, attr_pick=None):
    """HTML tokens of an abstract string: ('start', name, attrs, selfclose, loc),
    ('end', name, loc), ('text', raw term, loc)"""
    items = []
    for p in T._resolve_parts(T.parts_of(v)):
        if p[0] == "L":
            items.extend(("c", c, p[2]) for c in p[1])
        else:
            items.append(("p", p, p[2]))
    toks = []
    i, n = 0, len(items)
    buf = []

    def flush():
        nonlocal buf
        if buf:
            toks.append(("text", Str(buf), buf[0][2]))
            buf = []

    def part(x):
        return ("L", x[1], x[2]) if x[0] == "c" else x[1]

    def read_name(i, allowed):
        got = []
        while i < n:
            x = items[i]
            if x[0] == "c":
                if x[1] not in allowed:
                    break
                got.append(part(x))
            else:
                p = x[1]
                if p[0] == "A" and p[1][0].only is not None and T._hom_images(p) <= allowed:
                    got.append(p)
                elif p[0] == "O" and T.op_only(p) is not None and T.op_only(p) <= allowed:
                    got.append(p)
                else:
                    raise Bad(f"opaque text {T.show(Str([p]))} inside a tag name or attribute name", p[2])
            i += 1
        return Str(got), i

    while i < n:
        x = items[i]
        if x[0] == "p":
            p = x[1]
            if part_hits(p, "<"):
                raise Bad(f"'<' of the supplied text reaches the output raw in text position ({T.show(Str([p]))})", p[2])
            buf.append(p)
            i += 1
            continue
        if x[1] != "<":
            buf.append(part(x))
            i += 1
            continue
        # markup
        if i + 1 >= n:
            raise Bad("output ends with '<'", x[2])
        y = items[i + 1]
        if y[0] == "c" and y[1] == "/":
            flush()
            name, j = read_name(i + 2, NAMECH)
            if not T.norm(name):
                raise Bad("malformed end tag", x[2])
            if j >= n or items[j][:2] != ("c", ">"):
                raise Bad(f"end tag </{T.show(name)} is not followed by '>'", x[2])
            toks.append(("end", name, x[2]))
            i = j + 1
            continue
        if y[0] == "c" and y[1] == "!":
            flush()
            if T.const(Str([part(z) for z in items[i:i + 15] if z[0] == "c"])) == "<!DOCTYPE html>":
                toks.append(("doctype", "html", x[2]))
                i += 15
                continue
            raise Bad("comment or declaration in output", x[2])
        flush()
        name, j = read_name(i + 1, NAMECH)
        if not T.norm(name):
            raise Bad("raw '<' in text", x[2])
        attrs = []
        selfclose = False
        while True:
            ws = False
            while j < n and ((items[j][0] == "c" and items[j][1] in " \t\n\r\f") or (items[j][0] == "p" and items[j][1][0] == "R")):
                ws = True
                j += 1
            if j >= n:
                raise Bad(f"unterminated start tag <{T.show(name)}", x[2])
            if items[j][0] == "c" and items[j][1] == ">":
                j += 1
                break
            if items[j][0] == "c" and items[j][1] == "/" and j + 1 < n and items[j + 1][:2] == ("c", ">"):
                selfclose = True
                j += 2
                break
            if not ws:
                raise Bad(f"attribute of <{T.show(name)}> not separated by whitespace", items[j][2])
            an, j2 = read_name(j, ATTRCH)
            if not T.norm(an):
                raise Bad(f"malformed attribute in <{T.show(name)}> near {T.show(Str([part(z) for z in items[j:j+12]]))}", items[j][2])
            j = j2
            if j < n and items[j][:2] == ("c", "="):
                j += 1
                if j >= n or items[j][0] != "c" or items[j][1] not in "\"'":
                    raise Bad(f"value of attribute {T.show(an)} is not quoted", items[j - 1][2])
                q = items[j][1]
                j += 1
                val = []
                while j < n and items[j][:2] != ("c", q):
                    z = items[j]
                    if z[0] == "p" and part_hits(z[1], q):
                        raise Bad(f"quote character {q!r} of the supplied value reaches the output raw in attribute {T.show(an)}", z[2] or items[j - 1][2])
                    val.append(part(z))
                    j += 1
                if j >= n:
                    raise Bad(f"unterminated value of attribute {T.show(an)}", x[2])
                j += 1
                attrs.append((an, Str(val), items[j - 1][2]))
            else:
                attrs.append((an, None, items[j - 1][2]))
        toks.append(("start", name, attrs, selfclose, x[2]))
        i = j
    flush()
    return toks


def strip_ws(v):
    """drop whitespace at both ends (literals, indentation, eol atoms)"""
    ps = [p for p in T._resolve_parts(T.parts_of(v))]

    def is_ws_part(p):
        if p[0] == "R":
            return p[1][0].isspace()
        return p[0] == "A" and p[1][0].only is not None and all(c.isspace() for c in p[1][0].only)

    for side in (0, -1):
        while ps:
            p = ps[side]
            if p[0] == "L":
                t = p[1].lstrip() if side == 0 else p[1].rstrip()
                if t:
                    ps[side] = ("L", t, p[2])
                    break
                ps.pop(side)
            elif is_ws_part(p):
                ps.pop(side)
            else:
                break
    return Str(ps)


def flat_text_runs(nodes):
    """expected token stream of a specification: starts, ends and text runs"""
    out = []

    def txt(t):
        if out and out[-1][0] == "text":
            out[-1] = ("text", T.concat(out[-1][1], t))
        else:
            out.append(("text", t))

    def go(ns):
        for c in ns:
            if c.k == "el":
                kids = [k for k in c.kids if k.k not in ("meta", "dep", "none")]
                flat = list(flatten(kids))
                out.append(("start", c, not flat and is_void(c.name)))
                if flat or not is_void(c.name):
                    go(kids)
                    out.append(("end", c))
            elif c.k == "text":
                txt(c.t)
            elif c.k == "num":
                txt(E.str_(c.t))
            elif c.k in ("list", "tuple", "taglist"):
                go(c.kids)
    go(nodes)
    return out


def flatten(kids):
    for k in kids:
        if k.k in ("list", "tuple", "taglist"):
            yield from flatten(k.kids)
        elif k.k not in ("none", "meta", "dep"):
            yield k


def is_void(name):
    return any(T.eq(name, v) for v in VOID)
