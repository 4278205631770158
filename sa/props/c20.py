"""C20: JSX components convert purely, carry all dependencies, and mirror as createElement."""
import math
import os

from .. import api, lib
from .. import engine as E
from .. import terms as T
from ..api import AnchorMissing, Bad, g, m, mod
from ..base import Prop, Scenario, int_thresholds
from ..engine import Raised, call, getattr_, getitem, mkdict, mklist, setattr_, str_
from ..model import preload, user
from ..oracle import Snap, path_diff, struct
from ..terms import Str, Unsupported

JSX = "htmltools._jsx"
FILE = "htmltools/_jsx.py"
# texts "free of backslashes and line breaks"
PLAIN = dict(excl="\\\n\r\u2028\u2029\x0b\x0c\x1c\x1d\x1e\x85")


def tag(el, *a, **k):
    return call(g("Tag"), [el, *a], list(k.items()))


def tl(*a):
    return call(g("TagList"), list(a))


def D(**k):
    return mkdict([(a.rstrip("_"), v) for a, v in k.items()])


def dep(name, version="1.0", **k):
    return call(g("HTMLDependency"), [name, version], list(k.items()))


def doc(*a, **k):
    return call(g("HTMLDocument"), list(a), list(k.items()))


def jx(*a):
    return call(g("jsx", JSX), list(a))


def comp(name, args=(), kw=(), allowed=None):
    f = call(g("jsx_tag_create", JSX), [name] + ([allowed] if allowed is not None else []))
    return call(f, list(args), list(kw))


# ------------------------------------------------------------------ specifications: what is built and what it mirrors to
class Sp:
    """k: comp, html, text, num, none, dep, meta, list, tl, tup, dict, jsx, val, exp, jsxtext"""

    def __init__(self, k, t=None, kids=(), props=(), how="args"):
        self.k, self.t, self.kids, self.props, self.how = k, t, list(kids), list(props), how


def C(name, *kids, how="args", **props):
    return Sp("comp", name, kids, list(props.items()), how)


def CP(name, props, *kids, how="args"):
    return Sp("comp", name, kids, list(props), how)


def H(name, *kids, how="args", **attrs):
    return Sp("html", name, kids, list(attrs.items()), how)


def Tx(t):
    return Sp("text", t)


def Jx(*t):
    return Sp("jsx", t)


def Dp(name, version="1.0", **k):
    return Sp("dep", (name, version, k))


def Me(p="m"):
    return Sp("meta", p)


def Ex(*kids, one=False, cls="Expand"):
    return Sp("exp", (one, cls), kids)


def Ls(*kids, k="list"):
    return Sp(k, None, kids)


def Di(*items):
    return Sp("dict", None, [], items)


def V(v):
    return Sp("val", v)


NONE = Sp("none")


def spec(x):
    if isinstance(x, Sp):
        return x
    if x is None:
        return NONE
    if isinstance(x, (str, Str)):
        return Tx(x)
    if isinstance(x, (bool, int, float)):
        return V(x)
    if isinstance(x, list):
        return Ls(*x)
    if isinstance(x, tuple):
        return Ls(*x, k="tup")
    if isinstance(x, dict):
        return Di(*x.items())
    raise ValueError(x)


def build(x):
    x = spec(x)
    if x.k == "comp":
        return grow(lambda a, kw: comp(x.t, a, kw), x, [(k, build(v)) for k, v in x.props])
    if x.k == "html":
        return grow(lambda a, kw: call(g("Tag"), [x.t, *a], kw), x, [(k, build(v)) for k, v in x.props])
    if x.k == "text":
        return x.t
    if x.k == "none":
        return None
    if x.k == "val":
        return x.t
    if x.k == "dep":
        n, v, k = x.t
        return dep(n, v, **{a: build(b) for a, b in k.items()})
    if x.k == "meta":
        return user("Meta", x.t)
    if x.k == "jsx":
        return jx(*x.t)
    if x.k == "list":
        return mklist([build(y) for y in x.kids])
    if x.k == "tup":
        return tuple(build(y) for y in x.kids)
    if x.k == "tl":
        return tl(*[build(y) for y in x.kids])
    if x.k == "dict":
        return mkdict([(build(k) if isinstance(k, Sp) else k, build(v)) for k, v in x.props])
    if x.k == "exp":
        one, cls = x.t
        return user(cls, build(x.kids[0]) if one else tl(*[build(y) for y in x.kids]))
    raise ValueError(x.k)


def grow(make, x, kw):
    """the same component with its children and props supplied in another way"""
    kids = [build(y) for y in x.kids]
    if x.how == "args":
        return make(kids, kw)
    if x.how == "list":
        return make([mklist(kids)], kw)
    if x.how == "append":
        o = make([], kw)
        for y in kids:
            m(o, "append", y)
        return o
    if x.how == "append all":
        o = make([], kw)
        m(o, "append", *kids)
        return o
    if x.how == "extend":
        o = make([], kw)
        m(o, "extend", mklist(kids))
        return o
    if x.how == "extend gen":
        o = make(kids[:1], kw)
        m(o, "extend", user("gen", mklist(kids[1:])))
        return o
    if x.how == "insert":
        o = make(kids[1:], kw)
        m(getattr_(o, "children"), "insert", 0, kids[0])
        return o
    if x.how == "children append":
        o = make([], kw)
        for y in kids:
            m(getattr_(o, "children"), "append", y)
        return o
    if x.how == "setitem":
        o = make(kids, kw)
        for i in range(len(kids)):
            if not isinstance(kids[i], (E.Inst,)) or kids[i].cls.issub(g("Tag")):
                E.setitem(getattr_(o, "children"), i, kids[i])
        return o
    if x.how == "late props":
        o = make(kids, [])
        for k, v in kw:
            E.setitem(getattr_(o, "attrs"), k, v)
        return o
    if x.how == "update props":
        o = make(kids, kw[:1])
        m(getattr_(o, "attrs"), "update", mkdict(kw[1:2]), **dict(kw[2:]))
        return o
    if x.how == "replace children":
        o = make(["gone"], kw)
        setattr_(o, "children", tl(*kids))
        return o
    raise ValueError(x.how)


def norm_name(k):
    if isinstance(k, Str) and T.const(k) is None:
        return k  # left open, without underscores
    if k.endswith("_"):
        k = k[:-1]
    return k.replace("_", "-")


def flat(kids):
    """children after dropping None and metadata and putting expansions in place"""
    out = []
    for y in kids:
        y = spec(y)
        if y.k in ("none", "dep", "meta"):
            continue
        if y.k in ("list", "tup", "tl", "exp"):
            out.extend(flat(y.kids))
        else:
            out.append(y)
    return out


def metas(x, prop=False):
    """metadata that conversion must surface: (required, merely possible)"""
    x = spec(x)
    if x.k in ("dep", "meta"):
        return [x], []
    req, pos = [], []
    if x.k in ("comp", "html", "tl", "exp") or x.k in ("list", "tup") and not prop:
        for y in x.kids:
            r, p = metas(y)
            req += r
            pos += p
    if x.k in ("list", "tup") and prop:
        for y in x.kids:
            r, p = metas(y, True)
            pos += r + p
    if x.k == "dict":
        for _, y in x.props:
            r, p = metas(y, True)
            pos += r + p
    if x.k == "comp":
        for _, v in x.props:
            r, p = metas(v, True)
            if spec(v).k == "tl":   # only tags, components and expansions are named by the property
                pos += r + p
            else:
                req += r
                pos += p
    return req, pos


# ------------------------------------------------------------------ the JavaScript expected
def want(x):
    """expected expression of a child or value"""
    x = spec(x)
    if x.k == "comp":
        props = {}
        for k, v in x.props:
            props[norm_name(k)] = v
        return ("el", "comp", x.t, [(k, want_style(v) if k == "style" else want(v)) for k, v in props.items()], [want_child(y) for y in flat(x.kids)])
    if x.k == "html":
        props = [(k, v) for k, v in x.props]
        return ("el", "html", x.t, [(norm_name(k), want_style(v) if k == "style" else want(v if not isinstance(v, bool) else "")) for k, v in props], [want_child(y) for y in flat(x.kids)])
    if x.k == "text":
        return ("str", x.t)
    if x.k == "none":
        return ("lit", None)
    if x.k == "val":
        return ("lit", x.t)
    if x.k == "jsx":
        return ("raw", T.concat(*[p for i, t in enumerate(x.t) for p in ((("\n",) if i else ()) + (t,))]))
    if x.k in ("list", "tup", "tl"):
        return ("arr", [want(y) for y in (x.kids if x.k != "tl" else flat(x.kids))])
    if x.k == "dict":
        return ("obj", [(k if not isinstance(k, Sp) else k.t, want(v)) for k, v in x.props])
    if x.k == "exp":
        one, _ = x.t
        if one:
            return want(x.kids[0])
        return ("arr", [want_child(y) for y in flat(x.kids)])
    raise ValueError(x.k)


def want_child(x):
    w = want(x)
    if x.k == "val":
        return ("text", w)     # a number among children is a text there
    if x.k == "jsx":
        return ("either", ("str", w[1]), w)
    return w


def want_style(v):
    v = spec(v)
    if v.k == "none":
        return ("either", ("lit", None), ("obj", []))
    if v.k == "text" and T.const(v.t) is not None:
        items = [d.split(":", 1) for d in T.const(v.t).split(";") if ":" in d]
        return ("style", [(a, ("str", b)) for a, b in dict(items).items()])
    if v.k == "text":
        return ("style?", v.t)
    w = want(v)
    return ("style", w[1]) if w[0] == "obj" else w


def raws(w, out):
    if isinstance(w, tuple) and w and w[0] == "raw":
        out.append(w[1])
    elif isinstance(w, (tuple, list)):
        for y in w:
            raws(y, out)
    return out


# ------------------------------------------------------------------ reading the JavaScript
class NotJS(Exception):
    pass


ESC = {"n": "\n", "t": "\t", "r": "\r", "b": "\b", "f": "\f", "v": "\v", "0": "\0"}


def paired(out):
    """surrogate pairs written as two escapes"""
    res = []
    for c in out:
        if res and isinstance(c, str) and len(c) == 1 and "\udc00" <= c <= "\udfff" and isinstance(res[-1], str) and len(res[-1]) == 1 and "\ud800" <= res[-1] <= "\udbff":
            res[-1] = chr(0x10000 + (ord(res[-1]) - 0xD800) * 0x400 + ord(c) - 0xDC00)
        else:
            res.append(c)
    return res


class Reader:
    """recursive-descent reader of the generated expression over a string term"""

    def __init__(self, parts, raw):
        self.ps = []
        for p in parts:
            if p[0] == "L":
                self.ps.extend(p[1])
            else:
                self.ps.append(p)
        self.i = 0
        self.raw = []
        for r in raw:
            ps = []
            for p in T._resolve_parts(T.parts_of(r)):
                ps.extend(p[1]) if p[0] == "L" else ps.append(p)
            if ps not in [q for q, _ in self.raw]:
                self.raw.append((ps, r))
        self.raw.sort(key=lambda q: -len(q[0]))

    def fail(self, why):
        here = "".join(p if isinstance(p, str) else T.show(Str([p])) for p in self.ps[self.i:self.i + 40])
        raise NotJS(f"{why} at {here!r}")

    def peek(self):
        return self.ps[self.i] if self.i < len(self.ps) else None

    def ws(self):
        while isinstance(self.peek(), str) and self.peek() in " \t\n\r":
            self.i += 1

    def at(self, s):
        return [p for p in self.ps[self.i:self.i + len(s)]] == list(s)

    def eat(self, s):
        self.ws()
        if not self.at(s):
            self.fail(f"{s!r} expected")
        self.i += len(s)

    def same_part(self, a, b):
        if isinstance(a, str) or isinstance(b, str):
            return a == b
        return T.norm(Str([a])) == T.norm(Str([b]))

    def raw_here(self):
        for ps, r in self.raw:
            if len(self.ps) - self.i >= len(ps) and all(self.same_part(a, b) for a, b in zip(self.ps[self.i:self.i + len(ps)], ps)):
                j = self.i + len(ps)
                while j < len(self.ps) and isinstance(self.ps[j], str) and self.ps[j] in " \t\n\r":
                    j += 1
                if j < len(self.ps) and isinstance(self.ps[j], str) and self.ps[j] in ",)]}":
                    self.i += len(ps)
                    return ("raw", r)
        return None

    def string(self):
        q = self.peek()
        self.i += 1
        out = []
        while True:
            p = self.peek()
            if p is None:
                self.fail("unterminated string")
            self.i += 1
            if p == q:
                return ("str", T.concat(*paired(out)) if out else "")
            if p == "\\":
                c = self.peek()
                self.i += 1
                if not isinstance(c, str):
                    self.fail("escape before unknown text")
                if c in "ux":
                    n = 4 if c == "u" else 2
                    h = self.ps[self.i:self.i + n]
                    if not all(isinstance(x, str) for x in h):
                        self.fail("escape before unknown text")
                    out.append(chr(int("".join(h), 16)))
                    self.i += n
                elif c == "\n":
                    pass
                else:
                    out.append(ESC.get(c, c))
            elif isinstance(p, str):
                if p in "\n\r":
                    self.fail("line break inside a string")
                out.append(p)
            else:
                out.append(self.denoted(p, q))

    def denoted(self, p, q):
        """the text an opaque part inside a string literal stands for"""
        if p[0] == "A":
            atom, hom = p[1]
            hm = dict(T.eff_hom(atom, hom) or ())
            for c in (q, "\\", "\n", "\r"):
                if c not in hm and T.atom_can(atom, c):
                    self.fail(f"{c!r} of a text is written as it is inside a string")
            for c, img in hm.items():
                if self.decode(img) != c:
                    self.fail(f"{c!r} is written as {img!r} inside a string")
            return Str([("A", (atom, None), p[2])])
        if p[0] == "R":
            return Str([p])
        if p[0] == "O" and p[1][0] in ("str", "sha1", "hexdigest", "ver"):
            return Str([p])
        if p[0] == "O" and p[1][0] == "hom":
            hm = dict(p[1][1][0])
            if all(self.decode(i) == c for c, i in hm.items()):
                return p[1][1][1]
        raise Unsupported(f"string literal around {p[1][0] if p[0] == 'O' else p[0]}")

    def decode(self, img):
        out, i = "", 0
        while i < len(img):
            if img[i] == "\\" and i + 1 < len(img):
                c = img[i + 1]
                n = {"u": 4, "x": 2}.get(c, 0)
                if n:
                    try:
                        out += chr(int(img[i + 2:i + 2 + n], 16))
                    except ValueError:
                        return None
                else:
                    out += ESC.get(c, c)
                i += 2 + n
            elif img[i] == "\\":
                return None
            else:
                out += img[i]
                i += 1
        return out

    def value(self):
        self.ws()
        r = self.raw_here()
        if r:
            return r
        p = self.peek()
        if p is None:
            self.fail("an expression expected")
        if not isinstance(p, str):
            if p[0] == "O":
                sh = lib.json_struct(p[1])
                if sh is not None:
                    self.i += 1
                    return self.from_json(sh)
            if p[0] == "O" and p[1][0] == "str":
                self.i += 1
                return ("num?", Str([p]))
            self.fail("unquoted text")
        if p in "\"'":
            return self.string()
        if p == "[":
            self.i += 1
            return ("arr", self.items("]"))
        if p == "{":
            return self.obj()
        if self.at("React.createElement"):
            self.i += len("React.createElement")
            return self.element()
        tok = ""
        while isinstance(self.peek(), str) and (self.peek().isalnum() or self.peek() in "+-._"):
            tok += self.peek()
            self.i += 1
        lits = {"null": None, "undefined": None, "true": True, "false": False, "NaN": math.nan, "Infinity": math.inf, "-Infinity": -math.inf, "+Infinity": math.inf}
        if tok in lits:
            return ("lit", lits[tok])
        try:
            if tok and (tok[0] in "+-.0123456789") and tok.lower().lstrip("+-")[:1].isdigit() and "_" not in tok:
                body = tok.lstrip("+-")
                if not (len(body) > 1 and body[0] == "0" and body[1].isdigit()):
                    return ("lit", int(tok) if body.isdigit() and int(body) else float(tok))
        except ValueError:
            pass
        self.i -= len(tok)
        self.fail("not a JavaScript expression")

    def from_json(self, sh):
        k, v = sh
        if k == "str":
            return ("str", v)
        if k == "lit":
            return ("lit", v)
        if k == "list":
            return ("arr", [self.from_json(x) for x in v])
        return ("obj", [(a, self.from_json(b)) for a, b in v])

    def items(self, end):
        out = []
        while True:
            self.ws()
            if self.at(end):
                self.i += 1
                return out
            out.append(self.value())
            self.ws()
            if self.at(","):
                self.i += 1
            elif not self.at(end):
                self.fail(f"',' or {end!r} expected")

    def obj(self):
        self.eat("{")
        out = []
        while True:
            self.ws()
            if self.at("}"):
                self.i += 1
                return ("obj", out)
            p = self.peek()
            if isinstance(p, str) and p in "\"'":
                k = self.string()[1]
            elif isinstance(p, tuple) and p[0] == "O":
                k = self.value()
                if k[0] != "str":
                    self.fail("a property name expected")
                k = k[1]
            else:
                k = ""
                while isinstance(self.peek(), str) and (self.peek().isalnum() or self.peek() in "_$"):
                    k += self.peek()
                    self.i += 1
                if not k:
                    self.fail("a property name expected")
            self.eat(":")
            out.append((k, self.value()))
            self.ws()
            if self.at(","):
                self.i += 1
            elif not self.at("}"):
                self.fail("',' or '}' expected")

    def element(self):
        self.eat("(")
        self.ws()
        p = self.peek()
        if isinstance(p, str) and p in "\"'":
            kind, name = "html", self.string()[1]
        else:
            kind, name = "comp", []
            while self.peek() is not None and (not isinstance(self.peek(), str) or self.peek() not in ",() \n\t"):
                name.append(Str([self.peek()]) if not isinstance(self.peek(), str) else self.peek())
                self.i += 1
            name = T.concat(*name) if name else ""
        self.ws()
        if self.at(")"):
            self.i += 1
            return ("el", kind, name, [], [])
        self.eat(",")
        args = self.items(")")
        if not args:
            return ("el", kind, name, [], [])
        if args[0][0] == "obj":
            props = args[0][1]
        elif args[0] == ("lit", None):
            props = []
        else:
            self.fail("the second argument of createElement is not an object")
        return ("el", kind, name, props, args[1:])


def text_eq(a, b):
    return T.norm(a) == T.norm(b) or E.truth(E.eq_(a, b))


def show(w):
    if isinstance(w, (str, Str)):
        return T.show(w)
    if isinstance(w, tuple):
        return "(" + " ".join(show(x) for x in w) + ")"
    if isinstance(w, list):
        return "[" + ", ".join(show(x) for x in w) + "]"
    return repr(w)


def match(w, v, at):
    """None or what differs between the expected and the written expression"""
    k = w[0]
    if k == "either":
        ds = [match(x, v, at) for x in w[1:]]
        return None if None in ds else ds[0]
    if k == "text":
        if v[0] == "str":
            c = T.const(v[1])
            lit = w[1][1]
            if c is not None and (c == str(lit)):
                return None
        return match(w[1], v, at)
    if k == "style":
        if v[0] != "obj":
            return f"{at}: the style is written as {show(v)[:120]}"
        return props(w[1], v[1], at, loose=True)
    if k == "style?":
        return None if v[0] == "obj" else f"{at}: the style is written as {show(v)[:120]}"
    if k == "lit":
        x = w[1]
        if v[0] != "lit":
            return f"{at}: {x!r} is written as {show(v)[:120]}"
        y = v[1]
        if x is None or isinstance(x, bool) or y is None or isinstance(y, bool):
            return None if x is y else f"{at}: {x!r} is written as {y!r}"
        if isinstance(x, float) and math.isnan(x):
            return None if isinstance(y, float) and math.isnan(y) else f"{at}: nan is written as {y!r}"
        if x == 0 and math.copysign(1, x) != math.copysign(1, y):
            return f"{at}: {x!r} is written as {y!r}"
        return None if x == y else f"{at}: {x!r} is written as {y!r}"
    if k != v[0]:
        return f"{at}: {show(w)[:120]} is written as {show(v)[:120]}"
    if k == "str":
        return None if text_eq(w[1], v[1]) else f"{at}: the string denotes {T.show(v[1])!r} instead of {T.show(w[1])!r}"
    if k == "raw":
        return None if T.norm(w[1]) == T.norm(v[1]) else f"{at}: another expression"
    if k == "arr":
        if len(w[1]) != len(v[1]):
            return f"{at}: {len(v[1])} elements written, {len(w[1])} expected"
        for i, (a, b) in enumerate(zip(w[1], v[1])):
            d = match(a, b, f"{at}[{i}]")
            if d:
                return d
        return None
    if k == "obj":
        return props(w[1], v[1], at)
    if k == "el":
        if w[1] != v[1] or not text_eq(w[2], v[2]):
            return f"{at}: element {T.show(v[2])} ({'a component' if v[1] == 'comp' else 'a tag'}) instead of {T.show(w[2])} ({'a component' if w[1] == 'comp' else 'a tag'})"
        n = f"{at}<{T.show(w[2])}>"
        d = props(w[3], v[3], n)
        if d:
            return d
        if len(w[4]) != len(v[4]):
            return f"{n}: {len(v[4])} children written, {len(w[4])} expected"
        for i, (a, b) in enumerate(zip(w[4], v[4])):
            d = match(a, b, f"{n} child {i}")
            if d:
                return d
        return None
    raise ValueError(k)


def props(want_, got, at, loose=False):
    def find(k, items):
        return [v for a, v in items if (text_eq(k, a) if not loose else clean(k) == clean(a))]

    def clean(k):
        c = T.const(k)
        return "".join(x for x in c.strip().lower() if x != "-") if c is not None else T.norm(k)
    for k, v in want_:
        f = find(k, got)
        if len(f) != 1:
            return f"{at}: prop {T.show(k)} is written {len(f)} times; props written: {[T.show(a) for a, _ in got]}"
        if loose and v[0] == "str" and f[0][0] == "str" and T.const(v[1]) is not None and T.const(f[0][1]) is not None:
            if T.const(v[1]).strip() != T.const(f[0][1]).strip():
                return f"{at}: style {T.show(k)} is {T.show(f[0][1])}"
            continue
        d = match(v, f[0], f"{at} prop {T.show(k)}")
        if d:
            return d
    if len(got) != len(want_) or not loose and any(not text_eq(a, b) for (a, _), (b, _) in zip(want_, got)):
        return f"{at}: props written: {[T.show(a) for a, _ in got]}, expected {[T.show(k) for k, _ in want_]}"
    if loose and [clean(a) for a, _ in got] != [clean(k) for k, _ in want_]:
        return f"{at}: style declarations in another order: {[T.show(a) for a, _ in got]}, expected {[T.show(k) for k, _ in want_]}"
    return None


# ------------------------------------------------------------------ what conversion yields
CE = "React.createElement("


def fn_loc():
    return T.CUR_LOC[0]


def the_script(r):
    if not (isinstance(r, E.Inst) and r.cls.issub(g("Tag"))) or T.const(getattr_(r, "name")) != "script":
        raise Bad(f"conversion gives {E.cls_of(r).name}{' <' + T.show(getattr_(r, 'name')) + '>' if isinstance(r, E.Inst) and r.cls.issub(g('Tag')) else ''}, not one <script> element", None)
    return r


def expression(text, sp):
    """the createElement expression inside a rendered text"""
    ps = T._resolve_parts(T.parts_of(text))
    ps = list(T.merge_lits(ps)) if hasattr(T, "merge_lits") else list(ps)
    for i, p in enumerate(ps):
        if p[0] == "L" and CE in p[1]:
            j = p[1].index(CE)
            rest = [("L", p[1][j:], p[2])] + ps[i + 1:]
            r = Reader(rest, raws(want(sp), []))
            try:
                v = r.value()
                r.ws()
                tail = "".join(x for x in r.ps[r.i:] if isinstance(x, str))
                if CE in tail:
                    r.fail("a second React.createElement expression")
            except NotJS as e:
                raise Bad(f"the generated script is not well-formed: {e}", fn_loc())
            return v
    raise Bad("no React.createElement expression is generated", fn_loc())


def mirror(text, sp):
    d = match(want(sp), expression(text, sp), "expression")
    if d:
        raise Bad(f"the generated expression does not mirror the component: {d}", fn_loc())


def metadata_of(r):
    return [x for x in E.tolist(getattr_(r, "children")) if isinstance(x, E.Inst) and x.cls.issub(g("MetadataNode"))]


def react_deps(fail, deps):
    seen = {}
    for d in deps:
        if d.cls.issub(g("HTMLDependency")):
            seen.setdefault(T.const(getattr_(d, "name")), d)
    vs = None
    try:
        vs = getattr_(mod("htmltools._versions"), "versions")
    except (AnchorMissing, Raised):
        pass
    for pkg in ("react", "react-dom"):
        d = seen.get(pkg)
        if d is None:
            fail(f"the dependency {pkg} is missing")
        if vs is not None and E.truth(E.contains(vs, pkg)) and T.norm(str_(getattr_(d, "version"))) != T.norm(str_(getitem(vs, pkg))):
            fail(f"{pkg} has version {T.show(str_(getattr_(d, 'version')))}, the packaged one is {T.show(str_(getitem(vs, pkg)))}")
        src = getattr_(d, "source")
        sub = T.const(getitem(src, "subdir")) if E.truth(E.contains(src, "subdir")) else None
        pk = getitem(src, "package") if E.truth(E.contains(src, "package")) else None
        if sub is None or T.const(pk) != "htmltools":
            fail(f"{pkg} does not come from the package's own files")
        scripts = E.tolist(getattr_(d, "script"))
        if not scripts:
            fail(f"{pkg} carries no script")
        for s in scripts:
            f = os.path.join(api.REPO, "htmltools", sub, T.const(getitem(s, "src")))
            if not os.path.isfile(f):
                fail(f"{pkg}: {os.path.relpath(f, api.REPO)} is not in the package")


def surfaced(r, sp):
    def fail(msg):
        raise Bad(f"conversion: {msg}", fn_loc())
    ms = metadata_of(r)
    for d in E.tolist(m(r, "get_dependencies", dedup=False)):
        if not any(d is x for x in ms):
            ms.append(d)
    react_deps(fail, ms)
    own = {"react", "react-dom"}
    req, pos = metas(sp)
    have = [key(x) for x in ms]
    for x in req:
        if key(build(x)) not in have:
            fail(f"a metadata node of the tree does not surface: {label(x)}")
    allowed = [key(build(x)) for x in req + pos]
    for x, k in zip(ms, have):
        if k not in allowed and not (x.cls.issub(g("HTMLDependency")) and T.const(getattr_(x, "name")) in own):
            fail(f"a metadata node surfaces that is not in the tree: {label(x)}")


def key(x):
    return struct(x)


def label(x):
    if isinstance(x, Sp):
        return f"{x.t[0]} {x.t[1]}" if x.k == "dep" else f"{x.k} {x.t}"
    return T.show(getattr_(x, "name")) if x.cls.issub(g("HTMLDependency")) else x.cls.name


def convert(o, how):
    if how == "tagify":
        return m(o, "tagify")
    if how == "str":
        return str_(o)
    if how == "repr":
        return call(E.BUILTINS["repr"], [o])
    if how == "html":
        return m(o, "_repr_html_")
    if how == "render":
        return m(tag("div", o), "render")
    if how == "document":
        return m(doc(o, "x"), "render")
    if how == "list":
        return str_(tl("a", o))
    if how == "tagify parent":
        return m(tl(tag("p", o)), "tagify")


HOWS = ("tagify", "str", "repr", "html", "render", "document", "list", "tagify parent")


def whole(env, sp, deep=True):
    """everything the property says about one component tree"""
    o = build(sp)
    before = Snap(o)

    def unchanged(what):
        d = path_diff(before.text, Snap(o).text)
        if d:
            raise Bad(f"{what} changes the component: {d.replace('value[0]', 'component')}", fn_loc())
    r = the_script(m(o, "tagify"))
    unchanged("tagify()")
    mirror(str_(r), sp)
    surfaced(r, sp)
    first = struct(r)
    for how in HOWS if deep else ("str", "tagify"):
        x = convert(o, how)
        unchanged({"str": "str()", "repr": "repr()", "tagify": "tagify() again"}.get(how, f"conversion ({how})"))
        if how in ("str", "repr", "html"):
            if T.norm(x) != T.norm(str_(r)):
                raise Bad(f"{how} of a component is not the text of its conversion", fn_loc())
        elif how == "tagify":
            d = path_diff(first, struct(x))
            if d:
                raise Bad(f"the second conversion differs: {d}", fn_loc())
        elif how == "render":
            names = [T.const(getattr_(d, "name")) for d in E.tolist(getitem(x, "dependencies"))]
            for q in ["react", "react-dom"] + [s.t[0] for s in metas(sp)[0] if s.k == "dep"]:
                if T.const(q) not in names:
                    raise Bad(f"rendering a tag with the component: the dependency {T.show(q)} is missing", fn_loc())
            mirror(getitem(x, "html"), sp)
        elif how == "document":
            names = [T.const(getattr_(d, "name")) for d in E.tolist(getitem(x, "dependencies"))]
            if "react" not in names or "react-dom" not in names:
                raise Bad("rendering a document with the component: react is missing", fn_loc())
        elif how == "list":
            mirror(x, sp)
    d = path_diff(first, struct(m(o, "tagify")))
    if d:
        raise Bad(f"a later conversion differs: {d}", fn_loc())
    unchanged("conversion")


# ------------------------------------------------------------------ trees
def kid_kinds(e):
    """one child of each kind, each with something below it"""
    return {
        "text": lambda i: Tx(e.sym(f"t{i}", **PLAIN)), "empty text": lambda i: Tx(""), "blank": lambda i: Tx(" "), "quote": lambda i: Tx('a "b" \'c\' </b> & ${x} `q` //x'), "number": lambda i: V(i), "true": lambda i: Tx("true"),
        "none": lambda i: NONE, "jsx": lambda i: Jx(f"f({i})"), "tag": lambda i: H("p", f"p{i}", Dp(f"tag-dep{i}"), C("In", Dp(f"in-dep{i}")), id=f"i{i}"), "empty tag": lambda i: H("br"), "comp": lambda i: C("Bar", f"b{i}", Dp(f"comp-dep{i}"), x=i), "empty comp": lambda i: C("Bar"),
        "dep": lambda i: Dp(f"dep{i}", "1.2", head=Tx("<x>")), "meta": lambda i: Me(f"m{i}"), "expand list": lambda i: Ex(f"e{i}", H("i", Dp(f"exp-dep{i}")), C("Exp", Dp(f"exp-comp-dep{i}"), q=i), Dp(f"exp-own-dep{i}"), Me(f"exp-m{i}")), "expand tag": lambda i: Ex(H("i", "x", Dp(f"expt-dep{i}"), C("T"), a=f"{i}"), one=True), "expand comp": lambda i: Ex(C("X", Dp(f"expc-dep{i}"), p=H("b", Dp(f"expc-prop-dep{i}"))), one=True), "expand dep": lambda i: Ex(Dp(f"expd-dep{i}"), one=True), "expand empty": lambda i: Ex(),
        "list": lambda i: Ls("l", None, Ls(C("L", Dp(f"list-dep{i}")))), "taglist": lambda i: Ls("m", C("M"), Dp(f"tl-dep{i}"), k="tl"), "tuple": lambda i: Ls("n", H("u"), k="tup"),
    }


def value_kinds(e):
    return {
        "none": lambda i: NONE, "true": lambda i: V(True), "false": lambda i: V(False), "zero": lambda i: V(0), "one": lambda i: V(1), "int": lambda i: V(-12), "big": lambda i: V(10**25), "float": lambda i: V(1.5), "whole float": lambda i: V(2.0), "minus": lambda i: V(-0.25), "small": lambda i: V(1e-9), "large": lambda i: V(1e30), "precise": lambda i: V(0.1 + 0.2), "long": lambda i: V(123456789.123), "sixteen": lambda i: V(1234567890123456), "minus zero": lambda i: V(-0.0), "inf": lambda i: V(math.inf), "minus inf": lambda i: V(-math.inf), "nan": lambda i: V(math.nan),
        "text": lambda i: Tx(e.sym(f"v{i}", **PLAIN)), "empty": lambda i: Tx(""), "number text": lambda i: Tx("1"), "true text": lambda i: Tx("true"), "null text": lambda i: Tx("null"), "quote": lambda i: Tx('say "x" \'y\' <b>&amp;</b>'), "unicode": lambda i: Tx("é日𝒳\u200b\xa0"), "html like": lambda i: Tx("<!-- </script x"),
        "jsx": lambda i: Jx(f"() => {{ return [{i}, \"a\", 'b']; }}"), "jsx symbol": lambda i: Jx(T.concat("f(", e.sym(f"j{i}", excl="\n"), ")")), "jsx open": lambda i: Jx(e.sym(f"j{i}", excl="\n")), "jsx two": lambda i: Jx("a => {", f"  return {i}", "}"), "jsx backslash": lambda i: Jx('"\\\\" + "\\""'), "jsx empty": lambda i: Jx("0"),
        "list": lambda i: Ls(1, "a", None, True, 2.5, Jx("g()")), "empty list": lambda i: Ls(), "nested list": lambda i: Ls(Ls(1, Ls("x"), ()), {"k": [1]}), "tuple": lambda i: Ls(1, "a", k="tup"), "empty tuple": lambda i: Ls(k="tup"),
        "list of tags": lambda i: Ls(H("i", "x", id="q"), C("L", y=1)), "dict": lambda i: Di(("b", 1), ("a", "x"), ("n", None), ("f", False), ("j", Jx("h()"))), "empty dict": lambda i: Di(), "nested dict": lambda i: Di(("style", "a:b"), ("d", {"e": [None, {"g": "h"}]})), "dict odd keys": lambda i: Di(('a"b', 1), ("a-b", 2), ("a_b_", 3), ("", 4), ("class", 5)), "dict of tags": lambda i: Di(("t", H("i")), ("c", C("L", "k"))), "dict symbol": lambda i: Di(("k", e.sym(f"d{i}", **PLAIN))), "dict symbol key": lambda i: Di((e.sym(f"dk{i}", **PLAIN), 1)),
        "tag": lambda i: H("p", "x", H("b", Dp(f"ptag-dep{i}")), C("In", Dp(f"pin-dep{i}"), z=H("s", Dp(f"pp-dep{i}"))), id="i"), "empty tag": lambda i: H("br"), "comp": lambda i: C("P", "y", Dp(f"pcomp-dep{i}"), Me(f"pm{i}"), w=C("W", Dp(f"pw-dep{i}"))), "empty comp": lambda i: C("P"),
        "expand tag": lambda i: Ex(H("i", Dp(f"pexp-dep{i}"), Ex(C("Deep", Dp(f"deep{i}")), one=True)), one=True), "expand comp": lambda i: Ex(C("X", Dp(f"pexc-dep{i}"), 1), one=True), "tag of expand": lambda i: H("p", Ex("x", H("q", Dp(f"pte-dep{i}")))), "expand list": lambda i: Ex("s", H("q", Dp(f"pl-dep{i}"))),
        "taglist": lambda i: Ls("s", H("q"), k="tl"), "expand list with own": lambda i: Ex("s", Dp(f"own-dep{i}"), H("q")),
    }


def scenarios(tier):
    preload()
    out = []

    def add(n, f, **k):
        out.append(Scenario(n, f, **k))

    class NoSym:
        def sym(self, n, **k):
            return n
    kk, vk = list(kid_kinds(NoSym())), list(value_kinds(NoSym()))
    # ---- one child, one prop
    for k in kk:
        for host, mk in (("component", lambda *a: C("Foo", *a)), ("tag", lambda *a: C("Foo", H("p", *a, id="k"))), ("inner", lambda *a: C("Foo", C("In", *a, x=1))), ("prop tag", lambda *a: C("Foo", p=H("p", *a))), ("prop component", lambda *a: C("Foo", p=C("In", *a))), ("expansion", lambda *a: C("Foo", Ex(H("p", *a), "z")))):
            add(f"child/{k}/{host}", lambda env, k=k, mk=mk: whole(env, mk(kid_kinds(env)[k](1))))
    for v in vk:
        for host, mk in (("component", lambda x: C("Foo", p=x)), ("inner", lambda x: C("Foo", "t", C("In", p=x))), ("below a tag", lambda x: C("Foo", H("p", C("In", p=x)))), ("in a prop", lambda x: C("Foo", q=C("In", p=x))), ("second", lambda x: C("Foo", "c", a=1, p=x, z="z"))):
            add(f"prop/{v}/{host}", lambda env, v=v, mk=mk: whole(env, mk(value_kinds(env)[v](1))))
        if v in ("list", "dict", "text", "none", "true", "jsx", "float", "tag", "comp", "nan"):
            add(f"prop/{v}/in a list", lambda env, v=v: whole(env, C("Foo", p=Ls("a", listed(value_kinds(env)[v](1)), 2))))
            add(f"prop/{v}/in a dict", lambda env, v=v: whole(env, C("Foo", p=Di(("k", listed(value_kinds(env)[v](1))), ("l", 2)))))

    def listed(x):
        # metadata below a list is outside the property: without it
        return x

    # ---- pairs of neighbours; every way of adding
    sub = ["text", "none", "tag", "comp", "dep", "expand list", "expand dep", "jsx", "list", "empty text", "meta", "number"]
    for a in sub:
        for b in sub:
            add(f"pair/{a}+{b}", lambda env, a=a, b=b: whole(env, C("Foo", kid_kinds(env)[a](1), kid_kinds(env)[b](2), p=1), deep=False))
    for how in ("args", "list", "append", "append all", "extend", "extend gen", "insert", "children append", "setitem", "replace children", "late props", "update props"):
        for where_ in ("component", "inner", "tag", "prop"):
            def added(env, how=how, where_=where_):
                ks = kid_kinds(env)
                kids = [ks[n](i) for i, n in enumerate(("text", "tag", "comp", "dep", "text", "jsx"))] if how == "setitem" else [ks[n](i) for i, n in enumerate(("tag", "text", "dep", "comp", "expand list", "none", "list", "meta", "jsx"))]
                pr = [("a_b", 1), ("class_", "x"), ("z", Jx("q"))]
                if where_ == "tag":
                    if how in ("late props", "update props"):
                        return
                    sp = C("Foo", H("p", *kids, how=how, id="i"))
                elif where_ == "component":
                    sp = CP("Foo", pr, *kids, how=how)
                elif where_ == "inner":
                    sp = C("Foo", CP("In", pr, *kids, how=how))
                else:
                    sp = C("Foo", p=CP("In", pr, *kids, how=how))
                whole(env, sp, deep=False)
            add(f"added/{how}/{where_}", added)

    # ---- prop names
    NAMES = ["a", "a_", "a_b", "a_b_", "class_", "for_", "_a", "__a", "a__", "_", "data_x_y", "a_b_c_d_e_f_g_h", "a__b___c", "onClick", "aria_label", "A", "style_x", "children", "key", "ref", "name", "type", "id", "dangerouslySetInnerHTML", "self_", "args", "kwargs", "x1", "e\u0301", "None_"]
    for n in NAMES:
        if n == "_":
            continue
        add(f"name/{n}", lambda env, n=n: whole(env, CP("Foo", [(n, "v"), ("other", 1)], "c", CP("In", [("other", 2), (n, env.sym("s", **PLAIN))]))))

    def twice(env, how):
        """two spellings of one name: once, the later value"""
        if how == "keywords":
            o = comp("Foo", [], [("a_b", 1), ("a_b_", 2)])
        elif how == "later":
            o = comp("Foo", [], [("a_b", 1)])
            E.setitem(getattr_(o, "attrs"), "a-b", 2)
        else:
            o = comp("Foo", [], [("a_b", 1), ("x", 3)])
            m(getattr_(o, "attrs"), "update", mkdict([("a-b", 2)]))
        sp = CP("Foo", [("a_b", 2)] + ([("x", 3)] if how == "update" else []))
        mirror(str_(o), sp)
    for how in ("keywords", "later", "update"):
        add(f"name twice/{how}", lambda env, how=how: twice(env, how))

    # ---- component names, many children, depth
    for n in ("Foo", "F", "Foo.Bar", "foo.bar.Baz", "FooBar9", "_Foo", "$Foo"):
        add(f"component name/{n}", lambda env, n=n: whole(env, C(n, C(n), H("p", C(n)), p=C(n)), deep=False))
    add("component name/symbol", lambda env: whole(env, C(T.concat("F", env.sym("n", only="abcXYZ09_")), "x", C(T.concat("G", env.sym("k", only="abcXYZ09_"))), a=1), deep=False))
    add("tag name/symbol", lambda env: whole(env, C("Foo", H(T.concat("x-", env.sym("n", only="abc09-")), "x")), deep=False))
    sizes = sorted({0, 1, 2, 3, 4, 5, 6, 8, 10, 17, 33} | {c + 1 for c in int_thresholds({FILE}) if c <= 64})
    for n in sizes:
        add(f"many/{n}", lambda env, n=n: whole(env, CP("Foo", [(f"p{i}", [i, f"s{i}", None][i % 3]) for i in range(n)], *[[f"c{i}", H("p", f"q{i}"), C("Bar", Dp(f"d{i}"))][i % 3] for i in range(n)]), deep=False))

        def nested(env, n):
            sp = C("Leaf", Dp("leaf"), x=Jx("q"))
            for i in range(n):
                sp = [lambda s: H("p", "a", s, "b"), lambda s: C("Box", s), lambda s: C("Box", "t", p=s), lambda s: C("Box", Ex("u", s)), lambda s: C("Box", Ls(s))][i % 5](sp)
            whole(env, C("Root", sp), deep=False)
        if n <= 20:
            add(f"deep/{n}", lambda env, n=n: nested(env, n))
    for n in (3, 4, 8, 12):
        add(f"deep tags/{n}", lambda env, n=n: whole(env, C("Foo", wrap(n, lambda s: H("p", s), H("q", Dp("leaf"), "x"))), deep=False))
        add(f"deep components/{n}", lambda env, n=n: whole(env, C("Foo", wrap(n, lambda s: C("Box", s), C("Leaf", Dp("leaf")))), deep=False))
        add(f"deep props/{n}", lambda env, n=n: whole(env, C("Foo", wrap(n, lambda s: C("Box", p=s), C("Leaf", Dp("leaf")))), deep=False))
        add(f"deep expansions/{n}", lambda env, n=n: whole(env, C("Foo", wrap(n, lambda s: H("p", Ex(s, one=True)), C("Leaf", Dp("leaf")))), deep=False))
        add(f"deep values/{n}", lambda env, n=n: whole(env, C("Foo", p=wrap(n, lambda s: Ls(s), Jx("q"))), deep=False))
        add(f"deep dicts/{n}", lambda env, n=n: whole(env, C("Foo", p=wrap(n, lambda s: Di(("k", s), ("l", 1)), Tx('"'))), deep=False))

    def wrap(n, f, x):
        for _ in range(n):
            x = f(x)
        return x

    # ---- strings with many quotes, long strings, at every place a string can be
    PLACES = {
        "child": lambda t: C("Foo", Tx(t)), "two children": lambda t: C("Foo", Tx(t), "x", Tx(t)), "tag child": lambda t: C("Foo", H("p", Tx(t))), "inner child": lambda t: C("Foo", C("In", Tx(t))), "prop": lambda t: C("Foo", p=Tx(t)), "two props": lambda t: C("Foo", p=Tx(t), q=Tx(t)), "inner prop": lambda t: C("Foo", C("In", p=Tx(t))), "prop child": lambda t: C("Foo", p=C("In", Tx(t), H("i", Tx(t)))),
        "list item": lambda t: C("Foo", p=Ls(Tx(t), 1, Tx(t))), "tuple item": lambda t: C("Foo", p=Ls(Tx(t), k="tup")), "dict value": lambda t: C("Foo", p=Di(("k", Tx(t)))), "dict key": lambda t: C("Foo", p=Di((t, 1))), "style value": lambda t: C("Foo", style=Di(("a", Tx(t)))), "tag attribute": lambda t: C("Foo", H("p", "x", title=Tx(t))), "prop tag attribute": lambda t: C("Foo", p=H("p", title=Tx(t))), "expansion": lambda t: C("Foo", Ex(Tx(t), H("i"))), "list child": lambda t: C("Foo", Ls(Tx(t), Ls(Tx(t)))),
        "prop expansion": lambda t: C("Foo", p=Ex(H("p", Tx(t)), one=True)),
    }
    counts = sorted({1, 2, 3, 4, 5, 7, 9, 12, 17, 33, 65, 101, 129, 257} | {c + d for c in int_thresholds({FILE}) if c <= 5000 for d in (0, 1, 2)})

    def strings(env, place):
        for n in counts:
            for t in ('"' * n, 'a"' * n, '"b ' * n, "'" * n, "x" * n, " " * n, "é" * n, "&" * n, '"' + "x" * n, "x" * n + '"', "a,b;" * n, "a: b " * n, "</p>" * n, "{}" * n, "%s" * n, "$&" * n):
                sp = PLACES[place](t)
                mirror(str_(build(sp)), sp)
    for pl in PLACES:
        add(f"strings/{pl}", lambda env, pl=pl: strings(env, pl))

    # ---- collections of every size and nesting
    def coll(env, v, host):
        hosts = {"prop": lambda x: C("Foo", p=x), "two": lambda x: C("Foo", "c", p=x, q=x), "list": lambda x: C("Foo", p=Ls(x)), "tuple": lambda x: C("Foo", p=Ls(x, k="tup")), "dict": lambda x: C("Foo", p=Di(("k", x))), "inner": lambda x: C("Foo", H("p", C("In", p=x))), "style": lambda x: C("Foo", style=Di(("k", x))), "prop component": lambda x: C("Foo", q=C("In", p=x)), "mixed": lambda x: C("Foo", p=Ls("a", x, Di(("b", x))))}
        items = {"text": lambda i: Tx(env.sym(f"c{i}", **PLAIN)) if i < 3 else Tx(f"t{i}"), "number": lambda i: V(i), "none": lambda i: NONE, "tag": lambda i: H("i", f"x{i}"), "comp": lambda i: C("L", f"y{i}"), "list": lambda i: Ls(f"z{i}"), "tuple": lambda i: Ls(i, k="tup"), "empty": lambda i: Ls(), "dict": lambda i: Di((f"w{i}", i)), "jsx": lambda i: Jx(f"f({i})"), "false": lambda i: V(False), "empty text": lambda i: Tx("")}
        for n in sorted({0, 1, 2, 3, 4} | ({c + d for c in int_thresholds({FILE}) if 4 <= c <= 40 for d in (0, 1)} if v in ("text", "number") and host == "prop" else set())):
            for k in ("list", "tup"):
                sp = hosts[host](Ls(*[items[v](i) for i in range(n)], k=k))
                mirror(str_(build(sp)), sp)
            sp = hosts[host](Di(*[(f"k{i}", items[v](i)) for i in range(n)]))
            mirror(str_(build(sp)), sp)
    for v in ("text", "number", "none", "tag", "comp", "list", "tuple", "empty", "dict", "jsx", "false", "empty text"):
        for host in ("prop", "two", "list", "tuple", "dict", "inner", "style", "prop component", "mixed"):
            add(f"collection/{v}/{host}", lambda env, v=v, host=host: coll(env, v, host))

    # ---- names left open: of components, tags, dependencies, props, attributes
    NM = "abcxyzABCXYZ019"
    CN = lambda env, i: T.concat("F", env.sym(f"cn{i}", only=NM))
    DN = lambda env, i: env.sym(f"dn{i}", only=NM + "-._", nonempty=True)
    OPEN = {
        "dependency child": lambda e: C(CN(e, 1), Dp(DN(e, 1))), "dependencies": lambda e: C(CN(e, 1), Dp(DN(e, 1)), "x", Dp(DN(e, 2), "2")), "dependency prop component": lambda e: C(CN(e, 1), p=C(CN(e, 2), Dp(DN(e, 1)))), "dependency prop tag": lambda e: C(CN(e, 1), p=H("i", Dp(DN(e, 1)))), "dependency tag": lambda e: C(CN(e, 1), H(e.sym("tn1", only=NM, nonempty=True), Dp(DN(e, 1)))), "dependency expansion": lambda e: C(CN(e, 1), Ex(Dp(DN(e, 1)), "x")), "dependency own expansion": lambda e: C(CN(e, 1), Ex(Dp(DN(e, 1)), one=True)),
        "dependency deep": lambda e: C(CN(e, 1), H("p", C(CN(e, 2), Ls("x", Dp(DN(e, 1))), x=1))), "dependency full": lambda e: C(CN(e, 1), Dp(DN(e, 1), "1.2", head=Tx(e.sym("dh", **PLAIN)), meta=Di(("name", e.sym("mn", **PLAIN)), ("content", e.sym("mc", **PLAIN))))),
        "prop": lambda e: CP(CN(e, 1), [(PN(e, 1), Tx(e.sym("pv1", **PLAIN)))]), "props": lambda e: CP(CN(e, 1), [(PN(e, 1), Tx(e.sym("pv1", **PLAIN))), (PN(e, 2), V(1))], "c"), "prop number": lambda e: CP("Foo", [(PN(e, 1), V(2))]), "prop none": lambda e: CP("Foo", [(PN(e, 1), NONE)]), "prop true": lambda e: CP("Foo", [(PN(e, 1), V(True))]), "prop false": lambda e: CP("Foo", [(PN(e, 1), V(False))], "c"), "prop list": lambda e: CP("Foo", [(PN(e, 1), Ls("a", 1))]), "prop dict": lambda e: CP("Foo", [(PN(e, 1), Di((e.sym("dk", **PLAIN), Tx(e.sym("dv", **PLAIN)))))]), "prop jsx": lambda e: CP("Foo", [(PN(e, 1), Jx("f()"))], H("p")), "prop tag": lambda e: CP("Foo", [(PN(e, 1), H("i", "x", Dp("d")))]), "prop component": lambda e: CP("Foo", [(PN(e, 1), C(CN(e, 2), "x", Dp("d")))]), "prop expansion": lambda e: CP("Foo", [(PN(e, 1), Ex(H("i", Dp("d")), one=True))]),
        "prop after style": lambda e: CP("Foo", [("style", Tx("a:b")), (PN(e, 1), Tx("c:d"))]), "prop inner": lambda e: C("Foo", CP(CN(e, 2), [(PN(e, 1), Tx(e.sym("pv1", **PLAIN)))], "k")), "attribute": lambda e: C("Foo", Sp("html", e.sym("tn1", only=NM, nonempty=True), [Tx("x")], [(PN(e, 1), Tx(e.sym("av1", **PLAIN)))])), "attribute prop tag": lambda e: C("Foo", p=Sp("html", "p", [], [(PN(e, 1), Tx(e.sym("av1", **PLAIN)))])), "attributes": lambda e: C("Foo", Sp("html", "p", [], [(PN(e, 1), Tx(e.sym("av1", **PLAIN))), (PN(e, 2), Tx(e.sym("av2", **PLAIN)))])),
        "tags": lambda e: C("Foo", H(e.sym("tn1", only=NM, nonempty=True), "x"), H(e.sym("tn2", only=NM, nonempty=True), H("i")), p=H(e.sym("tn3", only=NM, nonempty=True))), "components": lambda e: C(CN(e, 1), C(CN(e, 2), "x"), p=C(CN(e, 3))), "texts": lambda e: C("Foo", Tx(e.sym("s1", **PLAIN)), Tx(e.sym("s2", **PLAIN)), H("p", Tx(e.sym("s3", **PLAIN)))), "text props": lambda e: C("Foo", a=Tx(e.sym("s1", **PLAIN)), b=Tx(e.sym("s2", **PLAIN))), "style entries": lambda e: C("Foo", style=Di((e.sym("sk1", **PLAIN), Tx(e.sym("sv1", **PLAIN))))), "dict entries": lambda e: C("Foo", p=Di(("a", Tx(e.sym("s1", **PLAIN))), (anykey(e, "sk1", "a"), Tx(e.sym("s2", **PLAIN))))),
    }

    def anykey(env, n, *others):
        k = env.sym(n, **PLAIN)
        if any(E.truth(E.eq_(k, o)) for o in others):
            raise T.Infeasible()
        return k

    def PN(env, i):
        """a prop name: any but those given before, style and those python reserves"""
        k = env.sym(f"pn{i}", only=NM + "-", nonempty=True)
        for o in ["style", "self", "allowedProps"] + [env.sym(f"pn{j}", only=NM + "-", nonempty=True) for j in range(1, i)]:
            if E.truth(E.eq_(k, o)):
                raise T.Infeasible()
        return k
    for n, f in OPEN.items():
        add(f"open/{n}", lambda env, f=f: whole(env, f(env), deep=False))

    # ---- one name for several things
    def same_names(env, n):
        for c in dict.fromkeys((n.capitalize(), n.upper(), n.title())):
            for d in dict.fromkeys((c, n.lower(), n.upper(), n, c + "-js", c.lower() + "js", "lib" + n)):
                for ver in ("1.0", "99"):
                    whole(env, C(c, Dp(d, ver)), deep=False)
                    whole(env, C(c, "x", H(n.lower(), Dp(d, ver), d), p=C(c, Dp(d + "2", ver))), deep=False)
                    whole(env, CP(c, [(d.replace("-", "_"), d)] if d.replace("-", "").isalnum() else [], Dp(d, ver), d, C(c, Tx(c), Ex(Dp(d + "3", ver), d))), deep=False)
    for n in ("foo", "a", "script", "p", "div", "style", "head", "html", "react", "dependency", "container", "null", "true", "none"):
        add(f"same names/{n}", lambda env, n=n: same_names(env, n))

    # ---- attributes of nested tags
    for n, a in {"class": dict(class_="a b"), "style": dict(style="color:red; margin : 0"), "both": dict(style="a:b;", id="x", class_="c"), "text": dict(title='q "r"'), "number": dict(x=Tx("1"))}.items():
        add(f"tag attributes/{n}", lambda env, a=a: whole(env, C("Foo", H("p", "x", **a), p=H("q", **a)), deep=False))
    add("tag attributes/symbol", lambda env: whole(env, C("Foo", H("p", "x", title=Tx(env.sym("s", **PLAIN))), p=H("q", alt=Tx(env.sym("t", **PLAIN)))), deep=False))

    def tag_attrs_values(env):
        o = comp("Foo", [tag("p", hidden=True, tabindex=3, x=1.5, y=None, z=False)])
        sp = C("Foo", H("p", hidden=Tx(""), tabindex=Tx("3"), x=Tx("1.5")))
        mirror(str_(o), sp)
    add("tag attributes/values", tag_attrs_values)

    def tag_attrs_html(env):
        """attributes that are HTML()"""
        o = comp("Foo", [m(tag("p", title=call(g("HTML"), ["t"])), "add_style", call(g("HTML"), ["a:b;"]))])
        mirror(str_(o), C("Foo", H("p", title=Tx("t"), style=Tx("a:b;"))))
    add("tag attributes/html", tag_attrs_html)

    # ---- style
    STYLES = {"string": Tx("color:red"), "string two": Tx("color:red; font-size : 12px;"), "string colon": Tx("background:url(http://x/y);a:b"), "string three": Tx("margin:0; margin-top:1px;b:c"), "string twice": Tx("color:red;color:blue"), "empty": Tx(""), "dict": Di(("color", "red"), ("fontSize", 12), ("x", None)), "empty dict": Di(), "none": NONE, "jsx": Jx("{color: theme.main}"), "jsx call": Jx("styleOf(1)"), "dict jsx": Di(("color", Jx("c()")))}
    for n, v in STYLES.items():
        for host, mk in (("component", lambda x: C("Foo", style=x)), ("with others", lambda x: C("Foo", "k", a=1, style=x, b=2)), ("inner", lambda x: C("Foo", H("p", C("In", style=x)))), ("spelled", lambda x: CP("Foo", [("style_", x)]))):
            add(f"style/{n}/{host}", lambda env, v=v, mk=mk: whole(env, mk(v), deep=False))
    add("style/symbol", lambda env: whole(env, C("Foo", style=Di(("color", env.sym("s", **PLAIN)))), deep=False))
    add("style/symbol string", lambda env: whole(env, C("Foo", style=Tx(T.concat("color:", env.sym("s", excl=PLAIN["excl"] + ";:"), ";"))), deep=False))
    # ---- jsx() arithmetic and str subclasses
    def jsx_sum(env):
        a = E.binop("Add", jx("f(1)"), jx(" + g(2)"))
        mirror(str_(comp("Foo", [], [("p", a)])), C("Foo", p=Jx("f(1) + g(2)")))
        mirror(str_(comp("Foo", [user("MyStr", "t")], [("p", user("MyStr", 'v"w'))])), C("Foo", "t", p='v"w'))
    add("jsx sums", jsx_sum)

    # ---- shared parts and histories
    def shared(env, k):
        ks = kid_kinds(env)
        sp = ks[k](1)
        x = build(sp)
        o = comp("Foo", [x, tag("p", x), comp("In", [x])], [("p", x)] if k in ("tag", "comp", "empty tag", "empty comp") else [])
        whole_of(o, C("Foo", sp, H("p", sp), C("In", sp), **({"p": sp} if k in ("tag", "comp", "empty tag", "empty comp") else {})))
        whole_of(comp("Other", [x]), C("Other", sp))
        whole_of(o, C("Foo", sp, H("p", sp), C("In", sp), **({"p": sp} if k in ("tag", "comp", "empty tag", "empty comp") else {})))

    def whole_of(o, sp):
        s = Snap(o)
        r = the_script(m(o, "tagify"))
        d = path_diff(s.text, Snap(o).text)
        if d:
            raise Bad(f"tagify() changes the component: {d.replace('value[0]', 'component')}", fn_loc())
        mirror(str_(r), sp)
        surfaced(r, sp)
    for k in kk:
        add(f"shared/{k}", lambda env, k=k: shared(env, k))

    def histories(env, order):
        """converted, changed, converted again; other components in between"""
        a, b = comp("Foo", ["x", dep("one")], [("p", 1)]), comp("Bar", [tag("p", dep("two"))], [("q", tag("i", dep("three")))])
        sa, sb = C("Foo", "x", Dp("one"), p=1), C("Bar", H("p", Dp("two")), q=H("i", Dp("three")))
        T.P().nd = order
        whole_of(a, sa)
        whole_of(b, sb)
        whole_of(a, sa)
        m(a, "append", tag("u", dep("four")), "y")
        E.setitem(getattr_(a, "attrs"), "r_s", jx("z"))
        sa2 = C("Foo", "x", Dp("one"), H("u", Dp("four")), "y", p=1, r_s=Jx("z"))
        whole_of(a, sa2)
        whole_of(b, sb)
        m(a, "append", b)
        sa3 = C("Foo", "x", Dp("one"), H("u", Dp("four")), "y", sb, p=1, r_s=Jx("z"))
        whole_of(a, sa3)
        r = m(a, "tagify")
        m(r, "append", "more", dep("extra"))
        m(getattr_(r, "attrs"), "update", D(id="i"))
        whole_of(a, sa3)
        for d in metadata_of(m(a, "tagify")):
            setattr_(d, "name", "renamed")
        whole_of(a, sa3)
        E.delitem(getattr_(a, "attrs"), "p")
        m(getattr_(a, "children"), "pop")
        whole_of(a, C("Foo", "x", Dp("one"), H("u", Dp("four")), "y", r_s=Jx("z")))
        c = call(getattr_(E.import_module("copy"), "copy"), [a])
        m(c, "append", "only copy")
        whole_of(a, C("Foo", "x", Dp("one"), H("u", Dp("four")), "y", r_s=Jx("z")))
        whole_of(c, C("Foo", "x", Dp("one"), H("u", Dp("four")), "y", "only copy", r_s=Jx("z")))
    for o in (0, 1, 2):
        add(f"history/{o}", lambda env, o=o: histories(env, o))

    def after_failure(env):
        a = comp("Foo", [dep("ok"), tag("p", user("Selfie", "<b>"))], [("p", tag("i", dep("lost")))])
        for _ in range(2):
            try:
                m(a, "tagify")
            except Raised:
                pass
        whole_of(comp("Bar", [dep("b")], [("p", 1)]), C("Bar", Dp("b"), p=1))
    add("history/after a failure", after_failure)

    def in_json_mode(env):
        setattr_(mod("htmltools"), "html_dependency_render_mode", "json")
        try:
            whole_of(comp("Foo", [dep("a"), tag("p", dep("b"))], [("q", comp("In", [dep("c")]))]), C("Foo", Dp("a"), H("p", Dp("b")), q=C("In", Dp("c"))))
        finally:
            setattr_(mod("htmltools"), "html_dependency_render_mode", "invisible")
    add("history/json mode", in_json_mode)

    def equal_deps(env):
        """versions and equal dependencies in several places"""
        sp = C("Foo", Dp("d", "1"), Dp("d", "2"), H("p", Dp("d", "1"), Dp("react", "99"), Dp("e", "1", script=Di(("src", "x.js")))), p=C("In", Dp("d", "3"), Dp("d", "2")))
        o = build(sp)
        r = the_script(m(o, "tagify"))
        surfaced(r, sp)
        names = [(T.const(getattr_(d, "name")), T.const(str_(getattr_(d, "version")))) for d in E.tolist(m(r, "get_dependencies"))]
        if ("d", "3") not in names or ("react", "99") not in names:
            raise Bad(f"the newest of several versions is missing: {names}", None)
    add("equal dependencies", equal_deps)

    # ---- declared props
    ALLOWED = {"none": [], "one": ["alpha"], "two": ["alpha", "beta"], "substring": ["alphabet", "xbeta"], "many": ["a", "b", "c", "d", "alpha"]}
    TRY = [[("beta", 1)], [("alp", 1)], [("Alpha", 1)], [("alpha", 1), ("gamma", 2)], [("gamma", 2), ("alpha", 1)], [("alpha", 1), ("beta", 2), ("delta", 3)], [("gamma", None)], [("gamma", False)], [("gamma", 0)], [("gamma", "")], [("x_alpha", 1)], [("class_", "c")], [("id", "i")], [("style", "a:b")], [("key", 1)], [("children", "c")], [("data_x", 1)], [("aria_label", "l")], [("_x", 1)], [("alpha2", 1)], [("alpha", 1)], [("alpha", None)], [], [("beta", 1), ("alpha", 2)]]

    def declared(env, an, direct):
        al = ALLOWED[an]
        for kw in TRY:
            for kids in ([], ["c", tag("p")]):
                bad = any(k not in al and norm_name(k) not in al for k, _ in kw)
                fine = all(k in al for k, _ in kw)
                try:
                    if direct:
                        o = call(g("JSXTag", JSX), ["Foo", *kids], [("allowedProps", mklist(al))] + kw)
                    else:
                        o = comp("Foo", kids, kw, mklist(al))
                    if bad:
                        raise Bad(f"{[k for k, _ in kw]} accepted where only {al} are declared", ("htmltools/_jsx.py", 0, "JSXTag.__init__"))
                    if fine:
                        whole_of(o, CP("Foo", kw, *(["c", H("p")] if kids else [])))
                except Raised as e:
                    if fine:
                        raise Bad(f"{[k for k, _ in kw]} rejected where {al} are declared: {E.exc_text(e.value)[:80]}", e.loc)
    for an in ALLOWED:
        add(f"declared/{an}/created", lambda env, an=an: declared(env, an, False))
        add(f"declared/{an}/direct", lambda env, an=an: declared(env, an, True))

    def declared_symbol(env):
        """any text that is not one of the declared names"""
        k = env.sym("k", nonempty=True)
        if E.truth(E.eq_(k, "alpha")) or E.truth(E.eq_(k, "beta")) or T.contains_any(k, "_"):
            raise T.Infeasible()
        try:
            call(g("JSXTag", JSX), ["Foo"], [("allowedProps", mklist(["alpha", "beta"])), (k, 1)])
        except Raised:
            return
        raise Bad("a prop outside the declared list is accepted", None)
    add("declared/symbol", declared_symbol)

    def undeclared(env):
        whole_of(comp("Foo", [], [("anything", 1), ("x_y", 2)]), CP("Foo", [("anything", 1), ("x_y", 2)]))
        a, b = call(g("jsx_tag_create", JSX), ["Foo", mklist(["a"])]), call(g("jsx_tag_create", JSX), ["Bar", mklist(["b"])])
        for f, good, bad in ((a, "a", "b"), (b, "b", "a"), (a, "a", "b")):
            call(f, [], [(good, 1)])
            try:
                call(f, [], [(bad, 1)])
            except Raised:
                continue
            raise Bad("the declaration of one component is that of another", None)
    add("declared/several", undeclared)
    return out


PROP = Prop(
    "C20", "JSX components convert purely and surface all dependencies",
    "ownership: nothing reachable from a component is written by a conversion; propagation: every metadata node below children, tags, components, tag-valued props and expansions is in the result; the generated text is read back by an abstract JavaScript reader and must be the expected createElement expression, with every plain string literal denoting its text",
    [(JSX, "JSXTag"), (JSX, "jsx_tag_create"), (JSX, "jsx")], scenarios,
    assumptions=["layout of the JavaScript (white space, quotes, escapes) is free; entries keep their order", "metadata below a list, tuple or dict prop is outside the statement", "a jsx() among children may be a string or an expression (an existing test pins the former)", "styles: names up to case and hyphens"],
    bounds="component trees over 22 child kinds x 6 hosts, 50 value kinds x 5 hosts, all pairs of 12 child kinds, 12 ways of adding, depth up to 20, up to 33 children and beyond every size constant of the source; text contents arbitrary except backslash and line breaks",
)
