"""C11: HTMLDocument builds one head/body and hoists every dependency into head."""
import itertools

from .. import engine as E
from .. import lib
from .. import mined
from .. import terms as T
from ..api import Bad, g, m, new
from ..base import Prop, Scenario, int_thresholds
from ..engine import Raised, call, getattr_, getitem, mkdict, mklist, str_
from ..model import N, build, check_same, el, htm, meta, need_str, preload, rep, tokenize, tx, user
from ..oracle import near_loc, path_diff, struct
from ..shapes import PLAIN


def D(items):
    """dict; the pseudo entry "*" (a pair) stands for an entry of any other name"""
    return mkdict([p for p in pairs(items) if p[0] is not None])


def pairs(items):
    return [items[k] if isinstance(k, str) and k[0] == "*" else (k, items[k]) for k in items]


class Dep:
    """specification of a dependency"""

    def __init__(self, name, version="1.0", rank=0, source=None, script=(), css=(), metas=(), head=(), obj=None):
        self.name, self.version, self.rank, self.source = name, version, rank, source
        self.script, self.css, self.metas, self.head = list(script), list(css), list(metas), list(head)
        self.obj = obj

    def build(self):
        if self.obj is None:
            self.obj = call(g("HTMLDependency"), [self.name, self.version], [
                ("source", D(self.source) if self.source else None), ("script", mklist([D(s) for s in self.script])), ("stylesheet", mklist([D(s) for s in self.css])),
                ("meta", mklist([D(s) for s in self.metas])), ("head", call(g("TagList"), [build(h) for h in self.head]) if self.head else None)])
        return self.obj

    def tags(self, prefix, incl):
        """markup in head: meta, link, script, head"""
        if self.source is None:
            base = ""
        elif "href" in self.source:
            base = self.source["href"]
        else:
            base = T.concat(self.name, "-", self.version) if incl else self.name
            if prefix:
                base = T.concat(prefix, "/", base)

        def url(p):
            return T.concat(base, "/", p) if base != "" else p
        out = [call(g("Tag"), ["meta", D(x)]) for x in self.metas]
        for s in self.css:
            s = {**s, "href": url(s["href"])}
            s.setdefault("rel", "stylesheet")  # any other rel given by the user is open (see DESIGN)
            out.append(call(g("Tag"), ["link", D(s)]))
        out += [call(g("Tag"), ["script", D({**s, "src": url(s["src"])})]) for s in self.script]
        return out + [build(h) for h in self.head]


def dnode(d):
    n = N("raw", t=d.build())
    n.attrs = [d]
    return n


def walk(ns):
    for n in ns:
        if n.k == "raw" and n.attrs and isinstance(n.attrs[0], Dep):
            yield n.attrs[0]
        yield from walk(n.kids)


def resolved(ns):
    best = []
    for d in walk(ns):
        i = next((i for i, (k, _) in enumerate(best) if T.eq(k, d.name)), None)
        if i is None:
            best.append((d.name, d))
        elif d.rank > best[i][1].rank:
            best[i] = (best[i][0], d)
    return [d for _, d in best]


def flat(ns):
    for n in ns:
        if n.k in ("list", "tuple", "taglist"):
            yield from flat(n.kids)
        elif n.k != "none":
            yield n


def strip(n):
    """the content without its dependencies"""
    if n.k == "raw":
        return None
    if not n.kids:
        return n
    return N(n.k, n.name, [k for k in (strip(c) for c in n.kids) if k is not None], n.ws, n.attrs, n.t)


def spec_tree(content, attrs, prefix, incl):
    content = list(flat(content))
    deps = resolved(content)
    Tag = g("Tag")
    sole = content[0] if len(content) == 1 and content[0].k == "el" else None
    b = lambda ns: [build(x) for x in (strip(n) for n in ns) if x is not None]
    if sole is not None and T.eq(sole.name, "html"):
        kids = list(flat(sole.kids))
        hi = next((i for i, k in enumerate(kids) if k.k == "el" and T.eq(k.name, "head")), None)
        head_kids = kids[hi].kids if hi is not None else []
        head_attrs, head_ws = (kids[hi].attrs, kids[hi].ws) if hi is not None else ([], True)
        before, after = (kids[:hi], kids[hi + 1:]) if hi is not None else ([], kids)
        hattrs = list({**dict(sole.attrs), **dict(attrs)}.items())
        ws = sole.ws
    else:
        head_kids, head_attrs, head_ws, before = [], [], True, []
        if sole is not None and T.eq(sole.name, "body"):
            after = [sole]
        else:
            after = [N("el", "body", content, True)]
        hattrs, ws = attrs, True
    head = [call(Tag, ["meta"], [("charset", "utf-8")])] + b(head_kids)
    if deps:
        txt = []
        for i, d in enumerate(deps):
            txt += ([";"] if i else []) + [d.name, "[", d.version, "]"]
        head.append(call(Tag, ["script", T.concat(*txt)], [("type", "application/html-dependencies")]))
    for d in deps:
        head += d.tags(prefix, incl)
    h = call(Tag, ["head", mkdict(list(head_attrs))] + head, [("_add_ws", head_ws)])
    return call(Tag, ["html", mkdict(list(hattrs))] + b(before) + [h] + b(after), [("_add_ws", ws)]), deps


def check_doc(env, content, attrs, what, prefix="lib", incl=True, structure=True):
    c = [build(n) for n in content]
    o = call(g("HTMLDocument"), c, attrs)
    r = m(o, "render", lib_prefix=prefix, include_version=incl) if (prefix, incl) != ("lib", True) else m(o, "render")
    exp, deps = spec_tree(content, attrs, prefix, incl)
    html = need_str(getitem(r, "html"), what)
    want = T.concat("<!DOCTYPE html>\n", m(exp, "get_html_string"))
    got_deps = E.tolist(getitem(r, "dependencies"))
    if [struct(d) for d in got_deps] != [struct(d.build()) for d in deps]:
        names = [T.show(getattr_(d, "name")) for d in got_deps]
        raise Bad(f"{what}: the returned dependency list is {names}, the resolved list is {[T.show(d.name) for d in deps]}")
    check_same(html, want, what)
    if structure:
        shape(html, what, len(deps))
    return o, r


def shape(html, what, ndeps):
    """one doctype, one html, exactly one head child that starts with the charset"""
    toks = tokenize(html)
    toks = [t for t in toks if t[0] != "text" or T.norm(strip_text(t[1]))]
    if toks[0][0] != "doctype" or sum(t[0] == "doctype" for t in toks) != 1:
        raise Bad(f"{what}: output does not start with exactly one doctype")
    depth, top, heads, prev = 0, [], 0, None
    stack = []
    for i, t in enumerate(toks[1:], 1):
        if t[0] == "start":
            n = T.const(t[1])
            if not stack:
                top.append(n)
            if len(stack) == 1 and n == "head":
                heads += 1
                nx = toks[i + 1]
                if not (nx[0] == "start" and T.const(nx[1]) == "meta" and [(T.const(a), T.const(v)) for a, v, _ in nx[2]] == [("charset", "utf-8")]):
                    raise Bad(f"{what}: <head> does not start with <meta charset=\"utf-8\"/>", nx[-1])
            if not t[3]:
                stack.append(n)
        elif t[0] == "end":
            stack.pop()
        elif not stack:
            raise Bad(f"{what}: text outside the <html> element", t[2])
    if top != ["html"]:
        raise Bad(f"{what}: top-level elements are {top}")
    if heads != 1:
        raise Bad(f"{what}: <html> has {heads} <head> children")
    n = sum(1 for t in toks if t[0] == "start" and any(T.const(v) == "application/html-dependencies" for a, v, _ in t[2] if v is not None))
    if n != (1 if ndeps else 0):
        raise Bad(f"{what}: {n} dependency listings")


def strip_text(v):
    from ..model import strip_ws
    return strip_ws(v)


def depsets(env):
    A = lambda **k: Dep("a", **{"source": {"subdir": "sa"}, "script": [{"src": "a.js"}], **k})
    return {
        "none": lambda: [],
        "one": lambda: [A()],
        "full": lambda: [Dep("f", "1.2.3", source={"subdir": "x"}, script=[{"src": "a.js"}, {"src": "d/b.js", "type": "module"}], css=[{"href": "s.css"}, {"href": "t.css", "media": "print"}],
                             metas=[{"name": "n", "content": env.sym("mc")}, {"name": "o", "content": "p", "charset": "c"}], head=[el("title", tx(env.sym("ht"))), htm(env.sym("hh", excl=PLAIN)), tx("x")])],
        "headonly": lambda: [Dep("h", head=[el("style", tx("s{}"))])],
        "metaonly": lambda: [Dep("mm", metas=[{"name": "a", "content": "b"}])],
        "nothing": lambda: [Dep("z")],
        "url": lambda: [Dep("u", "2", source={"href": "https://x.org/y"}, script=[{"src": "a.js", "async": ""}], css=[{"href": "c.css"}])],
        "nosource": lambda: [Dep("ns", script=[{"src": "a.js"}])],
        "two": lambda: [A(), Dep("b", "2", source={"subdir": "q"}, css=[{"href": "b.css"}])],
        "dup": lambda: [A(), A()],
        "newer-last": lambda: [A(version="1.9"), Dep("b"), A(version="1.10", rank=1, head=[el("base")])],
        "newer-first": lambda: [A(version="1.10", rank=1), Dep("b"), A(version="1.9")],
        "three": lambda: [Dep("c", head=[tx("1")]), Dep("b", head=[tx("2")]), Dep("a", head=[tx("3")])],
        "hc": lambda: [hc(el("title", tx(env.sym("t1"))))],
        "hc-same": lambda: [hc(el("title", tx("T"))), hc(el("title", tx("T")))],
        "hc-two": lambda: [hc(el("title", tx("T"))), hc(el("title", tx("U")))],
        "hc-mixed": lambda: [hc(tx("t"), el("link", ws=False)), A(), hc(htm("<i></i>"))],
    }


def hc(*ns):
    o = call(g("head_content"), [build(n) for n in ns])
    return Dep(getattr_(o, "name"), "0.0", head=ns, obj=o)


PLACE = {
    "top": lambda d: [tx("t"), *d, el("p")], "top-only": lambda d: d, "top-last": lambda d: [el("p", tx("x")), *d], "nested": lambda d: [el("div", tx("a"), el("p", *d), tx("b"))], "each": lambda d: [el("div", x, tx("t")) for x in d],
    "list": lambda d: [N("list", kids=[tx("l"), N("tuple", kids=d)])], "inline": lambda d: [el("a", el("b", *d, ws=False), tx("q"), ws=False)], "deep": lambda d: [_deep(d)],
    "body": lambda d: [el("body", tx("t"), *d, attrs=[("id", "b")])], "body-nested": lambda d: [el("body", el("p", *d))], "body-inline": lambda d: [el("body", tx("t"), *d, ws=False)],
    "html": lambda d: [el("html", el("head", el("title", tx("T"))), el("body", *d, tx("t")))], "html-nohead": lambda d: [el("html", el("body", *d, tx("t")))], "html-direct": lambda d: [el("html", *d, el("head", el("title")), el("body"))],
    "html-in-head": lambda d: [el("html", el("head", *d, el("title", tx("T")), *d[:1]), el("body", tx("t")))], "html-head-last": lambda d: [el("html", el("body", *d), el("head", el("meta", ws=True)))],
    "html-text": lambda d: [el("html", tx("t"), *d)], "html-attrs": lambda d: [el("html", el("head", attrs=[("id", "h")]), el("body", *d), attrs=[("lang", "fr"), ("id", "i")])], "html-empty": lambda d: [el("html")] if not d else [el("html", *d)],
    "html-inline": lambda d: [el("html", el("head"), el("body", *d), ws=False)], "html-headinline": lambda d: [el("html", el("head", tx("q"), ws=False), el("body", *d))],
    "html-deep-head": lambda d: [el("html", el("body", el("head", *d)))],
    "html-and-text": lambda d: [el("html", el("head"), el("body")), tx("x"), *d], "body-and-text": lambda d: [el("body"), tx("x"), *d], "head-fragment": lambda d: [el("head", el("title"), *d), el("p")], "head-sole": lambda d: [el("head", *d)],
    "two-bodies": lambda d: [el("body", *d), el("body", tx("y"))], "html-list": lambda d: [N("list", kids=[el("html", el("body", *d))])], "body-list": lambda d: [N("taglist", kids=[el("body", *d)])], "div-html": lambda d: [el("div", el("html", *d))], "div-body": lambda d: [el("div", el("body", *d))],
    "none-html": lambda d: [N("none"), el("html", el("head", el("base")), el("body", *d)), N("none")],
}


def _deep(d):
    x = el("i", *d, ws=False)
    for i in range(5):
        x = el(f"d{i}", tx("t") if i % 2 else x, *([x] if i % 2 else []))
    return x


ATTRS = {"plain": [], "lang": [("lang", "en")], "two": [("lang", "en"), ("class_", "k")], "over": [("lang", "en"), ("id", "new"), ("data_x", True)]}


def norm_attrs(a):
    return [(k[:-1] if k.endswith("_") else k.replace("_", "-"), v) for k, v in a]


def scenarios(tier):
    preload()
    out = []
    names = set()

    def add(n, f, **k):
        if n not in names:
            names.add(n)
            out.append(Scenario(n, f, **k))

    class _E:
        def sym(self, *a, **k):
            return "s"
    dsn = ["none", "one", "full", "headonly", "metaonly", "nothing", "url", "nosource", "two", "dup", "newer-last", "newer-first", "three", "hc", "hc-same", "hc-two", "hc-mixed"]
    for pn, pf in PLACE.items():
        for dn in dsn:
            for an in (("plain", "over") if tier == "quick" else ATTRS):
                def f(env, pf=pf, dn=dn, an=an, pn=pn):
                    ds = depsets(env)[dn]()
                    check_doc(env, pf([dnode(d) for d in ds]), norm_attrs(ATTRS[an]), f"document {pn} with dependencies {dn}, attributes {an}")
                add(f"doc/{pn}/{dn}/{an}", f)
    for pn in ("top", "body", "html", "html-in-head", "html-direct", "nested"):
        for dn in ("full", "two", "url", "nosource", "newer-last", "hc-mixed"):
            for prefix, incl in itertools.product(("lib", None, "", "a/b", "x"), (True, False)):
                def f(env, pn=pn, dn=dn, prefix=prefix, incl=incl):
                    ds = depsets(env)[dn]()
                    check_doc(env, PLACE[pn]([dnode(d) for d in ds]), [], f"document {pn} with {dn}, lib_prefix={prefix!r}, include_version={incl}", prefix, incl)
                add(f"prefix/{pn}/{dn}/{prefix}/{incl}", f)

    def symbolic(env, pn):
        """names, versions, text and attribute values are arbitrary"""
        alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"
        lib.VERSION_RANKS["ver"] = lib.parse_version("1")
        ver = env.sym("ver", only="0123456789.", nonempty=True)
        d = Dep(env.sym("nm", only=alnum, nonempty=True), ver, source={"subdir": "s"}, script=[{"src": "a.js", "integrity": env.sym("in", excl=PLAIN)}], css=[{"href": "c.css", "title": env.sym("ti", excl=PLAIN)}], metas=[{"name": env.sym("mn", excl=PLAIN), "content": env.sym("mc", excl=PLAIN)}], head=[el("title", tx(env.sym("t")))])
        e = Dep("fixed", "1", head=[htm(env.sym("h", excl=PLAIN))])
        if True:
            check_doc(env, PLACE[pn]([dnode(d), dnode(e), N("text", t=env.sym("body", excl=PLAIN))]), [("lang", env.sym("lang", excl=PLAIN))], f"document {pn} with arbitrary strings")
    for pn in ("top", "body", "html", "html-in-head"):
        add(f"symbolic/{pn}", lambda env, pn=pn: symbolic(env, pn), max_paths=6000)

    CONTENT = {
        "empty": lambda e: [], "text": lambda e: [tx(e.sym("t"))], "texts": lambda e: [tx("a"), tx(e.sym("t"))], "html": lambda e: [htm(e.sym("h", excl=PLAIN))], "repr": lambda e: [rep(e.sym("r", excl=PLAIN))], "block": lambda e: [el("div", tx(e.sym("t")), el("p"))],
        "inline": lambda e: [el("a", tx("x"), ws=False)], "mixed": lambda e: [tx("a"), el("p"), el("b", ws=False), htm("c")], "meta": lambda e: [meta()], "none": lambda e: [N("none")], "script": lambda e: [el("script", tx(e.sym("s", excl=PLAIN)))], "num": lambda e: [N("num", t=3)],
        "pre": lambda e: [el("pre", tx("a\nb"))], "bodyattrs": lambda e: [el("body", tx(e.sym("t")), attrs=[("class", e.sym("v"))])], "bodyempty": lambda e: [el("body")], "htmlattrs": lambda e: [el("html", tx(e.sym("t")), attrs=[("class", e.sym("v")), ("lang", "xx")])],
        "HTML": lambda e: [el("HTML", el("head"))], "Body": lambda e: [el("Body", tx("t"))], "Head": lambda e: [el("html", el("Head", tx("t")))], "htmlx": lambda e: [el("htmlx")], "htmltext": lambda e: [tx("html")], "bodytext": lambda e: [tx("body")],
        "header": lambda e: [el("html", el("header"), el("head", el("title")))],
    }
    for cn, cf in CONTENT.items():
        for an in ATTRS:
            def f(env, cf=cf, an=an, cn=cn):
                check_doc(env, cf(env), norm_attrs(ATTRS[an]) if cn != "htmlattrs" or True else [], f"document of {cn}, attributes {an}", structure=cn not in ("html", "repr", "script"))
            add(f"content/{cn}/{an}", f)

    def attr_names(env):
        for k, v, n, w in (("class_", "a b", "class", "a b"), ("data_x_y", 1, "data-x-y", "1"), ("hidden", True, "hidden", ""), ("lang", None, None, None), ("lang", False, None, None), ("title", env.sym("v"), "title", env.sym("v"))):
            for content in ([tx("x")], [el("body", tx("x"))], [el("html", el("body"))], [el("html", el("head"), attrs=[("q", "r")])]):
                o = call(g("HTMLDocument"), [build(c) for c in content], [(k, v)])
                exp, _ = spec_tree(content, [(n, w)] if n else [], "lib", True)
                check_same(getitem(m(o, "render"), "html"), T.concat("<!DOCTYPE html>\n", m(exp, "get_html_string")), f"HTMLDocument(…, {k}={v!r})")
    add("attr-names", attr_names)

    # ---- whatever could be told apart is left open: names and attributes of the user's elements
    G = [(n, f) for n, f in mined.generic(("any",)) if tier != "quick" or "/any/" in n or "/text/" in n]
    KIDS = {"text": lambda e: tx(e.sym("kt", excl=PLAIN)), "html": lambda e: htm(e.sym("kh", excl=PLAIN)), "repr": lambda e: rep(e.sym("kr", excl=PLAIN)), "block": lambda e: el("p"), "inline": lambda e: el("i", tx("x"), ws=False),
            "meta": lambda e: meta(), "num": lambda e: N("num", t=7), "head": lambda e: el("head", tx("other")), "dep": lambda e: dnode(Dep("kd", head=[el("base")])), "charset": lambda e: el("meta", attrs=[("charset", "utf-8")]), "none": lambda e: N("none")}
    HEADS = {"empty": lambda e: el("head"), "empty-attr": lambda e: el("head", attrs=[mined.attr(e, "h")]), "title": lambda e: el("head", el("title")), "text": lambda e: el("head", tx(e.sym("hx", excl=PLAIN))), "inline": lambda e: el("head", ws=False), "absent": lambda e: N("none"),
             "none": lambda e: el("head", N("none")), "meta": lambda e: el("head", meta()), "dep": lambda e: el("head", dnode(Dep("hd", script=[{"src": "s"}])))}

    def order_in_html(env, hn, k1):
        """the head stays where the user put it, whatever comes before and after"""
        for k2 in (None, *KIDS):
            before = [KIDS[k](env) for k in (k1, k2) if k]
            if "head" in (k1, k2):
                continue
            for after in ([], [el("body", tx("b"))], [tx("z"), el("head", tx("second"))], [KIDS[k1](env)]):
                check_doc(env, [el("html", *before, HEADS[hn](env), *after)], [], f"user <html> with {k1}, {k2} before <head> ({hn})", structure=False)
    for hn, k1 in itertools.product(HEADS, KIDS):
        if k1 != "head":
            add(f"html-order/{hn}/{k1}", lambda env, hn=hn, k1=k1: order_in_html(env, hn, k1))
    for gn, gf in G:
        def f(env, gf=gf, gn=gn):
            """one open element at every place of the document"""
            for dn in ("none", "two"):
                d = [dnode(x) for x in depsets(env)[dn]()]
                e = gf(env)
                check_doc(env, [e, *d], [], f"document whose content is an element of any name {gn}", structure=False)
                if d:
                    check_doc(env, [e, tx("t"), *d], [], f"open element {gn} beside text", structure=False)
        add(f"open-top/{gn}", f)

        def f(env, gf=gf, gn=gn):
            d = [dnode(x) for x in depsets(env)["two"]()]
            e = gf(env)
            check_doc(env, [el("html", el("head", e), el("body", *d))], [], f"open element {gn} in the user's <head>", structure=False)
            check_doc(env, [el("html", el("head", el("title", tx("q")), e, tx("t")), el("body"))], [], f"open element {gn} inside the user's <head>", structure=False)
            check_doc(env, [el("html", el("head", *d, e), el("body", e))], [], f"open element {gn} in head and body", structure=False)
        add(f"open-head/{gn}", f)

        def f(env, gf=gf, gn=gn):
            d = [dnode(x) for x in depsets(env)["two"]()]
            e = gf(env)
            check_doc(env, [el("html", e, el("head", el("title")), el("body", *d))], [], f"open element {gn} before the user's <head>", structure=False)
            check_doc(env, [el("html", el("body"), e, *d)], [], f"open element {gn} in the user's <html>", structure=False)
            check_doc(env, [el("body", e, *d)], [], f"open element {gn} in the user's <body>", structure=False)
        add(f"open-html/{gn}", f)

    def open_attrs(env, place):
        """attributes of any name and value on html, head, body and as document attributes"""
        for w1, w2 in itertools.product((True, False), repeat=2):
            a, b, c = mined.attr(env, "1"), mined.attr(env, "2"), mined.attr(env, "3")
            d = [dnode(x) for x in depsets(env)["two"]()]
            if place == "html":
                check_doc(env, [el("html", el("head", el("title"), attrs=[b], ws=w2), el("body", *d, attrs=[c]), attrs=[a], ws=w1)], [], "any attributes on html, head and body")
            elif place == "body":
                check_doc(env, [el("body", el("p"), *d, attrs=[a], ws=w1)], [("lang", "en")], "any attributes on body")
            elif place == "doc":
                k = mined.key(env, "dk")
                for content in ([tx("x")], [el("body", attrs=[b])], [el("html", el("head"), attrs=[("q", "r")])], [el("html", el("body"), *d)]):
                    if content[0].k == "el" and content[0].name == "html" and content[0].attrs and T.eq(k, "q"):
                        continue
                    check_doc(env, content, [(k, env.sym("dv", excl=PLAIN))], "document attributes of any name", structure=False)
    for place in ("html", "body", "doc"):
        add(f"open-attrs/{place}", lambda env, place=place: open_attrs(env, place))

    def open_items(env, kind, first):
        """dependency items with an entry of any other name"""
        req = {"script": ("src", "a.js"), "css": ("href", "a.css"), "metas": ("name", "n")}[kind]
        k = mined.key(env, "ik", [req[0], *(["rel", "src", "href"] if kind != "metas" else ["content"])])
        extra, must = {"*": (k, env.sym("iv", excl=PLAIN))}, {"content": "c"} if kind == "metas" else {}
        it = {**extra, req[0]: req[1], **must} if first else {req[0]: req[1], **must, **extra}
        for src in ({"subdir": "s"}, {"href": "https://x.org"}):
            d = Dep("op", "1", source=src, **{kind: [it, {req[0]: "z" + req[1], **must}]})
            for pn in ("top", "html", "html-in-head"):
                check_doc(env, PLACE[pn]([dnode(d), dnode(Dep("o2", css=[{"href": "q.css"}]))]), [], f"dependency {kind} item with an entry of any name, {pn}", structure=False)
    for kind in ("script", "css", "metas"):
        for first in (True, False):
            add(f"open-items/{kind}/{first}", lambda env, kind=kind, first=first: open_items(env, kind, first))

    def open_head(env, gf):
        """a dependency's head content may be any element"""
        for d in (Dep("x", head=[gf(env)]), Dep("x", script=[{"src": "a"}], source={"subdir": "s"}, head=[tx("a"), gf(env), el("base")]), Dep("y", metas=[{"name": "q", "content": "r"}], head=[gf(env), gf(env)])):
            for pn in ("top", "html-in-head") if tier == "quick" else ("top", "html-in-head", "body", "html"):
                check_doc(env, PLACE[pn]([dnode(d)]), [], f"dependency head with an element of any name, {pn}", structure=False)
    for gn, gf in G:
        if "/ws" in gn and ("/any/" in gn or tier != "quick"):
            add(f"open-dep-head/{gn}", lambda env, gf=gf: open_head(env, gf))

    def appended(env):
        d1, d2 = Dep("a", script=[{"src": "a"}]), Dep("b")
        for start in ([], [tx("s")], [el("body", tx("s"))], [el("html", el("body"))]):
            o = call(g("HTMLDocument"), [build(n) for n in start], [("lang", "e")])
            more = [el("p", dnode(d1)), dnode(d2), tx("z")]
            cur = list(start)
            for x in more:
                m(o, "append", build(x))
                cur.append(x)
                exp, deps = spec_tree(cur, [("lang", "e")], "lib", True)
                r = m(o, "render")
                check_same(getitem(r, "html"), T.concat("<!DOCTYPE html>\n", m(exp, "get_html_string")), "document after append()")
                if len(E.tolist(getitem(r, "dependencies"))) != len(deps):
                    raise Bad("document after append(): wrong number of dependencies")
            m(o, "append", "p", build(el("i")))
            exp, _ = spec_tree(cur + [tx("p"), el("i")], [("lang", "e")], "lib", True)
            check_same(getitem(m(o, "render"), "html"), T.concat("<!DOCTYPE html>\n", m(exp, "get_html_string")), "document after append() of two children")
    add("appended", appended)

    def many(env, th):
        for n in (th, th + 1):
            ds = [Dep(f"n{i}", f"1.{i}", script=[{"src": f"{i}.js"}], css=[{"href": f"{i}.css"}], metas=[{"name": "m", "content": f"{i}"}], head=[el("base")]) for i in range(n)]
            for pn in ("top", "nested", "html-in-head", "body", "html-direct"):
                check_doc(env, PLACE[pn]([dnode(d) for d in ds]), [], f"{n} dependencies, {pn}")
            big = Dep("big", script=[{"src": f"{i}.js"} for i in range(n)], css=[{"href": f"{i}.css"} for i in range(n)], metas=[{"name": "m", "content": f"{i}"} for i in range(n)], head=[el("base") for i in range(n)])
            check_doc(env, PLACE["html"]([dnode(big)]), [], f"dependency with {n} items of each kind")
            check_doc(env, [el("html", *[tx("t") for _ in range(n)], el("head", el("title")), el("body"))], [], f"<head> at place {n}")
            check_doc(env, [el("html", el("head", *[el("meta", attrs=[("name", f"{i}")]) for i in range(n)]), el("body"))], [], f"<head> with {n} children")
            same = [Dep("same", f"1.{i}", rank=i) for i in range(n)]
            check_doc(env, PLACE["each"]([dnode(d) for d in same]), [], f"{n} versions of one dependency")
    for th in sorted({5} | {t for t in int_thresholds(("htmltools/_core.py", "htmltools/_util.py")) if t <= 40}):
        add(f"many/{th}", lambda env, th=th: many(env, th))

    def order_of_head(env):
        """markup of every dependency is emitted once, in resolved order"""
        for perm in itertools.permutations(range(3)):
            ds = [Dep(f"n{i}", script=[{"src": f"{i}.js"}], css=[{"href": f"{i}.css"}], metas=[{"name": "m", "content": f"{i}"}], head=[el("title", tx(f"{i}"))]) for i in range(3)]
            for pn in ("top", "each", "html-in-head", "nested", "list"):
                check_doc(env, PLACE[pn]([dnode(ds[i]) for i in perm]), [], f"dependencies in order {perm}, {pn}")
    add("order", order_of_head)

    def nested_dep(env):
        """a dependency inside the head content of another one"""
        inner = Dep("inner", "2", script=[{"src": "i.js"}])
        o = call(g("HTMLDependency"), ["outer", "1"], [("head", call(g("TagList"), [inner.build(), call(g("Tag"), ["title", "t"])]))])
        r = m(call(g("HTMLDocument"), [o, "x"]), "render")
        html = getitem(r, "html")
        listing = T.const(html) or ""
        names = sorted(T.const(getattr_(d, "name")) for d in E.tolist(getitem(r, "dependencies")))
        listed = sorted(n for n in ("inner", "outer") if f"{n}[" in listing)
        if names != listed:
            raise Bad(f"dependency nested in another dependency's head: returned list {names}, listing names {listed}")
    add("nested-in-head", nested_dep)
    return out


PROP = Prop(
    "C11", "HTMLDocument builds one head/body and hoists every dependency into head",
    "the document's abstract output equals doctype + the specified html tree (built independently from the content), and tokenises to one html with one head",
    [("htmltools", "HTMLDocument.render"), ("htmltools", "HTMLDependency"), ("htmltools", "head_content")], scenarios,
    bounds="33 content/placement families x 17 dependency families x html attributes; 10 prefix/version settings; sizes around source constants",
)
