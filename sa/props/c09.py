"""C09: tagifiable objects render as their expansion, spliced in place."""
import itertools

from .. import engine as E
from .. import terms as T
from ..api import Bad, g, m, new
from ..base import Prop, Scenario, int_thresholds
from ..engine import NativeF, Raised, call, getattr_, getitem, mkdict, mklist, str_
from ..model import N, build, check_same, dep, el, htm, meta, preload, rep, taglist, tx, user
from ..oracle import path_diff, struct
from ..shapes import PLAIN, nodes, ptxt, seqs, sname


def X(result):
    """a tagifiable expanding to what `result` builds (a fresh one per build)"""
    return N("expand", kids=[result])


def L(*kids):
    return N("taglist", kids=list(kids))


EXP = {
    "X0": lambda e, i: X(L()),
    "X1": lambda e, i: X(L(el("div", ptxt(e, i)))),
    "X2": lambda e, i: X(L(ptxt(e, i), el("b", tx("i"), ws=False))),
    "X3": lambda e, i: X(L(el("p"), ptxt(e, i), dep(f"x{i}"))),
    "XM": lambda e, i: X(L(meta(), dep(f"m{i}"))),
    "Xt": lambda e, i: X(el("div", el("p", ptxt(e, i)), dep(f"t{i}"))),
    "Xi": lambda e, i: X(el("span", ptxt(e, i), ws=False)),
    "Xs": lambda e, i: X(ptxt(e, i)),
    "Xx": lambda e, i: X(tx(e.sym(f"x{i}"))),
    "Xh": lambda e, i: X(htm(e.sym(f"h{i}", excl=""))),
    "Xd": lambda e, i: X(dep(f"d{i}")),
    "Xm": lambda e, i: X(meta()),
    "Xr": lambda e, i: X(rep(e.sym(f"r{i}"))),
    "Xl": lambda e, i: X(N("mylist", kids=[el("p"), tx("l")])),
    "Xc": lambda e, i: N("comp", kids=[L(tx("c"), N("comp", kids=[L(el("i", ws=False), N("comp", kids=[L(el("hr"))]))]), X(L(ptxt(e, i))))]),
    "Xb": lambda e, i: N("both", kids=[L(el("p"), ptxt(e, i))]),
}
PLAINK = {
    "B": lambda e, i: el("div", el("p"), ptxt(e, i)), "b": lambda e, i: el("p"), "T": ptxt, "I": lambda e, i: el("a", ptxt(e, i), ws=False), "M": lambda e, i: meta(),
    "D": lambda e, i: dep(f"p{i}"), "V": lambda e, i: el("br", ws=False), "R": lambda e, i: rep(e.sym(f"s{i}")),
}
ALL = {**EXP, **PLAINK}


def mk(n):
    """build with tagifiables"""
    if n.k == "expand":
        return user("Expand", mk(n.kids[0]))
    if n.k == "both":
        return user("Both", mk(n.kids[0]), "<wrong>")
    if n.k == "comp":
        kid = n.kids[0]
        return user("Comp", NativeF("make", lambda: mk(kid)))
    if n.k == "mylist":
        return user("MyList", *[mk(c) for c in n.kids])
    if n.k == "el":
        return call(g("Tag"), [n.name, *[mk(c) for c in n.kids]], [("_add_ws", n.ws), *[(k, v) for k, v in n.attrs]])
    if n.k in ("list", "taglist"):
        ks = [mk(c) for c in n.kids]
        return mklist(ks) if n.k == "list" else call(g("TagList"), ks)
    if n.k == "tuple":
        return tuple(mk(c) for c in n.kids)
    return build(n)


def subst(n):
    """the same tree with every tagifiable replaced by its expansion"""
    if n.k in ("expand", "both", "comp"):
        return subst(n.kids[0])
    if n.k in ("taglist", "mylist"):
        return N("list", kids=[subst(c) for c in n.kids])
    if n.kids:
        return N(n.k, n.name, [subst(c) for c in n.kids], n.ws, n.attrs, n.t)
    return n


def deps_of(r):
    return [struct(d) for d in E.tolist(getitem(r, "dependencies"))]


def dep_names(r):
    return [T.const(getattr_(d, "name")) for d in E.tolist(getitem(r, "dependencies"))]


def agree(got, want, what):
    check_same(getitem(got, "html"), getitem(want, "html"), what)
    if deps_of(got) != deps_of(want):
        raise Bad(f"{what}: reported dependencies {dep_names(got)}, expected {dep_names(want)}")


def doc(ks, **kw):
    return m(call(g("HTMLDocument"), ks, list(kw.items())), "render")


ROOTS = {
    "block": lambda ks: el("div", *ks), "inline": lambda ks: el("em", *ks, ws=False), "nested": lambda ks: el("ul", el("li", *ks), tx("z")),
    "inline-in-block": lambda ks: el("div", tx("a"), el("em", *ks, ws=False)), "listed": lambda ks: el("div", N("list", kids=ks)), "void": lambda ks: el("br", *ks, ws=False),
    "script": lambda ks: el("script", *ks),
}


def scenarios(tier):
    preload()
    out = []
    names = set()

    def add(n, f, **k):
        if n not in names:
            names.add(n)
            out.append(Scenario(n, f, **k))

    kinds = list(ALL)
    s2 = [s for s in seqs(kinds, 2) if any(k in EXP for k in s)]
    s3 = [s for s in seqs(["X0", "X2", "X3", "Xt", "Xd", "T", "b"], 3, 3) if any(k in EXP for k in s)]
    s4 = [s for s in seqs(["X0", "X2", "X1", "T"], 4, 4) if sum(k in EXP for k in s) >= 2]
    if tier == "thorough":
        s3 = [s for s in seqs([k for k in kinds if k not in ("Xx", "Xr")], 3, 3) if any(k in EXP for k in s)]
        s4 = [s for s in seqs(["X0", "X2", "X3", "Xt", "Xc", "T", "b"], 4, 4) if sum(k in EXP for k in s) >= 2]
    both = list(dict.fromkeys(s2 + s3 + s4))

    def one(s, roots):
        def f(env):
            ns = [ALL[k](env, i) for i, k in enumerate(s)]
            ref = [subst(n) for n in ns]
            what = f"children {sname(s)}"
            agree(m(call(g("TagList"), [mk(n) for n in ns]), "render"), m(taglist(ref), "render"), f"TagList {what}")
            for rn in roots:
                rf = ROOTS[rn]
                agree(m(mk(rf(ns)), "render"), m(build(subst(rf(ref))), "render"), f"{rn} {what}")
            if len(s) <= 2:
                check_same(str_(mk(el("div", *ns))), str_(build(el("div", *ref))), f"str() of {what}")
                # the tagified tree itself
                a, b = m(mk(el("div", *ns)), "tagify"), m(build(el("div", *ref)), "tagify")
                if struct(a) != struct(b):
                    raise Bad(f"tagify() of {what}: {path_diff(struct(b), struct(a))}")
        return f
    for s in both:
        add("seq/" + sname(s), one(s, ("block", "inline", "nested", "inline-in-block", "listed") if len(s) <= 2 else ("block", "inline")))
    for s in seqs([k for k in kinds if k not in ("M", "D", "V")], 1, 1):
        add("void/" + sname(s), one(s, ("void",)))
    for s in (("Xs",), ("Xh",), ("X0",), ("Xs", "X0"), ("Xm", "Xs"), ("Xd",), ("Xx", "Xh")):
        add("script/" + sname(s), one(s, ("script",)))

    # ---- documents
    for s in s2 + [x for x in s3 if x.count("T") <= 1]:
        def f(env, s=s):
            ns = [ALL[k](env, i) for i, k in enumerate(s)]
            ref = [subst(n) for n in ns]
            agree(doc([mk(n) for n in ns], lang="en"), doc([build(n) for n in ref], lang="en"), f"HTMLDocument {sname(s)}")
            if len(s) <= 1:
                agree(doc([mk(el("body", *ns))]), doc([build(el("body", *ref))]), f"HTMLDocument body {sname(s)}")
                agree(doc([mk(el("html", el("head", *ns), el("body", *ns)))]), doc([build(el("html", el("head", *ref), el("body", *ref)))]), f"HTMLDocument html {sname(s)}")
                agree(doc([mk(el("html", *ns))]), doc([build(el("html", *ref))]), f"HTMLDocument html children {sname(s)}")
                d = lambda b, ks: call(g("HTMLDependency"), ["dh", "1"], [("head", call(g("TagList"), [b(k) for k in ks]))])
                agree(doc([d(mk, ns)]), doc([d(build, ref)]), f"dependency head {sname(s)}")
        add("doc/" + sname(s), f)
    HTMLS = {
        "html": lambda: el("html", el("head", el("title", tx("t"))), el("body", tx("b"), dep("q"))), "html-nohead": lambda: el("html", el("body", tx("b"))),
        "body": lambda: el("body", tx("b"), dep("q")), "head": lambda: el("head", el("title", tx("t"))), "div": lambda: el("div"), "html2": lambda: el("html", tx("x"), attrs=[("lang", "fr"), ("class", "c")]),
    }
    for hn, hf in HTMLS.items():
        for wn, wf in {"X": X, "XL": lambda n: X(L(n)), "XX": lambda n: X(L(n, meta())), "comp": lambda n: N("comp", kids=[n]), "empty+X": lambda n: N("list", kids=[X(L()), X(n)]),
                       "X+empty": lambda n: N("list", kids=[X(L(n)), X(L())]), "text+X": lambda n: N("list", kids=[tx("t"), X(n)]), "X+X": lambda n: N("list", kids=[X(n), X(hf())])}.items():
            def f(env, hf=hf, wf=wf, hn=hn, wn=wn):
                for kw in ({}, {"lang": "en"}):
                    agree(doc([mk(wf(hf()))], **kw), doc([build(subst(wf(hf())))], **kw), f"HTMLDocument of {hn} through {wn}")
            add(f"doc-root/{hn}/{wn}", f)
        # <head> produced by an expansion inside the user's <html>
        def f(env, hf=hf, hn=hn):
            for k in (X, lambda n: X(L(n)), lambda n: X(L(tx("z"), n))):
                agree(doc([mk(el("html", k(hf()), el("body")))]), doc([build(subst(el("html", k(hf()), el("body"))))]), f"<html> whose first child expands to {hn}")
                agree(doc([mk(el("html", dep("f"), el("body"), k(hf())))]), doc([build(subst(el("html", dep("f"), el("body"), k(hf()))))]), f"<html> whose last child expands to {hn}")
        add(f"doc-head/{hn}", f)

    # ---- the same object at several places, appended later, reused
    def shared(env):
        for r, ref in ((lambda: call(g("TagList"), ["a", call(g("Tag"), ["p"])]), ["a", ("p",)]), (lambda: call(g("Tag"), ["p"]), [("p",)]), (lambda: call(g("TagList"), []), [])):
            def want():
                return [call(g("Tag"), list(x)) if isinstance(x, tuple) else x for x in ref]
            x = user("Expand", r())
            t = call(g("Tag"), ["div", x, "m", x, call(g("Tag"), ["ul", x]), x])
            w = call(g("Tag"), ["div", *want(), "m", *want(), call(g("Tag"), ["ul", *want()]), *want()])
            agree(m(t, "render"), m(w, "render"), "one tagifiable object used several times")
            agree(m(t, "render"), m(w, "render"), "rendering again")
            t = call(g("Tag"), ["div"])
            for _ in range(3):
                m(t, "append", x)
            m(t, "insert", 1, "i")
            w = call(g("Tag"), ["div"])
            m(w, "extend", mklist(want() + want() + want()))
            m(w, "insert", len(ref), "i")
            agree(m(t, "render"), m(w, "render"), "appended tagifiables")
    add("shared", shared)

    def empties(env):
        for n in range(1, 6):
            for k in range(n + 1):
                x = [user("Expand", call(g("TagList"), [])) for _ in range(n)]
                ks = x[:k] + ["t"] + x[k:]
                agree(m(call(g("Tag"), ["div"] + ks), "render"), m(call(g("Tag"), ["div", "t"]), "render"), f"{n} empty expansions around one text")
            agree(m(call(g("Tag"), ["br"] + [user("Expand", call(g("TagList"), [])) for _ in range(n)]), "render"), m(call(g("Tag"), ["br"]), "render"), "empty expansions in a void element")
    add("empties", empties)

    def large(env, th=6):
        for ne in (th - 1, th, th + 1, 2 * th):
            kids = [call(g("Tag"), ["li", f"{i}"]) if i % 2 else f"s{i}" for i in range(ne)]
            def fresh():
                return [call(g("Tag"), ["li", f"{i}"]) if i % 2 else f"s{i}" for i in range(ne)]
            t = call(g("Tag"), ["ul", "a", user("Expand", call(g("TagList"), kids)), "z"])
            agree(m(t, "render"), m(call(g("Tag"), ["ul", "a", *fresh(), "z"]), "render"), f"expansion of {ne} nodes")
            t = call(g("TagList"), [user("Expand", call(g("TagList"), ["x", call(g("Tag"), ["p"])])) for _ in range(ne)])
            agree(m(t, "render"), m(call(g("TagList"), [v for _ in range(ne) for v in ("x", call(g("Tag"), ["p"]))]), "render"), f"{ne} expansions")
            t, w = user("Expand", call(g("Tag"), ["b", "x"])), call(g("Tag"), ["b", "x"])
            for i in range(ne):
                t, w = call(g("Tag"), ["div", t]), call(g("Tag"), ["div", w])
            agree(m(t, "render"), m(w, "render"), f"expansion {ne} levels deep")
    add("large", large)
    for th in sorted(int_thresholds(("htmltools/_core.py", "htmltools/_util.py"))):
        if 3 < th <= 40:
            add(f"large/{th}", lambda env, th=th: large(env, th))

    # ---- un-expanded objects
    PLACES = {
        "tag": lambda x: call(g("Tag"), ["div", x]), "tag-inline": lambda x: call(g("Tag"), ["b", x], [("_add_ws", False)]), "second": lambda x: call(g("Tag"), ["div", "t", x]),
        "first": lambda x: call(g("Tag"), ["div", x, "t"]), "list": lambda x: call(g("TagList"), [x]), "list2": lambda x: call(g("TagList"), ["t", x]), "deep": lambda x: call(g("Tag"), ["div", call(g("Tag"), ["p", "a", x])]),
        "deep-inline": lambda x: call(g("Tag"), ["div", call(g("Tag"), ["b", x], [("_add_ws", False)]), "z"]), "list-deep": lambda x: call(g("TagList"), [call(g("Tag"), ["ul", call(g("Tag"), ["li", x])])]),
        "void": lambda x: call(g("Tag"), ["br", x], [("_add_ws", False)]), "script": lambda x: call(g("Tag"), ["script", "a", x]), "script1": lambda x: call(g("Tag"), ["script", x]),
        "after-meta": lambda x: call(g("Tag"), ["div", user("Meta"), x]), "appended": lambda x: (lambda t: (m(t, "append", x), t)[1])(call(g("Tag"), ["p", "q"])),
    }
    CALLS = {"get_html_string": lambda t, e: m(t, "get_html_string"), "indented": lambda t, e: m(t, "get_html_string", T.Lin("k"), e.sym("eol")), "add_ws=False": None}
    for pn, pf in PLACES.items():
        for cn, cf in CALLS.items():
            def f(env, pf=pf, cf=cf, pn=pn, cn=cn):
                for mkx in (lambda: user("Expand", call(g("Tag"), ["b"])), lambda: user("Expand", call(g("TagList"), [])), lambda: user("Fresh", "tag"), lambda: user("Comp", None), lambda: user("Expand", "s")):
                    t = pf(mkx())
                    if cf is None:
                        if not t.cls.issub(g("TagList")):
                            continue
                        go = lambda: m(t, "get_html_string", add_ws=False)
                    else:
                        go = lambda: cf(t, env)
                    try:
                        r = go()
                    except Raised:
                        continue
                    raise Bad(f"markup of a tree holding an un-expanded object ({pn}, {cn}) is produced without an error: {T.show(r)}")
            add(f"unexpanded/{pn}/{cn}", f)

            def f(env, pf=pf, cf=cf, pn=pn, cn=cn):
                if cf is None:
                    return
                a = cf(pf(user("Both", call(g("Tag"), ["b"]), env.sym("s"))), env)
                b = cf(pf(user("Selfie", env.sym("s"))), env)
                check_same(a, b, f"a tagifiable that renders itself ({pn}, {cn})")
            add(f"selfrendering/{pn}/{cn}", f)
    return out


PROP = Prop(
    "C09", "Tagifiable objects render as their expansion, spliced in place",
    "render() of a tree with tagifiable objects equals render() of the tree with the expansions substituted (terms and dependencies); un-expanded markup raises on every path",
    [("htmltools", "TagList.tagify"), ("htmltools", "Tag.tagify"), ("htmltools", "HTMLDocument.render")], scenarios,
    bounds="all sequences of up to 2 of 24 node kinds, length 3-4 over smaller alphabets, in lists, elements and documents; expansion sizes around source constants",
)
