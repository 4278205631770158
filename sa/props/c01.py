"""C01: the abstract output re-tokenizes into exactly the tree that was rendered."""
import itertools

from .. import engine as E
from .. import mined
from .. import terms as T
from ..api import Bad, g, m, new
from ..base import Prop, Scenario, int_thresholds
from ..engine import call, getattr_, getitem, repr_, str_
from ..model import (ATTRCH, NAMECH, VOID, build, check_same, decode, diff, el, flat_text_runs, meta, need_str, num, preload, strip_ws, taglist,
                     tokenize, tx)
from ..shapes import KINDS, WRAPPERS, nodes, seqs, sname

WSCH = " \t\n\r"


def check_tokens(out, spec, what):
    out = need_str(out, what)
    toks = tokenize(out)
    exp = flat_text_runs(spec)
    a = []
    for t in toks:
        if t[0] == "text":
            d = strip_ws(decode(t[1], what))
            if T.norm(d):
                a.append(("text", d, t[2]))
        else:
            a.append(t)
    e = [x for x in exp if x[0] != "text" or T.norm(strip_ws(x[1]))]
    for i in range(max(len(a), len(e))):
        if i >= len(a):
            raise Bad(f"{what}: output ends before {ev(e[i])}: {T.show(out)}", T.parts_of(out)[-1][2] if T.parts_of(out) else None)
        loc = a[i][-1]
        if i >= len(e):
            raise Bad(f"{what}: extra {ev(a[i])} in output {T.show(out)}", loc)
        x, y = a[i], e[i]
        if x[0] != y[0]:
            raise Bad(f"{what}: {ev(x)} where {ev(y)} is expected in {T.show(out)}", loc)
        if x[0] == "text":
            d = diff(x[1], strip_ws(y[1]))
            if d:
                raise Bad(f"{what}: text run decodes differently: {d[0]}", d[1] or loc)
        elif x[0] == "end":
            if not T.same(x[1], y[1].name):
                raise Bad(f"{what}: end tag </{T.show(x[1])}> closes <{T.show(y[1].name)}>", loc)
        elif x[0] == "start":
            n = y[1]
            if not T.same(x[1], n.name):
                raise Bad(f"{what}: element <{T.show(x[1])}> where <{T.show(n.name)}> is expected", loc)
            if x[3] != y[2]:
                raise Bad(f"{what}: <{T.show(n.name)}> is {'' if x[3] else 'not '}self-closed", loc)
            if len(x[2]) != len(n.attrs):
                raise Bad(f"{what}: <{T.show(n.name)}> has {len(x[2])} attributes, tree has {len(n.attrs)}", loc)
            for (an, av, al), (en, ev_) in zip(x[2], n.attrs):
                if not T.same(an, en):
                    raise Bad(f"{what}: attribute {T.show(an)} where {T.show(en)} is expected", al)
                d = diff(decode(av if av is not None else "", f"{what}: attribute {T.show(en)}"), ev_)
                if d:
                    raise Bad(f"{what}: attribute {T.show(en)} decodes differently: {d[0]}", d[1] or al)


def ev(t):
    if t[0] == "text":
        return "text " + T.show(t[1], 80)
    if t[0] == "doctype":
        return "doctype"
    nm = t[1] if T.is_s(t[1]) else t[1].name
    return ("</" if t[0] == "end" else "<") + T.show(nm) + ">"


ENTRY = {
    "str": lambda x: str_(x),
    "repr": lambda x: repr_(x),
    "_repr_html_": lambda x: m(x, "_repr_html_"),
    "render": lambda x: getitem(m(x, "render"), "html"),
    "get_html_string": lambda x: m(x, "get_html_string"),
}


def eol_atom(env):
    return env.sym("eol", only=WSCH)


def scenarios(tier):
    preload()
    out = []

    def add(name, f, **k):
        out.append(Scenario(name, f, **k))

    # -- every tag name: constants for the void names and a symbolic name for the rest
    for kids in ("none", "text", "el", "meta", "emptytext"):
        for ws in (True, False):
            def f(env, kids=kids, ws=ws):
                nm = env.sym("name", only=NAMECH, nonempty=True)
                ks = {"none": [], "text": [tx(env.sym("t", excl="&<>"))], "el": [el("u", ws=ws)], "meta": [meta()], "emptytext": [tx("")]}[kids]
                n = el(nm, *ks, ws=ws, attrs=[("k", env.sym("v"))])
                r = m(build(n), "get_html_string")
                if T.eq(nm, "script") or T.eq(nm, "style"):
                    return
                check_tokens(r, [n], f"element with any name, {kids}")
            add(f"name/{kids}/{'ws' if ws else 'nows'}", f)
    for nm in VOID + ("div", "span", "x-custom", "p", "pre", "textarea", "td", "html", "body", "head", "svg"):
        for kids in ("none", "text", "void"):
            def f(env, nm=nm, kids=kids):
                ks = {"none": [], "text": [tx(env.sym("t"))], "void": [el("br", ws=False)]}[kids]
                n = el(nm, *ks)
                check_tokens(m(build(n), "get_html_string"), [n], f"<{nm}>")
                check_tokens(m(taglist([n, n]), "get_html_string"), [n, n], f"<{nm}><{nm}>")
            add(f"name={nm}/{kids}", f)
    # -- shapes
    ks = ["Be", "Bt", "Bm", "Ie", "It", "Im", "Vi", "Vb", "Vk", "T", "M", "IB", "IBm"]
    depth = 3 if tier == "thorough" else 2
    for s in seqs(ks, depth):
        for ws in (True, False):
            def f(env, s=s, ws=ws):
                ns = nodes(env, s)
                r = call(getattr_(taglist(ns), "get_html_string"), [T.Lin("k"), eol_atom(env)], [("add_ws", ws)])
                check_tokens(r, ns, "TagList" + sname(s))
            add(f"list{'' if ws else '~'}{sname(s)}", f)
        for w in WRAPPERS:
            def f(env, s=s, w=w):
                n = WRAPPERS[w](nodes(env, s))
                check_tokens(m(build(n), "get_html_string", T.Lin("k"), eol_atom(env)), [n], w + sname(s))
            add(f"{w}{sname(s)}", f)
    for s in seqs(["Bt", "It", "T", "Vi", "M"], 3, 3):
        for w in ("block", "inline"):
            def f(env, s=s, w=w):
                n = WRAPPERS[w](nodes(env, s))
                check_tokens(m(build(n), "get_html_string", T.Lin("k"), eol_atom(env)), [n], w + sname(s))
            if depth < 3:
                add(f"{w}{sname(s)}", f)
    # -- arbitrary text and numbers in every kind of position
    for s in list(seqs(["Tx", "N", "It", "Bt", "Te"], 2, 1)) + [("Tx", "M", "Tx"), ("Tx", "Tx", "Tx"), ("M", "Tx", "M")]:
        for w in list(WRAPPERS) + ["list"]:
            def f(env, s=s, w=w):
                ns = nodes(env, s)
                if w == "list":
                    check_tokens(m(taglist(ns), "get_html_string"), ns, "TagList" + sname(s))
                else:
                    n = WRAPPERS[w](ns)
                    check_tokens(m(build(n), "get_html_string"), [n], w + sname(s))
            add(f"text/{w}{sname(s)}", f)
    # -- attributes
    for k in range(0, 4):
        for w in ("void", "empty", "text", "kids"):
            def f(env, k=k, w=w):
                at = []
                for i in range(k):
                    at.append((f"data-a{i}", env.sym(f"v{i}")))
                n = {"void": lambda: el("img", attrs=at), "empty": lambda: el("div", attrs=at), "text": lambda: el("p", tx("x"), attrs=at),
                     "kids": lambda: el("div", el("b", tx("y"), ws=False, attrs=at), el("br", attrs=at), attrs=at)}[w]()
                check_tokens(m(build(n), "get_html_string"), [n], "attributes")
            add(f"attrs/{w}/{k}", f)

    def attr_name(env):
        nm = env.sym("an", only=ATTRCH - set("_"), nonempty=True)
        n = el("div", el("br", attrs=[(nm, env.sym("v"))], ws=False), attrs=[(nm, env.sym("w"))])
        call_n = call(g("Tag"), ["div", call(g("Tag"), ["br", E.mkdict([(nm, n.kids[0].attrs[0][1])])], [("_add_ws", False)]), E.mkdict([(nm, n.attrs[0][1])])])
        check_tokens(m(call_n, "get_html_string"), [n], "attribute with any name")
    add("attrs/any-name", attr_name)

    def attr_empty(env):
        n = el("input", attrs=[("a", ""), ("b", env.sym("v")), ("c", "")])
        t = call(g("Tag"), ["input"], [("a", True), ("b", n.attrs[1][1]), ("zz", None), ("yy", False), ("c", "")])
        check_tokens(m(t, "get_html_string"), [n], "boolean attributes")
    add("attrs/bool", attr_empty)
    # -- entry points
    for en, fn in ENTRY.items():
        def f(env, fn=fn, en=en):
            n = el("div", tx(env.sym("x")), el("br", ws=False), el("p", tx(env.sym("y", excl="&<>")), attrs=[("id", env.sym("v"))]))
            check_tokens(fn(build(n)), [n], en + "(Tag)")
            check_tokens(fn(taglist([n, tx("z")])), [n, tx("z")], en + "(TagList)")
        add("entry/" + en, f)
    # -- sizes just beyond every integer the source compares with
    for t, where in sorted(int_thresholds(("htmltools/_core.py", "htmltools/_util.py")).items()):
        if t > 60:
            continue
        for kind in ("Bt", "It", "T"):
            def f(env, t=t, kind=kind):
                n = el("div", *[KINDS[kind](env, str(i)) for i in range(t + 2)])
                check_tokens(m(build(n), "get_html_string"), [n], f"{t + 2} children")
            add(f"size/{t}/{kind}", f)

        def deep(env, t=t):
            n = tx("x")
            for i in range(t + 2):
                n = el("div" if i % 2 else "span", n, tx("y"), ws=bool(i % 2))
            check_tokens(m(build(n), "get_html_string"), [n], f"{t + 2} levels")
        add(f"size/{t}/depth", deep)
    for gn, gf in mined.generic():
        def f(env, gf=gf):
            n = gf(env)
            t = build(n)
            if T.is_s(n.name) and (T.eq(n.name, "script") or T.eq(n.name, "style")):
                return
            check_tokens(m(t, "get_html_string"), [n], "element with any attribute")
            check_tokens(m(taglist([tx("z"), n, n]), "get_html_string", T.Lin("k"), eol_atom(env)), [tx("z"), n, n], "elements with any attribute")
        add(f"generic/{gn}", f)
    for (a, b), sh in itertools.product(mined.combos(), ("inline", "texts", "block")):
        def f(env, a=a, b=b, sh=sh):
            n, _ = mined.grown(env, a, b, sh)
            check_tokens(m(build(n), "get_html_string"), [n], f"{a} levels, {b} children")
        add(f"grown/{a}/{b}/{sh}", f)
    return out


PROP = Prop(
    "C01", "Rendered markup parses back to the same element tree",
    "every abstract output string of Tag/TagList rendering is re-tokenized by an abstract HTML tokenizer (opaque text may appear only where its "
    "character images provably cannot open markup) and the token stream must equal the rendered tree's",
    [("htmltools", "Tag.get_html_string"), ("htmltools", "TagList.get_html_string")], scenarios,
    assumptions=["tag and attribute names range over HTML name characters", "eol arguments are whitespace (the property quantifies layout text)"],
    bounds="sibling sequences up to 2 (3 on the thorough tier and for the core kinds) and nesting wrappers up to depth 4; names, text, values, indent and eol are opaque; collection sizes beyond every integer constant in the source",
)
