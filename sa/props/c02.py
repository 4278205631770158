"""C02: plain text children reach the output through exactly the text escape."""
from .. import engine as E
from .. import mined
from .. import terms as T
from ..api import Bad, g, m, mod, new
from ..base import Prop, Scenario, int_thresholds
from ..engine import call, getattr_, getitem, mkdict, mklist, repr_, setitem, str_
from ..model import NAMECH, VOID, build, check_same, el, htm, meta, need_str, num, preload, rep, taglist, tokenize, tx, user
from ..oracle import ATTR_MAP, TEXT_MAP, canon, check_contains, esc_text, find_term, near_loc, same_markup, sources
from ..terms import Str

DOM = {c for c, _ in TEXT_MAP}


def check_inert(out, name, what, times=1, raw=None):
    """every occurrence of atom `name` in `out` is the text escape of the whole atom"""
    out = need_str(out, what)
    n = 0
    if name in T.P().sub and T.norm(T.sym(name)):
        # the partition knows (part of) the text: its escape is in the output
        check_contains(out, esc_text(T.sym(name)), what, times=None)
    for p in T._resolve_parts(T.parts_of(canon(out))):
        if not sources(p, name):
            continue
        n += 1
        if p[0] != "A":
            raise Bad(f"{what}: the text is transformed before it is emitted: {T.show(Str([p]))}", p[2])
        atom, hom = p[1]
        h = dict(T.eff_hom(atom, hom) or ())
        for c, img in TEXT_MAP:
            if T.atom_can(atom, c):
                if c not in h:
                    raise Bad(f"{what}: {c!r} of the supplied text is emitted as is in {T.show(out)}", p[2] or near_loc(out, Str([p])))
                if h[c] != img:
                    raise Bad(f"{what}: {c!r} is emitted as {h[c]!r} in {T.show(out)}", p[2])
        extra = [c for c in h if c not in DOM]
        if extra:
            raise Bad(f"{what}: character {extra[0]!r} is changed to {h[extra[0]]!r}", p[2])
    if times is not None and n != times and not T.norm(Str([("A", (T.Atom(name), None), None)])) == ():
        if name in T.P().sub and (len(T.norm(T.sym(name))) != 1 or T.const(T.sym(name)) is not None):
            return
        raise Bad(f"{what}: the text occurs {n} times, expected {times}, in {T.show(out)}", near_loc(out, T.sym(name)))


def txt(env, n="t"):
    return env.sym(n)


TAIL = "&amp;<b>&lt;\"'\r\n\t;&"


def gen(*vals):
    """an iterator over prepared values"""
    return E.IterV(iter(list(vals))) if False else call(E.BUILTINS["iter"], [mklist(vals)])


def routes():
    """name -> fn(env, value) building an object that holds the value once"""
    r = {}
    T_ = lambda *a, **k: call(g("Tag"), list(a), list(k.items()))
    TL = lambda *a: call(g("TagList"), list(a))
    r["arg"] = lambda e, v: T_("p", v)
    r["arg-inline"] = lambda e, v: T_("b", v, _add_ws=False)
    r["arg-void"] = lambda e, v: T_("br", v, _add_ws=False)
    r["arg-first"] = lambda e, v: T_("p", v, T_("b", _add_ws=False))
    r["arg-last"] = lambda e, v: T_("p", T_("b", _add_ws=False), v)
    r["arg-after-block"] = lambda e, v: T_("div", T_("p"), v)
    r["arg-before-block"] = lambda e, v: T_("div", v, T_("p"))
    r["arg-beside-meta"] = lambda e, v: T_("div", user("Meta"), v)
    r["arg-beside-html"] = lambda e, v: T_("p", new("HTML", "<i>"), v)
    r["arg-beside-text"] = lambda e, v: T_("p", "a", v, "b")
    r["inline-multi"] = lambda e, v: T_("span", v, T_("b", "x", _add_ws=False), _add_ws=False)
    r["inline-in-block"] = lambda e, v: T_("p", T_("span", v, _add_ws=False))
    r["block-in-inline"] = lambda e, v: T_("a", T_("div", v, "z"), _add_ws=False)
    r["with-attrs"] = lambda e, v: T_("p", mkdict([("class", "k")]), v, id="i")
    r["list"] = lambda e, v: T_("p", mklist([v]))
    r["tuple"] = lambda e, v: T_("p", (v,))
    r["nested"] = lambda e, v: T_("p", mklist([mklist([(v,)]), None]))
    r["nested-siblings"] = lambda e, v: T_("p", mklist(["a", mklist([v, T_("b")])]))
    r["taglist-arg"] = lambda e, v: T_("p", TL(v))
    r["toplevel"] = lambda e, v: TL(v)
    r["toplevel-multi"] = lambda e, v: TL(T_("p"), v)
    r["toplevel-text"] = lambda e, v: TL("x", v)
    r["toplevel-nested"] = lambda e, v: TL(mklist([v]), TL("b"))

    def mut(f, start=()):
        def go(e, v):
            t = T_("p", *start)
            f(t, v)
            return t
        return go

    def mutl(f, start=()):
        def go(e, v):
            t = TL(*start)
            f(t, v)
            return t
        return go
    for pre in ((), ("x",)):
        s = "" if not pre else "+"
        r["append" + s] = mut(lambda t, v: m(t, "append", v), pre)
        r["append-more" + s] = mut(lambda t, v: m(t, "append", "y", v), pre)
        r["append-list" + s] = mut(lambda t, v: m(t, "append", mklist([v])), pre)
        r["extend" + s] = mut(lambda t, v: m(t, "extend", mklist([v])), pre)
        r["extend-tuple" + s] = mut(lambda t, v: m(t, "extend", (v, "q")), pre)
        r["extend-taglist" + s] = mut(lambda t, v: m(t, "extend", TL(v)), pre)
        r["extend-iter" + s] = mut(lambda t, v: m(t, "extend", gen(v)), pre)
        r["extend-str" + s] = mut(lambda t, v: m(t, "extend", v), pre)
        r["insert0" + s] = mut(lambda t, v: m(t, "insert", 0, v), pre)
        r["insert-end" + s] = mut(lambda t, v: m(t, "insert", 5, v), pre)
        r["insert-neg" + s] = mut(lambda t, v: m(t, "insert", -1, v), pre)
        r["insert-list" + s] = mut(lambda t, v: m(t, "insert", 0, mklist([v, "k"])), pre)
        r["children.append" + s] = mut(lambda t, v: m(getattr_(t, "children"), "append", v), pre)
        r["children.extend" + s] = mut(lambda t, v: m(getattr_(t, "children"), "extend", mklist([v])), pre)
        r["children.insert" + s] = mut(lambda t, v: m(getattr_(t, "children"), "insert", 0, v), pre)
        r["tl.append" + s] = mutl(lambda t, v: m(t, "append", v), pre)
        r["tl.extend" + s] = mutl(lambda t, v: m(t, "extend", (v,)), pre)
        r["tl.insert" + s] = mutl(lambda t, v: m(t, "insert", 0, v), pre)
        r["tl+str" + s] = lambda e, v, pre=pre: E.binop("Add", TL(*pre), v)
        r["tl+list" + s] = lambda e, v, pre=pre: E.binop("Add", TL(*pre), mklist([v]))
        r["str+tl" + s] = lambda e, v, pre=pre: E.binop("Add", v, TL(*pre))
        r["list+tl" + s] = lambda e, v, pre=pre: E.binop("Add", mklist([v]), TL(*pre))
        r["tl+=" + s] = lambda e, v, pre=pre: E.inplace("Add", TL(*pre), mklist([v]))
    r["setitem"] = lambda e, v: (lambda t: (setitem(getattr_(t, "children"), 0, v), t)[1])(T_("p", "old"))
    r["expand-str"] = lambda e, v: T_("div", user("Expand", v), "x")
    r["expand-list"] = lambda e, v: T_("div", user("Expand", TL(v, T_("b"))))
    r["expand-tag"] = lambda e, v: TL(user("Expand", T_("p", v)))
    r["expand-only"] = lambda e, v: T_("p", user("Expand", v))
    r["with-block"] = _with
    r["copy"] = lambda e, v: call(getattr_(E.import_module("copy"), "copy"), [T_("p", v, "y")])
    r["tagfn"] = lambda e, v: call(g("tags.div"), [v])
    r["tagfn-span"] = lambda e, v: call(g("tags.span"), [v, "b"])
    for nm in ("title", "textarea", "pre", "noscript", "xmp", "iframe", "template", "svg", "SCRIPT", "Style", "scripts", "html", "body", "head", "option"):
        r["in-" + nm] = lambda e, v, nm=nm: T_(nm, v)
        r["in-" + nm + "-multi"] = lambda e, v, nm=nm: T_(nm, v, T_("b"))
    return r


def _with(e, v):
    t = call(g("Tag"), ["p"])
    m(t, "__enter__")
    hook = getattr_(E.import_module("sys"), "displayhook")
    call(hook, [v])
    m(t, "__exit__", None, None, None)
    return t


ENTRY = {
    "str": lambda x: str_(x),
    "repr": lambda x: repr_(x),
    "_repr_html_": lambda x: m(x, "_repr_html_"),
    "render": lambda x: getitem(m(x, "render"), "html"),
    "tagify": lambda x: m(m(x, "tagify"), "get_html_string"),
    "indent": lambda x: m(m(x, "tagify"), "get_html_string", 3, "\r\n"),
    "document": lambda x: getitem(m(call(g("HTMLDocument"), [x]), "render"), "html"),
    "twice": lambda x: (str_(x), str_(x))[1],
}


def nums(env):
    return {"float": T.Num("n", "float"), "int": T.Num("n", "int"), "lin": T.Lin("k"), "42": 42, "-1": -1, "2.5": 2.5, "True": True,
            "inf": float("inf"), "nan": float("nan"), "0": 0}


def scenarios(tier):
    preload()
    out = []
    add = lambda n, f, **k: out.append(Scenario(n, f, **k))
    for rn, rf in routes().items():
        def f(env, rn=rn, rf=rf):
            o = rf(env, txt(env))
            check_inert(getitem(m(o, "render"), "html"), "t", f"text via {rn}")
        add(f"route/{rn}", f)
    for en, ef in ENTRY.items():
        for rn in ("arg", "arg-last", "inline-multi", "toplevel-multi", "expand-list") + (tuple(routes()) if tier == "thorough" else ()):
            def f(env, rn=rn, en=en, ef=ef):
                check_inert(ef(routes()[rn](env, txt(env))), "t", f"text via {rn}, {en}")
            if f"entry/{en}/{rn}" not in {s.name for s in out}:
                add(f"entry/{en}/{rn}", f)

    # several texts, each escaped independently
    def two(env):
        o = call(g("Tag"), ["p", txt(env, "t"), txt(env, "u"), call(g("Tag"), ["b", txt(env, "w")])])
        r = str_(o)
        for a in ("t", "u", "w"):
            check_inert(r, a, "three texts")
    add("several", two)

    # exact literals, including text that looks escaped already
    for i, s in enumerate((TAIL, "&", "<", ">", "&amp;", "&#38;", "</p>", "<!--", "]]>", "'\"", "\x00\x7f\u2028é😀", "<br/>", "&lt;b&gt;", "a & b", "\n", " ")):
        def f(env, s=s):
            for o, e in ((call(g("Tag"), ["p", s]), T.concat("<p>", esc_text(s), "</p>")),
                         (call(g("Tag"), ["b", s, "x"], [("_add_ws", False)]), T.concat("<b>", esc_text(s), "x</b>"))):
                same_markup(str_(o), e, f"text {s!r}")
        add(f"literal/{i}", f)

    def substr(env):
        s = T.concat("<i>&", env.sym("t"), "&amp;", env.sym("u"), "</i>")
        same_markup(str_(call(g("Tag"), ["p", s])), T.concat("<p>", esc_text(s), "</p>"), "composed text")
    add("composed", substr)

    # numbers
    for nn in nums(None):
        for w in ("single", "multi", "top", "append"):
            def f(env, nn=nn, w=w):
                v = nums(env)[nn]
                e = esc_text(E.str_(v))
                if w == "single":
                    same_markup(str_(call(g("Tag"), ["p", v])), T.concat("<p>", e, "</p>"), f"number {nn}")
                elif w == "multi":
                    same_markup(str_(call(g("Tag"), ["b", v, "x"], [("_add_ws", False)])), T.concat("<b>", e, "x</b>"), f"number {nn}")
                elif w == "top":
                    same_markup(str_(call(g("TagList"), [v])), e, f"number {nn}")
                else:
                    t = call(g("Tag"), ["p"])
                    m(t, "append", v)
                    m(t, "extend", mklist([v]))
                    m(t, "insert", 0, v)
                    for c in E.tolist(getattr_(t, "children")):
                        check_same(c, E.str_(v), f"stored number {nn}")
            add(f"number/{nn}/{w}", f)

    # any element name except script/style
    for w in ("single", "multi"):
        def f(env, w=w):
            nm = env.sym("name", only=NAMECH, nonempty=True)
            o = call(g("Tag"), [nm, txt(env)] + (["z"] if w == "multi" else []))
            r = m(o, "get_html_string")
            if T.eq(nm, "script") or T.eq(nm, "style"):
                return
            check_inert(r, "t", "text in an element of any name")
        add(f"any-name/{w}", f)
    for nm in ("script", "style"):
        def f(env, nm=nm):
            o = call(g("Tag"), ["div", call(g("Tag"), [nm, "a<b"]), txt(env), call(g("Tag"), [nm, "a", "b"]), call(g("Tag"), ["p", txt(env, "u")])])
            r = str_(o)
            check_inert(r, "t", f"text next to <{nm}>")
            check_inert(r, "u", f"text next to <{nm}>")
        add(f"beside-{nm}", f)

    for an in mined.ATTRS:
        for w in ("single", "two", "inline", "block"):
            def f(env, an=an, w=w):
                at = mined.ATTRS[an](env)
                if len(at) == 2 and T.eq(at[0][0], at[1][0]):
                    return
                ks = {"single": [txt(env)], "two": [txt(env), "x"], "inline": ["x", call(g("Tag"), ["b"]), txt(env)], "block": [call(g("Tag"), ["p", txt(env)])]}[w]
                for nm in ("div", "a"):
                    t = call(g("Tag"), [nm, mkdict(list(at)), *ks], [("_add_ws", nm == "div")])
                    check_inert(m(t, "get_html_string"), "t", "text in an element with any attribute")
            add(f"any-attr/{an}/{w}", f)

    # exported helper
    def helper(env):
        for mod_, nm in (("htmltools", "html_escape"), ("htmltools._util", "html_escape"), ("htmltools._util", "_html_escape")):
            t = env.sym("t")
            same_markup(call(g(nm, mod_), [t]), esc_text(t), f"{mod_}.{nm}(text)")
            same_markup(call(g(nm, mod_), [t, False]), esc_text(t), f"{mod_}.{nm}(text, False)")
            same_markup(call(g(nm, mod_), [t], [("attr", False)]), esc_text(t), f"{mod_}.{nm}(text, attr=False)")
    add("html_escape", helper)

    def helper_lit(env):
        for s in (TAIL, "", "plain", "&&<<>>", "&lt;"):
            same_markup(call(g("html_escape"), [s]), esc_text(s), f"html_escape({s!r})")
    add("html_escape/literals", helper_lit)

    def helper_hist(env):
        call(g("html_escape"), [env.sym("z")], [("attr", True)])
        t = env.sym("t")
        same_markup(call(g("html_escape"), [t]), esc_text(t), "html_escape after an attribute escape")
        same_markup(str_(call(g("Tag"), ["p", t], [("title", t)])), T.concat('<p title="', T.apply_hom(t, dict(ATTR_MAP)), '">', esc_text(t), "</p>"), "same text as child and attribute")
    add("html_escape/history", helper_hist)

    # lengths beyond every integer the source mentions
    for th in sorted(int_thresholds(("htmltools/_core.py", "htmltools/_util.py"))):
        if th > 64:
            continue

        def f(env, th=th):
            o = call(g("Tag"), ["p"] + [txt(env, f"t{i}") for i in range(2)] + ["x"] * th + [T.concat("y" * th, txt(env, "z"))])
            r = str_(o)
            for a in ("t0", "t1", "z"):
                check_inert(r, a, f"{th + 3} texts")
        add(f"size/{th}", f)
    return out


PROP = Prop(
    "C02", "Plain-text children are inert data",
    "every occurrence of a supplied text in the abstract output must carry exactly the character map {&,<,>} -> decoding references and be the identity "
    "elsewhere (homomorphism domain check), for every child-adding route, position and entry point",
    [("htmltools", "Tag.get_html_string"), ("htmltools", "TagList.get_html_string"), ("htmltools", "html_escape")], scenarios,
    assumptions=["element names other than script and style"],
    bounds="texts are opaque (any characters, any length); one to three texts per tree, every route of the public child API",
)
