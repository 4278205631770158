"""C03: attribute values reach the output through exactly the attribute escape."""
from .. import engine as E
from .. import mined
from .. import terms as T
from ..api import Bad, g, m, new
from ..base import Prop, Scenario, int_thresholds
from ..engine import call, getattr_, getitem, mkdict, mklist, setitem, str_
from ..model import ATTRCH, NAMECH, build, check_same, need_str, preload, tokenize, user
from ..oracle import ATTR_MAP, canon, esc_attr, same_markup
from ..terms import Str

LIT = ("&", "<", ">", '"', "'", "\r", "\n", "&quot;", "a\"b", "\r\n", "'\"<>&\n\r", "&#10;", "x=\"y\" onclick='z'", "é\t\u2028", "", " ", "=", "`")


def tag(*a, **k):
    return call(g("Tag"), list(a), list(k.items()))


def start_attrs(out, what):
    toks = tokenize(need_str(out, what))
    for t in toks:
        if t[0] == "start":
            return t
    raise Bad(f"{what}: no start tag in {T.show(out)}")


def check_value(out, name, expected, what):
    """the emitted value of attribute `name` equals `expected` up to reference spelling;
    expected None: attribute absent"""
    st = start_attrs(out, what)
    vals = [(v, l) for n, v, l in st[2] if T.same(n, name)]
    if expected is None:
        if vals:
            raise Bad(f"{what}: attribute {name} is emitted as {T.show(vals[0][0])}", vals[0][1])
        return
    if len(vals) != 1:
        raise Bad(f"{what}: attribute {name} emitted {len(vals)} times in {T.show(out)}", st[-1])
    same_markup(vals[0][0] if vals[0][0] is not None else "", expected, f"{what}: value of {name}")
    raw = vals[0][0]
    for p in T._resolve_parts(T.parts_of(raw)):
        if p[0] == "R":
            raise Bad(f"{what}: indentation inside an attribute value", p[2])


def piece(env, kind, i):
    """(value given to the library, expected contribution or None)"""
    if kind == "S":
        v = env.sym(f"s{i}")
        return v, esc_attr(v)
    if kind == "H":
        v = env.sym(f"h{i}", excl='"')
        return new("HTML", v), v
    if kind == "N":
        v = T.Num(f"n{i}", "float")
        return v, esc_attr(E.str_(v))
    if kind == "I":
        v = T.Lin(f"k{i}")
        return v, esc_attr(E.str_(v))
    if kind == "T":
        return True, ""
    if kind == "F":
        return False, None
    if kind == "0":
        return 0, "0"
    if kind == "1":
        return 1, "1"
    if kind == "X":
        return None, None
    if kind == "E":
        return "", ""
    if kind == "Q":
        return "a\"b'<>&\r\n", "a&quot;b&apos;&lt;&gt;&amp;&#13;&#10;"
    raise AssertionError(kind)


def joined(exps):
    e = [x for x in exps if x is not None]
    if not e:
        return None
    out = [e[0]]
    for x in e[1:]:
        out += [" ", x]
    return T.concat(*out)


def routes():
    """value-supply routes for one or more values of attribute k"""
    r = {}
    r["kw"] = (1, lambda vs: tag("p", k=vs[0]))
    r["kw-ext"] = (1, lambda vs: tag("p", "text", k=vs[0], other="o"))
    r["dict"] = (1, lambda vs: tag("p", mkdict([("k", vs[0])])))
    r["void"] = (1, lambda vs: tag("img", k=vs[0]))
    r["kids"] = (1, lambda vs: tag("div", tag("b", "x"), "y", k=vs[0]))
    r["inline"] = (1, lambda vs: tag("b", tag("i", "x"), _add_ws=False, k=vs[0]))
    r["setitem"] = (1, lambda vs: _set(tag("p"), vs[0]))
    r["setitem-replace"] = (1, lambda vs: _set(tag("p", k="old"), vs[0]))
    r["update-kw"] = (1, lambda vs: _upd(tag("p"), [], [("k", vs[0])]))
    r["update-dict"] = (1, lambda vs: _upd(tag("p"), [mkdict([("k", vs[0])])], []))
    r["tagfn"] = (1, lambda vs: call(g("tags.div"), [], [("k", vs[0])]))
    r["copy"] = (1, lambda vs: call(getattr_(E.import_module("copy"), "copy"), [tag("p", k=vs[0])]))
    r["tagify"] = (1, lambda vs: m(tag("p", k=vs[0]), "tagify"))
    r["consolidate"] = (1, lambda vs: tag("p", getitem(call(g("consolidate_attrs"), [mkdict([("k", vs[0])])]), 0)))
    r["attrdict"] = (1, lambda vs: _attrs(tag("p"), call(g("TagAttrDict", "htmltools._core"), [mkdict([("k", vs[0])])])))
    r["dict+kw"] = (2, lambda vs: tag("p", mkdict([("k", vs[0])]), k=vs[1]))
    r["dict+dict"] = (2, lambda vs: tag("p", mkdict([("k", vs[0])]), mkdict([("k", vs[1])])))
    r["dict-alias"] = (2, lambda vs: tag("p", mkdict([("k", vs[0]), ("k_", vs[1])])))
    r["dict+dict+kw"] = (3, lambda vs: tag("p", mkdict([("k", vs[0])]), mkdict([("k", vs[1])]), k=vs[2]))
    r["dict^4"] = (4, lambda vs: tag("p", *[mkdict([("k", v)]) for v in vs]))
    r["update2"] = (2, lambda vs: _upd(tag("p"), [mkdict([("k", vs[0])]), mkdict([("k", vs[1])])], []))
    r["update3"] = (3, lambda vs: _upd(tag("p"), [mkdict([("k", vs[0])]), mkdict([("k", vs[1])])], [("k", vs[2])]))
    r["consolidate2"] = (2, lambda vs: tag("p", getitem(call(g("consolidate_attrs"), [mkdict([("k", vs[0])])], [("k", vs[1])]), 0)))
    r["consolidate-then"] = (2, lambda vs: tag("p", getitem(call(g("consolidate_attrs"), [mkdict([("k", vs[0])])]), 0), k=vs[1]))
    return r


def _set(t, v):
    if v is None or v is False:
        return tag("p")
    setitem(getattr_(t, "attrs"), "k", v)
    return t


def _upd(t, args, kw):
    call(getattr_(getattr_(t, "attrs"), "update"), args, kw)
    return t


def _attrs(t, a):
    E.setattr_(t, "attrs", a)
    return t


def scenarios(tier):
    import itertools

    preload()
    out = []
    add = lambda n, f, **k: out.append(Scenario(n, f, **k))
    kinds1 = "SHNITFX01EQ"
    for rn, (n, rf) in routes().items():
        if n == 1:
            combos = kinds1
        elif n == 2:
            combos = ["".join(c) for c in itertools.product("SHNTXFQE0", repeat=2)]
        elif n == 3:
            combos = ["".join(c) for c in itertools.product("SHX" if tier == "quick" else "SHXNTQ", repeat=3)] + ["QHQ", "HQT", "NHN"]
        else:
            combos = ["".join(c) for c in itertools.product("SH", repeat=4)] + ["HSTS", "SXHS", "QHHQ"]
        for c in combos:
            def f(env, c=c, rf=rf, rn=rn):
                ps = [piece(env, k, i) for i, k in enumerate(c)]
                o = rf([p[0] for p in ps])
                check_value(m(o, "get_html_string"), "k", joined([p[1] for p in ps]), f"{rn} with {c}")
            add(f"{rn}/{c}", f)
    # class/style helpers
    for c in ["".join(c) for k in (1, 2, 3) for c in itertools.product("SH", repeat=k)]:
        for pre in (False, True):
            def f(env, c=c, pre=pre):
                ps = [piece(env, k, i) for i, k in enumerate(c)]
                t = tag("p", mkdict([("class", ps[0][0])]))
                exp = [ps[0][1]]
                for v, e in ps[1:]:
                    call(getattr_(t, "add_class"), [v], [("prepend", pre)])
                    exp = [e] + exp if pre else exp + [e]
                if len(c) == 1:
                    t = tag("p")
                    call(getattr_(t, "add_class"), [ps[0][0]], [("prepend", pre)])
                check_value(m(t, "get_html_string"), "class", joined(exp), f"add_class {c}")
            add(f"add_class/{c}/{'pre' if pre else 'app'}", f)

            def f(env, c=c, pre=pre):
                vals, exp = [], []
                for i, k in enumerate(c):
                    v = env.sym(f"s{i}") if k == "S" else env.sym(f"h{i}", excl='"')
                    v = T.concat(v, ";")
                    vals.append(v if k == "S" else new("HTML", v))
                    e = esc_attr(v) if k == "S" else v
                    exp = [e] + exp if pre else exp + [e]
                t = tag("p")
                for v in vals:
                    call(getattr_(t, "add_style"), [v], [("prepend", pre)])
                check_value(m(t, "get_html_string"), "style", joined(exp), f"add_style {c}")
            add(f"add_style/{c}/{'pre' if pre else 'app'}", f)
    for i, s in enumerate(LIT):
        def f(env, s=s):
            for t in (tag("p", k=s), tag("br", k=s), tag("p", mkdict([("k", s)]), "child")):
                check_value(m(t, "get_html_string"), "k", esc_attr(s), f"value {s!r}")
            h = new("HTML", "x&y")
            for a, b, e in ((s, h, T.concat(esc_attr(s), " x&y")), (h, s, T.concat("x&y ", esc_attr(s)))):
                check_value(m(tag("p", mkdict([("k", a)]), mkdict([("k", b)])), "get_html_string"), "k", e, f"value {s!r} merged with HTML")
        add(f"literal/{i}", f)

    def names(env):
        nm = env.sym("an", only=ATTRCH - set("_"), nonempty=True)
        v = env.sym("s0")
        r = m(tag("p", mkdict([(nm, v)])), "get_html_string")
        check_value(r, nm, esc_attr(v), "attribute of any name")
    add("any-name", names)
    for nm in ("class_", "id", "style", "href", "src", "srcdoc", "title", "data_x", "aria_label", "onclick", "value", "charset", "content", "http_equiv", "for_", "alt"):
        def f(env, nm=nm):
            v = env.sym("s0")
            w = nm.rstrip("_").replace("_", "-")
            for t in (call(g("Tag"), ["a"], [(nm, v)]), call(g("Tag"), ["meta"], [(nm, v)]), call(g("Tag"), ["script", "x"], [(nm, v)])):
                check_value(m(t, "get_html_string"), w, esc_attr(v), f"attribute {nm}")
        add(f"name/{nm}", f)

    def anytag(env):
        nm = env.sym("name", only=NAMECH, nonempty=True)
        v = env.sym("s0")
        check_value(m(call(g("Tag"), [nm], [("k", v)]), "get_html_string"), "k", esc_attr(v), "element of any name")
    add("any-element", anytag)

    for an in ("any", "two", "before"):
        for vk in ("S", "H", "SH"):
            def f(env, an=an, vk=vk):
                """attributes with any name, on an element with any name"""
                at = mined.ATTRS[an](env)
                if len(at) == 2 and T.eq(at[0][0], at[1][0]):
                    return
                kv, exp = [], []
                for i, (k, v) in enumerate(at):
                    h = env.sym(f"h{i}", excl='"')
                    kv.append((k, {"S": v, "H": new("HTML", h), "SH": v}[vk]))
                    exp.append((k, {"S": esc_attr(v), "H": h, "SH": T.concat(esc_attr(v), " ", h)}[vk]))
                args = [mkdict(kv)]
                if vk == "SH":
                    args.append(mkdict([(k, new("HTML", env.sym(f"h{i}", excl='"'))) for i, (k, v) in enumerate(at)]))
                nm = env.sym("name", only=NAMECH, nonempty=True) if an == "any" else "p"
                r = need_str(m(call(g("Tag"), [nm, "x", *args]), "get_html_string"), "element with any attribute")
                tok = tokenize(r)[0]
                if len(tok[2]) != len(exp):
                    raise Bad(f"{len(tok[2])} attributes in {T.show(r)}, expected {len(exp)}", tok[-1])
                for (n, v, l), (en, ev) in zip(tok[2], exp):
                    check_same(n, en, "attribute name")
                    same_markup(v, ev, f"value of attribute {T.show(en)}")
            add(f"any-attr/{an}/{vk}", f)

    def several(env):
        a, b, c = env.sym("a"), env.sym("b"), env.sym("c")
        r = m(tag("p", tag("i", k=c), k=a, l=b), "get_html_string", T.Lin("ind"), env.sym("eol", only=" \n\r\t"))
        st = [t for t in tokenize(r) if t[0] == "start"]
        for t, exp in ((st[0], (("k", a), ("l", b))), (st[1], (("k", c),))):
            if len(t[2]) != len(exp):
                raise Bad(f"attributes of <{T.show(t[1])}>: {len(t[2])}", t[-1])
            for (n, v, l), (en, ev) in zip(t[2], exp):
                check_same(n, en, "attribute name")
                same_markup(v, esc_attr(ev), f"value of {en}")
    add("several", several)

    for en, ef in {"str": str_, "render": lambda x: getitem(m(x, "render"), "html"), "list": lambda x: str_(call(g("TagList"), [x])),
                   "indent": lambda x: m(x, "get_html_string", 2, "\n\n"), "tagify": lambda x: m(m(x, "tagify"), "get_html_string")}.items():
        def f(env, ef=ef, en=en):
            a, h = env.sym("a"), env.sym("h", excl='"')
            check_value(ef(tag("p", "x", mkdict([("k", a)]))), "k", esc_attr(a), en)
            check_value(ef(tag("p", "x", mkdict([("k", a)]), k=new("HTML", h))), "k", T.concat(esc_attr(a), " ", h), en)
        add(f"entry/{en}", f)

    def docattr(env):
        a = env.sym("a")
        for content in ([], [tag("html")], [tag("body")]):
            d = call(g("HTMLDocument"), content, [("lang", a)])
            r = getitem(m(d, "render"), "html")
            toks = [t for t in tokenize(r) if t[0] == "start" and T.same(t[1], "html")]
            vals = [v for n, v, l in toks[0][2] if T.same(n, "lang")]
            if len(vals) != 1:
                raise Bad("html attribute lang missing", toks[0][-1])
            same_markup(vals[0], esc_attr(a), "attribute of HTMLDocument")
    add("document", docattr)

    def depattr(env):
        a, b, c = env.sym("a"), env.sym("b"), env.sym("c")
        d = call(g("HTMLDependency"), ["n", "1"], [("script", mkdict([("src", "x.js"), ("data-a", a)])), ("stylesheet", mkdict([("href", "y.css"), ("title", b)])),
                                                   ("meta", mkdict([("name", "m"), ("content", c)]))])
        r = need_str(str_(m(d, "as_html_tags")), "dependency tags")
        for tok in tokenize(r):
            if tok[0] != "start":
                continue
            for n, v, l in tok[2]:
                if T.const(n) in ("data-a", "title", "content"):
                    same_markup(v, esc_attr({"data-a": a, "title": b, "content": c}[T.const(n)]), f"dependency attribute {T.const(n)}")
    add("dependency", depattr)

    def helper(env):
        t = env.sym("t")
        same_markup(call(g("html_escape"), [t], [("attr", True)]), esc_attr(t), "html_escape(attr=True)")
        same_markup(call(g("html_escape"), [t, True]), esc_attr(t), "html_escape(text, True)")
        call(g("html_escape"), [t])
        same_markup(call(g("html_escape"), [t], [("attr", True)]), esc_attr(t), "html_escape(attr=True) again")
    add("html_escape", helper)
    for th in sorted(int_thresholds(("htmltools/_core.py", "htmltools/_util.py"))):
        if th > 64:
            continue

        def f(env, th=th):
            ps = [piece(env, "SH"[i % 2], i) for i in range(3)] + [("x" * 1, "x")] * th + [piece(env, "S", 99)]
            t = tag("p", *[mkdict([("k", v)]) for v, _ in ps])
            check_value(m(t, "get_html_string"), "k", joined([e for _, e in ps]), f"{th + 4} values")
            t = call(g("Tag"), ["p"], [(f"a{i}", "v") for i in range(th + 1)] + [("k", T.concat("y" * th, ps[0][0]))])
            check_value(m(t, "get_html_string"), "k", T.concat("y" * th, ps[0][1]), f"{th + 2} attributes")
        add(f"size/{th}", f)
    return out


PROP = Prop(
    "C03", "Attribute values are inert, single-line, and decode to the original",
    "the emitted value term of every attribute must equal the supplied values under exactly the character map {& < > \" ' CR LF} -> decoding references "
    "(HTML() operands verbatim), joined by single spaces, for every supply route and merge combination",
    [("htmltools", "Tag.get_html_string"), ("htmltools._core", "TagAttrDict.update")], scenarios,
    assumptions=["HTML()-marked values do not themselves contain the double quote (trusted markup)", "attribute names are HTML name characters"],
    bounds="values are opaque; up to 4 merged values in every plain/HTML/number/bool/None combination",
)
