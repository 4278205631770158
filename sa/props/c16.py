"""C16: class/style helpers and css() act as token-set and declaration algebra."""
import itertools
import re

from .. import engine as E
from .. import terms as T
from ..api import Bad, g, m
from ..base import Prop, Scenario, int_thresholds
from ..engine import Raised, call, getattr_, getitem, mkdict, mklist, setitem, str_
from ..model import check_same, diff, preload, user
from ..oracle import Snap, canon, esc_attr, path_diff, same_markup
from ..terms import Str

CORE = "htmltools/_core.py"
UTIL = "htmltools/_util.py"
WSX = "".join(sorted(T.WS))


def newtag(cls=None, style=None, name="p"):
    """a tag with other attributes around class and style"""
    d = [("id", "i")]
    if cls is not None:
        d.append(("class", cls))
    d.append(("title", "class"))
    if style is not None:
        d.append(("style", style))
    d.append(("data-class", "foo bar;"))
    return call(g("Tag"), [name, mkdict(d), "child", call(g("Tag"), ["b", "class"], [("class_", "foo bar")])])


def attr(t, k):
    """(text, is HTML) or None"""
    d = getattr_(t, "attrs")
    for kk, v in d.data.items():
        if T.same(kk, k):
            h = isinstance(v, E.Inst) and v.cls.issub(g("HTML"))
            if h:
                v = getattr_(v, "data")
            elif isinstance(v, E.Inst) and v.cls.issub(E.STR):
                v = E.text_of(v)
            if not T.is_s(v):
                raise Bad(f"{k} is stored as a {E.type_of(v).name}", T.CUR_LOC[0])
            return v, h
    return None


def others(t, k):
    """everything of the tag except attribute k"""
    out = [getattr_(t, "name"), getattr_(t, "children"), getattr_(t, "add_ws")]
    for kk, v in getattr_(t, "attrs").data.items():
        if not T.same(kk, k):
            out += [kk, v]
    return Snap(*out).text


# ------------------------------------------------------------------ token algebra
class State:
    """specification: the token list (None: no attribute), each token with its HTML spelling"""

    def __init__(self, toks, html=False):
        self.toks, self.html = toks, html

    def spelled(self):
        return [t if not self.html or kind == "h" else esc_attr(t) for t, kind in self.toks]

    def is_(self, tok, u):
        t, kind = tok
        if kind == "h":     # written as markup: the token is what it decodes to
            return eqt(t, esc_attr(u)) or eqt(t, u)
        return eqt(t, u)


def eqt(a, b):
    return E.truth(E.eq_(a, b)) is True


def words(v):
    return E.tolist(m(v, "split"))


def check_state(t, st, what, k="class"):
    a = attr(t, k)
    if not st.toks:
        if a is not None and (st.toks is None or words(a[0])):
            raise Bad(f"{what}: the {k} attribute is {T.show(a[0])!r}, expected none", T.CUR_LOC[0])
        return
    if a is None:
        raise Bad(f"{what}: the {k} attribute is gone, expected {show(st.spelled())}", T.CUR_LOC[0])
    if a[1] != st.html:
        raise Bad(f"{what}: the {k} attribute is stored as {'HTML' if a[1] else 'plain text'}", T.CUR_LOC[0])
    got, want = words(a[0]), st.spelled()
    if len(got) != len(want):
        raise Bad(f"{what}: the classes are {show(got)}, expected {show(want)}", T.CUR_LOC[0])
    for x, y in zip(got, want):
        if st.html:
            same_markup(x, y, f"{what}: classes {show(got)}, expected {show(want)}")
        else:
            d = diff(x, y)
            if d:
                raise Bad(f"{what}: the classes are {show(got)}, expected {show(want)}", T.CUR_LOC[0])


def show(xs):
    return "[" + ", ".join(T.show(x) for x in xs)[:160] + "]"


def add(t, st, tok, pre, what):
    before = others(t, "class")
    r = call(getattr_(t, "add_class"), [tok], [("prepend", pre)] if pre is not None else [])
    if r is not t:
        raise Bad(f"{what}: add_class does not return the tag itself", T.CUR_LOC[0])
    ent = [(tok, "p")]
    old = st.toks or []
    st = State(ent + old if pre else old + ent, st.html)
    check_state(t, st, what)
    keep(before, t, "class", what)
    if E.truth(call(getattr_(t, "has_class"), [tok])) is not True:
        raise Bad(f"{what}: has_class is false for the class just added", T.CUR_LOC[0])
    return st


def remove(t, st, tok, what, given=None):
    before = others(t, "class")
    r = call(getattr_(t, "remove_class"), [tok if given is None else given])
    if r is not t:
        raise Bad(f"{what}: remove_class does not return the tag itself", T.CUR_LOC[0])
    if st.toks:
        left = [x for x in st.toks if not st.is_(x, tok)]
        st = State(left or None, st.html if left else False)
    check_state(t, st, what)
    keep(before, t, "class", what)
    if E.truth(call(getattr_(t, "has_class"), [tok])) is True:
        raise Bad(f"{what}: has_class is true for the class just removed", T.CUR_LOC[0])
    return st


def has(t, st, tok, what):
    before = Snap(t).text
    r = call(getattr_(t, "has_class"), [tok])
    if not isinstance(r, (bool, T.BoolV)):
        raise Bad(f"{what}: has_class gives a {E.type_of(r).name}")
    got = E.truth(r)
    want = any([st.is_(x, tok) for x in (st.toks or [])])
    if got != want:
        raise Bad(f"{what}: has_class({T.show(tok)}) is {got}, the classes are {show(st.spelled()) if st.toks else 'none'}", T.CUR_LOC[0])
    df = path_diff(before, Snap(t).text, "tag")
    if df:
        raise Bad(f"{what}: has_class modified the tag: {df}", T.CUR_LOC[0])


def keep(before, t, k, what):
    df = path_diff(before, others(t, k), "tag")
    if df:
        raise Bad(f"{what}: something other than {k} was modified: {df}", T.CUR_LOC[0])


# ------------------------------------------------------------------ declarations
def add_style(t, cur, s, pre, what, html=False):
    """cur: None or (text, html)"""
    before = others(t, "style")
    whole = Snap(t).text
    txt = getattr_(s, "data") if html else s
    ok = E.truth(m(txt, "endswith", ";"))
    try:
        r = call(getattr_(t, "add_style"), [s], [("prepend", pre)] if pre is not None else [])
    except Raised as e:
        if ok:
            raise Bad(f"{what}: add_style rejects {T.show(txt)!r}: {E.exc_text(e.value)}", e.loc)
        df = path_diff(whole, Snap(t).text, "tag")
        if df:
            raise Bad(f"{what}: the rejected add_style modified the tag: {df}", e.loc)
        return cur
    if not ok:
        raise Bad(f"{what}: add_style accepts {T.show(txt)!r}, which does not end in a semicolon", T.CUR_LOC[0])
    if r is not t:
        raise Bad(f"{what}: add_style does not return the tag itself", T.CUR_LOC[0])
    if cur is None:
        cur = (txt, html)
    else:
        a, b = cur[0], txt
        h = cur[1] or html
        if h:
            a, b = a if cur[1] else esc_attr(a), b if html else esc_attr(b)
        cur = (T.concat(b, " ", a) if pre else T.concat(a, " ", b), h)
    check_style(t, cur, what)
    keep(before, t, "style", what)
    return cur


def check_style(t, cur, what):
    a = attr(t, "style")
    if cur is None:
        if a is not None:
            raise Bad(f"{what}: a style attribute appeared", T.CUR_LOC[0])
        return
    if a is None:
        raise Bad(f"{what}: the style attribute is missing", T.CUR_LOC[0])
    if a[1] != cur[1]:
        raise Bad(f"{what}: the style is stored as {'HTML' if a[1] else 'plain text'}", T.CUR_LOC[0])
    if cur[1]:
        same_markup(a[0], cur[0], f"{what}: style")
    else:
        check_same(a[0], cur[0], f"{what}: style")


# ------------------------------------------------------------------ css
def prop_name(k):
    """underscores and camelCase to hyphenated lower case"""
    if isinstance(k, str):
        return "".join("-" + c.lower() if "A" <= c <= "Z" else "-" if c == "_" else c.lower() for c in k)
    return T.apply_hom(k, {**{c: "-" + c.lower() for c in map(chr, range(65, 91))}, "_": "-"})


def css_text(v):
    if isinstance(v, E.Inst) and v.cls.issub(E.LIST):
        out = []
        for i, x in enumerate(v.data):
            out += ([" "] if i else []) + [x]
        return T.concat("", *out)
    return str_(v)


def check_css(kw, what, sep=None):
    ents = [(k, v) for k, v in kw if v is not None]
    before = Snap(*[v for _, v in kw])
    r = call(g("css"), [], [("collapse_", sep)] * (sep is not None) + list(kw))
    df = path_diff(before.text, Snap(*[v for _, v in kw]).text, "value")
    if df:
        raise Bad(f"{what}: a given value was modified: {df}", T.CUR_LOC[0])
    if not ents:
        if r is not None:
            raise Bad(f"{what}: the result is {T.show(r) if T.is_s(r) else r!r}, expected None", T.CUR_LOC[0])
    else:
        if not T.is_s(r):
            raise Bad(f"{what}: the result is a {E.type_of(r).name}", T.CUR_LOC[0])
        ps = []
        for i, (k, v) in enumerate(ents):
            ps.append(T.concat(prop_name(k), ":", css_text(v), ";"))
        if sep is None or sep == "":
            check_same(r, T.concat(*ps), what)
        else:
            j = ps[0]
            for p in ps[1:]:
                j = T.concat(j, sep, p)
            # the separator after the last declaration is left open
            if diff(r, j):
                check_same(r, T.concat(j, sep), what)
    if sep is None or sep == "":
        t = newtag(style="a:b;")
        try:
            q = call(getattr_(t, "add_style"), [r])
        except Raised as e:
            raise Bad(f"{what}: add_style rejects the result: {E.exc_text(e.value)}", e.loc)
        if q is not t:
            raise Bad(f"{what}: add_style does not return the tag itself")
        check_style(t, ("a:b;", False) if r is None else (T.concat("a:b; ", r), False), what + ", added as style")
    return r


def scenarios(tier):
    preload()
    out = []

    def add_(n, f, **k):
        out.append(Scenario(n, f, **k))

    full = tier != "quick"

    def token(env, i, excl=""):
        return env.sym(f"t{i}", excl=set(WSX) | set(excl), nonempty=True)

    # ---- starting class values: text pieces (str: literal; int: symbolic token)
    STARTS = {
        "none": None, "one": ["foo"], "two": ["foo", " ", "bar"], "sub": ["foobar", " ", "foo", " ", "foo-x", " ", "xfoo"], "dup": ["foo", " ", "bar", " ", "foo"], "dups": ["foo", " ", "foo", " ", "foo"], "spaces": [" ", "foo", "  ", "bar", " "], "tabs": ["foo", "\t", "bar", "\n", "baz", "\r\n"], "nbsp": ["foo", "\x0c", "bar"],
        "sym": [0], "sym2": [0, " ", 1], "sym-lit": ["foo", " ", 0, "  ", "foo"], "sym3": [0, "\n", 1, " ", 0], "case": ["Foo", " ", "FOO", " ", "foo"], "special": ["a&b", " ", "a<b", " ", "md:w-1/2", " ", "[&>p]", " ", "a"], "regex": ["a.b", " ", "a+b", " ", "axb", " ", "a"], "empty": [], "blank": ["  "],
        "prefix": ["fo", " ", "foo", " ", "fooo", " ", "oo", " ", "f"], "hyphen": ["a-b", " ", "a", " ", "b", " ", "a_b"], "unicode": ["é", " ", "e\u0301", " ", "\u00ab", " ", "ß", " ", "ss"],
    }
    HSTARTS = {"html": ["foo", " ", "bar"], "html-sym": [0, " ", "foo"], "html-esc": ["a&amp;b", " ", "foo", " ", "a"], "html-dup": ["foo", "  ", "foobar", "\n", "foo"]}

    def start(env, sn, name="p"):
        html = sn in HSTARTS
        ps = HSTARTS[sn] if html else STARTS[sn]
        if ps is None:
            return newtag(name=name), State(None)
        text = [p if isinstance(p, str) else token(env, p, "&<>\"'" if html else "") for p in ps]
        v = T.concat("", *text)
        toks = [(x, "h" if html else "p") for x, p in zip(text, ps) if not isinstance(p, str) or p.strip()]
        t = newtag(call(g("HTML"), [v]) if html else v, name=name)
        return t, State(toks, html and True)

    LITS = ("foo", "bar", "fo", "oo", "foobar", "foo-x", "a", "a&b", "a.b", "a+b", "FOO", ".", "missing", "[&>p]", "é", "id", "class", "f", "x" * 20, '"', "'q'", "a-b", "b", "-", "&amp;", "None")
    OPN = {"add": (False, add), "pre": (True, add), "add0": (None, add), "rem": (None, remove)}

    def do(t, st, on, tok, what):
        pre, fn = OPN[on]
        if fn is add:
            return add(t, st, tok, pre, what)
        return remove(t, st, tok, what)
    for sn in (*STARTS, *HSTARTS):
        html = sn in HSTARTS

        groups = [[u] for u in LITS if not (html and u == "&amp;")]
        if "sym" not in sn:
            groups = [[u for x in groups for u in x]]
        for us in groups:
            def f(env, sn=sn, us=us):
                for u in us:
                    t, st = start(env, sn)
                    has(t, st, u, f"{sn}")
            add_(f"has/{sn}" + f"/{us[0]}" * (len(us) == 1), f)

        def f(env, sn=sn, html=html):
            t, st = start(env, sn)
            has(t, st, token(env, 7, "&<>\"'" if html else ""), f"{sn}")
            for x, _ in st.toks or []:
                has(t, st, x, sn)
        add_(f"has-any/{sn}", f)
        for on in OPN:
            for us in groups:
                def f(env, sn=sn, on=on, us=us):
                    for u in us:
                        t, st = start(env, sn)
                        st = do(t, st, on, u, f"{sn}, {on} {u}")
                        for w in ("foo", "foobar", "bar"):
                            has(t, st, w, f"{sn}, {on} {u}")
                add_(f"one/{sn}/{on}" + f"/{us[0]}" * (len(us) == 1), f)

            def f(env, sn=sn, on=on, html=html):
                u = token(env, 7, "&<>\"'" if html else "")
                t, st = start(env, sn)
                st = do(t, st, on, u, f"{sn}, {on} any token")
            add_(f"one-any/{sn}/{on}", f)
            for o2 in OPN:
                def f(env, sn=sn, on=on, o2=o2):
                    for u, w in itertools.product(("foo", "foobar", "a&b", "new"), ("foo", "bar", "a&b", "oo")):
                        t, st = start(env, sn)
                        st = do(t, st, on, u, f"{sn}, {on} {u}")
                        st = do(t, st, o2, w, f"{sn}, {on} {u}, {o2} {w}")
                        has(t, st, u, f"{sn}, {on} {u}, {o2} {w}")
                add_(f"two/{sn}/{on}/{o2}", f)
                if sn in ("none", "one", "sym", "dup", "html", "html-sym"):
                    def f(env, sn=sn, on=on, o2=o2, html=html):
                        u, w = token(env, 7, "&<>\"'" if html else ""), token(env, 8, "&<>\"'" if html else "")
                        t, st = start(env, sn)
                        st = do(t, st, on, u, f"{sn}, {on} any token")
                        st = do(t, st, o2, w, f"{sn}, {on}, {o2} any tokens")
                        has(t, st, u, f"{sn}, {on}, {o2}")
                    add_(f"two-any/{sn}/{on}/{o2}", f)
        for ops in itertools.product(("add", "pre", "rem"), repeat=3 if not full else 4):
            def f(env, sn=sn, ops=ops):
                for us in (("foo", "bar", "foo", "bar"), ("foo", "foo", "foo", "foo"), ("bar", "foo", "x", "foo"), ("x", "foobar", "x", "y")):
                    t, st = start(env, sn)
                    for i, on in enumerate(ops):
                        st = do(t, st, on, us[i], f"{sn}, {ops} {us}")
                    for u in ("foo", "bar", "x"):
                        has(t, st, u, f"{sn}, {ops} {us}")
            add_(f"seq/{sn}/{'-'.join(ops)}", f)

        # surrounding whitespace around the token to remove
        def f(env, sn=sn):
            for a, b in ((" ", ""), ("", " "), ("  ", "\n"), ("\t", "\t")):
                for u in ("foo", "bar", "foobar"):
                    t, st = start(env, sn)
                    remove(t, st, u, f"{sn}, remove {(a + u + b)!r}", given=a + u + b)
        add_(f"strip/{sn}", f)

        def f(env, sn=sn):
            # add then remove gives back the other tokens; remove twice is remove once; chained calls
            for u in ("new", "foo"):
                for pre in (False, True):
                    t, st = start(env, sn)
                    st = add(t, st, u, pre, f"{sn}, add {u}")
                    st = remove(t, st, u, f"{sn}, add and remove {u}")
                    st = remove(t, st, u, f"{sn}, remove {u} twice")
            t, st = start(env, sn)
            r = call(getattr_(call(getattr_(call(getattr_(call(getattr_(t, "add_class"), ["c1"]), "add_class"), ["c2"], [("prepend", True)]), "remove_class"), ["foo"]), "add_style"), ["x:y;"])
            if r is not t:
                raise Bad(f"{sn}: chained calls do not return the tag itself")
            st = State([("c2", "p"), *(st.toks or []), ("c1", "p")], st.html)
            st = State([x for x in st.toks if not st.is_(x, "foo")], st.html)
            check_state(t, st, f"{sn}, chained")
            check_style(t, ("x:y;", False), f"{sn}, chained")
        add_(f"laws/{sn}", f)

        def f(env, sn=sn):
            # operations on one tag leave an equal one alone; works for every element
            for name in ("br", "script", "svg"):
                t, st = start(env, sn, name)
                u, su = start(env, sn, name)
                st = add(t, st, "zz", False, f"{sn} <{name}>")
                st = remove(t, st, "foo", f"{sn} <{name}>")
                check_state(u, su, f"{sn} <{name}>, another tag")
            c = call(getattr_(E.import_module("copy"), "copy"), [u])
            st = add(c, su, "zz", True, f"{sn}, copied tag")
            check_state(u, su, f"{sn}, tag that was copied")
        add_(f"apart/{sn}", f)

    # tokens added to an arbitrary class value
    def anyvalue(env, pre):
        t = newtag(env.sym("c"))
        u = token(env, 7)
        r = call(getattr_(t, "add_class"), [u], [("prepend", pre)])
        v, h = attr(t, "class")
        c = env.sym("c")
        check_same(v, T.concat(u, " ", c) if pre else T.concat(c, " ", u), "class added to any value")
    for pre in (False, True):
        add_(f"any-value/{'pre' if pre else 'app'}", lambda env, pre=pre: anyvalue(env, pre))

    def falsy(env):
        for v in (None, False):
            t = call(g("Tag"), ["p"], [("class_", v)])
            st = State(None)
            has(t, st, "foo", f"class_={v}")
            st = remove(t, st, "foo", f"class_={v}")
            st = add(t, st, "foo", False, f"class_={v}")
        t = call(g("Tag"), ["p"], [("class_", 5)])
        st = State([("5", "p")])
        has(t, st, "5", "class_=5")
        st = add(t, st, "foo", True, "class_=5")
        st = remove(t, st, "5", "class_=5")
        t = call(g("Tag"), ["p"], [("class_", True)])
        st = State([])
        has(t, st, "foo", "class_=True")
    add_("odd-starts", falsy)

    for th in sorted(int_thresholds((CORE, UTIL))):
        if th > 64:
            continue

        def f(env, th=th):
            for n in (th, th + 1):
                toks = [f"k{i}" for i in range(n)] + ["foo"] + ["k0"] * n + ["z" * n]
                t, st = newtag(" ".join(toks)), State([(x, "p") for x in toks])
                has(t, st, "foo", f"{n} classes")
                has(t, st, "z" * n, f"{n} classes")
                st = remove(t, st, "k0", f"{n} classes")
                st = remove(t, st, "foo", f"{n} classes")
                st = add(t, st, "y" * (n + 1), True, f"{n} classes")
                st = add(t, st, "k1", False, f"{n} classes")
                st = remove(t, st, "k1", f"{n} classes")
                for x in [x for x in toks if x not in ("k0", "k1", "foo")]:
                    st = remove(t, st, x, f"{n} classes")
                cur = None
                t = newtag()
                for i in range(n):
                    cur = add_style(t, cur, f"p{i}:v;", bool(i % 2), f"{n} styles")
                cur = add_style(t, cur, "q" * n, False, f"{n} characters")
                cur = add_style(t, cur, "q" * n + ";", False, f"{n} characters")
                check_css([(f"p_{i}Q", i) for i in range(n)], f"css of {n}")
                check_css([("x_Y" * n, "v"), ("a", mklist(["w"] * n)), ("b", "z" * n)], f"css of {n} long")
                check_css([("_" * n, "v"), ("A" * n, "w")], f"css of {n} characters")
        add_(f"size/{th}", f)

    # ---- styles
    SSTART = {"none": None, "decl": ("a:b;", False), "no-semi": ("a:b", False), "sym": (0, False), "html": ("a:b;", True), "html-sym": (0, True), "special": ("content:\"x\";", False), "empty": ("", False), "two": ("a:b; c:d;", False)}
    STY = {
        "lit": lambda e: ("c:d;", False), "no-semi": lambda e: ("c:d", False), "sym;": lambda e: (T.concat(e.sym("s"), ";"), False), "sym": lambda e: (e.sym("s"), False), "space": lambda e: ("c:d; ", False), "newline": lambda e: ("c:d;\n", False), "semi": lambda e: (";", False), "empty": lambda e: ("", False),
        "html;": lambda e: (T.concat(e.sym("h", excl='"'), ";"), True), "html": lambda e: (e.sym("h", excl='"'), True), "html-no": lambda e: ("c:d", True), "mid": lambda e: ("a:b;c", False), "special": lambda e: ("content:'<&\">';", False), "same": lambda e: ("a:b;", False), "two": lambda e: ("x:y;z:w;", False), "comment": lambda e: ("/* ; */", False), "wide": lambda e: ("c:d\uff1b", False),
        "amp": lambda e: ("a:b&amp;", True), "html-empty": lambda e: ("", True), "lead": lambda e: (" c:d;", False),
    }

    def sstart(env, sn):
        v = SSTART[sn]
        if v is None:
            return newtag(), None
        txt = v[0] if isinstance(v[0], str) else env.sym("v0", excl='"' if v[1] else "")
        return newtag(style=call(g("HTML"), [txt]) if v[1] else txt), (txt, v[1])

    def style(env, k):
        t, h = STY[k](env)
        return (call(g("HTML"), [t]) if h else t), h
    for sn in SSTART:
        for k in STY:
            for pre in (False, True, None):
                def f(env, sn=sn, k=k, pre=pre):
                    t, cur = sstart(env, sn)
                    s, h = style(env, k)
                    cur = add_style(t, cur, s, pre, f"style {sn} + {k} ({'prepend' if pre else 'append'})", h)
                    check_style(t, cur, f"style {sn} + {k}")
                add_(f"style/{sn}/{k}/{pre}", f)
        for ks in itertools.product(("lit", "sym;", "no-semi", "html;", "special", "sym"), repeat=2):
            for pres in itertools.product((False, True), repeat=2):
                def f(env, sn=sn, ks=ks, pres=pres):
                    t, cur = sstart(env, sn)
                    for k, pre in zip(ks, pres):
                        s, h = style(env, k)
                        cur = add_style(t, cur, s, pre, f"style {sn} + {ks} {pres}", h)
                        check_style(t, cur, f"style {sn} + {ks} {pres}")
                add_(f"styles/{sn}/{'-'.join(ks)}/{pres}", f)

        def f(env, sn=sn):
            t, cur = sstart(env, sn)
            o, ocur = sstart(env, sn)
            st = State(None)
            for i in range(3):
                cur = add_style(t, cur, f"k{i}:v;", bool(i % 2), f"style history {sn}")
                st = add(t, st, f"c{i}", bool(i % 2), f"style history {sn}")
                cur = add_style(t, cur, f"k{i}:v", bool(i % 2), f"style history {sn}")
                check_style(t, cur, f"style history {sn}")
                st = remove(t, st, "c1", f"style history {sn}")
            check_style(o, ocur, f"style history {sn}: another tag")
        add_(f"style-history/{sn}", f)

    # ---- css
    NAMES = ("color", "font_size", "backgroundColor", "WebkitTransition", "margin_Top", "a_b_c", "_x", "x_", "__var", "x__y", "fontSizeAdjust", "A", "aB", "a1B2", "MozX_y", "float_", "ABC", "x-y", "--my-Var", "z9", "aÉ", "ß", "é_É", "Z", "aZ", "az_AZ")
    for i, nm in enumerate(NAMES):
        def f(env, nm=nm):
            check_css([(nm, "v")], f"css({nm}=…)")
            check_css([(nm, None)], f"css({nm}=None)")
            check_css([(nm, env.sym("s"))], f"css({nm}=…)")
            check_css([("before", "1"), (nm, "v"), ("after", 2)], f"css with {nm}")
        add_(f"css-name/{nm}", f)

    def anyname(env):
        nm = env.sym("k", only=set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"))
        if E.truth(E.eq_(nm, "collapse_")):
            return
        check_css([(nm, env.sym("s"))], "css of any name")
        check_css([(T.concat("x_", nm), 1), (T.concat("Y", nm, "Z_"), "v")], "css of any name")
    add_("css-any-name", anyname)
    CV = {
        "S": lambda e, i: e.sym(f"s{i}"), "lit": lambda e, i: "10px", "empty": lambda e, i: "", "X": lambda e, i: None, "0": lambda e, i: 0, "int": lambda e, i: T.Num(f"n{i}", "int"), "float": lambda e, i: T.Num(f"f{i}", "float"), "1.5": lambda e, i: 1.5, "False": lambda e, i: False, "True": lambda e, i: True, "list": lambda e, i: mklist(["a", e.sym(f"l{i}"), "c"]),
        "list1": lambda e, i: mklist([e.sym(f"l{i}")]), "list0": lambda e, i: mklist([]), "list2": lambda e, i: mklist(["a b", ""]), "semi": lambda e, i: "a;b", "html": lambda e, i: call(g("HTML"), [e.sym(f"h{i}")]), "mystr": lambda e, i: user("MyStr", "q"), "neg": lambda e, i: -1, "nl": lambda e, i: "a\nb", "Camel": lambda e, i: "fooBar_Baz", "colon": lambda e, i: "url(a:b)", "zero": lambda e, i: 0.0, "amp": lambda e, i: "<&>",
        "None": lambda e, i: "None",
    }
    for k in CV:
        def f(env, k=k):
            check_css([("fontSize", CV[k](env, 0))], f"css of {k}")
            check_css([("a", CV[k](env, 0)), ("b_c", "x")], f"css of {k}, x")
            check_css([("a", "x"), ("b_c", CV[k](env, 0))], f"css of x, {k}")
            check_css([("a", None), ("bC", CV[k](env, 0)), ("c", None)], f"css of {k} among None")
        add_(f"css-value/{k}", f)
    for ks in itertools.product(("S", "X", "int", "list", "empty", "0"), repeat=3):
        def f(env, ks=ks):
            check_css([(n, CV[k](env, i)) for i, (n, k) in enumerate(zip(("zIndex", "a_b", "m"), ks))], f"css of {ks}")
            check_css([(n, CV[k](env, i)) for i, (n, k) in enumerate(zip(("a_b", "aB", "a_B"), ks))], f"css of {ks} under like names")
        add_(f"css/{'-'.join(ks)}", f)

    def seps(env):
        for sep in ("\n", " ", "", "\n  ", env.sym("sep", nonempty=True)):
            for kw in ([], [("a", None)], [("fontSize", env.sym("s"))], [("a_b", "x"), ("n", None), ("cD", 2)], [("a", "1"), ("b", mklist(["x", "y"])), ("c", "3")]):
                check_css(kw, f"css with separator {T.show(sep)!r}", sep)
    add_("css-separator", seps)

    def repeated(env):
        kw = [("a_b", env.sym("s")), ("c", mklist(["x", "y"])), ("n", None)]
        for _ in range(3):
            check_css(kw, "css called again")
        check_css([], "css() after others")
        check_css([("z", 1)], "css after others")
    add_("css-again", repeated)
    return out


PROP = Prop(
    "C16", "Class/style helpers and css() act as token-set and declaration algebra",
    "after every operation the whitespace tokens of attrs['class'] must equal those of a list specification (append/prepend/filter), has_class its membership, attrs['style'] the declaration string "
    "specification with rejected calls leaving the object graph unchanged; css() must equal the concatenation of name:value; terms under the name map and be accepted by add_style",
    [("htmltools", "Tag.add_class"), ("htmltools", "Tag.remove_class"), ("htmltools", "Tag.has_class"), ("htmltools", "Tag.add_style"), ("htmltools", "css")], scenarios,
    assumptions=["class tokens are non-empty and contain no character for which str.isspace() holds", "HTML() class and style values contain no double quote (trusted markup)"],
    bounds="opaque tokens in starting values of up to 5 tokens with varied whitespace, operation sequences of length 3 (thorough: 4) over literal and length 2 over opaque tokens; css() of up to 3 arguments of every kind and of opaque names",
)
