"""C04: trusted markup is emitted verbatim; HTML() concatenation escapes once."""
import itertools

from .. import engine as E
from .. import mined
from .. import terms as T
from ..api import Bad, g, m, new
from ..base import Prop, Scenario, int_thresholds
from ..engine import Raised, call, getattr_, getitem, mkdict, mklist, repr_, setitem, str_
from ..model import NAMECH, VOID, build, check_same, el, htm, meta, need_str, num, preload, rep, taglist, tx, user
from ..oracle import canon, check_contains, esc_attr, esc_text, near_loc, same_markup, sources
from ..shapes import PLAIN
from ..terms import Str
from .c02 import ENTRY, routes as child_routes
from .c03 import check_value, joined, routes as attr_routes


def tag(*a, **k):
    return call(g("Tag"), list(a), list(k.items()))


def check_raw(out, name, what, times=1, allow_missing=False):
    """atom `name` reaches the output untouched, `times` times"""
    out = need_str(out, what)
    if not T.norm(T.sym(name)):
        return
    n = 0
    for p in T._resolve_parts(T.parts_of(out)):
        if not sources(p, name):
            continue
        n += 1
        if p[0] != "A":
            raise Bad(f"{what}: trusted markup is transformed: {T.show(Str([p]))}", p[2])
        h = T.eff_hom(*p[1])
        if h:
            raise Bad(f"{what}: character {h[0][0]!r} of trusted markup is emitted as {h[0][1]!r}", p[2])
    if name in T.P().sub:
        check_contains(out, T.sym(name), what, times=None, canonical=False)
    if name in T.P().sub and (len(T.norm(T.sym(name))) != 1 or T.const(T.sym(name)) is not None):
        return
    if n != times and not (allow_missing and n == 0):
        raise Bad(f"{what}: trusted markup occurs {n} times, expected {times}, in {T.show(out)}", near_loc(out, T.sym(name)))


def is_html(v):
    return isinstance(v, E.Inst) and v.cls.issub(g("HTML"))


def scenarios(tier):
    preload()
    out = []
    names = set()

    def add(n, f, **k):
        if n not in names:
            names.add(n)
            out.append(Scenario(n, f, **k))

    # ---- children: HTML(), self-rendering objects, in every route and position
    vals = {"HTML": lambda v: new("HTML", v), "repr": lambda v: user("Selfie", v), "sub": lambda v: user("MyHTML", v)}
    skip = {"sub": set(), "repr": {"tl+str", "str+tl", "tl+str+", "str+tl+", "extend-str", "extend-str+"}, "HTML": set()}
    for vn, vf in vals.items():
        for rn, rf in child_routes().items():
            if rn in skip[vn]:
                continue

            def f(env, rn=rn, rf=rf, vf=vf, vn=vn):
                o = rf(env, vf(env.sym("h")))
                check_raw(getitem(m(o, "render"), "html"), "h", f"{vn} via {rn}")
            add(f"{vn}/route/{rn}", f)
        for en, ef in ENTRY.items():
            for rn in ("arg", "arg-last", "inline-multi", "toplevel-multi", "toplevel", "expand-list", "in-pre-multi"):
                def f(env, rn=rn, ef=ef, en=en, vf=vf, vn=vn):
                    check_raw(ef(child_routes()[rn](env, vf(env.sym("h")))), "h", f"{vn} via {rn}, {en}")
                add(f"{vn}/entry/{en}/{rn}", f)
        for w in ("single", "multi", "second"):
            def f(env, w=w, vf=vf, vn=vn):
                nm = env.sym("name", only=NAMECH, nonempty=True)
                ks = {"single": [vf(env.sym("h"))], "multi": [vf(env.sym("h")), "x"], "second": [tag("p"), vf(env.sym("h"))]}[w]
                check_raw(m(call(g("Tag"), [nm] + ks), "get_html_string"), "h", f"{vn} in an element of any name")
            add(f"{vn}/any-name/{w}", f)
            for an, af in mined.ATTRS.items():
                def f(env, w=w, vf=vf, vn=vn, af=af):
                    at = af(env)
                    if len(at) == 2 and T.eq(at[0][0], at[1][0]):
                        return
                    ks = {"single": [vf(env.sym("h"))], "multi": [vf(env.sym("h")), "x"], "second": [tag("p"), vf(env.sym("h"))]}[w]
                    for ws in (True, False):
                        t = call(g("Tag"), ["div", mkdict(list(at))] + ks, [("_add_ws", ws)])
                        check_raw(m(t, "get_html_string"), "h", f"{vn} in an element with any attribute")
                        check_raw(str_(tag("p", "a", t, tag("br"))), "h", f"{vn} in an element with any attribute")
                add(f"{vn}/any-attr/{w}/{an}", f)

        def many(env, vf=vf, vn=vn):
            o = tag("div", vf(env.sym("h0")), vf(env.sym("h1")), tag("span", vf(env.sym("h2")), _add_ws=False), tag("p", vf(env.sym("h3"))), vf(env.sym("h4")))
            r = str_(o)
            for i in range(5):
                check_raw(r, f"h{i}", f"{vn} among siblings")
        add(f"{vn}/many", many)

        def indents(env, vf=vf, vn=vn):
            eol = env.sym("eol", only=" \t\r\n")
            for o in (tag("div", vf(env.sym("h")), tag("p", vf(env.sym("j")))), call(g("TagList"), [vf(env.sym("h")), tag("i", vf(env.sym("j")), _add_ws=False)])):
                r = m(o, "get_html_string", T.Lin("k"), eol)
                check_raw(r, "h", f"{vn} with any indentation")
                check_raw(r, "j", f"{vn} with any indentation")
        add(f"{vn}/indent", indents)

    def both(env):
        r = str_(tag("div", user("Both", user("Selfie", env.sym("h")), env.sym("no")), "x"))
        check_raw(r, "h", "expansion that renders itself")
    add("repr/expansion", both)

    def bothraw(env):
        r = m(tag("div", user("Both", "no", env.sym("h")), "x"), "get_html_string")
        check_raw(r, "h", "tagifiable self-rendering object without tagify")
    add("repr/untagified", bothraw)

    def lits(env):
        for s in ("<b>&\"'</b>", "a\n  b\r\n\tc", "&amp;amp;", "<script>x</script>", "<!-- c -->", "  lead and trail  ", "\n", "&"):
            for v in (new("HTML", s), user("Selfie", s)):
                check_contains(str_(tag("p", v)), s, f"markup {s!r} in <p>", times=None, canonical=False)
                check_contains(str_(tag("div", v, tag("p"))), s, f"markup {s!r} beside a block", times=None, canonical=False)
                check_contains(str_(tag("b", "x", v, _add_ws=False)), s, f"markup {s!r} inline", times=None, canonical=False)
            check_same(str_(new("HTML", s)), s, "str(HTML)")
            check_same(m(new("HTML", s), "as_string"), s, "HTML.as_string()")
            check_same(m(new("HTML", s), "_repr_html_"), s, "HTML._repr_html_()")
    add("literals", lits)

    def hstr(env):
        v = env.sym("h")
        h = new("HTML", v)
        for fn, what in ((str_, "str"), (repr_, "repr"), (lambda x: m(x, "as_string"), "as_string"), (lambda x: m(x, "_repr_html_"), "_repr_html_"),
                         (lambda x: str_(new("HTML", x)), "HTML(HTML)"), (lambda x: str_(new("HTML", new("HTML", x))), "HTML^3")):
            check_same(fn(h), v, what)
        if not is_html(new("HTML", h)):
            raise Bad("HTML(HTML()) is not HTML")
    add("HTML/strings", hstr)

    # ---- attribute values
    for rn, (n, rf) in attr_routes().items():
        for c in itertools.product("HS", repeat=n) if n < 4 else ("HHHH", "SHHS", "HSHS"):
            c = "".join(c)
            if "H" not in c:
                continue

            def f(env, rf=rf, rn=rn, c=c, own=False):
                vs, exp = [], []
                for i, k in enumerate(c):
                    v = env.sym(f"{'h' if k == 'H' else 's'}{i}", excl='"')
                    vs.append((user("MyHTML", v) if own else new("HTML", v)) if k == "H" else v)
                    exp.append(v if k == "H" else esc_attr(v))
                r = m(rf(vs), "get_html_string")
                for i, k in enumerate(c):
                    if k == "H":
                        check_raw(r, f"h{i}", f"HTML() attribute value via {rn} {c}")
                check_value(r, "k", joined(exp), f"{rn} {c}")
            add(f"attr/{rn}/{c}", f)
            if len(c) < 3:
                add(f"attr-own-class/{rn}/{c}", lambda env, f=f: f(env, own=True))

    def attr_helpers(env):
        h = env.sym("h", excl='"')
        t = tag("p")
        m(t, "add_class", new("HTML", h))
        check_raw(str_(t), "h", "add_class(HTML)")
        m(t, "add_class", "x")
        check_raw(str_(t), "h", "add_class(HTML) then add_class")
        m(t, "add_class", "y", prepend=True)
        check_raw(str_(t), "h", "add_class(HTML) then prepend")
        t = tag("p")
        m(t, "add_style", new("HTML", T.concat(h, ";")))
        m(t, "add_style", "a:b;")
        m(t, "add_style", "c:d;", prepend=True)
        check_raw(str_(t), "h", "add_style(HTML)")
        check_raw(str_(m(t, "tagify")), "h", "add_style(HTML), tagified")
        check_raw(getitem(m(call(g("HTMLDocument"), ["x"], [("lang", new("HTML", h))]), "render"), "html"), "h", "HTMLDocument attribute")
    add("attr/helpers", attr_helpers)

    def remove_keeps(env):
        tokens = [env.sym(f"c{i}", excl=T.WS | {'"'}, nonempty=True) for i in range(2)]
        for i in range(2):
            if T.eq(tokens[i], "zz") or T.eq(tokens[i], "z&amp;z"):
                return
        t = tag("p", class_=new("HTML", T.concat(tokens[0], " zz ", tokens[1])))
        m(t, "remove_class", "zz")
        r = str_(t)
        for i in range(2):
            check_raw(r, f"c{i}", "HTML class value after remove_class")
    add("attr/remove_class", remove_keeps)

    # ---- script / style
    for nm in ("script", "style"):
        for w in ("single", "two", "three", "list", "nested", "append", "insert", "meta", "html", "repr", "num", "indent", "attrs", "tagfn", "nows", "expand", "inline-parent",
                  "after-tag", "in-list"):
            def f(env, nm=nm, w=w):
                v, u = env.sym("t"), env.sym("u")
                T_ = lambda *a, **k: tag(nm, *a, **k)
                two = False
                if w == "single":
                    o = T_(v)
                elif w == "two":
                    o, two = T_(v, u), True
                elif w == "three":
                    o, two = T_("if(a<b){", v, u), True
                elif w == "list":
                    o = T_(mklist([v]))
                elif w == "nested":
                    o, two = T_(mklist([(v, None), mklist([u])])), True
                elif w == "append":
                    o, two = T_(v), True
                    m(o, "append", u)
                elif w == "insert":
                    o, two = T_(v), True
                    m(o, "insert", 0, u)
                elif w == "meta":
                    o, two = T_(user("Meta"), v, user("Meta"), u), True
                elif w == "html":
                    o, two = T_(v, new("HTML", u)), True
                elif w == "repr":
                    o, two = T_(v, user("Selfie", u)), True
                elif w == "num":
                    o = T_(v, 5)
                elif w == "indent":
                    o = tag("div", tag("p"), tag("div", T_(v, "x"), tag("p")))
                elif w == "attrs":
                    o = T_(v, mkdict([("type", "a")]), src="b")
                elif w == "tagfn":
                    o, two = call(g("tags." + nm), [v, u]), True
                elif w == "nows":
                    o, two = T_(v, u, _add_ws=False), True
                elif w == "expand":
                    o, two = T_(user("Expand", v), u), True
                elif w == "inline-parent":
                    o, two = tag("span", T_(v, _add_ws=False), T_(u), _add_ws=False), True
                elif w == "after-tag":
                    o = tag("div", tag("p", "x<y"), "a&b", T_(v))
                elif w == "in-list":
                    o, two = call(g("TagList"), ["a&b", T_(v), T_(u)]), True
                for en in ("str", "render", "indent", "document"):
                    r = ENTRY[en](o)
                    check_raw(r, "t", f"text in <{nm}> ({w}, {en})")
                    if two:
                        check_raw(r, "u", f"text in <{nm}> ({w}, {en})")
            add(f"{nm}/{w}", f)

        for an, w in itertools.product(mined.ATTRS, ("single", "two", "list", "nows")):
            def f(env, nm=nm, an=an, w=w):
                v, u = env.sym("t"), env.sym("u")
                at = mined.ATTRS[an](env)
                if len(at) == 2 and T.eq(at[0][0], at[1][0]):
                    return
                o = call(g("Tag"), [nm, mkdict(list(at)), v] + ([u] if w != "single" else []), [("_add_ws", w != "nows")])
                if w == "list":
                    o = call(g("TagList"), ["a&b", o, tag("p")])
                for en in ("str", "indent"):
                    r = ENTRY[en](o)
                    check_raw(r, "t", f"text in <{nm}> with any attribute ({w}, {en})")
                    if w != "single":
                        check_raw(r, "u", f"text in <{nm}> with any attribute ({w}, {en})")
            add(f"{nm}/any-attr/{an}/{w}", f)

        def lit(env, nm=nm):
            for s in ("if (a<b && c>d) {}", "a > b { content: \"&'\" }", "\n  x\n", "&lt;", "//<![CDATA["):
                check_contains(str_(tag(nm, s)), s, f"text in <{nm}>", times=None, canonical=False)
                check_contains(str_(tag(nm, s, "y")), s, f"text in <{nm}>", times=None, canonical=False)
        add(f"{nm}/literals", lit)

    # ---- concatenation algebra
    def build_ops(env, kinds):
        vs, exp = [], []
        for i, k in enumerate(kinds):
            if k == "H":
                v = env.sym(f"h{i}")
                vs.append(new("HTML", v))
                exp.append(v)
            elif k == "S":
                v = env.sym(f"s{i}")
                vs.append(v)
                exp.append(esc_text(v))
            elif k == "M":
                v = env.sym(f"m{i}")
                vs.append(user("MyHTML", v))
                exp.append(v)
            elif k == "E":
                vs.append("")
                exp.append("")
            elif k == "F":
                vs.append(new("HTML", ""))
                exp.append("")
            elif k == "Q":
                vs.append("<&>\"'\n")
                exp.append("&lt;&amp;&gt;\"'\n")
        return vs, exp

    def groupings(n):
        if n == 1:
            yield 0
            return
        for i in range(1, n):
            for a in groupings(i):
                for b in groupings(n - i):
                    yield (i, a, b)

    def evaluate(vs, gr, iadd):
        if gr == 0:
            return vs[0]
        i, a, b = gr
        x, y = evaluate(vs[:i], a, iadd), evaluate(vs[i:], b, iadd)
        return (E.inplace if iadd else E.binop)("Add", x, y)

    maxn = 5 if tier == "thorough" else 4
    for n in range(2, maxn + 1):
        for kinds in itertools.product("HS" if n > 3 else "HSEFQM" if n == 2 else "HSEM", repeat=n):
            if not any(k in "HFM" for k in kinds):
                continue
            for gi, gr in enumerate(groupings(n)):
                for iadd in (False, True) if n <= 3 else (False,):
                    def f(env, kinds=kinds, gr=gr, iadd=iadd):
                        vs, exp = build_ops(env, kinds)
                        r = evaluate(vs, gr, iadd)
                        what = f"{'+='if iadd else '+'} of {''.join(kinds)}, grouping {gr}"
                        if not is_html(r):
                            raise Bad(f"{what}: result is {E.type_of(r).name}, not HTML")
                        e = T.concat(*exp)
                        same_markup(str_(r), e, what)
                        same_markup(str_(tag("p", r)), T.concat("<p>", e, "</p>"), what + ", rendered as a child")
                        same_markup(str_(tag("b", r, "!", _add_ws=False)), T.concat("<b>", e, "!</b>"), what + ", rendered beside text")
                        # operands unchanged
                        for v, k, ee in zip(vs, kinds, exp):
                            if k in "HM":
                                check_same(str_(v), ee, what + ": operand after the operation")
                    add(f"concat/{''.join(kinds)}/{gi}{'/iadd' if iadd else ''}", f)

    def adjacent(env):
        for kinds in ("HS", "SH", "HSH", "SHS", "HHS"):
            vs, exp = build_ops(env, kinds)
            r = evaluate(vs, list(groupings(len(kinds)))[0], False)
            for w in (lambda *k: tag("p", *k), lambda *k: tag("b", *k, _add_ws=False), lambda *k: call(g("TagList"), list(k)),
                      lambda *k: tag("div", *k, tag("p")), lambda *k: tag("div", tag("p"), *k)):
                d = m(w(r), "get_html_string"), m(w(*vs), "get_html_string")
                # a lone HTML child and several text children may be laid out differently: compare the markup only
                a, b = strip_layout(d[0]), strip_layout(d[1])
                same_markup(a, b, f"concatenation of {kinds} against separate children")
    add("concat/adjacent", adjacent)

    OTHER = {"int": lambda e: 3, "float": lambda e: -1.5, "bool": lambda e: True, "none": lambda e: None, "shown": lambda e: user("Shown", e.sym("o")), "shown-html": lambda e: user("ShownHtml", e.sym("o")), "str-subclass": lambda e: user("MyStr", e.sym("o")), "str-html": lambda e: user("StrHtml", e.sym("o")),
             "tag": lambda e: tag("b", e.sym("o"), title=e.sym("o2")), "version": lambda e: call(g("HTMLDependency"), ["n", "1"])}

    def other(env, on):
        """operands that are neither str nor HTML count with their str(), escaped once"""
        for order in ("HO", "OH", "HOH", "HHO", "HOS", "HSO"):
            o = OTHER[on](env)
            vals = {"H": (new("HTML", env.sym("h")), env.sym("h")), "S": (env.sym("s"), esc_text(env.sym("s"))), "O": (o, esc_text(str_(o)))}
            for iadd in (False, True):
                if order in ("OH",) and on == "tag" and iadd:
                    continue
                try:
                    acc = vals[order[0]][0]
                    for k in order[1:]:
                        acc = (E.inplace if iadd else E.binop)("Add", acc, vals[k][0])
                except Raised as e:
                    raise Bad(f"{order} with {on}: {e}")
                if not is_html(acc):
                    raise Bad(f"{order} with an operand that is {on}: result is {E.type_of(acc).name}, not HTML")
                same_markup(str_(acc), T.concat(*[vals[k][1] for k in order]), f"{order} with an operand that is {on}")
    for on in OTHER:
        add(f"concat-other/{on}", lambda env, on=on: other(env, on))

    for th in sorted(int_thresholds(("htmltools/_core.py", "htmltools/_util.py"))):
        if th > 40:
            continue

        def f(env, th=th):
            vs = [new("HTML", env.sym(f"h{i}")) for i in range(3)]
            r = str_(tag("div", *vs, *["x"] * th, tag("p", new("HTML", T.concat("y" * th, env.sym("z"))))))
            for i in range(3):
                check_raw(r, f"h{i}", f"{th + 4} children")
            check_raw(r, "z", f"{th + 4} children")
            acc = vs[0]
            for i in range(th + 1):
                acc = E.binop("Add", acc, "<")
            check_same(canon(str_(acc)), T.concat(env.sym("h0"), "&lt;" * (th + 1)), "repeated concatenation")
        add(f"size/{th}", f)
    return out


def strip_layout(v):
    """drop indentation runs and newline+spaces literals that are layout (between tags)"""
    out = []
    for p in T._resolve_parts(T.parts_of(v)):
        if p[0] == "L":
            t = "".join(p[1].split("\n"))
            t = t.replace("  ", "")
            if t:
                out.append(("L", t, p[2]))
        elif p[0] != "R":
            out.append(p)
    return Str(out)


PROP = Prop(
    "C04", "Trusted markup is emitted verbatim and escaping happens exactly once",
    "every occurrence of HTML()/_repr_html_()/script/style text in the abstract output must be the identity image of the supplied text, occurring once; "
    "and the abstract value of every grouping of +, reflected + and += over HTML/plain operands must equal the concatenation of singly escaped operands",
    [("htmltools", "HTML"), ("htmltools", "HTML.__add__"), ("htmltools", "HTML.__radd__"), ("htmltools", "Tag.get_html_string"), ("htmltools", "TagList.get_html_string")],
    scenarios, bounds="operand sequences up to 4 (thorough 5) in every grouping; markup opaque",
)
