"""C18: output is a function of the construction alone: no hash seed, no history."""
import itertools

from .. import engine as E
from .. import terms as T
from ..api import Bad, g, m, mod
from ..base import Prop, Scenario
from ..engine import Raised, call, getattr_, getitem, mkdict, mklist, setattr_, str_
from ..model import preload, user
from ..oracle import path_diff, struct

CORE, UTIL = "htmltools/_core.py", "htmltools/_util.py"
ORDERS = (0, 1, 2, 3)  # insertion, reversed, rotated, odd places first (and four sets of hashes and addresses)


def tag(el, *a, **k):
    return call(g("Tag"), [el, *a], list(k.items()))


def tl(*a):
    return call(g("TagList"), list(a))


def html(s):
    return call(g("HTML"), [s])


def D(**k):
    return mkdict([(a.rstrip("_"), v) for a, v in k.items()])


def dep(name, version="1.0", **k):
    return call(g("HTMLDependency"), [name, version], list(k.items()))


def hc(*a):
    return call(g("head_content"), list(a))


def doc(*a, **k):
    return call(g("HTMLDocument"), list(a), list(k.items()))


def jsx(name, *a, **k):
    return call(g("JSXTag", "htmltools._jsx"), [name, *a], list(k.items()))


def copy_(x):
    return call(getattr_(E.import_module("copy"), "copy"), [x])


# ------------------------------------------------------------------ constructions
def many_deps():
    return [dep(n, v) for n, v in (("zeta", "1"), ("alpha", "2"), ("mid", "1.10"), ("alpha", "10"), ("beta", "0.1"), ("mid", "1.9"), ("zeta", "1"), ("Alpha", "1"), ("a", "1"))]


def serial(d):
    return str_(m(d, "serialize_to_script_json"))


def text_doc(*deps, extra=None, **k):
    body = T.concat("<html><head>@@</head>", *[T.concat(serial(d), "\n") for d in deps], "</html>")
    return call(g("HTMLTextDocument"), [body], [("deps", mklist(extra if extra is not None else [])), ("deps_replace_pattern", "@@")])


CAT = {
    "text": lambda e: [tag("p", "a<b&c>d\"e'f")], "html text": lambda e: [tag("p", html("a<b&c>d\"e'f"))], "same in script": lambda e: [tag("script", "a<b&c>d\"e'f")], "same in style": lambda e: [tag("style", "a<b&c>d\"e'f", "z")], "same as attribute": lambda e: [tag("p", title="a<b&c>d\"e'f")], "same as html attribute": lambda e: [tag("p", title=html("a<b&c>d\"e'f"))], "bare": lambda e: [tl("a<b&c>d\"e'f")], "bare html": lambda e: [tl(html("a<b&c>d\"e'f"))],
    "symbol": lambda e: [tag("p", e.sym("s"), title=e.sym("s"))], "html symbol": lambda e: [tag("p", html(e.sym("s")), title=html(e.sym("s")))],
    "one": lambda e: [tag("p", 1, title=1)], "one float": lambda e: [tag("p", 1.0, title=1.0)], "one bool": lambda e: [tag("p", True, title=True)], "one text": lambda e: [tag("p", "1", title="1")], "zero": lambda e: [tag("p", 0, title=0)], "false": lambda e: [tag("p", False, title=False)], "minus zero": lambda e: [tag("p", -0.0, title=-0.0)],
    "block": lambda e: [tag("x", "a", tag("y"), "b")], "inline": lambda e: [tag("x", "a", tag("y"), "b", _add_ws=False)], "inline child": lambda e: [tag("x", "a", tag("y", _add_ws=False), "b")], "other": lambda e: [tag("y", "a", tag("x"), "b")], "void": lambda e: [tag("br"), tag("hr", id="i")], "not void": lambda e: [tag("BR"), tag("p")], "void full": lambda e: [tag("br", "x")],
    "attrs": lambda e: [tag("p", D(b="1", a="2"), D(class_="z"), c="3", class_="y", a="4", data_x=True, data_y=False, data_z=None)], "attrs other order": lambda e: [tag("p", D(a="2", b="1"), class_="y z", data_x="", c="3")], "same name spelled": lambda e: [tag("p", D(**{"data-x": "1"}), data_x="2", for_="f", _for="g")],
    "classes": lambda e: [m(m(m(tag("p", class_="c b a b"), "add_class", "z"), "remove_class", "b"), "add_class", "q", prepend=True), tag("p", class_="z a c b q d"), m(m(tag("p", class_="b a"), "remove_class", "b"), "remove_class", "a")], "class html": lambda e: [m(tag("p", class_=html("c&amp;b a")), "add_class", "x&y"), m(tag("p", class_="a&b c"), "remove_class", "c")], "styles": lambda e: [m(m(tag("p", style="b:1;"), "add_style", "a:2;"), "add_style", "c:3;", prepend=True)],
    "css": lambda e: [tag("p", style=call(g("css"), [], [("zeta", "1"), ("alpha_b", 2), ("fontSize", None), ("mid", 1.5)]))],
    "deps": lambda e: [tag("div", *many_deps())], "deps nested": lambda e: [tl(tag("p", *many_deps()[:4]), tag("q", tag("r", *many_deps()[4:])), *many_deps()[2:5])], "dep": lambda e: [tag("div", dep("alpha", "2"))], "dep newer": lambda e: [tag("div", dep("alpha", "10"))], "dep older": lambda e: [tag("div", dep("alpha", "1", script=D(src="old.js")))], "dep same": lambda e: [tag("div", dep("alpha", "2", script=D(src="other.js")), dep("alpha", "2", script=D(src="second.js")))], "dep same swapped": lambda e: [tag("div", dep("alpha", "2", script=D(src="second.js")), dep("alpha", "2", script=D(src="other.js")))],
    "dep full": lambda e: [tag("div", dep("full", "1.2", source=D(subdir="src"), script=mklist([D(src="b.js", type="module", async_=""), D(src="a b.js")]), stylesheet=mklist([D(href="z.css", media="all"), D(href="c.css")]), meta=mklist([D(name="z", content="c"), D(name="a", content="")]), head=tag("title", "t")))], "dep full again": lambda e: [tag("div", dep("full", "1.2", source=D(subdir="src2"), script=mklist([D(src="b.js")]), all_files=True))], "dep url": lambda e: [tag("div", dep("full", "1.2", source=D(href="http://u/x"), script=D(src="b.js")))], "dep package": lambda e: [tag("div", dep("full", "1.2", source=D(package="htmltools", subdir="lib"), script=D(src="b.js")))], "dep symbol": lambda e: [tag("div", dep("sy", "1", head=e.sym("s")), dep("sy", "2"))],
    "heads": lambda e: [tag("div", hc("b"), hc("a"), hc(tag("title", "x")), hc("b"), hc(html("b")), hc("a<b"), hc(html("a<b")), hc("c", "d"), hc("cd"))], "head": lambda e: [tag("div", hc("a"))], "head upper": lambda e: [tag("div", hc("A"), hc("a "), hc(" a"))], "head empty": lambda e: [tag("div", hc(), hc(""), hc(None))], "head tag": lambda e: [tag("div", hc(tag("meta", name="a")), hc(tag("meta", name="b")), hc(tag("meta", name="a", content="b")), hc(tag("meta", content="b", name="a")))], "head symbol": lambda e: [tag("div", hc(e.sym("s")), hc(html(e.sym("s"))))],
    "document": lambda e: [doc(tag("p", "x"), *many_deps(), hc("q"), lang="en", class_="c")], "document html": lambda e: [doc(tag("html", tag("head", tag("title", "t"), dep("a", "1")), tag("body", *many_deps()), id="i"), lang="en")], "document body": lambda e: [doc(tag("body", dep("b", "1"), "x", id="i"), lang="fr")], "document empty": lambda e: [doc(), doc(lang="en")], "document expand": lambda e: [doc(user("Fresh", "html"), lang="x"), doc(user("Fresh", "body")), doc(user("Fresh", "dep"), "y")],
    "text document": lambda e: [text_doc(*many_deps()[:5], extra=many_deps()[3:])], "text document repeated": lambda e: [text_doc(dep("r", "1"), dep("q", "1"), dep("r", "1"), dep("q", "2"), dep("r", "1"), dep("a", "1"))], "text document none": lambda e: [call(g("HTMLTextDocument"), ["<html>@@ @@</html>"], [("deps_replace_pattern", "@@")])],
    "expand": lambda e: [tag("div", user("Fresh", "list"), user("Fresh", "empty"), user("Fresh", "dep"), user("Fresh", "tag"))], "both": lambda e: [tag("div", user("Both", tag("i"), "<b>"), user("Selfie", "<i>"))], "selfie": lambda e: [tag("p", user("Selfie", "a<b"))], "meta": lambda e: [tag("div", user("Meta", "m"), "x", user("Meta", "m"))], "deep": lambda e: [tag("a", tag("b", tag("c", tag("d", tag("e", "x"), "y"), "z", _add_ws=False)))], "multi line": lambda e: [tag("pre", "a\n  b\n"), tag("p", "a\n", html("\nb"))],
    "jsx": lambda e: [jsx("Foo", "t", tag("p", dep("inner", "1"), style="a:b;c:d"), jsx("Bar", x=1), b=1, a="q", style=D(color="red", fontSize=2), data_x=mklist([1, "a", None, D(z=1, y=2)]), cb=call(g("jsx", "htmltools._jsx"), ["() => 1"]))], "jsx deps": lambda e: [jsx("Foo", *many_deps()[:5], tag("p", *many_deps()[5:]), p=tag("i", dep("prop", "3")), q=jsx("Baz", dep("nested", "1")))], "jsx allowed": lambda e: [call(call(g("jsx_tag_create", "htmltools._jsx"), ["Al"], [("allowedProps", mklist(["b", "a", "c"]))]), [], [("c", 1), ("a", 2)])],
    "functions": lambda e: [call(g("div"), ["x", call(g("span"), ["y"])], [("id", "i")]), call(g("tags.svg"), [call(g("svg.path"), [], [("d", "M0")])])],
    "mutated": lambda e: [mutated()],
}


def mutated():
    t = tag("div", "a")
    m(t, "append", "b", tag("p"))
    m(t, "insert", 0, dep("ins", "1"))
    m(t, "extend", mklist(["c", dep("ext", "1")]))
    getattr_(t, "attrs")
    E.setitem(getattr_(t, "attrs"), "zz", "1")
    m(getattr_(t, "attrs"), "update", D(aa="2"))
    return t


def version_of(d):
    return (struct(getattr_(d, "name")), struct(str_(getattr_(d, "version"))))


def rendered(r):
    return ("html", struct(getitem(r, "html")), "deps", tuple(version_of(d) for d in E.tolist(getitem(r, "dependencies"))))


def attempt(what, f):
    try:
        return (what, f())
    except Raised as e:
        return (what, "raises", e.value.cls.name)


def observe(x):
    """everything a user gets out of x"""
    k = x.cls
    out = []
    if k.issub(g("Tag")) or k.issub(g("TagList")):
        out += [attempt("str", lambda: struct(str_(x))), attempt("render", lambda: rendered(m(x, "render"))), attempt("document", lambda: rendered(m(doc(x), "render"))), attempt("dependencies", lambda: tuple(version_of(d) for d in E.tolist(m(m(x, "tagify"), "get_dependencies", dedup=False))))]
        for d in E.tolist(m(x, "get_dependencies")):
            out.append(attempt("dependency", lambda: (struct(str_(m(d, "as_html_tags"))), struct(m(d, "as_dict", lib_prefix=None)), struct(serial(d)))))
    elif k.issub(g("HTMLDocument")):
        out += [attempt("render", lambda: rendered(m(x, "render"))), attempt("render plain", lambda: rendered(m(x, "render", lib_prefix=None, include_version=False)))]
    elif k.issub(g("HTMLTextDocument")):
        out += [attempt("render", lambda: rendered(m(x, "render")))]
    else:
        out += [attempt("str", lambda: struct(str_(x))), attempt("tagify", lambda: rendered(m(m(x, "tagify"), "render"))), attempt("document", lambda: rendered(m(doc(x), "render")))]
    return tuple(out)


def result(env, name, mode=None):
    if mode:
        setattr_(mod("htmltools"), "html_dependency_render_mode", mode)
    try:
        things = attempt("construction", lambda: CAT[name](env))
        if things[1] == "raises":
            return things
        out = tuple(observe(x) for x in things[1])
        if T.const(getattr_(mod("htmltools"), "html_dependency_render_mode")) != (mode or "invisible"):
            raise Bad("rendering changes html_dependency_render_mode, on which later output depends", None)
        return out
    finally:
        if mode:
            setattr_(mod("htmltools"), "html_dependency_render_mode", "invisible")


def new_process(order=0):
    """the state right after import, in a process with other hashes and addresses"""
    E.JOURNAL.restore()
    E.id_reset()
    T.P().nd = order


def same(a, b, what):
    d = path_diff(a, b)
    if d:
        raise Bad(f"{what}: {d}", None)


def exercise(env):
    """operations with user-supplied content that fails part-way, or passes by the renderer"""
    bad = [
        lambda: m(tag("p", user("Expand", "x")), "get_html_string"), lambda: str_(tag("p", "a<b", user("Broken"))), lambda: tag("p", user("Plain")), lambda: tl("a", mklist([user("Plain")])), lambda: m(tag("p", class_="a"), "add_style", "no semicolon"), lambda: call(g("HTMLTextDocument"), ["x"], [("deps", mklist([]))]),
        lambda: call(g("HTMLTextDocument"), ['<script type="application/json" data-html-dependency="">{bad</script>'], [("deps", mklist([])), ("deps_replace_pattern", "q")]), lambda: m(doc(tag("p", user("Broken")), dep("alpha", "99")), "render"), lambda: str_(jsx("Foo", user("Broken"), a=user("Plain"))), lambda: dep("alpha", "not a version"), lambda: dep("alpha", "1", script=D(href="x")), lambda: m(dep("alpha", "1", source=D(subdir="nowhere"), script=D(src="a.js")), "copy_to", "dst"),
        lambda: user("with_block", tag("p", "w"), E.NativeF("body", lambda: call(getattr_(E.import_module("sys"), "displayhook"), [user("Plain")]))), lambda: tag("p", _add_ws="yes"), lambda: call(g("css"), [], [("a", user("Plain"))]),
    ]
    for f in bad:
        try:
            f()
        except Raised:
            pass


def scenarios(tier):
    preload()
    out = []

    def add(n, f, **k):
        out.append(Scenario(n, f, **k))
    names = list(CAT)

    # ---- the same construction in every process
    def processes(env, name, mode):
        first = None
        for o in ORDERS:
            new_process(o)
            r = result(env, name, mode)
            if first is None:
                first = r
            same(first, r, f"{name}: process {o} gives another output")
            same(r, result(env, name, mode), f"{name}: constructing and rendering it a second time")
        new_process(0)
    for n in names:
        for mode in (None, "json"):
            add(f"process/{n}/{mode or 'invisible'}", lambda env, n=n, mode=mode: processes(env, n, mode))

    # ---- the output does not depend on what was built or rendered before
    FRESH = {}

    def wants(env, names, mode=None):
        out = {}
        for n in names:
            if (n, mode) not in FRESH:
                new_process(0)
                used = set(env.used)
                r = result(env, n, mode)
                if env.used != used or "symbol" in n:
                    out[n] = r  # depends on the partition
                    continue
                FRESH[n, mode] = r
            out[n] = FRESH[n, mode]
        return out

    def history(env, a, order, mode, part):
        """a comes first; everything else follows, in one process"""
        want = wants(env, part)
        new_process(order)
        result(env, a, mode)
        E.id_barrier()
        for b in part:
            same(want[b], result(env, b), f"{b}, after {a} was built and rendered{' in json mode' if mode else ''}")
            E.id_barrier()

    def built_before(env, a, part):
        want = wants(env, part)
        new_process(0)
        things = {b: attempt("construction", lambda: CAT[b](env)) for b in part}
        result(env, a)
        for b in part:
            got = things[b] if things[b][1] == "raises" else tuple(observe(x) for x in things[b][1])
            same(want[b], got, f"{b}, built before {a} was built and rendered")

    def json_after(env, part):
        want = wants(env, part, "json")
        plain = wants(env, part)
        new_process(1)
        for b in part:
            same(plain[b], result(env, b), f"{b}")
            same(want[b], result(env, b, "json"), f"{b} in json mode, after it was rendered otherwise")
            same(plain[b], result(env, b), f"{b}, after it was rendered in json mode")
    plain = [n for n in names if "symbol" not in n]
    chunks = [plain[i::2] for i in range(2)] + [[n for n in names if "symbol" in n]]
    for a in names:
        for i, part in enumerate(chunks):
            add(f"history/{a}/{i}", lambda env, a=a, part=part: history(env, a, 0, None, part))
            if tier == "thorough" or (names.index(a) + i) % 3 == 0:
                add(f"history-json/{a}/{i}", lambda env, a=a, part=part: history(env, a, 1, "json", part))
            if tier == "thorough" or (names.index(a) + i) % 3 == 1:
                add(f"built-before/{a}/{i}", lambda env, a=a, part=part: built_before(env, a, part))
    for i in range(6):
        add(f"json-after/{i}", lambda env, part=names[i::6]: json_after(env, part))

    def after_errors(env, part):
        want = wants(env, part)
        for o in (0, 1):
            new_process(o)
            exercise(env)
            E.id_barrier()
            for b in part:
                same(want[b], result(env, b), f"{b}, after failed operations")
    for i in range(8):
        add(f"errors/{i}", lambda env, part=(plain + [n for n in names if "symbol" in n])[i::8]: after_errors(env, part))

    # ---- the same construction with one part another: names, keys, values and texts left open, and near-equal ones
    J = lambda: getattr_(mod("htmltools._jsx"), "JSXTag")
    NM = "abcxyzABCXYZ0-"

    def grown(f):
        t = tag("p", "x")
        f(getattr_(t, "attrs"), t)
        return [t]
    SLOTS = {
        "element": ("name", lambda v: [tag(v, "x", id="i")]), "element empty": ("name", lambda v: [tag(v)]), "element child": ("name", lambda v: [tag("div", "a", tag(v, "x", tag("b")), "b")]), "inline element": ("name", lambda v: [tag("div", tag(v, "x", _add_ws=False), tag("b"))]),
        "attribute": ("name", lambda v: [call(g("Tag"), ["p", mkdict([(v, "w")])])]), "keyword": ("name", lambda v: [call(g("Tag"), ["p"], [(v, "w")])]), "attribute true": ("name", lambda v: [call(g("Tag"), ["p", mkdict([(v, True)])])]), "attribute item": ("name", lambda v: grown(lambda a, t: E.setitem(a, v, "w"))), "attribute update": ("name", lambda v: grown(lambda a, t: m(a, "update", mkdict([(v, "w")])))), "attribute twice": ("name", lambda v: [call(g("Tag"), ["p", mkdict([(v, "w")]), mkdict([(v, "u")])])]),
        "attribute value": ("any", lambda v: [tag("p", title=v)]), "attribute html value": ("text", lambda v: [tag("p", title=html(v))]), "attribute item value": ("any", lambda v: grown(lambda a, t: E.setitem(a, "title", v))), "update value": ("any", lambda v: grown(lambda a, t: m(a, "update", D(title=v)))), "two values": ("any", lambda v: [call(g("Tag"), ["p", D(title=v)], [("title", "z")])]), "class": ("text", lambda v: [tag("p", class_=v)]), "add class": ("text", lambda v: grown(lambda a, t: m(t, "add_class", v))), "add class html": ("text", lambda v: grown(lambda a, t: m(t, "add_class", html(v)))), "remove class": ("text", lambda v: [m(tag("p", class_="a A  c-d"), "remove_class", v)]), "style": ("text", lambda v: [m(tag("p", style="q:r;"), "add_style", T.concat(v, ";"))]), "style attribute": ("text", lambda v: [tag("p", style=v)]),
        "text": ("any", lambda v: [tag("p", v)]), "texts": ("any", lambda v: [tag("p", "a", v, v)]), "html": ("text", lambda v: [tag("p", html(v))]), "script": ("text", lambda v: [tag("script", v)]), "bare": ("any", lambda v: [tl(v)]), "list": ("any", lambda v: [tl(mklist([v, (v, "x")]))]), "multi": ("text", lambda v: [tag("div", tag("p", v), tag("q", html(v)))]), "selfie": ("text", lambda v: [tag("p", user("Selfie", v))]), "expansion": ("text", lambda v: [tag("p", user("Expand", tl(v, tag("i", v))))]), "sum": ("text", lambda v: [tag("p", E.binop("Add", html("<b>"), v), E.binop("Add", v, html("<i>")))]), "document text": ("text", lambda v: [doc(v)]),
        "document attribute": ("name", lambda v: [doc("x", lang="en"), call(g("HTMLDocument"), ["x"], [(v, "w")])]), "document attribute value": ("any", lambda v: [doc("x", lang=v)]), "document html": ("name", lambda v: [doc(call(g("Tag"), ["html", tag("head"), tag("body"), mkdict([(v, "w")])]), lang="en")]),
        "dependency": ("name", lambda v: [tag("p", dep(v, "1", script=D(src="a.js"), source=D(href="u")))]), "dependencies": ("name", lambda v: [tag("p", dep(v, "1"), dep("zz", "1"), dep(v, "2"))]), "dependency item": ("name", lambda v: [tag("p", dep("d", "1", source=D(href="u"), script=mkdict([("src", "a"), (v, "w")]), stylesheet=mkdict([("href", "a"), (v, "w")]), meta=mkdict([("name", "n"), ("content", "c"), (v, "w")])))]), "dependency item value": ("text", lambda v: [tag("p", dep("d", "1", source=D(href="u"), script=mkdict([("src", v)]), stylesheet=mkdict([("href", v)]), meta=mkdict([("name", v), ("content", v)])))]), "dependency head": ("text", lambda v: [tag("p", dep("d", "1", head=v))]), "dependency head html": ("text", lambda v: [tag("p", dep("d", "1", head=html(v)))]), "dependency source": ("name", lambda v: [tag("p", dep("d", "1", source=D(href=v), script=D(src="a")))]), "dependency subdir": ("name", lambda v: [tag("p", dep("d", "1", source=D(subdir=v), script=D(src="a")))]),
        "head content": ("text", lambda v: [tag("p", hc(v))]), "head content html": ("text", lambda v: [tag("p", hc(html(v)))]), "head content tag": ("text", lambda v: [tag("p", hc(tag("title", v)))]), "head contents": ("text", lambda v: [doc(hc(v), hc("x"), hc(v))]), "head content attribute": ("name", lambda v: [tag("p", hc(call(g("Tag"), ["meta", mkdict([(v, "w")])])))]), "text document": ("text", lambda v: [text_doc(dep("q", "1", head=v), extra=[dep("r", "1", head=html(v))])]), "pattern": ("name", lambda v: [call(g("HTMLTextDocument"), [T.concat("<p>", v, "</p>@@"), ], [("deps", mklist([dep("q", "1")])), ("deps_replace_pattern", "@@")])]),
        "css": ("text", lambda v: [tag("p", style=call(g("css"), [], [("a_b", v)]))]), "css key": ("name", lambda v: [tag("p", style=call(g("css"), [], [(v, "w")]))]), "css collapse": ("text", lambda v: [tag("p", style=call(g("css"), [v], [("a", "b"), ("c", "d")]))]),
        "component": ("Name", lambda v: [jsx(v, "x", a=1)]), "component child": ("Name", lambda v: [jsx("Foo", jsx(v, "x"), p=jsx(v))]), "prop": ("name", lambda v: [call(J(), ["Foo"], [(v, "w")])]), "prop item": ("name", lambda v: [late(v)]), "prop value": ("any", lambda v: [jsx("Foo", p=v)]), "prop list": ("any", lambda v: [jsx("Foo", p=mklist([v, (v,)]))]), "prop dict": ("text", lambda v: [jsx("Foo", p=mkdict([(v, v)]))]), "component text": ("any", lambda v: [jsx("Foo", v, tag("p", v))]), "component style": ("text", lambda v: [jsx("Foo", style=T.concat("a:", v, ";"))]), "component style dict": ("any", lambda v: [jsx("Foo", style=D(a=v))]), "component tag": ("name", lambda v: [jsx("Foo", tag(v, "x"), p=tag(v))]), "component expression": ("text", lambda v: [jsx("Foo", p=call(g("jsx", "htmltools._jsx"), [v]))]), "component dependency": ("name", lambda v: [jsx("Foo", dep(v, "1"), p=tag("i", dep(v, "2")))]),
    }

    def late(v):
        j = jsx("Foo", "x")
        E.setitem(getattr_(j, "attrs"), v, "w")
        return j
    NEAR = {
        "name": [("viewBox", "viewbox"), ("a", "A"), ("a-b", "a_b"), ("a-b", "aB"), ("ab", "a-b"), ("aa", "a"), ("a", "b"), ("br", "BR"), ("script", "SCRIPT"), ("div", "Div"), ("x-y", "x.y"), ("class", "Class"), ("style", "Style"), ("e\u0301", "\xe9"), ("\u03c3", "\u03c2"), ("a1", "a01"), ("ss", "\xdf")],
        "Name": [("Foo", "FOO"), ("Foo", "FoO"), ("Foo", "Foo2"), ("A.B", "AB"), ("A.B", "A.C"), ("A.B", "C.B")],
        "text": [("a", "A"), ("a", "a "), ("a", " a"), ("a", "a\n"), ("a b", "a  b"), ("a b", "b a"), ("a\nb", "a\r\nb"), ("a\nb", "a b"), ("a", "b"), ("ab", "ba"), ("", " "), ("a&b", "a&amp;b"), ("<b>", "&lt;b&gt;"), ("e\u0301", "\xe9"), ("1", "1.0"), ("a" * 100, "a" * 100 + "b"), ("a" * 600 + "c", "a" * 600 + "d"), ("b" + "a" * 600, "c" + "a" * 600), ("\xa0", " "), ("\x00", ""), ("'", '"'), ("a;", "a"), ("a_b", "a-b")],
    }
    NEAR["any"] = NEAR["text"] + [(1, True), (1, 1.0), (0, False), (0, -0.0), (0.0, -0.0), ("1", 1), ("True", True), (True, "1"), (1.0, "1.0"), (2, 2.0), ("None", "none"), (10**20, 1e20), (0.1, 0.30000000000000004)]

    def pair_of(env, slot, x, y, mode=None, orders=(0, 1), settle=False):
        f = SLOTS[slot][1]

        def get(v):
            if mode:
                setattr_(mod("htmltools"), "html_dependency_render_mode", mode)
            try:
                things = attempt("construction", lambda: f(v))
                return things if things[1] == "raises" else tuple(observe(t) for t in things[1])
            finally:
                if mode:
                    setattr_(mod("htmltools"), "html_dependency_render_mode", "invisible")
        if settle:  # the distinctions between contents are made first
            new_process(0)
            get(x)
            get(y)
        new_process(0)
        want = get(y)
        for o in orders:
            new_process(o)
            get(x)
            E.id_barrier()
            same(want, get(y), f"{slot} {brief_(y)}, after {slot} {brief_(x)} was built and rendered")
        # built before, rendered afterwards
        new_process(0)
        things = attempt("construction", lambda: f(y))
        if things[1] != "raises":
            get(x)
            if not mode:
                same(want, tuple(observe(t) for t in things[1]), f"{slot} {brief_(y)}, built before {slot} {brief_(x)} was built and rendered")

    def brief_(v):
        return T.show(v)[:40] if T.is_s(v) else repr(v)

    def near(env, slot, part):
        for x, y in part:
            pair_of(env, slot, x, y, orders=(0,))
            pair_of(env, slot, y, x, orders=(0,))

    def open_pair(env, slot, mode):
        kind = SLOTS[slot][0]
        k = dict(only=NM, nonempty=True) if kind in ("name", "Name") else dict(excl="\\\n\r") if slot.startswith("component") or slot.startswith("prop") else {}
        x, y = env.sym("x", **k), env.sym("y", **k)
        if kind == "Name":
            x, y = T.concat("F", x), T.concat("F", y)
        if kind == "name" and (T.eq(x, "self") or T.eq(y, "self")):
            raise T.Infeasible()
        pair_of(env, slot, x, y, mode, orders=(0,), settle=True)
    for n, (kind, _) in SLOTS.items():
        for i in range(3):
            add(f"near/{n}/{i}", lambda env, n=n, part=NEAR[kind][i::3]: near(env, n, part))
        for mode in (None, "json") if "depend" in n else (None,):
            add(f"open/{n}/{mode or 'invisible'}", lambda env, n=n, mode=mode: open_pair(env, n, mode))

    # ---- a and b share parts: rendering a never changes b
    POOL = {
        "tag": lambda e: tag("p", "a", tag("b", e.sym("s")), class_="c", style="x:y;"), "list": lambda e: tl("a", tag("p"), None, dep("in", "1")), "dep": lambda e: dep("sh", "1", source=D(subdir="s"), script=mklist([D(src="a.js")]), stylesheet=mklist([D(href="b.css")]), meta=mklist([D(name="n", content="c")]), head=tl(tag("title", "t"), "x")), "dep url": lambda e: dep("sh", "1", source=D(href="u"), script=D(src="a.js")),
        "head": lambda e: hc(tag("title", "t")), "expand": lambda e: user("Expand", tl("a", tag("i", dep("ex", "1")))), "expand tag": lambda e: user("Expand", tag("i", "q", dep("ex", "1"))), "expand html": lambda e: user("Expand", tag("html", tag("head", tag("title")), tag("body", "b"))), "html tag": lambda e: tag("html", tag("head", tag("title", "q")), tag("body", "x", dep("hb", "1"))), "body tag": lambda e: tag("body", "x", dep("bb", "1"), id="i"), "meta": lambda e: user("Meta", "p"),
        "jsx": lambda e: jsx("Foo", tag("p", dep("jd", "1"), style="a:b"), user("Expand", tl(tag("i"), dep("je", "1"))), a=tag("i", dep("jp", "1")), b=mklist([1, D(x=1)])), "html": lambda e: html("<b>"), "text": lambda e: e.sym("s"), "head tag": lambda e: tag("head", tag("title", "h")),
    }
    is_meta = lambda x: isinstance(x, E.Inst) and x.cls.issub(g("HTMLDependency"))
    USES = {
        "div": lambda e, x: observe(tag("div", x, x)), "list": lambda e, x: observe(tl(x, "z", mklist([x]))), "document": lambda e, x: observe(doc(x, lang="zz", class_="kk")), "document with": lambda e, x: observe(doc("a", x, dep("sh", "9"))), "html": lambda e, x: observe(doc(tag("html", tag("head"), tag("body", x)), lang="q")), "jsx child": lambda e, x: observe(jsx("Out", x)), "jsx prop": lambda e, x: observe(jsx("Out", p=x)), "text document": lambda e, x: observe(text_doc(dep("q", "1"), extra=[x])) if is_meta(x) else None,
        "save": lambda e, x: m(tag("div", x), "save_html", "out/f.html"), "grow": lambda e, x: m(m(tag("div", x), "tagify"), "append", "more"), "grow list": lambda e, x: m(tl(x), "append", "more"), "copy": lambda e, x: m(getattr_(copy_(tag("div", x)), "children"), "append", "more"), "json": lambda e, x: json_mode(lambda: observe(tag("div", x))), "dep tags": lambda e, x: (m(x, "as_html_tags", lib_prefix=None), m(x, "as_dict"), serial(x)) if is_meta(x) else None,
        "head content": lambda e, x: observe(tag("div", hc(x))), "dep head": lambda e, x: observe(tag("div", dep("o", "1", head=x))), "with": lambda e, x: user("with_block", tag("w"), E.NativeF("body", lambda: call(getattr_(E.import_module("sys"), "displayhook"), [x]))), "copy changed": lambda e, x: changed(copy_(x)) if isinstance(x, E.Inst) else None, "tagified changed": lambda e, x: changed(m(x, "tagify")) if isinstance(x, E.Inst) and x.cls.lookup("tagify") else None,
    }

    def json_mode(f):
        setattr_(mod("htmltools"), "html_dependency_render_mode", "json")
        try:
            f()
        finally:
            setattr_(mod("htmltools"), "html_dependency_render_mode", "invisible")

    def changed(c):
        if c.cls.issub(g("Tag")):
            m(c, "append", "more")
            m(getattr_(c, "attrs"), "update", D(class_="more"))
        elif c.cls.issub(g("TagList")):
            m(c, "append", "more")
        elif is_meta(c):
            setattr_(c, "name", "renamed")
            m(getattr_(c, "script"), "append", D(src="more.js"))

    def sharing(env, pn, un):
        owners = (lambda x: tag("div", x), lambda x: doc(x, lang="en"), lambda x: jsx("Own", x), lambda x: tl("a", x), lambda x: doc(tag("p", x), "z"))
        for how in owners if tier == "thorough" else owners[:3]:
            new_process(0)
            want = attempt("b", lambda: observe(how(POOL[pn](env))))
            new_process(0)
            x = POOL[pn](env)
            b = how(x)
            attempt("a", lambda: USES[un](env, x))
            same(want, attempt("b", lambda: observe(b)), f"an object made with a {pn} whose {pn} was then used in: {un}")
            same(want, attempt("b", lambda: observe(how(x))), f"an object made with a {pn} after it was used in: {un}")
            attempt("a", lambda: USES[un](env, x))
            same(want, attempt("b", lambda: observe(b)), f"the same after another {un}")
    for pn in POOL:
        for un in USES:
            if un == "save" and pn in ("dep", "jsx") or un == "tagified changed" and pn.startswith("expand"):
                continue  # files are the subject of C08 and C12; an Expand hands out one and the same expansion
            add(f"shared/{pn}/{un}", lambda env, pn=pn, un=un: sharing(env, pn, un))

    def attrs_shared(env):
        """attribute dicts and argument lists of one construction reused by the next"""
        new_process(0)
        d, l, ds = D(class_="a", id="i"), mklist(["x", tag("p")]), mklist([dep("q", "1")])
        want = None
        for i in range(3):
            r = (observe(tag("div", d, l, class_="b")), observe(call(g("div"), [d, l], [("class_", "b")])), observe(tl(l)), observe(call(g("HTMLTextDocument"), [T.concat("<p>@@", serial(dep("ser", "1")))], [("deps", ds), ("deps_replace_pattern", "@@")])), observe(jsx("J", l, class_="b")))
            want = want or r
            same(want, r, "the same arguments used again")
    add("shared/arguments", attrs_shared)

    # ---- names of head_content: a function of the rendered content, equal for equal content only
    def name_of(*a):
        return getattr_(hc(*a), "name")

    consts = sorted({3, 7, 8, 10, 16, 20, 32, 40, 64, 100, 128, 255, 256, 1000, 1024, 4096} | big_consts())
    PAY = ["", "a", "A", "b", " a", "a ", "a\n", "\na", "a b", "a  b", "a\tb", "a\nb", "a\r\nb", "ab", "ba", "a&b", "a<b", "é", "e\u0301", "ß", "ss", "\u00a0", "\u200b", "\ufeff", "\0", "𝒳", "日本", "日 本", "1", "1.0", "true", "True", "None", "<b></b>", "<B></B>", "<b/>", "<!-- a -->", "<!-- b -->", "<title>a</title>", "<title>b</title>", "<style>a{}</style>", "<style>a{ }</style>", "<script>1</script>", "<script>2</script>", "<meta name=\"a\"/>", "<meta name='a'/>", "headcontent_", "\u0430", "ı", "i", "I", "İ", "K", "\u212a", "ﬁ", "fi"]

    def payloads(env, ps):
        new_process(0)
        names = [(p, name_of(html(p))) for p in ps]
        for o in ORDERS[1:]:
            new_process(o)
            for p, n in reversed(names):
                if T.norm(name_of(html(p))) != T.norm(n):
                    raise Bad(f"head_content(HTML({p[:40]!r})) has another name in another process or later: {T.show(n)} / {T.show(name_of(html(p)))}", None)
                if T.norm(getattr_(hc(html(p)), "version")) != T.norm(getattr_(hc(html(p)), "version")) if T.is_s(getattr_(hc(html(p)), "version")) else False:
                    raise Bad("version differs")
        new_process(0)
        seen = {}
        for p, n in names:
            k = T.norm(n)
            if k in seen and seen[k] != p:
                raise Bad(f"different head contents share the name {T.show(n)}: {short(seen[k])} and {short(p)}", None)
            seen[k] = p
    for i, ps in enumerate([PAY, [s + p for p in PAY for s in ("x" * 50,)]]):
        add(f"names/payloads/{i}", lambda env, ps=ps: payloads(env, ps))

    def long_payloads(env, c):
        ps = ["x" * c, "x" * (c + 1), "x" * (c + 2), "x" * c + "y", "x" * c + "z", "y" + "x" * c, "z" + "x" * c, "x" * (c // 2) + "y" + "x" * (c - c // 2), "x" * (c // 2) + "z" + "x" * (c - c // 2), "x" * c + "yx", "x" * c + "zx", "yx" + "x" * c, "x" * (2 * c) + "y" + "x" * (2 * c), "x" * (2 * c) + "z" + "x" * (2 * c)]
        payloads(env, list(dict.fromkeys(ps)))
    for c in consts:
        add(f"names/long/{c}", lambda env, c=c: long_payloads(env, c))

    FORMS = {
        "text": lambda e, s: [s], "html": lambda e, s: [html(s)], "title": lambda e, s: [tag("title", s)], "script": lambda e, s: [tag("script", s)], "style": lambda e, s: [tag("style", html(s))], "attribute": lambda e, s: [tag("meta", name=s)], "two": lambda e, s: [html(s), html("z")], "mixed": lambda e, s: ["a", tag("title", "q"), s], "list": lambda e, s: [mklist(["a", (s, None)])], "selfie": lambda e, s: [user("Selfie", s)],
    }

    def symbolic(env, fa, fb):
        """two arbitrary payloads: equal names exactly for equal rendered contents"""
        new_process(0)
        s, t = env.sym("s"), env.sym("t")
        a, b = FORMS[fa](env, s), FORMS[fb](env, t)
        ra, rb = m(tl(*a), "get_html_string"), m(tl(*b), "get_html_string")
        na, nb = name_of(*a), name_of(*b)
        if T.norm(name_of(*FORMS[fa](env, s))) != T.norm(na):
            raise Bad(f"head_content({fa}) of the same content has another name", None)
        if fa == fb:
            same_content = E.truth(E.eq_(ra, rb))
            same_name = E.truth(E.eq_(na, nb))
            if same_content != same_name:
                raise Bad(f"head_content({fa}): contents {'equal' if same_content else 'different'}, names {'equal' if same_name else 'different'}: {T.show(ra)} / {T.show(rb)}: {T.show(na)} / {T.show(nb)}", T.CUR_LOC[0])
        else:
            same_name = E.truth(E.eq_(na, nb))
            if E.truth(E.eq_(ra, rb)) != same_name:
                raise Bad(f"head_content({fa}) and head_content({fb}): names {'equal' if same_name else 'different'} for {T.show(ra)} / {T.show(rb)}", T.CUR_LOC[0])
    for fa in FORMS:
        add(f"names/symbolic/{fa}", lambda env, fa=fa: symbolic(env, fa, fa))
    for fa, fb in (("text", "two"), ("html", "two"), ("html", "text"), ("title", "html"), ("selfie", "html"), ("script", "html"), ("attribute", "html"), ("list", "html")):
        add(f"names/symbolic/{fa}+{fb}", lambda env, fa=fa, fb=fb: symbolic(env, fa, fb))

    WHERE = {"flat": lambda x, y: [x, y], "apart": lambda x, y: [tag("p", x), tag("q", tag("r", y)), x], "swapped": lambda x, y: [tl(y, x), y, x]}

    def once(env, fa, wn):
        """in a document: equal content once, different content each"""
        new_process(0)
        for a, b in (("a", "A"), ("a", "a "), ("b<", ""), ("x\ny", "x y"), ("a", "a")):
            ys = WHERE[wn](hc(*FORMS[fa](env, a)), hc(*FORMS[fa](env, b)))
            n = 1 if a == b else 2
            for x in (doc(*ys), doc(tag("html", tag("head"), tag("body", *ys)))):
                ds = [getattr_(d, "name") for d in E.tolist(getitem(m(x, "render"), "dependencies"))]
                if len(ds) != n:
                    raise Bad(f"head_content({fa}) of {a!r} and {b!r} in one document: {len(ds)} dependencies, expected {n}", None)
    for fa in FORMS:
        for wn in WHERE:
            add(f"names/once/{fa}/{wn}", lambda env, fa=fa, wn=wn: once(env, fa, wn))

    def spelled(env):
        """the same rendered content, however it is put together and wherever it is"""
        new_process(0)
        base = name_of(html("<b>x</b>"))
        for a in ([tag("b", "x")], [tl(tag("b", "x"))], [None, mklist([tag("b", "x")])], [user("Selfie", "<b>x</b>")], [tag("b", html("x"))], [html("<b>x</b>")]):
            for extra in ([], [dep("q", "1")], [user("Meta")]):
                if T.norm(name_of(*a, *extra)) != T.norm(base):
                    raise Bad("head_content(): the name depends on more than the rendered content", None)
        empty = name_of()
        for a in ([None], [""], [mklist([])], [tl()], [html("")], [dep("q", "1")], [None, None, ""]):
            if T.norm(name_of(*a)) != T.norm(empty):
                raise Bad("head_content(): empty contents have several names", None)
        t = tag("b", "y")
        n1 = name_of(t)
        m(t, "append", "z")
        if T.norm(name_of(t)) == T.norm(n1):
            raise Bad("head_content(): the name of a changed tag is the old one", None)
        h = hc(t)
        if T.norm(getattr_(h, "name")) != T.norm(getattr_(copy_(h), "name")):
            raise Bad("a copy of head_content has another name", None)
    add("names/spelled", spelled)
    return out


def short(s):
    return repr(s) if len(s) < 40 else f"{s[:12]!r}…{s[-12:]!r} ({len(s)} characters)"


def big_consts():
    import ast

    out = set()
    for disp, (src, tree) in E.PARSED.items():
        if disp in (CORE, UTIL):
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool) and 2 <= n.value <= 200000:
                    out.add(n.value)
    return out


PROP = Prop(
    "C18", "Output is deterministic across processes and independent of history",
    "non-interference: every output of a construction is the same term under four models of the process (order of set elements, hash values, object addresses, environment, clock, random numbers) and after every other construction was built and rendered, failed, or shares parts with it; names of head_content are collision-free digests of the whole rendered content",
    [("htmltools", "head_content"), ("htmltools._util", "hash_deterministic"), ("htmltools._core", "_resolve_dependencies"), ("htmltools", "HTMLTextDocument")], scenarios,
    assumptions=["sha1 and the other digests are collision-free on full-length output", "iteration order of a set and the values of hash() and id() are arbitrary per process; dicts keep insertion order", "an object that is no longer referenced may have its address reused"],
    bounds="67 constructions; all ordered pairs as histories; 4 process models; 15 shared parts x 19 uses x 5 owners; head_content payloads: two arbitrary texts in 10 forms, 110 near-equal texts, texts around every integer constant of the source",
)
