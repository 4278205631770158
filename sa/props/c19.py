"""C19: every tag function creates its own element, with the default its element is classified for."""
import ast
import os

from .. import api
from .. import engine as E
from .. import terms as T
from ..api import Bad, g, m, mod
from ..base import Prop, Scenario, int_thresholds
from ..engine import Raised, call, getattr_, mkdict, mklist, setattr_, str_
from ..model import preload, user
from ..oracle import path_diff, struct

TAGS, SVG = "htmltools.tags", "htmltools.svg"
CATALOGUE = {
    TAGS: "html base head link meta style title body address article aside footer header h1 h2 h3 h4 h5 h6 main nav section blockquote dd div dl dt figcaption figure hr li menu ol p pre ul a abbr b bdi bdo br cite code data dfn em i kbd mark q rp rt ruby s samp small span strong sub sup time u var wbr area audio img map track video embed iframe object param picture portal source svg math canvas noscript script ins caption col colgroup table tbody td tfoot th thead tr button datalist fieldset form input label legend meter optgroup option output progress select textarea details dialog summary slot template".split(),
    SVG: "a animate animateMotion animateTransform circle clipPath defs desc discard ellipse feBlend feColorMatrix feComponentTransfer feComposite feConvolveMatrix feDiffuseLighting feDisplacementMap feDistantLight feDropShadow feFlood feFuncA feFuncB feFuncG feFuncR feGaussianBlur feImage feMerge feMergeNode feMorphology feOffset fePointLight feSpecularLighting feSpotLight feTile feTurbulence filter foreignObject g hatch hatchpath image line linearGradient marker mask metadata mpath path pattern polygon polyline radialGradient rect script set stop style svg switch symbol text textPath title tspan use view".split(),
    "htmltools": "a br code div em h1 h2 h3 h4 h5 h6 hr img p pre span strong".split(),
}
# the classification at the pinned commit, used where scripts/generate_tags.py no longer states one
PINNED_INLINE = frozenset("a abbr acronym audio b bdi bdo big br button canvas cite code data datalist del dfn em embed i iframe img input ins kbd label map mark meter noscript object output picture pre progress q ruby s samp select slot small span strong sub sup svg template textarea time u tt var video wbr".split())
FILE = {TAGS: "htmltools/tags.py", SVG: "htmltools/svg.py", "htmltools": "htmltools/__init__.py"}


def inline_names():
    """(the project's classification, where it was read)"""
    path = os.path.join(api.REPO, "scripts", "generate_tags.py")
    try:
        with open(path, encoding="utf-8") as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return PINNED_INLINE, "pinned"
    consts = {}

    def value(n):
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, (ast.Set, ast.List, ast.Tuple)):
            out = []
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    out.extend(value(x.value))
                else:
                    out.append(value(x))
            return out
        if isinstance(n, ast.Name):
            return consts[n.id]
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.Add)):
            return list(value(n.left)) + list(value(n.right))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub):
            r = set(value(n.right))
            return [x for x in value(n.left) if x not in r]
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("set", "frozenset", "tuple", "list", "sorted") and not n.keywords:
            return list(value(n.args[0])) if n.args else []
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "split" and not n.args:
            return value(n.func.value).split()
        raise ValueError(ast.dump(n))
    for st in tree.body:
        tgt = st.targets[0] if isinstance(st, ast.Assign) else st.target if isinstance(st, ast.AnnAssign) and st.value is not None else None
        if isinstance(tgt, ast.Name):
            try:
                consts[tgt.id] = value(st.value)
            except (ValueError, KeyError, TypeError, AttributeError):
                pass
    v = consts.get("_INLINE_TAG_NAMES")
    if isinstance(v, list) and v and all(isinstance(x, str) for x in v):
        return frozenset(v), "scripts/generate_tags.py"
    return PINNED_INLINE, "pinned"


def Tag(el, args=(), kw=(), ws=None):
    return call(g("Tag"), [el, *args], list(kw) + ([("_add_ws", ws)] if ws is not None else []))


def tag(el, *a, **k):
    return Tag(el, a, list(k.items()))


def tl(*a):
    return call(g("TagList"), list(a))


def D(**k):
    return mkdict([(a.rstrip("_"), v) for a, v in k.items()])


def dep(name, version="1.0", **k):
    return call(g("HTMLDependency"), [name, version], list(k.items()))


def html(s):
    return call(g("HTML"), [s])


def hc(*a):
    return call(g("head_content"), list(a))


def jsx(name, *a, **k):
    return call(g("JSXTag", "htmltools._jsx"), [name, *a], list(k.items()))


def attr_dict(*a, **k):
    return call(g("TagAttrDict", "htmltools._core"), list(a), list(k.items()))


# ------------------------------------------------------------------ argument lists
# each entry builds fresh (positional arguments, keywords); the first column is what they exercise
def many(n):
    return lambda e: ([f"c{i}" for i in range(n)], [])


SHAPES = {
    "nothing": lambda e: ([], []),
    "text": lambda e: ([e.sym("s")], []),
    "two texts": lambda e: ([e.sym("s"), e.sym("t")], []),
    "html": lambda e: ([html(e.sym("s"))], []),
    "attribute": lambda e: ([], [("title", e.sym("s"))]),
    "html attribute": lambda e: ([], [("title", html(e.sym("s")))]),
    "dict": lambda e: ([D(title=e.sym("s"))], []),
    "dict and keyword": lambda e: ([D(title=e.sym("s"))], [("title", e.sym("t"))]),
    "empty and blank": lambda e: (["", " ", "\n", " a ", "0"], [("title", ""), ("alt", " ")]),
    "null children": lambda e: ([None, "a", None, mklist([None]), tl()], []),
    "only None": lambda e: ([None], []),
    "numbers": lambda e: ([0, 1, -1, 1.5, 0.0, 10**20], [("tabindex", 0), ("x", 1.5), ("y", -1)]),
    "booleans": lambda e: ([True, False], [("hidden", True), ("checked", False), ("x", None)]),
    "true alone": lambda e: ([True], []),
    "false alone": lambda e: ([False], []),
    "nested lists": lambda e: ([mklist(["a", mklist([tag("i"), ("b", ("c", None))])]), tl("d", tl(tag("b", "e")))], []),
    "tags": lambda e: ([tag("p", "a", id="i"), tag("script", "x"), tag("br"), tag("span", "s", _add_ws=False)], []),
    "metadata": lambda e: ([dep("d", "1"), hc(tag("title", "t")), user("Meta", "m"), dep("d", "2")], []),
    "objects": lambda e: ([user("Selfie", "<b>"), user("Expand", tag("p")), user("Both", tag("i"), "<b>"), user("FalsySelfie", "<i>")], []),
    "jsx": lambda e: ([jsx("Foo", tag("p", dep("in", "1")), a=1)], []),
    "dicts between": lambda e: (["a", D(id="i", class_="x"), tag("p"), D(class_="y", data_z="1"), "b", mkdict([])], [("class_", "z"), ("id", "j")]),
    "dict last": lambda e: (["a", "b", D(href="u")], []),
    "dict first": lambda e: ([D(href="u"), "a"], []),
    "empty dict": lambda e: ([mkdict([])], []),
    "attrs of another tag": lambda e: ([getattr_(tag("q", class_="k", id="i", data_x=True), "attrs"), "a"], [("class_", "l")]),
    "attribute dict": lambda e: ([attr_dict(D(class_="a"), class_="b")], [("for_", "f")]),
    "odd attribute names": lambda e: ([mkdict([("data-x", "1"), ("_add_ws", "q"), ("a b", "2"), ("xlink:href", "#h"), ("viewBox", "0 0 1 1"), ("_", "u")])], [("data_y", "2"), ("_for", "f"), ("viewBox", "1 1"), ("http_equiv", "h"), ("accept_charset", "c"), ("ariaLabel", "l"), ("__x", "3")]),
    "attributes named like parameters": lambda e: ([], [("name", "n"), ("args", "a"), ("kwargs", "k"), ("children", "c"), ("attrs", "t"), ("add_ws", "w"), ("cls", "l"), ("tag", "g"), ("ws", "s"), ("x", "x"), ("f", "f"), ("fn", "fn"), ("func", "func"), ("el", "el"), ("element", "element"), ("default", "d"), ("tag_name", "tn"), ("key", "key"), ("value", "v"), ("type", "y"), ("id", "i"), ("style", "s:t"), ("size", 3)]),
    "self": lambda e: (["a"], [("self", "x")]),
    "_name": lambda e: (["a"], [("_name", "x")]),
    "_self": lambda e: (["a"], [("_self", "x"), ("_args", "y"), ("_kwargs", "z"), ("_attrs", "q"), ("_children", "r")]),
    "classes": lambda e: ([D(class_="a  b")], [("class_", "a"), ("className", "c")]),
    "styles": lambda e: ([D(style="a:b")], [("style", "c:d;")]),
    "keyword order": lambda e: ([], [("z", "1"), ("a", "2"), ("m", "3"), ("data_b", "4"), ("B", "5")]),
    "void children": lambda e: (["", "x", mklist([])], [("_", "1")]),
    "subclasses": lambda e: ([user("MyTag", "p", "a"), user("MyStr", "t"), user("MyList", "u", tag("i"))], [("title", user("MyStr", "v"))]),
    "bad child": lambda e: ([user("Plain")], []),
    "bad child inside": lambda e: (["a", mklist(["b", user("Plain")])], [("id", "i")]),
    "bytes": lambda e: ([E.mkset(["a"]) if hasattr(E, "mkset") else user("Plain")], []),
    "bad attribute": lambda e: ([], [("title", user("Plain"))]),
    "list attribute": lambda e: ([], [("title", mklist(["a"]))]),
    "tag attribute": lambda e: ([], [("title", tag("p"))]),
}
SYMBOLIC = ("text", "two texts", "html", "attribute", "html attribute", "dict", "dict and keyword")
NONBOOL = {
    "1": lambda e: 1, "0": lambda e: 0, "2": lambda e: 2, "-1": lambda e: -1, "1.0": lambda e: 1.0, "0.0": lambda e: 0.0, "'True'": lambda e: "True", "'False'": lambda e: "False", "''": lambda e: "", "'yes'": lambda e: "yes", "'true'": lambda e: "true", "any text": lambda e: e.sym("s"), "HTML": lambda e: html("x"), "HTML('')": lambda e: html(""), "None": lambda e: None, "[]": lambda e: mklist([]), "[True]": lambda e: mklist([True]), "(True,)": lambda e: (True,), "()": lambda e: (), "{}": lambda e: mkdict([]), "object": lambda e: user("Plain"), "falsy object": lambda e: user("AlwaysEqual"), "a class": lambda e: g("Tag"), "tag": lambda e: tag("p"), "TagList": lambda e: tl(),
    "function": lambda e: g("div"),
}
EXTRAS = {"alone": lambda: ([], []), "with children": lambda: (["a", tag("p")], [("id", "i")])}


def fields(x):
    """everything of a Tag, the order of its fields aside"""
    if not isinstance(x, E.Inst):
        return ("value", struct(x))
    return (x.cls.name, tuple(sorted(((k, struct(v)) for k, v in x.d.items()), key=lambda kv: kv[0] if isinstance(kv[0], str) else repr(kv[0]))))


def outcome(f):
    try:
        return ("made", f())
    except Raised as e:
        return ("raises", e.value.cls, e)


def function_of(modname, name):
    try:
        return getattr_(mod(modname), name)
    except Raised:
        raise Bad(f"{modname}.{name} does not exist", (FILE[modname], 1, "module"), "catalogue")


def where(f, modname, name):
    n = getattr(f, "node", None)
    if n is not None and hasattr(n, "lineno"):
        return (FILE[modname], n.lineno, name)
    return None


class Fail:
    def __init__(self, modname, name, loc):
        self.label, self.loc = f"{modname[len('htmltools'):].lstrip('.') or 'htmltools'}.{name}", loc

    def __call__(self, msg):
        raise Bad(f"{self.label}{msg}", self.loc)


def text_is(v, s):
    try:
        v = E.text_of(v)
    except Exception:
        return False
    return isinstance(v, str) and v == s


def scenarios(tier):
    preload()
    inline, origin = inline_names()
    out = []

    def add(n, f, **k):
        out.append(Scenario(n, f, **k))
    sizes = sorted({0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33} | {c + d for c in int_thresholds(None) for d in (0, 1) if c <= 64})

    def names_of(modname):
        """the functions of the catalogue and those added since"""
        ns = list(CATALOGUE[modname])
        if modname != "htmltools":
            for k, v in mod(modname).ns.items():
                k = T.const(k) if not isinstance(k, str) else k
                if k.startswith("_") or k in ns or not isinstance(v, E.FuncV) or v.mod is not mod(modname) or v.name != k or v.node.args.args or v.node.args.posonlyargs or v.node.args.vararg is None or v.node.args.kwarg is None:
                    continue
                ns.append(k)
        return ns

    def element(k):
        return k.rstrip("_") if k not in CATALOGUE[TAGS] and k not in CATALOGUE[SVG] else k

    def check_tag(fail, t, name, ws, what):
        """absolute: the class, element name and whitespace flag"""
        if not (isinstance(t, E.Inst) and t.cls is g("Tag")):
            fail(f"({what}) returns {E.cls_of(t).name}, not a Tag")
        if not text_is(getattr_(t, "name"), name):
            fail(f"({what}) creates <{T.show(getattr_(t, 'name'))}> instead of <{name}>")
        if getattr_(t, "add_ws") is not ws:
            fail(f"({what}): add_ws is {getattr_(t, 'add_ws')!r}, expected {ws}")

    def compare(fail, f, name, default, shape, env, ws=None):
        args, kw = shape(env)
        wargs, wkw = shape(env)
        before = [struct(a) for a in args] + [struct(v) for _, v in kw]
        eff = default if ws is None else ws
        want = outcome(lambda: Tag(name, wargs, wkw, eff))
        got = outcome(lambda: call(f, args, list(kw) + ([("_add_ws", ws)] if ws is not None else [])))
        if [struct(a) for a in args] + [struct(v) for _, v in kw] != before:
            fail(": an argument is changed by the call")
        if want[0] != got[0]:
            if got[0] == "raises":
                raise Bad(f"{fail.label}: raises {got[2].value.cls.name} ({E.exc_text(got[2].value)[:80]}) where the Tag constructor does not", got[2].loc or fail.loc)
            fail(f": accepts what the Tag constructor rejects ({want[1].name})")
        if want[0] == "raises":
            if not (want[1].issub(got[1]) or got[1].issub(want[1])):
                fail(f": raises {got[1].name} where the Tag constructor raises {want[1].name}")
            return None
        t, w = got[1], want[1]
        check_tag(fail, t, name, eff, "..." if args or kw or ws is not None else "")
        d = path_diff(fields(w), fields(t))
        if d:
            fail(f": result differs from Tag({name!r}, ...): {d}")
        # the same objects, in the same places, as the constructor passes on
        ka, kb = E.tolist(getattr_(t, "children")), E.tolist(getattr_(w, "children"))
        pos = {id(a): i for i, a in enumerate(wargs)}
        for x, y in zip(ka, kb):
            if isinstance(y, E.Inst) and id(y) in pos and x is not args[pos[id(y)]]:
                fail(": a child is replaced by another object")
        sa, sb = outcome(lambda: str_(t)), outcome(lambda: str_(w))
        if sa[0] != sb[0] or sa[0] == "made" and T.norm(sa[1]) != T.norm(sb[1]):
            fail(f": rendered as {T.show(sa[1]) if sa[0] == 'made' else sa[1].name}, Tag({name!r}, ...) as {T.show(sb[1]) if sb[0] == 'made' else sb[1].name}")
        return t

    def one(env, modname, k, shapes):
        f = function_of(modname, k)
        name, default = element(k), element(k) not in inline
        fail = Fail(modname, k, where(f, modname, k))
        for s in shapes:
            for ws in (None, True, False):
                compare(fail, f, name, default, SHAPES.get(s) or many(s), env, ws)

    def singled_out(env, modname, k, c):
        f = function_of(modname, k)
        name, default = element(k), element(k) not in inline
        fail = Fail(modname, k, where(f, modname, k))
        for shape in (lambda e: ([], [(c, e.sym("s"))]), lambda e: ([mkdict([(c, e.sym("s"))])], []), lambda e: ([e.sym("s")], [(c, "1")]), lambda e: ([c], [("title", c)]), lambda e: ([D(title=e.sym("s")), D(class_=c)], [(c, True)])):
            compare(fail, f, name, default, shape, env)

    def explicit(env, modname, k):
        f = function_of(modname, k)
        name, default = element(k), element(k) not in inline
        fail = Fail(modname, k, where(f, modname, k))
        check_tag(fail, call(f, [], []), name, default, "")
        for vn, v in NONBOOL.items():
            for en, ex in EXTRAS.items():
                args, kw = ex()
                r = outcome(lambda: call(f, args, kw + [("_add_ws", v(env))]))
                if r[0] != "raises":
                    fail(f"(_add_ws={vn}) is accepted")
                if not r[1].issub(E.EXC["Exception"]):
                    fail(f"(_add_ws={vn}) raises {r[1].name}")
        check_tag(fail, call(f, [], []), name, default, "after failed calls")
        # calls are independent of one another
        a = call(f, ["x", "y"], [("id", "i")])
        before = fields(a)
        b = call(f, ["x", "y"], [("id", "i")])
        if a is b or getattr_(a, "attrs") is getattr_(b, "attrs") or getattr_(a, "children") is getattr_(b, "children"):
            fail(": two calls share an object")
        m(b, "append", "z")
        m(b, "add_class", "k")
        setattr_(b, "name", "other")
        setattr_(b, "add_ws", not default)
        c = call(f, ["x", "y"], [("id", "i")])
        if fields(a) != before or path_diff(before, fields(c)):
            fail(f": changing one result changes another: {path_diff(before, fields(c)) or path_diff(before, fields(a))}")
        for ws in (True, False, True):
            call(f, [], [("_add_ws", ws)])
            check_tag(fail, call(f, [], []), name, default, f"after a call with _add_ws={ws}")
        d1, l1 = D(class_="a"), tl("q")
        x = call(f, [d1, l1], [])
        m(x, "append", "more")
        m(x, "add_class", "more")
        if path_diff(struct(D(class_="a")), struct(d1)) or path_diff(struct(tl("q")), struct(l1)):
            fail(": the result shares the caller's dict or list")

    def constants(modname, k):
        """texts the module mentions other than names of elements: attribute names or values some function may single out"""
        own, shared = [], []
        for disp, (_, tree) in E.PARSED.items():
            if disp != FILE[TAGS if modname == "htmltools" else modname]:
                continue
            for st in tree.body:
                if isinstance(st, (ast.Import, ast.ImportFrom)) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    continue
                doc = st.body[0].value if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and isinstance(st.body[0], ast.Expr) else None
                for n in ast.walk(st):
                    if isinstance(n, ast.Constant) and isinstance(n.value, str) and n is not doc and len(n.value) < 60 and n.value not in CATALOGUE[TAGS] and n.value not in CATALOGUE[SVG]:
                        (own if getattr(st, "name", None) == k else [] if getattr(st, "name", None) in CATALOGUE[modname] else shared).append(n.value)
        return list(dict.fromkeys(own)) + [x for x in dict.fromkeys(shared) if x not in own][:12]

    for modname in CATALOGUE:
        for k in names_of(modname):
            lab = f"{modname}/{k}"
            conc = [s for s in SHAPES if s not in SYMBOLIC]
            add(f"{lab}/explicit", lambda env, a=modname, k=k: explicit(env, a, k))
            add(f"{lab}/arguments", lambda env, a=modname, k=k, c=conc: one(env, a, k, c + sizes))
            for c in constants(modname, k):
                add(f"{lab}/constant/{c}", lambda env, a=modname, k=k, c=c: singled_out(env, a, k, c))
            for s in SYMBOLIC:
                add(f"{lab}/{s}", lambda env, a=modname, k=k, s=s: one(env, a, k, [s]))

    # ---- the functions together: none changes what another makes
    def together(env, modname, order, mode):
        ks = names_of(modname)
        T.P().nd = mode
        if mode == 1:
            setattr_(mod("htmltools"), "html_dependency_render_mode", "json")
        try:
            for r in range(2):
                for k in ks[::order]:
                    f = function_of(modname, k)
                    name, default = element(k), element(k) not in inline
                    fail = Fail(modname, k, where(f, modname, k))
                    compare(fail, f, name, default, lambda e: (["a", tag("p"), D(id="i")], [("class_", "c")]), env)
                    for ws in (True, False):
                        compare(fail, f, name, default, SHAPES["nothing"], env, ws)
        finally:
            setattr_(mod("htmltools"), "html_dependency_render_mode", "invisible")
    for modname in CATALOGUE:
        for order in (1, -1):
            for mode in (0, 1, 2):
                add(f"together/{modname}/{order}/{mode}", lambda env, a=modname, o=order, mo=mode: together(env, a, o, mo))
    return out


PROP = Prop(
    "C19", "Every tag function creates its own element with the documented default",
    "for each function of the catalogue (113 HTML, 66 SVG, 17 top-level): class, element name and whitespace flag of the returned value are the expected constants, every other part of it is the same term as Tag(name, ...) makes from the same arguments, and a non-boolean _add_ws ends in an exception",
    [("htmltools", "Tag"), (TAGS, "__name__"), (SVG, "__name__")], scenarios,
    assumptions=["the element name of a tag function is its function name (all 179 at the pinned commit)", "the classification is _INLINE_TAG_NAMES of scripts/generate_tags.py in the current tree"],
    bounds="exhaustive over functions; 42 argument lists (two of arbitrary text per form) x {no, True, False} for _add_ws; 26 non-boolean values; up to 33 children and beyond every size constant of the source",
)
