"""C07: inserting metadata anywhere leaves the rendered string unchanged."""
import itertools

from .. import engine as E
from .. import mined
from .. import terms as T
from ..api import Bad, g, m, new
from ..base import Prop, Scenario, int_thresholds
from ..engine import call, getattr_, getitem, mkdict, mklist, str_
from ..model import N, build, check_same, dep, el, htm, meta, preload, rep, taglist, tx, user
from ..shapes import KINDS, PLAIN, nodes, seqs, sname


def mk(kind, i=0):
    if kind == "M":
        return meta()
    if kind == "D":
        return dep(f"d{i}")
    if kind == "Dh":
        return N("raw", t=call(g("HTMLDependency"), [f"h{i}", "1.2"], [("script", mkdict([("src", "a.js")])), ("head", "<b>head</b>"), ("source", mkdict([("subdir", "x")]))]))
    if kind == "HC":
        return N("raw", t=call(g("head_content"), [call(g("Tag"), ["title", f"t{i}"])]))
    if kind == "X":
        return N("expand", kids=[meta()])
    if kind == "XD":
        return N("expand", kids=[dep(f"x{i}")])
    if kind == "XL":
        return N("raw", t=user("Expand", call(g("TagList"), [user("Meta"), new("HTMLDependency", f"y{i}", "1")])))
    if kind == "XE":
        return N("raw", t=user("Expand", call(g("TagList"), [])))
    raise AssertionError(kind)


NEEDS_TAGIFY = ("X", "XD", "XL", "XE")


def clone(n):
    return N(n.k, n.name, [clone(c) for c in n.kids], n.ws, n.attrs, n.t)


def positions(n, path=()):
    """insertion points inside containers"""
    if n.k in ("el", "list", "tuple", "taglist"):
        for i in range(len(n.kids) + 1):
            yield path + (i,)
        for i, c in enumerate(n.kids):
            yield from positions(c, path + (i,))


def insert(n, path, what):
    n = clone(n)
    x = n
    for i in path[:-1]:
        x = x.kids[i]
    x.kids.insert(path[-1], what)
    return n


def renders(env, root, top, tagify_first, light=False):
    out = []
    ns = root.kids if top else [root]
    o = taglist(ns) if top else build(root)
    if tagify_first:
        out.append(("render", getitem(m(o, "render"), "html")))
        out.append(("str", str_(o)))
        out.append(("tagify", m(m(o, "tagify"), "get_html_string", T.Lin("k"), env.sym("eol"))))
        return out
    if light:
        return [("get_html_string(k, eol)", m(o, "get_html_string", T.Lin("k"), env.sym("eol"))), ("str", str_(o))]
    out.append(("get_html_string", m(o, "get_html_string")))
    out.append(("get_html_string(k, eol)", m(o, "get_html_string", T.Lin("k"), env.sym("eol"))))
    out.append(("render", getitem(m(o, "render"), "html")))
    out.append(("str", str_(o)))
    if top:
        out.append(("get_html_string(add_ws=False)", call(getattr_(o, "get_html_string"), [1], [("add_ws", False)])))
    return out


def scenarios(tier):
    preload()
    out = []
    names = set()

    def add(n, f, **k):
        if n not in names:
            names.add(n)
            out.append(Scenario(n, f, **k))

    def compare(env, base, variants, top, what):
        ref = {}
        for tf in {tf for _, _, tf in variants}:
            ref[tf] = dict(renders(env, base, top, tf))
        for i, (vn, v, tf) in enumerate(variants):
            for rn, r in renders(env, v, top, tf, light=i % 6):
                check_same(r, ref[tf][rn], f"{what}, metadata {vn}, {rn}")

    ROOTS = {
        "block": lambda ks: (el("div", *ks), False), "inline": lambda ks: (el("em", *ks, ws=False), False), "list": lambda ks: (N("list", kids=ks), True),
        "void": lambda ks: (el("br", *ks, ws=False), False), "script": lambda ks: (el("script", *ks), False),
        "bb": lambda ks: (el("div", el("ul", *ks)), False), "bi": lambda ks: (el("div", tx("a"), el("em", *ks, ws=False)), False),
        "ib": lambda ks: (el("em", el("ul", *ks), ws=False), False),
    }
    kinds = ["Be", "Bt", "It", "T", "H", "R", "Vi", "N", "IB", "Te"]
    seqlist = list(seqs(kinds, 2)) + list(seqs(["Bt", "It", "T"], 3, 3))
    if tier == "thorough":
        seqlist += list(seqs(["Be", "Bt", "It", "T", "R"], 3, 3)) + list(seqs(["Bt", "It", "T"], 4, 4))
    for rn, rf in ROOTS.items():
        for s in dict.fromkeys(seqlist):
            if rn in ("script",) and any(k not in ("T", "H", "N", "Te") for k in s):
                continue

            def f(env, rf=rf, s=s, rn=rn):
                root, top = rf(nodes(env, s))
                vs = []
                for p in positions(root):
                    if top and p == ():
                        continue
                    for kind in ("M", "D"):
                        vs.append((f"{kind} at {p}", insert(root, p, mk(kind)), False))
                compare(env, root, vs, top, f"{rn} {sname(s)}")
            add(f"one/{rn}{sname(s)}", f)
    # several nodes, other kinds of metadata
    for rn, rf in ROOTS.items():
        for s in list(seqs(["Bt", "It", "T", "R"], 1)) + [("Bt", "T"), ("T", "Bt"), ("It", "It"), ("T", "T"), ("Bt", "Bt")]:
            if rn == "script" and any(k != "T" for k in s):
                continue

            def f(env, rf=rf, s=s, rn=rn):
                root, top = rf(nodes(env, s))
                ps = [p for p in positions(root)]
                vs = []
                for p in ps:
                    for kind in ("Dh", "HC", "X", "XD", "XL", "XE"):
                        vs.append((f"{kind} at {p}", insert(root, p, mk(kind)), kind in NEEDS_TAGIFY))
                    two = insert(insert(root, p, mk("M")), p, mk("D"))
                    vs.append((f"M,D at {p}", two, False))
                    vs.append((f"D,M,D at {p}", insert(two, p, mk("D", 2)), False))
                everywhere = root
                for p in sorted(ps, key=lambda p: (len(p), p), reverse=True):
                    everywhere = insert(everywhere, p, mk("M"))
                vs.append(("M everywhere", everywhere, False))
                everywhere = root
                for i, p in enumerate(sorted(ps, key=lambda p: (len(p), p), reverse=True)):
                    everywhere = insert(everywhere, p, mk("D", i))
                vs.append(("D everywhere", everywhere, False))
                if rn == "block" or rn == "list":
                    vs.append(("nested list of M", insert(root, ps[0], N("list", kids=[meta(), N("tuple", kids=[meta()]), dep("z")])), False))
                compare(env, root, vs, top, f"{rn} {sname(s)}")
            add(f"multi/{rn}{sname(s)}", f)

    def mutators(env):
        for mk_ in (lambda: user("Meta"), lambda: new("HTMLDependency", "a", "1")):
            for base in ([], ["t"], [("p",)]):
                def t():
                    return call(g("Tag"), ["div"] + [call(g("Tag"), list(b)) if isinstance(b, tuple) else b for b in base])
                ref = str_(t())
                x = t(); m(x, "append", mk_()); check_same(str_(x), ref, "append(metadata)")
                x = t(); m(x, "insert", 0, mk_()); check_same(str_(x), ref, "insert(0, metadata)")
                x = t(); m(x, "extend", mklist([mk_(), mk_()])); check_same(str_(x), ref, "extend(metadata)")
                x = t(); m(x, "append", mk_()); m(getattr_(x, "children"), "pop"); check_same(str_(x), ref, "metadata removed again")
    add("mutators", mutators)

    def deps_only(env):
        d = new("HTMLDependency", "a", "1")
        x = call(g("Tag"), ["div", user("Meta"), d, call(g("Tag"), ["p", user("Meta")]), user("Meta")])
        ds = E.tolist(m(x, "get_dependencies"))
        if len(ds) != 1 or ds[0] is not d:
            raise Bad("metadata nodes that are not dependencies appear in get_dependencies()")
        ds = E.tolist(getitem(m(x, "render"), "dependencies"))
        if len(ds) != 1:
            raise Bad("metadata nodes that are not dependencies appear in render()['dependencies']")
    add("deps-only", deps_only)

    def removed(env):
        """a tree whose dependencies are removed renders the same string"""
        for kind in ("M", "D"):
            root = el("div", mk(kind), tx("a"), mk(kind, 1), el("p", mk(kind, 2)), el("br", mk(kind, 3), ws=False))
            o = build(root)
            before = str_(o)
            for c in [x for x in E.tolist(getattr_(o, "children")) if not isinstance(x, (str, T.Str)) and E.truth(E.isinstance_(x, g("MetadataNode", "htmltools._core")))]:
                m(getattr_(o, "children"), "remove", c)
            check_same(str_(o), before, "after removing metadata")
    add("removed", removed)
    for th in sorted(int_thresholds(("htmltools/_core.py", "htmltools/_util.py"))):
        if th > 40:
            continue

        def f(env, th=th):
            for base in ([tx("a")], [], [el("p"), tx("b")]):
                for n in (el("div", *base), el("br", *base, ws=False)):
                    v = clone(n)
                    for i in range(th + 1):
                        v.kids.insert(i % (len(v.kids) + 1), meta() if i % 2 else dep(f"d{i}"))
                    check_same(str_(build(v)), str_(build(n)), f"{th + 1} metadata nodes")
        add(f"size/{th}", f)
    for gn, gf in mined.generic():
        def f(env, gf=gf):
            n = gf(env)
            root = N("list", kids=[tx("z"), n, el("b", ws=False)])
            vs = []
            for p in positions(root):
                if p[0] == 1 and len(p) <= 2:
                    vs += [(f"{k} at {p}", insert(root, p, mk(k)), False) for k in ("M", "D")]
            compare(env, root, vs, True, "element with any name and attribute")
        add(f"generic/{gn}", f)
    for (a, b), sh in itertools.product(mined.combos(), ("inline", "texts", "block")):
        def f(env, a=a, b=b, sh=sh):
            base, core = mined.grown(env, a, b, sh)
            ref = str_(build(base))
            for i in (0, len(core.kids) // 2, len(core.kids)):
                core.kids.insert(i, meta())
                check_same(str_(build(base)), ref, f"{a} levels, {b} children, metadata among them")
            core.kids[:] = [x for x in core.kids if x.k != "meta"] + [meta() for _ in range(b)]
            check_same(str_(build(base)), ref, f"{a} levels, {b} children, as many metadata nodes")
        add(f"grown/{a}/{b}/{sh}", f)
    return out


PROP = Prop(
    "C07", "Metadata nodes leave no trace in the markup",
    "for every tree shape and every insertion point, the abstract output terms with and without inserted metadata must be identical",
    [("htmltools", "Tag.get_html_string"), ("htmltools", "TagList.get_html_string")], scenarios,
    bounds="every insertion point of trees with up to 2 (3) siblings in 8 parent contexts; 1, 2, 3 and everywhere insertions; 8 kinds of metadata",
)
