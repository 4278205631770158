"""C08: rendering is pure, tagify() independent, equality structural."""
import itertools

from .. import engine as E
from .. import fs
from .. import mined
from .. import terms as T
from ..api import Bad, g, m, new
from ..base import Prop, Scenario, int_thresholds
from ..engine import Raised, call, getattr_, getitem, mkdict, mklist, repr_, setattr_, str_
from ..model import NAMECH, check_same, diff, preload, user
from ..oracle import Snap, path_diff, struct
from ..shapes import PLAIN

D = lambda **k: mkdict([(a.replace("_", "-") if a == "http_equiv" else a, v) for a, v in k.items()])


def tag(name, *a, **k):
    return call(g("Tag"), [name, *a], list(k.items()))


def tl(*a):
    return call(g("TagList"), list(a))


def doc(*a, **k):
    return call(g("HTMLDocument"), list(a), list(k.items()))


def dep(name="d", version="1.0", **k):
    return call(g("HTMLDependency"), [name, version], list(k.items()))


def full_dep(env, name="d", tagi=False):
    return dep(name, "1.2", source=D(subdir="src"), script=mklist([D(src="a.js"), D(src="b.js", type="module")]),
               stylesheet=mklist([D(href="c.css")]), meta=mklist([D(name="n", content="c")]),
               head=tl(tag("title", env.sym("ht")), user("Fresh", "a") if tagi else tag("base")))


TREES = {
    "empty": lambda e: tag("div"),
    "text": lambda e: tag("p", e.sym("t")),
    "nested": lambda e: tag("div", tag("p", e.sym("t"), tag("b", "x", _add_ws=False)), tag("ul", tag("li", "1"), tag("li", "2"))),
    "attrs": lambda e: tag("div", D(**{"class": "a"}), tag("p", style="x:y;", hidden=True), "z", id=e.sym("v"), title=new("HTML", e.sym("h"))),
    "html": lambda e: tag("div", new("HTML", e.sym("h")), "t", new("HTML", "b")),
    "repr": lambda e: tag("div", user("Selfie", e.sym("r")), tag("p", user("Selfie", "q"))),
    "void": lambda e: tag("br", _add_ws=False),
    "script": lambda e: tag("script", e.sym("s"), new("HTML", "x"), type="t"),
    "inline": lambda e: tag("span", tag("b", "x", _add_ws=False), tag("div", "y"), _add_ws=False),
    "meta": lambda e: tag("div", user("MetaV", "a"), tag("p", user("MetaV", "pay"))),
    "meta-plain": lambda e: tag("div", user("Meta"), tag("p", user("Meta", "pay"))),
    "dep": lambda e: tag("div", full_dep(e), tag("p", dep("e", "2"), full_dep(e, "f"))),
    "dep-dup": lambda e: tag("div", dep("a", "1"), tag("p", dep("a", "3"), dep("b", "1")), dep("a", "2")),
    "dep-url": lambda e: tag("div", dep("u", "1", source=D(href="http://x"), script=D(src="a.js"), all_files=True)),
    "dep-tagi": lambda e: tag("div", full_dep(e, "g", True)),
    "head_content": lambda e: tag("div", call(g("head_content"), [tag("title", e.sym("t"))]), "x"),
    "expand-tag": lambda e: tag("div", user("Fresh", "tag"), "x"),
    "expand-list": lambda e: tag("div", "y", user("Fresh", "list"), user("Fresh", "empty"), tag("p", user("Fresh", "dep"))),
    "expand-deep": lambda e: tag("div", tag("p", user("Fresh", "tag"), user("Fresh", "list"))),
    "both": lambda e: tag("div", user("Both", tag("i"), "<i>"), "x"),
    "headbody": lambda e: tag("html", tag("head", tag("title", "t")), tag("body", dep("k", "1"), "x"), lang="en"),
    "open": lambda e: call(g("Tag"), [e.sym("gname", only=NAMECH, nonempty=True), mkdict([(mined.key(e, "an"), e.sym("av"))]), dep("k", "1"), "x", dep("k", "2"), tag("b", "y")]),
    "open-empty": lambda e: call(g("Tag"), [e.sym("gname", only=NAMECH, nonempty=True), mkdict([("id", "i"), (mined.key(e, "an", ["id"]), e.sym("av"))])], [("_add_ws", False)]),
    "open-inner": lambda e: tag("section", call(g("Tag"), [e.sym("gname", only=NAMECH, nonempty=True), dep("k", "2"), dep("k", "2")]), tag("p", mkdict([(mined.key(e, "an"), new("HTML", e.sym("av")))]))),
}
EXPANDS = {"expand-tag", "expand-list", "expand-deep", "both", "dep-tagi"}

DEPS = {
    "none": lambda e: dep("n", "1.0"),
    "full": full_dep,
    "url": lambda e: dep("u", "1", source=D(href=e.sym("u")), script=D(src="a b.js"), stylesheet=D(href="x.css", media="all")),
    "pkg": lambda e: dep("p", "1", source=D(package="pk", subdir="lib"), script=D(src="a.js"), meta=D(name="x", content="y")),
    "all": lambda e: dep("p", "1", source=D(subdir="lib"), all_files=True),
    "headstr": lambda e: dep("h", "1", head=e.sym("h")),
    "headtag": lambda e: dep("h", "1", head=tag("title", "x")),
    "version-obj": lambda e: call(g("HTMLDependency"), ["v", call(g("Version", "htmltools._core"), ["1.2.3"])]),
    "open": lambda e: dep("o", "1", source=D(href="u"), script=mklist([mined.open_dict(e, 0, ("src", "a.js")), D(src="b.js")]), stylesheet=mined.open_dict(e, 1, ("href", "c.css")),
                          meta=mklist([mined.open_dict(e, 2, ("name", "x"), ("content", "y"))])),
    "open-src": lambda e: dep("o", "1", source=mined.open_dict(e, 3, ("subdir", "lib")), script=D(src="a.js"), stylesheet=mined.open_dict_first(e, 1, ("href", "c.css"), ("rel", e.sym("rel")))),
    "syms": lambda e: dep(e.sym("dn"), "1.0", source=D(subdir=e.sym("sd")), script=mklist([D(src=e.sym("js"), **{"async": ""})])),
}

DOCS = {
    "fragment": lambda e: doc("x", tag("p", full_dep(e)), user("Meta"), lang="en"),
    "body": lambda e: doc(tag("body", dep("d", "1"), "x", id="b"), lang="en"),
    "html": lambda e: doc(tag("html", tag("head", tag("title", "t")), tag("body", full_dep(e))), lang="en"),
    "html-nohead": lambda e: doc(tag("html", dep("d", "1"), tag("body", "x"), id="i"), **{"class": "k"}),
    "expand": lambda e: doc(user("Fresh", "tag"), user("Fresh", "dep"), user("Fresh", "list")),
    "expand-html": lambda e: doc(user("Fresh", "html"), lang="e"),
    "expand-body": lambda e: doc(user("Fresh", "body"), lang="e"),
    "empty": lambda e: doc(),
    "open": lambda e: call(g("HTMLDocument"), ["a", dep("k", "1")], [(mined.key(e, "kn"), e.sym("kv"))]),
    "open-html": lambda e: call(g("HTMLDocument"), [call(g("Tag"), ["html", mkdict([(mined.key(e, "an"), e.sym("av"))]), tag("head"), tag("body")])], [(mined.key(e, "kn"), e.sym("kv"))]),
    "lists": lambda e: doc(mklist([tag("p"), tl("a", tag("b"))])),
}


def copy_(x):
    return call(getattr_(E.import_module("copy"), "copy"), [x])


def files_present(state="file"):
    """all listed source files exist (or are all missing); the output tree is new"""
    for p in ("src/a.js", "src/b.js", "src/c.css", "lib/a.js", "f.js", "a.js", "c.css"):
        for pre in ("", "/"):
            fs.PRESET[fs.segs(pre + p)] = state
    for p in ("out", "dst", "src"):
        fs.PRESET[fs.segs(p)] = "dir"
    fs.PRESET[fs.segs("out/lib")] = "missing"
    for n in ("d-1.2", "e-2", "f-1.2", "d", "e", "f", "fresh-1", "g-1.2", "g"):
        fs.PRESET[fs.segs("dst/" + n)] = "missing"
        fs.PRESET[fs.segs("out/" + n)] = "missing"


def guard(f):
    def g_(*a):
        try:
            return f(*a)
        except Raised as e:
            return ("raised", E.exc_text(e.value))
    return g_


TREE_OPS = {
    "tagify": lambda e, x: m(x, "tagify"),
    "render": lambda e, x: m(x, "render"),
    "str": lambda e, x: str_(x),
    "repr": lambda e, x: repr_(x),
    "_repr_html_": lambda e, x: m(x, "_repr_html_"),
    "get_html_string": guard(lambda e, x: m(x, "get_html_string")),
    "get_html_string(k)": guard(lambda e, x: m(x, "get_html_string", T.Lin("k"), e.sym("eol"))),
    "get_dependencies": lambda e, x: m(x, "get_dependencies"),
    "get_dependencies(False)": lambda e, x: m(x, "get_dependencies", dedup=False),
    "copy": lambda e, x: copy_(x),
    "eq": lambda e, x: E.eq_(x, copy_(x)),
    "eq-other": lambda e, x: E.eq_(x, tag("q")),
    "doc.render": lambda e, x: m(doc(x, lang="zz"), "render"),
    "save_html": lambda e, x: m(x, "save_html", "out/f.html"),
    "doc.save_html": guard(lambda e, x: m(doc(x), "save_html", "out/f.html", libdir=None, include_version=False)),
}
TREE_OPS["save_html"] = guard(TREE_OPS["save_html"])
DEP_OPS = {
    "as_html_tags": lambda e, x: m(x, "as_html_tags"),
    "as_html_tags(None)": lambda e, x: m(x, "as_html_tags", lib_prefix=None, include_version=False),
    "as_dict": lambda e, x: m(x, "as_dict"),
    "as_dict(p)": lambda e, x: m(x, "as_dict", lib_prefix=e.sym("lp"), include_version=True),
    "source_path_map": lambda e, x: m(x, "source_path_map"),
    "serialize": lambda e, x: m(x, "serialize_to_script_json"),
    "serialize(2)": lambda e, x: m(x, "serialize_to_script_json", indent=2),
    "copy": lambda e, x: copy_(x),
    "str": lambda e, x: str_(x),
    "repr": lambda e, x: repr_(x),
    "eq": lambda e, x: E.eq_(x, copy_(x)),
    "in-tree": lambda e, x: m(tag("div", x), "render"),
    "in-tree-tagify": lambda e, x: m(tl(x), "tagify"),
    "in-doc": lambda e, x: m(doc(x, "t"), "render"),
    "copy_to": guard(lambda e, x: m(x, "copy_to", "dst")),
}
DOC_OPS = {
    "render": lambda e, x: m(x, "render"),
    "render(p)": lambda e, x: m(x, "render", lib_prefix="p/q", include_version=False),
    "render(None)": lambda e, x: m(x, "render", lib_prefix=None),
    "save_html": guard(lambda e, x: m(x, "save_html", "out/f.html")),
    "copy": lambda e, x: copy_(x),
}


def pure(env, x, op, f, what):
    before = Snap(x)
    reach = before.reachable()
    E.WRITES.clear()
    E.LOG_WRITES[0] = True
    try:
        r = f(env, x)
    finally:
        E.LOG_WRITES[0] = False
        writes = list(E.WRITES)
        E.WRITES.clear()
    after = Snap(x)
    if before.text != after.text:
        loc = None
        for o, w, l in writes:
            if id(o) in reach and l and str(l[0]).startswith("htmltools"):
                loc = l
        raise Bad(f"{what} changes an object reachable from the receiver: {path_diff(before.text, after.text, 'x')}", loc, "no write to a receiver-reachable object")
    return r


def mutable_nodes(root, api):
    """tags, lists, attribute maps and metadata nodes of a tree (opaque user objects are leaves)"""
    out = {}
    Tag, TL, AD, MN, DEP = api

    def go(v, at, bare=False):
        if not isinstance(v, E.Inst) or id(v) in out:
            return
        if v.cls.issub(Tag):
            out[id(v)] = (v, at)
            for k, x in list(v.d.items()):
                go(x, f"{at}.{T.show(k)}", True)
        elif v.cls.issub(TL):
            out[id(v)] = (v, at)
            for i, x in enumerate(E.tolist(v)):
                go(x, f"{at}[{i}]")
            go(getattr_(v, "data"), at + ".data", True)
        elif v.cls.issub(MN):
            out[id(v)] = (v, at)
            if v.cls.issub(DEP):
                for k, x in list(v.d.items()):
                    go(x, f"{at}.{T.show(k)}", True)
        elif v.cls.issub(AD) or (bare and v.cls.name in ("list", "dict")):
            out[id(v)] = (v, at)
            if v.cls.name == "list":
                for i, x in enumerate(E.tolist(v)):
                    go(x, f"{at}[{i}]", True)
    go(root, "x", True)
    return out


def scenarios(tier):
    preload()
    out = []
    names = set()

    def add(n, f, **k):
        if n not in names:
            names.add(n)
            out.append(Scenario(n, f, **k))

    def api():
        return g("Tag"), g("TagList"), g("TagAttrDict", "htmltools._core"), g("MetadataNode", "htmltools._core"), g("HTMLDependency")

    # ------------------------------------------------ purity and repetition
    FAM = {"tag": (TREES, TREE_OPS), "list": ({k: (lambda e, f=f: tl("a", f(e), tag("i", "x", _add_ws=False), f(e) if k != "headbody" else None)) for k, f in TREES.items()}, TREE_OPS),
           "dep": (DEPS, DEP_OPS), "doc": (DOCS, DOC_OPS)}
    for fam, (objs, ops) in FAM.items():
        for on, of in objs.items():
            for opn, opf in ops.items():
                def f(env, of=of, opf=opf, opn=opn, fam=fam, on=on):
                    x = of(env)
                    r1 = struct(pure(env, x, opn, opf, f"{opn} of {fam} {on}"))
                    r2 = struct(opf(env, x))
                    if r1 != r2:
                        raise Bad(f"repeating {opn} of {fam} {on} gives a different result: {path_diff(r1, r2, 'result')}")
                if opn in ("save_html", "doc.save_html", "copy_to"):
                    for st in ("file", "missing"):
                        def f(env, of=of, opf=opf, opn=opn, fam=fam, on=on, st=st):
                            files_present(st)
                            x = of(env)
                            pure(env, x, opn, opf, f"{opn} of {fam} {on}")
                        add(f"pure/{fam}/{on}/{opn}/{st}", f, max_paths=600)
                    continue
                add(f"pure/{fam}/{on}/{opn}", f, max_paths=600)
            # every other operation in between
            def f(env, of=of, ops=ops, fam=fam, on=on):
                x = of(env)
                fs_ops = ("save_html", "doc.save_html", "copy_to")
                seq = [o for o in ops if o not in fs_ops]
                first = {o: struct(ops[o](env, x)) for o in seq}
                for o in list(reversed(seq)) + seq[::2] + seq[1::2]:
                    r = struct(ops[o](env, x))
                    if r != first[o]:
                        raise Bad(f"{o} of {fam} {on} gives a different result after other operations: {path_diff(first[o], r, 'result')}")
            add(f"interleave/{fam}/{on}", f)
            if tier == "thorough":
                def f(env, of=of, ops=ops, fam=fam, on=on):
                    fs_ops = ("save_html", "doc.save_html", "copy_to")
                    seq = [o for o in ops if o not in fs_ops]
                    ref = {o: struct(ops[o](env, of(env))) for o in seq}
                    for a in seq:
                        for b in seq:
                            x = of(env)
                            ops[a](env, x)
                            r = struct(ops[b](env, x))
                            if r != ref[b]:
                                raise Bad(f"{b} of {fam} {on} differs after {a}: {path_diff(ref[b], r, 'result')}")
                add(f"pairs/{fam}/{on}", f)

    # ------------------------------------------------ argument purity of methods taking objects
    def shared(env):
        """several documents over the same content"""
        for mk_ in (lambda: tag("html", tag("head"), tag("body", "x")), lambda: tag("body", full_dep(env)), lambda: tag("p", full_dep(env))):
            x = mk_()
            s0 = Snap(x)
            a = m(doc(x, lang="a"), "render")
            b = m(doc(x, lang="b"), "render")
            a2 = m(doc(x, lang="a"), "render")
            s1 = Snap(x)
            if s0.text != s1.text:
                raise Bad(f"rendering a document alters its content: {path_diff(s0.text, s1.text)}")
            check_same(getitem(a2, "html"), getitem(a, "html"), "document rendered again over the same content")
    add("shared-content", shared)

    # ------------------------------------------------ tagify: equality, fixed point, independence
    for fam, wrap in (("tag", lambda x: x), ("list", lambda x: tl("a", x, tag("b", "y")))):
        for on, of in TREES.items():
            def f(env, of=of, wrap=wrap, on=on, fam=fam):
                x = wrap(of(env))
                r = m(x, "tagify")
                if on not in EXPANDS:
                    for a, b in ((x, r), (r, x)):
                        if on == "meta-plain":
                            continue  # a copy of metadata that defines no == is not equal to it
                        if not E.truth(E.eq_(a, b)):
                            raise Bad(f"tagify() of {fam} {on} is not equal to the original: {path_diff(struct(x), struct(r))}")
                    if struct(x) != struct(r):
                        raise Bad(f"tagify() of {fam} {on} differs from the original: {path_diff(struct(x), struct(r))}")
                rr = m(r, "tagify")
                if struct(r) != struct(rr):
                    raise Bad(f"tagify() of {fam} {on} is not a fixed point: {path_diff(struct(r), struct(rr))}")
                if on != "meta-plain" and not E.truth(E.eq_(r, rr)):
                    raise Bad(f"tagify(tagify(x)) == tagify(x) is False for {fam} {on}")
                A = api()
                for p, q, w in ((x, r, "tagify()"), (r, rr, "tagify(tagify())"), (x, rr, "tagify(tagify())")):
                    a, b = mutable_nodes(p, A), mutable_nodes(q, A)
                    sh = [i for i in b if i in a]
                    if sh:
                        o, at = b[sh[0]]
                        raise Bad(f"{w} of {fam} {on} shares the {o.cls.name} object at {at} with the original")
            add(f"tagify/{fam}/{on}", f)

    # deep sharing: a tag used twice; depth
    def depth(env, n=6):
        x = tag("p", "x", dep("a", "1"), user("MetaV", "m"))
        for i in range(n):
            x = tag(f"d{i}", x, _add_ws=i % 2 == 0)
        r = m(x, "tagify")
        A = api()
        a, b = mutable_nodes(x, A), mutable_nodes(r, A)
        sh = [i for i in b if i in a]
        if sh:
            raise Bad(f"tagify() shares the {b[sh[0]][0].cls.name} object at {b[sh[0]][1]} with the original")
        if not E.truth(E.eq_(x, r)):
            raise Bad("tagify() of a deep tree is not equal to the original")
    add("tagify/depth", depth)
    for th in sorted(int_thresholds(("htmltools/_core.py", "htmltools/_util.py"))):
        if th > 40:
            continue
        add(f"tagify/depth/{th}", lambda env, th=th: depth(env, th + 1))

        def wide(env, th=th):
            x = tag("div", *[(tag("p", f"{i}"), f"t{i}", user("MetaV", "m"), dep(f"d{i}", "1"))[i % 4] for i in range(th + 2)])
            r = m(x, "tagify")
            A = api()
            a, b = mutable_nodes(x, A), mutable_nodes(r, A)
            sh = [i for i in b if i in a]
            if sh:
                raise Bad(f"tagify() shares the {b[sh[0]][0].cls.name} object at {b[sh[0]][1]} with the original")
            if struct(x) != struct(r) or not E.truth(E.eq_(x, r)):
                raise Bad("tagify() of a wide tree differs from the original")
            y = tag("div", *[(tag("p", f"{i}"), f"t{i}", user("MetaV", "m"), dep(f"d{i}", "1"))[i % 4] for i in range(th + 1)])
            if E.truth(E.eq_(x, y)):
                raise Bad("== ignores the last child of a long list")
        add(f"tagify/wide/{th}", wide)

    # public mutators on either side
    MUT = {
        "append": lambda x: m(x, "append", "new"), "insert": lambda x: m(x, "insert", 0, tag("new")), "extend": lambda x: m(x, "extend", mklist(["n"])),
        "attrs.update": lambda x: m(getattr_(x, "attrs"), "update", id="n"), "attrs[]": lambda x: E.setitem(getattr_(x, "attrs"), "class", "n"),
        "add_class": lambda x: m(x, "add_class", "n"), "remove_class": lambda x: m(x, "remove_class", "a"), "add_style": lambda x: m(x, "add_style", "n:1;"),
        "children.pop": lambda x: m(getattr_(x, "children"), "pop"), "children.clear": lambda x: m(getattr_(x, "children"), "clear"),
        "children.reverse": lambda x: m(getattr_(x, "children"), "reverse"), "name": lambda x: setattr_(x, "name", "new"), "add_ws": lambda x: setattr_(x, "add_ws", "n"),
        "children[0]": lambda x: E.setitem(getattr_(x, "children"), 0, "n"),
    }
    for mn, mf in MUT.items():
        def f(env, mf=mf, mn=mn):
            def mk_():
                return tag("div", tag("p", tag("b", "x", _add_ws=False), "t", **{"class": "a b"}), "z", user("Meta"), **{"class": "a"})
            for side in (0, 1):
                for path in ((), (0,), (0, 0)):
                    x = mk_()
                    r = m(x, "tagify")
                    tgt, other = (x, r) if side == 0 else (r, x)
                    s0 = struct(other)
                    for i in path:
                        tgt = getitem(getattr_(tgt, "children"), i)
                    mf(tgt)
                    if struct(other) != s0:
                        raise Bad(f"{mn} on {'the original' if side == 0 else 'the tagified copy'} affects the other: {path_diff(s0, struct(other))}")
        add(f"mutate/{mn}", f)

    # ------------------------------------------------ the four string forms
    for fam, wrap in (("tag", lambda x: x), ("list", lambda x: tl(x)), ("list2", lambda x: tl("a", x, tag("i", "q", _add_ws=False)))):
        for on, of in TREES.items():
            def f(env, of=of, wrap=wrap, on=on, fam=fam):
                x = wrap(of(env))
                ref = getitem(m(x, "render"), "html")
                for n, fn in (("str", str_), ("repr", repr_), ("_repr_html_", lambda v: m(v, "_repr_html_")), ("format", lambda v: call(E.BUILTINS["format"], [v])), ("f-string !r", repr_)):
                    check_same(fn(x), ref, f"{n}(x) differs from render()['html'] for {fam} {on}")
            add(f"forms/{fam}/{on}", f)

    # ------------------------------------------------ equality
    SPECS = {
        "div": lambda: tag("div"), "span": lambda: tag("span"), "div~": lambda: tag("div", _add_ws=False),
        "div id": lambda: tag("div", id="a"), "div id b": lambda: tag("div", id="b"), "div title": lambda: tag("div", title="a"),
        "div id title": lambda: tag("div", id="a", title="b"), "div id empty": lambda: tag("div", id=""), "div class": lambda: tag("div", class_="a"),
        "div id title class": lambda: tag("div", id="a", title="b", class_="c"),
        "div t": lambda: tag("div", "a"), "div empty t": lambda: tag("div", ""), "div ab": lambda: tag("div", "ab"), "div a,b": lambda: tag("div", "a", "b"),
        "div b,a": lambda: tag("div", "b", "a"), "div a,b,c": lambda: tag("div", "a", "b", "c"), "div p": lambda: tag("div", tag("p")), "div p,p": lambda: tag("div", tag("p"), tag("p")),
        "div p(a)": lambda: tag("div", tag("p", "a")), "div p(b)": lambda: tag("div", tag("p", "b")), "div p,a": lambda: tag("div", tag("p"), "a"), "div p~": lambda: tag("div", tag("p", _add_ws=False)),
        "div p id": lambda: tag("div", tag("p", id="a")), "div p(b(a))": lambda: tag("div", tag("p", tag("b", "a"))), "div p(b(b))": lambda: tag("div", tag("p", tag("b", "b"))),
        "div p b": lambda: tag("div", tag("p", tag("b"))), "div p(b id)": lambda: tag("div", tag("p", tag("b", id="a"))),
        "list": lambda: tl(), "list a": lambda: tl("a"), "list b": lambda: tl("b"), "list a,b": lambda: tl("a", "b"), "list div": lambda: tl(tag("div")), "list div,div": lambda: tl(tag("div"), tag("div")),
        "list span": lambda: tl(tag("span")), "list div t": lambda: tl(tag("div", "a")), "list div id": lambda: tl(tag("div", id="a")),
        "dep": lambda: dep("a", "1"), "dep b": lambda: dep("b", "1"), "dep v2": lambda: dep("a", "2"), "dep all": lambda: dep("a", "1", all_files=True),
        "dep src": lambda: dep("a", "1", source=D(subdir="x")), "dep src y": lambda: dep("a", "1", source=D(subdir="y")), "dep script": lambda: dep("a", "1", script=D(src="x")),
        "dep script2": lambda: dep("a", "1", script=D(src="y")), "dep scripts": lambda: dep("a", "1", script=mklist([D(src="x"), D(src="y")])), "dep css": lambda: dep("a", "1", stylesheet=D(href="x")),
        "dep meta": lambda: dep("a", "1", meta=D(name="x", content="y")), "dep meta z": lambda: dep("a", "1", meta=D(name="x", content="z")), "dep head": lambda: dep("a", "1", head="x"), "dep head y": lambda: dep("a", "1", head="y"),
        "div dep": lambda: tag("div", dep("a", "1")), "div dep b": lambda: tag("div", dep("b", "1")), "div dep v2": lambda: tag("div", dep("a", "2")),
        "list dep": lambda: tl(dep("a", "1")), "div dep,div": lambda: tag("div", dep("a", "1"), tag("div")), "div div": lambda: tag("div", tag("div")),
        "div dep script": lambda: tag("div", dep("a", "1", script=D(src="x"))),
    }
    ks = list(SPECS)
    for i, a in enumerate(ks):
        def f(env, a=a, i=i):
            x = SPECS[a]()
            for b in ks:
                y = SPECS[b]()
                e, ne = E.truth(E.eq_(x, y)), E.truth(E.compare("NotEq", x, y))
                if e != (a == b):
                    raise Bad(f"({a}) == ({b}) is {e}")
                if ne == e:
                    raise Bad(f"({a}) != ({b}) is {ne} although == is {e}")
            for y, n in ((None, "None"), ("div", "a string"), (mklist([]), "a list"), (mkdict([]), "a dict"), (1, "a number"), (user("Plain"), "another object"), (mklist(["a"]), "a list ['a']"), (user("Meta"), "a metadata node"), (user("Expand", None), "a tagifiable")):
                if E.truth(E.eq_(x, y)) or E.truth(E.eq_(y, x)):
                    raise Bad(f"({a}) equals {n}")
        add(f"eq/{a}", f)

    def lookalike(env):
        """objects of another kind whose fields are the same"""
        ul = getattr_(E.import_module("collections"), "UserList")
        for a, mk_ in SPECS.items():
            x = mk_()
            ys = [(user("LookAlike", x), "an object with the same fields")]
            if x.cls.issub(g("TagList")):
                ys += [(call(ul, [getattr_(x, "data")]), "a UserList of the same items"), (getattr_(x, "data"), "a list of the same items"), (tuple(getattr_(x, "data").data), "a tuple of the same items")]
            for y, n in ys:
                if E.truth(E.eq_(x, y)):
                    raise Bad(f"({a}) equals {n}")
                if not E.truth(E.compare("NotEq", x, y)):
                    raise Bad(f"({a}) is not unequal to {n}")
    add("eq/lookalike", lookalike)

    def eqsym(what, mk_):
        def f(env):
            a, b = env.sym("a", **KW.get(what, {})), env.sym("b", **KW.get(what, {}))
            x, y = mk_(a), mk_(b)
            same = bool(T.eq(a, b))
            e = E.truth(E.eq_(x, y))
            if e != same:
                raise Bad(f"objects with {what} {'equal' if same else 'different'} compare {'equal' if e else 'unequal'}")
        add(f"eq/sym/{what}", f)
    KW = {}
    eqsym("tag name", lambda v: tag(v))
    eqsym("text", lambda v: tag("div", v))
    eqsym("second text", lambda v: tag("div", "x", v))
    eqsym("deep text", lambda v: tag("div", tag("p", tag("b", v))))
    eqsym("list text", lambda v: tl(v))
    eqsym("list second text", lambda v: tl("q", v))
    eqsym("attribute value", lambda v: tag("div", id=v))
    eqsym("second attribute value", lambda v: tag("div", title="x", id=v))
    eqsym("child attribute value", lambda v: tag("div", "a", tag("p", id=v)))
    eqsym("HTML text", lambda v: tag("div", new("HTML", v)))
    eqsym("dependency name", lambda v: dep(v, "1"))
    eqsym("child dependency name", lambda v: tag("div", dep(v, "1")))
    eqsym("dependency script", lambda v: dep("a", "1", script=D(src=v)))
    eqsym("dependency head", lambda v: dep("a", "1", head=v))

    def subset_attrs(env):
        ns = ["a", "b", "c"]
        sets = [s for k in range(4) for s in itertools.combinations(ns, k)]
        for s in sets:
            for t in sets:
                x, y = tag("div", **{k: "1" for k in s}), tag("div", **{k: "1" for k in t})
                if E.truth(E.eq_(x, y)) != (s == t):
                    raise Bad(f"tags with attributes {s} and {t} compare {'equal' if s != t else 'unequal'}")
        x, y = tag("div", a="1", b="2"), tag("div", b="2", a="1")
        if not E.truth(E.eq_(x, y)):
            raise Bad("the set of attributes is the same but the tags are unequal")
    add("eq/attr-sets", subset_attrs)

    def history(env):
        """equality of objects with the same structure but different history"""
        x = tag("div", "a", tag("p"))
        y = tag("div")
        m(y, "append", "a")
        m(y, "append", tag("p"))
        z = tag("div", "a", tag("p"), "b")
        m(getattr_(z, "children"), "pop")
        w = copy_(x)
        u = tag("div", mklist(["a", (tag("p"),)]), None)
        q = tag("div", "a", tag("p"), id="x")
        m(getattr_(q, "attrs"), "pop", "id")
        for o, n in ((y, "appended"), (z, "popped"), (w, "copied"), (u, "nested"), (q, "attribute removed")):
            str_(o)
            if not (E.truth(E.eq_(x, o)) and E.truth(E.eq_(o, x))):
                raise Bad(f"structurally identical tags compare unequal ({n})")
        m(x, "render")
        if not E.truth(E.eq_(x, y)):
            raise Bad("structurally identical tags compare unequal after render()")
        c = call(g("Tag"), ["div", "a", tag("p")])
        m(c, "__enter__")
        m(c, "__exit__", None, None, None)
        if not E.truth(E.eq_(c, x)):
            raise Bad("a tag used as a context manager compares unequal to a structurally identical one")
    add("eq/history", history)
    return out


PROP = Prop(
    "C08", "Rendering and tagify are pure and consistent; tagify returns an independent copy",
    "no method of the rendering family writes to an object reachable from its receiver; tagify's result shares no mutable node with the original; == agrees with structure",
    [("htmltools", "TagList.tagify"), ("htmltools", "Tag.tagify"), ("htmltools", "HTMLDocument.render"), ("htmltools._core", "MetadataNode"), ("htmltools._core", "TagAttrDict")], scenarios,
    bounds="20 tree families x 15 operations, 9 dependency families x 15 operations, 9 document families x 5; 57x57 equality matrix plus symbolic pairs",
)
