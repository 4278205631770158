"""C10: dependencies are validated, then resolved one per name to the highest version."""
import itertools

from .. import engine as E
from .. import lib
from .. import mined
from .. import terms as T
from ..api import Bad, g, m, new
from ..base import Prop, Scenario, int_thresholds
from ..engine import Raised, call, getattr_, getitem, mkdict, mklist, str_
from ..model import check_same, preload, user
from ..oracle import path_diff, struct


def D(**k):
    return mkdict(list(k.items()))


def tag(name, *a, **k):
    return call(g("Tag"), [name, *a], list(k.items()))


def tl(*a):
    return call(g("TagList"), list(a))


def dep(name, version, **k):
    return call(g("HTMLDependency"), [name, version], list(k.items()))


def version(env, i, rank):
    """an arbitrary version string known only by its place in the version order"""
    v = env.sym(f"v{i}", nonempty=True)
    lib.VERSION_RANKS[f"v{i}"] = rank
    return v


def resolve(items):
    """items: [(name key, rank, object)] -> objects"""
    best = {}
    for n, r, o in items:
        if n not in best or r > best[n][0]:
            best[n] = (r, o)
    return [o for _, o in best.values()]


def label(ds, objs):
    ids = {id(o): i for i, o in enumerate(objs)}
    return [ids.get(id(d), "?") for d in ds]


def check_list(got, want, objs, what, loc=None):
    got = E.tolist(got)
    if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
        raise Bad(f"{what}: reports objects {label(got, objs)} (by place in the document), expected {label(want, objs)}", loc)


TEMPLATES = {
    "flat": lambda d: tag("div", *d),
    "flat-text": lambda d: tag("div", *[x for y in d for x in ("t", y, user("Meta"))]),
    "each-own": lambda d: tag("div", *[tag("p", x) for x in d]),
    "inline": lambda d: tag("span", *[tag("b", x, "t", _add_ws=False) for x in d], _add_ws=False),
    "chain": lambda d: _chain(d),
    "chain-after": lambda d: _chain_after(d),
    "deep-first": lambda d: tag("div", tag("ul", tag("li", tag("b", *d[:1]))), *d[1:]),
    "deep-last": lambda d: tag("div", *d[:-1], tag("ul", tag("li", tag("b", *d[-1:])))),
    "split": lambda d: tag("div", tag("p", *d[:2]), "t", tag("p", tag("i"), *d[2:])),
    "lists": lambda d: tag("div", mklist([d[0] if d else None, (d[1] if d[1:] else None,)]), tl(*d[2:])),
    "page": lambda d: tag("html", tag("head", *d[:1]), tag("body", *d[1:])),
    "void": lambda d: tag("br", *d),
    "script": lambda d: tag("div", tag("script", "s", *d[:1]), tag("style", *d[1:])),
}


def _chain(d):
    x = None
    for v in reversed(d):
        x = tag("div", v, x)
    return x if x is not None else tag("div")


def _chain_after(d):
    x = None
    for v in d:
        x = tag("div", x, v)
    return x if x is not None else tag("div")


def canon_names(n):
    def go(k, mx):
        if k == 0:
            yield ()
            return
        for rest in go(k - 1, mx):
            top = max(rest, default=-1)
            for c in range(top + 2):
                yield rest + (c,)
    return list(go(n, 0))


def scenarios(tier):
    preload()
    out = []
    names = set()

    def add(n, f, **k):
        if n not in names:
            names.add(n)
            out.append(Scenario(n, f, **k))

    def all_of(env, pat, ranks, temps=("flat",), top=True):
        ds = [dep(f"n{p}", version(env, i, r)) for i, (p, r) in enumerate(zip(pat, ranks))]
        want = resolve([(p, r, d) for p, r, d in zip(pat, ranks, ds)])
        what = f"names {pat} with version ranks {ranks}"
        for tn in temps:
            t = TEMPLATES[tn](ds)
            check_list(m(t, "get_dependencies"), want, ds, f"Tag.get_dependencies(), {tn}, {what}")
            check_list(m(t, "get_dependencies", dedup=False), ds, ds, f"Tag.get_dependencies(dedup=False), {tn}, {what}")
            if top:
                l = tl("a", t)
                check_list(m(l, "get_dependencies"), want, ds, f"TagList.get_dependencies(), {tn}, {what}")
                check_list(m(l, "get_dependencies", dedup=False), ds, ds, f"TagList.get_dependencies(dedup=False), {tn}, {what}")
        if top:
            l = tl(*ds)
            check_list(m(l, "get_dependencies"), want, ds, f"TagList.get_dependencies(), list of dependencies, {what}")
            check_list(m(l, "get_dependencies", dedup=False), ds, ds, f"TagList.get_dependencies(dedup=False), list of dependencies, {what}")
            again = m(tl(*want), "get_dependencies")
            check_list(again, want, ds, f"resolving a resolved list, {what}")
            r = [struct(x) for x in E.tolist(getitem(m(tag("p", *ds), "render"), "dependencies"))]
            if r != [struct(x) for x in want]:
                raise Bad(f"render()['dependencies'] differs from the resolved list, {what}")
            r = [struct(x) for x in E.tolist(getitem(m(l, "render"), "dependencies"))]
            if r != [struct(x) for x in want]:
                raise Bad(f"TagList.render()['dependencies'] differs from the resolved list, {what}")
        return ds, want

    n_max = 5 if tier == "thorough" else 4
    for n in range(0, n_max + 1):
        for pat in canon_names(n):
            rs = list(itertools.product(range(3), repeat=n))
            if n >= 4:
                rs = [r for r in rs if set(r) in ({0}, {0, 1}, {0, 1, 2})]
            for c in range(0, len(rs), 27):
                def f(env, pat=pat, rs=rs[c:c + 27]):
                    for r in rs:
                        all_of(env, pat, r, top=len(pat) <= 3)
                add(f"resolve/{pat}/{c}", f)
    # every placement
    for n in (1, 2, 3):
        for pat in canon_names(n):
            for r in itertools.product(range(2), repeat=n):
                def f(env, pat=pat, r=r):
                    all_of(env, pat, r, temps=tuple(TEMPLATES))
                add(f"place/{pat}/{r}", f)
    for pat, r in (((0, 1, 0, 1), (0, 1, 2, 0)), ((0, 1, 2, 0), (1, 0, 0, 2)), ((0, 0, 0, 0), (1, 2, 2, 0)), ((0, 1, 1, 0), (0, 0, 1, 0)), ((0, 0, 1, 0, 1), (2, 0, 0, 2, 1)), ((0, 0, 0, 0, 0), (0, 1, 2, 3, 4)), ((0, 0, 0, 0, 0), (4, 3, 2, 1, 0))):
        add(f"place/{pat}/{r}", lambda env, pat=pat, r=r: all_of(env, pat, r, temps=tuple(TEMPLATES)))

    def documents(env, tns):
        for pat, r in (((0, 1, 0), (0, 0, 1)), ((0, 1, 0), (1, 0, 0)), ((0, 0, 1), (1, 1, 0)), ((0, 1, 2), (0, 1, 2)), ((0, 0, 0), (0, 2, 1))):
            ds = [dep(f"n{p}", version(env, i, q), script=D(src=f"s{i}.js")) for i, (p, q) in enumerate(zip(pat, r))]
            want = [struct(d) for d in resolve([(p, q, d) for p, q, d in zip(pat, r, ds)])]
            for tn in tns:
                tf = TEMPLATES[tn]
                for w in (lambda x: x, lambda x: tag("body", x), lambda x: tag("html", tag("body", x)), lambda x: tag("html", tag("head"), x)):
                    t = tf(ds)
                    if tn == "page":
                        w = lambda x: x
                    got = [struct(d) for d in E.tolist(getitem(m(call(g("HTMLDocument"), [w(t)]), "render"), "dependencies"))]
                    if got != want:
                        raise Bad(f"HTMLDocument.render()['dependencies'] for {tn}, names {pat}, ranks {r}: got {len(got)}, expected {len(want)} resolved")
    for tn in TEMPLATES:
        add(f"documents/{tn}", lambda env, tn=tn: documents(env, [tn]))

    # what else a dependency holds does not matter
    CONTENT = {
        "none": lambda e, i: {}, "head": lambda e, i: {"head": e.sym(f"hd{i}")}, "headtag": lambda e, i: {"head": tag("title", "t")}, "empty-head": lambda e, i: {"head": tl()},
        "meta": lambda e, i: {"meta": mined.open_dict(e, i, ("name", "n"), ("content", "c"))}, "script": lambda e, i: {"script": mined.open_dict(e, i, ("src", "s.js"))},
        "css": lambda e, i: {"stylesheet": mined.open_dict_first(e, i, ("href", "s.css"))}, "url": lambda e, i: {"source": mined.open_dict(e, i, ("href", e.sym(f"u{i}")))},
        "local": lambda e, i: {"source": mined.open_dict(e, i, ("subdir", e.sym(f"u{i}")))}, "all": lambda e, i: {"source": D(subdir="x"), "all_files": True},
    }
    for ca, cb in itertools.product(CONTENT, repeat=2):
        def f(env, ca=ca, cb=cb):
            for pat in ((0, 0), (0, 1)):
                for r in ((0, 0), (0, 1), (1, 0)):
                    ds = [dep(f"n{p}", version(env, i, q), **CONTENT[c](env, i)) for i, (p, q, c) in enumerate(zip(pat, r, (ca, cb)))]
                    want = resolve([(p, q, d) for p, q, d in zip(pat, r, ds)])
                    for t in (tag("div", *ds), tl(ds[0], tag("p", ds[1])), tag("head", *ds)):
                        check_list(m(t, "get_dependencies"), want, ds, f"dependencies with {ca} and {cb}, names {pat}, ranks {r}")
                        check_list(m(t, "get_dependencies", dedup=False), ds, ds, f"dependencies with {ca} and {cb}, names {pat}, ranks {r}, dedup=False")
        add(f"content/{ca}/{cb}", f)

    def opentree(env):
        for ranks in ((0, 0, 1), (1, 0, 0)):
            ds = [dep(f"n{p}", version(env, i, q)) for i, (p, q) in enumerate(zip((0, 1, 0), ranks))]
            want = resolve([(p, q, d) for p, q, d in zip((0, 1, 0), ranks, ds)])
            for ws in (True, False):
                inner = call(g("Tag"), [env.sym("tn"), mkdict([(mined.key(env, "an"), env.sym("av"))]), ds[0], "x", ds[1]], [("_add_ws", ws)])
                for t in (tag("div", inner, ds[2]), tl(inner, ds[2]), tag("p", inner, tag("b", ds[2]), _add_ws=ws)):
                    check_list(m(t, "get_dependencies"), want, ds, f"in an element of any name, ranks {ranks}")
                    check_list(m(t, "get_dependencies", dedup=False), ds, ds, f"in an element of any name, ranks {ranks}, dedup=False")
    add("open-element", opentree)

    # symbolic names: equality of the names decided per partition
    def symnames(env, k=3):
        ns = [env.sym(f"n{i}") for i in range(k)]
        for ranks in ((0, 1, 2)[:k], (2, 1, 0)[:k], (0, 0, 0)[:k], (1, 2, 0)[:k]):
            ds = [dep(n, version(env, i, r)) for i, (n, r) in enumerate(zip(ns, ranks))]
            got = E.tolist(m(tag("div", *ds), "get_dependencies"))
            keys = []
            for i, n in enumerate(ns):
                keys.append(next((keys[j] for j in range(i) if T.eq(ns[j], n)), i))
            check_list(mklist(got), resolve(list(zip(keys, ranks, ds))), ds, f"arbitrary names, equal classes {keys}, ranks {ranks}")
    add("symbolic-names/2", lambda env: symnames(env, 2))
    add("symbolic-names/3", symnames)

    # concrete orderings in which lexical and version order disagree
    ORDER = [("1.9", "1.10"), ("9", "10"), ("2.0a1", "2.0"), ("2.0rc1", "2.0"), ("1.0", "1.0.1"), ("1.0.dev1", "1.0a1"), ("1.0", "1.0.post1"), ("0.9", "0.10"), ("1.2.9", "1.2.10"), ("1.99", "2"), ("3.4.1", "3.11"), ("1.0b2", "1.0rc1"), ("9.9.9", "10.0.0"), ("1.10", "1.100")]

    def order(env):
        for lo, hi in ORDER:
            for va, vb, win in ((lo, hi, 1), (hi, lo, 0)):
                for conv in ((0, 0), (1, 0), (0, 1), (1, 1)):
                    V = g("Version", "htmltools._core")
                    ds = [dep("x", call(V, [v]) if c else v) for v, c in zip((va, vb), conv)]
                    check_list(m(tag("div", *ds), "get_dependencies"), [ds[win]], ds, f"versions {va} and {vb}")
                    check_list(m(tag("div", tag("p", ds[0]), ds[1]), "get_dependencies"), [ds[win]], ds, f"versions {va} and {vb}, nested")
    try:
        g("Version", "htmltools._core")
        add("version-order", order)
    except Exception:
        pass

    def ties(env):
        for va, vb in (("1.0", "1"), ("1.0", "1.0"), ("1.0.0", "1.0"), ("v1.2", "1.2"), ("1.2", "1.2.0")):
            ds = [dep("x", va, script=D(src="a")), dep("y", "1"), dep("x", vb, script=D(src="b")), dep("x", va)]
            check_list(m(tag("div", *ds), "get_dependencies"), [ds[0], ds[1]], ds, f"equal versions {va} and {vb}")
    add("ties", ties)

    def same_object(env):
        d = dep("x", "1")
        for t in (tag("div", d, d), tag("div", d, tag("p", d)), tl(d, tag("p", d), d)):
            check_list(m(t, "get_dependencies"), [d], [d], "one object used twice")
            n = len(E.tolist(m(t, "get_dependencies", dedup=False)))
            if n != (3 if t.cls.name == "TagList" else 2):
                raise Bad(f"dedup=False drops a repeated object ({n} reported)")
        a, b = dep("x", "1"), dep("x", "2")
        t = tag("div", b, a, b)
        check_list(m(t, "get_dependencies"), [b], [b, a], "highest version given twice")
        check_list(m(t, "get_dependencies", dedup=False), [b, a, b], [b, a], "dedup=False with a repeated object")
    add("same-object", same_object)

    def many(env, th=9):
        for n in (th - 1, th, th + 1):
            for perm in (list(range(n)), list(reversed(range(n))), [(i * 7 + 3) % n if n % 7 else (i * 5 + 1) % n for i in range(n)]):
                ds = [dep(f"n{i}", version(env, f"m{i}", p)) for i, p in enumerate(perm)]
                check_list(m(tag("div", *ds), "get_dependencies"), ds, ds, f"{n} distinct names")
                ds = [dep("same", version(env, f"m{i}", p)) for i, p in enumerate(perm)]
                check_list(m(tag("div", *[tag("p", d) if i % 2 else d for i, d in enumerate(ds)]), "get_dependencies"), resolve([(0, p, d) for p, d in zip(perm, ds)]), ds, f"{n} versions of one name")
                ds = [dep(f"n{i % 3}", version(env, f"m{i}", p)) for i, p in enumerate(perm)]
                check_list(m(_chain(ds), "get_dependencies"), resolve([(i % 3, p, d) for i, (p, d) in enumerate(zip(perm, ds))]), ds, f"{n} nested dependencies of three names")
                check_list(m(_chain(ds), "get_dependencies", dedup=False), ds, ds, f"{n} nested dependencies, dedup=False")
                check_list(m(_chain_after(ds), "get_dependencies", dedup=False), ds, ds, f"{n} nested dependencies, dedup=False")
    for th in sorted({6} | {t for t in int_thresholds(("htmltools/_core.py", "htmltools/_util.py")) if t <= 40}):
        add(f"many/{th}", lambda env, th=th: many(env, th))

    def mutated(env):
        """dependencies added later, at any place"""
        a, b, c = dep("x", version(env, 0, 0)), dep("x", version(env, 1, 2)), dep("y", version(env, 2, 0))
        t = tag("div", tag("p"))
        m(t, "append", a)
        check_list(m(t, "get_dependencies"), [a], [a, b, c], "appended")
        m(getitem(getattr_(t, "children"), 0), "append", b)
        check_list(m(t, "get_dependencies"), [b], [a, b, c], "appended to a child")
        m(t, "insert", 0, c)
        check_list(m(t, "get_dependencies"), [c, b], [a, b, c], "inserted at the front")
        check_list(m(t, "get_dependencies", dedup=False), [c, b, a], [a, b, c], "inserted at the front")
        m(getattr_(t, "children"), "pop", 1)
        check_list(m(t, "get_dependencies"), [c, a], [a, b, c], "after removal of a child")
    add("mutated", mutated)

    # ------------------------------------------------ definition: single item or list
    ITEMS = {"script": [D, ("src",)], "stylesheet": [D, ("href",)], "meta": [D, ("name", "content")]}
    REQ = {"script": ("src",), "stylesheet": ("href",), "meta": ("name", "content")}
    EXTRA = {"script": [{}, {"async": ""}, {"type": "module", "defer": ""}, {"href": "z"}], "stylesheet": [{}, {"rel": "preload"}, {"media": "all", "type": "t"}, {"src": "z"}], "meta": [{}, {"charset": "u"}, {"http-equiv": "x"}]}
    SRC = {"none": lambda: None, "href": lambda: D(href="http://x/y"), "subdir": lambda: D(subdir="lib"), "pkg": lambda: D(package="p", subdir="lib"), "pkgnone": lambda: D(package=None, subdir="lib")}

    def item(env, field, extra=None, i=0):
        return {**{k: env.sym(f"{k}{i}") for k in REQ[field]}, **(extra or {})}

    def views(d):
        return {"value": struct(d), "as_dict": struct(m(d, "as_dict")), "as_html_tags": struct(m(d, "as_html_tags")), "serialized": struct(m(d, "serialize_to_script_json")), "no prefix": struct(m(d, "as_dict", lib_prefix=None, include_version=False))}

    for field in ITEMS:
        for ei, ex in enumerate(EXTRA[field]):
            def f(env, field=field, ex=ex):
                for sn, sf in SRC.items():
                    if sn == "href" and field != "meta":
                        it = {**item(env, field, ex)}
                    it = {**{k: f"c{k}" for k in REQ[field]}, **ex}
                    single = dep("d", "1", source=sf(), **{field: mkdict(list(it.items()))})
                    listed = dep("d", "1", source=sf(), **{field: mklist([mkdict(list(it.items()))])})
                    a, b = views(single), views(listed)
                    for k in a:
                        if a[k] != b[k]:
                            raise Bad(f"{field} given as one item and as a list differ in {k} ({sn} source): {path_diff(a[k], b[k])}")
                    if not (E.truth(E.eq_(single, listed)) and E.truth(E.eq_(listed, single))):
                        raise Bad(f"dependencies with {field} given as one item and as a list are unequal")
                    st = E.tolist(getattr_(single, field))
                    if len(st) != 1:
                        raise Bad(f"{field} given as one item is stored as {len(st)} items")
            add(f"single/{field}/{ei}", f)

        def f(env, field=field):
            for mk_ in (mined.open_dict, mined.open_dict_first):
                it = lambda: mk_(env, 0, *[(k, "v") for k in REQ[field]])
                for src in (None, D(href="u"), D(subdir="s")):
                    a, b = views(dep("d", "1", source=src, **{field: it()})), views(dep("d", "1", source=src, **{field: mklist([it()])}))
                    for k in a:
                        if a[k] != b[k]:
                            raise Bad(f"{field} given as one item and as a list differ in {k}: {path_diff(a[k], b[k])}")
                ok = lambda: mkdict([(k, "v") for k in REQ[field]])
                for miss in REQ[field]:
                    bad = lambda: mk_(env, 0, *[(k, "v") for k in REQ[field] if k != miss])
                    if T.eq(env.sym("ik0"), miss):
                        continue
                    rejects(f"one {field} item without {miss} and with another key", lambda: dep("d", "1", **{field: bad()}))
                    rejects(f"{field} item without {miss} after one with any key", lambda: dep("d", "1", **{field: mklist([it(), mkdict([(k, "v") for k in REQ[field] if k != miss])])}))
                    rejects(f"{field} item without {miss} before one with any key", lambda: dep("d", "1", **{field: mklist([bad(), it()])}))
                rejects(f"a string after a {field} item with any key", lambda: dep("d", "1", **{field: mklist([it(), "x"])}))
                accepts(f"two {field} items with any key", lambda: dep("d", "1", **{field: mklist([it(), it(), ok()])}))
        add(f"single/{field}/open", f)

        def f(env, field=field):
            it = lambda: mkdict(list(item(env, field).items()))
            a = dep("d", "1", **{field: it()})
            b = dep("d", "1", **{field: mklist([it()])})
            if struct(a) != struct(b):
                raise Bad(f"{field} given as one item and as a list differ: {path_diff(struct(a), struct(b))}")
            none, empty, absent = dep("d", "1", **{field: None}), dep("d", "1", **{field: mklist([])}), dep("d", "1")
            if struct(none) != struct(empty) or struct(none) != struct(absent):
                raise Bad(f"{field}=None and {field}=[] differ")
            two = dep("d", "1", **{field: mklist([it(), it()])})
            if len(E.tolist(getattr_(two, field))) != 2:
                raise Bad(f"a list of two {field} items is stored as {len(E.tolist(getattr_(two, field)))} items")
        add(f"single/{field}/sym", f)

    def all_single(env):
        one = {f: {k: "v" for k in REQ[f]} for f in REQ}
        for mask in itertools.product((0, 1), repeat=3):
            d = dep("d", "1", source=D(subdir="x"), **{f: (mkdict(list(one[f].items())) if b else mklist([mkdict(list(one[f].items()))])) for f, b in zip(REQ, mask)})
            v = views(d)
            if mask == (0, 0, 0):
                ref = v
            for k in v:
                if v[k] != ref[k]:
                    raise Bad(f"single items {mask} (script, stylesheet, meta) differ from lists in {k}: {path_diff(ref[k], v[k])}")
    add("single/all", all_single)

    # ------------------------------------------------ rejection at construction
    def accepts(what, fn):
        try:
            return fn()
        except Raised as e:
            raise Bad(f"{what} is rejected: {E.exc_text(e.value)}", e.loc)

    def rejects(what, fn):
        try:
            fn()
        except Raised:
            return
        raise Bad(f"{what} is accepted when the dependency is constructed", E.WRITES and None)

    OTHER = {
        "plain": lambda: {}, "with items": lambda: {"script": D(src="a"), "stylesheet": D(href="b"), "meta": D(name="n", content="c")}, "all_files": lambda: {"all_files": True},
        "with head": lambda: {"head": "x"}, "url": lambda: {"source": D(href="http://x")}, "local": lambda: {"source": D(subdir="lib")},
    }
    NONDICT = {"a string": lambda: "lib", "a number": lambda: 1, "a list": lambda: mklist(["subdir"]), "a list of pairs": lambda: mklist([("subdir", "x")]), "a tuple": lambda: ("href",), "a set": lambda: call(E.BUILTINS["set"], [mklist(["href", "subdir", "src", "name", "content"])]),
               "True": lambda: True, "a TagList": lambda: tl("href"), "an HTML string": lambda: new("HTML", "href subdir"), "an object": lambda: user("Plain"), "a tag": lambda: tag("p"), "a string naming the key": lambda: "href subdir src name content"}
    for on, of in OTHER.items():
        def f(env, of=of, on=on):
            o = of()
            if "source" not in o:
                for nn, nf in NONDICT.items():
                    rejects(f"source= {nn}", lambda: dep("d", "1", source=nf(), **of()))
                for bad in ({}, {"package": "p"}, {"package": None}, {"sub": "x"}, {"src": "x", "name": "y"}, {"Href": "x"}):
                    rejects(f"source={bad} (neither href nor subdir)", lambda: dep("d", "1", source=mkdict(list(bad.items())), **of()))
                for good in ({"href": "x"}, {"subdir": "x"}, {"subdir": "x", "package": "p"}, {"subdir": "x", "package": None}, {"href": "x", "subdir": "y"}, {"href": ""}, {"subdir": ""}):
                    accepts(f"source={good}", lambda: dep("d", "1", source=mkdict(list(good.items())), **of()))
        add(f"reject/source/{on}", f)
        for field in REQ:
            def f(env, of=of, on=on, field=field):
                o = of()
                o.pop(field, None)
                ok = lambda: mkdict([(k, "v") for k in REQ[field]])
                for nn, nf in {**NONDICT, "None": lambda: None}.items():
                    for pos in range(3):
                        for ln in range(pos + 1, 4):
                            rejects(f"{field} item {nn} at place {pos} of {ln}", lambda: dep("d", "1", **{**o, field: mklist([nf() if i == pos else ok() for i in range(ln)])}))
                    if nn not in ("None",):
                        rejects(f"{field}= {nn}", lambda: dep("d", "1", **{**o, field: nf()}))
                bads = [{}] + [{k: "v" for k in REQ[field] if k != miss} for miss in REQ[field]] + [{"other": "v"}, {"href" if field == "script" else "src": "v"}, {"name": "n"} if field == "meta" else {"name": "n", "content": "c"}]
                for bad in bads:
                    rejects(f"one {field} item {bad}", lambda: dep("d", "1", **{**o, field: mkdict(list(bad.items()))}))
                    for pos in range(3):
                        for ln in range(pos + 1, 4):
                            rejects(f"{field} item {bad} at place {pos} of {ln}", lambda: dep("d", "1", **{**o, field: mklist([mkdict(list(bad.items())) if i == pos else ok() for i in range(ln)])}))
                            rejects(f"{field} item {bad} at place {pos} of {ln} (tuple)", lambda: dep("d", "1", **{**o, field: tuple([mkdict(list(bad.items())) if i == pos else ok() for i in range(ln)])}))
                for ln in range(4):
                    accepts(f"{ln} valid {field} items", lambda: dep("d", "1", **{**o, field: mklist([ok() for i in range(ln)])}))
                e = {k: "" for k in REQ[field]}
                accepts(f"a {field} item with empty values", lambda: dep("d", "1", **{**o, field: mkdict(list(e.items()))}))
            add(f"reject/{field}/{on}", f)
    for th in sorted(int_thresholds(("htmltools/_core.py",))):
        if th <= 40:
            def f(env, th=th):
                for field in REQ:
                    ok = lambda: mkdict([(k, "v") for k in REQ[field]])
                    for ln in (th, th + 1, th + 2):
                        for pos in (ln - 1, ln - 2):
                            rejects(f"{field} item {{}} at place {pos} of {ln}", lambda: dep("d", "1", **{field: mklist([mkdict([]) if i == pos else ok() for i in range(ln)])}))
                            rejects(f"{field} item None at place {pos} of {ln}", lambda: dep("d", "1", **{field: mklist([None if i == pos else ok() for i in range(ln)])}))
            add(f"reject/size/{th}", f)
    return out


PROP = Prop(
    "C10", "Dependencies are validated, then resolved one per name to the highest version",
    "for every naming pattern and every relative order of the versions, the reported objects are the earliest maximal ones in order of first occurrence; malformed definitions raise in the constructor",
    [("htmltools", "HTMLDependency"), ("htmltools", "TagList.get_dependencies"), ("htmltools", "Tag.get_dependencies")], scenarios,
    bounds="all naming patterns and rank assignments of up to 4 (5) dependencies, 13 placements, sizes around source constants; versions are abstract points of a total preorder",
)
