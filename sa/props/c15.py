"""C15: attribute names and values are normalised and merged in argument order."""
import itertools

from .. import engine as E
from .. import terms as T
from ..api import Bad, g, m
from ..base import Prop, Scenario, int_thresholds
from ..engine import call, getattr_, getitem, mkdict, mklist, setattr_, setitem, str_
from ..model import ATTRCH, check_same, preload, user
from ..oracle import Snap, esc_attr, path_diff, same_markup, struct
from ..terms import Str

CORE = "htmltools/_core.py"


# ------------------------------------------------------------------ specification
def norm(x):
    """one trailing underscore removed, the others turned into hyphens"""
    if isinstance(x, str):
        if x[-1:] == "_":
            x = x[:-1]
        return x.replace("_", "-")
    if E.truth(m(x, "endswith", "_")):
        x = m(x, "removesuffix", "_")
    return T.apply_hom(x, {"_": "-"})


def contrib(v):
    """None when dropped, otherwise (text, is HTML)"""
    if v is None or v is False:
        return None
    if v is True:
        return ("", False)
    if isinstance(v, E.Inst) and v.cls.issub(g("HTML")):
        return (getattr_(v, "data"), True)
    if isinstance(v, E.Inst) and v.cls.issub(E.STR):
        return (E.text_of(v), False)
    if T.is_s(v):
        return (v, False)
    return (str_(v), False)


def eqn(a, b):
    return E.truth(E.eq_(a, b)) is True


def merge(entries):
    """[(raw name, value)] of one call, in argument order -> [[name, text, html]]"""
    out = []
    for raw, v in entries:
        c = contrib(v)
        if c is None:
            continue
        nm = norm(raw)
        for e in out:
            if eqn(e[0], nm):
                e[1].append(c)
                break
        else:
            out.append([nm, [c]])
    res = []
    for nm, cs in out:
        html = any(h for _, h in cs)
        ps = []
        for i, (t, h) in enumerate(cs):
            if i:
                ps.append(" ")
            ps.append(esc_attr(t) if html and not h else t)
        res.append([nm, T.concat(*ps) if ps else "", html])
    return res


def replace(cur, new):
    out = [list(e) for e in cur]
    for nm, t, h in new:
        for e in out:
            if eqn(e[0], nm):
                e[1], e[2] = t, h
                break
        else:
            out.append([nm, t, h])
    return out


def check_value(v, t, h, what):
    ish = isinstance(v, E.Inst) and v.cls.issub(g("HTML"))
    isstr = T.is_s(v) or isinstance(v, E.Inst) and v.cls.issub(E.STR)
    if not isstr and not ish:
        raise Bad(f"{what} is stored as a {E.type_of(v).name}", T.CUR_LOC[0])
    if ish != h:
        raise Bad(f"{what} is stored as {'HTML' if ish else 'a plain string'}, expected {'HTML' if h else 'a plain string'}", T.CUR_LOC[0])
    txt = getattr_(v, "data") if ish else E.text_of(v) if isinstance(v, E.Inst) else v
    if h:
        same_markup(txt, t, what)
    else:
        check_same(txt, t, what)


def check_attrs(d, want, what):
    """the mapping d holds exactly `want`, in order"""
    if not isinstance(d, E.Inst) or not d.cls.issub(E.DICT):
        raise Bad(f"{what}: the attributes are a {E.type_of(d).name}, not a dict", T.CUR_LOC[0])
    its = list(d.data.items())
    names = [k for k, _ in its]
    if len(its) != len(want):
        raise Bad(f"{what}: the attributes are {show(names)}, expected {show([w[0] for w in want])}", T.CUR_LOC[0])
    for i, ((k, v), (nm, t, h)) in enumerate(zip(its, want)):
        if not T.is_s(k):
            raise Bad(f"{what}: name {i} is a {E.type_of(k).name}")
        if not T.same(k, nm):
            check_same(k, nm, f"{what}: name number {i} of {show(names)}")
        check_value(v, t, h, f"{what}: attribute {T.show(nm)}")
    # every way of reading agrees
    seen = E.tolist(d)
    if len(seen) != len(its) or any(not T.same(a, b) for a, b in zip(seen, names)):
        raise Bad(f"{what}: iterating gives other names")
    for nm, t, h in want:
        check_value(getitem(d, nm), t, h, f"{what}: attrs[{T.show(nm)}]")


def show(xs):
    return "[" + ", ".join(T.show(x) if T.is_s(x) else repr(x) for x in xs)[:160] + "]"


# ------------------------------------------------------------------ material
def value(env, k, i):
    if k == "S":
        return env.sym(f"s{i}")
    if k == "H":
        return call(g("HTML"), [env.sym(f"h{i}", excl='"')])
    if k == "N":
        return T.Num(f"n{i}", "float")
    if k == "I":
        return T.Num(f"n{i}", "int")
    return {"T": True, "F": False, "X": None, "E": "", "0": 0, "1": 1, "-": -3, ".": 2.5, "b": 10 ** 20, "z": 0.0, "_": " ", "L": " a  b ", "q": 'x"y&z', "M": user("MyStr", "my") if k == "M" else None,
            "h": call(g("HTML"), ["&lt;<"]) if k == "h" else None, "e": call(g("HTML"), [""]) if k == "e" else None, "y": "True", "f": "False", "n": "None", "i": float("inf"), "a": float("nan")}[k]


VALS = "SHNITFXE01-.bz_LqMheyfnia"
NAMES = ("x", "x_", "x__", "x___", "_x", "__x", "a_b", "a-b", "a_b_", "a-b_", "a__b", "a_b_c", "_", "__", "-", "X", "X_", "class", "class_", "data_foo_bar", "aria_label_", "x-", "x-_", "x_y-z_", "é_", "ab", "_a_b_", "for_", "http_equiv", "xml_lang", "fooBar_", "x1_2", "a.b_c", "_self", "children", "name", "attrs", "add_ws", "key_", "style", "id")
# names which collide after normalisation, and some that must not
GROUPS = {
    "x": ("x", "x_"), "x-": ("x__", "x-", "x-_"), "a-b": ("a_b", "a-b", "a_b_", "a-b_"), "class": ("class", "class_"), "a--b": ("a__b", "a-_b", "a_-b", "a--b_"), "-x": ("_x", "-x", "_x_"),
    "apart": ("x", "x-", "_x", "X"), "apart2": ("ab", "a_b", "a__b", "a.b"),
}


def kwok(n):
    return n not in ("", "self", "_name", "_add_ws")


def newtag(args=(), kw=()):
    return call(g("Tag"), ["p", *args], list(kw))


def attrdict(args=(), kw=()):
    return call(g("TagAttrDict", "htmltools._core"), list(args), list(kw))


def consolidated(args=(), kw=()):
    return getitem(call(g("consolidate_attrs"), list(args), list(kw)), 0)


# constructors: (args, kwargs) -> attribute mapping
def upd(t, args, kw):
    call(getattr_(getattr_(t, "attrs"), "update"), list(args), list(kw))
    return getattr_(t, "attrs")


MAKERS = {
    "Tag": lambda a, k: getattr_(newtag(a, k), "attrs"),
    "void": lambda a, k: getattr_(call(g("Tag"), ["br", *a], list(k)), "attrs"),
    "div": lambda a, k: getattr_(call(g("tags.div"), list(a), list(k)), "attrs"),
    "svg": lambda a, k: getattr_(call(g("svg.path"), list(a), list(k)), "attrs"),
    "among-children": lambda a, k: getattr_(newtag(["t", None, *itertools.chain(*[(d, mklist(["c", 1])) for d in a]), call(g("HTML"), ["<i>"])], k), "attrs"),
    "inline": lambda a, k: getattr_(call(g("Tag"), ["span", *a], list(k) + [("_add_ws", False)]), "attrs"),
    "subclass": lambda a, k: getattr_(user("MyTag", "p"), "attrs") if not (a or k) else getattr_(call(getattr_(E.MODULES["userland"], "MyTag"), ["p", *a], list(k)), "attrs"),
    "TagAttrDict": attrdict,
    "update": lambda a, k: upd(newtag(), a, k),
    "update-dict": lambda a, k: (lambda d: (call(getattr_(d, "update"), list(a), list(k)), d)[1])(attrdict()),
    "consolidate": consolidated,
    "consolidate-children": lambda a, k: getitem(call(g("consolidate_attrs"), ["t", *itertools.chain(*[(d, mklist(["c", None])) for d in a])], list(k)), 0),
    "rebuild": lambda a, k: getattr_(newtag([consolidated(a, k)]), "attrs"),
    "rebuild-kw-empty": lambda a, k: getattr_(newtag([mkdict([]), consolidated(a, k), mkdict([])]), "attrs"),
    "copy": lambda a, k: getattr_(call(getattr_(E.import_module("copy"), "copy"), [newtag(a, k)]), "attrs"),
    "tagify": lambda a, k: getattr_(m(newtag(a, k), "tagify"), "attrs"),
}
# places the entries of one call can be put: split of the entries into dicts and keywords
def layouts(n, full):
    out = [("1dict", [list(range(n))], []), ("dicts", [[i] for i in range(n)], []), ("kw", [], list(range(n)))]
    if n > 1:
        out.append(("dict+kw", [list(range(n - 1))], [n - 1]))
        out.append(("dict,+kw", [[0]], list(range(1, n))))
    if n > 2:
        out.append(("dicts+kw", [[i] for i in range(n - 1)], [n - 1]))
        out.append(("2dicts", [list(range(n // 2)), list(range(n // 2, n))], []))
        if full:
            out.append(("mixed", [list(range(n - 2)), [n - 2]], [n - 1]))
    if n == 1:
        out.append(("empties", [[], [0], []], []))
        out.append(("TagAttrDict-arg", None, []))
    return out


def place(lay, ents):
    """-> (args, kwargs, entries in argument order) or None when impossible"""
    ln, ds, kw = lay
    if ds is None:
        return [attrdict([mkdict(ents)])], [], ents
    for group in list(ds) + [kw]:
        raws = [ents[i][0] for i in group]
        if all(isinstance(r, str) for r in raws) and len(set(raws)) != len(raws):
            return None
    if any(isinstance(ents[i][0], str) and not kwok(ents[i][0]) for i in kw):
        return None
    return [mkdict([ents[i] for i in d]) for d in ds], [ents[i] for i in kw], [ents[i] for d in ds for i in d] + [ents[i] for i in kw]


def run(maker, lay, ents, what, keep=True):
    p = place(lay, ents)
    if p is None:
        return False
    args, kw, order = p
    want = merge(order)
    before = Snap(*args)
    d = MAKERS[maker](args, kw)
    check_attrs(d, want, what)
    if keep:
        after = Snap(*args)
        df = path_diff(before.text, after.text, "argument")
        if df:
            raise Bad(f"{what}: the given dict was modified: {df}", T.CUR_LOC[0])
        if any(d is a for a in args):
            raise Bad(f"{what}: the attributes are the given dict itself", T.CUR_LOC[0])
    return True


def scenarios(tier):
    preload()
    out = []

    def add(n, f, **k):
        out.append(Scenario(n, f, **k))

    full = tier != "quick"
    # ---- one entry: every raw name, every value, every route
    for mk in MAKERS:
        def f(env, mk=mk):
            for nm in NAMES:
                for lay in layouts(1, full):
                    run(mk, lay, [(nm, "v")], f"{mk}/{lay[0]}: {nm}='v'")
        add(f"name/{mk}", f)
        for v in VALS:
            def f(env, v=v, mk=mk):
                for nm in ("x", "class_", "data_x"):
                    for lay in layouts(1, full):
                        run(mk, lay, [(nm, value(env, v, 0))], f"{mk}/{lay[0]}: {nm}={v}")
            add(f"value/{mk}/{v}", f)

        def f(env, mk=mk):
            check_attrs(MAKERS[mk]([], []), [], f"{mk} without attributes")
            check_attrs(MAKERS[mk]([mkdict([]), mkdict([])], []), [], f"{mk} with empty dicts")
        add(f"empty/{mk}", f)

    # ---- any name
    def anyname(env, mk, lay):
        nm = env.sym("an", nonempty=False)
        v = env.sym("s")
        if lay[2]:
            for w in ("self", "_name", "_add_ws"):
                if E.truth(E.eq_(nm, w)):
                    return
        run(mk, lay, [(nm, v)], f"{mk}: any name", keep=False)
    for mk in MAKERS:
        for lay in layouts(1, full):
            if lay[0] in ("1dict", "kw"):
                if mk == "subclass" and lay[0] == "kw":
                    continue
                add(f"any-name/{mk}/{lay[0]}", lambda env, mk=mk, lay=lay: anyname(env, mk, lay if lay[0] == "1dict" else lay))

    def setany(env):
        t = newtag()
        nm, v = env.sym("an"), env.sym("s")
        setitem(getattr_(t, "attrs"), nm, v)
        check_attrs(getattr_(t, "attrs"), merge([(nm, v)]), "item assignment under any name")
    add("any-name/setitem", setany)

    # ---- two and three entries with colliding names
    K2 = "SHNTFXE" if not full else "SHNITFXE0_M"
    for gn, grp in GROUPS.items():
        for mk in ("Tag", "update", "consolidate", "rebuild", "TagAttrDict"):
            for lay in layouts(2, full):
                def f(env, grp=grp, mk=mk, lay=lay, gn=gn):
                    for a, b in itertools.product(grp, repeat=2):
                        run(mk, lay, [(a, env.sym("s0")), (b, env.sym("s1"))], f"{mk}/{lay[0]}: {a}, {b}")
                        run(mk, lay, [(a, None), (b, env.sym("s1"))], f"{mk}/{lay[0]}: {a} dropped, {b}")
                        run(mk, lay, [(a, env.sym("s0")), (b, False)], f"{mk}/{lay[0]}: {a}, {b} dropped")
                        run(mk, lay, [(a, True), (b, True)], f"{mk}/{lay[0]}: {a} and {b} are true")
                add(f"pair/{gn}/{mk}/{lay[0]}", f)
            for lay in layouts(3, full):
                def f(env, grp=grp, mk=mk, lay=lay, gn=gn):
                    cs = list(itertools.product(grp, repeat=3))
                    for a, b, c in cs if full or len(cs) < 30 else cs[::3]:
                        run(mk, lay, [(a, env.sym("s0")), (b, "2"), (c, env.sym("s2"))], f"{mk}/{lay[0]}: {a}, {b}, {c}")
                add(f"triple/{gn}/{mk}/{lay[0]}", f)
    for lay in layouts(2, full):
        for vs in itertools.product(K2, repeat=2):
            def f(env, lay=lay, vs=vs):
                for mk in ("Tag", "update", "consolidate", "rebuild"):
                    run(mk, lay, [("x", value(env, vs[0], 0)), ("x_", value(env, vs[1], 1))], f"{mk}/{lay[0]}: {vs}")
                    run(mk, lay, [("class_", value(env, vs[0], 0)), ("class", value(env, vs[1], 1))], f"{mk}/{lay[0]}: class {vs}")
            add(f"values2/{lay[0]}/{''.join(vs)}", f)
    for lay in layouts(3, full):
        for vs in itertools.product("SHTX" if not full else "SHNTXFE", repeat=3):
            def f(env, lay=lay, vs=vs):
                for mk in ("Tag", "consolidate", "rebuild"):
                    for ns in (("a_b", "a-b", "a_b_"), ("x", "y", "x_"), ("y", "x", "x_"), ("x", "x_", "y")):
                        run(mk, lay, [(n, value(env, v, i)) for i, (n, v) in enumerate(zip(ns, vs))], f"{mk}/{lay[0]}: {dict(zip(ns, vs))}")
            add(f"values3/{lay[0]}/{''.join(vs)}", f)
    # ---- order of first appearance
    for lay in layouts(5, full) + [("zigzag", [[0, 1], [2, 3]], [4]), ("four", [[0], [1], [2], [3]], [4])]:
        def f(env, lay=lay):
            for ns in (("b", "a", "b_", "c", "a_"), ("z", "y_", "y", "a", "z_"), ("a", "b", "c", "d", "e"), ("e", "d", "c", "b", "a"), ("class_", "id", "class", "id_", "style"), ("a", "a_", "b", "b_", "a-")):
                for drop in ((), (0,), (1,), (2,), (0, 1), (0, 4), (2, 3), (0, 1, 2, 3, 4)):
                    ents = [(n, None if i in drop and i % 2 else False if i in drop else env.sym(f"s{i}")) for i, n in enumerate(ns)]
                    for mk in ("Tag", "update", "consolidate", "rebuild"):
                        run(mk, lay, ents, f"{mk}/{lay[0]}: {ns} dropped {drop}")
        add(f"order/{lay[0]}", f)

    # ---- two arbitrary names
    def anypair(env, mk, lay, only):
        a, b = env.sym("an", only=only), env.sym("bn", only=only)
        if E.truth(E.eq_(a, b)):
            return
        for x, w in itertools.product((a, b) if len(lay[2]) > 1 else (b,) if lay[2] else (), ("self", "_name", "_add_ws")):
            if E.truth(E.eq_(x, w)):
                return
        run(mk, lay, [(a, env.sym("s0")), (b, env.sym("s1"))], f"{mk}/{lay[0]}: any two names", keep=False)
    for mk in ("Tag", "update", "consolidate"):
        for lay in layouts(2, full):
            if lay[2] and mk != "Tag":
                continue
            add(f"any-pair/{mk}/{lay[0]}", lambda env, mk=mk, lay=lay: anypair(env, mk, lay, ATTRCH))

    def anycollide(env, tail, mk):
        a = env.sym("an", only=ATTRCH - set("_"))
        v, w = env.sym("s0"), env.sym("s1")
        e = [(a, v), (T.concat(a, "_"), w)]
        run(mk, ("1dict", [[0, 1]], []), e, f"{mk}: any name with and without underscore", keep=False)
        run(mk, ("dicts", [[0], [1]], []), e, f"{mk}: any name with and without underscore", keep=False)
        run(mk, ("dicts", [[1], [0]], []), e, f"{mk}: any name without and with underscore", keep=False)
        e = [(T.concat("p_", a), v), (T.concat("p-", a), w), (T.concat("p_", a, "_"), "z")]
        run(mk, ("dicts", [[0], [1], [2]], []), e, f"{mk}: any name with underscore and hyphen", keep=False)
    for mk in ("Tag", "update", "consolidate", "rebuild"):
        add(f"any-collision/{mk}", lambda env, mk=mk: anycollide(env, None, mk))

    # ---- later updates and item assignments replace
    STARTS = {
        "none": [], "x": [("x", "S")], "class": [("class", "S"), ("id", "E")], "several": [("b", "S"), ("a_b", "H"), ("x_", "T"), ("z", "N")], "html": [("x", "H"), ("class_", "h")], "true": [("x", "T"), ("a-b", "T")],
    }
    OPS = {
        "set x": [("set", "x", "S")], "set x_": [("set", "x_", "S")], "set a_b": [("set", "a_b", "S")], "set a-b": [("set", "a-b", "H")], "set new": [("set", "q__", "S")], "set html": [("set", "x", "H")], "set true": [("set", "x_", "T")], "set num": [("set", "x", "N")], "set none": [("set", "x", "X")], "set false": [("set", "x_", "F")],
        "set empty": [("set", "x", "E")], "set class": [("set", "class_", "S")], "set zero": [("set", "x", "0")], "set one": [("set", "x", "1")],
        "update x": [("up", [[("x", "S")]], [])], "update x_": [("up", [[("x_", "S")]], [])], "update kw": [("up", [], [("x", "S")])], "update kw_": [("up", [], [("a_b", "S"), ("x_", "H")])], "update 2": [("up", [[("x", "S")], [("x_", "S")]], [])], "update 3": [("up", [[("a_b", "S")], [("a-b", "H")]], [("a_b", "N")])],
        "update alias": [("up", [[("x", "S"), ("x_", "S")]], [])], "update drop": [("up", [[("x", "X")]], [("a_b", "F")])], "update drop then": [("up", [[("x", "X")], [("x", "S")]], [])], "update then drop": [("up", [[("x", "S")]], [("x_", "F")])], "update nothing": [("up", [], [])], "update empty": [("up", [[], []], [])],
        "update several": [("up", [[("z", "S"), ("new", "S"), ("a-b", "S")]], [("b_", "S"), ("newer", "T")])], "update class": [("up", [], [("class_", "S")])], "update html": [("up", [[("x", "H")], [("x", "S")]], [])],
        "update true": [("up", [], [("x", "T")])], "same": [("up", [[("x", "=")]], [])],
    }

    def apply(env, t, cur, op, i):
        if op[0] == "set":
            v = value(env, op[2], i)
            setitem(getattr_(t, "attrs"), op[1], v)
            return replace(cur, merge([(op[1], v)]))
        _, ds, kw = op
        mkv = lambda nm, k, j: (nm, value(env, k, j) if k != "=" else (E.getitem(getattr_(t, "attrs"), norm(nm)) if any(T.same(e[0], norm(nm)) for e in cur) else "new"))
        ds2 = [[mkv(nm, k, i * 10 + 3 * a + b) for b, (nm, k) in enumerate(d)] for a, d in enumerate(ds)]
        kw2 = [mkv(nm, k, i * 10 + 7 + b) for b, (nm, k) in enumerate(kw)]
        call(getattr_(getattr_(t, "attrs"), "update"), [mkdict(d) for d in ds2], kw2)
        return replace(cur, merge([e for d in ds2 for e in d] + kw2))

    def start(env, sn):
        ents = [(n, value(env, k, 90 + i)) for i, (n, k) in enumerate(STARTS[sn])]
        return newtag([mkdict(ents)]), merge(ents)

    for sn in STARTS:
        for on, seq in OPS.items():
            def f(env, sn=sn, seq=seq, on=on):
                t, cur = start(env, sn)
                other, ocur = start(env, sn)
                d0 = getattr_(t, "attrs")
                for i, op in enumerate(seq):
                    cur = apply(env, t, cur, op, i)
                    check_attrs(getattr_(t, "attrs"), cur, f"{sn}, {on}")
                    if getattr_(t, "attrs") is not d0:
                        raise Bad(f"{sn}, {on}: the attribute mapping was swapped for another", T.CUR_LOC[0])
                check_attrs(getattr_(other, "attrs"), ocur, f"another tag after {on}")
                # what was stored is what a tag rebuilt from the mapping has
                check_attrs(getattr_(newtag([getattr_(t, "attrs")]), "attrs"), cur, f"{sn}, {on}, rebuilt")
            add(f"after/{sn}/{on}", f)
        ops = list(OPS)
        for a, b in itertools.product(ops, repeat=2):
            if not full and (ops.index(a) * 7 + ops.index(b)) % 5 and not (a.startswith("set x") or b.startswith("update x")):
                continue
            def f(env, sn=sn, a=a, b=b):
                t, cur = start(env, sn)
                for i, op in enumerate(OPS[a] + OPS[b]):
                    cur = apply(env, t, cur, op, i)
                check_attrs(getattr_(t, "attrs"), cur, f"{sn}, {a}, {b}")
            add(f"then/{sn}/{a}/{b}", f)
    for sn in ("none", "several"):
        def f(env, sn=sn):
            t, cur = start(env, sn)
            for i, on in enumerate(("set x", "update 2", "set none", "update kw_", "set true", "update several", "update drop", "set html", "update html", "set x_", "update class", "set class", "update nothing", "update 3")):
                for op in OPS[on]:
                    cur = apply(env, t, cur, op, i)
                    check_attrs(getattr_(t, "attrs"), cur, f"{sn} history step {i} ({on})")
        add(f"long/{sn}", f)

    # ---- several calls sharing dicts do not influence one another
    def shared(env):
        a, b, c = mkdict([("x", env.sym("s0")), ("y", "1")]), mkdict([("x_", env.sym("s1"))]), env.sym("s2")
        for mk in MAKERS:
            for _ in range(2):
                d = MAKERS[mk]([a, b], [("x", c)])
                check_attrs(d, merge([("x", env.sym("s0")), ("y", "1"), ("x_", env.sym("s1")), ("x", c)]), f"{mk}, dicts used twice")
        t = newtag([a])
        u = newtag([a])
        setitem(getattr_(t, "attrs"), "x", "new")
        upd(t, [], [("y", "2"), ("w", "3")])
        check_attrs(getattr_(u, "attrs"), merge([("x", env.sym("s0")), ("y", "1")]), "a tag built from the same dict")
        check_attrs(getattr_(newtag([a]), "attrs"), merge([("x", env.sym("s0")), ("y", "1")]), "a tag built from the same dict later")
        v = newtag([getattr_(t, "attrs")], [("x", "kw")])
        check_attrs(getattr_(v, "attrs"), merge([("x", "new"), ("y", "2"), ("w", "3"), ("x", "kw")]), "a tag built from another tag's attributes")
        check_attrs(getattr_(t, "attrs"), merge([("x", "new"), ("y", "2"), ("w", "3")]), "the tag whose attributes were reused")
    add("shared", shared)

    # ---- consolidate_attrs
    KIDS = {
        "none": lambda e: [], "text": lambda e: [e.sym("k")], "None": lambda e: [None], "nested": lambda e: [mklist(["a", None, mklist([1])]), ("b", (None,)), 3, 2.5, True, False], "taglist": lambda e: [call(g("TagList"), ["a", newtag()])], "tags": lambda e: [newtag(["x"]), call(g("HTML"), ["<b>"]), user("Meta"), user("Expand", "q"), user("Selfie", "r")],
        "dep": lambda e: [call(g("HTMLDependency"), ["d", "1"]), "", 0], "same": lambda e: (lambda x: [x, x, mklist([x])])(newtag(["x"])),
    }
    ATTRS = {
        "none": ([], []), "kw": ([], [("x", "S"), ("class_", "H")]), "dict": ([[("x", "S"), ("b_c", "N")]], []), "dicts": ([[("x", "S")], [("y", "T"), ("x_", "H")]], []), "mixed": ([[("x", "S"), ("n", "X")], [("a_b", "N")]], [("x_", "S"), ("a_b", "F"), ("class_", "E")]), "empty": ([[]], []),
        "dropped": ([[("x", "X")]], [("y", "F")]), "html": ([[("class", "H")]], [("class_", "S")]), "three": ([[("class", "S")], [("class", "S"), ("id", "I")]], [("class_", "S")]),
    }
    for kn, kf in KIDS.items():
        for an, (ds, kw) in ATTRS.items():
            for where in ("first", "last", "between"):
                def f(env, kf=kf, ds=ds, kw=kw, where=where, kn=kn, an=an):
                    what = f"consolidate_attrs({kn}, {an}, dicts {where})"
                    kids = kf(env)
                    dd = [mkdict([(n, value(env, k, 10 * i + j)) for j, (n, k) in enumerate(d)]) for i, d in enumerate(ds)]
                    kk = [(n, value(env, k, 80 + i)) for i, (n, k) in enumerate(kw)]
                    if where == "first":
                        args = dd + kids
                    elif where == "last":
                        args = kids + dd
                    else:
                        args = list(itertools.chain(*itertools.zip_longest(kids, dd, fillvalue=_GAP)))
                        args = [x for x in args if x is not _GAP]
                    want = merge([e for d in dd for e in d.data.items()] + kk)
                    before = Snap(*args)
                    r = call(g("consolidate_attrs"), args, kk)
                    rs = E.tolist(r)
                    if len(rs) != 2:
                        raise Bad(f"{what}: {len(rs)} results")
                    attrs, got = rs
                    check_attrs(attrs, want, what)
                    if not isinstance(got, E.Inst) or got.cls is not E.LIST:
                        raise Bad(f"{what}: the other arguments come back in a {E.type_of(got).name}")
                    got = list(got.data)
                    if len(got) != len(kids):
                        raise Bad(f"{what}: {len(got)} non-dict arguments come back, {len(kids)} were given")
                    for i, (x, y) in enumerate(zip(got, kids)):
                        if x is not y and not (not isinstance(y, E.Inst) and type(x) is type(y) and struct(x) == struct(y)):
                            raise Bad(f"{what}: non-dict argument {i} comes back as another object ({E.type_of(x).name})", T.CUR_LOC[0])
                    df = path_diff(before.text, Snap(*args).text, "argument")
                    if df:
                        raise Bad(f"{what}: an argument was modified: {df}", T.CUR_LOC[0])
                    # a tag built from the result equals the tag built directly
                    direct = call(g("Tag"), ["p", *args], kk)
                    a2 = call(g("Tag"), ["p", attrs, *got])
                    a3 = call(g("Tag"), ["p", *got, attrs])
                    for how, x in (("attributes first", a2), ("attributes last", a3)):
                        df = path_diff(struct(direct), struct(x), "tag")
                        if df:
                            raise Bad(f"{what}: the rebuilt tag ({how}) differs from the direct one: {df}", T.CUR_LOC[0])
                        if not any(isinstance(k, E.Inst) and k.cls.name == "Meta" for k in kids) and E.truth(E.eq_(direct, x)) is not True:
                            raise Bad(f"{what}: the rebuilt tag ({how}) does not equal the direct one", T.CUR_LOC[0])
                    # the returned dict is not tied to later tags
                    setitem(getattr_(a2, "attrs"), "x", "changed")
                    check_attrs(attrs, want, what + ", after a change of the rebuilt tag")
                    setitem(attrs, "zz", "changed")
                    if E.truth(E.compare("In", "zz", getattr_(a3, "attrs"))):
                        raise Bad(f"{what}: the returned dict is shared with the rebuilt tag")
                    r2 = getitem(call(g("consolidate_attrs"), args, kk), 0)
                    check_attrs(r2, want, what + ", second call")
                add(f"consolidate/{kn}/{an}/{where}", f)

    # ---- what the markup shows
    for an, (ds, kw) in ATTRS.items():
        def f(env, ds=ds, kw=kw, an=an):
            from .c03 import start_attrs
            dd = [mkdict([(n, value(env, k, 10 * i + j)) for j, (n, k) in enumerate(d)]) for i, d in enumerate(ds)]
            kk = [(n, value(env, k, 80 + i)) for i, (n, k) in enumerate(kw)]
            want = merge([e for d in dd for e in d.data.items()] + kk)
            for name in ("p", "br"):
                st = start_attrs(m(call(g("Tag"), [name, *dd], kk), "get_html_string"), an)
                if len(st[2]) != len(want):
                    raise Bad(f"{an}: {len(st[2])} attributes are written, expected {len(want)}", st[-1])
                for (n, v, l), (wn, wt, wh) in zip(st[2], want):
                    check_same(n, wn, f"{an}: attribute written")
                    same_markup(v if v is not None else "", wt if wh else esc_attr(wt), f"{an}: value written for {wn}")
        add(f"written/{an}", f)

    # ---- sizes beyond every constant of the code
    for th in sorted(int_thresholds(("htmltools/_core.py",))):
        if th > 64:
            continue

        def f(env, th=th):
            for n in (th, th + 1, th + 2):
                ents = [("x" if i % 2 else "x_", env.sym(f"s{i % 3}") if i % 4 else "v") for i in range(n)]
                for mk in ("Tag", "update", "consolidate"):
                    run(mk, ("d", [[i] for i in range(n)], []), ents, f"{mk}: {n} dicts", keep=False)
                ents = [(f"n{i}_", "v") for i in range(n)] + [("n0", "w")]
                run("Tag", ("d", [list(range(n)), [n]], []), ents, f"{n} names", keep=False)
                run("Tag", ("d", [[n]], list(range(n))), ents, f"{n} keywords", keep=False)
                nm = "a_" * n
                run("Tag", ("d", [[0]], []), [(nm, "v")], f"name with {n} underscores", keep=False)
                run("Tag", ("d", [[0]], []), [("x" + "_" * n, "v")], f"name ending in {n} underscores", keep=False)
                run("Tag", ("d", [[0]], []), [("_" * n + "x", "v")], f"name beginning with {n} underscores", keep=False)
                run("Tag", ("d", [[0]], []), [(T.concat("y" * n, env.sym("an")), "v")], f"name of more than {n} characters", keep=False)
                t, cur = start(env, "several")
                for i in range(n):
                    cur = apply(env, t, cur, ("set", f"w{i}", "E"), i)
                    cur = apply(env, t, cur, ("up", [[("x", "S")], [("x_", "S")]], []), i)
                check_attrs(getattr_(t, "attrs"), cur, f"{2 * n} operations")
        add(f"size/{th}", f)
    return out


_GAP = object()

PROP = Prop(
    "C15", "Attribute names and values are normalised and merged in argument order",
    "the ordered (name, value) entries of tag.attrs after every construction, update and item assignment must equal those of an independent left fold over the "
    "call's entries (name map, value map, join by one space, position of first appearance, replacement across calls); consolidate_attrs must return the same entries and the non-dict arguments by identity",
    [("htmltools._core", "TagAttrDict.update"), ("htmltools._core", "TagAttrDict.__setitem__"), ("htmltools", "consolidate_attrs"), ("htmltools", "Tag.__init__")], scenarios,
    assumptions=["HTML()-marked values do not themselves contain the double quote (trusted markup)"],
    bounds="names and values are opaque terms plus literal names; up to 5 entries per call in every listed dict/keyword layout, update/assignment histories of length 2 from 6 starting states",
)
