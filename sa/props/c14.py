"""C14: child lists hold only normalised nodes after any sequence of operations."""
import itertools

from .. import engine as E
from .. import terms as T
from ..api import Bad, g, m, mod
from ..base import Prop, Scenario, int_thresholds
from ..engine import Raised, call, getattr_, getitem, mkdict, mklist, setattr_, str_
from ..model import preload, user
from ..oracle import path_diff, struct
from ..terms import Str, Unsupported

CORE = "htmltools/_core.py"


def tag(name, *a, **k):
    return call(g("Tag"), [name, *a], list(k.items()))


def tl(*a):
    return call(g("TagList"), list(a))


# ------------------------------------------------------------------ specification
def is_num(x):
    return isinstance(x, (bool, int, float, T.Num, T.Lin, T.BoolV)) or isinstance(x, E.Inst) and (x.cls.issub(E.INT) or x.cls.issub(E.FLOAT))


def splices(x):
    return isinstance(x, tuple) or isinstance(x, E.Inst) and (x.cls.issub(E.LIST) or x.cls.issub(g("TagList")) or x.cls.issub(E.TUPLE))


def flat(x, out):
    """depth-first, left-to-right flattening"""
    if x is None:
        return out
    if splices(x):
        for y in items(x):
            flat(y, out)
    else:
        out.append(x)
    return out


def items(x):
    if isinstance(x, tuple):
        return list(x)
    if x.cls.issub(g("TagList")):
        return list(getattr_(x, "data").data)
    return list(x.data)


def expected(xs):
    out = []
    for x in xs:
        flat(x, out)
    return out


def check_nodes(lst, want, what, cls=None):
    """lst: the child list object; want: supplied values after flattening"""
    if not isinstance(lst, E.Inst) or not lst.cls.issub(g("TagList")):
        raise Bad(f"{what}: the result is a {E.type_of(lst).name}, not a TagList")
    if cls is not None and lst.cls is not cls:
        raise Bad(f"{what}: the result is a {lst.cls.name}, expected {cls.name}")
    if sorted(lst.d.keys()) != ["data"]:
        raise Bad(f"{what}: the list object carries the attributes {sorted(lst.d.keys())}")
    data = getattr_(lst, "data")
    if not isinstance(data, E.Inst) or data.cls is not E.LIST:
        raise Bad(f"{what}: the children are kept in a {E.type_of(data).name}")
    got = list(data.data)
    if len(got) != len(want):
        raise Bad(f"{what}: {len(got)} children, expected {len(want)}: {brief(got)} instead of {brief(want)}", T.CUR_LOC[0])
    for i, (a, b) in enumerate(zip(got, want)):
        if is_num(b):
            if not T.is_s(a) or T.norm(a) != T.norm(str_(b)):
                raise Bad(f"{what}: number {b!r} at place {i} is stored as {brief([a])}", T.CUR_LOC[0])
        elif T.is_s(b):
            if not T.is_s(a) or T.norm(a) != T.norm(b):
                raise Bad(f"{what}: string {T.show(b)!r} at place {i} is stored as {brief([a])}", T.CUR_LOC[0])
        elif a is not b:
            raise Bad(f"{what}: child {i} is {brief([a])}, expected {brief([b])}", T.CUR_LOC[0])
        if E.truth(call(g("is_tag_node"), [a])) is not True:
            raise Bad(f"{what}: is_tag_node() is false for the stored child {brief([a])}")
    # iteration, indexing and length agree with the stored nodes
    if E.truth(E.compare("NotEq", call(E.BUILTINS["len"], [lst]), len(got))):
        raise Bad(f"{what}: len() disagrees with the children")
    seen = E.tolist(lst)
    if len(seen) != len(got) or any(x is not y and not (T.is_s(x) and T.is_s(y) and T.norm(x) == T.norm(y)) for x, y in zip(seen, got)):
        raise Bad(f"{what}: iterating gives other children")


def brief(xs):
    out = []
    for x in xs:
        if T.is_s(x):
            out.append(repr(T.show(x)))
        elif isinstance(x, E.Inst):
            out.append(x.cls.name)
        else:
            out.append(repr(x))
    return "[" + ", ".join(out)[:160] + "]"


def nodes(lst):
    return list(getattr_(lst, "data").data)


def supports(v, what):
    if E.truth(call(g("is_tag_child"), [v])) is not True:
        raise Bad(f"{what}: is_tag_child() is false for an accepted value ({brief([v])})")


def scenarios(tier):
    preload()
    out = []

    def add(n, f, **k):
        out.append(Scenario(n, f, **k))

    # ---- argument shapes: name -> builder(env)
    SCALAR = {
        "none": lambda e: None, "text": lambda e: e.sym("s"), "empty": lambda e: "", "list-like text": lambda e: "[1, 2]", "int": lambda e: T.Num("n", "int"), "float": lambda e: T.Num("f", "float"), "0": lambda e: 0, "-1": lambda e: -1, "2.5": lambda e: 2.5, "1e22": lambda e: 1e22,
        "nan": lambda e: float("nan"), "inf": lambda e: float("inf"), "-0.0": lambda e: -0.0, "true": lambda e: True, "false": lambda e: False, "big": lambda e: 10 ** 20,
        "html": lambda e: call(g("HTML"), [e.sym("h")]), "html-empty": lambda e: call(g("HTML"), [""]), "tag": lambda e: tag("p", "x"), "void": lambda e: tag("br"), "mytag": lambda e: user("MyTag", "q"), "dep": lambda e: call(g("HTMLDependency"), ["d", "1"]), "meta": lambda e: user("Meta"), "repr": lambda e: user("Selfie", e.sym("r")),
        "expand": lambda e: user("Expand", "x"), "both": lambda e: user("Both", "x", "y"), "document-head": lambda e: call(g("head_content"), ["t"]), "jsx": lambda e: call(g("JSXTag", "htmltools._jsx"), ["Foo"]),
        "sub-str": lambda e: user("MyStr", e.sym("s")), "str-html": lambda e: user("StrHtml", e.sym("s")), "sub-int": lambda e: user("SubInt", 4), "sub-float": lambda e: user("SubFloat", 2.5),
    }
    DEEP = {
        "list": lambda e: mklist(["a", None, 3, tag("b")]), "tuple": lambda e: ("a", None, 3.5, tag("b")), "taglist": lambda e: tl("a", None, 3, tag("b")), "mylist": lambda e: user("MyList", "a", tag("b")), "empty-list": lambda e: mklist([]), "empty-tuple": lambda e: (), "empty-taglist": lambda e: tl(),
        "nones": lambda e: mklist([None, (None,), mklist([])]), "deep": lambda e: mklist([mklist([mklist([mklist([mklist(["x"]), 1]), 2]), 3]), 4]), "deep-tuple": lambda e: (((((e.sym("s"), 1), 2), 3), tag("i")), None), "mixed": lambda e: ("a", mklist([tl("b", mklist(["c"])), ("d", (None, 7))]), tag("p", "q")),
        "list-of-taglists": lambda e: mklist([tl("a", "b"), tl(), tl("c", user("Meta"))]), "tuple-list": lambda e: (mklist([e.sym("s")]), "t"), "list-tuple": lambda e: mklist([("t",), e.sym("s")]), "sub": lambda e: mklist([user("MyList", "a", mklist([None, 1])), ("z",)]), "strings": lambda e: mklist(["ab", "", "cd", e.sym("s")]),
        "numbers": lambda e: mklist([1, 2.0, True, T.Num("n", "int"), (0, False)]), "html-in": lambda e: (call(g("HTML"), ["<b>"]), mklist([call(g("HTML"), ["ab"])])), "same-twice": lambda e: (lambda x: mklist([x, x, (x,)]))(tag("i")), "list-twice": lambda e: (lambda x: (x, x))(mklist(["a", tag("i")])),
        "sub-list": lambda e: user("SubList", mklist(["a", None, user("SubList", mklist([e.sym("s"), 1]))])), "sub-tuple": lambda e: user("SubTuple", ("a", user("SubTuple", (tag("b"), 2)), None)), "named-tuple": lambda e: user("Pair", "a", user("Pair", None, tag("b"))), "sub-in-tuple": lambda e: ("q", user("SubList", mklist([e.sym("s")])), user("Pair", 1, "z")),
        "tag-with-kids": lambda e: mklist([tag("ul", tag("li"), tag("li")), tl(tag("p", "t"))]),
    }
    GOOD = {**SCALAR, **DEEP}
    BAD = {
        "object": lambda e: user("Plain"), "strish": lambda e: user("Strish"), "dict": lambda e: mkdict([("a", "b")]), "set": lambda e: call(E.BUILTINS["set"], [mklist(["a"])]), "bytes": lambda e: b"x", "function": lambda e: getattr_(E.MODULES["userland"], "plain_function"), "generator": lambda e: user("gen", mklist(["a"])), "iterable": lambda e: user("Iterable", mklist(["a"])),
        "range": lambda e: call(E.BUILTINS["range"], [2]), "frozenset": lambda e: call(E.BUILTINS["frozenset"], [mklist(["a"])]), "tagfn": lambda e: g("div"), "ellipsis": lambda e: Ellipsis, "not-implemented": lambda e: NotImplemented, "complex": lambda e: 1j, "empty bytes": lambda e: b"", "type": lambda e: E.BUILTINS["int"], "user type": lambda e: getattr_(E.MODULES["userland"], "Plain"), "exception": lambda e: call(E.BUILTINS["ValueError"], ["x"]), "empty set": lambda e: call(E.BUILTINS["set"], []), "empty dict": lambda e: mkdict([]), "module": lambda e: mod("htmltools"),
        "fake sequence": lambda e: user("FakeSeq"), "callable": lambda e: user("CallMe"), "empty generator": lambda e: user("gen", mklist([])), "falsy": lambda e: user("Falsy", None), "equal to all": lambda e: user("AlwaysEqual"), "empty range": lambda e: call(E.BUILTINS["range"], [0]), "zip": lambda e: call(E.BUILTINS["zip"], [mklist(["a"])]), "iterator": lambda e: call(E.BUILTINS["iter"], [mklist(["a"])]), "document": lambda e: call(g("HTMLDocument"), ["a"]), "attrs": lambda e: getattr_(tag("p", id="x"), "attrs"), "method": lambda e: getattr_(tag("p"), "append"), "dict-items": lambda e: m(mkdict([("a", "b")]), "items"), "map": lambda e: call(E.BUILTINS["map"], [E.BUILTINS["str"], mklist([1])]),
    }
    BAD = {k: v for k, v in BAD.items() if v}
    WRAP = {
        "bare": lambda x: x, "list": lambda x: mklist([x]), "tuple": lambda x: ("a", x), "after": lambda x: mklist(["a", tag("p"), 1, x]), "before": lambda x: (x, "a", None), "deep": lambda x: mklist(["a", (1, mklist([tag("b"), (None, x)])), "z"]), "deep-first": lambda x: (mklist([(x,), "q"]), "z"),
    }
    START = {
        "none": lambda e: [], "one": lambda e: [e.sym("k0")], "two": lambda e: [tag("p"), e.sym("k0")], "three": lambda e: [e.sym("k0"), user("Meta"), call(g("HTML"), ["<i>"])], "five": lambda e: ["a", tag("b", "x"), "", call(g("HTMLDependency"), ["d", "1"]), user("Expand", "q")],
    }

    def start(env, sn, cls="TagList"):
        ks = START[sn](env)
        x = call(g("TagList"), ks) if cls == "TagList" else user("MyList", *ks)
        check_nodes(x, ks, f"{cls}({brief(ks)})")
        return x, ks

    # ---- operations on a list: name -> (function(list, values) -> result list, in place?)
    def idx(n):
        return sorted({-n - 2, -n, -1, 0, 1, n - 1, n, n + 1, n // 2, 99})

    def op_append(x, v):
        m(x, "append", v)
        return x

    def op_extend(x, v):
        m(x, "extend", mklist([v]))
        return x

    def op_iadd(x, v):
        return E.inplace("Add", x, mklist([v]))
    OPS = {
        "append": (op_append, True, lambda o, v: o + v), "extend": (op_extend, True, lambda o, v: o + v), "+=": (op_iadd, True, lambda o, v: o + v),
        "extend(tuple)": (lambda x, v: (m(x, "extend", (v,)), x)[1], True, lambda o, v: o + v), "extend(generator)": (lambda x, v: (m(x, "extend", user("gen", mklist([v]))), x)[1], True, lambda o, v: o + v), "extend(iterable)": (lambda x, v: (m(x, "extend", user("Iterable", mklist([v]))), x)[1], True, lambda o, v: o + v),
        "+= tuple": (lambda x, v: E.inplace("Add", x, (v,)), True, lambda o, v: o + v), "+= generator": (lambda x, v: E.inplace("Add", x, user("gen", mklist([v, "z"]))), True, lambda o, v: o + v + ["z"]),
        "append several": (lambda x, v: (m(x, "append", "a", v, mklist(["b", v])), x)[1], True, lambda o, v: o + ["a"] + v + ["b"] + v),
        "+": (lambda x, v: E.binop("Add", x, mklist([v])), False, lambda o, v: o + v), "+ tuple": (lambda x, v: E.binop("Add", x, ("a", v)), False, lambda o, v: o + ["a"] + v), "+ generator": (lambda x, v: E.binop("Add", x, user("gen", mklist([v]))), False, lambda o, v: o + v),
        "reflected +": (lambda x, v: E.binop("Add", mklist([v]), x), False, lambda o, v: v + o), "reflected + tuple": (lambda x, v: E.binop("Add", (v, "a"), x), False, lambda o, v: v + ["a"] + o), "reflected + generator": (lambda x, v: E.binop("Add", user("gen", mklist([v])), x), False, lambda o, v: v + o),
        "construction": (lambda x, v: call(x.cls, [x, v]), False, lambda o, v: o + v), "construction first": (lambda x, v: call(g("TagList"), [v, x, "z"]), False, lambda o, v: v + o + ["z"]), "construction nested": (lambda x, v: call(g("TagList"), [mklist([x, (v,)])]), False, lambda o, v: o + v),
        "insert(0)": (lambda x, v: (m(x, "insert", 0, v), x)[1], True, lambda o, v: v + o), "insert(1)": (lambda x, v: (m(x, "insert", 1, v), x)[1], True, lambda o, v: o[:1] + v + o[1:]), "insert(-1)": (lambda x, v: (m(x, "insert", -1, v), x)[1], True, lambda o, v: o[:-1] + v + o[-1:]),
    }

    def run_op(env, on, sn, an, cls="TagList"):
        f, inplace, spec = OPS[on]
        x, ks = start(env, sn, cls)
        v = GOOD[an](env)
        before = struct(v) if isinstance(v, E.Inst) else None
        want = spec(ks, expected([v]))
        what = f"{on} of {an} to {brief(ks)}"
        supports(v, what)
        r = f(x, v)
        if inplace and r is not x:
            raise Bad(f"{what}: += returns another object")
        if not inplace:
            if r is x:
                raise Bad(f"{what}: returns the same object")
            check_nodes(x, ks, f"{what}: the left operand")
        check_nodes(r, want, what)
        if before is not None and struct(v) != before:
            raise Bad(f"{what}: the argument changes: {path_diff(before, struct(v))}")
        # the list does not follow later changes of its argument
        if isinstance(v, E.Inst) and v.cls.issub(E.LIST):
            m(v, "append", user("Plain"))
            check_nodes(r, want, f"{what}, then the argument changes")
        return r

    for on in OPS:
        for an in GOOD:
            def h(env, on=on, an=an):
                for sn in ("none", "two"):
                    run_op(env, on, sn, an)
            add(f"op/{on}/{an}", h)
        for sn in START:
            def h2(env, on=on, sn=sn):
                for an in ("text", "none", "mixed", "int", "taglist"):
                    for cls in ("TagList", "MyList"):
                        run_op(env, on, sn, an, cls)
            add(f"op/{on}/start-{sn}", h2)

    # ---- lists as the operand itself, empty ones too; the result and the operands share nothing
    WHOLE = {
        "empty list": (lambda: mklist([]), []), "empty tuple": (lambda: (), []), "empty TagList": (lambda: tl(), []), "empty generator": (lambda: user("gen", mklist([])), []),
        "empty MyList": (lambda: user("MyList"), []), "empty dict": (lambda: mkdict([]), []), "empty set": (lambda: E.mkset([]), []), "list of None": (lambda: mklist([None]), []), "list of empty": (lambda: mklist([mklist([]), ()]), []),
        "list": (lambda: mklist(["u", 1]), ["u", "1"]), "tuple": (lambda: ("u", None, "w"), ["u", "w"]), "TagList": (lambda: tl("u", "w", "z"), ["u", "w", "z"]), "TagList of one": (lambda: tl("u"), ["u"]), "MyList": (lambda: user("MyList", "u"), ["u"]),
    }

    def operand(env, on, f, spec, fresh):
        for wn, (mk, vals) in WHOLE.items():
            for sn in START:
                for cls in ("TagList", "MyList"):
                    x, ks = start(env, sn, cls)
                    v = mk()
                    r = f(x, v)
                    what = f"{on}, {wn} with {cls} {brief(ks)}"
                    want = spec(ks, vals)
                    check_nodes(r, want, what)
                    if fresh and (r is x or r is v):
                        raise Bad(f"{what}: the result is one of the operands")
                    if fresh:
                        check_nodes(x, ks, f"{what}: the operand")
                        m(x, "append", "later")
                        check_nodes(r, want, f"{what}, then the operand grows")
                    if isinstance(v, E.Inst) and (v.cls.issub(E.LIST) or v.cls.issub(g("TagList"))):
                        m(v, "append", "later2")
                        check_nodes(r, want, f"{what}, then the other operand grows")
                        m(r, "append", "more")
                        if E.contains(v, "more"):
                            raise Bad(f"{what}: the argument grows with the result")
    for on, f, spec, fresh in (
        ("+", lambda x, v: E.binop("Add", x, v), lambda o, v: o + v, True), ("reflected +", lambda x, v: call(getattr_(x, "__radd__"), [v]), lambda o, v: v + o, True),
        ("+=", lambda x, v: E.inplace("Add", x, v), lambda o, v: o + v, False), ("extend", lambda x, v: (m(x, "extend", v), x)[1], lambda o, v: o + v, False),
        ("TagList()", lambda x, v: tl(x) if isinstance(v, E.Inst) and v.cls is E.DICT else tl(x, *E.tolist(v)), lambda o, v: o + v, True), ("TagList of one", lambda x, v: tl(x), lambda o, v: o, True),
        ("Tag()", lambda x, v: getattr_(tag("p", x), "children"), lambda o, v: o, True), ("list argument", lambda x, v: tl(mklist([x])), lambda o, v: o, True),
    ):
        add(f"operand/{on}", lambda env, on=on, f=f, spec=spec, fresh=fresh: operand(env, on, f, spec, fresh))

    # ---- strings as the operand itself
    def whole(env, kind):
        mk = {"str": lambda: env.sym("s"), "empty": lambda: "", "abc": lambda: "abc", "html": lambda: call(g("HTML"), [env.sym("s")]), "html-abc": lambda: call(g("HTML"), ["abc"])}[kind]
        for sn in ("none", "two"):
            for on, f, spec in (
                ("extend", lambda x, v: (m(x, "extend", v), x)[1], lambda o, v: o + v), ("+", lambda x, v: E.binop("Add", x, v), lambda o, v: o + v), ("reflected +", lambda x, v: E.binop("Add", v, x), lambda o, v: v + o), ("+=", lambda x, v: E.inplace("Add", x, v), lambda o, v: o + v),
                ("append", lambda x, v: (m(x, "append", v), x)[1], lambda o, v: o + v), ("insert", lambda x, v: (m(x, "insert", 1, v), x)[1], lambda o, v: o[:1] + v + o[1:]),
                ("Tag.extend", lambda x, v: (lambda t: (m(t, "extend", v), getattr_(t, "children"))[1])(tag("p", x)), lambda o, v: o + v), ("Tag.append", lambda x, v: (lambda t: (m(t, "append", v), getattr_(t, "children"))[1])(tag("p", x)), lambda o, v: o + v),
            ):
                x, ks = start(env, sn)
                v = mk()
                what = f"{on} of the string {kind} with {brief(ks)}"
                check_nodes(f(x, v), spec(ks, [v]), what)
    for k in ("str", "empty", "abc", "html", "html-abc"):
        add(f"string/{k}", lambda env, k=k: whole(env, k))

    # ---- all insertion indices
    def insert(env, sn, an):
        n = len(START[sn](env))
        for i in idx(n) + [True]:
            for how in ("list", "tag", "index"):
                x, ks = start(env, sn)
                v = GOOD[an](env)
                want = list(ks)
                e = expected([v])
                want[i:i] = e
                what = f"insert({i}, {an}) into {brief(ks)}"
                if how == "tag":
                    t = tag("p", x)
                    m(t, "insert", i, v)
                    x = getattr_(t, "children")
                else:
                    m(x, "insert", user("Index", i) if how == "index" else i, v)
                check_nodes(x, want, what)
    for sn in START:
        for an in ("text", "none", "mixed", "tag", "float", "taglist", "empty-list", "strings"):
            add(f"insert/{sn}/{an}", lambda env, sn=sn, an=an: insert(env, sn, an))

    # ---- slicing and repetition
    def slicing(env, sn):
        vals = [None, 0, 1, 2, -1, -2, 99]
        for cls in ("TagList", "MyList"):
            x, ks = start(env, sn, cls)
            for a, b, c in itertools.product(vals, vals, (None, 1, 2, -1)):
                r = getitem(x, call(E.BUILTINS["slice"], [a, b, c]))
                check_nodes(r, ks[a:b:c], f"{cls} of {len(ks)} sliced [{a}:{b}:{c}]", x.cls)
                if r is x:
                    raise Bad("a slice is the list itself")
            r = getitem(x, call(E.BUILTINS["slice"], [None, None, None]))
            m(r, "append", "new")
            check_nodes(x, ks, "the list after its slice grew")

    def repeat(env, sn):
        for cls in ("TagList", "MyList"):
            for n in (-1, 0, 1, 2, 3):
                x, ks = start(env, sn, cls)
                check_nodes(E.binop("Mult", x, n), ks * n, f"{brief(ks)} * {n}", x.cls)
                check_nodes(E.binop("Mult", n, x), ks * n, f"{n} * {brief(ks)}", x.cls)
                check_nodes(x, ks, "operand of *")
                r = E.inplace("Mult", x, n)
                if r is not x:
                    raise Bad("*= returns another object")
                check_nodes(x, ks * n, f"{brief(ks)} *= {n}", x.cls)
                m(x, "append", 1)
                check_nodes(x, ks * n + [1], f"append after *= {n}")
    for sn in START:
        add(f"slice/{sn}", lambda env, sn=sn: slicing(env, sn))
        add(f"repeat/{sn}", lambda env, sn=sn: repeat(env, sn))

    # ---- unsupported arguments: TypeError, nothing changes
    ATTEMPT = {
        "append": lambda x, v: m(x, "append", v), "append middle": lambda x, v: m(x, "append", "a", v, tag("b")), "append last": lambda x, v: m(x, "append", "a", tag("b"), v), "extend": lambda x, v: m(x, "extend", mklist(["a", v, "b"])), "extend tuple": lambda x, v: m(x, "extend", ("a", 1, v)), "extend generator": lambda x, v: m(x, "extend", user("gen", mklist(["a", 2, v, "z"]))),
        "extend iterable": lambda x, v: m(x, "extend", user("Iterable", mklist([tag("b"), v]))), "insert": lambda x, v: m(x, "insert", 1, v), "insert 0": lambda x, v: m(x, "insert", 0, mklist(["a", v])), "insert -1": lambda x, v: m(x, "insert", -1, ("a", v)), "insert end": lambda x, v: m(x, "insert", 99, ("a", mklist([v]))), "+=": lambda x, v: E.inplace("Add", x, mklist(["a", v])), "+= tuple": lambda x, v: E.inplace("Add", x, (v, "a")),
        "+= generator": lambda x, v: E.inplace("Add", x, user("gen", mklist(["a", v]))), "+": lambda x, v: E.binop("Add", x, mklist(["a", v])), "+ tuple": lambda x, v: E.binop("Add", x, (v, "a")), "reflected +": lambda x, v: E.binop("Add", mklist(["a", v]), x), "reflected + tuple": lambda x, v: E.binop("Add", (v,), x), "construction": lambda x, v: call(g("TagList"), [x, "a", v]), "construction list": lambda x, v: call(g("TagList"), [mklist([x, v])]),
    }
    TAGTRY = {
        "append": lambda t, v: m(t, "append", v), "append last": lambda t, v: m(t, "append", "a", tag("b"), v), "extend": lambda t, v: m(t, "extend", mklist(["a", v])), "extend generator": lambda t, v: m(t, "extend", user("gen", mklist(["a", v]))), "insert": lambda t, v: m(t, "insert", 1, v), "insert list": lambda t, v: m(t, "insert", 0, mklist(["a", 1, v])), "construction": lambda t, v: call(g("Tag"), ["p", t, "a", v]),
        "construction list": lambda t, v: call(g("Tag"), ["p", mklist(["a", v])]), "children +=": lambda t, v: E.inplace("Add", getattr_(t, "children"), mklist(["a", v])), "function": lambda t, v: call(g("div"), [t, "a", v]), "class attribute": lambda t, v: call(g("div"), [mkdict([("a", "b")]), (t, v)]),
    }

    def rejected(f, v, watch, what):
        before = [struct(w) for w in watch]
        kids = [list(getattr_(w, "data").data) if w.cls.issub(g("TagList")) else None for w in watch]
        try:
            f()
        except Raised as e:
            if not e.value.cls.issub(E.EXC["TypeError"]):
                raise Bad(f"{what}: raises {e.value.cls.name}, expected TypeError", e.loc)
        else:
            raise Bad(f"{what}: is accepted", T.CUR_LOC[0])
        for w, b, k in zip(watch, before, kids):
            if struct(w) != b:
                raise Bad(f"{what}: rejected, but the object changed: {path_diff(b, struct(w))}", T.CUR_LOC[0])
            if k is not None and (len(k) != len(getattr_(w, "data").data) or any(x is not y for x, y in zip(k, getattr_(w, "data").data))):
                raise Bad(f"{what}: rejected, but the children changed", T.CUR_LOC[0])

    for bn, bf in BAD.items():
        for on, f in ATTEMPT.items():
            def h(env, bn=bn, bf=bf, on=on, f=f):
                for wn, w in WRAP.items():
                    if bn == "dict" and wn == "bare" and False:
                        continue
                    for sn in ("none", "three") if wn in ("bare", "deep") else ("two",):
                        for cls in ("TagList", "MyList") if wn == "bare" else ("TagList",):
                            x, ks = start(env, sn, cls)
                            v = w(bf(env))
                            rejected(lambda: f(x, v), v, [x], f"{on} with an unsupported {bn} ({wn}) on {brief(ks)}")
                            m(x, "append", "more")
                            check_nodes(x, ks + ["more"], f"append after a rejected {on}")
            add(f"reject/{bn}/{on}", h)
        for on, f in TAGTRY.items():
            def h(env, bn=bn, bf=bf, on=on, f=f):
                for wn, w in WRAP.items():
                    if bn in ("dict", "empty dict", "attrs") and wn == "bare" and on in ("construction", "function", "class attribute"):
                        continue
                    t = tag("p", "k", tag("b"), id="i", class_="c")
                    v = w(bf(env))
                    rejected(lambda: f(t, v), v, [t, getattr_(t, "children")], f"Tag {on} with an unsupported {bn} ({wn})")
            add(f"reject/{bn}/Tag {on}", h)

    def not_iterable(env):
        for v in (None, 5, 2.5, tag("p"), user("Plain"), user("Meta"), user("Expand", "x"), True):
            for on, f in (("extend", lambda x: m(x, "extend", v)), ("Tag.extend", None)):
                x, ks = start(env, "two")
                if f is None:
                    t = tag("p", x)
                    f = lambda _: m(t, "extend", v)
                    watch = [t]
                else:
                    watch = [x]
                rejected_or(lambda: f(x), watch, f"{on} with {brief([v])}")

    def rejected_or(f, watch, what):
        """not an iterable of children: rejected without effect"""
        before = [struct(w) for w in watch]
        try:
            f()
        except Raised as e:
            if not e.value.cls.issub(E.EXC["TypeError"]):
                raise Bad(f"{what}: raises {e.value.cls.name}", e.loc)
            for w, b in zip(watch, before):
                if struct(w) != b:
                    raise Bad(f"{what}: rejected, but the object changed: {path_diff(b, struct(w))}")
    add("not-iterable", not_iterable)

    # ---- the list as its own argument
    def self_arg(env):
        for on, (f, inplace, spec) in OPS.items():
            x, ks = start(env, "three")
            r = f(x, x)
            check_nodes(r, spec(ks, ks), f"{on} of the list itself")
        for on, f in (("extend", lambda x: (m(x, "extend", x), x)[1]), ("+=", lambda x: E.inplace("Add", x, x)), ("+", lambda x: E.binop("Add", x, x)), ("extend gen", lambda x: (m(x, "extend", user("gen", x)), x)[1])):
            x, ks = start(env, "three")
            check_nodes(f(x), ks + ks, f"{on} of the list itself")
        x, ks = start(env, "three")
        t = tag("p", x)
        m(t, "append", getattr_(t, "children"))
        check_nodes(getattr_(t, "children"), ks + ks, "a tag's children appended to itself")
        check_nodes(x, ks, "the list a tag was made from")
        y = tl(x)
        m(y, "append", "z")
        check_nodes(x, ks, "the list another list was made from")
        a, b = tag("p", x), tag("q", x)
        m(a, "append", 1)
        check_nodes(getattr_(b, "children"), ks, "children of a sibling made from the same list")
    add("self", self_arg)

    # ---- tags
    def tag_ops(env, an):
        for sn in ("none", "two"):
            ks = START[sn](env)
            attrs = mkdict([("id", "i")])
            v = GOOD[an](env)
            e = expected([v])
            t = call(g("Tag"), ["p", attrs, *ks, v, mkdict([("class", "c")])], [("title", "t")])
            check_nodes(getattr_(t, "children"), ks + e, f"Tag(…, {an})", g("TagList"))
            for f, spec, on in ((lambda: m(t, "append", v), lambda o: o + e, "append"), (lambda: m(t, "append", v, "x", v), lambda o: o + e + ["x"] + e, "append several"), (lambda: m(t, "extend", mklist([v, None])), lambda o: o + e, "extend"), (lambda: m(t, "insert", 1, v), lambda o: o[:1] + e + o[1:], "insert"), (lambda: m(t, "insert", -1, mklist([v, v])), lambda o: o[:-1] + e + e + o[-1:], "insert")):
                o = nodes(getattr_(t, "children"))
                c = getattr_(t, "children")
                f()
                if getattr_(t, "children") is not c:
                    raise Bad(f"Tag.{on}: the child list is replaced")
                check_nodes(getattr_(t, "children"), spec(o), f"Tag.{on}({an})")
            for fn in ("div", "span", "script", "br"):
                check_nodes(getattr_(call(g(f"tags.{fn}") if fn == "script" else g(fn), [*ks, v], [("id", "q")]), "children"), ks + e, f"{fn}(…, {an})")
    for an in GOOD:
        add(f"tag/{an}", lambda env, an=an: tag_ops(env, an))

    # ---- histories
    HIST = ["append", "extend", "+=", "insert(1)", "insert(-1)", "+", "reflected +", "construction", "extend(generator)"]

    def histories(env, first):
        args = ["text", "mixed", "none", "int", "taglist", "html"]
        k = 0
        for seq in itertools.product(HIST, repeat=2):
            x, o = start(env, "two")
            o = list(o)
            trail = []
            for on in (first, *seq):
                an = args[k % len(args)]
                k += 1
                f, inplace, spec = OPS[on]
                v = GOOD[an](env)
                o = spec(o, expected([v]))
                x = f(x, v)
                trail.append(f"{on} {an}")
                check_nodes(x, o, " then ".join(trail))
            r = getitem(x, call(E.BUILTINS["slice"], [1, None, 2]))
            check_nodes(r, o[1::2], " then ".join(trail) + " then a slice")
            r = E.inplace("Mult", r, 2)
            check_nodes(r, o[1::2] * 2, " then ".join(trail) + " then *= 2")
            try:
                m(r, "extend", mklist(["a", user("Plain")]))
            except Raised:
                pass
            check_nodes(r, o[1::2] * 2, " then ".join(trail) + " then a rejected extend")
    for f in HIST:
        add(f"history/{f}", lambda env, f=f: histories(env, f), max_paths=200)

    def after_copy(env):
        """lists made by copying or tagifying take further operations alike"""
        import_copy = getattr_(E.import_module("copy"), "copy")
        import_deep = getattr_(E.import_module("copy"), "deepcopy")
        for sn in START:
            if sn == "five":
                continue
            for how, f in (("copy", lambda x: call(import_copy, [x])), ("tagify", lambda x: m(x, "tagify")), ("deepcopy", lambda x: call(import_deep, [x])), ("copy()", lambda x: m(x, "copy"))):
                x, ks = start(env, sn)
                y = f(x)
                o = nodes(y)
                check_nodes(y, o, f"{how} of {brief(ks)}", g("TagList"))
                m(y, "extend", mklist([1, None, ("a", tag("p"))]))
                if len(nodes(y)) != len(o) + 3:
                    raise Bad(f"{how}, then extend: {brief(nodes(y))}")
                check_nodes(x, ks, f"the list after its {how} grew")
    add("after-copy", after_copy)

    def large(env, th):
        for n in (th, th + 1):
            xs = [f"t{i}" if i % 3 else i for i in range(n)]
            for f, on in ((lambda: tl(*xs), "construction"), (lambda: tl(mklist(xs)), "list"), (lambda: (lambda t: (m(t, "extend", tuple(xs)), t)[1])(tl()), "extend"), (lambda: E.inplace("Add", tl(), mklist(xs)), "+="), (lambda: E.binop("Add", mklist(xs), tl()), "reflected +"), (lambda: getattr_(tag("p", *xs), "children"), "Tag"), (lambda: (lambda t: (m(t, "append", *xs), t)[1])(tl()), "append")):
                check_nodes(f(), xs, f"{on} of {n} items")
            v = "x"
            for i in range(n):
                v = mklist([v]) if i % 3 == 0 else (v,) if i % 3 == 1 else tl(v)
            check_nodes(tl("a", v, "b"), ["a", "x", "b"], f"nesting of depth {n}")
            x = tl(*xs)
            for i in (0, 1, n // 2, n - 1, n, -1, -n):
                y = tl(x)
                m(y, "insert", i, mklist(["I", 1]))
                w = list(xs)
                w[i:i] = ["I", 1]
                check_nodes(y, w, f"insert({i}) into {n} items")
            rejected(lambda: m(x, "extend", mklist([*xs, user("Plain")])), None, [x], f"extend by {n} items and an object")
            y = tl()
            for i in range(n):
                m(y, "append", i)
            check_nodes(y, list(range(n)), f"{n} appends")
            t = "s" * n
            check_nodes(tl(t), [t], f"text of {n} characters")
            check_nodes(tl(10 ** n, 0.1 * 10 ** n), [10 ** n, 0.1 * 10 ** n], f"number of {n} digits")
    for th in sorted({3} | {t for t in int_thresholds((CORE, "htmltools/_util.py")) if t <= 60}):
        add(f"large/{th}", lambda env, th=th: large(env, th))
    return out


PROP = Prop(
    "C14", "Child lists hold only normalised nodes after any sequence of operations",
    "after every child operation, from every canonical list state, the stored nodes equal the specified flattening (identity of nodes, text of numbers) and the object state is canonical again, so the claim is inductive over histories; a rejected operation leaves the whole object graph as it was",
    [("htmltools", "TagList"), ("htmltools", "Tag.append"), ("htmltools", "is_tag_child"), ("htmltools", "is_tag_node"), ("htmltools._core", "_tagchilds_to_tagnodes"), ("htmltools._util", "flatten")], scenarios,
    assumptions=["item assignment and other inherited list methods not named by the property are outside it", "HTML() and str operands of + are kept whole"],
    bounds="21 operations x 49 argument shapes from canonical states of 0-5 arbitrary nodes, 13 kinds of unsupported object in 7 positions for 31 operations, all insertion indices, 196 slices, 9^3 histories",
)
