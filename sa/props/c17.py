"""C17: with blocks of tags: typestate of sys.displayhook, delivery, collected children."""
import itertools

from .. import engine as E
from .. import terms as T
from ..api import Bad, g, m
from ..base import Prop, Scenario, functions_index, int_thresholds
from ..engine import Raised, call, getattr_, mkdict, mklist, setattr_
from ..model import preload, user
from .c14 import brief, expected, is_num, tag, tl

CORE = "htmltools/_core.py"
MISSING = object()


# ------------------------------------------------------------------ displayed values
class Rendered:
    """expected node: HTML() with this text"""

    def __init__(self, text):
        self.text = text


def html(s):
    return call(g("HTML"), [s])


class V:
    """a displayed value: the object and what it contributes (None: rejected with TypeError)"""

    def __init__(self, obj, nodes=MISSING, raises=None):
        self.obj = obj
        self.nodes = expected([obj]) if nodes is MISSING else nodes
        self.raises = raises


def bad(x):
    return V(x, None, "TypeError")


GOOD = {
    "text": lambda e: V(e.sym("s")), "empty": lambda e: V(""), "none": lambda e: V(None, []), "ellipsis": lambda e: V(E.BUILTINS["Ellipsis"], []),
    "int": lambda e: V(T.Num("n", "int")), "0": lambda e: V(0), "1": lambda e: V(1), "2.5": lambda e: V(2.5), "true": lambda e: V(True), "false": lambda e: V(False), "nan": lambda e: V(float("nan")),
    "tag": lambda e: V(tag("p", "x")), "void": lambda e: V(tag("br")), "empty tag": lambda e: V(tag("i")), "mytag": lambda e: V(user("MyTag", "q")), "dep": lambda e: V(call(g("HTMLDependency"), ["d", "1"])), "meta": lambda e: V(user("Meta")), "head_content": lambda e: V(call(g("head_content"), ["t"])), "jsx": lambda e: V(call(g("JSXTag", "htmltools._jsx"), ["Foo"])),
    "expand": lambda e: V(user("Expand", "x")), "both": lambda e: V(user("Both", "x", "y")), "fresh": lambda e: V(user("Fresh", "list")),
    "taglist": lambda e: V(tl("a", None, 3, tag("b"))), "mylist": lambda e: V(user("MyList", "a", tag("b"))), "empty taglist": lambda e: V(tl()), "list": lambda e: V(mklist(["a", None, 3, tag("b")])), "tuple": lambda e: V(("a", (None, mklist([tag("b"), e.sym("s")])), 2.5)), "empty list": lambda e: V(mklist([])), "empty tuple": lambda e: V(()), "list with selfie": lambda e: V(mklist([user("Selfie", "r"), "a"])),
    "html": lambda e: (lambda s: V(html(s), [Rendered(s)]))(e.sym("h")), "html empty": lambda e: V(html(""), [Rendered("")]), "selfie": lambda e: (lambda s: V(user("Selfie", s), [Rendered(s)]))(e.sym("r")), "selfie html": lambda e: (lambda s: V(user("Selfie", html(s)), [Rendered(s)]))(e.sym("r")), "falsy selfie": lambda e: V(user("FalsySelfie", "<i>"), [Rendered("<i>")]),
}
REJECT = {
    "object": lambda e: bad(user("Plain")), "strish": lambda e: bad(user("Strish")), "dict": lambda e: bad(mkdict([("a", "b")])), "empty dict": lambda e: bad(mkdict([])), "set": lambda e: bad(call(E.BUILTINS["set"], [mklist(["a"])])), "empty set": lambda e: bad(call(E.BUILTINS["set"], [])), "frozenset": lambda e: bad(call(E.BUILTINS["frozenset"], [mklist(["a"])])), "bytes": lambda e: bad(b"x"), "empty bytes": lambda e: bad(b""),
    "function": lambda e: bad(getattr_(E.MODULES["userland"], "plain_function")), "tag function": lambda e: bad(g("div")), "generator": lambda e: bad(user("gen", mklist(["a"]))), "iterable": lambda e: bad(user("Iterable", mklist(["a"]))), "range": lambda e: bad(call(E.BUILTINS["range"], [2])), "map": lambda e: bad(call(E.BUILTINS["map"], [E.BUILTINS["str"], mklist([1])])), "dict items": lambda e: bad(m(mkdict([("a", "b")]), "items")),
    "NotImplemented": lambda e: bad(E.BUILTINS["NotImplemented"]), "always equal": lambda e: bad(user("AlwaysEqual")), "never equal": lambda e: bad(user("NeverEqual")), "class": lambda e: bad(getattr_(E.MODULES["userland"], "Plain")), "document": lambda e: bad(call(g("HTMLDocument"), ["x"])), "list with object": lambda e: bad(mklist(["a", user("Plain")])), "tuple with dict": lambda e: bad((tag("b"), mklist([1, mkdict([("a", "b")])]))), "list with ellipsis": lambda e: bad(mklist(["a", E.BUILTINS["Ellipsis"]])),
    "broken": lambda e: V(user("Broken"), None, "ValueError"),
}
KINDS = {**GOOD, **REJECT}


# ------------------------------------------------------------------ machine
class SpecExc(Exception):
    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value


class Machine:
    """runs a program through the package and through the specification side by side"""

    def __init__(self, env, ntags=3, same=False, outer="opaque", outer_raises=(), kids=True, bare=False):
        self.env = env
        self.sys = E.import_module("sys")
        self.trail = []
        self.tags, self.kids = [], []
        for i in range(ntags):
            ks = ["k"] if kids else []
            a = [] if bare else [("id", "same" if same else f"t{i}")]
            self.tags.append(call(g("Tag"), ["p", *ks], a))
            self.kids.append(list(ks))
        self.active = [False] * ntags
        self.log = []  # (hook label, value): deliveries to foreign hooks
        self.want_log = []
        self.outer_raises = set(outer_raises)
        self.nforeign = 0
        fn = E.NativeF("outer hook", lambda v=None, *a: self.deliver("outer", v))
        if outer == "falsy":
            fn = user("Falsy", fn)
        elif outer == "method":
            fn = getattr_(user("Falsy", fn), "hook")
        elif outer == "truthy":
            fn = user("Truthy", fn)
        elif outer == "python":
            # Python's own hook is the one installed
            setattr_(self.sys, "__displayhook__", fn)
        elif outer == "lambda":
            fn = call(getattr_(E.MODULES["userland"], "hook_function"), [fn])
        self.hooks = {"outer": fn}
        setattr_(self.sys, "displayhook", fn)
        self.cur = "outer"  # label of the hook the specification has installed
        self.excs = {}

    def deliver(self, label, v):
        self.log.append((label, v))
        if (label, len([1 for l, _ in self.log if l == label])) in self.outer_raises:
            E.throw("RuntimeError", "hook refuses")

    def hook(self):
        return getattr_(self.sys, "displayhook")

    # ---- checks
    def what(self):
        return "after [" + "; ".join(self.trail) + "]"

    def check(self, when):
        for i, t in enumerate(self.tags):
            ch = getattr_(t, "children")
            if not isinstance(ch, E.Inst) or not ch.cls.issub(g("TagList")):
                raise Bad(f"{when} {self.what()}: the children of tag {i} are a {E.type_of(ch).name}", T.CUR_LOC[0])
            got = list(getattr_(ch, "data").data)
            same_nodes(got, self.kids[i], f"{when} {self.what()}: children of tag {i}")
        if len(self.log) != len(self.want_log) or any(a[0] != b[0] or not self.same_value(a[1], b[1]) for a, b in zip(self.log, self.want_log)):
            raise Bad(f"{when} {self.what()}: hooks received {self.fmt(self.log)}, expected {self.fmt(self.want_log)}", T.CUR_LOC[0] or at("Tag.__exit__"))

    def same_value(self, a, b):
        return a is b or T.is_s(a) and T.is_s(b) and T.norm(a) == T.norm(b)

    def fmt(self, log):
        return "[" + ", ".join(f"{l}: {self.name(v)}" for l, v in log) + "]"

    def name(self, v):
        for i, t in enumerate(self.tags):
            if t is v:
                return f"tag {i}"
        return brief([v])

    # ---- specification of one delivery to the hook labelled `label`
    def spec_deliver(self, label, value, nodes=None, raises=None):
        if isinstance(label, int):
            if raises:
                raise SpecExc(raises)
            self.kids[label].extend(nodes if nodes is not None else [value])
            return
        self.want_log.append((label, value))
        if (label, len([1 for l, _ in self.want_log if l == label])) in self.outer_raises:
            raise SpecExc("RuntimeError")

    # ---- programs
    def run(self, prog):
        for op in prog:
            self.step(op)

    def step(self, op):
        k = op[0]
        if k == "show":
            v = KINDS[op[1]](self.env)
            self.trail.append(f"display {op[1]}")
            self.both(lambda: call(self.hook(), [v.obj]), lambda: self.spec_show(v), f"displaying {op[1]}")
        elif k == "show tag":
            self.trail.append(f"display tag {op[1]}")
            t = self.tags[op[1]]
            self.both(lambda: call(self.hook(), [t]), lambda: self.spec_deliver(self.cur, t), f"displaying tag {op[1]}")
        elif k == "append":
            self.trail.append(f"tag {op[1]}.append({op[2]})")
            v = KINDS[op[2]](self.env)
            m(self.tags[op[1]], "append", v.obj)
            self.kids[op[1]].extend(expected([v.obj]))
            self.check("mid-block")
        elif k == "replace":
            self.trail.append(f"tag {op[1]} gets a new child list")
            setattr_(self.tags[op[1]], "children", tl("new"))
            self.kids[op[1]] = ["new"]
        elif k == "raise":
            self.trail.append(f"raise {op[1]}")
            v = E.Inst(E.EXC[op[1]] if op[1] in E.EXC else getattr_(E.MODULES["userland"], op[1]))
            v.attrs().set("args", ("body",))
            raise_both(v)
        elif k == "hook":
            self.nforeign += 1
            lab = f"foreign {self.nforeign}"
            self.trail.append("replace sys.displayhook")
            self.hooks[lab] = E.NativeF(lab, lambda v, lab=lab: self.deliver(lab, v))
            setattr_(self.sys, "displayhook", self.hooks[lab])
            self.cur = lab
        elif k == "unhook":
            # the body puts a hook back that was installed before
            self.trail.append("sys.displayhook = outer hook")
            setattr_(self.sys, "displayhook", self.hooks["outer"])
            self.cur = "outer"
        elif k == "try":
            try:
                self.trail.append("try")
                self.run(op[1])
                self.trail.append("no exception")
            except Raised:
                self.trail.append("caught")
            self.check("after try")
        elif k == "with":
            self.block(op[1], op[2], op[3] if len(op) > 3 else "with_block")
        elif k == "copy":
            # the copy (or expansion) of a tag is a tag of its own
            self.trail.append(f"{op[2]} of tag {op[1]}")
            t = self.tags[op[1]]
            c = call(getattr_(E.import_module("copy"), "copy"), [t]) if op[2] == "copy" else m(t, "tagify")
            if c is t:
                raise Bad(f"{op[2]} of a tag is the tag itself")
            self.tags.append(c)
            self.kids.append(list(self.kids[op[1]]))
            self.active.append(False)
            self.check("after copying")
        else:
            raise AssertionError(op)

    def spec_show(self, v):
        self.spec_deliver(self.cur, v.obj, v.nodes, v.raises)

    def both(self, real, spec, what):
        """perform an operation and compare with the specification; exceptions propagate to the body"""
        want = None
        try:
            spec()
        except SpecExc as e:
            want = e
        try:
            real()
        except Raised as e:
            if want is None:
                raise Bad(f"{what} {self.what()}: raises {e.value.cls.name}: {E.exc_text(e.value)}", e.loc)
            if not e.value.cls.issub(E.EXC[want.kind]):
                raise Bad(f"{what} {self.what()}: raises {e.value.cls.name}, expected {want.kind}", e.loc)
            self.check("after an exception")
            raise
        if want is not None:
            raise Bad(f"{what} {self.what()}: is accepted, expected {want.kind}", T.CUR_LOC[0])
        self.check("mid-block")

    def block(self, i, prog, style):
        t = self.tags[i]
        self.trail.append(f"with tag {i}:" if style == "with_block" else f"{style} tag {i}:")
        h0, cur0 = self.hook(), self.cur
        n = len(self.trail)
        entered = []

        def body(*_):
            entered.append(1)
            self.check("on entry")
            if self.active[i]:
                raise Bad(f"{self.what()}: tag {i} is entered although its block is still active", T.CUR_LOC[0])
            self.active[i] = True
            self.cur = i
            self.run(prog)
        inner = None
        try:
            if style == "direct":
                call(getattr_(t, "__enter__"), [])
                try:
                    body()
                except Raised as e:
                    r = call(getattr_(t, "__exit__"), [e.value.cls, e.value, E.traceback_of(e.value)])
                    if E.truth(r):
                        raise Bad(f"{self.what()}: the block swallows {e.value.cls.name}", T.CUR_LOC[0])
                    raise
                call(getattr_(t, "__exit__"), [None, None, None])
            elif style == "direct clean":
                call(getattr_(t, "__enter__"), [])
                body()
                call(getattr_(t, "__exit__"), [None, None, None])
            else:
                user(style, t, E.NativeF("body", self.keep(body)))
        except Raised as e:
            inner = e
        # ---- specification of the exit
        self.trail.append(f"end {i}" if inner is None else f"end {i} with {inner.value.cls.name}")
        if not entered:
            if not self.active[i]:
                raise inner and Bad(f"{self.what()}: entering raises {inner.value.cls.name}: {E.exc_text(inner.value)}", inner.loc) or Bad(f"{self.what()}: the body did not run")
            # refused entry: nothing changes
            if inner is None:
                raise Bad(f"{self.what()}: entering an active tag is skipped silently", T.CUR_LOC[0])
            self.same_hook(h0, "after a refused entry")
            self.check("after a refused entry")
            raise inner
        if len(entered) != 1:
            raise Bad(f"{self.what()}: the body ran {len(entered)} times")
        self.active[i] = False
        self.cur = cur0
        want = self.body_exc.pop() if style not in ("direct", "direct clean") else MISSING
        try:
            self.spec_deliver(cur0, t)
        except SpecExc as e:
            want = e
        self.same_hook(h0, "after the block")
        self.check("after the block")
        if isinstance(want, SpecExc):
            if inner is None or not inner.value.cls.issub(E.EXC[want.kind]):
                raise Bad(f"{self.what()}: the exception of the enclosing hook is lost", T.CUR_LOC[0])
        elif want is not MISSING:
            if want is None and inner is not None:
                raise Bad(f"{self.what()}: leaving the block raises {inner.value.cls.name}: {E.exc_text(inner.value)}", inner.loc)
            if want is not None and inner is None:
                raise Bad(f"{self.what()}: the block swallows {want.cls.name}", T.CUR_LOC[0] or at("Tag.__exit__"))
            if want is not None and inner.value is not want:
                raise Bad(f"{self.what()}: another exception comes out of the block: {inner.value.cls.name}: {E.exc_text(inner.value)}", inner.loc)
        if inner is not None:
            raise inner

    body_exc = ()

    def keep(self, body):
        """remember what the body raised"""
        if not isinstance(self.body_exc, list):
            self.body_exc = []

        def f(*a):
            try:
                body()
            except Raised as e:
                self.body_exc.append(e.value)
                raise
            self.body_exc.append(None)
        return f

    def same_hook(self, h0, when):
        h = self.hook()
        if h is not h0:
            raise Bad(f"{when} {self.what()}: sys.displayhook is not the hook installed when the block was entered", T.CUR_LOC[0] or at("Tag.__exit__"))

    def whole(self, prog):
        try:
            self.run(prog)
        except Raised:
            pass
        self.same_hook(self.hooks[self.cur], "at the end")
        self.check("at the end")
        # every tag can be entered again, on its own
        for i in range(len(self.tags)):
            if any(self.active):
                raise Bad("specification: a block is left active")
            self.trail.append("again")
            try:
                self.block(i, [("show", "empty tag")], "with_block")
            except Raised as e:
                if not E.exc_text(e.value) == "hook refuses":
                    raise


def raise_both(v):
    raise Raised(v)


def same_nodes(got, want, what):
    if len(got) != len(want):
        raise Bad(f"{what}: {brief(got)} instead of {brief_want(want)}", T.CUR_LOC[0])
    for i, (a, b) in enumerate(zip(got, want)):
        if isinstance(b, Rendered):
            if not isinstance(a, E.Inst) or a.cls is not g("HTML") or T.norm(getattr_(a, "data")) != T.norm(b.text):
                raise Bad(f"{what}: at place {i} {brief([a])} instead of HTML({T.show(b.text)!r})", T.CUR_LOC[0])
        elif is_num(b):
            if not T.is_s(a) or T.norm(a) != T.norm(E.str_(b)):
                raise Bad(f"{what}: number {b!r} at place {i} is stored as {brief([a])}", T.CUR_LOC[0])
        elif T.is_s(b):
            if not T.is_s(a) or T.norm(a) != T.norm(b):
                raise Bad(f"{what}: string {T.show(b)!r} at place {i} is stored as {brief([a])}", T.CUR_LOC[0])
        elif a is not b:
            raise Bad(f"{what}: at place {i} {brief([a])} instead of {brief([b])}", T.CUR_LOC[0])


def brief_want(xs):
    return brief([html(x.text) if isinstance(x, Rendered) else x for x in xs])


# ------------------------------------------------------------------ program enumeration
def programs(size, depth, ntags, leaves, used=0):
    """all programs with exactly `size` operations, tags numbered by first use"""
    if size == 0:
        yield [], used
        return
    for first, rest_size, u in first_ops(size, depth, ntags, leaves, used):
        if first[0] == "raise":
            if rest_size == 0:
                yield [first], u
            continue
        for rest, u2 in programs(rest_size, depth, ntags, leaves, u):
            yield [first, *rest], u2


def first_ops(size, depth, ntags, leaves, used):
    for lf in leaves:
        yield lf, size - 1, used
    if depth:
        for inner in range(0, size):
            for i in range(min(used + 1, ntags)):
                for p, u in programs(inner, depth - 1, ntags, leaves, max(used, i + 1)):
                    yield ("with", i, p), size - 1 - inner, u
    for inner in range(1, size):
        for p, u in programs(inner, depth, ntags, leaves, used):
            if any(may_raise(o) for o in p):
                yield ("try", p), size - 1 - inner, u


def may_raise(op):
    return op[0] == "raise" or op[0] == "with" or op[0] == "show" and op[1] in REJECT


def scenarios(tier):
    preload()
    out = []

    def add(n, f, **k):
        out.append(Scenario(n, f, **k))

    STYLES = ["with_block", "with_as", "with_return", "with_break", "with_continue", "with_finally", "with_generator", "direct"]
    EXCS = ["ValueError", "KeyboardInterrupt", "SystemExit", "GeneratorExit", "TypeError", "RuntimeError", "AssertionError", "Exception", "BaseException", "AttributeError", "KeyError"]
    HOOKS = ["opaque", "falsy", "method", "truthy", "python", "lambda"]

    # ---- every kind of value, in every place
    for kn in KINDS:
        def f(env, kn=kn):
            for prog in (
                [("with", 0, [("show", kn)])], [("with", 0, [("show", "tag"), ("show", kn), ("show", "1")])],
                [("with", 0, [("try", [("show", kn)]), ("show", kn), ("show", "tag")])], [("with", 0, [("with", 1, [("show", kn)]), ("show", "int")])],
                [("with", 0, [("show", "int"), ("with", 1, [("with", 2, [("show", kn), ("show", "none")]), ("show", kn)])])],
                [("with", 0, [("show", kn), ("try", [("show", "object")]), ("show", kn)])], [("try", [("with", 0, [("show", kn)])]), ("with", 0, [("show", kn)])],
            ):
                for kids in (True, False):
                    Machine(env, 3, kids=kids).whole(prog)
            for outer in HOOKS:
                Machine(env, 2, outer=outer).whole([("with", 0, [("with", 1, [("try", [("show", kn)])])])])
        add(f"value/{kn}", f)

    def pairs(env, a):
        """two values in a row keep their order and do not affect each other"""
        for b in KINDS:
            Machine(env, 2).whole([("with", 0, [("try", [("show", a)]), ("try", [("show", b)]), ("append", 0, "1"), ("try", [("show", a)])])])
    for a in KINDS:
        if a not in ("text", "tuple"):
            add(f"pair/{a}", lambda env, a=a: pairs(env, a))

    # ---- exceptions of every kind at every place, every form of with statement
    for st in STYLES:
        def f(env, st=st):
            for ex in EXCS:
                for prog in (
                    [("with", 0, [("raise", ex)], st)], [("with", 0, [("show", "1"), ("raise", ex)], st)], [("with", 0, [("with", 1, [("show", "tag"), ("raise", ex)], st)], st)],
                    [("with", 0, [("show", "1"), ("with", 1, [("show", "tag")], st), ("raise", ex)], st)], [("with", 0, [("try", [("with", 1, [("raise", ex)], st)]), ("show", "tag")], st), ("show", "tag")],
                    [("with", 0, [("with", 1, [("with", 2, [("show", "1"), ("raise", ex)], st)], st)], st)], [("try", [("with", 0, [("with", 1, [("raise", ex)], st)], st)]), ("with", 0, [("with", 1, [], st)], st)],
                    [("with", 0, [("hook",), ("raise", ex)], st)], [("with", 0, [("with", 1, [("hook",), ("show", "tag"), ("with", 2, [("raise", ex)], st)], st)], st)],
                ):
                    for same in (False, True):
                        Machine(env, 3, same=same).whole(prog)
            for prog in ([("with", 0, [], st)], [("with", 0, [("show", "1")], st), ("with", 0, [("show", "tag")], st)], [("with", 0, [("with", 1, [("show", "1")], st), ("with", 1, [("show", "tag")], st), ("show", "1")], st)], [("with", 0, [("with", 1, [("with", 2, [], st)], st), ("with", 2, [], st)], st)]):
                for outer in HOOKS:
                    Machine(env, 3, outer=outer).whole(prog)
        add(f"exceptions/{st}", f)

    # ---- every class of exception there is
    ALL = sorted({c.name: n for n, c in E.EXC.items()}) + ["OwnError", "OwnExit", "OwnStop"]

    def every(env, exs):
        for ex in exs:
            for prog in ([("with", 0, [("show", "1"), ("raise", ex)])], [("with", 0, [("with", 1, [("raise", ex)])])], [("with", 0, [("try", [("with", 1, [("show", "tag"), ("raise", ex)])]), ("show", "1")]), ("show", "tag")]):
                for st in ("with_block", "direct"):
                    Machine(env, 2).whole([(p[0], p[1], p[2], st) if p[0] == "with" else p for p in prog])
    for i in range(8):
        add(f"exceptions/every/{i}", lambda env, exs=ALL[i::8]: every(env, exs))

    # ---- re-entering an active tag
    def reenter(env, st):
        for prog in (
            [("with", 0, [("with", 0, [], st)], st)], [("with", 0, [("show", "1"), ("with", 0, [("show", "tag")], st), ("show", "tag")], st)], [("with", 0, [("try", [("with", 0, [("show", "1")], st)]), ("show", "tag")], st), ("show", "1")],
            [("with", 0, [("with", 1, [("with", 0, [], st)], st)], st)], [("with", 0, [("with", 1, [("try", [("with", 0, [], st)]), ("show", "1")], st), ("show", "tag")], st)], [("with", 0, [("with", 1, [("try", [("with", 0, [], st)]), ("try", [("with", 1, [], st)]), ("with", 2, [("try", [("with", 0, [], st)])], st)], st)], st)],
            [("with", 0, [("with", 1, [], st), ("try", [("with", 0, [], st)]), ("with", 1, [("show", "1")], st)], st)], [("try", [("with", 0, [("with", 0, [], st)], st)]), ("with", 0, [("show", "1")], st)], [("with", 0, [("hook",), ("try", [("with", 0, [], st)]), ("show", "1")], st)],
            [("with", 0, [("try", [("with", 0, [], st)]), ("try", [("with", 0, [], st)]), ("try", [("with", 0, [], st)])], st), ("with", 0, [("try", [("with", 0, [], st)])], st)],
            [("with", 0, [("try", [("with", 1, [("with", 0, [], st)], st)]), ("with", 1, [("show", "1")], st)], st)],
        ):
            for same in (False, True):
                for outer in HOOKS:
                    Machine(env, 3, same=same, outer=outer).whole(prog)
    for st in STYLES:
        add(f"reenter/{st}", lambda env, st=st: reenter(env, st))

    # ---- the enclosing hook fails on delivery
    def refusing(env, st):
        for k in (1, 2):
            for prog in (
                [("with", 0, [], st)], [("with", 0, [("show", "1")], st), ("with", 0, [("show", "tag")], st)], [("with", 0, [("raise", "ValueError")], st)], [("try", [("with", 0, [("with", 1, [("show", "1")], st)], st)]), ("with", 0, [("with", 1, [], st)], st)],
                [("try", [("with", 0, [], st)]), ("try", [("with", 1, [], st)]), ("with", 0, [("show", "1")], st)], [("with", 0, [("hook",), ("with", 1, [], st)], st)],
            ):
                for outer in HOOKS:
                    Machine(env, 3, outer=outer, outer_raises=[("outer", k), ("foreign 1", k)]).whole(prog)
    for st in STYLES:
        add(f"refusing/{st}", lambda env, st=st: refusing(env, st))

    # ---- a body that alters the tag, the child list or the hook
    def altered(env):
        for prog in (
            [("with", 0, [("append", 0, "1"), ("show", "tag"), ("append", 0, "tag"), ("show", "1")])], [("with", 0, [("show", "1"), ("replace", 0), ("show", "tag")])], [("with", 0, [("with", 1, [("append", 0, "1"), ("show", "tag")]), ("append", 1, "1")])],
            [("with", 0, [("with", 1, [("replace", 0), ("replace", 1), ("show", "1")]), ("show", "tag")])], [("with", 0, [("hook",), ("show", "object"), ("with", 1, [("show", "1")]), ("show", "tag")])],
            [("with", 0, [("with", 1, [("hook",), ("hook",), ("show", "1")]), ("show", "1")])], [("with", 0, [("show tag", 1), ("with", 1, [("show", "1")]), ("show tag", 1)])], [("with", 0, [("with", 1, []), ("with", 1, []), ("show tag", 1)])],
            [("with", 0, [("unhook",), ("try", [("with", 0, [("show", "1")])]), ("show", "1")])], [("with", 0, [("with", 1, [("unhook",), ("try", [("with", 0, [])]), ("try", [("with", 1, [])])]), ("show", "1")])], [("with", 0, [("show", "1"), ("unhook",), ("with", 1, [("show", "1")]), ("raise", "ValueError")])],
            [("hook",), ("with", 0, [("hook",), ("with", 1, [("hook",)]), ("show", "1")])],
        ):
            for same in (False, True):
                Machine(env, 3, same=same).whole(prog)
    add("altered", altered)

    # ---- copies and expansions of tags with an active block
    def copies(env, how):
        for prog in (
            [("copy", 0, how), ("with", 2, [("show", "1")])], [("with", 0, [("show", "1"), ("copy", 0, how), ("with", 2, [("show", "tag")]), ("show", "int")])], [("with", 0, [("copy", 0, how)]), ("with", 2, [("show", "1")]), ("with", 0, [])],
            [("with", 0, [("with", 1, [("copy", 0, how), ("copy", 1, how), ("with", 2, [("with", 3, [("show", "1")])])])])], [("with", 0, [("show", "tag")]), ("copy", 0, how), ("with", 2, [("with", 0, [("show", "1")]), ("try", [("with", 2, [])])])],
        ):
            Machine(env, 2).whole(prog)
    add("copies/copy", lambda env: copies(env, "copy"))

    def tagified(env):
        """the expansion of an active tag can be entered; it does not end or disturb the block"""
        for depth in (1, 2):
            mc = Machine(env, 2)
            t = mc.tags[0]

            def body():
                c = m(t, "tagify")
                h = mc.hook()
                r = E.NativeF("body", lambda: call(mc.hook(), ["in copy"]))
                user("with_block", c, r)
                if mc.hook() is not h:
                    raise Bad("after the block of an active tag's expansion sys.displayhook is another")
                same_nodes(list(getattr_(getattr_(c, "children"), "data").data), ["k", "in copy"], "children of the expansion")
                same_nodes(list(getattr_(getattr_(t, "children"), "data").data), ["k", c], "children of the tag")
            h0 = mc.hook()
            try:
                user("with_block", t, E.NativeF("body", body))
            except Raised as e:
                raise Bad(f"the expansion of a tag with an active block cannot be entered: {E.exc_text(e.value)}", e.loc)
            if mc.hook() is not h0 or len(mc.log) != 1 or mc.log[0][1] is not t:
                raise Bad("the block of a tag whose expansion was entered ends wrongly")
    add("copies/tagify", tagified)

    # ---- two context managers in one statement
    def pair_stmt(env):
        for ex in (None, "ValueError", "GeneratorExit"):
            for same in (False, True):
                mc = Machine(env, 2, same=same)
                a, b = mc.tags

                def body():
                    call(mc.hook(), [1])
                    if ex:
                        E.throw(ex, "body")
                h0 = mc.hook()
                try:
                    user("with_pair", a, b, E.NativeF("body", body))
                except Raised as e:
                    if not ex or e.value.cls is not E.EXC[ex]:
                        raise Bad(f"with a, b: raises {e.value.cls.name}", e.loc)
                else:
                    if ex:
                        raise Bad(f"with a, b: swallows {ex}", T.CUR_LOC[0])
                if mc.hook() is not h0:
                    raise Bad("after with a, b: sys.displayhook is another", T.CUR_LOC[0])
                mc.kids[1].append("1")
                mc.kids[0].append(b)
                mc.want_log.append(("outer", a))
                mc.check("after with a, b")
                # entering the same tag twice in one statement
                try:
                    user("with_pair", a, a, E.NativeF("body", lambda: None))
                except Raised as e:
                    pass
                else:
                    raise Bad("with a, a: is accepted", T.CUR_LOC[0])
                mc.want_log.append(("outer", a))
                if mc.hook() is not h0:
                    raise Bad("after with a, a: sys.displayhook is another", T.CUR_LOC[0])
                mc.check("after with a, a")
    add("pair-statement", pair_stmt)

    # ---- different kinds of tags as context managers
    def kinds(env):
        for mk in (lambda: user("MyTag", "q", "k"), lambda: call(g("div"), ["k"]), lambda: call(g("span"), ["k"]), lambda: call(g("Tag"), ["script", "k"]), lambda: call(g("Tag"), ["br", "k"]), lambda: call(g("Tag"), ["p", "k"], [("_add_ws", False)])):
            for prog in ([("with", 0, [("show", "1"), ("with", 1, [("show", "tag"), ("show", "object")])])], [("with", 0, [("with", 0, [])])], [("with", 0, []), ("with", 0, [("raise", "KeyboardInterrupt")])]):
                mc = Machine(env, 2)
                mc.tags = [mk(), mk()]
                mc.whole(prog)
    add("tag-kinds", kinds)

    # ---- the exported wrapper
    def wrapper(env, kn, fails):
        v = KINDS[kn](env)
        seen = []

        def h(x):
            seen.append(x)
            if fails:
                E.throw("KeyError", "handler")
            return "handler result"
        w = call(g("wrap_displayhook_handler"), [E.NativeF("handler", h)])
        for n in (1, 2):
            try:
                call(w, [v.obj])
            except Raised as e:
                if v.raises == "ValueError" and e.value.cls is E.EXC["ValueError"]:
                    if seen:
                        raise Bad(f"the wrapper forwards an object whose _repr_html_ fails: {brief(seen)}", T.CUR_LOC[0])
                    return
                if not (fails and e.value.cls is E.EXC["KeyError"]):
                    raise Bad(f"the wrapper raises {e.value.cls.name} for {kn}: {E.exc_text(e.value)}", e.loc)
            else:
                if fails and seen or v.raises == "ValueError":
                    raise Bad(f"the wrapper swallows the error of its handler ({kn})", T.CUR_LOC[0])
            if v.obj is None or v.obj is E.BUILTINS["Ellipsis"]:
                if seen:
                    raise Bad(f"the wrapper forwards {kn}: {brief(seen)}", T.CUR_LOC[0])
                continue
            if len(seen) != n:
                raise Bad(f"the wrapper called its handler {len(seen)} times for {n} {kn}", T.CUR_LOC[0])
            x = seen[-1]
            if v.nodes and isinstance(v.nodes[0], Rendered):
                same_nodes([x], v.nodes, f"forwarded for {kn}")
            elif x is not v.obj and not (T.is_s(x) and T.is_s(v.obj) and T.norm(x) == T.norm(v.obj)):
                raise Bad(f"the wrapper forwards {brief([x])} for {kn}", T.CUR_LOC[0])
    for kn in KINDS:
        for fails in (False, True):
            add(f"wrapper/{kn}/{'failing' if fails else 'plain'}", lambda env, kn=kn, fails=fails: wrapper(env, kn, fails))

    # ---- long and deep histories
    def deep(env, n, ex):
        prog = [("show", "1")] + ([("raise", ex)] if ex else [])
        for i in reversed(range(n)):
            prog = [("with", i, prog)]
        Machine(env, n, same=True).whole(prog)
        body = [("show", "1" if i % 3 else "tag") for i in range(n)]
        Machine(env, 2).whole([("with", 0, body + [("raise", ex)] if ex else body)])
        Machine(env, 2).whole([("with", 0, [("with", 1, []) for _ in range(n)])])
        Machine(env, 2).whole([("try", [("with", 0, [("with", 1, [("raise", ex)] if ex else [])])])] * n)
    for th in sorted({3, 6} | {t for t in int_thresholds((CORE,)) if t <= 40}):
        for ex in (None, "ValueError"):
            add(f"deep/{th}/{ex}", lambda env, th=th, ex=ex: deep(env, th + 1, ex))

    # ---- all programs up to a size
    leaves = [("show", "1"), ("show", "object"), ("raise", "ValueError"), ("hook",), ("unhook",)]
    buckets = {}
    top = 6 if tier == "thorough" else 5
    for size in range(1, top + 1):
        for i, (p, _) in enumerate(programs(size, 3, 3, leaves if size < top else [("show", "1"), ("raise", "ValueError")])):
            if not has_with(p):
                continue
            buckets.setdefault((size, i % 64), []).append(p)

    def enum(env, ps):
        for p in ps:
            Machine(env, 3, kids=False, bare=True).whole(p)
    for (size, b), ps in sorted(buckets.items()):
        for j in range(0, len(ps), 60):
            add(f"programs/{size}/{b}/{j}", lambda env, ps=ps[j:j + 60]: enum(env, ps))
    return out


def at(name):
    """source position of a function of the package"""
    f = g(name)
    line = next((ln for (d, q), ln in functions_index().items() if q == name), 0)
    return (CORE, line, name)


def has_with(p):
    return any(o[0] == "with" or o[0] == "try" and has_with(o[1]) for o in p)


PROP = Prop(
    "C17", "Tag context manager restores the display hook and collects children in order",
    "typestate of sys.displayhook: on every exit edge of a with block (fall through, return, break, continue, any exception, refusing enclosing hook) the hook is the object found on entry; the tag is delivered exactly once to it; the children after every step equal the specified ones; entering an active tag raises and changes nothing; the state after a block is the state before it, so the claim is inductive over histories",
    [("htmltools", "Tag.__enter__"), ("htmltools", "Tag.__exit__"), ("htmltools", "wrap_displayhook_handler")], scenarios,
    assumptions=["blocks nest (with statements); __exit__ is called once per successful __enter__, in reverse order", "an exception leaves the block unchanged (with statement semantics of an __exit__ that does not suppress it)"],
    bounds="all programs of up to 5 operations (6 thorough) over display/reject/raise/replace hook/try/with on 3 tags of nesting depth 3; 55 kinds of values; 11 exception classes x 8 forms of the with statement; enclosing hooks: opaque, refusing, falsy, bound method",
)
