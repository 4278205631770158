"""Abstract interpreter for the Python subset used by the analysed package.

Nothing of the analysed package is imported: its modules (and the few
pure-Python stdlib classes it derives from) are parsed with `ast`, compiled to
closures over the abstract domain of `terms.py` and evaluated over an abstract
heap.  Branches on unknown facts partition the trace (see terms.Path).
"""
from __future__ import annotations

import ast
import os
import sys

from . import terms as T
from .terms import (BoolV, BytesV, CUR_LOC, Infeasible, LenV, Lin, NeedChars, Num, P, PathLimit, Str, Unsupported)

sys.setrecursionlimit(12000)


class Raised(Exception):
    """an exception of the analysed program"""

    def __init__(self, value, loc=None):
        super().__init__()
        self.value = value
        self.loc = loc or CUR_LOC[0]
        self.tb = list(STACK)

    def __str__(self):
        return f"{self.value.cls.name}: {exc_text(self.value)} at {loc_str(self.loc)}"


STACK = []  # names of active analysed functions
LAST_FUNC = [None]
COVER = set()  # (file, qualname) of functions reached
STMTS = [0]
LOADING = [False]
LOAD_NOTES = []
MAX_STEPS = 400000


def loc_str(loc):
    if not loc:
        return "?"
    return f"{loc[0]}:{loc[1]} ({loc[2]})"


# ------------------------------------------------------------------ heap
class DictData:
    __slots__ = ("e", "nsym", "owner")

    def __init__(self, owner=None):
        self.e = {}
        self.nsym = 0
        self.owner = owner

    def find(self, key):
        tok = token(key)
        if tok in self.e:
            return tok
        t = text_of(key)
        if t is not None:
            sym = T.const(t) is None
            if sym or self.nsym:
                for tk, (k, _) in list(self.e.items()):
                    kt = text_of(k)
                    if kt is None:
                        continue
                    if (sym or isinstance(kt, Str)) and T.eq(kt, t):
                        return tk
        return None

    def get(self, key, default=None):
        tk = self.find(key)
        return default if tk is None else self.e[tk][1]

    def has(self, key):
        return self.find(key) is not None

    def set(self, key, val):
        tk = self.find(key)
        if tk is not None:
            self.e[tk] = [self.e[tk][0], val]
        else:
            t = text_of(key)
            if t is not None and T.const(t) is None:
                self.nsym += 1
            self.e[token(key)] = [key, val]

    def delete(self, key):
        tk = self.find(key)
        if tk is None:
            return False
        del self.e[tk]
        return True

    def keys(self):
        return [k for k, _ in self.e.values()]

    def values(self):
        return [v for _, v in self.e.values()]

    def items(self):
        return [(k, v) for k, v in self.e.values()]

    def copy(self):
        d = DictData()
        d.e = {t: list(kv) for t, kv in self.e.items()}
        d.nsym = self.nsym
        return d

    def __len__(self):
        return len(self.e)


class Inst:
    __slots__ = ("cls", "d", "data", "base", "tag", "loc")

    def __init__(self, cls, data=None):
        self.cls = cls
        self.d = None
        self.data = data
        self.base = LOADING[0]
        self.tag = None
        self.loc = CUR_LOC[0]

    def attrs(self):
        if self.d is None:
            self.d = DictData(self)
        return self.d

    def __repr__(self):
        return f"<{self.cls.name}{' ' + self.tag if self.tag else ''}>"

    def freeze(self):
        if isinstance(self.data, (str, Str)):
            return ("S", T.norm(self.data))
        return ("id", id(self))


class ClassV:
    def __init__(self, name, bases, ns=None, module="builtins", native=False):
        self.name = name
        self.bases = list(bases)
        self.ns = ns if ns is not None else {}
        self.module = module
        self.native = native
        self.protocol = False
        self.flags = set()
        self.fields = []
        self.base = LOADING[0]
        self.mro = c3(self)
        self._sub = {}
        self.loc = CUR_LOC[0]
        self.registered = []

    def __repr__(self):
        return f"<class {self.name}>"

    def issub(self, other):
        return other in self.mro

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name]
        return None

    def freeze(self):
        return ("class", self.name, id(self))


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unsupported("inconsistent MRO")
        out.append(h)
        for s in seqs:
            if s[0] is h:
                del s[0]


class FuncV:
    __slots__ = ("node", "name", "qual", "mod", "env", "defaults", "kwdefaults", "code", "cls", "d", "base", "isgen", "doc")

    def __init__(self):
        self.d = None
        self.base = LOADING[0]
        self.cls = None

    def attrs(self):
        if self.d is None:
            self.d = DictData(self)
        return self.d

    def __repr__(self):
        return f"<function {self.qual}>"


class NativeF:
    __slots__ = ("name", "fn", "rawkw", "static", "d", "base")

    def __init__(self, name, fn, rawkw=False, static=False):
        self.name = name
        self.fn = fn
        self.rawkw = rawkw
        self.static = static
        self.d = None
        self.base = True

    def attrs(self):
        if self.d is None:
            self.d = DictData(self)
        return self.d

    def __repr__(self):
        return f"<native {self.name}>"


class BoundM:
    __slots__ = ("self", "func")

    def __init__(self, self_, func):
        self.self = self_
        self.func = func

    def __repr__(self):
        return f"<bound {self.func} of {self.self!r}>"


class StaticM:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class ClassM:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class PropertyV:
    __slots__ = ("fget", "fset", "fdel", "cached")

    def __init__(self, fget=None, fset=None, fdel=None, cached=None):
        self.fget, self.fset, self.fdel, self.cached = fget, fset, fdel, cached


class SuperV:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class AliasV:
    """parametrised generic: C[...]"""

    __slots__ = ("origin", "args")

    def __init__(self, origin, args=()):
        self.origin, self.args = origin, args


class UnionV:
    __slots__ = ("args",)

    def __init__(self, args):
        self.args = args


class ModV:
    def __init__(self, name, ns=None, loader=None):
        self.name = name
        self.ns = ns if ns is not None else {}
        self.base = True
        self.file = None
        self.dyn = loader
        self.shadow = None

    def __repr__(self):
        return f"<module {self.name}>"


class Unk:
    """an object of an unmodelled library: any use is undecided"""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<unmodelled {self.name}>"


class IterV:
    """iterator / generator object"""

    __slots__ = ("it", "gen", "name", "closed")

    def __init__(self, it, gen=False, name="iterator"):
        self.it = it
        self.gen = gen
        self.name = name
        self.closed = False


class ViewV:
    __slots__ = ("kind", "inst")

    def __init__(self, kind, inst):
        self.kind, self.inst = kind, inst


class HashV:
    __slots__ = ("tok",)

    def __init__(self, tok):
        self.tok = tok

    def freeze(self):
        return ("hash", repr(self.tok), P().nd)


# object identities as numbers: after id_barrier() the objects seen so far are dead (unless
# the package still holds them) and their numbers are handed out again
IDS = {}  # id(v) -> (v, token)
ID_COUNT = {}
ID_DEAD = []


def obj_id(v):
    P().nd_used.add(("id", CUR_LOC[0]))
    e = IDS.get(id(v))
    if e is None:
        if getattr(v, "base", False):
            tok = ("base", type_of(v).name, id(v))
        else:
            c = type_of(v).name
            n = ID_COUNT.get(c, 0)
            ID_COUNT[c] = n + 1
            tok = (c, n)
        e = IDS[id(v)] = (v, tok)
    return ("id", *e[1], P().nd)


def id_reset():
    IDS.clear()
    ID_COUNT.clear()
    ID_DEAD.clear()


def id_barrier():
    alive = set()

    def walk(x):
        if isinstance(x, (str, int, float, bytes, Str)) or x is None or id(x) in alive:
            return
        alive.add(id(x))
        if isinstance(x, Inst):
            if x.d is not None:
                for k in list(x.d.keys()):
                    walk(x.d.get(k))
            walk(x.data)
        elif isinstance(x, DictData):
            for k, v in x.e.values():
                walk(k)
                walk(v)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
        elif isinstance(x, (ModV, ClassV)):
            for y in list(x.ns.values()):
                walk(y)
    for obj, _ in list(JOURNAL.saved.values()):
        walk(obj)
    kept = {k: e for k, e in IDS.items() if k in alive or getattr(e[0], "base", False)}
    ID_DEAD.append(dict(IDS))
    IDS.clear()
    IDS.update(kept)
    ID_COUNT.clear()
    for v, tok in kept.values():
        if tok[0] != "base":
            ID_COUNT[tok[0]] = max(ID_COUNT.get(tok[0], 0), tok[1] + 1)


class Frame:
    __slots__ = ("vars", "outer", "mod", "code", "func", "base", "cls", "args0", "handled")

    def __init__(self, code, mod, outer, func=None):
        self.vars = {}
        self.outer = outer
        self.mod = mod
        self.code = code
        self.func = func
        self.base = LOADING[0]
        self.cls = None
        self.args0 = None
        self.handled = None


# ------------------------------------------------------------------ journal
class Journal:
    def __init__(self):
        self.saved = {}

    def save(self, obj):
        k = id(obj)
        if k in self.saved:
            return
        if isinstance(obj, Inst):
            st = (obj.cls, obj.d, obj.d.copy() if obj.d is not None else None, obj.data,
                  obj.data.copy() if isinstance(obj.data, DictData) else (list(obj.data) if isinstance(obj.data, list) else None))
        elif isinstance(obj, ClassV):
            st = dict(obj.ns)
        elif isinstance(obj, ModV):
            st = dict(obj.ns)
        elif isinstance(obj, Frame):
            st = dict(obj.vars)
        elif isinstance(obj, (FuncV, NativeF)):
            st = (obj.d, obj.d.copy() if obj.d is not None else None)
        else:
            return
        self.saved[k] = (obj, st)

    def restore(self):
        for obj, st in self.saved.values():
            if isinstance(obj, Inst):
                cls, d, dc, data, datac = st
                obj.cls = cls
                obj.d = d
                if d is not None:
                    d.e, d.nsym = dc.e, dc.nsym
                obj.data = data
                if isinstance(data, DictData):
                    data.e, data.nsym = datac.e, datac.nsym
                elif isinstance(data, list):
                    data[:] = datac
            elif isinstance(obj, (ClassV, ModV)):
                obj.ns.clear()
                obj.ns.update(st)
            elif isinstance(obj, Frame):
                obj.vars = st
            else:
                d, dc = st
                obj.d = d
                if d is not None:
                    d.e, d.nsym = dc.e, dc.nsym
        self.saved = {}


JOURNAL = Journal()
WRITES = []  # (object, what, loc) when logging
LOG_WRITES = [False]
PROBING = [None]  # the lists a loop over characters may write while its images are found


def touch(obj, what=""):
    """every heap write of the analysed program goes through here"""
    if isinstance(obj, Inst) and isinstance(obj.data, DictData) and obj.data.owner is not None:
        obj = obj.data.owner
    if PROBING[0] is not None and id(obj) not in PROBING[0]:
        from .charloop import Abort

        raise Abort
    if getattr(obj, "base", False) and not LOADING[0]:
        JOURNAL.save(obj)
    if LOG_WRITES[0]:
        WRITES.append((obj, what, CUR_LOC[0]))


# ------------------------------------------------------------------ builtin classes
OBJECT = ClassV("object", [], native=True)


def _nc(name, *bases, module="builtins"):
    return ClassV(name, bases or [OBJECT], native=True, module=module)


TYPE = _nc("type")
NONETYPE = _nc("NoneType")
INT = _nc("int")
BOOL = _nc("bool", INT)
FLOAT = _nc("float")
COMPLEX = _nc("complex")
STR = _nc("str")
BYTES = _nc("bytes")
TUPLE = _nc("tuple")
LIST = _nc("list")
DICT = _nc("dict")
SET = _nc("set")
FROZENSET = _nc("frozenset")
FUNCTION = _nc("function")
METHOD = _nc("method")
BUILTIN = _nc("builtin_function_or_method")
MODULE = _nc("module")
RANGE = _nc("range")
SLICE = _nc("slice")
ELLIPSIS = _nc("ellipsis")
NOTIMPL = _nc("NotImplementedType")
ITERATOR = _nc("iterator")
GENERATOR = _nc("generator")
VIEW = _nc("dict_view")
PROPERTY = _nc("property")
STATICMETHOD = _nc("staticmethod")
CLASSMETHOD = _nc("classmethod")
SUPER = _nc("super")
UNKCLS = _nc("unknown")

EXC = {}


def _mk_exc(e):
    if e.__name__ in EXC:
        return EXC[e.__name__]
    base = OBJECT if e is BaseException else _mk_exc(e.__base__)
    c = ClassV(e.__name__, [base], native=True)
    EXC[e.__name__] = c
    return c


import builtins as _bi

for _n in dir(_bi):
    _o = getattr(_bi, _n)
    if isinstance(_o, type) and issubclass(_o, BaseException):
        _mk_exc(_o)
EXC["IOError"] = EXC["OSError"]
EXC["EnvironmentError"] = EXC["OSError"]


def throw(name, *args):
    c = EXC[name] if isinstance(name, str) else name
    v = Inst(c)
    v.attrs().set("args", tuple(args))
    raise Raised(v)


def exc_text(v):
    a = v.attrs().get("args", ())
    out = []
    for x in a if isinstance(a, tuple) else ():
        out.append(T.show(x) if T.is_s(x) else repr(x))
    return ", ".join(out)


def is_exc(v, name):
    return isinstance(v, Inst) and v.cls.issub(EXC[name])


# ------------------------------------------------------------------ helpers
def mklist(xs=()):
    return Inst(LIST, list(xs))


def mkdict(items=()):
    d = Inst(DICT, DictData())
    for k, v in items:
        d.data.set(k, v)
    return d


def mkset(xs=(), cls=None):
    d = Inst(cls or SET, DictData())
    for k in xs:
        d.data.set(k, None)
    return d


def text_of(v):
    """str/Str for a string (or str-subclass instance), else None"""
    if isinstance(v, (str, Str)):
        return v
    if isinstance(v, Inst) and isinstance(v.data, (str, Str)) and v.cls.issub(STR):
        return v.data
    return None


def type_of(v):
    if isinstance(v, Inst):
        return v.cls
    if v is None:
        return NONETYPE
    if isinstance(v, (bool, BoolV)):
        return BOOL
    if isinstance(v, (int, Lin, LenV, HashV)):
        return INT
    if isinstance(v, float):
        return FLOAT
    if isinstance(v, Num):
        return INT if v.kind == "int" else FLOAT
    if isinstance(v, (str, Str)):
        return STR
    if isinstance(v, (bytes, BytesV)):
        return BYTES
    if isinstance(v, tuple):
        return TUPLE
    if isinstance(v, FuncV):
        return FUNCTION
    if isinstance(v, BoundM):
        return METHOD
    if isinstance(v, NativeF):
        return BUILTIN
    if isinstance(v, ClassV):
        return v.ns.get("__metaclass__", TYPE) if False else TYPE
    if isinstance(v, ModV):
        return MODULE
    if isinstance(v, range):
        return RANGE
    if isinstance(v, slice):
        return SLICE
    if v is Ellipsis:
        return ELLIPSIS
    if v is NotImplemented:
        return NOTIMPL
    if isinstance(v, IterV):
        return GENERATOR if v.gen else ITERATOR
    if isinstance(v, ViewV):
        return VIEW
    if isinstance(v, PropertyV):
        return PROPERTY
    if isinstance(v, StaticM):
        return STATICMETHOD
    if isinstance(v, ClassM):
        return CLASSMETHOD
    if isinstance(v, SuperV):
        return SUPER
    if isinstance(v, complex):
        return COMPLEX
    return UNKCLS


def unk(v):
    if isinstance(v, Unk):
        raise Unsupported(f"use of unmodelled {v.name}")
    return v


def token(key):
    t = text_of(key)
    if t is not None:
        if isinstance(key, Inst) and isinstance(key.cls.lookup("__hash__"), FuncV):
            pass
        c = T.const(t)
        return ("s", c) if c is not None else ("S", T.norm(t))
    if isinstance(key, (bool, int, float)):
        return ("n", key)
    if isinstance(key, BoolV):
        return ("n", truth(key))
    if key is None or key is Ellipsis or key is NotImplemented:
        return ("c", repr(key))
    if isinstance(key, tuple):
        return ("t",) + tuple(token(k) for k in key)
    if isinstance(key, Lin):
        c = T.lin_const(key)
        return ("n", c) if c is not None else ("lin", key.sym, key.k)
    if isinstance(key, Num):
        return ("num", key.name)
    if isinstance(key, (bytes, BytesV)):
        return ("b", T.freeze(key))
    if isinstance(key, LenV):
        return ("len", T.norm(key.s))
    if isinstance(key, HashV):
        return ("hash", key.tok)
    if isinstance(key, Inst):
        if key.cls in (LIST, DICT, SET):
            throw("TypeError", f"unhashable type: '{key.cls.name}'")
        for c in key.cls.mro:
            if "__hash__" in c.ns:
                h = c.ns["__hash__"]
                if h is None:
                    throw("TypeError", f"unhashable type: '{key.cls.name}'")
                if c is OBJECT:
                    break
                if isinstance(h, FuncV):
                    r = call(h, [key])
                    if isinstance(r, HashV):
                        return r.tok
                    return ("h", T.freeze(r), )
                break
            if "__eq__" in c.ns and c is not OBJECT:
                if c in (LIST, DICT, SET):
                    throw("TypeError", f"unhashable type: '{key.cls.name}'")
                if not c.native:
                    throw("TypeError", f"unhashable type: '{key.cls.name}'")
        if key.cls is FROZENSET:
            return ("fs",) + tuple(sorted(map(repr, key.data.e)))
        if isinstance(key.data, tuple):
            return token(key.data)
        return ("i", id(key))
    if isinstance(key, BoundM):
        return ("bm", token(key.self), id(key.func))
    if isinstance(key, (ViewV, slice)):
        throw("TypeError", "unhashable type")
    unk(key)
    return ("i", id(key))


# ------------------------------------------------------------------ truth
def truth(v):
    if v is True or v is False:
        return v
    if v is None:
        return False
    if isinstance(v, (str, int, float, bytes, tuple, range)):
        return bool(v)
    if isinstance(v, Str):
        return T.nonempty(v)
    if isinstance(v, BoolV):
        return P().decide(("b", v.name))
    if isinstance(v, Lin):
        return T.lin_cmp(v, "!=", 0)
    if isinstance(v, Num):
        return P().decide(("nz", v.name))
    if isinstance(v, LenV):
        return T.nonempty(v.s)
    if isinstance(v, BytesV):
        return T.nonempty(v.s)
    if isinstance(v, Inst):
        m = v.cls.lookup("__bool__")
        if m is not None:
            return truth(call_method(m, v))
        m = v.cls.lookup("__len__")
        if m is not None:
            r = call_method(m, v)
            return truth(r)
        return True
    if isinstance(v, ViewV):
        return len(v.inst.data) > 0
    unk(v)
    return True


def call_method(m, self_, *args):
    """call a raw class attribute as a method of self_"""
    if isinstance(m, (FuncV, NativeF)):
        return call(m, [self_, *args])
    return call(bind(m, self_, type_of(self_)), list(args))


def is_(a, b):
    if a is b:
        return True
    if isinstance(a, BoolV) and isinstance(b, bool):
        return truth(a) == b
    if isinstance(b, BoolV) and isinstance(a, bool):
        return truth(b) == a
    if isinstance(a, BoolV) and isinstance(b, BoolV):
        return a.name == b.name
    if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
        return False
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, BoundM) and isinstance(b, BoundM):
        return False
    if isinstance(a, AliasV) and isinstance(b, AliasV):
        return a.origin is b.origin
    ta, tb = (a if T.is_s(a) else None), (b if T.is_s(b) else None)
    if ta is not None and tb is not None:
        return T.same(ta, tb)
    if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is DICT and b.cls is DICT:
        return a.data is b.data
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a == b == ()
    return False


# ------------------------------------------------------------------ attribute access
def bind(attr, obj, cls):
    if isinstance(attr, FuncV):
        return BoundM(obj, attr) if obj is not None else attr
    if isinstance(attr, NativeF):
        if attr.static or obj is None:
            return attr
        return BoundM(obj, attr)
    if isinstance(attr, StaticM):
        return attr.f
    if isinstance(attr, ClassM):
        return BoundM(cls, attr.f)
    if isinstance(attr, PropertyV):
        if obj is None:
            return attr
        if attr.cached:
            if isinstance(obj, Inst) and obj.attrs().has(attr.cached):
                return obj.attrs().get(attr.cached)
            r = call(attr.fget, [obj])
            touch(obj, attr.cached)
            obj.attrs().set(attr.cached, r)
            return r
        if attr.fget is None:
            throw("AttributeError", "unreadable attribute")
        return call(attr.fget, [obj])
    if isinstance(attr, Inst):
        g = attr.cls.lookup("__get__")
        if g is not None:
            return call_method(g, attr, obj, cls)
    return attr


_MISSING = object()


def no_dict(cls):
    """class whose instances have no __dict__ (all layers slotted)"""
    return all(c.native or "__slots__" in c.ns for c in cls.mro) and any("__slots__" in c.ns for c in cls.mro)


def has_instdict(v):
    return isinstance(v, Inst) and not (v.cls in (LIST, DICT, SET, FROZENSET, OBJECT)) and not no_dict(v.cls)


def getattr_(v, name, default=_MISSING):
    r = _getattr(v, name)
    if r is not _MISSING:
        return r
    if isinstance(v, Inst):
        ga = v.cls.lookup("__getattr__")
        if ga is not None:
            if default is _MISSING:
                return call_method(ga, v, name)
            try:
                return call_method(ga, v, name)
            except Raised as e:
                if is_exc(e.value, "AttributeError"):
                    return default
                raise
    unmodelled(v, name)
    if default is not _MISSING:
        return default
    throw("AttributeError", f"'{type_of(v).name}' object has no attribute '{name}'")


def _host_types():
    import builtins
    import collections
    import inspect
    import pathlib
    import re as _re
    t = {k: (x,) for k, x in vars(builtins).items() if isinstance(x, type)}
    t["dict_view"] = tuple(type(f({})) for f in (dict.keys, dict.items, dict.values))
    t["Path"] = t["PosixPath"] = (pathlib.PosixPath,)
    t["Match"], t["Pattern"] = (_re.Match,), (_re.Pattern,)
    t["deque"], t["Counter"], t["OrderedDict"], t["defaultdict"] = (collections.deque,), (collections.Counter,), (collections.OrderedDict,), (collections.defaultdict,)
    t["function"], t["generator"] = (type(inspect.isclass),), (type(x for x in ()),)
    return t


HOST_TYPES = {}


def unmodelled(v, name):
    """an attribute that Python's own type has and this model of it lacks decides nothing"""
    if not HOST_TYPES:
        HOST_TYPES.update(_host_types())
    t = type_of(v)
    for c in t.mro:
        if c.native and any(hasattr(h, name) for h in HOST_TYPES.get(c.name, ())) and c.name != "object" and not hasattr(object, name):
            raise Unsupported(f"{c.name}.{name} is not modelled")


def _getattr(v, name):
    if isinstance(v, Inst):
        gab = v.cls.lookup("__getattribute__")
        if isinstance(gab, FuncV):
            try:
                return call(gab, [v, name])
            except Raised as e:
                if is_exc(e.value, "AttributeError"):
                    return _MISSING
                raise
        return inst_getattr(v, name)
    if isinstance(v, ClassV):
        return class_getattr(v, name)
    if isinstance(v, ModV):
        if name in v.ns:
            return v.ns[name]
        if name == "__dict__":
            raise Unsupported("module __dict__")
        if name == "__name__":
            return v.name
        if v.dyn is not None:
            return v.dyn(name)
        ga = v.ns.get("__getattr__")
        if ga is not None:
            return call(ga, [name])
        return _MISSING
    if isinstance(v, SuperV):
        obj = v.obj
        t = obj if isinstance(obj, ClassV) else type_of(obj)
        mro = t.mro
        i = mro.index(v.cls) if v.cls in mro else -1
        for c in mro[i + 1:]:
            if name in c.ns:
                a = c.ns[name]
                if isinstance(obj, ClassV):
                    if isinstance(a, ClassM):
                        return BoundM(obj, a.f)
                    return bind(a, None, obj)
                return bind(a, obj, t)
        return _MISSING
    if isinstance(v, (FuncV, NativeF)):
        if v.d is not None and v.d.has(name):
            return v.d.get(name)
        if name in ("__name__", "__qualname__"):
            return v.name if name == "__name__" or isinstance(v, NativeF) else v.qual
        if name == "__doc__":
            return getattr(v, "doc", None)
        if name == "__module__":
            return v.mod.name if isinstance(v, FuncV) else "builtins"
        if name == "__dict__":
            return Inst(DICT, v.attrs())
        if name == "__wrapped__":
            return _MISSING
        if name == "__call__":
            return v
        if name == "__defaults__" and isinstance(v, FuncV):
            return tuple(v.defaults) or None
        if name == "__kwdefaults__" and isinstance(v, FuncV):
            return mkdict(v.kwdefaults.items()) if v.kwdefaults else None
        if name == "__get__":
            return NativeF("__get__", lambda o, c=None: bind(v, o, c))
        if name == "__annotations__":
            raise Unsupported("__annotations__")
    elif isinstance(v, BoundM):
        if name == "__self__":
            return v.self
        if name == "__func__":
            return v.func
        r = _getattr(v.func, name)
        if r is not _MISSING:
            return r
    elif isinstance(v, PropertyV):
        if name == "setter":
            return NativeF("setter", lambda f: PropertyV(v.fget, f, v.fdel))
        if name == "getter":
            return NativeF("getter", lambda f: PropertyV(f, v.fset, v.fdel))
        if name == "deleter":
            return NativeF("deleter", lambda f: PropertyV(v.fget, v.fset, f))
        if name in ("fget", "fset"):
            return getattr(v, name)
    elif isinstance(v, (StaticM, ClassM)):
        if name == "__func__":
            return v.f
        return _getattr(v.f, name)
    elif isinstance(v, AliasV):
        if name == "__origin__":
            return v.origin
        if name == "__args__":
            return tuple(v.args)
        return _getattr(v.origin, name)
    elif isinstance(v, Unk):
        return Unk(f"{v.name}.{name}")
    elif isinstance(v, slice):
        if name in ("start", "stop", "step"):
            return getattr(v, name)
    elif isinstance(v, range) and name in ("start", "stop", "step"):
        return getattr(v, name)
    elif isinstance(v, UnionV) and name == "__args__":
        return tuple(v.args)
    cls = type_of(v)
    if name == "__class__":
        return cls
    a = cls.lookup(name)
    if a is not None:
        return bind(a, v, cls)
    if name == "__doc__":
        return None
    return _MISSING


def inst_getattr(v, name):
    cls = v.cls
    if name == "__class__":
        return cls
    a = _MISSING
    for c in cls.mro:
        if name in c.ns:
            a = c.ns[name]
            break
    if isinstance(a, PropertyV) and not a.cached:
        return bind(a, v, cls)
    if isinstance(a, Inst) and a.cls.lookup("__set__") is not None:
        return bind(a, v, cls)
    if name == "__dict__":
        if not has_instdict(v):
            return _MISSING
        return Inst(DICT, v.attrs())
    if v.d is not None:
        tk = ("s", name)
        if tk in v.d.e:
            return v.d.e[tk][1]
        if v.d.nsym and v.d.has(name):
            return v.d.get(name)
    if a is not _MISSING:
        return bind(a, v, cls)
    if name == "__doc__":
        return None
    if name == "__module__":
        return cls.module
    return _MISSING


def class_getattr(c, name):
    if name in ("__name__", "__qualname__"):
        return c.name
    if name == "__mro__":
        return tuple(c.mro)
    if name == "__bases__":
        return tuple(c.bases)
    if name == "__base__":
        return c.bases[0] if c.bases else None
    if name == "__module__":
        return c.module
    if name == "__dict__":
        return mkdict([(k, x) for k, x in c.ns.items()])
    if name == "__class__":
        return TYPE
    if name == "mro":
        return NativeF("mro", lambda: mklist(c.mro))
    if name == "__subclasses__":
        raise Unsupported("__subclasses__")
    for k in c.mro:
        if name in k.ns:
            a = k.ns[name]
            if isinstance(a, ClassM):
                return BoundM(c, a.f)
            return bind(a, None, c)
    if name == "__annotations__":
        return mkdict([(f, None) for f in c.fields])
    if name == "__doc__":
        return None
    if name == "register":
        return NativeF("register", lambda k: (c.registered.append(k), k)[1])
    a = TYPE.lookup(name)
    if a is not None:
        return bind(a, c, TYPE)
    return _MISSING


def setattr_(v, name, val):
    if isinstance(v, Inst):
        sa = v.cls.lookup("__setattr__")
        if isinstance(sa, FuncV):
            call(sa, [v, name, val])
            return
        object_setattr(v, name, val)
        return
    if isinstance(v, ClassV):
        touch(v, name)
        v.ns[name] = val
        return
    if isinstance(v, ModV):
        touch(v, name)
        v.ns[name] = val
        return
    if isinstance(v, (FuncV, NativeF)):
        touch(v, name)
        if name == "__name__" and isinstance(v, FuncV):
            v.attrs().set(name, val)
            return
        v.attrs().set(name, val)
        return
    if isinstance(v, Unk):
        raise Unsupported(f"attribute write on unmodelled {v.name}")
    throw("AttributeError", f"'{type_of(v).name}' object has no attribute '{name}'")


def object_setattr(v, name, val):
    a = v.cls.lookup(name)
    if isinstance(a, PropertyV) and not a.cached:
        if a.fset is None:
            throw("AttributeError", f"property '{name}' has no setter")
        call(a.fset, [v, val])
        return
    if isinstance(a, Inst) and a.cls.lookup("__set__") is not None:
        call_method(a.cls.lookup("__set__"), a, v, val)
        return
    if name == "__class__":
        touch(v, name)
        v.cls = val
        return
    if name == "__dict__":
        touch(v, name)
        d = v.attrs()
        d.e = {}
        for k, x in val.data.items():
            d.set(k, x)
        return
    if v.cls in (LIST, DICT, SET, FROZENSET, OBJECT):
        throw("AttributeError", f"'{v.cls.name}' object has no attribute '{name}'")
    if no_dict(v.cls):
        allowed = set()
        for c in v.cls.mro:
            s = c.ns.get("__slots__")
            if s is not None:
                allowed |= {s} if isinstance(s, str) else set(iterate(s))
        if name not in allowed:
            throw("AttributeError", f"'{v.cls.name}' object has no attribute '{name}'")
    touch(v, name)
    v.attrs().set(name, val)


def delattr_(v, name):
    if isinstance(v, Inst):
        da = v.cls.lookup("__delattr__")
        if isinstance(da, FuncV):
            call(da, [v, name])
            return
        if v.d is not None and v.d.has(name):
            touch(v, name)
            v.d.delete(name)
            return
        throw("AttributeError", name)
    if isinstance(v, (ClassV, ModV)):
        if name in v.ns:
            touch(v, name)
            del v.ns[name]
            return
        throw("AttributeError", name)
    raise Unsupported("delattr")


# ------------------------------------------------------------------ isinstance
def isinstance_(v, spec):
    if isinstance(spec, tuple):
        return any(isinstance_(v, s) for s in spec)
    if isinstance(spec, UnionV):
        return any(isinstance_(v, NONETYPE if s is None else s) for s in spec.args)
    if isinstance(spec, AliasV):
        if spec.args:
            throw("TypeError", "isinstance() argument 2 cannot be a parameterized generic")
        spec = spec.origin
    if isinstance(spec, Unk):
        return False if spec.name.startswith("IPython") else unk(spec)
    if not isinstance(spec, ClassV):
        throw("TypeError", "isinstance() arg 2 must be a type, a tuple of types, or a union")
    t = type_of(unk(v))
    if spec in t.mro:
        return True
    if spec.protocol:
        if "runtime" not in spec.flags:
            throw("TypeError", "Instance and static protocol checks need @runtime_checkable")
        for m in protocol_attrs(spec):
            if any(m in c.ns for c in t.mro):
                if t.lookup(m) is None:
                    return False
                continue
            if isinstance(v, Inst) and v.d is not None and v.d.has(m):
                if v.d.get(m) is None:
                    return False
                continue
            if isinstance(v, (FuncV, NativeF, BoundM, ClassV)) and m == "__call__":
                continue
            if isinstance(v, ClassV) and any(m in c.ns for c in v.mro):
                continue
            return False
        return True
    return abc_check(t, spec)


ABC_CHECK = {}  # ClassV -> fn(type) -> bool (set by lib)


def abc_check(t, spec):
    for r in spec.registered:
        if t.issub(r):
            return True
    f = ABC_CHECK.get(spec)
    if f is not None and f(t):
        return True
    return False


def issubclass_(c, spec):
    if isinstance(spec, tuple):
        return any(issubclass_(c, s) for s in spec)
    if isinstance(spec, UnionV):
        return any(issubclass_(c, s) for s in spec.args)
    if isinstance(c, AliasV):
        c = c.origin
    if isinstance(spec, AliasV):
        spec = spec.origin
    if not isinstance(c, ClassV):
        throw("TypeError", "issubclass() arg 1 must be a class")
    if not isinstance(spec, ClassV):
        unk(spec)
        throw("TypeError", "issubclass() arg 2 must be a class")
    if c.issub(spec):
        return True
    if spec.protocol:
        return all(any(m in k.ns for k in c.mro) for m in protocol_attrs(spec))
    return abc_check(c, spec)


_PROTO_SKIP = {"__abstractmethods__", "__annotations__", "__dict__", "__doc__", "__init__", "__module__", "__new__",
               "__slots__", "__subclasshook__", "__weakref__", "__class_getitem__", "__match_args__",
               "_is_protocol", "__parameters__", "__qualname__", "__hash__"}


def protocol_attrs(c):
    out = []
    for k in c.mro:
        if not k.protocol or k.native:
            continue
        for n in list(k.ns) + k.fields:
            if n not in _PROTO_SKIP and n not in out:
                out.append(n)
    return out


# ------------------------------------------------------------------ calls
def call(f, args=(), kw=()):
    """kw: list of (name, value); names may be symbolic strings"""
    if isinstance(f, FuncV):
        return call_func(f, list(args), kw)
    if isinstance(f, BoundM):
        return call(f.func, [f.self, *args], kw)
    if isinstance(f, NativeF):
        return call_native(f, args, kw)
    if isinstance(f, ClassV):
        return instantiate(f, list(args), kw)
    if isinstance(f, Inst):
        m = f.cls.lookup("__call__")
        if m is None:
            throw("TypeError", f"'{f.cls.name}' object is not callable")
        return call(bind(m, f, f.cls), args, kw)
    if isinstance(f, AliasV):
        return call(f.origin, args, kw)
    if isinstance(f, StaticM):
        return call(f.f, args, kw)
    if isinstance(f, Unk):
        raise Unsupported(f"call of unmodelled {f.name}")
    throw("TypeError", f"'{type_of(f).name}' object is not callable")


def call_native(f, args, kw=()):
    loc = CUR_LOC[0]
    try:
        if f.rawkw:
            return f.fn(*args, kw=list(kw))
        if kw:
            d = {}
            for k, v in kw:
                c = T.const(k)
                if c is None:
                    raise Unsupported(f"symbolic keyword for {f.name}")
                d[c] = v
            return f.fn(*args, **d)
        return f.fn(*args)
    except TypeError as e:
        tb = e.__traceback__
        if tb.tb_next is None:  # signature mismatch
            # the model of a library function takes fewer forms of arguments than the function
            raise Unsupported(f"{f.name}(): {e}") from None
        raise
    finally:
        CUR_LOC[0] = loc


def instantiate(cls, args, kw=()):
    if cls.protocol and not cls.native and cls.ns.get("_is_protocol", True) and "proto" in cls.flags:
        throw("TypeError", "Protocols cannot be instantiated")
    if "abstract" in cls.flags:
        pass
    meta_call = cls.ns.get("__class_call__")
    if meta_call is not None:
        return meta_call(cls, args, kw)
    new = None
    for c in cls.mro:
        if "__new__" in c.ns:
            new = c.ns["__new__"]
            break
    if new is None:
        raise Unsupported(f"instantiate {cls.name}")
    if isinstance(new, StaticM):
        new = new.f
    if isinstance(new, NativeF) and new is OBJECT_NEW[0]:
        init = cls.lookup("__init__")
        if (args or kw) and not isinstance(init, FuncV) and (init is None or init is OBJECT_INIT[0]):
            throw("TypeError", f"{cls.name}() takes no arguments")
        inst = Inst(cls)
    else:
        inst = call(new, [cls, *args], kw)
    if isinstance(inst, Inst) and inst.cls.issub(cls):
        init = inst.cls.lookup("__init__")
        if init is not None and init is not OBJECT_INIT[0]:
            call(bind(init, inst, inst.cls), args, kw)
    return inst


OBJECT_NEW = [None]
OBJECT_INIT = [None]


def bind_args(f, args, kw):
    """parameter binding; returns dict name -> value"""
    code = f.code
    out = {}
    npos = len(code.pos)
    posonly = code.nposonly
    if len(args) > npos:
        if code.vararg is None:
            throw("TypeError", f"{f.name}() takes {npos} positional arguments but {len(args)} were given")
        out.update(zip(code.pos, args[:npos]))
        out[code.vararg] = tuple(args[npos:])
    else:
        for n, v in zip(code.pos, args):
            out[n] = v
        if code.vararg is not None:
            out[code.vararg] = ()
    extra = []
    named = code.pos[posonly:] + code.kwonly
    for k, v in kw:
        c = T.const(k)
        hit = None
        if c is not None:
            if c in code.kwnames:
                hit = c
        else:
            for n in named:
                if T.eq(k, n):
                    hit = n
                    break
        if hit is not None:
            if hit in out:
                throw("TypeError", f"{f.name}() got multiple values for argument '{hit}'")
            out[hit] = v
        elif code.kwarg is not None:
            extra.append((k, v))
        else:
            throw("TypeError", f"{f.name}() got an unexpected keyword argument '{k}'")
    if code.kwarg is not None:
        out[code.kwarg] = mkdict(extra)
    nd = len(f.defaults)
    for i, n in enumerate(code.pos):
        if n not in out:
            j = i - (npos - nd)
            if j < 0:
                throw("TypeError", f"{f.name}() missing required positional argument: '{n}'")
            out[n] = f.defaults[j]
    for n in code.kwonly:
        if n not in out:
            if n in f.kwdefaults:
                out[n] = f.kwdefaults[n]
            else:
                throw("TypeError", f"{f.name}() missing required keyword-only argument: '{n}'")
    return out


HOOKS = {}  # qualified function name -> fn(vars) called on entry (instrumentation)


def call_func(f, args, kw=()):
    code = f.code
    fr = Frame(code, f.mod, f.env, f)
    fr.vars = bind_args(f, args, kw)
    if code.pos:
        fr.args0 = fr.vars.get(code.pos[0])
    elif code.vararg is not None:
        va = fr.vars.get(code.vararg)
        fr.args0 = va[0] if va else None
    COVER.add((code.file, f.qual))
    if code.file[:9] == "htmltools":
        LAST_FUNC[0] = (code.file, f.qual)
    if len(STACK) > 160:
        p = P()
        throw("RecursionError", "maximum recursion depth exceeded")
    if code.isgen:
        return IterV(gen_run(f, fr), gen=True, name=f.qual)
    loc = CUR_LOC[0]
    STACK.append((f.qual, loc))
    try:
        r = code.body(fr)
        return r[1] if r is not None else None
    finally:
        STACK.pop()
        CUR_LOC[0] = loc


def gen_run(f, fr):
    """host generator for an analysed generator function"""
    inner = f.code.gbody(fr)
    send = None
    exc = None
    while True:
        loc = CUR_LOC[0]
        STACK.append((f.qual, loc))
        try:
            if exc is not None:
                e, exc = exc, None
                y = inner.throw(e)
            else:
                y = inner.send(send)
        except StopIteration as si:
            r = si.value
            return r[1] if isinstance(r, tuple) and r and r[0] == "ret" else None
        finally:
            STACK.pop()
            CUR_LOC[0] = loc
        try:
            send = yield y
        except Raised as e:
            exc = e
            send = None


# ------------------------------------------------------------------ iteration
def iterate(v):
    """host iterator over an abstract iterable"""
    if isinstance(v, tuple):
        return iter(v)
    if isinstance(v, str):
        return iter(v)
    if isinstance(v, Str):
        cs = T.chars(v)
        if cs is None:
            raise T.need_chars(v)
        return iter(cs)
    if isinstance(v, range):
        return iter(v)
    if isinstance(v, IterV):
        return v.it
    if isinstance(v, ViewV):
        return view_iter(v)
    if isinstance(v, Inst):
        m = v.cls.lookup("__iter__")
        if m is not None:
            if isinstance(m, NativeF):
                r = m.fn(v)
                return r.it if isinstance(r, IterV) else iterate(r)
            r = call(bind(m, v, v.cls), [])
            if isinstance(r, IterV):
                return r.it
            return proto_iter(r)
        if v.cls.lookup("__getitem__") is not None:
            return seq_iter(v)
        throw("TypeError", f"'{v.cls.name}' object is not iterable")
    if isinstance(v, (bytes,)):
        return iter(v)
    if isinstance(v, AliasV):
        throw("TypeError", "not iterable")
    unk(v)
    throw("TypeError", f"'{type_of(v).name}' object is not iterable")


def proto_iter(r):
    while True:
        try:
            x = call_method(r.cls.lookup("__next__"), r) if isinstance(r, Inst) and r.cls.lookup("__next__") else throw("TypeError", "iter() returned non-iterator")
        except Raised as e:
            if is_exc(e.value, "StopIteration"):
                return
            raise
        yield x


def seq_iter(v):
    i = 0
    while True:
        try:
            x = getitem(v, i)
        except Raised as e:
            if is_exc(e.value, "IndexError") or is_exc(e.value, "StopIteration"):
                return
            raise
        yield x
        i += 1


def list_iter(v):
    i = 0
    while i < len(v.data):
        yield v.data[i]
        i += 1


def dict_iter(v, f):
    n = len(v.data)
    toks = list(v.data.e)
    for t in toks:
        if len(v.data) != n:
            throw("RuntimeError", "dictionary changed size during iteration")
        if t not in v.data.e:
            throw("RuntimeError", "dictionary keys changed during iteration")
        k, x = v.data.e[t]
        yield k if f == "keys" else x if f == "values" else (k, x)
    if len(v.data) != n and toks:
        throw("RuntimeError", "dictionary changed size during iteration")


def set_order(ks):
    """the order of a set's elements depends on the process (hash seed, addresses)"""
    if len(ks) > 1 and not all(isinstance(k, int) for k in ks):
        P().nd_used.add(CUR_LOC[0])
        nd = P().nd
        if nd == 1:
            return ks[::-1]
        if nd == 2:
            return ks[1:] + ks[:1]
        if nd == 3:
            return ks[1::2] + ks[::2]
    return ks


def set_iter(v):
    ks = set_order(list(v.data.keys()))
    n = len(ks)
    for k in ks:
        if len(v.data) != n:
            throw("RuntimeError", "Set changed size during iteration")
        yield k


def view_iter(v):
    return dict_iter(v.inst, v.kind)


def next_(it):
    """advance; raises host StopIteration"""
    if isinstance(it, IterV):
        return next(it.it)
    if isinstance(it, Inst):
        m = it.cls.lookup("__next__")
        if m is None:
            throw("TypeError", f"'{it.cls.name}' object is not an iterator")
        try:
            return call_method(m, it)
        except Raised as e:
            if is_exc(e.value, "StopIteration"):
                raise StopIteration
            raise
    throw("TypeError", f"'{type_of(it).name}' object is not an iterator")


def tolist(v):
    out = []
    for x in iterate(v):
        out.append(x)
        if len(out) > 5000:
            raise Unsupported("very long iteration")
    return out


# ------------------------------------------------------------------ operators
NUMERIC = (int, float, complex)
BINOPS = {
    "Add": ("__add__", "__radd__", "__iadd__"), "Sub": ("__sub__", "__rsub__", "__isub__"),
    "Mult": ("__mul__", "__rmul__", "__imul__"), "Div": ("__truediv__", "__rtruediv__", "__itruediv__"),
    "FloorDiv": ("__floordiv__", "__rfloordiv__", "__ifloordiv__"), "Mod": ("__mod__", "__rmod__", "__imod__"),
    "Pow": ("__pow__", "__rpow__", "__ipow__"), "BitOr": ("__or__", "__ror__", "__ior__"),
    "BitAnd": ("__and__", "__rand__", "__iand__"), "BitXor": ("__xor__", "__rxor__", "__ixor__"),
    "LShift": ("__lshift__", "__rlshift__", "__ilshift__"), "RShift": ("__rshift__", "__rrshift__", "__irshift__"),
    "MatMult": ("__matmul__", "__rmatmul__", "__imatmul__"),
}
import operator as _op

HOSTOP = {"Add": _op.add, "Sub": _op.sub, "Mult": _op.mul, "Div": _op.truediv, "FloorDiv": _op.floordiv, "Mod": _op.mod,
          "Pow": _op.pow, "BitOr": _op.or_, "BitAnd": _op.and_, "BitXor": _op.xor, "LShift": _op.lshift, "RShift": _op.rshift}


def num_val(v):
    """concrete number if known"""
    if isinstance(v, (int, float)):
        return v
    if isinstance(v, Lin):
        return T.lin_const(v)
    if isinstance(v, BoolV):
        return truth(v)
    return None


def is_num(v):
    return isinstance(v, (int, float, Lin, Num, BoolV, LenV, complex, HashV))


def num_binop(op, a, b):
    if isinstance(a, NUMERIC) and isinstance(b, NUMERIC):
        try:
            return HOSTOP[op](a, b)
        except ZeroDivisionError as e:
            throw("ZeroDivisionError", str(e))
        except (OverflowError, ValueError) as e:
            throw(type(e).__name__, str(e))
    if isinstance(a, BoolV):
        a = truth(a)
        return num_binop(op, a, b)
    if isinstance(b, BoolV):
        b = truth(b)
        return num_binop(op, a, b)
    if isinstance(a, Lin) or isinstance(b, Lin):
        ca, cb = num_val(a), num_val(b)
        if ca is not None and cb is not None:
            return num_binop(op, ca, cb)
        if op == "Add" and isinstance(a, Lin) and isinstance(cb, int):
            return Lin(a.sym, a.k + cb)
        if op == "Add" and isinstance(b, Lin) and isinstance(ca, int):
            return Lin(b.sym, b.k + ca)
        if op == "Sub" and isinstance(a, Lin) and isinstance(cb, int):
            return Lin(a.sym, a.k - cb)
        if op == "Sub" and isinstance(a, Lin) and isinstance(b, Lin) and a.sym == b.sym:
            return a.k - b.k
        if op == "Mult":
            if cb is not None and cb == 1:
                return a
            if ca is not None and ca == 1:
                return b
            if isinstance(a, Lin) and isinstance(cb, int) and cb > 1 and a.k == 0:
                return ScaledLin(a, cb)
            if isinstance(b, Lin) and isinstance(ca, int) and ca > 1 and b.k == 0:
                return ScaledLin(b, ca)
            if isinstance(a, Lin) and isinstance(cb, int) and cb > 1:
                return ScaledLin(a, cb)
            if isinstance(b, Lin) and isinstance(ca, int) and ca > 1:
                return ScaledLin(b, ca)
    if op == "Add" and isinstance(a, int) and isinstance(b, LenV):
        a, b = b, a
    if op in ("Add", "Sub") and isinstance(a, LenV) and isinstance(b, int):
        k = b if op == "Add" else -b
        if k == 0:
            return a
        if k > 0 and a.rest is not None and T.minlen(a.rest) >= k:
            return LenV(T.concat(a.s, T.slice_str(a.rest, 0, k, None)), T.slice_str(a.rest, k, None, None))
        if k < 0 and T.minlen(a.s) >= -k:
            return LenV(T.slice_str(a.s, None, k, None), None if a.rest is None else T.concat(T.slice_str(a.s, k, None, None), a.rest))
    if op == "Add" and isinstance(a, LenV) and isinstance(b, LenV):
        return LenV(T.concat(a.s, b.s), None if a.rest is None else T.cut_prefix(a.rest, b.s))
    kind = "float" if any(isinstance(x, float) or (isinstance(x, Num) and x.kind == "float") for x in (a, b)) or op == "Div" else "int"
    return Num(("op", op, T.freeze(a), T.freeze(b)), kind)


class ScaledLin(Lin):
    """n * (sym + k)"""

    __slots__ = ("n",)

    def __init__(self, lin, n):
        super().__init__(lin.sym, lin.k)
        self.n = n


def str_repeat(s, n):
    c = num_val(n) if not isinstance(n, ScaledLin) else None
    if isinstance(n, ScaledLin):
        return str_repeat(str_repeat(s, n.n), Lin(n.sym, n.k))
    if isinstance(c, int):
        if isinstance(s, str):
            if len(s) * max(c, 0) > 100000:
                raise Unsupported("huge repetition")
            return s * c
        return T.concat(*([s] * max(c, 0))) if c > 0 else ""
    if isinstance(n, Lin):
        unit = T.const(s)
        if unit == "":
            return ""
        if unit is None:
            return T.op("repeat", s, n)
        if n.k >= 0:
            return T.concat(T.rep(unit, n.sym), unit * n.k) if n.k else T.rep(unit, n.sym)
        if T.lin_cmp(n, "<=", 0):
            return ""
        lo, hi = T.lin_interval(n.sym)
        # sym >= 1-k: substitute sym = sym' + (-k)
        return T.Str([("O", ("rep", (unit, n)), CUR_LOC[0])])
    raise Unsupported("string repetition by opaque number")


def prim(v):
    return v is None or isinstance(v, (str, Str, int, float, tuple, Lin, Num, BoolV, LenV, bytes, BytesV))


def hash_num(h):
    """hash() as a number: the same for equal values within a process only"""
    P().nd_used.add(CUR_LOC[0])
    return Num(("hash", repr(h.tok), P().nd), "int")


def binop(op, a, b):
    if isinstance(a, HashV):
        a = hash_num(a)
    if isinstance(b, HashV):
        b = hash_num(b)
    ta, tb = isinstance(a, (str, Str)), isinstance(b, (str, Str))
    if ta and tb:
        if op == "Add":
            return T.concat(a, b)
        if op == "Mod":
            return percent(a, b)
    elif is_num(a) and is_num(b):
        return num_binop(op, a, b)
    elif isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
        return a + b
    elif op == "Mult" and ta and is_num(b):
        return str_repeat(a, b)
    elif op == "Mult" and tb and is_num(a):
        return str_repeat(b, a)
    elif op == "Mult" and isinstance(a, tuple) and isinstance(b, int):
        return a * b
    if op == "BitOr" and isinstance(a, (ClassV, AliasV, UnionV, type(None), Unk)) and isinstance(b, (ClassV, AliasV, UnionV, type(None), Unk, str)):
        return UnionV((a.args if isinstance(a, UnionV) else [a]) + (b.args if isinstance(b, UnionV) else [b]))
    unk(a), unk(b)
    m, r, _ = BINOPS[op]
    ca, cb = type_of(a), type_of(b)
    ma, mb = ca.lookup(m), cb.lookup(r)
    if mb is not None and cb is not ca and cb.issub(ca) and ca.lookup(r) is not mb:
        x = call_method(mb, b, a)
        if x is not NotImplemented:
            return x
        mb = None
    if ma is not None:
        x = call_method(ma, a, b)
        if x is not NotImplemented:
            return x
    if mb is not None and (ca is not cb or ma is None):
        x = call_method(mb, b, a)
        if x is not NotImplemented:
            return x
    throw("TypeError", f"unsupported operand type(s) for {op}: '{ca.name}' and '{cb.name}'")


def inplace(op, a, b):
    m = BINOPS[op][2]
    if isinstance(a, Inst):
        f = a.cls.lookup(m)
        if f is not None:
            x = call_method(f, a, b)
            if x is not NotImplemented:
                return x
    return binop(op, a, b)


def percent(fmt, arg):
    c = T.const(fmt)
    if c is None:
        return T.op("percent", fmt, str_(arg) if not isinstance(arg, tuple) else tuple(arg))
    args = list(arg) if isinstance(arg, tuple) else [arg]
    import re as _re

    out, i = [], 0
    mapping = isinstance(arg, Inst) and isinstance(arg.data, DictData) and arg.cls.issub(DICT)
    for m in _re.finditer(r"%(\((\w+)\))?([-#0 +]*)(\d*)(\.\d+)?([a-zA-Z%])", c):
        out.append(c[i:m.start()])
        i = m.end()
        k = m.group(6)
        if k == "%":
            out.append("%")
            continue
        if m.group(2) is not None:
            if not mapping:
                throw("TypeError", "format requires a mapping")
            v = getitem(arg, m.group(2))
        else:
            if not args:
                throw("TypeError", "not enough arguments for format string")
            v = args.pop(0)
        if (m.group(3) or m.group(4) or m.group(5)):
            if isinstance(v, (int, float, str)):
                out.append(("%" + m.group(3) + m.group(4) + (m.group(5) or "") + k) % v)
                continue
            if isinstance(v, (Str, Num)):
                out.append(T.op("percent", m.group(0), v))
                continue
            raise Unsupported("% format spec")
        if k == "s":
            out.append(str_(v))
        elif k == "r":
            out.append(repr_(v))
        elif k in "di" and is_num(v):
            out.append(str_(v))
        elif isinstance(v, (int, float)):
            out.append(("%" + k) % v)
        else:
            raise Unsupported("% format")
    if args and not mapping and i and not isinstance(arg, Inst):
        throw("TypeError", "not all arguments converted during string formatting")
    out.append(c[i:])
    return T.concat(*out)


def unaryop(op, v):
    if op == "Not":
        return not truth(v)
    if isinstance(v, (int, float)):
        return -v if op == "USub" else +v if op == "UAdd" else ~v
    if isinstance(v, BoolV):
        return unaryop(op, int(truth(v)))
    if isinstance(v, Lin):
        c = T.lin_const(v)
        if c is not None:
            return unaryop(op, c)
        if op == "UAdd":
            return v
    if isinstance(v, (Num, Lin, LenV)):
        return Num(("un", op, T.freeze(v)), getattr(v, "kind", "int"))
    m = type_of(unk(v)).lookup({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
    if m is not None:
        return call_method(m, v)
    throw("TypeError", f"bad operand type for unary {op}")


def eq_(a, b):
    """a == b -> host bool (forks on unknown)"""
    return truth(eq_val(a, b))


def eq_val(a, b):
    if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
        return T.eq(a, b)
    if is_num(a) and is_num(b):
        return num_cmp("==", a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return all((x is y) or eq_(x, y) for x, y in zip(a, b))
    if prim(a) and prim(b):
        if isinstance(a, (bytes, BytesV)) and isinstance(b, (bytes, BytesV)):
            if T.freeze(a) == T.freeze(b):
                return True
            if isinstance(a, bytes) and isinstance(b, bytes):
                return a == b
            return P().decide(("beq", T.freeze(a), T.freeze(b)))
        return a is b if type_of(a) is type_of(b) else False
    unk(a), unk(b)
    ca, cb = type_of(a), type_of(b)
    if ca is not cb and cb.issub(ca) and cb.lookup("__eq__") is not ca.lookup("__eq__"):
        order = [(b, a), (a, b)]
    else:
        order = [(a, b), (b, a)]
    for x, y in order:
        m = type_of(x).lookup("__eq__")
        if m is not None:
            r = call_method(m, x, y)
            if r is not NotImplemented:
                return r
    return is_(a, b)


def ne_val(a, b):
    for x, y in ((a, b), (b, a)):
        m = type_of(x).lookup("__ne__")
        if isinstance(m, FuncV):
            r = call_method(m, x, y)
            if r is not NotImplemented:
                return r
    return not eq_(a, b)


def num_cmp(op, a, b):
    if isinstance(a, BoolV):
        a = int(truth(a))
    if isinstance(b, BoolV):
        b = int(truth(b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if isinstance(a, Lin) and isinstance(b, Lin):
        if a.sym == b.sym and not isinstance(a, ScaledLin) and not isinstance(b, ScaledLin):
            return num_cmp(op, a.k, b.k)
        ca, cb = T.lin_const(a), T.lin_const(b)
        if ca is not None:
            return num_cmp(op, ca, b)
        if cb is not None:
            return num_cmp(op, a, cb)
    flip = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}
    if isinstance(b, Lin) and isinstance(a, (int, float)):
        a, b, op = b, a, flip[op]
    if isinstance(a, ScaledLin) and isinstance(b, (int, float)):
        return T.lin_cmp(Lin(a.sym, a.k), op, b / a.n)
    if isinstance(a, Lin) and isinstance(b, (int, float)):
        return T.lin_cmp(a, op, b)
    if isinstance(b, LenV) and isinstance(a, (int, float)):
        a, b, op = b, a, flip[op]
    if isinstance(a, LenV) and isinstance(b, (int, float)):
        return len_cmp(a, op, b)
    if isinstance(a, HashV) and isinstance(b, HashV) and op in ("==", "!="):
        return (a.tok == b.tok) == (op == "==")
    fa, fb = T.freeze(a), T.freeze(b)
    if fa == fb:
        return op in ("==", "<=", ">=")
    if op in (">", ">=", "!="):
        if op == "!=":
            return not num_cmp("==", a, b)
        return num_cmp("<" if op == ">" else "<=", b, a)
    if repr(fb) < repr(fa) and op == "==":
        fa, fb = fb, fa
    if op == "==":
        r = P().decide(("numeq", fa, fb))
        return r
    if P().generic.get(("numeq",) + tuple(sorted([fa, fb], key=repr))):
        return op == "<="
    return P().decide(("num" + op, fa, fb))


def len_cmp(a, op, n):
    """length of an opaque string against a constant"""
    import math

    P().thresholds.add(n)
    s = a.s
    minlen = sum(len(p[1]) if p[0] == "L" else (1 if T.part_nonempty(p) else 0) for p in T._resolve_parts(T.parts_of(s)))
    if op in ("==", "!="):
        if n != int(n) or n < minlen:
            r = False
        elif n == 0:
            r = not T.nonempty(s)
        else:
            r = P().decide(("leneq", T.norm(s), n))
            if r:
                T.nonempty(s)
        return r if op == "==" else not r
    if op == ">":
        return not len_cmp(a, "<=", n)
    if op == ">=":
        return not len_cmp(a, "<", n)
    b = math.ceil(n) - 1 if op == "<" else math.floor(n)  # len <= b
    if b < minlen:
        return False
    if b == 0:
        return not T.nonempty(s)
    # consistency with earlier bounds on the same string
    key = T.norm(s)
    lo, hi = P().generic.get(("lenb", key), (minlen, None))
    if hi is not None and hi <= b:
        return True
    if lo > b:
        return False
    r = P().decide(("lenle", key, b))
    P().generic[("lenb", key)] = (lo, b) if r else (b + 1, hi)
    if not r:
        if not T.nonempty(s):
            raise Infeasible()
    return r


CMPM = {"<": ("__lt__", "__gt__"), "<=": ("__le__", "__ge__"), ">": ("__gt__", "__lt__"), ">=": ("__ge__", "__le__")}


def _untuple(v):
    return v.data if isinstance(v, Inst) and isinstance(v.data, tuple) and v.cls.issub(TUPLE) else v


def order_val(op, a, b):
    a, b = _untuple(a), _untuple(b)
    if is_num(a) and is_num(b):
        return num_cmp(op, a, b)
    ta, tb = text_of(a), text_of(b)
    if ta is not None and tb is not None:
        return str_order(op, ta, tb)
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            if not eq_(x, y):
                return order_val(op, x, y)
        return num_cmp(op, len(a), len(b))
    if isinstance(a, (bytes)) and isinstance(b, bytes):
        return HOSTCMP[op](a, b)
    unk(a), unk(b)
    m, r = CMPM[op]
    for x, y, n in ((a, b, m), (b, a, r)):
        f = type_of(x).lookup(n)
        if f is not None:
            v = call_method(f, x, y)
            if v is not NotImplemented:
                return v
    throw("TypeError", f"'{op}' not supported between instances of '{type_of(a).name}' and '{type_of(b).name}'")


HOSTCMP = {"<": _op.lt, "<=": _op.le, ">": _op.gt, ">=": _op.ge}


def str_order(op, a, b):
    ca, cb = T.const(a), T.const(b)
    if ca is not None and cb is not None:
        return HOSTCMP[op](ca, cb)
    if cb is not None:
        r = T.char_narrow(a, ("cmp", op, cb), lambda c: HOSTCMP[op](c, cb))
        if r is not None:
            return r
    if ca is not None:
        r = T.char_narrow(b, ("cmp", ca, op), lambda c: HOSTCMP[op](ca, c))
        if r is not None:
            return r
    if T.eq(a, b):
        return op in ("<=", ">=")
    na, nb = T.norm(a), T.norm(b)
    if op in (">", ">="):
        return str_order("<", b, a)
    # cheap decision on distinct leading literals
    if na and nb and na[0][0] == "L" and nb[0][0] == "L":
        x, y = na[0][1], nb[0][1]
        n = min(len(x), len(y))
        if x[:n] != y[:n]:
            return x[:n] < y[:n]
    if not na:
        return True
    if not nb:
        return False
    flip = repr(na) > repr(nb)
    if flip:
        na, nb = nb, na
    r = P().decide(("slt", na, nb))
    return (not r) if flip else r


def compare(op, a, b):
    if op == "Is":
        return is_(a, b)
    if op == "IsNot":
        return not is_(a, b)
    if op == "Eq":
        return eq_val(a, b)
    if op == "NotEq":
        return ne_val(a, b)
    if op == "In":
        return contains(b, a)
    if op == "NotIn":
        return not contains(b, a)
    return order_val({"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op], a, b)


def contains(c, x):
    if isinstance(c, (str, Str)):
        t = text_of(x)
        if t is None:
            throw("TypeError", "'in <string>' requires string as left operand")
        return T.contains(c, t)
    if isinstance(c, tuple):
        return any(y is x or eq_(y, x) for y in c)
    if isinstance(c, range):
        if isinstance(x, int):
            return x in c
        return any(eq_(y, x) for y in c)
    if isinstance(c, ViewV):
        if c.kind == "keys":
            return c.inst.data.has(x)
        return any(eq_(y, x) for y in view_iter(c))
    if isinstance(c, Inst):
        m = c.cls.lookup("__contains__")
        if m is not None:
            return truth(call_method(m, c, x))
        return any(y is x or eq_(y, x) for y in iterate(c))
    if isinstance(c, IterV):
        return any(y is x or eq_(y, x) for y in c.it)
    unk(c)
    throw("TypeError", f"argument of type '{type_of(c).name}' is not iterable")


def index_(i):
    if isinstance(i, bool):
        return int(i)
    if isinstance(i, int):
        return i
    if isinstance(i, Lin):
        c = T.lin_const(i)
        return c if c is not None else i
    if isinstance(i, BoolV):
        return int(truth(i))
    if isinstance(i, Inst):
        m = i.cls.lookup("__index__")
        if m is not None:
            return index_(call_method(m, i))
    if isinstance(i, (Num, LenV)):
        return i
    throw("TypeError", f"indices must be integers or slices, not {type_of(i).name}")


def slice_args(s, n=None):
    def f(x):
        if x is None:
            return None
        x = index_(x)
        if isinstance(x, int):
            return x
        raise Unsupported("opaque slice bound")

    return slice(f(s.start), f(s.stop), f(s.step))


def getitem(c, i):
    if isinstance(c, (str, Str)):
        if isinstance(i, slice):
            lo, hi, st = i.start, i.stop, i.step
            if isinstance(c, Str) and (isinstance(lo, LenV) or isinstance(hi, LenV)):
                return str_len_slice(c, lo, hi, st)
            s = slice_args(i)
            return T.slice_str(c, s.start, s.stop, s.step)
        j = index_(i)
        if not isinstance(j, int):
            raise T.need_chars(c) if isinstance(c, Str) else Unsupported("opaque index")
        try:
            return T.index_char(c, j)
        except IndexError:
            throw("IndexError", "string index out of range")
    if isinstance(c, tuple):
        if isinstance(i, slice):
            return c[slice_args(i)]
        j = index_(i)
        if not isinstance(j, int):
            raise Unsupported("opaque index")
        try:
            return c[j]
        except IndexError:
            throw("IndexError", "tuple index out of range")
    if isinstance(c, Inst):
        m = c.cls.lookup("__getitem__")
        if m is not None:
            return call_method(m, c, i)
        throw("TypeError", f"'{c.cls.name}' object is not subscriptable")
    if isinstance(c, ClassV):
        cg = class_getattr(c, "__class_getitem__")
        if cg is not _MISSING and isinstance(cg, BoundM) and isinstance(cg.func, FuncV) and not c.native:
            return call(cg, [i])
        return AliasV(c, list(i) if isinstance(i, tuple) else [i])
    if isinstance(c, AliasV):
        return AliasV(c.origin, list(i) if isinstance(i, tuple) else [i])
    if isinstance(c, range):
        return c[slice_args(i)] if isinstance(i, slice) else host(lambda: c[index_(i)])
    if isinstance(c, bytes):
        return c[slice_args(i)] if isinstance(i, slice) else c[index_(i)]
    if isinstance(c, NativeF) and c.name.startswith("typing."):
        return UnionV(list(i) if isinstance(i, tuple) else [i])
    if isinstance(c, Unk):
        return Unk(c.name + "[]")
    if isinstance(c, BytesV):
        raise Unsupported("bytes index")
    throw("TypeError", f"'{type_of(c).name}' object is not subscriptable")


def str_len_slice(c, lo, hi, st):
    """slices bounded by the length of a beginning of the string"""
    if st in (None, 1):
        a = c
        if isinstance(hi, LenV):
            r = T.cut_prefix(c, hi.s)
            if r is None:
                raise T.need_chars(c)
            a, hi = hi.s, None
        elif hi is not None and not (isinstance(hi, int) and hi < 0):
            raise T.need_chars(c)
        if isinstance(lo, LenV):
            a = T.cut_prefix(a, lo.s)
            if a is None:
                raise T.need_chars(c)
            lo = None
        elif lo is not None and not (isinstance(lo, int) and lo >= 0):
            raise T.need_chars(c)
        return T.slice_str(a, lo, hi, None)
    raise T.need_chars(c)


def host(fn, *a):
    try:
        return fn(*a)
    except (ValueError, IndexError, KeyError, TypeError, OverflowError, ZeroDivisionError) as e:
        throw(type(e).__name__, str(e))


def setitem(c, i, v):
    if isinstance(c, Inst):
        m = c.cls.lookup("__setitem__")
        if m is not None:
            call_method(m, c, i, v)
            return
    unk(c)
    throw("TypeError", f"'{type_of(c).name}' object does not support item assignment")


def delitem(c, i):
    if isinstance(c, Inst):
        m = c.cls.lookup("__delitem__")
        if m is not None:
            call_method(m, c, i)
            return
    unk(c)
    throw("TypeError", f"'{type_of(c).name}' object doesn't support item deletion")


def len_(v):
    if isinstance(v, (str, Str)):
        return T.length(v)
    if isinstance(v, (tuple, range, bytes)):
        return len(v)
    if isinstance(v, ViewV):
        return len(v.inst.data)
    if isinstance(v, Inst):
        m = v.cls.lookup("__len__")
        if m is not None:
            return call_method(m, v)
    if isinstance(v, BytesV):
        return LenV(T.op("bytes", v.s))
    unk(v)
    throw("TypeError", f"object of type '{type_of(v).name}' has no len()")


# ------------------------------------------------------------------ str / repr / format
def str_(v):
    """str(v) as an abstract string"""
    if isinstance(v, (str, Str)):
        return v
    if isinstance(v, Inst):
        if v.cls.issub(EXC["BaseException"]) and not isinstance(v.cls.lookup("__str__"), FuncV):
            a = v.attrs().get("args", ())
            if len(a) == 0:
                return ""
            if len(a) == 1:
                return repr_(a[0]) if v.cls is EXC["KeyError"] else str_(a[0])
            return repr_(a)
        m = v.cls.lookup("__str__")
        if m is not None and m is not OBJECT.ns.get("__str__"):
            r = call_method(m, v)
            t = text_of(r)
            if t is None:
                throw("TypeError", "__str__ returned non-string")
            return r if isinstance(r, Inst) else t
        return repr_(v)
    if isinstance(v, BoolV):
        return str(truth(v))
    if isinstance(v, (bool, int, float, bytes, complex)) or v is None or v is Ellipsis:
        return str(v)
    if isinstance(v, (Num, Lin, LenV)):
        c = num_val(v)
        if c is not None:
            return str(c)
        return T.to_str_num(v)
    if isinstance(v, HashV):
        return T.to_str_num(hash_num(v))
    return repr_(v)


def repr_(v):
    if isinstance(v, str):
        return repr(v)
    if isinstance(v, Str):
        c = T.const(v)
        return repr(c) if c is not None else T.op("repr", v)
    if isinstance(v, Inst):
        m = v.cls.lookup("__repr__")
        if isinstance(m, (FuncV, NativeF)) and m is not OBJECT.ns.get("__repr__"):
            r = call_method(m, v)
            if text_of(r) is None:
                throw("TypeError", "__repr__ returned non-string")
            return r
        if v.cls.issub(EXC["BaseException"]):
            a = v.attrs().get("args", ())
            return T.concat(v.cls.name, repr_(tuple(a)))
        return T.concat("<", v.cls.name, " object at ", T.op("str", Num(obj_id(v), "int")), ">")
    if isinstance(v, tuple):
        if len(v) == 1:
            return T.concat("(", repr_(v[0]), ",)")
        return T.concat("(", join(", ", [repr_(x) for x in v]), ")")
    if isinstance(v, ClassV):
        return f"<class '{v.module + '.' if v.module != 'builtins' else ''}{v.name}'>"
    if isinstance(v, (FuncV, BoundM, NativeF)):
        return T.concat("<function ", T.op("str", Num(obj_id(v), "int")), ">")
    if isinstance(v, (AliasV, UnionV)):
        return "<type>"
    if isinstance(v, slice):
        return T.concat("slice(", repr_(v.start), ", ", repr_(v.stop), ", ", repr_(v.step), ")")
    if isinstance(v, ModV):
        return f"<module {v.name}>"
    if isinstance(v, (IterV, ViewV)):
        return "<" + type_of(v).name + ">"
    unk(v)
    return str_(v)


def join(sep, items):
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(sep)
        out.append(x)
    return T.concat(*out) if out else ""


def format_(v, spec=""):
    c = T.const(spec) if T.is_s(spec) else None
    if c == "":
        if isinstance(v, Inst):
            m = v.cls.lookup("__format__")
            if isinstance(m, FuncV):
                return text_of(call_method(m, v, ""))
            return text_of(str_(v))
        return text_of(str_(v))
    if c is not None and isinstance(v, (int, float, str)):
        return host(lambda: format(v, c))
    if c is not None and isinstance(v, Inst):
        m = v.cls.lookup("__format__")
        if isinstance(m, FuncV):
            return text_of(call_method(m, v, c))
        if v.data is not None and text_of(v) is not None:
            return format_(text_of(v), spec)
        throw("TypeError", "unsupported format string")
    if c in ("s", "") and isinstance(v, Str):
        return v
    if c == "d" and isinstance(v, (Lin, LenV, Num)):
        return str_(v)
    if c is not None and isinstance(v, (Str, Num)) and T.const(v if isinstance(v, Str) else "") is None:
        return T.op("format", v, c)
    raise Unsupported("format spec")


def hash_(v):
    return HashV(token(v))


# ------------------------------------------------------------------ compilation
class Code:
    __slots__ = ("pos", "nposonly", "vararg", "kwonly", "kwarg", "kwnames", "body", "gbody", "isgen", "locals", "nonlocals",
                 "globals", "file", "name")


BRK = ("brk",)
CNT = ("cnt",)


def assigned_names(node):
    """names bound in a function/class/module body (not nested scopes)"""
    names, glob, nonl = set(), set(), set()

    def target(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                walk(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    walk(d)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                walk(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    target(x.target)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            names.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in node:
        walk(s)
    return names - glob - nonl, glob, nonl


def has_yield(body):
    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        return any(walk(c) for c in ast.iter_child_nodes(n))

    return any(walk(s) for s in body)


class Compiler:
    """compiles AST to closures; one per module"""

    def __init__(self, mod, relfile):
        self.mod = mod
        self.file = relfile
        self.qual = []
        self.scopes = []  # (kind, locals, globals, nonlocals)

    # -- scopes
    def loc(self, node):
        return (self.file, getattr(node, "lineno", 0), ".".join(self.qual) or "<module>")

    def module_body(self, tree):
        self.scopes.append(("module", set(), set(), set()))
        fs = [(n, self.stmt(n)) for n in tree.body]
        self.scopes.pop()

        def run(fr):
            for n, f in fs:
                if f is None:
                    continue
                try:
                    f(fr)
                except Unsupported as e:
                    # no transfer function for this definition: its names are unknown values
                    LOAD_NOTES.append((self.file, n.lineno, str(e)))
                    for nm in assigned_names([n])[0]:
                        self.mod.ns.setdefault(nm, Unk(f"{nm} ({self.file}:{n.lineno}: {e})"))
        return run

    def name_kind(self, name):
        """('fast',) local of current frame; ('up', n) ; ('glob',)"""
        kind, loc, glob, nonl = self.scopes[-1]
        if kind == "module":
            return ("glob",)
        if name in glob:
            return ("glob",)
        if name in loc:
            return ("class",) if kind == "class" else ("fast",)
        up = 0
        for kind2, loc2, glob2, nonl2 in reversed(self.scopes[:-1]):
            if kind2 == "module":
                break
            if kind2 == "class":
                continue
            up += 1
            if name in glob2:
                return ("glob",)
            if name in loc2:
                return ("up", up)
        return ("glob",)

    def compile_name_load(self, name, node):
        k = self.name_kind(name)
        mod = self.mod
        loc = self.loc(node)
        if k[0] == "fast":
            def f(fr):
                v = fr.vars.get(name, _MISSING)
                if v is _MISSING:
                    CUR_LOC[0] = loc
                    throw("UnboundLocalError", f"cannot access local variable '{name}'")
                return v
            return f
        if k[0] == "up":
            n = k[1]

            def f(fr):
                o = fr
                for _ in range(n):
                    o = o.outer
                v = o.vars.get(name, _MISSING)
                if v is _MISSING:
                    # class-scope skipping may shift levels: search outward
                    while o is not None:
                        if name in o.vars:
                            return o.vars[name]
                        o = o.outer
                    CUR_LOC[0] = loc
                    throw("NameError", f"free variable '{name}'")
                return v
            return f
        if k[0] == "class":
            def f(fr):
                v = fr.vars.get(name, _MISSING)
                if v is not _MISSING:
                    return v
                return load_global(mod, name, loc)
            return f

        def f(fr):
            v = mod.ns.get(name, _MISSING)
            if v is not _MISSING:
                return v
            return load_global(mod, name, loc)
        return f

    def compile_name_store(self, name):
        k = self.name_kind(name)
        mod = self.mod
        kind, loc, glob, nonl = self.scopes[-1]
        if name in nonl:
            # find level
            up = 0
            for kind2, loc2, _, _ in reversed(self.scopes[:-1]):
                if kind2 == "class":
                    continue
                up += 1
                if name in loc2:
                    break

            def f(fr, v):
                o = fr
                for _ in range(up):
                    o = o.outer
                touch(o, name)
                o.vars[name] = v
            return f
        if k[0] in ("fast", "class"):
            def f(fr, v):
                fr.vars[name] = v
            return f

        def f(fr, v):
            touch(mod, name)
            mod.ns[name] = v
        return f

    # -- functions
    def function(self, node, name, lam=False):
        a = node.args
        code = Code()
        code.file = self.file
        code.name = name
        code.pos = [x.arg for x in a.posonlyargs + a.args]
        code.nposonly = len(a.posonlyargs)
        # private names beginning with __ are positional-only by convention only
        code.vararg = a.vararg.arg if a.vararg else None
        code.kwonly = [x.arg for x in a.kwonlyargs]
        code.kwarg = a.kwarg.arg if a.kwarg else None
        code.kwnames = set(code.pos[code.nposonly:]) | set(code.kwonly)
        body = [ast.Return(value=node.body, lineno=node.lineno, col_offset=0)] if lam else node.body
        names, glob, nonl = assigned_names(body)
        names |= set(code.pos) | set(code.kwonly)
        if code.vararg:
            names.add(code.vararg)
        if code.kwarg:
            names.add(code.kwarg)
        names -= glob | nonl
        self.scopes.append(("func", names, glob, nonl))
        self.qual.append(name)
        if not hasattr(node, "_marked"):
            charloop.mark(node)
            for x in ast.walk(node):
                x._marked = True
        code.isgen = has_yield(body)
        if code.isgen:
            code.gbody = self.gblock(body)
            code.body = None
        else:
            code.body = self.block(body)
        qual = ".".join(self.qual)
        self.qual.pop()
        self.scopes.pop()
        defaults = [self.expr(d) for d in a.defaults]
        kwdef = [(x.arg, self.expr(d)) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        mod = self.mod
        doc = ast.get_docstring(node) if not lam else None

        def make(fr):
            f = FuncV()
            f.node = node
            f.name = name
            f.qual = qual
            f.mod = mod
            f.env = fr if fr.code is not None else None
            e = f.env
            while e is not None and e.code == "class":
                e = e.outer
            f.env = e
            f.defaults = [d(fr) for d in defaults]
            f.kwdefaults = {n: d(fr) for n, d in kwdef}
            f.code = code
            f.isgen = code.isgen
            f.doc = doc
            if fr.code == "class":
                f.cls = fr.cls
            elif fr.func is not None and fr.func.cls is not None:
                f.cls = fr.func.cls  # nested function: zero-arg super() / __class__
            return f
        return make

    # -- statements
    def block(self, stmts):
        fs = [self.stmt(s) for s in stmts]
        fs = [f for f in fs if f is not None]
        if len(fs) == 1:
            return fs[0]

        def run(fr):
            for f in fs:
                r = f(fr)
                if r is not None:
                    return r
            return None
        return run

    def stmt(self, node):
        m = getattr(self, "s_" + type(node).__name__, None)
        loc = self.loc(node)
        if m is None:
            what = type(node).__name__

            def f(fr):
                raise Unsupported(f"statement {what} at {loc_str(loc)}")
            return f
        g = m(node)
        if g is None:
            return None

        def run(fr):
            CUR_LOC[0] = loc
            p = T._P
            p.steps += 1
            if p.steps > MAX_STEPS:
                raise PathLimit("step limit")
            return g(fr)
        return run

    def s_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return None
        e = self.expr(n.value)

        def f(fr):
            e(fr)
        return f

    def s_Pass(self, n):
        return None

    def s_Global(self, n):
        return None

    s_Nonlocal = s_Global

    def s_Return(self, n):
        if n.value is None:
            return lambda fr: ("ret", None)
        e = self.expr(n.value)
        return lambda fr: ("ret", e(fr))

    def s_Break(self, n):
        return lambda fr: BRK

    def s_Continue(self, n):
        return lambda fr: CNT

    def s_Assign(self, n):
        e = self.expr(n.value)
        ts = [self.target(t) for t in n.targets]

        def f(fr):
            v = e(fr)
            for t in ts:
                t(fr, v)
        return f

    def s_AnnAssign(self, n):
        if isinstance(n.target, ast.Name) and self.scopes[-1][0] == "class":
            name = n.target.id
            st = self.target(n.target) if n.value is not None else None
            e = self.expr(n.value) if n.value is not None else None
            ann = ast.unparse(n.annotation)

            def f(fr):
                fr.vars.setdefault("__fields__", []).append((name, ann))
                if e is not None:
                    st(fr, e(fr))
            return f
        if n.value is None:
            return None
        e, t = self.expr(n.value), self.target(n.target)

        def f(fr):
            t(fr, e(fr))
        return f

    def s_AugAssign(self, n):
        op = type(n.op).__name__
        e = self.expr(n.value)
        loc = self.loc(n)
        t = n.target
        if isinstance(t, ast.Name):
            ld, st = self.compile_name_load(t.id, t), self.compile_name_store(t.id)

            def f(fr):
                a = ld(fr)
                b = e(fr)
                CUR_LOC[0] = loc
                st(fr, inplace(op, a, b))
            return f
        if isinstance(t, ast.Attribute):
            o, name = self.expr(t.value), self.mangle(t.attr)

            def f(fr):
                ob = o(fr)
                a = getattr_(ob, name)
                b = e(fr)
                CUR_LOC[0] = loc
                setattr_(ob, name, inplace(op, a, b))
            return f
        if isinstance(t, ast.Subscript):
            o, i = self.expr(t.value), self.expr(t.slice)

            def f(fr):
                ob, ix = o(fr), i(fr)
                a = getitem(ob, ix)
                b = e(fr)
                CUR_LOC[0] = loc
                setitem(ob, ix, inplace(op, a, b))
            return f
        raise Unsupported("augmented target")

    def s_Delete(self, n):
        fs = []
        for t in n.targets:
            if isinstance(t, ast.Name):
                name = t.id
                k = self.name_kind(name)
                mod = self.mod

                def f(fr, name=name, k=k):
                    ns = fr.vars if k[0] in ("fast", "class") else mod.ns
                    if ns is mod.ns:
                        touch(mod, name)
                    if name not in ns:
                        throw("NameError", name)
                    del ns[name]
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value)
                name = self.mangle(t.attr)

                def f(fr, o=o, name=name):
                    delattr_(o(fr), name)
            elif isinstance(t, ast.Subscript):
                o, i = self.expr(t.value), self.expr(t.slice)

                def f(fr, o=o, i=i):
                    delitem(o(fr), i(fr))
            else:
                raise Unsupported("del target")
            fs.append(f)

        def run(fr):
            for f in fs:
                f(fr)
        return run

    def s_If(self, n):
        t, b, o = self.expr(n.test), self.block(n.body), self.block(n.orelse) if n.orelse else None

        def f(fr):
            if truth(t(fr)):
                return b(fr)
            if o is not None:
                return o(fr)
        return f

    def s_For(self, n):
        it, tg, body = self.expr(n.iter), self.target(n.target), self.block(n.body)
        orelse = self.block(n.orelse) if n.orelse else None
        loc = self.loc(n)
        hook = LOOPHOOK
        shape = getattr(n, "_chars", None)

        def f(fr):
            src = it(fr)
            CUR_LOC[0] = loc
            if shape is not None:
                text = charloop.open_text(src)
                if text is not None and charloop.for_loop(fr, text, shape, tg, body):
                    return None
            for x in iterate(src):
                if hook[0] is not None:
                    hook[0](loc, fr)
                tg(fr, x)
                r = body(fr)
                if r is not None:
                    if r is BRK:
                        return None
                    if r is CNT:
                        continue
                    return r
                CUR_LOC[0] = loc
            if orelse is not None:
                return orelse(fr)
        return f

    def s_While(self, n):
        t, body = self.expr(n.test), self.block(n.body)
        orelse = self.block(n.orelse) if n.orelse else None
        loc = self.loc(n)
        hook = LOOPHOOK

        def f(fr):
            k = 0
            while True:
                CUR_LOC[0] = loc
                if hook[0] is not None:
                    hook[0](loc, fr)
                if not truth(t(fr)):
                    break
                k += 1
                if k > 3000:
                    raise PathLimit("while loop bound")
                r = body(fr)
                if r is not None:
                    if r is BRK:
                        return None
                    if r is CNT:
                        continue
                    return r
            if orelse is not None:
                return orelse(fr)
        return f

    def s_Raise(self, n):
        e = self.expr(n.exc) if n.exc else None
        c = self.expr(n.cause) if n.cause else None
        loc = self.loc(n)

        def f(fr):
            if e is None:
                o = fr
                while o is not None and o.handled is None:
                    o = o.outer
                if o is None:
                    throw("RuntimeError", "No active exception to reraise")
                raise o.handled
            v = e(fr)
            if isinstance(v, ClassV):
                v = call(v, [])
            CUR_LOC[0] = loc
            if not isinstance(v, Inst) or not v.cls.issub(EXC["BaseException"]):
                unk(v)
                throw("TypeError", "exceptions must derive from BaseException")
            if c is not None:
                cv = c(fr)
                v.attrs().set("__cause__", cv)
            raise Raised(v)
        return f

    def s_Assert(self, n):
        t = self.expr(n.test)
        m = self.expr(n.msg) if n.msg else None

        def f(fr):
            if not truth(t(fr)):
                throw("AssertionError", *([m(fr)] if m else []))
        return f

    def handlers(self, n, gen=False):
        out = []
        for h in n.handlers:
            ty = self.expr(h.type) if h.type else None
            st = self.compile_name_store(h.name) if h.name else None
            out.append((ty, st, h.name, (self.gblock if gen else self.block)(h.body)))
        return out

    def s_Try(self, n):
        body = self.block(n.body)
        hs = self.handlers(n)
        orelse = self.block(n.orelse) if n.orelse else None
        fin = self.block(n.finalbody) if n.finalbody else None

        def inner(fr):
            try:
                r = body(fr)
            except Raised as ex:
                for ty, st, nm, hb in hs:
                    if ty is None or exc_match(ex, ty(fr)):
                        if st:
                            st(fr, ex.value)
                        old = fr.handled
                        fr.handled = ex
                        HANDLED.append(ex)
                        try:
                            return hb(fr)
                        finally:
                            HANDLED.pop()
                            fr.handled = old
                            if nm:
                                fr.vars.pop(nm, None)
                raise
            if r is None and orelse is not None:
                r = orelse(fr)
            return r

        if fin is None:
            return inner

        def f(fr):
            try:
                r = inner(fr)
            except Raised as ex:
                loc = CUR_LOC[0]
                old = fr.handled
                fr.handled = ex
                HANDLED.append(ex)
                try:
                    r2 = fin(fr)
                finally:
                    HANDLED.pop()
                    fr.handled = old
                if r2 is not None:
                    return r2
                CUR_LOC[0] = loc
                raise
            r2 = fin(fr)
            return r2 if r2 is not None else r
        return f

    s_TryStar = None

    def s_With(self, n):
        items = [(self.expr(i.context_expr), self.target(i.optional_vars) if i.optional_vars else None) for i in n.items]
        body = self.block(n.body)
        loc = self.loc(n)

        def run(fr, k):
            if k == len(items):
                return body(fr)
            e, t = items[k]
            cm = e(fr)
            CUR_LOC[0] = loc
            enter, exit_ = cm_methods(cm)
            v = call(enter, [])
            try:
                if t:
                    t(fr, v)
                r = run(fr, k + 1)
            except Raised as ex:
                CUR_LOC[0] = loc
                HANDLED.append(ex)
                try:
                    if truth(call(exit_, [ex.value.cls, ex.value, traceback_of(ex.value)])):
                        return None
                finally:
                    HANDLED.pop()
                raise
            CUR_LOC[0] = loc
            call(exit_, [None, None, None])
            return r
        return lambda fr: run(fr, 0)

    def s_FunctionDef(self, n):
        mk = self.function(n, n.name)
        decs = [self.expr(d) for d in n.decorator_list]
        st = self.compile_name_store(n.name)

        def f(fr):
            ds = [d(fr) for d in decs]
            v = mk(fr)
            for d in reversed(ds):
                v = call(d, [v])
            st(fr, v)
        return f

    def s_ClassDef(self, n):
        bases = [self.expr(b) for b in n.bases]
        kws = [(k.arg, self.expr(k.value)) for k in n.keywords]
        decs = [self.expr(d) for d in n.decorator_list]
        st = self.compile_name_store(n.name)
        names, glob, nonl = assigned_names(n.body)
        self.scopes.append(("class", names, glob, nonl))
        self.qual.append(n.name)
        self.clsname = n.name
        body = self.block(n.body)
        self.qual.pop()
        self.scopes.pop()
        mod = self.mod
        doc = ast.get_docstring(n)
        loc = self.loc(n)

        def f(fr):
            ds = [d(fr) for d in decs]
            bs = []
            for b in bases:
                v = b(fr)
                while isinstance(v, AliasV):
                    v = v.origin
                if isinstance(v, NativeF) and v.name == "typing.Generic":
                    continue
                if isinstance(v, NativeF) and v.name == "typing.TypedDict":
                    v = TYPEDDICT[0]
                if isinstance(v, Unk):
                    v = UNKCLS
                if isinstance(v, NativeF):
                    v = call(v, []) if v.name.startswith("base:") else OBJECT
                if not isinstance(v, ClassV):
                    raise Unsupported(f"class base {v!r}")
                bs.append(v)
            if len(bs) > 1:
                bs = [b for b in bs if b is not OBJECT] or [OBJECT]
            kw = {k: e(fr) for k, e in kws}
            c2 = Frame("class", mod, fr if fr.code is not None else None)
            cls = ClassV(n.name, bs or [OBJECT], {}, mod.name)
            cls.loc = loc
            c2.cls = cls
            if fr.code is not None:
                c2.outer = fr
            c2.func = fr.func
            body(c2)
            fields = c2.vars.pop("__fields__", [])
            cls.fields = [x for x, _ in fields]
            cls.fieldtypes = dict(fields)
            cls.ns.update(c2.vars)
            if doc is not None:
                cls.ns.setdefault("__doc__", doc)
            if any(getattr(b, "is_protocol_base", False) for b in bs):
                cls.protocol = True
                cls.flags.add("proto")
            cls.typeddict = any(getattr(b, "typeddict", False) for b in bs)
            for b in bs:
                h = getattr(b, "subclass_hook", None)
                if h:
                    h(cls, kw)
            for k, a in list(cls.ns.items()):
                if isinstance(a, PropertyV) and a.cached is True:
                    a.cached = k
                if isinstance(a, Inst) and not a.cls.native:
                    sn = a.cls.lookup("__set_name__")
                    if isinstance(sn, FuncV):
                        call(sn, [a, cls, k])
            for b in cls.mro[1:]:
                isub = b.ns.get("__init_subclass__")
                if isub is not None and not b.native:
                    call(isub.f if isinstance(isub, ClassM) else isub, [cls], [(k, v) for k, v in kw.items() if k != "metaclass"])
                    break
            v = cls
            for d in reversed(ds):
                v = call(d, [v])
            st(fr, v)
        return f

    def s_Import(self, n):
        al = [(a.name, a.asname) for a in n.names]
        sts = [self.compile_name_store(asn or nm.split(".")[0]) for nm, asn in al]
        mod = self.mod

        def f(fr):
            for (nm, asn), st in zip(al, sts):
                m = import_module(nm)
                if asn is None and "." in nm:
                    m = import_module(nm.split(".")[0])
                st(fr, m)
        return f

    def s_ImportFrom(self, n):
        level, modname = n.level, n.module
        al = [(a.name, a.asname or a.name) for a in n.names]
        if modname == "__future__":
            return None
        sts = [self.compile_name_store(asn) if asn != "*" else None for _, asn in al]
        mod = self.mod

        def f(fr):
            base = modname
            if level:
                pkg = mod.name if mod.ns.get("__ispkg__") else mod.name.rpartition(".")[0]
                for _ in range(level - 1):
                    pkg = pkg.rpartition(".")[0]
                base = f"{pkg}.{modname}" if modname else pkg
            m = import_module(base)
            for (nm, asn), st in zip(al, sts):
                if nm == "*":
                    names = m.ns.get("__all__")
                    names = [x for x in iterate(names)] if names is not None else [k for k in m.ns if not k.startswith("_")]
                    for x in names:
                        touch(mod, x)
                        mod.ns[x] = getattr_(m, x)
                    continue
                v = _getattr(m, nm)
                if v is _MISSING:
                    try:
                        v = import_module(f"{base}.{nm}")
                    except Raised:
                        throw("ImportError", f"cannot import name '{nm}' from '{base}'")
                st(fr, v)
        return f

    def s_Match(self, n):
        subj = self.expr(n.subject)
        cases = [(self.pattern(c.pattern), self.expr(c.guard) if c.guard else None, self.block(c.body)) for c in n.cases]

        def f(fr):
            v = subj(fr)
            for p, g, b in cases:
                if p(fr, v) and (g is None or truth(g(fr))):
                    return b(fr)
        return f

    def pattern(self, p):
        if isinstance(p, ast.MatchValue):
            e = self.expr(p.value)
            return lambda fr, v: eq_(v, e(fr))
        if isinstance(p, ast.MatchSingleton):
            return lambda fr, v: is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            sub = self.pattern(p.pattern) if p.pattern else None
            st = self.compile_name_store(p.name) if p.name else None

            def f(fr, v):
                if sub and not sub(fr, v):
                    return False
                if st:
                    st(fr, v)
                return True
            return f
        if isinstance(p, ast.MatchOr):
            subs = [self.pattern(x) for x in p.patterns]
            return lambda fr, v: any(s(fr, v) for s in subs)
        if isinstance(p, ast.MatchClass):
            c = self.expr(p.cls)
            subs = [self.pattern(x) for x in p.patterns]
            kws = [(k, self.pattern(x)) for k, x in zip(p.kwd_attrs, p.kwd_patterns)]

            def f(fr, v):
                cls = c(fr)
                if not isinstance_(v, cls):
                    return False
                if subs:
                    if len(subs) == 1 and cls in (STR, INT, FLOAT, BOOL, LIST, DICT, TUPLE, SET, BYTES):
                        if not subs[0](fr, v):
                            return False
                    else:
                        raise Unsupported("class pattern")
                for k, s in kws:
                    a = getattr_(v, k, None)
                    if not s(fr, a):
                        return False
                return True
            return f
        if isinstance(p, ast.MatchSequence):
            subs = [self.pattern(x) for x in p.patterns]
            if any(isinstance(x, ast.MatchStar) for x in p.patterns):
                raise Unsupported("star pattern")

            def f(fr, v):
                if not isinstance(v, tuple) and not (isinstance(v, Inst) and (v.cls.issub(LIST))):
                    return False
                xs = tolist(v)
                return len(xs) == len(subs) and all(s(fr, x) for s, x in zip(subs, xs))
            return f

        def f(fr, v):
            raise Unsupported("match pattern")
        return f

    # -- generator-mode statements
    def gblock(self, stmts):
        fs = [(has_yield([s]), self.gstmt(s) if has_yield([s]) else self.stmt(s)) for s in stmts]
        fs = [(y, f) for y, f in fs if f is not None]

        def run(fr):
            for y, f in fs:
                r = (yield from f(fr)) if y else f(fr)
                if r is not None:
                    return r
            return None
        return run

    def yield_expr(self, e):
        """generator fn evaluating an expression whose top is a yield"""
        if isinstance(e, ast.Yield):
            v = self.expr(e.value) if e.value else (lambda fr: None)

            def f(fr):
                s = yield v(fr)
                return s
            return f
        if isinstance(e, ast.YieldFrom):
            v = self.expr(e.value)

            def f(fr):
                src = v(fr)
                it = iterate(src)
                if isinstance(src, IterV) and src.gen:
                    r = yield from it
                    return r
                for x in it:
                    yield x
                return None
            return f
        return None

    def gstmt(self, n):
        loc = self.loc(n)
        g = self._gstmt(n)

        def run(fr):
            CUR_LOC[0] = loc
            r = yield from g(fr)
            return r
        return run

    def _gstmt(self, n):
        if isinstance(n, ast.Expr):
            y = self.yield_expr(n.value)
            if y:
                def f(fr):
                    yield from y(fr)
                return f
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            y = self.yield_expr(n.value)
            if y:
                ts = [self.target(t) for t in (n.targets if isinstance(n, ast.Assign) else [n.target])]

                def f(fr):
                    v = yield from y(fr)
                    for t in ts:
                        t(fr, v)
                return f
        if isinstance(n, ast.Return) and n.value is not None:
            y = self.yield_expr(n.value)
            if y:
                def f(fr):
                    v = yield from y(fr)
                    return ("ret", v)
                return f
        if isinstance(n, ast.If) and not has_yield([ast.Expr(n.test)]):
            t, b, o = self.expr(n.test), self.gblock(n.body), self.gblock(n.orelse)

            def f(fr):
                return (yield from (b if truth(t(fr)) else o)(fr))
            return f
        if isinstance(n, ast.For) and not has_yield([ast.Expr(n.iter)]):
            it, tg, body, orelse = self.expr(n.iter), self.target(n.target), self.gblock(n.body), self.gblock(n.orelse)

            def f(fr):
                for x in iterate(it(fr)):
                    tg(fr, x)
                    r = yield from body(fr)
                    if r is not None:
                        if r is BRK:
                            return None
                        if r is CNT:
                            continue
                        return r
                return (yield from orelse(fr))
            return f
        if isinstance(n, ast.While) and not has_yield([ast.Expr(n.test)]):
            t, body, orelse = self.expr(n.test), self.gblock(n.body), self.gblock(n.orelse)

            def f(fr):
                k = 0
                while truth(t(fr)):
                    k += 1
                    if k > 3000:
                        raise PathLimit("while loop bound")
                    r = yield from body(fr)
                    if r is not None:
                        if r is BRK:
                            return None
                        if r is CNT:
                            continue
                        return r
                return (yield from orelse(fr))
            return f
        if isinstance(n, ast.Try):
            body, hs = self.gblock(n.body), self.handlers(n, gen=True)
            orelse = self.gblock(n.orelse)
            fin = self.gblock(n.finalbody)

            def inner(fr):
                try:
                    r = yield from body(fr)
                except Raised as ex:
                    for ty, st, nm, hb in hs:
                        if ty is None or exc_match(ex, ty(fr)):
                            if st:
                                st(fr, ex.value)
                            old = fr.handled
                            fr.handled = ex
                            try:
                                return (yield from hb(fr))
                            finally:
                                fr.handled = old
                    raise
                if r is None:
                    r = yield from orelse(fr)
                return r

            def f(fr):
                try:
                    r = yield from inner(fr)
                except Raised:
                    r2 = yield from fin(fr)
                    if r2 is not None:
                        return r2
                    raise
                except GeneratorExit:
                    for _ in fin(fr):
                        pass
                    raise
                r2 = yield from fin(fr)
                return r2 if r2 is not None else r
            return f
        if isinstance(n, ast.With):
            items = [(self.expr(i.context_expr), self.target(i.optional_vars) if i.optional_vars else None) for i in n.items]
            body = self.gblock(n.body)

            def run(fr, k):
                if k == len(items):
                    return (yield from body(fr))
                e, t = items[k]
                enter, exit_ = cm_methods(e(fr))
                v = call(enter, [])
                try:
                    if t:
                        t(fr, v)
                    r = yield from run(fr, k + 1)
                except Raised as ex:
                    if truth(call(exit_, [ex.value.cls, ex.value, traceback_of(ex.value)])):
                        return None
                    raise
                call(exit_, [None, None, None])
                return r
            return lambda fr: run(fr, 0)
        what = type(n).__name__

        def bad(fr):
            raise Unsupported(f"yield inside {what}")
            yield
        return bad

    # -- targets
    def mangle(self, name):
        if name.startswith("__") and not name.endswith("__"):
            for i in range(len(self.scopes) - 1, -1, -1):
                if self.scopes[i][0] == "class":
                    # qualname index: scopes[0] is module
                    cn = self.qual[i - 1] if i - 1 < len(self.qual) else ""
                    return "_" + cn.lstrip("_") + name
        return name

    def target(self, t):
        if isinstance(t, ast.Name):
            return self.compile_name_store(t.id)
        loc = self.loc(t)
        if isinstance(t, ast.Attribute):
            o, name = self.expr(t.value), self.mangle(t.attr)

            def f(fr, v):
                ob = o(fr)
                CUR_LOC[0] = loc
                setattr_(ob, name, v)
            return f
        if isinstance(t, ast.Subscript):
            o, i = self.expr(t.value), self.expr(t.slice)

            def f(fr, v):
                ob = o(fr)
                ix = i(fr)
                CUR_LOC[0] = loc
                setitem(ob, ix, v)
            return f
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            ts = [self.target(e.value if isinstance(e, ast.Starred) else e) for e in t.elts]
            n = len(ts)

            def f(fr, v):
                xs = tolist(v)
                if star:
                    s = star[0]
                    if len(xs) < n - 1:
                        throw("ValueError", "not enough values to unpack")
                    after = n - s - 1
                    parts = xs[:s] + [mklist(xs[s:len(xs) - after])] + xs[len(xs) - after:]
                    xs = parts
                elif len(xs) != n:
                    throw("ValueError", f"{'not enough' if len(xs) < n else 'too many'} values to unpack (expected {n})")
                for tt, x in zip(ts, xs):
                    tt(fr, x)
            return f
        raise Unsupported("assignment target")

    # -- expressions
    def expr(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            what, loc = type(n).__name__, self.loc(n)

            def f(fr):
                raise Unsupported(f"expression {what} at {loc_str(loc)}")
            return f
        return m(n)

    def e_Constant(self, n):
        v = n.value
        return lambda fr: v

    def e_Name(self, n):
        if n.id == "__class__":
            return lambda fr: (fr.func.cls if fr.func else None)
        return self.compile_name_load(n.id, n)

    def e_Attribute(self, n):
        o, name, loc = self.expr(n.value), self.mangle(n.attr), self.loc(n)

        def f(fr):
            v = o(fr)
            CUR_LOC[0] = loc
            return getattr_(v, name)
        return f

    def e_Subscript(self, n):
        o, i, loc = self.expr(n.value), self.expr(n.slice), self.loc(n)

        def f(fr):
            a, b = o(fr), i(fr)
            CUR_LOC[0] = loc
            return getitem(a, b)
        return f

    def e_Slice(self, n):
        a, b, c = [self.expr(x) if x else (lambda fr: None) for x in (n.lower, n.upper, n.step)]
        return lambda fr: slice(a(fr), b(fr), c(fr))

    def e_BinOp(self, n):
        a, b, op, loc = self.expr(n.left), self.expr(n.right), type(n.op).__name__, self.loc(n)

        def f(fr):
            x = a(fr)
            y = b(fr)
            CUR_LOC[0] = loc
            return binop(op, x, y)
        return f

    def e_UnaryOp(self, n):
        a, op = self.expr(n.operand), type(n.op).__name__
        if op == "Not":
            return lambda fr: not truth(a(fr))
        return lambda fr: unaryop(op, a(fr))

    def e_BoolOp(self, n):
        es = [self.expr(x) for x in n.values]
        isand = isinstance(n.op, ast.And)

        def f(fr):
            v = None
            last = len(es) - 1
            for i, e in enumerate(es):
                v = e(fr)
                if i == last:
                    return v
                if truth(v) != isand:
                    return v
            return v
        return f

    def e_Compare(self, n):
        l = self.expr(n.left)
        rs = [(type(o).__name__, self.expr(c)) for o, c in zip(n.ops, n.comparators)]
        loc = self.loc(n)
        if len(rs) == 1:
            op, r = rs[0]

            def f(fr):
                a = l(fr)
                b = r(fr)
                CUR_LOC[0] = loc
                return compare(op, a, b)
            return f

        def f(fr):
            a = l(fr)
            res = True
            for op, r in rs:
                b = r(fr)
                CUR_LOC[0] = loc
                res = compare(op, a, b)
                if not truth(res):
                    return res
                a = b
            return res
        return f

    def e_IfExp(self, n):
        t, a, b = self.expr(n.test), self.expr(n.body), self.expr(n.orelse)
        return lambda fr: a(fr) if truth(t(fr)) else b(fr)

    def e_NamedExpr(self, n):
        v = self.expr(n.value)
        # walrus inside comprehension binds in the enclosing function
        name = n.target.id
        if self.scopes[-1][0] == "comp":
            def f(fr):
                x = v(fr)
                o = fr
                while o.code == "comp":
                    o = o.outer
                o.vars[name] = x
                return x
            return f
        st = self.compile_name_store(name)

        def f(fr):
            x = v(fr)
            st(fr, x)
            return x
        return f

    def e_JoinedStr(self, n):
        parts = []
        loc = self.loc(n)
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append((None, v.value, None))
            else:
                spec = self.expr(v.format_spec) if v.format_spec else None
                parts.append((self.expr(v.value), v.conversion, spec))

        def f(fr):
            out = []
            for e, c, spec in parts:
                if e is None:
                    CUR_LOC[0] = loc
                    out.append(T.Str([T.lit(c)]))
                    continue
                x = e(fr)
                CUR_LOC[0] = loc
                if c == 114 or c == 97:
                    x = repr_(x)
                elif c == 115:
                    x = str_(x)
                s = spec(fr) if spec else ""
                out.append(format_(x, s))
            CUR_LOC[0] = loc
            if not out:
                return ""
            r = T.concat(*out)
            c = T.const(r)
            return r
        return f

    def e_FormattedValue(self, n):
        return self.e_JoinedStr(ast.JoinedStr(values=[n], lineno=n.lineno, col_offset=0))

    def seq(self, elts):
        es = [(isinstance(e, ast.Starred), self.expr(e.value if isinstance(e, ast.Starred) else e)) for e in elts]

        def f(fr):
            out = []
            for s, e in es:
                if s:
                    out.extend(tolist(e(fr)))
                else:
                    out.append(e(fr))
            return out
        return f

    def e_Tuple(self, n):
        s = self.seq(n.elts)
        return lambda fr: tuple(s(fr))

    def e_List(self, n):
        s = self.seq(n.elts)
        return lambda fr: mklist(s(fr))

    def e_Set(self, n):
        s = self.seq(n.elts)
        return lambda fr: mkset(s(fr))

    def e_Dict(self, n):
        kv = [(self.expr(k) if k else None, self.expr(v)) for k, v in zip(n.keys, n.values)]

        def f(fr):
            d = mkdict()
            for k, v in kv:
                if k is None:
                    src = v(fr)
                    for kk, vv in mapping_items(src):
                        d.data.set(kk, vv)
                else:
                    kk = k(fr)
                    d.data.set(kk, v(fr))
            return d
        return f

    def e_Starred(self, n):
        raise Unsupported("starred")

    def e_Lambda(self, n):
        mk = self.function(n, "<lambda>", lam=True)
        return mk

    def comp(self, n, elt_fns):
        """returns (outer iter fn, host generator fn(fr0, first_iter))"""
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        first = self.expr(n.generators[0].iter)
        self.scopes.append(("comp", names, set(), set()))
        gens = []
        for i, g in enumerate(n.generators):
            if g.is_async:
                raise Unsupported("async comprehension")
            gens.append((None if i == 0 else self.expr(g.iter), self.target(g.target), [self.expr(c) for c in g.ifs]))
        elts = [self.expr(e) for e in elt_fns]
        self.scopes.pop()
        mod = self.mod

        def run(fr, it0):
            c = Frame("comp", mod, fr, fr.func)
            c.args0 = fr.args0

            def rec(k):
                if k == len(gens):
                    yield tuple(e(c) for e in elts)
                    return
                it, tg, conds = gens[k]
                for x in (it0 if k == 0 else iterate(it(c))):
                    tg(c, x)
                    if all(truth(cd(c)) for cd in conds):
                        yield from rec(k + 1)
            return rec(0)
        return first, run

    def char_comp(self, n, first, run):
        """the items of a comprehension that is only joined (or tested), over the characters of an open text"""
        how = getattr(n, "_chars", None)
        if how is None:
            return None

        def f(fr, src):
            text = charloop.open_text(src)
            if text is None:
                return None

            def one(c):
                xs = [x for (x,) in run(fr, iter([c]))]
                if how != "join":
                    return any(truth(x) for x in xs) if how == "any" else all(truth(x) for x in xs)
                ts = [text_of(x) for x in xs]
                return T.concat(*ts) if all(t is not None for t in ts) else None
            r = charloop.char_map(text, one) if how == "join" else charloop.char_test(text, one, how)
            return None if r is None else [r]
        return f

    def e_ListComp(self, n):
        first, run = self.comp(n, [n.elt])
        chars = self.char_comp(n, first, run)
        if chars:
            def f(fr):
                src = first(fr)
                xs = chars(fr, src)
                return mklist(xs if xs is not None else [x for (x,) in run(fr, iterate(src))])
            return f
        return lambda fr: mklist([x for (x,) in run(fr, iterate(first(fr)))])

    def e_SetComp(self, n):
        first, run = self.comp(n, [n.elt])
        return lambda fr: mkset([x for (x,) in run(fr, iterate(first(fr)))])

    def e_DictComp(self, n):
        first, run = self.comp(n, [n.key, n.value])
        return lambda fr: mkdict([(k, v) for k, v in run(fr, iterate(first(fr)))])

    def e_GeneratorExp(self, n):
        first, run = self.comp(n, [n.elt])
        chars = self.char_comp(n, first, run)

        def f(fr):
            src = first(fr)
            if chars:
                xs = chars(fr, src)
                if xs is not None:
                    return IterV(iter(xs), gen=True, name="genexpr")
            g = run(fr, iterate(src))
            return IterV((x for (x,) in g), gen=True, name="genexpr")
        return f

    def e_Call(self, n):
        fn = self.expr(n.func)
        loc = self.loc(n)
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            def f(fr):
                o = fr
                while o is not None and (o.func is None or o.code in ("comp",)):
                    o = o.outer
                func = fr.func
                a0 = fr.args0
                if func is None or func.cls is None:
                    throw("RuntimeError", "super(): no arguments")
                return SuperV(func.cls, a0)
            return f
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "vars") and not n.args:
            which = n.func.id
            mod = self.mod

            def f(fr):
                if which == "globals":
                    return Inst(DICT, ModDict(mod))
                return mkdict(fr.vars.items())
            return f
        simple = not any(isinstance(a, ast.Starred) for a in n.args) and all(k.arg for k in n.keywords)
        if getattr(n, "_chars", None) and simple:
            # map(f, text) that is only joined (or tested)
            how = n._chars
            a0, a1 = self.expr(n.args[0]), self.expr(n.args[1])

            def f(fr):
                g, fv, src = fn(fr), a0(fr), a1(fr)
                text = charloop.open_text(src) if g is BUILTINS["map"] else None
                if text is not None:
                    one = lambda c: call(fv, [c])
                    r = charloop.char_map(text, one) if how == "join" else charloop.char_test(text, one, how)
                    if r is not None:
                        return IterV(iter([r]), name="map")
                CUR_LOC[0] = loc
                return call(g, [fv, src])
            return f
        if (simple and isinstance(n.func, ast.Attribute) and n.func.attr == "isdisjoint" and len(n.args) == 1 and isinstance(n.func.value, ast.Call)
                and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id in ("set", "frozenset") and len(n.func.value.args) == 1
                and not n.func.value.keywords and not isinstance(n.func.value.args[0], ast.Starred)):
            # set(text).isdisjoint(characters)
            inner = n.func.value
            ctor, a0, a1, kind = self.expr(inner.func), self.expr(inner.args[0]), self.expr(n.args[0]), inner.func.id

            def f(fr):
                from .lib import disjoint
                g, x = ctor(fr), a0(fr)
                if g is BUILTINS[kind] and charloop.open_text(x) is not None:
                    return disjoint(x, a1(fr))
                CUR_LOC[0] = loc
                s = call(g, [x])
                return call(getattr_(s, "isdisjoint"), [a1(fr)])
            return f
        if simple:
            args = [self.expr(a) for a in n.args]
            kws = [(k.arg, self.expr(k.value)) for k in n.keywords]

            def f(fr):
                g = fn(fr)
                av = [a(fr) for a in args]
                kv = [(k, e(fr)) for k, e in kws] if kws else ()
                CUR_LOC[0] = loc
                r = call(g, av, kv)
                CUR_LOC[0] = loc
                return r
            return f
        seq = self.seq(n.args)
        kws = [(k.arg, self.expr(k.value)) for k in n.keywords]

        def f(fr):
            g = fn(fr)
            av = seq(fr)
            kv = []
            seen = set()
            for k, e in kws:
                if k is None:
                    for kk, vv in mapping_items(e(fr)):
                        t = text_of(kk)
                        if t is None:
                            throw("TypeError", "keywords must be strings")
                        tk = token(t)
                        if tk in seen:
                            throw("TypeError", f"got multiple values for keyword argument")
                        seen.add(tk)
                        c = T.const(t)
                        kv.append((c if c is not None else t, vv))
                else:
                    if ("s", k) in seen:
                        throw("TypeError", f"got multiple values for keyword argument '{k}'")
                    seen.add(("s", k))
                    kv.append((k, e(fr)))
            CUR_LOC[0] = loc
            r = call(g, av, kv)
            CUR_LOC[0] = loc
            return r
        return f

    def e_Await(self, n):
        raise Unsupported("await")

    def e_Yield(self, n):
        loc = self.loc(n)

        def f(fr):
            raise Unsupported(f"nested yield at {loc_str(loc)}")
        return f

    e_YieldFrom = e_Yield


LOOPHOOK = [None]
TYPEDDICT = [None]


class ModDict(DictData):
    """globals() view (read/write through to the module namespace)"""

    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod
        self.owner = mod
        self.nsym = 0

    @property
    def e(self):
        return {("s", k): [k, v] for k, v in self.mod.ns.items()}

    def find(self, key):
        c = T.const(key)
        if c is None:
            raise Unsupported("symbolic globals() key")
        return ("s", c) if c in self.mod.ns else None

    def set(self, key, val):
        self.mod.ns[T.const(key)] = val

    def delete(self, key):
        return self.mod.ns.pop(T.const(key), _MISSING) is not _MISSING

    def __len__(self):
        return len(self.mod.ns)


def mapping_items(src):
    if isinstance(src, Inst) and isinstance(src.data, DictData) and src.cls.issub(DICT):
        if not isinstance(src.cls.lookup("keys"), FuncV):
            return src.data.items()
    if isinstance(src, Inst):
        k = getattr_(src, "keys", None)
        if k is not None:
            return [(x, getitem(src, x)) for x in tolist(call(k, []))]
    unk(src)
    throw("TypeError", "argument after ** must be a mapping")


HANDLED = []  # exceptions being handled, innermost last
TRACEBACK = _nc("traceback")


def traceback_of(v):
    tb = Inst(TRACEBACK)
    tb.attrs().set("tb_next", None)
    tb.attrs().set("tb_lineno", T.Num("line", "int"))
    tb.attrs().set("tb_frame", Unk("frame"))
    return tb


def exc_match(ex, spec):
    if isinstance(spec, tuple):
        return any(exc_match(ex, s) for s in spec)
    if isinstance(spec, Unk):
        return False
    if not isinstance(spec, ClassV):
        throw("TypeError", "catching classes that do not inherit from BaseException is not allowed")
    return ex.value.cls.issub(spec)


def cm_methods(cm):
    t = type_of(unk(cm))
    en, ex = t.lookup("__enter__"), t.lookup("__exit__")
    if en is None or ex is None:
        throw("TypeError", f"'{t.name}' object does not support the context manager protocol")
    return bind(en, cm, t), bind(ex, cm, t)


BUILTINS = {}


def load_global(mod, name, loc):
    if name in mod.ns:
        return mod.ns[name]
    if name in BUILTINS:
        return BUILTINS[name]
    CUR_LOC[0] = loc
    if name == "__file__":
        return mod.file
    if name == "__builtins__":
        raise Unsupported("__builtins__")
    throw("NameError", f"name '{name}' is not defined")


# ------------------------------------------------------------------ modules
MODULES = {}
NATIVE_MODULES = {}  # name -> fn() -> ModV
SOURCE_PATHS = {}  # analysable source modules: name -> (path, display name, is package)


def import_module(name):
    if name in MODULES:
        return MODULES[name]
    if "." in name:
        import_module(name.rpartition(".")[0])
        if name in MODULES:
            return MODULES[name]
    if name in SOURCE_PATHS:
        return load_source(name)
    if name in NATIVE_MODULES:
        m = NATIVE_MODULES[name]()
        MODULES[name] = m
        par, _, leaf = name.rpartition(".")
        if par and par in MODULES:
            MODULES[par].ns[leaf] = m
        return m
    f = FALLBACK[0]
    if f is not None:
        m = f(name)
        if m is not None:
            MODULES[name] = m
            return m
    throw("ModuleNotFoundError", f"No module named '{name}'")


FALLBACK = [None]
PARSED = {}


def load_source(name):
    path, disp, ispkg = SOURCE_PATHS[name]
    with open(path, encoding="utf-8") as f:
        src = f.read()
    tree = ast.parse(src, path)
    PARSED[disp] = (src, tree)
    m = ModV(name)
    m.file = path
    m.ns["__name__"] = name
    m.ns["__file__"] = path
    m.ns["__ispkg__"] = ispkg
    m.ns["__package__"] = name if ispkg else name.rpartition(".")[0]
    m.ns["__doc__"] = ast.get_docstring(tree)
    MODULES[name] = m
    comp = Compiler(m, disp)
    body = comp.module_body(tree)
    fr = Frame(None, m, None)
    old = LOADING[0]
    LOADING[0] = True
    loc = CUR_LOC[0]
    try:
        body(fr)
    finally:
        LOADING[0] = old
        CUR_LOC[0] = loc
    par, _, leaf = name.rpartition(".")
    if par and par in MODULES:
        MODULES[par].ns[leaf] = m
    return m


from . import charloop  # noqa: E402
