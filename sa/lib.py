"""Models (transfer functions) of builtins and the library functions the package uses."""
from __future__ import annotations

import ast
import functools
import os as _os

from . import engine as E
from . import terms as T
from .engine import (ABC_CHECK, AliasV, BOOL, BUILTINS, BoundM, BytesV, ClassM, ClassV, DICT, DictData, EXC, FLOAT, FROZENSET,
                     FUNCTION, FuncV, HashV, INT, Inst, IterV, LIST, LenV, Lin, ModV, NATIVE_MODULES, NativeF, Num, OBJECT, P,
                     PropertyV, Raised, SET, STR, StaticM, Str, SuperV, TUPLE, TYPE, Unk, UnionV, Unsupported, ViewV, BoolV,
                     bind, call, call_method, contains, eq_, format_, getattr_, getitem, host, index_, is_, is_num, isinstance_,
                     iterate, len_, mapping_items, mkdict, mklist, mkset, next_, num_val, order_val, repr_, setattr_, slice_args,
                     str_, text_of, throw, token, tolist, touch, truth, type_of, unk)

NI = NotImplemented


def nat(cls, *names, rawkw=False, static=False):
    def deco(fn):
        for n in names:
            cls.ns[n] = NativeF(f"{cls.name}.{n}", fn, rawkw, static)
        return fn
    return deco


def bi(name, rawkw=False):
    def deco(fn):
        BUILTINS[name] = NativeF(name, fn, rawkw)
        return fn
    return deco


# ------------------------------------------------------------------ object / type
OBJECT.ns["__new__"] = E.OBJECT_NEW[0] = NativeF("object.__new__", lambda cls, *a, kw=(): Inst(cls), rawkw=True, static=True)
OBJECT.ns["__init__"] = E.OBJECT_INIT[0] = NativeF("object.__init__", lambda self, *a, kw=(): None, rawkw=True)


@nat(OBJECT, "__eq__")
def _(self, o):
    return True if is_(self, o) else NI


@nat(OBJECT, "__ne__")
def _(self, o):
    r = call_method(type_of(self).lookup("__eq__"), self, o)
    return NI if r is NI else not truth(r)


nat(OBJECT, "__hash__")(lambda self: HashV(("i", id(self))))
nat(OBJECT, "__repr__")(lambda self: repr_(self) if not isinstance(self, Inst) else T.concat("<", self.cls.name, " object at ", T.op("str", Num(E.obj_id(self), "int")), ">"))
nat(OBJECT, "__str__")(lambda self: repr_(self) if isinstance(self, Inst) else str_(self))
nat(OBJECT, "__format__")(lambda self, spec: str_(self))
nat(OBJECT, "__setattr__")(lambda self, n, v: E.object_setattr(self, n, v))
nat(OBJECT, "__init_subclass__")(lambda *a, **k: None)
nat(OBJECT, "__dir__")(lambda self: Unk("dir"))


@nat(OBJECT, "__getattribute__")
def _(self, n):
    r = E.inst_getattr(self, n) if isinstance(self, Inst) else E._getattr(self, n)
    if r is E._MISSING:
        throw("AttributeError", n)
    return r


@nat(OBJECT, "__delattr__")
def _(self, n):
    if self.d is not None and self.d.has(n):
        touch(self, n)
        self.d.delete(n)
    else:
        throw("AttributeError", n)


def _type_new(cls, *a, kw=()):
    if cls is TYPE and len(a) == 1:
        return type_of(unk(a[0]))
    if len(a) == 3:
        name, bases, ns = a
        c = ClassV(T.const(name) or "dyn", list(bases) or [OBJECT], {T.const(k): v for k, v in ns.data.items()}, "dyn")
        c.typeddict = False
        return c
    throw("TypeError", "type() takes 1 or 3 arguments")


TYPE.ns["__new__"] = NativeF("type.__new__", _type_new, rawkw=True, static=True)
TYPE.ns["__class_call__"] = lambda cls, args, kw: _type_new(cls, *args)
TYPE.ns["__call__"] = NativeF("type.__call__", lambda cls, *a, kw=(): call(cls, a, kw), rawkw=True)
E.NONETYPE.ns["__class_call__"] = lambda cls, args, kw: None


# exceptions
def _exc_new(cls, *a, kw=()):
    v = Inst(cls)
    v.attrs().set("args", tuple(a))
    return v


B = EXC["BaseException"]
B.ns["__new__"] = NativeF("BaseException.__new__", _exc_new, rawkw=True, static=True)


def _exc_init(self, *a, kw=()):
    self.attrs().set("args", tuple(a))


B.ns["__init__"] = NativeF("BaseException.__init__", _exc_init, rawkw=True)
nat(B, "with_traceback")(lambda self, tb: self)
nat(B, "add_note")(lambda self, n: None)
B.ns["__traceback__"] = None
B.ns["__cause__"] = None
B.ns["__context__"] = None
EXC["StopIteration"].ns["value"] = None


# ------------------------------------------------------------------ numbers
def _bool_new(cls, v=False):
    return v if isinstance(v, BoolV) else truth(v)


BOOL.ns["__new__"] = NativeF("bool", _bool_new, static=True)


def _int_new(cls, v=0, base=None):
    r = to_int(v, base)
    return r if cls is INT else Inst(cls, r)


def to_int(v, base=None):
    if isinstance(v, BoolV):
        return int(truth(v))
    if isinstance(v, (Lin, LenV)):
        return v
    if isinstance(v, (int, float)):
        return host(int, v)
    if isinstance(v, Num):
        return v if v.kind == "int" else Num(("int", v.name), "int")
    t = text_of(v)
    if t is not None:
        c = T.const(t)
        if c is not None:
            return host(int, c) if base is None else host(int, c, base)
        if P().decide(("isint", T.norm(t))):
            return Num(("int", T.norm(t)), "int")
        throw("ValueError", "invalid literal for int()")
    if isinstance(v, HashV):
        return v
    if isinstance(v, Inst):
        if isinstance(v.data, int):
            return v.data
        m = v.cls.lookup("__int__") or v.cls.lookup("__index__")
        if m is not None:
            return call_method(m, v)
    throw("TypeError", "int() argument")


INT.ns["__new__"] = NativeF("int", _int_new, static=True)


def _float_new(cls, v=0.0):
    if isinstance(v, (int, float)):
        r = float(v)
    elif isinstance(v, (Num, Lin, LenV)):
        r = v if isinstance(v, Num) and v.kind == "float" else Num(("float", T.freeze(v)))
    else:
        t = text_of(v)
        if t is None:
            m = type_of(v).lookup("__float__")
            if m is None:
                throw("TypeError", "float() argument")
            r = call_method(m, v)
        else:
            c = T.const(t)
            if c is not None:
                r = host(float, c)
            elif P().decide(("isfloat", T.norm(t))):
                r = Num(("float", T.norm(t)))
            else:
                throw("ValueError", "could not convert string to float")
    return r if cls is FLOAT else Inst(cls, r)


FLOAT.ns["__new__"] = NativeF("float", _float_new, static=True)
for _c in (INT, FLOAT):
    for _op, (_m, _r, _i) in E.BINOPS.items():
        def _f(a, b, _op=_op):
            a = a.data if isinstance(a, Inst) else a
            if isinstance(b, Inst) and is_num(b.data):
                b = b.data
            return E.num_binop(_op, a, b) if is_num(b) and is_num(a) else NI

        def _g(a, b, _op=_op):
            b = b.data if isinstance(b, Inst) else b
            a = a.data if isinstance(a, Inst) else a
            return E.num_binop(_op, b, a) if is_num(b) and is_num(a) else NI
        nat(_c, _m)(_f)
        nat(_c, _r)(_g)

    def _ieq(a, b):
        a = a.data if isinstance(a, Inst) else a
        b = b.data if isinstance(b, Inst) else b
        return E.num_cmp("==", a, b) if is_num(a) and is_num(b) else NI
    nat(_c, "__eq__")(_ieq)
    nat(_c, "__hash__")(lambda s: HashV(token(s)))
    for _o, _n in (("<", "__lt__"), ("<=", "__le__"), (">", "__gt__"), (">=", "__ge__")):
        nat(_c, _n)(lambda a, b, _o=_o: E.num_cmp(_o, a.data if isinstance(a, Inst) else a, b.data if isinstance(b, Inst) else b) if is_num(b) or (isinstance(b, Inst) and is_num(b.data)) else NI)
    nat(_c, "__str__", "__repr__")(lambda s: str_(s.data if isinstance(s, Inst) else s))
    nat(_c, "__bool__")(lambda s: truth(s.data if isinstance(s, Inst) else s))
    nat(_c, "__int__", "__index__")(lambda s: to_int(s))
    nat(_c, "__float__")(lambda s: _float_new(FLOAT, s))
    nat(_c, "__abs__")(lambda s: abs(s) if isinstance(s, (int, float)) else Num(("abs", T.freeze(s)), getattr(s, "kind", "int")))
nat(INT, "bit_length")(lambda s: host(s.bit_length))
nat(FLOAT, "is_integer")(lambda s: s.is_integer() if isinstance(s, float) else P().decide(("isinteger", s.name)))
nat(INT, "is_integer")(lambda s: True)
nat(FLOAT, "hex")(lambda s: s.hex() if isinstance(s, float) else T.op("fhex", s))


# ------------------------------------------------------------------ str
def S(v):
    t = text_of(v)
    if t is None:
        throw("TypeError", f"expected str, got {type_of(unk(v)).name}")
    return t


def _str_new(cls, v="", encoding=None, errors=None):
    if encoding is not None:
        r = bytes_decode(v, encoding)
    else:
        r = str_(v)
    if cls is STR:
        return text_of(r) if isinstance(r, Inst) and r.cls is STR else r
    return Inst(cls, S(r))


STR.ns["__new__"] = NativeF("str", _str_new, static=True)
STR.ns["__init__"] = OBJECT.ns["__init__"]


@nat(STR, "__add__")
def _(a, b):
    if text_of(b) is None:
        return NI
    return T.concat(S(a), S(b))


nat(STR, "__mul__", "__rmul__")(lambda a, n: E.str_repeat(S(a), n) if is_num(n) else NI)
nat(STR, "__mod__")(lambda a, b: E.percent(S(a), b))
nat(STR, "__eq__")(lambda a, b: T.eq(S(a), text_of(b)) if text_of(b) is not None else NI)
nat(STR, "__ne__")(lambda a, b: (not T.eq(S(a), text_of(b))) if text_of(b) is not None else NI)
nat(STR, "__contains__")(lambda a, b: T.contains(S(a), S(b)))
nat(STR, "__len__")(lambda a: T.length(S(a)))
nat(STR, "__getitem__")(lambda a, i: getitem(S(a), i))
nat(STR, "__iter__")(lambda a: IterV(iterate(S(a))))
nat(STR, "__str__")(lambda a: S(a))
nat(STR, "__repr__")(lambda a: repr_(S(a)))
nat(STR, "__hash__")(lambda a: HashV(token(a)))
nat(STR, "__format__")(lambda a, spec: format_(S(a), spec))
for _o, _n in (("<", "__lt__"), ("<=", "__le__"), (">", "__gt__"), (">=", "__ge__")):
    nat(STR, _n)(lambda a, b, _o=_o: E.str_order(_o, S(a), S(b)) if text_of(b) is not None else NI)
nat(STR, "upper")(lambda s: T.lower(S(s), "upper"))
nat(STR, "lower")(lambda s: T.lower(S(s), "lower"))
nat(STR, "casefold")(lambda s: T.lower(S(s), "casefold"))
for _n in ("capitalize", "title", "swapcase"):
    def _f(s, _n=_n):
        c = T.const(S(s))
        return getattr(c, _n)() if c is not None else T.op(_n, S(s))
    nat(STR, _n)(_f)
nat(STR, "strip")(lambda s, c=None: T.strip(S(s), None if c is None else S(c)))
nat(STR, "lstrip")(lambda s, c=None: T.strip(S(s), None if c is None else S(c), True, False))
nat(STR, "rstrip")(lambda s, c=None: T.strip(S(s), None if c is None else S(c), False, True))


def _affix(s, a, start, end, front):
    s = S(s)
    if start is not None or end is not None:
        s = getitem(s, slice(start, end))
    a = tuple(S(x) for x in a) if isinstance(a, tuple) else S(a)
    return (T.startswith if front else T.endswith)(s, a)


nat(STR, "startswith")(lambda s, a, start=None, end=None: _affix(s, a, start, end, True))
nat(STR, "endswith")(lambda s, a, start=None, end=None: _affix(s, a, start, end, False))


@nat(STR, "removeprefix")
def _(s, p):
    s, p = S(s), S(p)
    if T.startswith(s, p):
        c = T.const(p)
        if c is not None:
            return T.slice_str(s, len(c), None, None) if c else s
        n = T.norm(p)
        raise Unsupported("removeprefix")
    return s


@nat(STR, "removesuffix")
def _(s, p):
    s, p = S(s), S(p)
    c = T.const(p)
    if T.endswith(s, p):
        if c is not None:
            return T.slice_str(s, None, -len(c), None) if c else s
        raise Unsupported("removesuffix")
    return s


@nat(STR, "replace")
def _(s, old, new, count=-1):
    if not isinstance(count, int):
        raise Unsupported("replace count")
    return T.replace(S(s), S(old), S(new), count)


@nat(STR, "split")
def _(s, sep=None, maxsplit=-1):
    s = S(s)
    if sep is None:
        r = T.split_ws(s, maxsplit)
    else:
        if T.const(S(sep)) == "":
            throw("ValueError", "empty separator")
        r = T.split_sep(s, S(sep), maxsplit)
        if r is None:
            r = T.split_materialise(s, S(sep), maxsplit)
    if r is None:
        raise Unsupported("split of opaque string")
    return mklist(r)


@nat(STR, "rsplit")
def _(s, sep=None, maxsplit=-1):
    s = S(s)
    c = T.const(s)
    if c is not None and (sep is None or T.const(S(sep)) is not None):
        return mklist(host(c.rsplit, None if sep is None else T.const(S(sep)), maxsplit))
    if maxsplit == -1:
        return call(STR.ns["split"], [s, sep])
    if sep is not None and isinstance(maxsplit, int) and maxsplit >= 0:
        r = _split_all(s, S(sep))
        if len(r) > maxsplit + 1:
            n = len(r) - maxsplit
            r = [E.join(sep, r[:n]), *r[n:]]
        return mklist(r)
    raise Unsupported("rsplit of opaque string")


def _split_all(s, sep):
    if T.const(sep) == "":
        throw("ValueError", "empty separator")
    r = T.split_sep(s, sep, -1)
    if r is None:
        r = T.split_materialise(s, sep, -1)
    if r is None:
        raise Unsupported("split of opaque string")
    return r


@nat(STR, "partition")
def _(s, sep):
    s, sep = S(s), S(sep)
    c, cs = T.const(s), T.const(sep)
    if c is not None and cs is not None:
        return host(c.partition, cs)
    r = T.split_sep(s, sep, 1)
    if r is None:
        r = T.split_materialise(s, sep, 1)
    if r is None:
        raise Unsupported("partition")
    return (r[0], sep, r[1]) if len(r) == 2 else (r[0], "", "")


@nat(STR, "rpartition")
def _(s, sep):
    c, cs = T.const(S(s)), T.const(S(sep))
    if c is not None and cs is not None:
        return host(c.rpartition, cs)
    r = _split_all(S(s), S(sep))
    if len(r) == 1:
        return ("", "", r[0])
    return (E.join(sep, r[:-1]), sep, r[-1])


@nat(STR, "splitlines")
def _(s, keepends=False):
    c = T.const(S(s))
    if c is not None:
        return mklist(c.splitlines(keepends))
    nl = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"
    if not T.contains_any(S(s), nl):
        return mklist([S(s)] if T.nonempty(S(s)) else [])
    r = T.splitlines_terms(S(s), keepends)
    if r is None:
        raise Unsupported("splitlines of opaque string")
    return mklist(r)


@nat(STR, "join")
def _(sep, it):
    items = []
    for x in tolist(it):
        t = text_of(x)
        if t is None:
            throw("TypeError", f"sequence item: expected str instance, {type_of(unk(x)).name} found")
        items.append(t)
    return E.join(S(sep), items)


def _find(s, sub, start, end, name):
    s, sub = S(s), S(sub)
    c, cs = T.const(s), T.const(sub)
    if c is not None and cs is not None:
        return host(getattr(c, name), cs, *([start] if end is None else [start, end]) if start is not None else [])
    if start is None and not T.contains(s, sub):
        if name.endswith("index"):
            throw("ValueError", "substring not found")
        return -1
    if end is None and cs and (start is None or start == 0 or isinstance(start, T.LenV)):
        pre, rest = "", s
        if isinstance(start, T.LenV):
            pre, rest = start.s, T.cut_prefix(s, start.s)
            if rest is not None and not T.contains(rest, sub):
                if name.endswith("index"):
                    throw("ValueError", "substring not found")
                return -1
        r = None
        if rest is not None:
            n = -1 if name[0] == "r" else 1
            r = T.split_sep(rest, sub, n)
            if r is None:
                r = T.split_materialise(rest, sub, n)
        if r is not None and len(r) > 1:
            head, tail = E.join(sub, r[:-1]), r[-1]
            head = T.concat(pre, head)
            if T.const(head) is not None:
                return len(T.const(head))
            return T.LenV(head, T.concat(sub, tail))
    return Num(("find", name, T.norm(s), T.norm(sub), T.freeze(start)), "int")


for _n in ("find", "rfind", "index", "rindex"):
    nat(STR, _n)(lambda s, sub, start=None, end=None, _n=_n: _find(s, sub, start, end, _n))


@nat(STR, "count")
def _(s, sub, start=None, end=None):
    c, cs = T.const(S(s)), T.const(S(sub))
    if c is not None and cs is not None:
        return c.count(cs)
    if not T.contains(S(s), S(sub)):
        return 0
    return Num(("count", T.norm(S(s)), T.norm(S(sub))), "int")


@nat(STR, "encode")
def _(s, encoding="utf-8", errors="strict"):
    c = T.const(S(s))
    if c is not None and isinstance(encoding, str):
        return host(c.encode, encoding, errors)
    return BytesV(S(s), T.const(encoding).lower().replace("_", "-") + ("" if errors == "strict" else ":" + errors))


def bytes_decode(b, encoding="utf-8", errors="strict"):
    if isinstance(b, bytes):
        return host(b.decode, encoding, errors)
    if isinstance(b, BytesV):
        if b.enc == encoding.lower():
            return b.s
        return T.op("decode", b.s, b.enc, encoding)
    throw("TypeError", "decode")


@nat(STR, "translate")
def _(s, table):
    s = S(s)
    m = {}
    if not (isinstance(table, Inst) and isinstance(table.data, DictData)):
        raise Unsupported("translate table")
    for k, v in table.data.items():
        if not isinstance(k, int):
            continue
        if v is None:
            m[chr(k)] = ""
        elif isinstance(v, int):
            m[chr(k)] = chr(v)
        else:
            c = T.const(S(v))
            if c is None:
                raise Unsupported("translate image")
            m[chr(k)] = c
    return T.apply_hom(s, m)


@nat(STR, "maketrans", static=True)
def _(x, y=None, z=None):
    if y is None:
        out = []
        for k, v in x.data.items():
            out.append((ord(T.const(k)) if not isinstance(k, int) else k, v))
        return mkdict(out)
    return mkdict([(k, v) for k, v in str.maketrans(T.const(x), T.const(y), *([T.const(z)] if z is not None else [])).items()])


@nat(STR, "format")
def _(s, *args, **kw):
    import string

    c = T.const(S(s))
    if c is None:
        raise Unsupported("format on opaque template")
    out, auto = [], 0
    for lit, field, spec, conv in host(lambda: list(string.Formatter().parse(c))):
        if lit:
            out.append(Str([T.lit(lit)]))
        if field is None:
            continue
        head, rest = _split_field(field)
        if head == "":
            v = args[auto] if auto < len(args) else throw("IndexError", "Replacement index out of range")
            auto += 1
        elif head.isdigit():
            v = args[int(head)] if int(head) < len(args) else throw("IndexError", "Replacement index out of range")
        else:
            v = kw[head] if head in kw else throw("KeyError", head)
        for isattr, nm in rest:
            v = getattr_(v, nm) if isattr else getitem(v, int(nm) if nm.isdigit() else nm)
        if conv == "r":
            v = repr_(v)
        elif conv == "s":
            v = str_(v)
        out.append(format_(v, spec or ""))
    return T.concat(*out) if out else ""


def _split_field(field):
    import _string

    h, r = _string.formatter_field_name_split(field)
    return str(h), [(a, str(n)) for a, n in r]


@nat(STR, "format_map")
def _(s, m):
    return STR.ns["format"].fn(s, **{T.const(k): v for k, v in mapping_items(m)})


for _n in ("isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "isidentifier", "isnumeric", "isdecimal", "isascii", "isprintable", "istitle"):
    def _f(s, _n=_n):
        s = S(s)
        c = T.const(s)
        if c is not None:
            return getattr(c, _n)()
        return T.char_pred(s, _n)
    nat(STR, _n)(_f)
for _n in ("ljust", "rjust", "center", "zfill"):
    def _f(s, w, fill=None, _n=_n):
        c = T.const(S(s))
        a = [w] + ([fill] if fill is not None else [])
        return host(getattr(c, _n), *a) if c is not None and isinstance(w, int) else T.op(_n, S(s), *a)
    nat(STR, _n)(_f)


@nat(STR, "expandtabs")
def _(s, tabsize=8):
    c = T.const(S(s))
    return c.expandtabs(tabsize) if c is not None else (S(s) if not T.contains_any(S(s), "\t") else T.op("expandtabs", S(s)))


# bytes
nat(E.BYTES, "decode")(bytes_decode)
nat(E.BYTES, "__len__")(lambda b: len(b) if isinstance(b, bytes) else LenV(T.op("bytes", b.s)))
E.BYTES.ns["__new__"] = NativeF("bytes", lambda cls, v=b"", enc=None: call(STR.ns["encode"], [v, enc]) if enc is not None else (v if isinstance(v, (bytes, BytesV)) else throw("TypeError", "bytes")), static=True)
nat(E.BYTES, "hex")(lambda b: b.hex() if isinstance(b, bytes) else T.op("hex", b))


@nat(E.BYTES, "__add__")
def _(a, b):
    if isinstance(a, bytes) and isinstance(b, bytes):
        return a + b

    def term(x):
        if isinstance(x, BytesV):
            return x.s, x.enc
        return host(x.decode, "utf-8"), "utf-8"
    (s1, e1), (s2, e2) = term(a), term(b)
    if e1.split(":")[0] != e2.split(":")[0]:
        raise Unsupported("bytes concat")
    return BytesV(T.concat(s1, s2), e1 if ":" in e1 else e2)


# ------------------------------------------------------------------ list
def _list_new(cls, *a, kw=()):
    return Inst(cls, [])


LIST.ns["__new__"] = NativeF("list.__new__", _list_new, rawkw=True, static=True)


@nat(LIST, "__init__")
def _(self, it=None):
    xs = tolist(it) if it is not None else []
    if self.data:
        touch(self, "init")
    self.data = xs


nat(LIST, "__len__")(lambda s: len(s.data))
nat(LIST, "__iter__")(lambda s: IterV(E.list_iter(s)))


@nat(LIST, "__reversed__")
def _(s):
    def g():
        i = len(s.data) - 1
        while i >= 0:
            if i < len(s.data):
                yield s.data[i]
            i -= 1
    return IterV(g())


@nat(LIST, "__getitem__")
def _(s, i):
    if isinstance(i, slice):
        return mklist(s.data[slice_args(i)])
    j = index_(i)
    if not isinstance(j, int):
        raise Unsupported("opaque list index")
    if not -len(s.data) <= j < len(s.data):
        throw("IndexError", "list index out of range")
    return s.data[j]


@nat(LIST, "__setitem__")
def _(s, i, v):
    if isinstance(i, slice):
        xs = tolist(v)
        touch(s, "slice assignment")
        host(s.data.__setitem__, slice_args(i), xs)
        return
    j = index_(i)
    if not isinstance(j, int):
        raise Unsupported("opaque list index")
    if not -len(s.data) <= j < len(s.data):
        throw("IndexError", "list assignment index out of range")
    touch(s, "item assignment")
    s.data[j] = v


@nat(LIST, "__delitem__")
def _(s, i):
    touch(s, "del")
    if isinstance(i, slice):
        del s.data[slice_args(i)]
    else:
        j = index_(i)
        if not -len(s.data) <= j < len(s.data):
            throw("IndexError", "list assignment index out of range")
        del s.data[j]


@nat(LIST, "append")
def _(s, v):
    touch(s, "append")
    s.data.append(v)


@nat(LIST, "extend")
def _(s, it):
    xs = tolist(it) if it is not s else list(s.data)
    touch(s, "extend")
    s.data.extend(xs)


@nat(LIST, "__iadd__")
def _(s, it):
    LIST.ns["extend"].fn(s, it)
    return s


@nat(LIST, "insert")
def _(s, i, v):
    j = index_(i)
    if isinstance(j, Lin):
        # insertion index as opaque int: partition on position
        n = len(s.data)
        for k in range(n):
            if T.lin_cmp(j, "<=", k):
                j = k
                break
        else:
            j = n
    if not isinstance(j, int):
        raise Unsupported("opaque insert index")
    touch(s, "insert")
    s.data.insert(j, v)


@nat(LIST, "pop")
def _(s, i=-1):
    j = index_(i)
    if not s.data:
        throw("IndexError", "pop from empty list")
    if not -len(s.data) <= j < len(s.data):
        throw("IndexError", "pop index out of range")
    touch(s, "pop")
    return s.data.pop(j)


@nat(LIST, "remove")
def _(s, v):
    for i, x in enumerate(list(s.data)):
        if x is v or eq_(x, v):
            touch(s, "remove")
            del s.data[i]
            return
    throw("ValueError", "list.remove(x): x not in list")


@nat(LIST, "clear")
def _(s):
    touch(s, "clear")
    s.data.clear()


@nat(LIST, "reverse")
def _(s):
    touch(s, "reverse")
    s.data.reverse()


nat(LIST, "copy")(lambda s: mklist(s.data))
nat(LIST, "count")(lambda s, v: sum(1 for x in s.data if x is v or eq_(x, v)))


@nat(LIST, "index")
def _(s, v, start=0, stop=None):
    for i, x in enumerate(s.data):
        if i < start or (stop is not None and i >= stop):
            continue
        if x is v or eq_(x, v):
            return i
    throw("ValueError", "is not in list")


def sort_values(xs, key=None, reverse=False):
    ks = [(call(key, [x]) if key is not None else x) for x in xs]
    idx = list(range(len(xs)))

    def cmp(i, j):
        if truth(order_val("<", ks[i], ks[j])):
            return -1
        if truth(order_val("<", ks[j], ks[i])):
            return 1
        return 0
    rev = truth(reverse)
    idx.sort(key=functools.cmp_to_key(cmp), reverse=rev)
    return [xs[i] for i in idx]


@nat(LIST, "sort")
def _(s, key=None, reverse=False):
    xs = sort_values(list(s.data), key, reverse)
    touch(s, "sort")
    s.data[:] = xs


@nat(LIST, "__add__")
def _(a, b):
    if not (isinstance(b, Inst) and isinstance(b.data, list) and b.cls.issub(LIST)):
        return NI
    return mklist(a.data + b.data)


nat(LIST, "__mul__", "__rmul__")(lambda a, n: mklist(a.data * n) if isinstance(n, int) else NI)


@nat(LIST, "__imul__")
def _(a, n):
    touch(a, "imul")
    a.data[:] = a.data * n
    return a


@nat(LIST, "__eq__")
def _(a, b):
    if not (isinstance(b, Inst) and isinstance(b.data, list)):
        return NI
    if len(a.data) != len(b.data):
        return False
    return all(x is y or eq_(x, y) for x, y in zip(a.data, b.data))


nat(LIST, "__contains__")(lambda s, v: any(x is v or eq_(x, v) for x in list(s.data)))
nat(LIST, "__repr__")(lambda s: T.concat("[", E.join(", ", [repr_(x) for x in s.data]), "]"))


def _seqorder(op):
    def f(a, b):
        if not isinstance(b, Inst) or not isinstance(b.data, list):
            return NI
        return order_val(op, tuple(a.data), tuple(b.data))
    return f


for _o, _n in (("<", "__lt__"), ("<=", "__le__"), (">", "__gt__"), (">=", "__ge__")):
    nat(LIST, _n)(_seqorder(_o))


# ------------------------------------------------------------------ tuple
def _tup(v):
    return v.data if isinstance(v, Inst) else v


def _tuple_new(cls, it=()):
    t = it if isinstance(it, tuple) and cls is TUPLE else tuple(tolist(it))
    return t if cls is TUPLE else Inst(cls, t)


TUPLE.ns["__new__"] = NativeF("tuple", _tuple_new, static=True)
nat(TUPLE, "__len__")(lambda s: len(_tup(s)))
nat(TUPLE, "__iter__")(lambda s: IterV(iter(_tup(s))))
nat(TUPLE, "__getitem__")(lambda s, i: getitem(_tup(s), i))
nat(TUPLE, "__contains__")(lambda s, v: contains(_tup(s), v))
nat(TUPLE, "__eq__")(lambda s, v: E.eq_val(_tup(s), _tup(v)) if isinstance(_tup(v), tuple) else NI)
nat(TUPLE, "__hash__")(lambda s: HashV(token(_tup(s))))
nat(TUPLE, "__repr__")(lambda s: repr_(_tup(s)))
nat(TUPLE, "count")(lambda s, v: sum(1 for x in _tup(s) if x is v or eq_(x, v)))


@nat(TUPLE, "__add__")
def _(a, b):
    b = _tup(b)
    return _tup(a) + b if isinstance(b, tuple) else NI


nat(TUPLE, "__mul__", "__rmul__")(lambda a, n: _tup(a) * n if isinstance(n, int) else NI)


@nat(TUPLE, "index")
def _(s, v):
    for i, x in enumerate(_tup(s)):
        if x is v or eq_(x, v):
            return i
    throw("ValueError", "tuple.index(x): x not in tuple")


# ------------------------------------------------------------------ dict
def _dict_new(cls, *a, kw=()):
    return Inst(cls, DictData())


DICT.ns["__new__"] = NativeF("dict.__new__", _dict_new, rawkw=True, static=True)


def dict_merge(s, src):
    if isinstance(src, Inst) and isinstance(src.data, DictData) and src.cls.issub(DICT) and not isinstance(src.cls.lookup("keys"), FuncV) and not isinstance(src.cls.lookup("__iter__"), FuncV):
        items = src.data.items()
    elif isinstance(src, Inst) and E._getattr(src, "keys") is not E._MISSING:
        items = [(k, getitem(src, k)) for k in tolist(call(getattr_(src, "keys"), []))]
    else:
        items = []
        for p in iterate(src):
            kv = tolist(p)
            if len(kv) != 2:
                throw("ValueError", "dictionary update sequence element has wrong length")
            items.append(tuple(kv))
    for k, v in items:
        s.data.set(k, v)


def _dict_update(s, *args, kw=()):
    if len(args) > 1:
        throw("TypeError", f"update expected at most 1 argument, got {len(args)}")
    if args or kw:
        touch(s, "update")
    for a in args:
        dict_merge(s, a)
    for k, v in kw:
        s.data.set(k, v)


def _dict_init(s, *args, kw=()):
    if len(args) > 1:
        throw("TypeError", f"dict expected at most 1 argument, got {len(args)}")
    for a in args:
        dict_merge(s, a)
    for k, v in kw:
        s.data.set(k, v)


nat(DICT, "__init__", rawkw=True)(_dict_init)
nat(DICT, "update", rawkw=True)(_dict_update)
nat(DICT, "__len__")(lambda s: len(s.data))
nat(DICT, "__iter__")(lambda s: IterV(E.dict_iter(s, "keys")))
nat(DICT, "__contains__")(lambda s, k: s.data.has(k))


@nat(DICT, "__getitem__")
def _(s, k):
    tk = s.data.find(k)
    if tk is None:
        m = s.cls.lookup("__missing__")
        if m is not None:
            return call_method(m, s, k)
        throw("KeyError", k)
    return s.data.e[tk][1]


@nat(DICT, "__setitem__")
def _(s, k, v):
    touch(s, "item assignment")
    s.data.set(k, v)


@nat(DICT, "__delitem__")
def _(s, k):
    touch(s, "del")
    if not s.data.delete(k):
        throw("KeyError", k)


nat(DICT, "get")(lambda s, k, d=None: s.data.get(k, d))


@nat(DICT, "pop")
def _(s, k, *d):
    tk = s.data.find(k)
    if tk is None:
        if d:
            return d[0]
        throw("KeyError", k)
    touch(s, "pop")
    return s.data.e.pop(tk)[1]


@nat(DICT, "popitem")
def _(s):
    if not len(s.data):
        throw("KeyError", "popitem(): dictionary is empty")
    touch(s, "popitem")
    tk = list(s.data.e)[-1]
    return tuple(s.data.e.pop(tk))


@nat(DICT, "setdefault")
def _(s, k, d=None):
    tk = s.data.find(k)
    if tk is not None:
        return s.data.e[tk][1]
    touch(s, "setdefault")
    s.data.set(k, d)
    return d


@nat(DICT, "clear")
def _(s):
    touch(s, "clear")
    s.data.e = {}
    s.data.nsym = 0


nat(DICT, "copy")(lambda s: mkdict(s.data.items()))
nat(DICT, "keys")(lambda s: ViewV("keys", s))
nat(DICT, "values")(lambda s: ViewV("values", s))
nat(DICT, "items")(lambda s: ViewV("items", s))
nat(DICT, "__reversed__")(lambda s: IterV(iter(s.data.keys()[::-1])))


@nat(DICT, "__eq__")
def _(a, b):
    if not (isinstance(b, Inst) and isinstance(b.data, DictData) and b.cls.issub(DICT)):
        return NI
    if len(a.data) != len(b.data):
        return False
    for k, v in a.data.items():
        tk = b.data.find(k)
        if tk is None:
            return False
        w = b.data.e[tk][1]
        if not (w is v or eq_(v, w)):
            return False
    return True


@nat(DICT, "__or__")
def _(a, b):
    if not (isinstance(b, Inst) and isinstance(b.data, DictData) and b.cls.issub(DICT)):
        return NI
    r = mkdict(a.data.items())
    dict_merge(r, b)
    return r


@nat(DICT, "__ror__")
def _(a, b):
    if not (isinstance(b, Inst) and isinstance(b.data, DictData) and b.cls.issub(DICT)):
        return NI
    r = mkdict(b.data.items())
    dict_merge(r, a)
    return r


@nat(DICT, "__ior__")
def _(a, b):
    touch(a, "ior")
    dict_merge(a, b)
    return a


nat(DICT, "__repr__")(lambda s: T.concat("{", E.join(", ", [T.concat(repr_(k), ": ", repr_(v)) for k, v in s.data.items()]), "}"))


@nat(DICT, "fromkeys", static=False)
def _(cls, it, v=None):
    d = call(cls, [])
    for k in iterate(it):
        E.setitem(d, k, v)
    return d


DICT.ns["fromkeys"] = ClassM(DICT.ns["fromkeys"])


# views
nat(E.VIEW, "__len__")(lambda s: len(s.inst.data))
nat(E.VIEW, "__iter__")(lambda s: IterV(E.view_iter(s)))
nat(E.VIEW, "__reversed__")(lambda s: IterV(iter(list(E.view_iter(s))[::-1])))


def _setlike(v):
    if isinstance(v, ViewV):
        return list(E.view_iter(v))
    if isinstance(v, Inst) and v.cls.issub(SET) or isinstance(v, Inst) and v.cls.issub(FROZENSET):
        return v.data.keys()
    return None


def _setop(name):
    def f(a, b):
        x, y = _setlike(a), _setlike(b)
        if x is None or y is None:
            return NI
        return set_combine(name, x, y, a.cls if isinstance(a, Inst) else SET)
    return f


def set_combine(name, x, y, cls=SET):
    yd = mkset(y).data
    if name == "and":
        r = [k for k in x if yd.has(k)]
    elif name == "or":
        r = list(x) + list(y)
    elif name == "sub":
        r = [k for k in x if not yd.has(k)]
    else:
        xd = mkset(x).data
        r = [k for k in x if not yd.has(k)] + [k for k in y if not xd.has(k)]
    return mkset(r, cls)


for _c in (E.VIEW, SET, FROZENSET):
    for _n in ("and", "or", "sub", "xor"):
        nat(_c, f"__{_n}__")(_setop(_n))

    def _seq_eq(a, b):
        x, y = _setlike(a), _setlike(b)
        if x is None or y is None:
            return NI
        yd = mkset(y).data
        return len(x) == len(yd) and all(yd.has(k) for k in x)

    def _sub(a, b):
        x, y = _setlike(a), _setlike(b)
        if x is None or y is None:
            return NI
        yd = mkset(y).data
        return all(yd.has(k) for k in x)
    nat(_c, "__eq__")(_seq_eq)
    nat(_c, "__le__")(_sub)
    nat(_c, "__ge__")(lambda a, b, _s=_sub: _s(b, a))
    nat(_c, "__lt__")(lambda a, b, _s=_sub: _s(a, b) and len(_setlike(a)) != len(_setlike(b)))
    nat(_c, "__gt__")(lambda a, b, _s=_sub: _s(b, a) and len(_setlike(a)) != len(_setlike(b)))


nat(E.VIEW, "isdisjoint")(lambda s, o: disjoint(o, list(E.view_iter(s))) if E.charloop.open_text(o) is not None else not any(contains(mkset(list(E.view_iter(s))), k) for k in tolist(o)))


# sets
def disjoint(text, other):
    """no character of `text` is in `other`; asked as one question when the text is open"""
    text, keys = E.charloop.open_text(text), [T.const(E.text_of(k)) if E.text_of(k) is not None else None for k in (other if isinstance(other, list) else tolist(other))]
    if any(k is None for k in keys):
        return not any(contains(mkset(keys), k) for k in tolist(text))
    keys = [k for k in keys if len(k) == 1]
    return not (T.contains_any(text, keys) if keys else False)


for _c in (SET, FROZENSET):
    _c.ns["__new__"] = NativeF(f"{_c.name}.__new__", lambda cls, it=(): mkset(tolist(it), cls), static=True)
    nat(_c, "__init__")(lambda s, it=(): None)
    nat(_c, "__len__")(lambda s: len(s.data))
    nat(_c, "__iter__")(lambda s: IterV(E.set_iter(s)))
    nat(_c, "__contains__")(lambda s, k: s.data.has(k))
    nat(_c, "copy")(lambda s: mkset(s.data.keys(), s.cls))
    nat(_c, "union")(lambda s, *o: mkset(s.data.keys() + [k for x in o for k in tolist(x)], s.cls))
    nat(_c, "intersection")(lambda s, *o: functools.reduce(lambda a, b: set_combine("and", a.data.keys(), tolist(b), s.cls), o, s))
    nat(_c, "difference")(lambda s, *o: functools.reduce(lambda a, b: set_combine("sub", a.data.keys(), tolist(b), s.cls), o, s))
    nat(_c, "symmetric_difference")(lambda s, o: set_combine("xor", s.data.keys(), tolist(o), s.cls))
    nat(_c, "issubset")(lambda s, o: all(contains(o, k) for k in s.data.keys()))
    nat(_c, "issuperset")(lambda s, o: all(s.data.has(k) for k in tolist(o)))
    nat(_c, "isdisjoint")(lambda s, o: disjoint(o, s.data.keys()) if E.charloop.open_text(o) is not None else not any(s.data.has(k) for k in tolist(o)))
    nat(_c, "__repr__")(lambda s: T.concat("{", E.join(", ", [repr_(x) for x in E.set_iter(s)]), "}") if len(s.data) else "set()")
FROZENSET.ns["__hash__"] = NativeF("frozenset.__hash__", lambda s: HashV(token(s)))


@nat(SET, "add")
def _(s, k):
    touch(s, "add")
    s.data.set(k, None)


@nat(SET, "discard")
def _(s, k):
    touch(s, "discard")
    s.data.delete(k)


@nat(SET, "remove")
def _(s, k):
    touch(s, "remove")
    if not s.data.delete(k):
        throw("KeyError", k)


@nat(SET, "pop")
def _(s):
    if not len(s.data):
        throw("KeyError", "pop from an empty set")
    touch(s, "pop")
    k = E.set_order(list(s.data.keys()))[0]
    s.data.delete(k)
    return k


@nat(SET, "clear")
def _(s):
    touch(s, "clear")
    s.data.e = {}


@nat(SET, "update", "__ior__")
def _(s, *o):
    touch(s, "update")
    for x in o:
        for k in tolist(x):
            s.data.set(k, None)
    return s


@nat(SET, "difference_update", "__isub__")
def _(s, *o):
    touch(s, "difference_update")
    for x in o:
        for k in tolist(x):
            s.data.delete(k)
    return s


@nat(SET, "intersection_update", "__iand__")
def _(s, o):
    touch(s, "intersection_update")
    r = set_combine("and", s.data.keys(), tolist(o))
    s.data.e = r.data.e
    return s


SET.ns["update"] = NativeF("set.update", lambda s, *o: (SET.ns["__ior__"].fn(s, *o), None)[1])
SET.ns["difference_update"] = NativeF("set.difference_update", lambda s, *o: (SET.ns["__isub__"].fn(s, *o), None)[1])
SET.ns["intersection_update"] = NativeF("set.intersection_update", lambda s, o: (SET.ns["__iand__"].fn(s, o), None)[1])


# iterators / generators
def _it_next(s):
    try:
        return next(s.it)
    except StopIteration as e:
        v = Inst(EXC["StopIteration"])
        v.attrs().set("args", (e.value,) if e.value is not None else ())
        v.attrs().set("value", e.value)
        raise Raised(v)


for _c in (E.ITERATOR, E.GENERATOR):
    nat(_c, "__next__")(_it_next)
    nat(_c, "__iter__")(lambda s: s)


def _gen_send(s, v):
    try:
        return s.it.send(v)
    except StopIteration as e:
        x = Inst(EXC["StopIteration"])
        x.attrs().set("value", e.value)
        raise Raised(x)


nat(E.GENERATOR, "send")(_gen_send)


@nat(E.GENERATOR, "throw")
def _(s, v, val=None, tb=None):
    if isinstance(v, ClassV):
        v = val if isinstance(val, Inst) else call(v, [])
    try:
        return s.it.throw(Raised(v))
    except StopIteration as e:
        x = Inst(EXC["StopIteration"])
        x.attrs().set("value", e.value)
        raise Raised(x)


nat(E.GENERATOR, "close")(lambda s: s.it.close())
nat(FUNCTION, "__call__", rawkw=True)(lambda f, *a, kw=(): call(f, a, kw))
nat(E.METHOD, "__call__", rawkw=True)(lambda f, *a, kw=(): call(f, a, kw))
nat(E.BUILTIN, "__call__", rawkw=True)(lambda f, *a, kw=(): call(f, a, kw))
nat(E.METHOD, "__eq__")(lambda a, b: isinstance(b, BoundM) and a.func is b.func and is_(a.self, b.self))
nat(FUNCTION, "__get__")(lambda f, o, c=None: bind(f, o, c))

# range / slice / property etc.
E.RANGE.ns["__class_call__"] = lambda cls, args, kw: mkrange(*args)
nat(E.RANGE, "__len__")(lambda r: len(r))
nat(E.RANGE, "__iter__")(lambda r: IterV(iter(r)))
nat(E.RANGE, "__reversed__")(lambda r: IterV(reversed(r)))
nat(E.RANGE, "__getitem__")(lambda r, i: getitem(r, i))
nat(E.RANGE, "__contains__")(lambda r, i: contains(r, i))
nat(E.RANGE, "__eq__")(lambda r, o: r == o if isinstance(o, range) else NI)


def mkrange(*a):
    out = []
    for x in a:
        x = index_(x)
        if isinstance(x, LenV):
            raise T.need_chars(x.s)
        if not isinstance(x, int):
            raise Unsupported("range of opaque int")
        out.append(x)
    return host(range, *out)


E.SLICE.ns["__class_call__"] = lambda cls, args, kw: slice(*args)
nat(E.SLICE, "indices")(lambda s, n: slice_args(s).indices(n))
nat(E.SLICE, "__eq__")(lambda a, b: a == b if isinstance(b, slice) else NI)
E.PROPERTY.ns["__class_call__"] = lambda cls, args, kw: PropertyV(*args, **dict(kw))
E.STATICMETHOD.ns["__class_call__"] = lambda cls, args, kw: StaticM(args[0])
E.CLASSMETHOD.ns["__class_call__"] = lambda cls, args, kw: ClassM(args[0])
E.SUPER.ns["__class_call__"] = lambda cls, args, kw: SuperV(*args)
E.MODULE.ns["__class_call__"] = lambda cls, args, kw: ModV(T.const(args[0]))
nat(E.ELLIPSIS, "__repr__")(lambda s: "Ellipsis")

for _c in (OBJECT, TYPE, INT, BOOL, FLOAT, E.COMPLEX, STR, E.BYTES, TUPLE, LIST, DICT, SET, FROZENSET, E.RANGE, E.SLICE, E.PROPERTY,
           E.STATICMETHOD, E.CLASSMETHOD, E.SUPER):
    BUILTINS[_c.name] = _c
BUILTINS.update(EXC)
BUILTINS.update({"None": None, "True": True, "False": False, "NotImplemented": NotImplemented, "Ellipsis": Ellipsis, "__debug__": True,
                 "__name__": "builtins"})
BUILTINS["bytearray"] = Unk("bytearray")
BUILTINS["memoryview"] = Unk("memoryview")


# ------------------------------------------------------------------ builtin functions
bi("len")(len_)
bi("isinstance")(isinstance_)
bi("issubclass")(E.issubclass_)
bi("repr")(repr_)
bi("ascii")(repr_)
bi("id")(lambda v: Num(E.obj_id(v), "int") if not T.is_s(v) and not isinstance(v, (int, float)) else _nd_num("id", v))


def _nd_num(kind, v):
    P().nd_used.add(T.CUR_LOC[0])
    return Num((kind, repr(v) if not T.is_s(v) else T.norm(v), P().nd), "int")


@bi("hash")
def _hash(v):
    m = type_of(v).lookup("__hash__")
    if isinstance(m, FuncV):
        return call_method(m, v)
    return HashV(token(v))


bi("callable")(lambda v: isinstance(v, (FuncV, BoundM, NativeF, ClassV)) or (isinstance(v, Inst) and v.cls.lookup("__call__") is not None))


@bi("getattr")
def _(o, n, *d):
    c = T.const(S(n))
    if c is None:
        # symbolic attribute name: search the instance dict
        if isinstance(o, Inst):
            for k in list(o.attrs().keys()):
                if T.eq(k, n):
                    return o.d.get(k)
        if d:
            return d[0]
        throw("AttributeError", n)
    return getattr_(o, c, *d)


@bi("setattr")
def _(o, n, v):
    setattr_(o, T.const(S(n)) if T.const(S(n)) is not None else n, v)


bi("delattr")(lambda o, n: E.delattr_(o, T.const(n)))


@bi("hasattr")
def _(o, n):
    try:
        return getattr_(unk(o), T.const(S(n)), E._MISSING) is not E._MISSING
    except Raised as e:
        if E.is_exc(e.value, "AttributeError"):
            return False
        raise


@bi("iter")
def _(v, sentinel=E._MISSING):
    if sentinel is not E._MISSING:
        def g():
            while True:
                x = call(v, [])
                if eq_(x, sentinel):
                    return
                yield x
        return IterV(g())
    if isinstance(v, IterV):
        return v
    if isinstance(v, Inst):
        m = v.cls.lookup("__iter__")
        if m is not None:
            return call_method(m, v)
    return IterV(iterate(v))


@bi("next")
def _(it, *d):
    try:
        return next_(it)
    except StopIteration as e:
        if d:
            return d[0]
        throw("StopIteration")


@bi("enumerate")
def _(it, start=0):
    src = iterate(it)

    def g():
        i = start
        for x in src:
            yield (i, x)
            i = E.binop("Add", i, 1)
    return IterV(g())


@bi("zip")
def _(*its, strict=False):
    srcs = [iterate(i) for i in its]

    def g():
        if not srcs:
            return
        while True:
            row = []
            for j, s in enumerate(srcs):
                try:
                    row.append(next(s))
                except StopIteration:
                    if truth(strict):
                        if j:
                            throw("ValueError", "zip() argument lengths differ")
                        for s2 in srcs[1:]:
                            for _ in s2:
                                throw("ValueError", "zip() argument lengths differ")
                    return
            yield tuple(row)
    return IterV(g())


@bi("map")
def _(f, *its):
    srcs = [iterate(i) for i in its]

    def g():
        while True:
            try:
                row = [next(s) for s in srcs]
            except StopIteration:
                return
            yield call(f, row)
    return IterV(g())


@bi("filter")
def _(f, it):
    src = iterate(it)

    def g():
        for x in src:
            if truth(x if f is None else call(f, [x])):
                yield x
    return IterV(g())


@bi("reversed")
def _(v):
    m = type_of(v).lookup("__reversed__")
    if m is not None:
        return call_method(m, v)
    if isinstance(v, (tuple, str)):
        return IterV(iter(v[::-1]))
    if isinstance(v, Str):
        cs = T.chars(v)
        if cs is None:
            raise T.need_chars(v)
        return IterV(iter(cs[::-1]))
    if isinstance(v, Inst) and v.cls.lookup("__len__") and v.cls.lookup("__getitem__"):
        n = len_(v)

        def g():
            for i in range(n - 1, -1, -1):
                yield getitem(v, i)
        return IterV(g())
    throw("TypeError", "argument to reversed() must be a sequence")


bi("sorted")(lambda it, key=None, reverse=False: mklist(sort_values(tolist(it), key, reverse)))


@bi("any")
def _(it):
    for x in iterate(it):
        if truth(x):
            return True
    return False


@bi("all")
def _(it):
    for x in iterate(it):
        if not truth(x):
            return False
    return True


@bi("sum")
def _(it, start=0):
    for x in iterate(it):
        start = E.binop("Add", start, x)
    return start


def _minmax(op):
    def f(*a, key=None, default=E._MISSING):
        xs = list(a) if len(a) > 1 else tolist(a[0])
        if not xs:
            if default is not E._MISSING:
                return default
            throw("ValueError", "arg is an empty sequence")
        best, kb = xs[0], (call(key, [xs[0]]) if key is not None else xs[0])
        for x in xs[1:]:
            k = call(key, [x]) if key is not None else x
            if truth(order_val(op, k, kb)):
                best, kb = x, k
        return best
    return f


bi("min")(_minmax("<"))
bi("max")(_minmax(">"))
bi("abs")(lambda v: bi_abs(E.hash_num(v)) if isinstance(v, HashV) else bi_abs(v))
bi_abs = (lambda v: call_method(type_of(v).lookup("__abs__"), v) if type_of(v).lookup("__abs__") else throw("TypeError", "abs"))
bi("round")(lambda v, n=None: host(round, v, *([] if n is None else [n])) if isinstance(v, (int, float)) else Num(("round", T.freeze(v), T.freeze(n)), "int" if n is None else "float"))
bi("divmod")(lambda a, b: (E.binop("FloorDiv", a, b), E.binop("Mod", a, b)))
bi("pow")(lambda a, b: E.binop("Pow", a, b))
bi("print", rawkw=True)(lambda *a, kw=(): None)


@bi("chr")
def _(n):
    if isinstance(n, int):
        return host(chr, n)
    if isinstance(n, Num) and isinstance(n.name, tuple) and n.name[0] == "ord":
        return T.Str([("A", (T.Atom(n.name[1], single=True), None), None)])
    raise Unsupported("chr of opaque int")


@bi("ord")
def _(c):
    c = S(c)
    k = T.const(c)
    if k is not None:
        return host(ord, k)
    cs = T.chars(c)
    if cs is None:
        raise T.need_chars(c)
    if len(cs) != 1:
        throw("TypeError", "ord() expected a character")
    return OrdV(c)


class OrdV(Num):
    """code point of a one-character opaque string"""

    __slots__ = ("s",)

    def __init__(self, s):
        super().__init__(("ord", T.norm(s)), "int")
        self.s = s


_old_num_cmp = E.num_cmp


def _num_cmp(op, a, b):
    if isinstance(b, OrdV) and not isinstance(a, OrdV):
        flip = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}
        a, b, op = b, a, flip[op]
    if isinstance(a, OrdV):
        if isinstance(b, OrdV):
            if op in ("==", "!="):
                return T.eq(a.s, b.s) == (op == "==")
        elif isinstance(b, int) and op in ("==", "!=") and 0 <= b < 0x110000:
            return T.eq(a.s, chr(b)) == (op == "==")
    return _old_num_cmp(op, a, b)


E.num_cmp = _num_cmp

_old_token = E.token


def _token(key):
    if isinstance(key, OrdV):
        c = T.const(key.s)
        return ("n", ord(c)) if c is not None else ("ord", T.norm(key.s))
    return _old_token(key)


E.token = _token
token = _token
_old_find = DictData.find


def _find_tok(self, key):
    if isinstance(key, OrdV):
        for tk, (k, _) in list(self.e.items()):
            if isinstance(k, int) and not isinstance(k, bool) and 0 <= k < 0x110000 and T.eq(key.s, chr(k)):
                return tk
        return None
    return _old_find(self, key)


DictData.find = _find_tok


def _format_builtin(v, spec=""):
    return format_(v, spec)


bi("format")(_format_builtin)
bi("vars")(lambda o: getattr_(o, "__dict__"))
bi("dir")(lambda *a: Unk("dir"))
bi("input")(lambda *a: Unk("input"))
for _n in ("exec", "eval", "compile", "__import__", "breakpoint"):
    BUILTINS[_n] = Unk(_n)


@bi("bin")
def _(n):
    return host(bin, n)


@bi("hex")
def _(n):
    if isinstance(n, int):
        return hex(n)
    if isinstance(n, HashV):
        n = E.hash_num(n)
    return T.op("hexnum", n)


# ------------------------------------------------------------------ modules
def module(name):
    def deco(fn):
        NATIVE_MODULES[name] = lambda: _mk(name, fn)
        return fn
    return deco


def _mk(name, fn):
    m = ModV(name)
    m.ns["__name__"] = name
    for k, v in fn(m).items():
        if callable(v) and not isinstance(v, (FuncV, NativeF, ClassV, ModV, Unk, AliasV, UnionV)) and not isinstance(v, type(NI)):
            v = NativeF(f"{name}.{k}", v, rawkw=getattr(v, "rawkw", False))
        m.ns[k] = v
    if m.dyn is None:
        m.dyn = lambda n: Unk(f"{name}.{n}") if not n.startswith("__") else E._MISSING
    return m


def raw(fn):
    fn.rawkw = True
    return fn


PROTOCOL = ClassV("Protocol", [OBJECT], {}, "typing", native=True)
PROTOCOL.is_protocol_base = True
TYPEDDICTC = ClassV("TypedDict", [DICT], {}, "typing", native=True)
TYPEDDICTC.typeddict = True
E.TYPEDDICT[0] = TYPEDDICTC
GENERIC = ClassV("Generic", [OBJECT], {}, "typing", native=True)


def _td_call(cls, args, kw):
    return mkdict([(k, v) for k, v in kw] if not args else list(args[0].data.items()) + list(kw))


def _typeddict_functional(cls, args, kw):
    if cls is TYPEDDICTC:
        c = ClassV(T.const(args[0]), [TYPEDDICTC], {}, "user")
        c.typeddict = True
        return c
    return _td_call(cls, args, kw)


TYPEDDICTC.ns["__class_call__"] = _typeddict_functional


def _td_hook(cls, kw):
    cls.ns["__class_call__"] = _td_call
    cls.typeddict = True
    cls.subclass_hook = _td_hook


TYPEDDICTC.subclass_hook = _td_hook
_old_inst = E.instantiate


def _instantiate(cls, args, kw=()):
    for c in cls.mro:
        h = c.ns.get("__class_call__")
        if h is not None and (c is cls or c is TYPEDDICTC):
            return h(cls, args, kw)
        if c.native and c not in (TYPEDDICTC,):
            break
    return _old_inst(cls, args, kw)


E.instantiate = _instantiate
NAMEDTUPLE = ClassV("NamedTuple", [TUPLE], {}, "typing", native=True)


def _nt_setup(cls, names, defaults):
    def new(c, *a, kw=()):
        vals = list(a)
        kwd = {T.const(k): v for k, v in kw}
        for n in names[len(vals):]:
            if n in kwd:
                vals.append(kwd.pop(n))
            elif n in defaults:
                vals.append(defaults[n])
            else:
                throw("TypeError", f"missing argument '{n}'")
        if len(vals) != len(names) or kwd:
            throw("TypeError", "bad arguments")
        return Inst(c, tuple(vals))
    cls.ns["__new__"] = NativeF("namedtuple.__new__", new, rawkw=True, static=True)
    cls.ns["__init__"] = OBJECT.ns["__init__"]
    for i, n in enumerate(names):
        cls.ns[n] = PropertyV(NativeF(n, lambda s, i=i: s.data[i]))
    cls.ns["_fields"] = tuple(names)
    cls.ns["_asdict"] = NativeF("_asdict", lambda s: mkdict(list(zip(names, s.data))))
    cls.ns["_replace"] = NativeF("_replace", lambda s, **kw: Inst(s.cls, tuple(kw.get(n, v) for n, v in zip(names, s.data))))


def _nt_hook(cls, kw):
    if NAMEDTUPLE in cls.bases:
        _nt_setup(cls, list(cls.fields), {n: cls.ns[n] for n in cls.fields if n in cls.ns})


NAMEDTUPLE.subclass_hook = _nt_hook


def _namedtuple(name, fields, defaults=None, rename=False, module=None):
    fs = T.const(fields).replace(",", " ").split() if T.is_s(fields) else [T.const(x) for x in tolist(fields)]
    ds = tolist(defaults) if defaults is not None else []
    c = ClassV(T.const(name), [TUPLE], {}, "user")
    c.typeddict = False
    _nt_setup(c, fs, dict(zip(fs[len(fs) - len(ds):], ds)))
    return c


@module("typing")
def _(m):
    ns = {}
    for n, c in (("Dict", DICT), ("List", LIST), ("Set", SET), ("FrozenSet", FROZENSET), ("Tuple", TUPLE), ("Type", TYPE), ("Text", STR)):
        ns[n] = AliasV(c)
    for n in ("Any", "Union", "Optional", "Callable", "Literal", "NotRequired", "Required", "Never", "NoReturn", "ClassVar", "Final", "TypeIs",
              "TypeGuard", "Annotated", "Concatenate", "Self", "TypeAlias", "Unpack", "LiteralString", "AnyStr"):
        ns[n] = NativeF("typing." + n, lambda *a, **k: a[-1] if a else None)
    ns["TypeVar"] = lambda *a, **k: Unk("TypeVar")
    ns["ParamSpec"] = lambda *a, **k: Unk("ParamSpec")
    ns["TypeVarTuple"] = ns["ParamSpec"]
    ns["NewType"] = lambda n, t: NativeF("NewType", lambda v: v)
    ns["Protocol"] = PROTOCOL
    ns["Generic"] = GENERIC
    ns["TypedDict"] = TYPEDDICTC
    ns["NamedTuple"] = NAMEDTUPLE
    ns["TYPE_CHECKING"] = False
    ns["cast"] = lambda t, v: v
    ns["assert_never"] = lambda v: throw("AssertionError", "never")
    for n in ("overload", "final", "no_type_check", "override"):
        ns[n] = lambda f: f
    ns["get_args"] = lambda t: tuple(getattr(t, "args", ()))
    ns["get_origin"] = lambda t: t.origin if isinstance(t, AliasV) else None

    def runtime(c):
        c.flags.add("runtime")
        return c
    ns["runtime_checkable"] = runtime
    abc = E.import_module("collections.abc")
    for n in ("Iterable", "Iterator", "Mapping", "MutableMapping", "Sequence", "MutableSequence", "Hashable", "Sized", "Collection", "Container",
              "Generator", "Reversible", "AbstractSet", "MutableSet", "KeysView", "ValuesView", "ItemsView"):
        ns[n] = AliasV(abc.ns.get({"AbstractSet": "Set"}.get(n, n), OBJECT))
    ns["Callable"] = AliasV(abc.ns["Callable"])
    col = E.import_module("collections")
    for n, k in (("OrderedDict", "OrderedDict"), ("DefaultDict", "defaultdict"), ("Counter", "Counter"), ("Deque", "deque")):
        ns[n] = AliasV(col.ns[k])
    for n in ("SupportsIndex", "SupportsInt", "SupportsFloat", "SupportsAbs"):
        c = ClassV(n, [PROTOCOL], {}, "typing")
        c.protocol = True
        c.flags |= {"runtime", "proto"}
        c.ns["__" + n[8:].lower() + "__"] = None
        c.fields = []
        ns[n] = c
    return ns


NATIVE_MODULES["typing_extensions"] = lambda: E.import_module("typing")


def stdlib_path():
    return _os.path.dirname(_os.__file__)


_ABC_SRC = {}


def _load_classes(path, disp, names, pre, modname):
    """load selected class definitions of a stdlib source file"""
    with open(path, encoding="utf-8") as f:
        tree = ast.parse(f.read())
    m = ModV(modname)
    m.ns.update(pre)
    m.ns["__name__"] = modname
    body = [n for n in tree.body if isinstance(n, ast.ClassDef) and n.name in names]
    comp = E.Compiler(m, disp)
    code = comp.module_body(ast.Module(body=body, type_ignores=[]))
    old = E.LOADING[0]
    E.LOADING[0] = True
    try:
        code(E.Frame(None, m, None))
    finally:
        E.LOADING[0] = old
    return m


def _has(t, *ms):
    return all(t.lookup(x) is not None for x in ms)


def _build_abc():
    ABC = ClassV("ABC", [OBJECT], {}, "abc", native=True)
    ns = {}

    def mk(name, *bases):
        c = ClassV(name, [ns[b] for b in bases] or [OBJECT], {}, "collections.abc", native=True)
        ns[name] = c
        return c
    for n in ("Hashable", "Iterable", "Sized", "Container", "Callable", "Awaitable"):
        mk(n)
    mk("Iterator", "Iterable")
    mk("Reversible", "Iterable")
    mk("Generator", "Iterator")
    mk("Collection", "Sized", "Iterable", "Container")
    mk("Set", "Collection")
    mk("MutableSet", "Set")
    mk("Mapping", "Collection")
    mk("MutableMapping", "Mapping")
    mk("MappingView", "Sized")
    mk("KeysView", "MappingView", "Set")
    mk("ItemsView", "MappingView", "Set")
    mk("ValuesView", "MappingView", "Collection")
    import _collections_abc

    pre = dict(ns)
    pre["abstractmethod"] = NativeF("abstractmethod", lambda f: f)
    pre["ABCMeta"] = TYPE
    pre["_check_methods"] = Unk("_check_methods")
    m = _load_classes(_collections_abc.__file__, "<stdlib>/_collections_abc.py", {"Sequence", "MutableSequence", "Mapping", "MutableMapping"}, pre, "_collections_abc")
    for n in ("Sequence", "MutableSequence", "Mapping", "MutableMapping"):
        ns[n] = m.ns[n]
        ns[n].native = False
    # exact native models of two generator mixins
    ns["Sequence"].ns["__iter__"] = NativeF("Sequence.__iter__", lambda s: IterV(E.seq_iter(s)))

    def rev(s):
        def g():
            for i in range(len_(s) - 1, -1, -1):
                yield getitem(s, i)
        return IterV(g())
    ns["Sequence"].ns["__reversed__"] = NativeF("Sequence.__reversed__", rev)
    for n in ("Sequence", "Mapping", "MutableSequence", "MutableMapping"):
        ns[n].ns.pop("__slots__", None)
        ns[n].ns.pop("__abc_tpflags__", None)
    ABC_CHECK[ns["Sequence"]] = lambda t: any(t.issub(c) for c in (LIST, TUPLE, STR, E.RANGE, E.BYTES))
    ABC_CHECK[ns["MutableSequence"]] = lambda t: t.issub(LIST)
    ABC_CHECK[ns["Mapping"]] = lambda t: t.issub(DICT)
    ABC_CHECK[ns["MutableMapping"]] = lambda t: t.issub(DICT)
    ABC_CHECK[ns["Set"]] = lambda t: t.issub(SET) or t.issub(FROZENSET) or t is E.VIEW
    ABC_CHECK[ns["MutableSet"]] = lambda t: t.issub(SET)

    def iterable(t):
        return _has(t, "__iter__")
    ABC_CHECK[ns["Iterable"]] = iterable
    ABC_CHECK[ns["Iterator"]] = lambda t: _has(t, "__iter__", "__next__")
    ABC_CHECK[ns["Generator"]] = lambda t: t is E.GENERATOR
    ABC_CHECK[ns["Sized"]] = lambda t: _has(t, "__len__")
    ABC_CHECK[ns["Container"]] = lambda t: _has(t, "__contains__")
    ABC_CHECK[ns["Collection"]] = lambda t: _has(t, "__len__", "__iter__", "__contains__")
    ABC_CHECK[ns["Reversible"]] = lambda t: _has(t, "__reversed__", "__iter__")
    ABC_CHECK[ns["Callable"]] = lambda t: t in (FUNCTION, E.METHOD, E.BUILTIN, TYPE) or (t is not OBJECT and _has(t, "__call__"))
    ABC_CHECK[ns["KeysView"]] = lambda t: t is E.VIEW

    def hashable(t):
        for c in t.mro:
            if "__hash__" in c.ns:
                return c.ns["__hash__"] is not None
            if c in (LIST, DICT, SET) or ("__eq__" in c.ns and not c.native):
                return False
        return True
    ABC_CHECK[ns["Hashable"]] = hashable
    return ns


@module("collections.abc")
def _(m):
    return dict(_abc())


_abc_cache = []


def _abc():
    if not _abc_cache:
        _abc_cache.append(_build_abc())
    return _abc_cache[0]


NATIVE_MODULES["_collections_abc"] = lambda: E.import_module("collections.abc")


@module("collections")
def _(m):
    import collections

    abc = _abc()
    abcm = ModV("_collections_abc")
    abcm.ns.update(abc)
    pre = {"_collections_abc": abcm, "_sys": E.import_module("sys"), "_chain": Unk("chain"), "_repeat": Unk("repeat"), "_itemgetter": Unk("itemgetter"),
           "_recursive_repr": NativeF("_recursive_repr", lambda *a: NativeF("d", lambda f: f))}
    src = _load_classes(collections.__file__, "<stdlib>/collections/__init__.py", {"UserList", "UserString", "UserDict", "ChainMap"}, pre, "collections")
    ns = {k: src.ns[k] for k in ("UserList", "UserString", "UserDict", "ChainMap")}
    od = ClassV("OrderedDict", [DICT], {}, "collections", native=True)

    def move_to_end(s, k, last=True):
        touch(s, "move_to_end")
        tk = s.data.find(k)
        if tk is None:
            throw("KeyError", k)
        kv = s.data.e.pop(tk)
        if truth(last):
            s.data.e[tk] = kv
        else:
            s.data.e = {tk: kv, **s.data.e}
    nat(od, "move_to_end")(move_to_end)

    def popitem(s, last=True):
        if not len(s.data):
            throw("KeyError", "dictionary is empty")
        touch(s, "popitem")
        tk = list(s.data.e)[-1 if truth(last) else 0]
        return tuple(s.data.e.pop(tk))
    nat(od, "popitem")(popitem)
    nat(od, "copy")(lambda s: copy_copy(s))
    ns["OrderedDict"] = od
    dd = ClassV("defaultdict", [DICT], {}, "collections", native=True)

    def dd_init(s, factory=None, *a, kw=()):
        s.attrs().set("default_factory", factory)
        _dict_init(s, *a, kw=kw)
    nat(dd, "__init__", rawkw=True)(dd_init)

    def dd_missing(s, k):
        f = s.attrs().get("default_factory")
        if f is None:
            throw("KeyError", k)
        v = call(f, [])
        touch(s, "default")
        s.data.set(k, v)
        return v
    nat(dd, "__missing__")(dd_missing)
    ns["defaultdict"] = dd
    cnt = ClassV("Counter", [DICT], {}, "collections", native=True)

    def cnt_init(s, it=None):
        if it is not None:
            for x in tolist(it):
                s.data.set(x, s.data.get(x, 0) + 1)
    nat(cnt, "__init__")(cnt_init)
    nat(cnt, "__missing__")(lambda s, k: 0)
    ns["Counter"] = cnt
    dq = ClassV("deque", [LIST], {}, "collections", native=True)
    nat(dq, "appendleft")(lambda s, v: LIST.ns["insert"].fn(s, 0, v))
    nat(dq, "popleft")(lambda s: LIST.ns["pop"].fn(s, 0))

    def extendleft(s, it):
        for x in tolist(it):
            LIST.ns["insert"].fn(s, 0, x)
    nat(dq, "extendleft")(extendleft)
    ns["deque"] = dq
    ns["namedtuple"] = _namedtuple
    am = _mk("collections.abc", lambda m: dict(abc))
    E.MODULES["collections.abc"] = am
    ns["abc"] = am
    return ns


@module("abc")
def _(m):
    abc = ClassV("ABC", [OBJECT], {}, "abc", native=True)
    return {"ABC": abc, "ABCMeta": TYPE, "abstractmethod": lambda f: f, "abstractproperty": lambda f: PropertyV(f)}


# ---- copy
def copy_copy(x):
    if not isinstance(x, Inst):
        return x
    cls = x.cls
    if cls is LIST:
        return mklist(x.data)
    if cls is DICT:
        return mkdict(x.data.items())
    if cls in (SET, FROZENSET):
        return mkset(x.data.keys(), cls) if cls is SET else x
    m = cls.lookup("__copy__")
    if m is not None:
        return call_method(m, x)
    return reconstruct(x, None)


def reconstruct(x, memo):
    """copy protocol 4: __reduce_ex__ -> __newobj__, state, listitems, dictitems"""
    cls = x.cls
    for n in ("__reduce_ex__", "__reduce__", "__getstate__"):
        if isinstance(cls.lookup(n), FuncV):
            raise Unsupported(f"copy through {n}")
    deep = memo is not None
    if isinstance(cls.lookup("__getnewargs__"), FuncV):
        if isinstance(cls.lookup("__new__"), FuncV) or x.data is not None:
            raise Unsupported("copy through __getnewargs__")
        call_method(cls.lookup("__getnewargs__"), x)  # object.__new__ ignores the arguments
    d = (lambda v: copy_deepcopy(v, memo)) if deep else (lambda v: v)
    if isinstance(x.data, (str, Str, int, float, tuple)) and x.data is not None:
        y = Inst(cls, d(x.data) if isinstance(x.data, tuple) else x.data)
    elif isinstance(x.data, list):
        y = Inst(cls, [])
    elif isinstance(x.data, DictData):
        y = Inst(cls, DictData())
        if cls.issub(SET) or cls.issub(FROZENSET):
            y = mkset([d(k) for k in x.data.keys()], cls)
    else:
        y = Inst(cls)
    if deep:
        memo[id(x)] = (x, y)
    if x.d is not None and len(x.d):
        st = cls.lookup("__setstate__")
        if isinstance(st, FuncV):
            call(st, [y, mkdict([(k, d(v)) for k, v in x.d.items()])])
        else:
            yd = y.attrs()
            for k, v in x.d.items():
                yd.set(k, d(v))
    if isinstance(x.data, list):
        for v in x.data:
            v = d(v)
            ap = cls.lookup("append")
            if isinstance(ap, FuncV):
                call(ap, [y, v])
            else:
                y.data.append(v)
    elif isinstance(x.data, DictData) and cls.issub(DICT):
        si = cls.lookup("__setitem__")
        for k, v in x.data.items():
            k, v = d(k), d(v)
            if isinstance(si, FuncV):
                call(si, [y, k, v])
            else:
                y.data.set(k, v)
    return y


def copy_deepcopy(x, memo=None):
    if memo is None or isinstance(memo, Inst):
        if isinstance(memo, Inst):
            if memo.d is None:
                memo.attrs().set("_memo", {})
            memo = memo.d.get("_memo")
        else:
            memo = {}
    if isinstance(x, tuple):
        ys = tuple(copy_deepcopy(v, memo) for v in x)
        return ys
    if not isinstance(x, Inst):
        return x
    if id(x) in memo:
        return memo[id(x)][1]
    cls = x.cls
    if cls is LIST:
        y = mklist()
        memo[id(x)] = (x, y)
        y.data.extend(copy_deepcopy(v, memo) for v in x.data)
        return y
    if cls is DICT:
        y = mkdict()
        memo[id(x)] = (x, y)
        for k, v in x.data.items():
            y.data.set(copy_deepcopy(k, memo), copy_deepcopy(v, memo))
        return y
    m = cls.lookup("__deepcopy__")
    if m is not None:
        mi = Inst(DICT, DictData())
        mi.attrs().set("_memo", memo)
        y = call_method(m, x, mi)
        memo[id(x)] = (x, y)
        return y
    return reconstruct(x, memo)


@module("copy")
def _(m):
    return {"copy": copy_copy, "deepcopy": copy_deepcopy, "replace": Unk("copy.replace"), "Error": EXC["Exception"], "error": EXC["Exception"]}


# ---- misc modules
def exc_info():
    if not E.HANDLED:
        return (None, None, None)
    v = E.HANDLED[-1].value
    return (v.cls, v, E.traceback_of(v))


@module("sys")
def _(m):
    vi = Inst(TUPLE, (3, 12, 3, "final", 0))
    c = ClassV("version_info", [TUPLE], {}, "sys")
    _nt_setup(c, ["major", "minor", "micro", "releaselevel", "serial"], {})
    import sys

    vi = Inst(c, tuple(sys.version_info))
    hook = NativeF("sys.displayhook", lambda v: DISPLAYED.append(v))
    return {"version_info": vi, "displayhook": hook, "__displayhook__": hook, "platform": "linux", "maxsize": 2**63 - 1,
            "modules": mkdict(), "path": mklist(), "argv": mklist([""]), "stdout": Inst(OBJECT), "stderr": Inst(OBJECT),
            "exc_info": exc_info, "exception": lambda: exc_info()[1], "getrecursionlimit": lambda: 1000, "setrecursionlimit": lambda n: None,
            "intern": lambda s: s, "hexversion": sys.hexversion, "byteorder": "little", "flags": Inst(OBJECT),
            "getsizeof": lambda *a: Num("sizeof", "int"), "_getframe": Unk("sys._getframe")}


DISPLAYED = []


@module("functools")
def _(m):
    def wraps(wrapped, *a, **k):
        def deco(f):
            if isinstance(f, FuncV):
                f.attrs().set("__name__", getattr_(wrapped, "__name__", "f"))
                f.attrs().set("__wrapped__", wrapped)
                f.doc = getattr_(wrapped, "__doc__", None)
            return f
        return NativeF("wraps", deco)

    part = ClassV("partial", [OBJECT], {}, "functools", native=True)

    def pnew(cls, f, *a, kw=()):
        i = Inst(cls)
        i.attrs().set("func", f)
        i.attrs().set("args", tuple(a))
        i.attrs().set("_kw", list(kw))
        i.attrs().set("keywords", mkdict(kw))
        return i
    part.ns["__new__"] = NativeF("partial", pnew, rawkw=True, static=True)
    part.ns["__init__"] = OBJECT.ns["__init__"]

    def pcall(s, *a, kw=()):
        k0 = [(k, v) for k, v in s.d.get("_kw") if not any(k == k2 for k2, _ in kw)]
        return call(s.d.get("func"), list(s.d.get("args")) + list(a), k0 + list(kw))
    nat(part, "__call__", rawkw=True)(pcall)

    def reduce(f, it, *init):
        xs = iterate(it)
        if init:
            acc = init[0]
        else:
            try:
                acc = next(xs)
            except StopIteration:
                throw("TypeError", "reduce() of empty iterable with no initial value")
        for x in xs:
            acc = call(f, [acc, x])
        return acc

    def cached(f):
        store = Inst(DICT, DictData())
        c = ClassV("_lru_cache_wrapper", [OBJECT], {}, "functools", native=True)
        c.ns["__new__"] = OBJECT.ns["__new__"]

        def ccall(s, *a, kw=()):
            key = (tuple(a), tuple((k, v) for k, v in kw))
            tk = store.data.find(key)
            if tk is not None:
                return store.data.e[tk][1]
            r = call(f, a, kw)
            touch(store, "cache")
            store.data.set(key, r)
            return r
        nat(c, "__call__", rawkw=True)(ccall)
        nat(c, "__get__")(lambda s, o, t=None: BoundM(o, NativeF("cached", lambda *a, kw=(): ccall(s, *a, kw=kw), rawkw=True)) if o is not None else s)

        def clear(s):
            touch(store, "cache_clear")
            store.data.e = {}
        nat(c, "cache_clear")(clear)
        w = Inst(c)
        w.attrs().set("__wrapped__", f)
        w.attrs().set("__name__", getattr_(f, "__name__", "f"))
        return w

    def lru_cache(maxsize=128, typed=False):
        if isinstance(maxsize, (FuncV, BoundM)):
            return cached(maxsize)
        return NativeF("lru_cache", cached)

    sd = ClassV("singledispatch", [OBJECT], {}, "functools", native=True)

    def singledispatch(f):
        i = Inst(sd)
        i.attrs().set("_f", f)
        i.attrs().set("_r", mklist())
        return i
    sd.ns["__new__"] = OBJECT.ns["__new__"]

    def sdcall(s, *a, kw=()):
        t = type_of(a[0])
        regs = {id(c): f for c, f in s.d.get("_r").data}
        for c in t.mro:
            if c is not OBJECT and id(c) in regs:
                return call(regs[id(c)], a, kw)
        for c, f in s.d.get("_r").data:
            if c is not OBJECT and isinstance_(a[0], c):
                return call(f, a, kw)
        if id(OBJECT) in regs:
            return call(regs[id(OBJECT)], a, kw)
        return call(s.d.get("_f"), a, kw)
    nat(sd, "__call__", rawkw=True)(sdcall)

    def sdreg(s, cls, f=None):
        if f is None:
            if not isinstance(cls, ClassV):
                raise Unsupported("singledispatch by annotation")
            return NativeF("register", lambda g: (s.d.get("_r").data.append((cls, g)), g)[1])
        s.d.get("_r").data.append((cls, f))
        return f
    nat(sd, "register")(sdreg)

    def total_ordering(c):
        if "__lt__" in c.ns:
            lt = c.ns["__lt__"]
            c.ns.setdefault("__gt__", NativeF("gt", lambda a, b: truth(call(lt, [b, a]))))
            c.ns.setdefault("__le__", NativeF("le", lambda a, b: truth(call(lt, [a, b])) or eq_(a, b)))
            c.ns.setdefault("__ge__", NativeF("ge", lambda a, b: not truth(call(lt, [a, b]))))
        return c

    def cmp_to_key(f):
        k = ClassV("K", [OBJECT], {}, "functools", native=True)
        k.ns["__new__"] = OBJECT.ns["__new__"]
        nat(k, "__init__")(lambda s, v: s.attrs().set("v", v))
        nat(k, "__lt__")(lambda a, b: truth(order_val("<", call(f, [a.d.get("v"), b.d.get("v")]), 0)))
        return k
    return {"wraps": wraps, "partial": part, "reduce": reduce, "lru_cache": lru_cache, "cache": cached, "singledispatch": singledispatch,
            "cached_property": lambda f: PropertyV(f, cached=True), "total_ordering": total_ordering, "cmp_to_key": cmp_to_key,
            "update_wrapper": lambda w, o, *a, **k: w, "partialmethod": Unk("partialmethod"), "singledispatchmethod": Unk("singledispatchmethod")}


@module("itertools")
def _(m):
    def gen(f):
        return lambda *a, **k: IterV(f(*a, **k))

    def chain(*its):
        srcs = its

        def g():
            for i in srcs:
                yield from iterate(i)
        return IterV(g())

    def from_iterable(it):
        def g():
            for i in iterate(it):
                yield from iterate(i)
        return IterV(g())
    cc = ClassV("chain", [OBJECT], {}, "itertools", native=True)
    cc.ns["__class_call__"] = lambda cls, args, kw: chain(*args)
    cc.ns["from_iterable"] = StaticM(NativeF("from_iterable", from_iterable))

    def islice(it, *a):
        s = slice(*a)
        start, stop, step = s.start or 0, s.stop, s.step or 1
        for i, x in enumerate(iterate(it)):
            if stop is not None and i >= stop:
                return
            if i >= start and (i - start) % step == 0:
                yield x
            if stop is not None and i + 1 >= stop:
                return

    def groupby(it, key=None):
        xs = tolist(it)
        i = 0
        while i < len(xs):
            k = call(key, [xs[i]]) if key is not None else xs[i]
            j = i
            grp = []
            while j < len(xs):
                k2 = call(key, [xs[j]]) if key is not None else xs[j]
                if not eq_(k, k2):
                    break
                grp.append(xs[j])
                j += 1
            yield (k, IterV(iter(grp)))
            i = j

    def takewhile(p, it):
        for x in iterate(it):
            if not truth(call(p, [x])):
                return
            yield x

    def dropwhile(p, it):
        drop = True
        for x in iterate(it):
            if drop and truth(call(p, [x])):
                continue
            drop = False
            yield x

    def pairwise(it):
        prev = E._MISSING
        for x in iterate(it):
            if prev is not E._MISSING:
                yield (prev, x)
            prev = x

    def zip_longest(*its, fillvalue=None):
        xs = [tolist(i) for i in its]
        for k in range(max(map(len, xs), default=0)):
            yield tuple(x[k] if k < len(x) else fillvalue for x in xs)

    def accumulate(it, f=None, initial=None):
        acc = initial
        first = initial is None
        if not first:
            yield acc
        for x in iterate(it):
            acc = x if first else (call(f, [acc, x]) if f else E.binop("Add", acc, x))
            first = False
            yield acc
    count = ClassV("count", [OBJECT], {}, "itertools", native=True)

    def cnew(cls, start=0, step=1):
        i = Inst(cls)
        i.attrs().set("n", start)
        i.attrs().set("step", step)
        return i
    count.ns["__new__"] = NativeF("count", cnew, static=True)
    count.ns["__init__"] = OBJECT.ns["__init__"]

    def cnext(s):
        v = s.d.get("n")
        touch(s, "next")
        s.d.set("n", E.binop("Add", v, s.d.get("step")))
        return v
    nat(count, "__next__")(cnext)
    nat(count, "__iter__")(lambda s: IterV(E.proto_iter(s)))

    def filterfalse(f, it):
        for x in iterate(it):
            if not truth(x if f is None else call(f, [x])):
                yield x

    def repeat(v, n=None):
        i = 0
        while n is None or i < n:
            yield v
            i += 1

    def starmap(f, it):
        for a in iterate(it):
            yield call(f, tolist(a))

    def product(*its, repeat=1):
        import itertools

        for t in itertools.product(*[tolist(i) for i in its] * repeat):
            yield t

    def tee(it, n=2):
        xs = tolist(it)
        return tuple(IterV(iter(list(xs))) for _ in range(n))

    def compress(d, s):
        for a, b in zip(iterate(d), iterate(s)):
            if truth(b):
                yield a
    return {"chain": cc, "islice": gen(islice), "groupby": gen(groupby), "takewhile": gen(takewhile), "dropwhile": gen(dropwhile),
            "pairwise": gen(pairwise), "zip_longest": gen(zip_longest), "accumulate": gen(accumulate), "count": count,
            "filterfalse": gen(filterfalse), "repeat": gen(repeat), "starmap": gen(starmap), "product": gen(product), "tee": tee,
            "compress": gen(compress)}


@module("operator")
def _(m):
    ns = {}
    for n, o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("concat", "Add"), ("or_", "BitOr"), ("and_", "BitAnd"), ("mod", "Mod")):
        ns[n] = lambda a, b, o=o: E.binop(o, a, b)
    for n, o in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("is_", "Is"), ("is_not", "IsNot")):
        ns[n] = lambda a, b, o=o: E.compare(o, a, b)
    ns["iadd"] = lambda a, b: E.inplace("Add", a, b)
    ns["ior"] = lambda a, b: E.inplace("BitOr", a, b)
    ns["contains"] = contains
    ns["not_"] = lambda a: not truth(a)
    ns["truth"] = truth
    ns["getitem"] = getitem
    ns["setitem"] = E.setitem
    ns["delitem"] = E.delitem
    ns["index"] = index_

    def attrgetter(*names):
        def one(o, n):
            for p in n.split("."):
                o = getattr_(o, p)
            return o
        return NativeF("attrgetter", lambda o: one(o, names[0]) if len(names) == 1 else tuple(one(o, n) for n in names))
    ns["attrgetter"] = attrgetter
    ns["itemgetter"] = lambda *k: NativeF("itemgetter", lambda o: getitem(o, k[0]) if len(k) == 1 else tuple(getitem(o, x) for x in k))
    ns["methodcaller"] = raw(lambda n, *a, kw=(): NativeF("methodcaller", lambda o: call(getattr_(o, n), a, kw)))
    return ns


@module("contextlib")
def _(m):
    gcm = ClassV("_GeneratorContextManager", [OBJECT], {}, "contextlib", native=True)
    gcm.ns["__new__"] = OBJECT.ns["__new__"]

    def enter(s):
        try:
            return next(s.d.get("gen").it)
        except StopIteration:
            throw("RuntimeError", "generator didn't yield")

    def exit_(s, t, v, tb):
        g = s.d.get("gen").it
        if t is None:
            try:
                next(g)
            except StopIteration:
                return False
            throw("RuntimeError", "generator didn't stop")
        try:
            g.throw(Raised(v))
        except StopIteration:
            return True
        except Raised as e:
            if e.value is v:
                return False
            raise
        throw("RuntimeError", "generator didn't stop after throw()")
    nat(gcm, "__enter__")(enter)
    nat(gcm, "__exit__")(exit_)

    def contextmanager(f):
        def mk(*a, kw=()):
            i = Inst(gcm)
            i.attrs().set("gen", call(f, a, kw))
            return i
        return NativeF("contextmanager", mk, rawkw=True)
    cl = ClassV("closing", [OBJECT], {}, "contextlib", native=True)
    cl.ns["__new__"] = OBJECT.ns["__new__"]
    nat(cl, "__init__")(lambda s, t: s.attrs().set("thing", t))
    nat(cl, "__enter__")(lambda s: s.d.get("thing"))
    nat(cl, "__exit__")(lambda s, *a: (call(getattr_(s.d.get("thing"), "close"), []), None)[1])
    sup = ClassV("suppress", [OBJECT], {}, "contextlib", native=True)
    sup.ns["__new__"] = OBJECT.ns["__new__"]
    nat(sup, "__init__")(lambda s, *e: s.attrs().set("e", tuple(e)))
    nat(sup, "__enter__")(lambda s: None)
    nat(sup, "__exit__")(lambda s, t, v, tb: t is not None and any(t.issub(e) for e in s.d.get("e")))
    nul = ClassV("nullcontext", [OBJECT], {}, "contextlib", native=True)
    nul.ns["__new__"] = OBJECT.ns["__new__"]
    nat(nul, "__init__")(lambda s, r=None: s.attrs().set("r", r))
    nat(nul, "__enter__")(lambda s: s.d.get("r"))
    nat(nul, "__exit__")(lambda s, *a: None)
    es = ClassV("ExitStack", [OBJECT], {}, "contextlib", native=True)
    es.ns["__new__"] = OBJECT.ns["__new__"]
    nat(es, "__init__")(lambda s: s.attrs().set("cbs", []))
    nat(es, "__enter__")(lambda s: s)

    def es_cb(s, f, *a, kw=()):
        s.d.get("cbs").append(("cb", f, a, kw))
        return f
    nat(es, "callback", rawkw=True)(es_cb)

    def es_enter(s, cm):
        en, ex = E.cm_methods(cm)
        r = call(en, [])
        s.d.get("cbs").append(("cm", ex))
        return r
    nat(es, "enter_context")(es_enter)

    def es_exit(s, t=None, v=None, tb=None):
        cur = v
        sup_ = False
        for cb in reversed(s.d.get("cbs")):
            try:
                if cb[0] == "cb":
                    call(cb[1], cb[2], cb[3])
                elif truth(call(cb[1], [cur.cls if cur else None, cur, None])):
                    cur = None
                    sup_ = True
            except Raised as e:
                cur = e.value
                sup_ = False
        s.d.set("cbs", [])
        if cur is not None and cur is not v:
            raise Raised(cur)
        return v is not None and cur is None
    nat(es, "__exit__")(es_exit)
    nat(es, "close")(lambda s: es_exit(s))
    return {"contextmanager": contextmanager, "closing": cl, "suppress": sup, "nullcontext": nul, "ExitStack": es,
            "AbstractContextManager": OBJECT, "ContextDecorator": OBJECT}


@module("dataclasses")
def _(m):
    fieldc = ClassV("Field", [OBJECT], {}, "dataclasses", native=True)
    fieldc.ns["__new__"] = OBJECT.ns["__new__"]
    KW_ONLY = Inst(OBJECT)

    def field(*, default=E._MISSING, default_factory=E._MISSING, init=True, repr=True, compare=True, hash=None, kw_only=False, metadata=None):
        i = Inst(fieldc)
        i.attrs().set("o", {"default": default, "factory": default_factory, "init": init, "compare": compare})
        return i

    def setup(cls, frozen=False, eq=True, order=False, unsafe_hash=False, slots=False, kw_only=False, init=True, repr=True):
        fs = []
        for b in reversed(cls.mro[1:]):
            fs += [f for f in getattr(b, "dcfields", []) if f[0] not in [x[0] for x in fs]]
        own = []
        for n in cls.fields:
            if "ClassVar" in cls.fieldtypes.get(n, ""):
                continue
            d = cls.ns.get(n, E._MISSING)
            o = {"default": d, "factory": E._MISSING, "init": True, "compare": True}
            if isinstance(d, Inst) and d.cls is fieldc:
                o = d.d.get("o")
                if o["default"] is not E._MISSING:
                    cls.ns[n] = o["default"]
                else:
                    cls.ns.pop(n, None)
            own.append((n, o))
        fs = [f for f in fs if f[0] not in [x[0] for x in own]] + own
        cls.dcfields = fs

        def dinit(self, *a, kw=()):
            kwd = {T.const(k): v for k, v in kw}
            a = list(a)
            for n, o in fs:
                if not o["init"]:
                    if o["factory"] is not E._MISSING:
                        v = call(o["factory"], [])
                    elif o["default"] is not E._MISSING:
                        v = o["default"]
                    else:
                        continue
                elif a:
                    v = a.pop(0)
                elif n in kwd:
                    v = kwd.pop(n)
                elif o["factory"] is not E._MISSING:
                    v = call(o["factory"], [])
                elif o["default"] is not E._MISSING:
                    v = o["default"]
                else:
                    throw("TypeError", f"missing argument '{n}'")
                self.attrs().set(n, v)
            if a or kwd:
                throw("TypeError", "unexpected arguments")
            pi = cls.lookup("__post_init__")
            if pi is not None:
                call(pi, [self])
        if init and "__init__" not in cls.ns:
            nat(cls, "__init__", rawkw=True)(dinit)
        if eq and "__eq__" not in cls.ns:
            def deq(a, b):
                if type_of(b) is not a.cls:
                    return NI
                return all(eq_(a.d.get(n), b.d.get(n)) for n, o in fs if o["compare"])
            nat(cls, "__eq__")(deq)
            if frozen or unsafe_hash:
                nat(cls, "__hash__")(lambda s: HashV(("dc",) + tuple(token(s.d.get(n)) for n, _ in fs)))
            elif "__hash__" not in cls.ns:
                cls.ns["__hash__"] = None
        if repr and "__repr__" not in cls.ns:
            nat(cls, "__repr__")(lambda s: T.concat(cls.name, "(", E.join(", ", [T.concat(n, "=", repr_(s.d.get(n))) for n, _ in fs]), ")"))
        return cls

    def dataclass(cls=None, **kw):
        if cls is None:
            return NativeF("dataclass", lambda c: setup(c, **kw))
        return setup(cls, **kw)

    def replace(o, **kw):
        return call(o.cls, [], [(n, kw.get(n, o.d.get(n))) for n, f in o.cls.dcfields])

    def asdict(o):
        return mkdict([(n, copy_deepcopy(o.d.get(n))) for n, _ in o.cls.dcfields])
    return {"dataclass": dataclass, "field": field, "replace": replace, "asdict": asdict, "KW_ONLY": KW_ONLY,
            "fields": lambda o: Unk("fields"), "is_dataclass": lambda o: hasattr(o if isinstance(o, ClassV) else type_of(o), "dcfields")}


@module("types")
def _(m):
    mp = ClassV("mappingproxy", [DICT], {}, "types", native=True)

    def mpnew(cls, d):
        return Inst(cls, d.data)
    mp.ns["__new__"] = NativeF("mappingproxy", mpnew, static=True)
    mp.ns["__init__"] = NativeF("i", lambda s, d: None)
    for n in ("__setitem__", "__delitem__", "update", "pop", "clear", "setdefault"):
        nat(mp, n)(lambda *a, **k: throw("TypeError", "'mappingproxy' object does not support item assignment"))
    sn = ClassV("SimpleNamespace", [OBJECT], {}, "types")

    def sninit(s, kw=()):
        for k, v in kw:
            s.attrs().set(k, v)
    sn.ns["__new__"] = OBJECT.ns["__new__"]
    nat(sn, "__init__", rawkw=True)(sninit)
    return {"MappingProxyType": mp, "SimpleNamespace": sn, "FunctionType": FUNCTION, "LambdaType": FUNCTION, "MethodType": E.METHOD,
            "GeneratorType": E.GENERATOR, "NoneType": E.NONETYPE, "ModuleType": E.MODULE, "TracebackType": OBJECT, "BuiltinFunctionType": E.BUILTIN,
            "EllipsisType": E.ELLIPSIS, "UnionType": Unk("UnionType"), "GenericAlias": Unk("GenericAlias")}


@module("io")
def _(m):
    sio = ClassV("StringIO", [OBJECT], {}, "io", native=True)
    sio.ns["__new__"] = OBJECT.ns["__new__"]
    nat(sio, "__init__")(lambda s, v="", newline="\n": s.attrs().set("buf", [v]))

    def write(s, t):
        touch(s, "write")
        s.d.set("buf", s.d.get("buf") + [S(t)])
        return T.length(S(t))
    nat(sio, "write")(write)
    nat(sio, "writelines")(lambda s, it: [write(s, x) for x in tolist(it)] and None)
    nat(sio, "getvalue", "read")(lambda s: T.concat(*s.d.get("buf")))
    nat(sio, "close")(lambda s: None)
    nat(sio, "__enter__")(lambda s: s)
    nat(sio, "__exit__")(lambda s, *a: None)
    return {"StringIO": sio}


@module("hashlib")
def _(m):
    h = ClassV("HASH", [OBJECT], {}, "hashlib", native=True)

    def mk(name):
        def f(data=b"", usedforsecurity=True):
            i = Inst(h)
            i.attrs().set("n", name)
            i.attrs().set("b", [data] if not (isinstance(data, bytes) and data == b"") else [])
            return i
        return f

    def val(s):
        b = s.d.get("b")
        if not b:
            return b""
        r = b[0]
        for x in b[1:]:
            r = E.binop("Add", r, x)
        return r

    def hexd(s):
        v = val(s)
        if isinstance(v, bytes):
            import hashlib

            return hashlib.new(s.d.get("n"), v).hexdigest()
        return T.op("hexdigest", s.d.get("n"), v)

    def upd(s, b):
        touch(s, "update")
        s.d.set("b", s.d.get("b") + [b])
    nat(h, "hexdigest")(hexd)
    nat(h, "update")(upd)
    nat(h, "digest")(lambda s: BytesV(T.op("digest", s.d.get("n"), val(s)), "raw"))
    nat(h, "copy")(copy_copy)
    ns = {n: mk(n) for n in ("sha1", "sha224", "sha256", "sha384", "sha512", "md5", "blake2b", "blake2s", "sha3_256")}
    ns["new"] = lambda name, data=b"", usedforsecurity=True: mk(T.const(name))(data)
    return ns


@module("html")
def _(m):
    def escape(s, quote=True):
        t = {"&": "&amp;", "<": "&lt;", ">": "&gt;"}
        if truth(quote):
            t.update({'"': "&quot;", "'": "&#x27;"})
        return T.apply_hom(S(s), t)

    def unescape(s):
        import html

        c = T.const(S(s))
        return html.unescape(c) if c is not None else T.op("unescape", S(s))
    return {"escape": escape, "unescape": unescape}


@module("xml.sax.saxutils")
def _(m):
    def escape(s, entities=None):
        t = {"&": "&amp;", "<": "&lt;", ">": "&gt;"}
        if entities is not None:
            raise Unsupported("saxutils entities")
        return T.apply_hom(S(s), t)
    return {"escape": escape}


NATIVE_MODULES["xml"] = lambda: _mk("xml", lambda m: {})
NATIVE_MODULES["xml.sax"] = lambda: _mk("xml.sax", lambda m: {})


@module("textwrap")
def _(m):
    def indent(text, prefix, predicate=None):
        c = T.const(S(text))
        import textwrap

        if c is not None and T.const(prefix) is not None and predicate is None:
            return textwrap.indent(c, T.const(prefix))
        raise Unsupported("textwrap.indent on opaque text")

    def dedent(t):
        import textwrap

        c = T.const(S(t))
        if c is None:
            raise Unsupported("dedent")
        return textwrap.dedent(c)
    return {"indent": indent, "dedent": dedent}


@module("string")
def _(m):
    import string

    return {n: getattr(string, n) for n in ("ascii_letters", "ascii_lowercase", "ascii_uppercase", "digits", "punctuation", "whitespace", "hexdigits", "printable")}


@module("random")
def _(m):
    def nd(*a, **k):
        P().nd_used.add(T.CUR_LOC[0])
        return Num(("rand", P().uid("r"), P().nd), "float")
    return {n: nd for n in ("random", "randint", "randrange", "uniform", "getrandbits")}


@module("time")
def _(m):
    def nd(*a, **k):
        P().nd_used.add(T.CUR_LOC[0])
        return Num(("time", P().uid("t"), P().nd), "float")
    return {n: nd for n in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "process_time")}


@module("uuid")
def _(m):
    c = ClassV("UUID", [OBJECT], {}, "uuid", native=True)
    c.ns["__new__"] = OBJECT.ns["__new__"]

    def mk(*a):
        P().nd_used.add(T.CUR_LOC[0])
        i = Inst(c)
        i.attrs().set("hex", T.op("uuid", Num(("uuid", P().uid("u"), P().nd))))
        return i
    nat(c, "__str__")(lambda s: s.d.get("hex"))
    return {"uuid4": mk, "uuid1": mk, "UUID": c}


@module("secrets")
def _(m):
    def nd(*a, **k):
        P().nd_used.add(T.CUR_LOC[0])
        return T.op("secret", Num((P().uid("u"), P().nd)))
    return {"token_hex": nd, "token_urlsafe": nd}


@module("threading")
def _(m):
    lk = ClassV("Lock", [OBJECT], {}, "threading", native=True)
    lk.ns["__new__"] = OBJECT.ns["__new__"]
    for n in ("acquire", "release", "__enter__", "__exit__"):
        nat(lk, n)(lambda *a, **k: None)
    loc = ClassV("local", [OBJECT], {}, "threading")
    loc.ns["__new__"] = OBJECT.ns["__new__"]
    return {"Lock": lk, "RLock": lk, "Thread": ClassV("Thread", [OBJECT], {}, "threading"), "local": loc}


@module("warnings")
def _(m):
    return {"warn": lambda *a, **k: None, "catch_warnings": Unk("catch_warnings"), "simplefilter": lambda *a, **k: None}


@module("logging")
def _(m):
    lg = ClassV("Logger", [OBJECT], {}, "logging", native=True)
    lg.ns["__new__"] = OBJECT.ns["__new__"]
    for n in ("debug", "info", "warning", "error", "exception"):
        nat(lg, n)(lambda *a, **k: None)
    return {"getLogger": lambda *a: Inst(lg), "debug": lambda *a, **k: None, "info": lambda *a, **k: None, "warning": lambda *a, **k: None}


@module("enum")
def _(m):
    en = ClassV("Enum", [OBJECT], {}, "enum", native=True)

    def hook(cls, kw):
        members = []
        for n, v in list(cls.ns.items()):
            if n.startswith("_") or isinstance(v, (FuncV, PropertyV, StaticM, ClassM, NativeF)):
                continue
            i = Inst(cls, None)
            if isinstance(v, Inst) and v.cls is autoc:
                v = len(members) + 1
            if cls.issub(STR) and T.is_s(v):
                i.data = v
            i.attrs().set("value", v)
            i.attrs().set("name", n)
            i.attrs().set("_value_", v)
            cls.ns[n] = i
            members.append(i)
        cls.members = members
        cls.ns["__class_call__"] = lambda c, args, kw: next((x for x in members if eq_(x.d.get("value"), args[0])), None) or throw("ValueError", "not a valid enum")
        cls.subclass_hook = hook
    en.subclass_hook = hook
    nat(en, "__hash__")(lambda s: HashV(("i", id(s))))
    nat(en, "__str__", "__repr__")(lambda s: T.concat(s.cls.name, ".", s.d.get("name")))
    autoc = ClassV("auto", [OBJECT], {}, "enum", native=True)
    autoc.ns["__new__"] = OBJECT.ns["__new__"]
    se = ClassV("StrEnum", [STR, en], {}, "enum", native=True)
    se.subclass_hook = hook
    ie = ClassV("IntEnum", [en], {}, "enum", native=True)
    ie.subclass_hook = hook
    return {"Enum": en, "auto": autoc, "IntEnum": ie, "StrEnum": se, "unique": lambda c: c, "Flag": Unk("Flag")}


@module("numbers")
def _(m):
    ns = {}
    for n in ("Number", "Complex", "Real", "Rational", "Integral"):
        ns[n] = ClassV(n, [OBJECT], {}, "numbers", native=True)
    for n in ("Number", "Complex", "Real"):
        ABC_CHECK[ns[n]] = lambda t: t.issub(INT) or t.issub(FLOAT)
    for n in ("Rational", "Integral"):
        ABC_CHECK[ns[n]] = lambda t: t.issub(INT)
    return ns


@module("math")
def _(m):
    import math

    def pred(name):
        def f(v):
            if isinstance(v, (int, float)):
                return getattr(math, name)(v)
            if isinstance(v, Num):
                if v.kind == "int":
                    return name == "isfinite"
                if ("finite", v.name) in P().generic:
                    return name == "isfinite"
                return P().decide((name, v.name))
            return name == "isfinite"
        return f
    return {"isfinite": pred("isfinite"), "isnan": pred("isnan"), "isinf": pred("isinf"), "inf": math.inf, "nan": math.nan, "pi": math.pi,
            "floor": lambda v: math.floor(v) if isinstance(v, (int, float)) else Num(("floor", T.freeze(v)), "int"),
            "ceil": lambda v: math.ceil(v) if isinstance(v, (int, float)) else Num(("ceil", T.freeze(v)), "int"),
            "prod": Unk("prod"), "sqrt": Unk("sqrt"), "log": Unk("log")}


@module("weakref")
def _(m):
    col = E.import_module("collections")
    wkd = ClassV("WeakKeyDictionary", [DICT], {}, "weakref", native=True)
    wvd = ClassV("WeakValueDictionary", [DICT], {}, "weakref", native=True)
    return {"WeakKeyDictionary": wkd, "WeakValueDictionary": wvd, "WeakSet": SET, "ref": lambda o, cb=None: NativeF("ref", lambda: o)}


@module("contextvars")
def _(m):
    cv = ClassV("ContextVar", [OBJECT], {}, "contextvars", native=True)
    cv.ns["__new__"] = OBJECT.ns["__new__"]
    tokc = ClassV("Token", [OBJECT], {}, "contextvars", native=True)
    tokc.ns["__new__"] = OBJECT.ns["__new__"]

    def init(s, name, default=E._MISSING):
        s.attrs().set("default", default)
        s.attrs().set("v", E._MISSING)
    nat(cv, "__init__")(init)

    def get(s, *d):
        v = s.d.get("v")
        if v is not E._MISSING:
            return v
        if d:
            return d[0]
        v = s.d.get("default")
        if v is E._MISSING:
            throw("LookupError", "contextvar")
        return v

    def set_(s, v):
        t = Inst(tokc)
        t.attrs().set("old", s.d.get("v"))
        touch(s, "set")
        s.d.set("v", v)
        return t

    def reset(s, t):
        touch(s, "reset")
        s.d.set("v", t.d.get("old"))
    nat(cv, "get")(get)
    nat(cv, "set")(set_)
    nat(cv, "reset")(reset)
    return {"ContextVar": cv, "Token": tokc}


@module("importlib")
def _(m):
    ns = {"import_module": lambda n, package=None: _importlib_import(n, package), "reload": Unk("reload"), "resources": Unk("importlib.resources"), "metadata": Unk("importlib.metadata"), "util": Unk("importlib.util")}
    return ns


def _importlib_import(n, package=None):
    """module lookup whose only used attribute is the file location"""
    t = S(n)
    if package is not None and T.const(t) == ".":
        t = S(package)
    elif package is not None and T.const(t) is not None and T.const(t).startswith("."):
        t = T.concat(S(package), t)
    mv = ModV("<imported>")
    mv.ns["__file__"] = T.concat(T.op("pkgdir", t), "/__init__.py")
    mv.ns["__name__"] = t
    mv.ns["__path__"] = mklist([T.op("pkgdir", t)])
    return mv


for _n in ("importlib.resources", "importlib.metadata", "importlib.util", "inspect", "traceback", "gc", "socket", "socketserver", "http", "http.server",
           "webbrowser", "subprocess", "http.client", "asyncio", "pprint", "difflib", "decimal", "fractions", "datetime", "unittest", "argparse",
           "pickle", "queue", "ctypes", "struct", "base64", "binascii", "zlib", "locale", "codecs", "unicodedata", "platform", "getpass",
           "concurrent", "concurrent.futures", "multiprocessing", "signal", "atexit", "errno", "stat", "html.parser", "html.entities", "keyword",
           "reprlib", "heapq", "bisect", "array", "ast", "tokenize", "linecache", "dis"):
    if _n not in NATIVE_MODULES:
        def _mkunk(n=_n):
            m = ModV(n)
            m.dyn = lambda a, n=n: Unk(f"{n}.{a}") if not a.startswith("__") else E._MISSING
            return m
        NATIVE_MODULES[_n] = _mkunk

NATIVE_MODULES["http.server"] = lambda: _mk("http.server", lambda m: {"SimpleHTTPRequestHandler": OBJECT})
NATIVE_MODULES["base64"] = lambda: _mk("base64", lambda m: {})
NATIVE_MODULES["unicodedata"] = lambda: _mk("unicodedata", lambda m: {"normalize": lambda f, s: T.op("unicodedata.normalize", f, s) if T.const(S(s)) is None else __import__("unicodedata").normalize(f, T.const(s))})


@module("urllib.parse")
def _(m):
    import urllib.parse as up

    def quote(s, safe="/", encoding=None, errors=None):
        c = T.const(S(s))
        sf = T.const(S(safe))
        if c is not None:
            return up.quote(c, safe=sf)
        out = []
        for p in T._resolve_parts(T.parts_of(S(s))):
            if p[0] == "L":
                out.append(("L", up.quote(p[1], safe=sf), p[2]))
            else:
                out.append(("O", ("quote", (Str([p]), sf)), T.CUR_LOC[0]))
        return Str(out)

    T.REFOLD["quote"] = quote

    def unquote(s, encoding="utf-8", errors="replace"):
        c = T.const(S(s))
        if c is not None:
            return up.unquote(c)
        out = []
        for p in T._resolve_parts(T.parts_of(S(s))):
            if p[0] == "L" and "%" not in p[1]:
                out.append(p)
            elif p[0] == "O" and p[1][0] == "quote":
                out.extend(T.parts_of(p[1][1][0]))
            else:
                out.append(("O", ("unquote", (Str([p]),)), T.CUR_LOC[0]))
        return Str(out)

    def quote_plus(s, safe="", **k):
        c = T.const(S(s))
        return up.quote_plus(c, safe=safe) if c is not None else T.op("quote_plus", S(s), safe)
    return {"quote": quote, "unquote": unquote, "quote_plus": quote_plus, "urljoin": lambda a, b: T.op("urljoin", a, b)}


NATIVE_MODULES["urllib"] = lambda: _mk("urllib", lambda m: {})


# packaging.version: abstract versions ------------------------------------------------
VERSION = ClassV("Version", [OBJECT], {}, "packaging.version", native=True)
VERSION.loc = None


def version_rank(s):
    """rank of a version string: parse const, or registered abstract rank"""
    c = T.const(S(s))
    if c is not None:
        return parse_version(c)
    for p in T.parts_of(S(s)):
        if p[0] == "A" and p[1][0].name in VERSION_RANKS:
            return VERSION_RANKS[p[1][0].name]
    return None


VERSION_RANKS = {}


_PEP440 = r"""v?(?:(?:(?P<epoch>[0-9]+)!)?(?P<release>[0-9]+(?:\.[0-9]+)*)(?P<pre>[-_.]?(?P<pre_l>alpha|a|beta|b|preview|pre|c|rc)[-_.]?(?P<pre_n>[0-9]+)?)?
(?P<post>(?:-(?P<post_n1>[0-9]+))|(?:[-_.]?(?P<post_l>post|rev|r)[-_.]?(?P<post_n2>[0-9]+)?))?(?P<dev>[-_.]?(?P<dev_l>dev)[-_.]?(?P<dev_n>[0-9]+)?)?)
(?:\+(?P<local>[a-z0-9]+(?:[-_.][a-z0-9]+)*))?"""


def pep440(c):
    """(epoch, release, pre, post, dev, local) of a version string"""
    import re

    m = re.fullmatch(r"\s*" + _PEP440 + r"\s*", c, re.I | re.X)
    if not m:
        throw(INVALIDVERSION, f"Invalid version: '{c}'")
    d = m.groupdict()
    letter = {"alpha": "a", "beta": "b", "c": "rc", "pre": "rc", "preview": "rc"}
    pre = (letter.get(d["pre_l"].lower(), d["pre_l"].lower()), int(d["pre_n"] or 0)) if d["pre"] else None
    post = int(d["post_n1"] or d["post_n2"] or 0) if d["post"] else None
    dev = int(d["dev_n"] or 0) if d["dev"] else None
    local = tuple(x.lower() if not x.isdigit() else int(x) for x in re.split(r"[-_.]", d["local"])) if d["local"] else None
    return int(d["epoch"] or 0), tuple(int(x) for x in d["release"].split(".")), pre, post, dev, local


def version_text(v, upto="local"):
    epoch, release, pre, post, dev, local = v
    t = (f"{epoch}!" if epoch else "") + ".".join(map(str, release))
    if upto == "base":
        return t
    t += "".join(map(str, pre)) if pre else ""
    t += f".post{post}" if post is not None else ""
    t += f".dev{dev}" if dev is not None else ""
    return t + ("+" + ".".join(map(str, local)) if local is not None and upto == "local" else "")


def parse_version(c):
    """comparison key of a version string"""
    epoch, release, pre, post, dev, local = pep440(c)
    rel = list(release)
    while len(rel) > 1 and rel[-1] == 0:
        rel.pop()
    prek = (-1,) if pre is None and post is None and dev is not None else (1,) if pre is None else (0, *pre)
    return (epoch, tuple(rel), prek, (0,) if post is None else (1, post), (1,) if dev is None else (0, dev), (0,) if local is None else (1, *[(1, x, "") if isinstance(x, int) else (0, 0, x) for x in local]))


INVALIDVERSION = ClassV("InvalidVersion", [EXC["ValueError"]], {}, "packaging.version", native=True)


def _ver_new(cls, s):
    t = text_of(s)
    if t is None:
        throw("TypeError", "expected string or bytes-like object")
    i = Inst(cls)
    i.attrs().set("_s", t)
    r = version_rank(t)
    i.attrs().set("_r", r)
    return i


VERSION.ns["__new__"] = NativeF("Version", _ver_new, static=True)
VERSION.ns["__init__"] = NativeF("i", lambda s, v: None)


def _vkey(v):
    r = v.d.get("_r")
    return r


def _vcmp(op, a, b):
    if not (isinstance(b, Inst) and b.cls.issub(VERSION)):
        return NI
    ra, rb = _vkey(a), _vkey(b)
    if ra is not None and rb is not None:
        if isinstance(ra, tuple) == isinstance(rb, tuple):
            return {"==": ra == rb, "<": ra < rb, "<=": ra <= rb, ">": ra > rb, ">=": ra >= rb}[op]
    na, nb = T.norm(a.d.get("_s")), T.norm(b.d.get("_s"))
    if na == nb:
        return op in ("==", "<=", ">=")
    flip = repr(na) > repr(nb)
    if flip:
        na, nb = nb, na
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "=="}[op]
    c = P().choose(("vcmp", na, nb), 3)  # 0: equal 1: less 2: greater
    return {"==": c == 0, "<": c == 1, "<=": c in (0, 1), ">": c == 2, ">=": c in (0, 2)}[op]


for _o, _n in (("==", "__eq__"), ("<", "__lt__"), ("<=", "__le__"), (">", "__gt__"), (">=", "__ge__")):
    nat(VERSION, _n)(lambda a, b, _o=_o: _vcmp(_o, a, b))


def ver_str(v):
    s = v.d.get("_s")
    c = T.const(s)
    if c is not None:
        return version_text(pep440(c))
    if any(p[0] == "O" and p[1][0] == "ver" for p in T.parts_of(s)):
        return s
    if all(p[0] == "L" or (p[0] == "A" and p[1][0].name in VERSION_RANKS) for p in T.parts_of(s)):
        return s
    return T.op("ver", s)


nat(VERSION, "__str__")(ver_str)
nat(VERSION, "__repr__")(lambda v: T.concat("<Version('", ver_str(v), "')>"))


def _vhash(v):
    r = v.d.get("_r")
    return HashV(("ver", repr(r) if r is not None else T.norm(v.d.get("_s"))))


nat(VERSION, "__hash__")(_vhash)


def _ver_part(upto):
    def f(v):
        s = v.d.get("_s")
        c = T.const(s)
        return version_text(pep440(c), upto) if c is not None else T.op("ver_" + upto, s)
    return PropertyV(NativeF(upto, f))


VERSION.ns["public"] = _ver_part("public")
VERSION.ns["base_version"] = _ver_part("base")
for _n, _i in (("major", 0), ("minor", 1), ("micro", 2)):
    VERSION.ns[_n] = PropertyV(NativeF(_n, lambda v, i=_i: (v.d.get("_r")[1] + (0, 0, 0))[i] if isinstance(v.d.get("_r"), tuple) else Num(("ver", i, T.norm(v.d.get("_s"))), "int")))
VERSION.ns["release"] = PropertyV(NativeF("release", lambda v: pep440(T.const(v.d.get("_s")))[1] if T.const(v.d.get("_s")) is not None else Unk("Version.release")))


def _ver_field(n, f):
    def get(v):
        c = T.const(v.d.get("_s"))
        if c is not None:
            return f(pep440(c))
        if n.startswith("is_"):
            # any order of versions is possible whichever of them are pre-, post- or dev-releases
            return P().decide(("ver", n, T.norm(v.d.get("_s"))))
        return Unk("Version." + n)
    VERSION.ns[n] = PropertyV(NativeF(n, get))


for _n, _f in (("epoch", lambda p: p[0]), ("pre", lambda p: p[2]), ("post", lambda p: p[3]), ("dev", lambda p: p[4]),
               ("local", lambda p: None if p[5] is None else ".".join(map(str, p[5]))), ("is_prerelease", lambda p: p[2] is not None or p[4] is not None),
               ("is_postrelease", lambda p: p[3] is not None), ("is_devrelease", lambda p: p[4] is not None)):
    _ver_field(_n, _f)
NATIVE_MODULES["packaging"] = lambda: _mk("packaging", lambda m: {})
NATIVE_MODULES["packaging.version"] = lambda: _mk("packaging.version", lambda m: {"Version": VERSION, "parse": lambda s: call(VERSION, [s]), "InvalidVersion": INVALIDVERSION, "LegacyVersion": Unk("LegacyVersion")})


def _ipython():
    throw("ModuleNotFoundError", "No module named 'IPython'")


NATIVE_MODULES["IPython"] = _ipython


# ------------------------------------------------------------------ json
@module("json")
def _(m):
    jd = EXC["JSONDecodeError"]
    return {"dumps": json_dumps, "loads": json_loads, "JSONDecodeError": jd, "JSONEncoder": Unk("JSONEncoder"), "dump": Unk("json.dump"), "load": Unk("json.load")}


def json_shape(v):
    """canonical structure of a JSON-able abstract value"""
    t = text_of(v)
    if t is not None:
        return ("str", t)
    if v is None or isinstance(v, (bool, int, float, Num, Lin, BoolV)):
        return ("lit", v)
    if isinstance(v, tuple):
        return ("list", [json_shape(x) for x in v])
    if isinstance(v, Inst) and isinstance(v.data, list) and v.cls.issub(LIST):
        return ("list", [json_shape(x) for x in v.data])
    if isinstance(v, Inst) and isinstance(v.data, DictData) and v.cls.issub(DICT):
        return ("dict", [(json_key(k), json_shape(x)) for k, x in v.data.items()])
    throw("TypeError", f"Object of type {type_of(unk(v)).name} is not JSON serializable")


def json_key(k):
    if text_of(k) is not None:
        return text_of(k)
    if k is True:
        return "true"
    if k is False:
        return "false"
    if k is None:
        return "null"
    if isinstance(k, (int, float)):
        return str(k)
    throw("TypeError", "keys must be str, int, float, bool or None")


class JsonV:
    """structure inside a JSON text term"""

    __slots__ = ("shape", "opts")

    def __init__(self, shape, opts):
        self.shape, self.opts = shape, opts

    def freeze(self):
        return ("json", _fr(self.shape), self.opts)


def _fr(sh):
    k = sh[0]
    if k == "list":
        return ("list", tuple(_fr(x) for x in sh[1]))
    if k == "dict":
        return ("dict", tuple((T.freeze(a), _fr(b)) for a, b in sh[1]))
    return (k, T.freeze(sh[1]))


def json_dumps(obj, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None, indent=None, separators=None,
               default=None, sort_keys=False):
    if cls is not None or default is not None:
        raise Unsupported("json.dumps cls/default")
    sh = json_shape(obj)
    if truth(sort_keys):
        sh = _sorted_shape(sh)
    hc = _shape_const(sh)
    ind = T.const(indent) if T.is_s(indent) else indent
    sep = None if separators is None else tuple(T.const(x) if T.is_s(x) else x for x in tolist(separators))
    if hc is not E._MISSING and (indent is None or isinstance(indent, int) or isinstance(ind, str)) and (sep is None or all(isinstance(x, str) for x in sep)):
        import json

        return json.dumps(hc, indent=ind, separators=sep, ensure_ascii=truth(ensure_ascii))
    seps = None if separators is None else tuple(separators)
    return json_term(sh, T.freeze(indent), seps, truth(ensure_ascii), 0)


def _sorted_shape(sh):
    if sh[0] == "dict":
        if any(T.const(k) is None for k, _ in sh[1]):
            raise Unsupported("sort_keys with symbolic keys")
        return ("dict", sorted([(k, _sorted_shape(v)) for k, v in sh[1]], key=lambda kv: T.const(kv[0])))
    if sh[0] == "list":
        return ("list", [_sorted_shape(x) for x in sh[1]])
    return sh


def _shape_const(sh):
    k, v = sh
    if k == "str":
        c = T.const(v)
        return E._MISSING if c is None else c
    if k == "lit":
        return v if v is None or isinstance(v, (bool, int, float)) else E._MISSING
    if k == "list":
        xs = [_shape_const(x) for x in v]
        return E._MISSING if any(x is E._MISSING for x in xs) else xs
    out = {}
    for a, b in v:
        c, d = T.const(a), _shape_const(b)
        if c is None or d is E._MISSING:
            return E._MISSING
        out[c] = d
    return out


def json_term(sh, indent, seps, ascii_, level):
    """one opaque JSON text term keeping its structure"""
    return Str([("O", ("json", (JsonV(sh, (indent, seps, ascii_)), )), T.CUR_LOC[0])])


def json_loads(s, **kw):
    s = S(s)
    c = T.const(s)
    if c is not None:
        import json

        return from_host(host(json.loads, c))
    ps = T._resolve_parts(T.parts_of(s))
    ps = [p for p in ps if p[0] != "L" or p[1].strip()]
    if len(ps) == 1 and ps[0][0] == "O":
        sh = json_struct(ps[0][1])
        if sh is not None:
            return shape_value(sh)
    raise Unsupported("json.loads of opaque text")


def json_struct(o):
    """structure denoted by a JSON text term after textual replacements, else None"""
    name, args = o
    if name == "json":
        return args[0].shape
    if name == "replace" and args[3] == -1:
        inner, images = args[0], [(T.const(args[1]), T.const(args[2]))]
    elif name == "hom":
        inner, images = args[1], list(args[0])
    elif name == "resub" and args[2] and args[3] == "neutral":
        inner, images = args[0], list(args[2])
    else:
        return None
    ps = T._resolve_parts(T.parts_of(inner))
    if len(ps) != 1 or ps[0][0] != "O" or any(w is None or r is None for w, r in images):
        return None
    sh = json_struct(ps[0][1])
    fresh = ps[0][1][0] == "json"
    for w, r in images:
        if sh is not None:
            sh = json_rewrite(sh, w, r, fresh)
    return sh


def json_shape_of(v):
    """structure denoted by a JSON text (constant or term), else None"""
    import json

    c = T.const(v)
    if c is not None:
        if c[:1] not in ("{", "["):
            return None
        try:
            return host_shape(json.loads(c))
        except ValueError:
            return None
    ps = T._resolve_parts(T.parts_of(v))
    if len(ps) != 1 or ps[0][0] != "O" or ps[0][1][0] not in ("json", "replace", "hom", "resub"):
        return None
    return json_struct(ps[0][1])


def host_shape(v):
    if isinstance(v, dict):
        return ("dict", [(k, host_shape(x)) for k, x in v.items()])
    if isinstance(v, list):
        return ("list", [host_shape(x) for x in v])
    return ("str" if isinstance(v, str) else "lit", v)


def shape_same(x, y):
    if x[0] != y[0]:
        return False
    if x[0] == "str":
        return T.eq(x[1], y[1])
    if x[0] == "list":
        return len(x[1]) == len(y[1]) and all(shape_same(a, b) for a, b in zip(x[1], y[1]))
    if x[0] == "dict":
        return len(x[1]) == len(y[1]) and all(T.eq(a, b) for (a, _), (b, _) in zip(x[1], y[1])) and all(shape_same(a, b) for (_, a), (_, b) in zip(x[1], y[1]))
    return type(x[1]) is type(y[1]) and x[1] == y[1]


def json_differ(a, b):
    if T.const(a) is not None and T.const(b) is not None:
        return False
    x, y = json_shape_of(a), json_shape_of(b)
    return x is not None and y is not None and not shape_same(x, y)


T.DIFFER.append(json_differ)
OUTSIDE = set('{}[],: \t\r\n+-.0123456789eEtrufalsnINiy')  # JSON text outside string literals


def json_rewrite(sh, old, new, fresh):
    """the value after replacing `old` by `new` in the JSON text: string contents
    change by the decoded replacement (None: not expressible)"""
    import json

    if '"' in old or "\\" in old or all(c in OUTSIDE for c in old) or not old.isascii() or not old.isprintable():
        return None
    if old[0] in "bfnrtu" or (old[0] == "/" and not fresh):
        return None  # preceded by a backslash it is part of an escape; json.dumps itself writes no escaped '/'
    try:
        dec = json.loads('"' + new + '"')
    except ValueError:
        dec = None
    if dec == old:
        return sh

    def leaf(t):
        if dec is None:
            if T.contains(t, old):
                throw("ValueError", "JSONDecodeError: invalid JSON after textual replacement")
            return t
        return T.replace(t, old, dec)

    def go(s):
        if s[0] == "str":
            return ("str", leaf(s[1]))
        if s[0] == "list":
            return ("list", [go(x) for x in s[1]])
        if s[0] == "dict":
            return ("dict", [(leaf(k), go(v)) for k, v in s[1]])
        return s
    return go(sh)


def shape_value(sh):
    k, v = sh
    if k in ("str", "lit"):
        return v
    if k == "list":
        return mklist([shape_value(x) for x in v])
    return mkdict([(a, shape_value(b)) for a, b in v])


def from_host(v):
    if isinstance(v, dict):
        return mkdict([(k, from_host(x)) for k, x in v.items()])
    if isinstance(v, list):
        return mklist([from_host(x) for x in v])
    return v


EXC["JSONDecodeError"] = ClassV("JSONDecodeError", [EXC["ValueError"]], {}, "json", native=True)
RESETS = []


def reset_path_state():
    """forget per-path library state (registered abstract versions, fs effects…)"""
    for f in RESETS:
        f()


RESETS.append(VERSION_RANKS.clear)
RESETS.append(DISPLAYED.clear)
RESETS.append(E.id_reset)


def _fallback(name):
    """modules without a model: attributes are unknown values"""
    import sys

    if name in ("typing_extensions",):
        return E.import_module("typing")
    if name.split(".")[0] in sys.stdlib_module_names:
        m = ModV(name)
        m.dyn = lambda a: Unk(f"{name}.{a}") if not a.startswith("__") else E._MISSING
        return m
    return None


E.FALLBACK[0] = _fallback
