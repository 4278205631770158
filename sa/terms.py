"""Abstract string / number domain and the per-path predicate facts.

A string value is either a Python ``str`` constant or a ``Str``: a tuple of parts

  ('L', text, loc)            literal text (loc: where the source emits it)
  ('A', (atom, hom), loc)     opaque text atom under a character homomorphism
                              (hom: None = identity, else tuple of (char, image))
  ('R', (unit, sym), loc)     unit repeated `sym` times, sym a symbolic int >= 0
  ('O', (op, args), loc)      uninterpreted operation (library call result)

Facts are finite predicates about atoms (character membership, emptiness,
equality with constants, prefixes/suffixes) with local closure rules only.
"""
from __future__ import annotations


class Unsupported(Exception):
    """The analysis has no transfer function for this construct."""


class Infeasible(Exception):
    """The current combination of predicates is contradictory."""


class NeedChars(Exception):
    """The program looks at individual characters of an opaque text atom."""

    def __init__(self, atom):
        super().__init__(str(atom))
        self.atom = atom


class PathLimit(Exception):
    pass


class Atom:
    __slots__ = ("name", "excl", "only", "nonempty", "single", "seg")

    def __init__(self, name, excl=(), only=None, nonempty=False, single=False, seg=False):
        self.name = name
        self.excl = frozenset(excl)
        self.only = None if only is None else frozenset(only)
        self.nonempty = nonempty or single
        self.single = single
        self.seg = seg

    def __repr__(self):
        return f"<{self.name}>"


class Path:
    """One trace partition: the decisions taken and the facts they imply."""

    def __init__(self, script=(), nd=0):
        self.script = list(script)
        self.decisions = []  # (key, choice, n)
        self.generic = {}
        self.excl = {}
        self.has = {}
        self.hasany = []
        self.sub = {}
        self.neq = []  # pairs of texts decided to be different
        self.eqs = []  # pairs of texts decided to be equal
        self.nonempty = set()
        self.interval = {}
        self.notes = []
        self.nd = nd
        self.nd_used = set()
        self.undecided = []
        self.thresholds = set()
        self.steps = 0
        self.fresh = 0

    def choose(self, key, n):
        if key in self.generic:
            return self.generic[key]
        i = len(self.decisions)
        c = self.script[i] if i < len(self.script) else 0
        self.decisions.append((key, c, n))
        if len(self.decisions) > 400:
            raise PathLimit("too many decisions on one path")
        self.generic[key] = c
        return c

    def decide(self, key):
        """Fork on an uninterpreted boolean predicate. (first choice: False)"""
        return bool(self.choose(key, 2))

    def uid(self, base):
        self.fresh += 1
        return f"{base}#{self.fresh}"


_P: Path = Path()


def P() -> Path:
    return _P


def set_path(p):
    global _P
    _P = p


CUR_LOC = [None]


# ------------------------------------------------------------------ numbers
class Lin:
    """symbolic non-negative-ish int: sym + k"""

    __slots__ = ("sym", "k")

    def __init__(self, sym, k=0):
        self.sym = sym
        self.k = k

    def __repr__(self):
        return f"{self.sym}{self.k:+d}" if self.k else str(self.sym)


class Num:
    """opaque number of Python type `kind` ('int' | 'float')"""

    __slots__ = ("name", "kind")

    def __init__(self, name, kind="float"):
        self.name = name
        self.kind = kind

    def __repr__(self):
        return f"<{self.kind} {self.name}>"


class BoolV:
    """opaque bool"""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<bool {self.name}>"


class LenV:
    """length of an opaque string term (as a position: what follows it, if known)"""

    __slots__ = ("s", "rest")

    def __init__(self, s, rest=None):
        self.s = s
        self.rest = rest


class BytesV:
    __slots__ = ("s", "enc")

    def __init__(self, s, enc):
        self.s = s
        self.enc = enc


def lin_interval(sym):
    return P().interval.setdefault(sym, [0, None])


def lin_cmp(v: Lin, op: str, c):
    """decide sym + k <op> c by interval refinement"""
    lo, hi = lin_interval(v.sym)
    t = c - v.k  # sym <op> t
    if op in ("==", "!="):
        if t != int(t) or t < lo or (hi is not None and t > hi):
            r = False
        elif lo == hi == t:
            r = True
        else:
            r = P().decide(("lineq", v.sym, t))
            if r:
                P().interval[v.sym] = [t, t]
            elif t == lo:
                P().interval[v.sym] = [lo + 1, hi]
            elif t == hi:
                P().interval[v.sym] = [lo, hi - 1]
        return r if op == "==" else not r
    if op == ">":
        return not lin_cmp(v, "<=", c)
    if op == ">=":
        return not lin_cmp(v, "<", c)
    import math

    # sym < t  or sym <= t  ->  sym <= b
    b = math.ceil(t) - 1 if op == "<" else math.floor(t)
    if hi is not None and hi <= b:
        return True
    if lo > b:
        return False
    r = P().decide(("linle", v.sym, b))
    P().interval[v.sym] = [lo, b] if r else [b + 1, hi]
    return r


def lin_const(v: Lin):
    lo, hi = lin_interval(v.sym)
    return lo + v.k if hi is not None and lo == hi else None


# ------------------------------------------------------------------ strings
class Str:
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "Str(" + show(self) + ")"


def lit(text, loc=None):
    return ("L", text, loc if loc is not None else CUR_LOC[0])


def sym(name, **kw) -> Str:
    return Str([("A", (Atom(name, **kw), None), None)])


def op(name, *args) -> Str:
    return Str([("O", (name, tuple(args)), CUR_LOC[0])])


def rep(unit, symname) -> Str:
    return Str([("R", (unit, symname), CUR_LOC[0])])


def is_s(v):
    return isinstance(v, (str, Str))


def parts_of(v):
    if isinstance(v, str):
        return (lit(v),) if v else ()
    return v.parts


def _resolve_parts(parts):
    """apply substitutions of atoms known equal to other terms; constant reps"""
    sub = P().sub
    out = []
    for p in parts:
        k = p[0]
        if k == "A":
            atom, hom = p[1]
            if atom.name in sub:
                rep_ = _resolve_parts(sub[atom.name])
                for q in rep_:
                    if hom:
                        q = _hom_part(q, hom)
                    if q[0] == "L":
                        q = ("L", q[1], p[2])
                    out.extend(_factor(q) if q[0] == "A" else (q,))
                continue
            if hom and atom.single and atom.only is not None:
                out.extend(_factor(p))
                continue
        elif k == "R":
            unit, s = p[1]
            lo, hi = lin_interval(s)
            if hi is not None and lo == hi:
                out.append(("L", unit * lo, p[2]))
                continue
        elif k == "O" and sub and p[1][0] in REFOLD:
            # facts learnt since the operation was applied may split or fix its operand
            args = p[1][1]
            i = 1 if p[1][0] == "hom" else 0
            inner = _resolve_parts(parts_of(args[i]))
            if inner != list(parts_of(args[i])):
                r = REFOLD[p[1][0]](*args[:i], Str(inner), *args[i + 1:])
                out.extend(parts_of(r))
                continue
        out.append(p)
    return out


def _factor(p):
    """one character under a map whose images share a beginning: literal and the rest"""
    atom, hom = p[1]
    if not hom or not atom.single or atom.only is None:
        return (p,)
    dom = [c for c in atom.only if atom_can(atom, c)]
    m = dict(hom)
    imgs = [m.get(c, c) for c in dom]
    if not imgs:
        return (p,)
    if len(set(imgs)) == 1:
        return (("L", imgs[0], p[2]),) if imgs[0] else ()
    a, b = min(imgs), max(imgs)
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    if not n:
        return (p,)
    h = tuple(sorted((c, i[n:]) for c, i in zip(dom, imgs) if i[n:] != c))
    return (("L", a[:n], p[2]), ("A", (atom, h or None), p[2]))


REFOLD = {}


def _hom_part(q, hom):
    if q[0] == "L":
        m = dict(hom)
        return ("L", "".join(m.get(c, c) for c in q[1]), q[2])
    if q[0] == "A":
        atom, h0 = q[1]
        return ("A", (atom, compose_hom(h0, hom)), q[2])
    if q[0] == "R":
        unit, s = q[1]
        m = dict(hom)
        return ("R", ("".join(m.get(c, c) for c in unit), s), q[2])
    only = op_only(q)
    if only is not None:
        hom = tuple((c, i) for c, i in hom if c in only and c != i)
        if not hom:
            return q
    return ("O", ("hom", (hom, Str([q]))), q[2])


def compose_hom(h0, h1):
    """first h0 then h1"""
    m1 = dict(h1)
    m = {}
    if h0:
        for c, img in h0:
            m[c] = "".join(m1.get(x, x) for x in img)
    for c, img in h1:
        if c not in m:
            m[c] = img
    return tuple(sorted(m.items()))


def atom_excl(atom):
    return atom.excl | P().excl.get(atom.name, frozenset())


def atom_can(atom, ch):
    if atom.only is not None and ch not in atom.only:
        return False
    return ch not in atom_excl(atom)


def eff_hom(atom, hom):
    """hom restricted to characters the atom may contain, identity dropped"""
    if not hom:
        return None
    h = tuple((c, i) for c, i in hom if i != c and atom_can(atom, c))
    return h or None


def norm(v):
    """canonical hashable tuple of a string value (substitutions applied)"""
    if isinstance(v, str):
        return (("L", v),) if v else ()
    out = []
    for p in _resolve_parts(v.parts):
        k, d = p[0], p[1]
        if k == "L":
            if not d:
                continue
            if out and out[-1][0] == "L":
                out[-1] = ("L", out[-1][1] + d)
            else:
                out.append(("L", d))
        elif k == "A":
            out.append(("A", d[0].name, eff_hom(*d)))
        elif k == "R":
            unit, s = d
            if not unit:
                continue
            moved = 0
            if out and out[-1][0] == "L":
                t = out[-1][1]
                while t.endswith(unit):
                    t = t[: -len(unit)]
                    moved += 1
                if t:
                    out[-1] = ("L", t)
                else:
                    out.pop()
            out.append(("R", unit, s))
            if moved:
                out.append(("L", unit * moved))
        else:
            out.append(("O", d[0], tuple(freeze(a) for a in d[1])))
    return tuple(out)


def freeze(v):
    if isinstance(v, (str, Str)):
        return ("S", norm(v))
    if isinstance(v, (bool, int, float, bytes)) or v is None:
        return (type(v).__name__, v)
    if isinstance(v, Lin):
        c = lin_const(v)
        return ("int", c) if c is not None else ("lin", v.sym, v.k)
    if isinstance(v, Num):
        return ("num", v.name)
    if isinstance(v, BoolV):
        if ("b", v.name) in P().generic:
            return ("bool", bool(P().generic[("b", v.name)]))
        return ("boolv", v.name)
    if isinstance(v, tuple):
        return ("tuple",) + tuple(freeze(x) for x in v)
    if isinstance(v, BytesV):
        return ("bytes", norm(v.s), v.enc)
    if isinstance(v, LenV):
        return ("len", norm(v.s))
    f = getattr(v, "freeze", None)
    if f is not None:
        return f()
    return ("id", id(v))


def const(v):
    """Python str if the term is fully literal, else None"""
    if isinstance(v, str):
        return v
    if len(v.parts) == 1 and v.parts[0][0] == "L":
        return v.parts[0][1]
    ps = _resolve_parts(v.parts)
    if all(p[0] == "L" for p in ps):
        return "".join(p[1] for p in ps)
    return None


def same(a, b):
    return norm(a) == norm(b)


def show(v, limit=400):
    out = []
    for p in norm(v):
        if p[0] == "L":
            out.append(repr(p[1])[1:-1])
        elif p[0] == "A":
            out.append("«%s»" % p[1] if not p[2] else "«%s|%s»" % (p[1], ",".join(f"{c!r}→{i}" for c, i in p[2])))
        elif p[0] == "R":
            out.append("«%r*%s»" % (p[1], p[2]))
        else:
            out.append("«%s(%s)»" % (p[1], ", ".join(_show_frozen(a) for a in p[2])))
    s = "".join(out)
    return s if len(s) <= limit else s[:limit] + "…"


def _show_frozen(a):
    if isinstance(a, tuple) and a and a[0] == "S":
        return "".join(repr(p[1])[1:-1] if p[0] == "L" else f"«{p[1]}»" for p in a[1]) or "''"
    if isinstance(a, tuple) and len(a) == 2:
        return str(a[1])
    return str(a)[:60]


def concat(*vs):
    if all(isinstance(v, str) for v in vs):
        if len(vs) == 1:
            return vs[0]
        # keep locations of individual literals
        return Str([p for v in vs for p in parts_of(v)])
    return Str([p for v in vs for p in parts_of(v)])


# ---- char-set predicates
def part_sources(part, ch):
    """for an A part: set of atom chars whose image contains ch"""
    atom, hom = part[1]
    m = dict(hom) if hom else {}
    src = {c for c, i in m.items() if ch in i and atom_can(atom, c)}
    if ch not in m and atom_can(atom, ch):
        src.add(ch)
    return src


QUOTE_ID = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~")  # urllib.parse.quote leaves these alone


def op_only(part):
    name = part[1][0]
    if name == "str":
        return frozenset("0123456789+-.einfaTrueFls")
    if name == "quote":
        return QUOTE_ID | frozenset("%" + (part[1][1][1] if len(part[1][1]) > 1 else "/"))
    if name in ("sha1", "hexdigest"):
        return frozenset("0123456789abcdef")
    if name == "ver":
        return frozenset("0123456789.abcdefghijklmnopqrstuvwxyz+!")
    return None


def _check_hasany():
    for name, chars, atom in P().hasany:
        if not any(atom_can(atom, c) for c in chars):
            raise Infeasible()


def atom_contains_any(atom, chars):
    chars = frozenset(c for c in chars if atom_can(atom, c))
    if not chars:
        return False
    if P().has.get(atom.name, frozenset()) & chars:
        return True
    for name, cs, _ in P().hasany:
        if name == atom.name and cs <= chars:
            return True
    key = ("any", atom.name, tuple(sorted(chars)))
    known = key in P().generic
    r = P().decide(key)
    if not known:
        if r:
            P().nonempty.add(atom.name)
            if len(chars) == 1:
                P().has[atom.name] = P().has.get(atom.name, frozenset()) | chars
            else:
                P().hasany.append((atom.name, chars, atom))
        else:
            P().excl[atom.name] = P().excl.get(atom.name, frozenset()) | chars
            _check_hasany()
            if P().has.get(atom.name, frozenset()) & chars:
                raise Infeasible()
    return r


def contains_any(v, chars):
    """does the string contain one of the characters? (may fork)"""
    chars = frozenset(chars)
    ps = _resolve_parts(parts_of(v))
    for p in ps:
        if p[0] == "L" and any(c in chars for c in p[1]):
            return True
    for p in ps:
        if p[0] == "A":
            src = set()
            for ch in chars:
                src |= part_sources(p, ch)
            if src and atom_contains_any(p[1][0], src):
                return True
        elif p[0] == "R":
            unit, s = p[1]
            if any(c in chars for c in unit) and lin_cmp(Lin(s), ">", 0):
                return True
        elif p[0] == "O":
            only = op_only(p)
            if only is not None and not (only & chars):
                continue
            if P().decide(("oany", norm(Str([p])), tuple(sorted(chars)))):
                return True
    return False


def part_may(part, ch):
    if part[0] == "L":
        return ch in part[1]
    if part[0] == "A":
        return bool(part_sources(part, ch))
    if part[0] == "R":
        return ch in part[1][0]
    only = op_only(part)
    return only is None or ch in only


ABSPATH_OPS = frozenset(("realpath", "abspath", "pkgdir", "tmpdir", "gettempdir", "cwd"))
NONEMPTY_OPS = frozenset(("str", "sha1", "hexdigest", "json", "ver")) | ABSPATH_OPS


def part_nonempty(p):
    """known non-empty"""
    if p[0] == "L":
        return bool(p[1])
    if p[0] == "A":
        a, hom = p[1]
        if a.nonempty or a.name in P().nonempty:
            return not hom or all(i for _, i in hom)
        return False
    if p[0] == "R":
        return bool(p[1][0]) and lin_interval(p[1][1])[0] > 0
    if p[0] == "O":
        if p[1][0] in NONEMPTY_OPS:
            return True
        if p[1][0] == "quote":
            return any(part_nonempty(q) for q in _resolve_parts(parts_of(p[1][1][0])))
        return ("ne", norm(Str([p]))) in P().generic and bool(P().generic[("ne", norm(Str([p])))])
    return False


def split_if_empty(p):
    """force a decision on emptiness of a part; True = empty"""
    if part_nonempty(p):
        return False
    if p[0] == "A":
        a, hom = p[1]
        e = P().decide(("empty", a.name))
        if e:
            if P().has.get(a.name) or any(n == a.name for n, _, _ in P().hasany):
                raise Infeasible()
            P().sub[a.name] = ()
            _check_neq()
        else:
            P().nonempty.add(a.name)
        return e
    if p[0] == "R":
        return not p[1][0] or not lin_cmp(Lin(p[1][1]), ">", 0)
    if p[0] == "O" and p[1][0] == "quote":
        return not nonempty(p[1][1][0])
    if p[0] == "O":
        return not P().decide(("ne", norm(Str([p]))))
    return not p[1]


def nonempty(v):
    if isinstance(v, str):
        return bool(v)
    ps = _resolve_parts(v.parts)
    if any(part_nonempty(p) for p in ps):
        return True
    return any(not split_if_empty(p) for p in ps)


def strip_empty(v):
    """drop atoms known to be empty, resolve"""
    return Str(_resolve_parts(parts_of(v)))


def contains(v, subs):
    """`subs in v` for a constant or term subs"""
    cs = const(subs)
    cv = const(v)
    if cs is not None and cv is not None:
        return cs in cv
    if cs is not None:
        if cs == "":
            return True
        if len(cs) == 1:
            return contains_any(v, {cs})
        ps = _resolve_parts(parts_of(v))
        # literal runs
        run = ""
        for p in ps:
            if p[0] == "L":
                run += p[1]
                if cs in run:
                    return True
            else:
                run = ""
        touch = [p for p in ps if p[0] != "L" and any(part_may(p, c) for c in cs)]
        if not touch:
            # may empty units glue literals together?
            glue = "".join(p[1] if p[0] == "L" else ("" if not part_nonempty(p) else "\0") for p in ps)
            if cs not in glue:
                return False
        if len(touch) == 1 and touch[0][0] == "A" and len(ps) == 1:
            atom, hom = touch[0][1]
            h = eff_hom(atom, hom)
            # occurrences need every char of cs to be producible
            if any(not part_may(touch[0], c) for c in set(cs)):
                return False
            if not h:
                r = P().decide(("insub", atom.name, cs))
                if r:
                    for c in set(cs):
                        if not atom_contains_any(atom, {c}):
                            raise Infeasible()
                return r
        if all(any(not part_may(p, c) for c in set(cs)) for p in touch) and len(ps) == 1:
            return False
        return P().decide(("in", cs, norm(v)))
    if norm(subs) == norm(v):
        return True
    if not norm(subs):
        return True
    # term in term: look for contiguous occurrence of parts
    nv, ns = norm(v), norm(subs)
    n = len(ns)
    for i in range(len(nv) - n + 1):
        if nv[i : i + n] == ns:
            return True
    return P().decide(("int", ns, nv))


def first_char_impossible(p, ch):
    return not part_may(p, ch)


def startswith(v, pre):
    return _edge(v, pre, True)


def endswith(v, suf):
    return _edge(v, suf, False)


def _edge(v, affix, front):
    if isinstance(affix, tuple):
        return any([_edge(v, a, front) for a in affix])
    ca = const(affix)
    cv = const(v)
    if ca is not None and cv is not None:
        return cv.startswith(ca) if front else cv.endswith(ca)
    if ca is None:
        na, nv = norm(affix), norm(v)
        if na == nv or not na:
            return True
        if front and nv[: len(na)] == na:
            return True
        if not front and nv[len(nv) - len(na) :] == na:
            return True
        return P().decide(("edge", front, na, nv))
    rest = ca
    ps = list(_resolve_parts(parts_of(v)))
    while rest:
        if not ps:
            return False
        p = ps[0] if front else ps[-1]
        if p[0] == "L":
            t = p[1]
            n = min(len(t), len(rest))
            if front:
                if t[:n] != rest[:n]:
                    return False
                rest = rest[n:]
                ps[0] = ("L", t[n:], p[2])
                if n == len(t):
                    ps.pop(0)
            else:
                if n == 0:
                    ps.pop()
                    continue
                if t[-n:] != rest[len(rest) - n :]:
                    return False
                rest = rest[: len(rest) - n]
                ps[-1] = ("L", t[: len(t) - n], p[2])
                if n == len(t):
                    ps.pop()
            continue
        ch = rest[0] if front else rest[-1]
        if p[0] == "O" and p[1][0] in ABSPATH_OPS:
            # absolute, normalised path: '/…' without trailing slash
            if front and rest == "/":
                return True
            if (front and ch != "/") or (not front and ch == "/"):
                return False
        if not part_may(p, ch):
            if split_if_empty(p):
                ps.pop(0 if front else -1)
                continue
            return False
        if p[0] == "O" and p[1][0] == "quote" and len(rest) == 1 and (ch in QUOTE_ID or ch in p[1][1][1]):
            if split_if_empty(p):
                ps.pop(0 if front else -1)
                continue
            return _edge(p[1][1][0], ch, front)
        if p[0] == "A" and not p[1][1] and p[1][0].single:
            if len(rest) == 1:
                r = P().decide(("eqc", p[1][0].name, ch))
                if r:
                    P().sub[p[1][0].name] = (("L", ch, None),)
                    _check_neq()
                else:
                    P().excl[p[1][0].name] = P().excl.get(p[1][0].name, frozenset()) | {ch}
                return r
        if p[0] == "A" and not p[1][1]:
            atom = p[1][0]
            if len(ps) > 1 and split_if_empty(p):
                ps.pop(0 if front else -1)
                continue
            # decide one whole affix; materialise on True
            r = P().decide(("edge", front, rest, atom.name))
            if r:
                for c in rest:
                    if not atom_can(atom, c):
                        raise Infeasible()
                na = Atom(atom.name + ("~" if front else "'"), excl=atom_excl(atom), only=atom.only)
                new = ("A", (na, None), None)
                l = ("L", rest, None)
                P().sub[atom.name] = (l, new) if front else (new, l)
                P().nonempty.add(atom.name)
                _inherit_edges(atom.name, na.name, rest, front)
            return r
        if p[0] == "R":
            unit, s = p[1]
            if not lin_cmp(Lin(s), ">", 0):
                ps.pop(0 if front else -1)
                continue
        return P().decide(("edgeo", front, rest, norm(Str(ps))))
    return True


def _inherit_edges(old, new, lit, front):
    """negative affix facts of an atom carry over to its refinement (lit+new / new+lit)"""
    gen = P().generic
    for key, val in list(gen.items()):
        if val or len(key) != 4 or key[0] != "edge" or key[3] != old or not isinstance(key[2], str):
            continue
        f2, r2 = key[1], key[2]
        if f2 == front:
            hit = lit.startswith(r2) if front else lit.endswith(r2)
            if hit:
                raise Infeasible()
            if front and r2.startswith(lit):
                gen[("edge", True, r2[len(lit):], new)] = 0
            elif not front and r2.endswith(lit):
                gen[("edge", False, r2[: len(r2) - len(lit)], new)] = 0
        else:
            gen[("edge", f2, r2, new)] = 0
            if lit.startswith(r2) if f2 else lit.endswith(r2):
                P().nonempty.add(new)


DIFFER = []  # predicates (a, b) -> the two texts provably differ (may decide facts)


def eq(a, b):
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        return ca == cb
    na, nb = norm(a), norm(b)
    if na == nb:
        return True
    for x, y in P().eqs:
        nx, ny = norm(x), norm(y)
        if nx == na and ny == nb or nx == nb and ny == na:
            return True
    # cheap disproofs
    if any(f(a, b) for f in DIFFER):
        return False
    if P().sub and DIFFER:
        na, nb = norm(a), norm(b)
        if na == nb:
            return True
    if ca is not None:
        a, b, ca, cb, na, nb = b, a, cb, ca, nb, na
    if cb is not None:
        ps = _resolve_parts(parts_of(a))
        for p in ps:
            if p[0] == "L" and p[1] not in cb:
                return False
        if cb == "":
            return not nonempty(a)
        if ps and ps[0][0] == "L" and not cb.startswith(ps[0][1]):
            return False
        if ps and ps[-1][0] == "L" and not cb.endswith(ps[-1][1]):
            return False
        if len(ps) == 1 and ps[0][0] == "A" and not eff_hom(*ps[0][1]):
            atom = ps[0][1][0]
            if any(not atom_can(atom, c) for c in cb) or (atom.single and len(cb) != 1):
                return False
            if not (P().has.get(atom.name, frozenset()) <= set(cb)):
                return False
            for n, cs, _ in P().hasany:
                if n == atom.name and not (cs & set(cb)):
                    return False
            if ("eqc", atom.name, cb) in P().generic:
                return bool(P().generic[("eqc", atom.name, cb)])
            r = P().decide(("eqc", atom.name, cb))
            if r:
                P().sub[atom.name] = (("L", cb, None),)
                _check_neq()
            elif atom.single:
                P().excl[atom.name] = P().excl.get(atom.name, frozenset()) | {cb}
            return r
        if len(ps) == 1:
            p = ps[0]
            if p[0] == "A" and any(not part_may(p, c) for c in cb):
                return False
            if p[0] == "O":
                only = op_only(p)
                if only is not None and any(c not in only for c in cb):
                    return False
        # structural: strip common literal edges then recurse on single unit
        if len(ps) > 1 and (ps[0][0] == "L" or ps[-1][0] == "L"):
            rest = cb
            if ps[0][0] == "L":
                rest = rest[len(ps[0][1]) :]
                ps = ps[1:]
            if ps and ps[-1][0] == "L":
                if not rest.endswith(ps[-1][1]):
                    return False
                rest = rest[: len(rest) - len(ps[-1][1])]
                ps = ps[:-1]
            return eq(Str(ps), rest)
        if any(not any(part_may(p, c) for p in ps) for c in cb):
            return False
        minlen = sum(len(p[1]) if p[0] == "L" else (1 if part_nonempty(p) else 0) for p in ps)
        if minlen > len(cb):
            return False
        return _decide_eq(("eq", na, cb), a, cb)
    # both symbolic: cancel common prefix/suffix
    la, lb = list(na), list(nb)
    while la and lb and la[0] == lb[0]:
        la.pop(0)
        lb.pop(0)
    while la and lb and la[-1] == lb[-1]:
        la.pop()
        lb.pop()
    if la and lb and la[0][0] == "L" and lb[0][0] == "L":
        x, y = la[0][1], lb[0][1]
        if not (x.startswith(y) or y.startswith(x)):
            return False
    if la and lb and la[-1][0] == "L" and lb[-1][0] == "L":
        x, y = la[-1][1], lb[-1][1]
        if not (x.endswith(y) or y.endswith(x)):
            return False
    if not la or not lb:
        rest = la or lb
        if any(t[0] == "L" for t in rest):
            return False
    if len(la) == len(lb) == 1 and la[0][0] == lb[0][0] == "O" and la[0][1] == lb[0][1] == "hexdigest":
        # a collision-free digest: equal exactly for equal data
        da, db = _digest_arg(a, la[0]), _digest_arg(b, lb[0])
        if da is not None and db is not None and da[0] == db[0] and da[2] == db[2]:
            return eq(da[1], db[1])
    key = ("eq2",) + tuple(sorted([repr(tuple(la)), repr(tuple(lb))]))
    known = key in P().generic
    r = _decide_eq(key, a, b)
    if r and not known and len(la) == len(lb) == 1 and la[0][0] == lb[0][0] == "A" and not la[0][2] and not lb[0][2]:
        find = lambda v, n: next((p[1][0] for p in _resolve_parts(parts_of(v)) if p[0] == "A" and p[1][0].name == n), None)
        x, y = find(a, la[0][1]), find(b, lb[0][1])
        if x is not None and y is not None:
            _unify(x, y)
            _check_neq()
    return r


def _digest_arg(v, part):
    """(algorithm, digested text, encoding) of the digest `part` of v"""
    for p in _resolve_parts(parts_of(v)):
        if p[0] == "O" and p[1][0] == "hexdigest" and norm(Str([p])) == (part,):
            alg, b = p[1][1]
            if hasattr(b, "enc"):
                return const(alg) if is_s(alg) else alg, b.s, b.enc
    return None


def _decide_eq(key, a, b):
    known = key in P().generic
    if not known and P().neq:
        na, nb = norm(a), norm(b)
        for x, y in P().neq:
            nx, ny = norm(x), norm(y)
            if nx == na and ny == nb or nx == nb and ny == na:
                return False
    r = P().decide(key)
    if not known:
        (P().eqs if r else P().neq).append((a, b))
        if r:
            _check_neq()
    return r


def _check_neq():
    """a new equality must not identify texts decided to be different"""
    for a, b in P().neq:
        if norm(a) == norm(b):
            raise Infeasible()


def _unify(x, y):
    """two atoms decided equal: one stands for both from here on"""
    if y.only is not None and x.only is None or y.single and not x.single:
        x, y = y, x
    if y.only is not None and y.only != x.only or y.single and not x.single:
        return
    p = P()
    p.excl[x.name] = p.excl.get(x.name, frozenset()) | atom_excl(y)
    if y.name in p.has:
        p.has[x.name] = p.has.get(x.name, frozenset()) | p.has[y.name]
    if p.has.get(x.name, frozenset()) & atom_excl(x):
        raise Infeasible()
    p.hasany += [(x.name, *h[1:]) for h in p.hasany if h[0] == y.name]
    if y.nonempty or y.name in p.nonempty:
        p.nonempty.add(x.name)
    for k, v in list(p.generic.items()):
        if k and k[0] == "edge" and k[3] == y.name:
            k2 = k[:3] + (x.name,)
        elif k and k[0] == "eqc" and k[1] == y.name:
            k2 = ("eqc", x.name, k[2])
        elif k and k[0] == "empty" and k[1] == y.name:
            k2 = ("empty", x.name)
        else:
            continue
        if p.generic.setdefault(k2, v) != v:
            raise Infeasible()
    p.sub[y.name] = (("A", (x, None), None),)


def chars(v):
    """list of one-character string values, or None"""
    out = []
    for p in _resolve_parts(parts_of(v)):
        if p[0] == "L":
            out.extend(p[1])
        elif p[0] == "A" and p[1][0].single and not eff_hom(*p[1]):
            out.append(Str([p]))
        else:
            return None
    return out


def need_chars(v):
    for p in _resolve_parts(parts_of(v)):
        if p[0] == "A" and not p[1][0].single:
            return NeedChars(p[1][0].name)
    return Unsupported("per-character access to opaque string")


def length(v):
    c = const(v)
    if c is not None:
        return len(c)
    cs = chars(v)
    if cs is not None:
        return len(cs)
    return LenV(v)


def index_char(v, i):
    c = const(v)
    if c is not None:
        return c[i]
    cs = chars(v)
    if cs is not None:
        return cs[i]
    ps = _resolve_parts(v.parts)
    seq = ps if i >= 0 else ps[::-1]
    n = i if i >= 0 else -i - 1
    for p in seq:
        if p[0] == "L":
            if n < len(p[1]):
                return p[1][n] if i >= 0 else p[1][-1 - n]
            n -= len(p[1])
            continue
        if split_if_empty(p):
            continue
        if p[0] == "A" and p[1][0].single and not p[1][1]:
            if n == 0:
                return Str([p])
            n -= 1
            continue
        if n == 0:
            q = split_edge(p, i >= 0)
            if q is not None:
                return Str([q[0]])
        return op("char", v, i)
    raise IndexError("string index out of range")


def slice_str(v, lo, hi, step):
    c = const(v)
    if c is not None:
        return c[slice(lo, hi, step)]
    cs = chars(v)
    if cs is not None:
        return concat(*cs[slice(lo, hi, step)]) if cs[slice(lo, hi, step)] else ""
    if isinstance(hi, int) and hi >= 1 << 62:
        hi = None
    if step not in (None, 1):
        return op("slice", v, lo, hi, step)
    if not lo and hi is None:
        return v
    lo0, hi0 = lo, hi
    ps = list(_resolve_parts(v.parts))
    if max(abs(lo or 0), abs(hi or 0)) > 12:
        # far beyond the characters told apart one by one: constant beginnings are cut, the rest stays a slice
        if (lo or 0) >= 0 and hi is not None and hi >= 0:
            n = 0
            for i, p in enumerate(ps):
                if p[0] == "L":
                    n += len(p[1])
                elif p[0] == "A" and p[1][0].single:
                    n += 1
                else:
                    break
                if n >= hi:
                    break
            if n < hi and i < len(ps) - 1 or n < hi and ps[-1][0] != "L":
                return op("slice", v, lo0, hi0)
        else:
            return op("slice", v, lo0, hi0)
    lo = lo or 0
    if lo < 0 or (hi is not None and hi >= 0):
        # suffix slice x[-n:]
        if lo < 0 and hi is None:
            n = -lo
            got = []
            while n and ps:
                p = ps.pop()
                if p[0] == "L":
                    t = p[1][-n:]
                    got.insert(0, ("L", t, p[2]))
                    n -= len(t)
                elif split_if_empty(p):
                    continue
                elif p[0] == "A" and p[1][0].single:
                    got.insert(0, p)
                    n -= 1
                else:
                    q = split_edge(p, False)
                    if q is None:
                        return op("slice", v, lo0, hi0)
                    got.insert(0, q[0])
                    ps.append(q[1])
                    n -= 1
            return Str(got)
        if lo >= 0 and hi is not None and hi >= 0:
            got = []
            skip, n = lo, hi - lo
            if n <= 0:
                return ""
            while n and ps:
                p = ps.pop(0)
                if p[0] == "L":
                    t = p[1]
                    d = min(skip, len(t))
                    t = t[d:]
                    skip -= d
                    t = t[:n]
                    got.append(("L", t, p[2]))
                    n -= len(t)
                elif split_if_empty(p):
                    continue
                else:
                    one = p if p[0] == "A" and p[1][0].single else None
                    if one is None:
                        q = split_edge(p, True)
                        if q is None:
                            return op("slice", v, lo0, hi0)
                        one = q[0]
                        ps.insert(0, q[1])
                    if skip:
                        skip -= 1
                    else:
                        got.append(one)
                        n -= 1
            return Str(got)
        return op("slice", v, lo0, hi0)
    n = lo
    while n and ps:
        p = ps[0]
        if p[0] == "L":
            if len(p[1]) > n:
                ps[0] = ("L", p[1][n:], p[2])
                n = 0
            else:
                n -= len(p[1])
                ps.pop(0)
        elif split_if_empty(p):
            ps.pop(0)
        elif p[0] == "A" and p[1][0].single:
            ps.pop(0)
            n -= 1
        else:
            q = split_edge(p, True)
            if q is None:
                return op("slice", v, lo0, hi0)
            ps[0] = q[1]
            n -= 1
    n = -hi if hi is not None else 0
    while n and ps:
        p = ps[-1]
        if p[0] == "L":
            if len(p[1]) > n:
                ps[-1] = ("L", p[1][:-n], p[2])
                n = 0
            else:
                n -= len(p[1])
                ps.pop()
        elif split_if_empty(p):
            ps.pop()
        elif p[0] == "A" and p[1][0].single:
            ps.pop()
            n -= 1
        else:
            q = split_edge(p, False)
            if q is None:
                return op("slice", v, lo0, hi0)
            ps[-1] = q[1]
            n -= 1
    return Str(ps)


def split_edge(p, front):
    """a non-empty opaque part as its first (last) character and the rest: (char, rest) parts"""
    if p[0] != "A" or eff_hom(*p[1]) or p[1][0].single:
        return None
    atom = p[1][0]
    pa = P()
    if pa.has.get(atom.name) or any(h[0] == atom.name for h in pa.hasany) or any(k and k[0] == "insub" and k[1] == atom.name for k in pa.generic if isinstance(k, tuple)):
        return None
    ex = set(atom_excl(atom))
    rex = frozenset(ex)
    for k, v in pa.generic.items():
        if isinstance(k, tuple) and len(k) == 4 and k[0] == "edge" and k[3] == atom.name and not v and k[1] == front and isinstance(k[2], str) and len(k[2]) == 1:
            ex.add(k[2])
    one = Atom(atom.name + ("^" if front else "$"), excl=ex, only=atom.only, single=True)
    rest = Atom(atom.name + ("~" if front else "'"), excl=rex, only=atom.only)
    a, b = ("A", (one, None), p[2]), ("A", (rest, None), p[2])
    pa.nonempty.add(atom.name)
    pa.sub[atom.name] = (("A", (one, None), None), ("A", (rest, None), None)) if front else (("A", (rest, None), None), ("A", (one, None), None))
    for k, v in list(pa.generic.items()):
        if isinstance(k, tuple) and len(k) == 4 and k[0] == "edge" and k[3] == atom.name and not v and k[1] != front and isinstance(k[2], str):
            pa.generic.setdefault(("edge", k[1], k[2], rest.name), 0)
    _check_neq()
    return a, b


def apply_hom(v, mapping):
    """replace every character c by mapping[c] (one pass)"""
    hom = tuple(sorted(mapping.items()))
    ps = [_hom_part(p, hom) for p in _resolve_parts(parts_of(v))]
    # an emission by an escape table is attributed to the current location
    return Str([(k, d, l or CUR_LOC[0]) for k, d, l in ps])


def replace(v, old, new, count=-1):
    co, cn, cv = const(old), const(new), const(v)
    if co is not None and cv is not None and (cn is not None):
        return cv.replace(co, cn, count)
    if co is None:
        if not norm(old):
            return op("replace", v, old, new, count)
        # term pattern: replace contiguous occurrences of its parts
        nv = _split_term(v, old)
        if nv is None:
            if not contains(v, old):
                return v
            return op("replace", v, old, new, count)
        return _join_replaced(nv, new, count, old)
    if co == "":
        return op("replace", v, old, new, count)
    ps = _resolve_parts(parts_of(v))
    if len(co) == 1 and count < 0 and cn is not None:
        out = []
        for p in ps:
            if p[0] == "O":
                only = op_only(p)
                if only is not None and co not in only:
                    out.append(p)
                else:
                    out.append(("O", ("replace", (Str([p]), co, cn, -1)), CUR_LOC[0]))
            else:
                out.append(_hom_part(p, ((co, cn),)))
        return Str(out)
    # parts that could take part in an occurrence
    touch = []
    for p in ps:
        if p[0] != "L" and any(part_may(p, c) for c in co):
            touch.append(p)
    if touch and all(part_lacks(p, co) for p in touch) and not _can_straddle(ps, co):
        touch = []
    if touch:
        # every character of the pattern must be available for units to matter;
        # single-unit term without one of the characters: no occurrence
        if len(ps) == 1 and any(not part_may(ps[0], c) for c in co):
            return v
        if len(ps) == 1 and ps[0][0] == "A" and not eff_hom(*ps[0][1]):
            if not contains(v, co):
                return v
        elif count < 0:
            # distribute over parts when an occurrence cannot straddle parts
            if not _can_straddle(ps, co):
                out = []
                for p in ps:
                    if p[0] == "L":
                        out.extend(parts_of(replace(p[1], co, new)))
                    elif p in touch:
                        if any(not part_may(p, c) for c in co):
                            out.append(p)
                        else:
                            out.append(("O", ("replace", (Str([p]), co, new, -1)), CUR_LOC[0]))
                    else:
                        out.append(p)
                return Str(out)
        if count >= 0:
            # the first `count` occurrences lie in the literal text before the first such part
            k = next(i for i, p in enumerate(ps) if p in touch)
            lead = "".join(p[1] for p in ps[:k]) if all(p[0] == "L" for p in ps[:k]) else ""
            if lead.count(co) >= count:
                return concat(replace(Str(ps[:k]), old, new, count), Str(ps[k:]))
        return op("replace", v, old, new, count)
    # occurrences only inside literal runs
    out = []
    left = count
    run = None
    merged = []
    for p in ps:
        if p[0] == "L" and merged and merged[-1][0] == "L":
            merged[-1] = ("L", merged[-1][1] + p[1], merged[-1][2])
        else:
            merged.append(p)
    for p in merged:
        if p[0] != "L":
            out.append(p)
            continue
        segs = p[1].split(co) if left < 0 else p[1].split(co, left)
        if left >= 0:
            left -= len(segs) - 1
        for j, s in enumerate(segs):
            if j:
                out.extend(parts_of(new))
            if s:
                out.append(("L", s, p[2]))
    return Str(out)


def _can_straddle(ps, co):
    """could an occurrence of constant co straddle a part boundary?"""
    ps = merge_lits(ps)

    def rest_matches(i, rest):
        """text from the start of part i may begin with `rest`"""
        if i >= len(ps):
            return False
        p = ps[i]
        if p[0] == "L":
            if rest.startswith(p[1]) and len(rest) > len(p[1]):
                return rest_matches(i + 1, rest[len(p[1]):])
            return p[1].startswith(rest)
        for k in range(0 if not part_nonempty(p) else 1, len(rest) + 1):
            if k and not part_may(p, rest[k - 1]):
                return False
            if k == len(rest) or rest_matches(i + 1, rest[k:]):
                return True
        return False

    for i in range(len(ps) - 1):
        p = ps[i]
        for cut in range(1, len(co)):
            if p[0] == "L":
                ok = p[1].endswith(co[:cut])
            else:
                ok = all(part_may(p, c) for c in co[:cut])
            if ok and rest_matches(i + 1, co[cut:]):
                return True
    return False


def merge_lits(ps):
    out = []
    for p in ps:
        if p[0] == "L":
            if not p[1]:
                continue
            if out and out[-1][0] == "L":
                out[-1] = ("L", out[-1][1] + p[1], out[-1][2])
                continue
        out.append(p)
    return out


def _split_term(v, pat):
    """split parts of v at occurrences of the term pattern (whole parts)"""
    ps = [p for p in _resolve_parts(parts_of(v)) if p[0] != "L" or p[1]]
    # normalise literal runs
    m = []
    for p in ps:
        if p[0] == "L" and m and m[-1][0] == "L":
            m[-1] = ("L", m[-1][1] + p[1], m[-1][2])
        else:
            m.append(p)
    pn = norm(pat)
    key = lambda p: norm(Str([p]))[0]
    segs, cur, i, found = [], [], 0, False
    while i < len(m):
        # leading / trailing literals of the pattern may be inside literals of v
        j = 0
        ok = True
        pre = post = None
        if i + len(pn) > len(m):
            ok = False
        while ok and j < len(pn):
            mp = m[i + j]
            kp = key(mp)
            if kp == pn[j]:
                pass
            elif kp[0] == "L" and pn[j][0] == "L" and j == 0 and len(pn) > 1 and kp[1].endswith(pn[j][1]):
                pre = ("L", kp[1][: len(kp[1]) - len(pn[j][1])], mp[2])
            elif kp[0] == "L" and pn[j][0] == "L" and j == len(pn) - 1 and len(pn) > 1 and kp[1].startswith(pn[j][1]):
                post = ("L", kp[1][len(pn[j][1]) :], mp[2])
            else:
                ok = False
                break
            j += 1
        if ok:
            found = True
            if pre:
                cur.append(pre)
            segs.append(cur)
            cur = []
            if post is not None:
                m[i + len(pn) - 1] = post
                i = i + len(pn) - 1
            else:
                i += len(pn)
        else:
            cur.append(m[i])
            i += 1
    segs.append(cur)
    return segs if found else None


def _join_replaced(segs, new, count, old):
    out = list(segs[0])
    for i, s in enumerate(segs[1:]):
        if count >= 0 and i >= count:
            out.extend(parts_of(old))
        else:
            out.extend(parts_of(new))
        out.extend(s)
    return Str(out)


WS = frozenset(c for c in map(chr, range(0x3001)) if c.isspace())


def part_no_ws(p):
    return not any(part_may(p, c) for c in WS)


def split_ws(v, maxsplit=-1):
    c = const(v)
    if c is not None:
        return c.split(None, maxsplit)
    if maxsplit != -1:
        return None
    words, cur = [], []
    for p in _resolve_parts(v.parts):
        if p[0] == "L":
            t = p[1]
            buf = ""
            for ch in t:
                if ch.isspace():
                    if buf:
                        cur.append(("L", buf, p[2]))
                        buf = ""
                    if cur:
                        words.append(Str(cur))
                        cur = []
                else:
                    buf += ch
            if buf:
                cur.append(("L", buf, p[2]))
        else:
            if not part_no_ws(p):
                return None
            if split_if_empty(p):
                continue
            cur.append(p)
    if cur:
        words.append(Str(cur))
    return words


def split_sep(v, sep, maxsplit=-1):
    c, cs = const(v), const(sep)
    if c is not None and cs is not None:
        return c.split(cs, maxsplit)
    if cs is None:
        segs = _split_term(v, sep)
        if segs is None:
            return None
        out = [Str(s) for s in segs]
        if maxsplit >= 0 and len(out) - 1 > maxsplit:
            tail = [out[maxsplit]]
            for s in out[maxsplit + 1:]:
                tail += [sep, s]
            out = out[:maxsplit] + [concat(*tail)]
        return out
    out, cur, left = [], [], maxsplit
    ps = merge_lits(_resolve_parts(v.parts))
    glue = _can_straddle(ps, cs)
    for i, p in enumerate(ps):
        if p[0] == "L":
            segs = p[1].split(cs) if left < 0 else p[1].split(cs, left)
            if left >= 0:
                left -= len(segs) - 1
            for j, s in enumerate(segs):
                if j:
                    out.append(Str(cur))
                    cur = []
                if s:
                    cur.append(("L", s, p[2]))
            if left != 0 and glue and i + 1 < len(ps) and _can_straddle([("L", segs[-1], None), *ps[i + 1:]], cs):
                return None
        else:
            if left != 0 and not (part_lacks(p, cs) and not (glue and _can_straddle(ps[i:], cs))):
                return None
            cur.append(p)
    out.append(Str(cur))
    return out


def strip(v, chars_=None, left=True, right=True):
    c = const(v)
    cc = None if chars_ is None else const(chars_)
    if chars_ is not None and cc is None:
        return op("strip", v, chars_)
    if c is not None:
        if left and right:
            return c.strip(cc)
        return c.lstrip(cc) if left else c.rstrip(cc)
    ps = list(_resolve_parts(v.parts))

    def inset(ch):
        return ch.isspace() if cc is None else ch in cc

    def may(p):
        return any(part_may(p, ch) for ch in (WS if cc is None else cc))

    for side in (0, 1):
        if (side == 0 and not left) or (side == 1 and not right):
            continue
        while ps:
            p = ps[0 if side == 0 else -1]
            if p[0] == "L":
                t = p[1]
                while t and inset(t[0 if side == 0 else -1]):
                    t = t[1:] if side == 0 else t[:-1]
                if t:
                    ps[0 if side == 0 else -1] = ("L", t, p[2])
                    break
                ps.pop(0 if side == 0 else -1)
                continue
            if may(p):
                if p[0] == "R":
                    if all(inset(ch) for ch in p[1][0]):
                        ps.pop(0 if side == 0 else -1)
                        continue
                # is the edge known to be outside the set?
                return op("strip", v, "" if cc is None else cc, left, right)
            if split_if_empty(p):
                ps.pop(0 if side == 0 else -1)
                continue
            break
    return Str(ps)


def lower(v, how="lower"):
    c = const(v)
    if c is not None:
        return getattr(c, how)()
    out = []
    for p in _resolve_parts(v.parts):
        if p[0] == "L":
            out.append(("L", getattr(p[1], how)(), p[2]))
        elif p[0] == "A" and p[1][0].only is not None and all(getattr(x, how)() == x for x in p[1][0].only) and not p[1][1]:
            out.append(p)
        elif p[0] == "A" and p[1][0].only is not None and how in ("lower", "upper", "casefold", "swapcase") and all(
                len(getattr(x, how)()) == 1 for x in p[1][0].only if len(x) == 1):
            hom = tuple(sorted((x, getattr(x, how)()) for x in _hom_images(p) if getattr(x, how)() != x))
            out.append(_hom_part(p, hom) if hom else p)
        elif p[0] == "R" and getattr(p[1][0], how)() == p[1][0]:
            out.append(p)
        else:
            out.append(("O", (how, (Str([p]),)), CUR_LOC[0]))
    return Str(out)


def _hom_images(p):
    """characters an A part with a finite alphabet can produce"""
    atom, hom = p[1]
    m = dict(hom) if hom else {}
    out = set()
    for c in atom.only:
        if atom_can(atom, c):
            out |= set(m.get(c, c))
    return out


def part_lacks(p, cs):
    """the part alone cannot contain the constant cs"""
    if p[0] == "L":
        return cs not in p[1]
    if any(not part_may(p, c) for c in cs):
        return True
    if p[0] == "A" and not eff_hom(*p[1]):
        return P().generic.get(("insub", p[1][0].name, cs)) == 0
    return p[0] == "O" and any(f(p, cs) for f in NEVER)


NEVER = []  # predicates (part, text) -> True if the text provably cannot occur in the part


MAX_OCC = 2


def cut_prefix(v, pre):
    """what follows pre in v, when v is written as pre followed by something; else None"""
    a, b = list(merge_lits(_resolve_parts(parts_of(v)))), list(merge_lits(_resolve_parts(parts_of(pre))))
    while b:
        q = b.pop(0)
        if not a:
            return None
        p = a.pop(0)
        if q[0] == "L" and p[0] == "L":
            if not p[1].startswith(q[1]):
                return None
            if len(p[1]) > len(q[1]):
                a.insert(0, ("L", p[1][len(q[1]):], p[2]))
        elif norm(Str([p])) != norm(Str([q])):
            return None
    return Str(a)


def minlen(v):
    return sum(len(p[1]) if p[0] == "L" else (1 if part_nonempty(p) else 0) for p in _resolve_parts(parts_of(v)))


def split_materialise(v, sep, maxsplit=-1):
    """split at a constant separator, materialising up to MAX_OCC occurrences
    of it inside each opaque atom (k-limited; the rest is assumed free of it)"""
    cs = const(sep)
    if not cs:
        return None
    if _can_straddle(merge_lits(_resolve_parts(parts_of(v))), cs):
        return None
    out, cur, left = [], [], maxsplit
    todo = list(merge_lits(_resolve_parts(parts_of(v))))
    budget = {}
    while todo:
        p = todo.pop(0)
        if left == 0:
            cur.append(p)
            continue
        if p[0] == "L":
            i = p[1].find(cs)
            if i < 0:
                cur.append(p)
                continue
            cur.append(("L", p[1][:i], p[2]))
            out.append(Str(cur))
            cur = []
            left -= 1
            todo.insert(0, ("L", p[1][i + len(cs):], p[2]))
            continue
        if part_lacks(p, cs):
            cur.append(p)
            continue
        if p[0] != "A" or eff_hom(*p[1]):
            return None
        atom = p[1][0]
        if atom.single:
            if len(cs) > 1:
                cur.append(p)
                continue
            if eq(Str([p]), cs):
                out.append(Str(cur))
                cur = []
                left -= 1
            else:
                cur.append(p)
            continue
        if not contains(Str([p]), cs):
            cur.append(p)
            continue
        depth = atom.name.count("\u203a")
        ex = (cs,) if len(cs) == 1 else ()
        a = Atom(atom.name + "\u2039", excl=atom_excl(atom) | set(ex), only=atom.only)
        b = Atom(atom.name + "\u203a", excl=atom_excl(atom) | (set(ex) if depth + 1 >= MAX_OCC else set()), only=atom.only)
        if depth + 1 >= MAX_OCC:
            P().notes.append(f"k-limit: at most {MAX_OCC} occurrences of {cs!r} materialised in {atom.name}")
        P().excl.pop(atom.name, None)
        P().has.pop(atom.name, None)
        P().nonempty.add(atom.name)
        P().sub[atom.name] = (("A", (a, None), None), ("L", cs, None), ("A", (b, None), None))
        cur.append(("A", (a, None), None))
        out.append(Str(cur))
        cur = []
        left -= 1
        todo.insert(0, ("A", (b, None), None))
    out.append(Str(cur))
    return out


def splitlines_terms(v, keepends=False):
    r = split_materialise(v, "\n")
    if r is None or any(contains_any(x, "\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029") for x in r):
        return None
    if len(r) > 1 and not nonempty(r[-1]):
        r.pop()
        if keepends:
            return [concat(x, "\n") for x in r]
        return r
    if keepends:
        return [concat(x, "\n") if i < len(r) - 1 else x for i, x in enumerate(r)]
    return r


def char_pred(v, name):
    """isdigit()-style predicate on an opaque term"""
    if not nonempty(v):
        return name in ("isascii", "isprintable")
    ps = _resolve_parts(parts_of(v))
    if name in ("isdigit", "isalpha", "isalnum", "isspace", "isnumeric", "isdecimal", "isidentifier"):
        for p in ps:
            if p[0] == "L" and p[1] and name != "isidentifier" and not getattr(p[1], name)():
                return False
    if name == "isspace":
        rest = [p for p in ps if p[0] != "L"]
        if any(part_nonempty(p) and not any(part_may(p, c) for c in WS) for p in rest):
            return False
    elif name in ("isdigit", "isalpha", "isalnum", "isnumeric", "isdecimal"):
        ok = [p for p in ps if p[0] == "A" and p[1][0].only is not None and not p[1][1]]
        if len(ok) == len([p for p in ps if p[0] != "L"]) and all(getattr(c, name)() for p in ok for c in p[1][0].only if atom_can(p[1][0], c)):
            return True
    r = char_narrow(v, ("pred", name), lambda c: getattr(c, name)())
    return P().decide(("pred", name, norm(v))) if r is None else r


def char_narrow(v, key, pred):
    """truth of pred on a one-character term; the answer narrows its domain (None: not one character)"""
    ps = _resolve_parts(parts_of(v))
    if len(ps) != 1 or ps[0][0] != "A" or not ps[0][1][0].single or eff_hom(*ps[0][1]):
        return None
    atom = ps[0][1][0]
    dom = atom.only if atom.only is not None else map(chr, range(0x3100))
    dom = [c for c in dom if atom_can(atom, c)]
    yes = frozenset(c for c in dom if pred(c))
    no = frozenset(dom) - yes
    if atom.only is not None and not (yes and no):
        return bool(yes)
    r = P().decide((*key, norm(v)))
    p = P()
    p.excl[atom.name] = p.excl.get(atom.name, frozenset()) | (no if r else yes)
    return r


def to_str_num(v):
    return op("str", v)


def provenance(v, predicate=None):
    """locations of the parts of a term"""
    return [p[2] for p in parts_of(v) if p[2]]


REFOLD["hom"] = lambda h, v: apply_hom(v, dict(h))
REFOLD["replace"] = lambda v, old, new, count: replace(v, old, new, count)
