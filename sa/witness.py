"""Concretisation: two abstract texts whose normal forms differ are told apart by
values of the unknowns that satisfy the facts of the partition.  Interpreted
operations are evaluated; others are free functions of their arguments."""
from __future__ import annotations

import html
import json
import random
import re
import urllib.parse

from . import terms as T
from .terms import P


class Cannot(Exception):
    pass


def ev(n, env):
    """value of a normal form under env: ('A', name) -> str, ('R', sym) -> int"""
    out = []
    for p in n:
        k = p[0]
        if k == "L":
            out.append(p[1])
        elif k == "A":
            v = env.get(("A", p[1]))
            if v is None:
                if p[1] not in P().sub:
                    raise Cannot
                v = ev(T.norm(T.Str(P().sub[p[1]])), env)
            if p[2]:
                m = dict(p[2])
                v = "".join(m.get(c, c) for c in v)
            out.append(v)
        elif k == "R":
            out.append(p[1] * env["R", p[2]])
        else:
            out.append(ev_op(p[1], p[2], env))
    return "".join(out)


def val(a, env):
    k = a[0]
    if k == "S":
        return ev(a[1], env)
    if k in ("int", "str", "bool", "NoneType", "float"):
        return a[1]
    if k == "tuple":
        return tuple(val(x, env) for x in a[1:])
    if k == "json":
        return json_text(a[1], a[2], env)
    if k == "lin":
        return env["R", a[1]] + a[2]
    raise Cannot


def json_text(sh, opts, env):
    def go(s):
        if s[0] == "str":
            return val(s[1], env)
        if s[0] == "lit":
            return val(s[1], env)
        if s[0] == "list":
            return [go(x) for x in s[1]]
        if s[0] == "dict":
            return {val(k, env): go(v) for k, v in s[1]}
        raise Cannot
    indent, seps, ascii_ = [val(o, env) if isinstance(o, tuple) and o and isinstance(o[0], str) and o[0] in ("int", "str", "NoneType", "bool", "S", "tuple") else o for o in opts]
    if not isinstance(indent, (int, str, type(None))) or not isinstance(ascii_, bool):
        raise Cannot
    return json.dumps(go(sh), indent=indent, separators=seps, ensure_ascii=ascii_)


def pairs(t):
    return [(a, b) for a, b in t]


def ev_op(name, args, env):
    try:
        a = [val(x, env) for x in args]
        if name == "replace" and isinstance(a[3], int):
            return a[0].replace(a[1], a[2], a[3])
        if name == "hom":
            m = dict(pairs(a[0]))
            return "".join(m.get(c, c) for c in a[1])
        if name == "resub" and a[2]:
            m = dict(pairs(a[2]))
            return re.sub("|".join(re.escape(w) for w in m), lambda x: m[x.group()], a[0])
        if name == "quote":
            return urllib.parse.quote(a[0], safe=a[1])
        if name == "unquote":
            return urllib.parse.unquote(a[0])
        if name == "json":
            return a[0]
        if name == "slice":
            return a[0][slice(*a[1:])]
        if name == "char":
            return a[0][a[1]]
        if name == "strip" and len(a) == 2:
            return a[0].strip(a[1])
        if name == "unescape":
            return html.unescape(a[0])
    except (Cannot, TypeError, IndexError, ValueError, KeyError):
        pass
    if env.get("strict"):
        raise Cannot
    try:
        key = repr(tuple(val(x, env) for x in args))
    except (Cannot, TypeError):
        key = repr(args)
    return f"‹{name}:{sum(map(ord, key)) * 31 + len(key)}›"


def unknowns(n, out):
    for p in n:
        if p[0] == "A":
            out[("A", p[1])] = None
        elif p[0] == "R":
            out[("R", p[2])] = None
        elif p[0] == "O":
            for a in p[2]:
                walk(a, out)
    return out


def walk(a, out):
    if not isinstance(a, tuple) or not a:
        return
    if a[0] == "S":
        unknowns(a[1], out)
    elif a[0] == "lin":
        out[("R", a[1])] = None
    else:
        for x in a:
            walk(x, out)


def atoms_of(v, out):
    for p in T._resolve_parts(T.parts_of(v)):
        if p[0] == "A":
            out[p[1][0].name] = p[1][0]
        elif p[0] == "O":
            for a in p[1][1]:
                atoms_in(a, out)


def atoms_in(a, out):
    if isinstance(a, (str, T.Str)):
        atoms_of(a, out)
    elif isinstance(a, (tuple, list)):
        for x in a:
            atoms_in(x, out)
    elif hasattr(a, "shape"):
        atoms_in(a.shape, out)


def literals(n, out):
    def lit(a):
        if isinstance(a, tuple):
            if len(a) >= 2 and a[0] == "L" and isinstance(a[1], str):
                if a[1]:
                    out.add(a[1][:40])
                return
            for x in a:
                lit(x)
        elif isinstance(a, str) and 0 < len(a) < 12:
            pass
    for p in n:
        if p[0] == "O":
            lit(p[2])


POOL = ["", "a", "Zq", "x y", "<b>", "&amp;", "&", "\"", "'", "\n", "a\nb", " a", "a ", "\t", "\r", "\\", "/", "é", "0", "A-b_c", "a.b", "</script>", "%", "{}", "$1", "\\1", ":", ";", "=", ",", "-", "_", "aa", "true", "\u2028", "@", "#", "x" * 30]


def ok(atom, v):
    p = P()
    name = atom.name
    if (atom.nonempty or name in p.nonempty) and not v:
        return False
    if atom.single and len(v) != 1:
        return False
    ex = T.atom_excl(atom)
    if any(c in ex for c in v) or (atom.only is not None and any(c not in atom.only for c in v)):
        return False
    if any(c not in v for c in p.has.get(name, ())):
        return False
    for h in p.hasany:
        if h[0] == name and not any(c in h[1] for c in v):
            return False
    for k, r in p.generic.items():
        if not isinstance(k, tuple) or len(k) < 2:
            continue
        try:
            if k[0] == "eqc" and k[1] == name:
                t = v == k[2]
            elif k[0] == "insub" and k[1] == name:
                t = k[2] in v
            elif k[0] == "empty" and k[1] == name:
                t = not v
            elif k[0] == "edge" and k[3] == name and isinstance(k[2], str):
                t = v.startswith(k[2]) if k[1] else v.endswith(k[2])
            else:
                continue
        except IndexError:
            continue
        if t != bool(r):
            return False
    return True


def facts_hold(env):
    """facts about whole terms"""
    env = {**env, "strict": True}
    for k, r in P().generic.items():
        if not isinstance(k, tuple) or not k:
            continue
        try:
            if k[0] == "in":
                t = k[1] in ev(k[2], env)
            elif k[0] == "int":
                t = ev(k[1], env) in ev(k[2], env)
            elif k[0] == "ne":
                t = ev(k[1], env) != ""
            elif k[0] == "eq":
                t = ev(k[1], env) == k[2]
            elif k[0] == "oany":
                t = any(c in k[2] for c in ev(k[1], env))
            else:
                continue
        except (KeyError, Cannot, TypeError, IndexError):
            continue
        if t != bool(r):
            return False
    return True


def long_texts(terms):
    """texts longer than the bounds of slices"""
    sizes = set()

    def walk_(a):
        if isinstance(a, tuple):
            if len(a) >= 3 and a[0] == "O" and a[1] == "slice":
                sizes.update(x[1] for x in a[2] if isinstance(x, tuple) and len(x) == 2 and x[0] == "int" and 30 < x[1] <= 20000)
            for x in a:
                walk_(x)
    for t in terms:
        walk_(T.norm(t))
    return {t for n in sorted(sizes)[:3] for t in ("x" * n + "a", "x" * n + "b", "x" * n)}


def candidates(atom, lits):
    p = P()
    need = "".join(sorted(p.has.get(atom.name, ())))
    anys = [next(iter(sorted(h[1]))) for h in p.hasany if h[0] == atom.name]
    pre = [k[2] for k, r in p.generic.items() if isinstance(k, tuple) and k and k[0] == "edge" and len(k) > 3 and k[3] == atom.name and isinstance(k[2], str) and k[1] and r]
    post = [k[2] for k, r in p.generic.items() if isinstance(k, tuple) and k and k[0] == "edge" and len(k) > 3 and k[3] == atom.name and isinstance(k[2], str) and not k[1] and r]
    base = list(POOL) + sorted(lits)
    if atom.only is not None:
        cs = sorted(atom.only)
        base += cs[:40] + ["".join(cs[:3]), cs[0] * 2, "".join(cs[-2:])] if cs else []
    out = []
    mid = need + "".join(anys)
    for b in base:
        for v in {b, b + mid, mid + b, "".join(pre) + b + mid + "".join(post)}:
            if v not in out and ok(atom, v):
                out.append(v)
    return out


def differ(a, b):
    """a valuation telling the texts apart, or None"""
    na, nb = T.norm(a), T.norm(b)
    syms = unknowns(na, {})
    unknowns(nb, syms)
    atoms = {}
    atoms_of(a, atoms)
    atoms_of(b, atoms)
    lits = set()
    literals(na, lits)
    literals(nb, lits)
    pool = {}
    for k in syms:
        if k[0] == "A":
            at = atoms.get(k[1]) or T.Atom(k[1])
            pool[k] = candidates(at, lits)
            if not pool[k]:
                return {}   # no value of the pool satisfies the facts: keep the structural verdict
        else:
            lo, hi = T.lin_interval(k[1])
            lo = lo or 0
            pool[k] = [x for x in (lo, lo + 1, lo + 2, lo + 3) if hi is None or x <= hi]
    rnd = random.Random(1)
    keys = list(pool)
    default = {k: pool[k][min(1, len(pool[k]) - 1)] for k in keys}

    def envs():
        yield default
        for k in keys:
            for v in pool[k]:
                yield {**default, k: v}
        for _ in range(400):
            yield {k: rnd.choice(pool[k]) for k in keys}
    held = 0
    for env in envs():
        if not facts_hold(env):
            continue
        held += 1
        try:
            if ev(na, env) != ev(nb, env):
                return env
        except Cannot:
            return {}
    return None


def feasible():
    """some valuation satisfies the equalities assumed on this partition (or there are none)"""
    p = P()
    if any(T.norm(a) == T.norm(b) for a, b in p.neq):
        return False
    if not p.eqs:
        return True
    atoms, lits, syms = {}, set(), {}
    for a, b in p.eqs + p.neq:
        for t in (a, b):
            atoms_of(t, atoms)
            n = T.norm(t)
            literals(n, lits)
            unknowns(n, syms)
            lits |= {q[1] for q in n if q[0] == "L" and len(q[1]) < 40}
    lits |= long_texts([t for ab in p.eqs + p.neq for t in ab])
    pool = {}
    for k in syms:
        if k[0] == "A":
            at = atoms.get(k[1]) or T.Atom(k[1])
            pool[k] = candidates(at, lits)
            if not pool[k]:
                return False
        else:
            lo, hi = T.lin_interval(k[1])
            lo = lo or 0
            pool[k] = [x for x in (lo, lo + 1, lo + 2, lo + 3) if hi is None or x <= hi]
    rnd = random.Random(1)

    def holds(env):
        try:
            for want, ps in ((True, p.eqs), (False, p.neq)):
                for a, b in ps:
                    if (ev(T.norm(a), {**env, "strict": True}) == ev(T.norm(b), {**env, "strict": True})) is not want:
                        return False
        except Cannot:
            return True     # not evaluated: keep the verdict
        return facts_hold(env)
    for i in range(3000):
        env = {k: rnd.choice(v) for k, v in pool.items()}
        if i % 3 == 1:      # few distinct values
            some = rnd.sample(POOL, 2)
            env = {k: next((s for s in some if s in pool[k]), env[k]) if k[0] == "A" else env[k] for k in env}
        if i % 3 == 2:      # repair one equality by copying
            a, b = rnd.choice(p.eqs)
            for x, y in ((a, b), (b, a)):
                n = T.norm(x)
                if len(n) == 1 and n[0][0] == "A":
                    try:
                        v = ev(T.norm(y), env)
                    except Cannot:
                        return True
                    at = atoms.get(n[0][1])
                    if at is not None and ok(at, v):
                        env[("A", n[0][1])] = v
        if holds(env):
            return True
    return False
