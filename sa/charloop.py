"""Loops over the characters of an open text, summarised as character maps.

A loop (or comprehension) whose only effect is to append an image of the current character is
a homomorphism.  Its images are found by evaluating the body, abstractly, for every ASCII
character and for one character that is none of these; the body may not write anything else,
read what an earlier round left, or ask anything about that last character.  Everything else
falls back to texts of length 0..3 with open characters (api.MAT_SIZES)."""
from __future__ import annotations

import ast

from . import engine as E
from . import terms as T

PROBES = [chr(i) for i in range(128)] + ["\x85", "\xa0", "\u2028", "\u2029"]
GEN = "any-other-character"


class Abort(Exception):
    pass


def open_text(v):
    """the text if it cannot be taken apart into characters"""
    if isinstance(v, E.Inst) and isinstance(v.data, (str, T.Str)) and v.cls.issub(E.STR) and v.cls.lookup("__iter__") is E.STR.lookup("__iter__"):
        v = v.data
    if isinstance(v, T.Str) and T.chars(v) is None:
        return v
    return None


def images(run):
    """(image of an unnamed character, {character: image}); None if there is no such map"""
    p = T.P()
    keep = {k: (v.copy() if isinstance(v, (list, dict, set)) else v) for k, v in p.__dict__.items()}
    stack = list(E.STACK)
    gen = T.sym(GEN, single=True, excl=PROBES)
    old, E.PROBING[0] = E.PROBING[0], set()
    try:
        g = run(gen)
        out = {c: run(c) for c in PROBES}
        if any(GEN in repr(d[0]) for d in p.decisions[len(keep["decisions"]):]) or GEN in p.excl or GEN in p.has or GEN in p.sub:
            raise Abort
        return gen, g, out
    except (Abort, E.Raised, T.Unsupported, T.NeedChars, T.Infeasible, AttributeError, TypeError):
        for k, v in keep.items():
            setattr(p, k, v)
        E.STACK[:] = stack
        return None
    finally:
        E.PROBING[0] = old


def char_map(text, run):
    """the text with every character replaced by run(character), or None"""
    r = images(run)
    if r is None:
        return None
    gen, g, out = r
    g = E.text_of(g)
    if g is None or T.norm(g) != T.norm(gen):
        return None
    hom = {}
    for c, v in out.items():
        v = E.text_of(v)
        v = T.const(v) if v is not None else None
        if v is None:
            return None
        if v != c:
            hom[c] = v
    return T.apply_hom(text, hom) if hom else text


def char_test(text, run, which):
    """any()/all() of a test on the characters, or None"""
    r = images(lambda c: E.truth(run(c)))
    if r is None:
        return None
    gen, g, out = r
    if g != (which == "all"):
        return None
    chars = [c for c, v in out.items() if v != g]
    hit = T.contains_any(text, chars) if chars else False
    return hit if which == "any" else not hit


# ------------------------------------------------------------------ syntax
def is_join(n):
    return (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "join" and isinstance(n.func.value, ast.Constant)
            and n.func.value.value == "" and len(n.args) == 1 and not n.keywords)


def is_map(n):
    return isinstance(n, (ast.ListComp, ast.GeneratorExp)) and len(n.generators) == 1 and not n.generators[0].is_async or (
        isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "map" and len(n.args) == 2 and not n.keywords)


def mark(fn):
    """mark, in a function, the comprehensions that are only joined or tested, and the lists that are"""
    uses, assigns, joined = {}, {}, {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            uses.setdefault(n.id, []).append(n)
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        assigns.setdefault(x.id, []).append(n if len(ts) == 1 and x is t else None)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            pass
        if is_join(n):
            if is_map(n.args[0]):
                n.args[0]._chars = "join"
            elif isinstance(n.args[0], ast.Name):
                joined.setdefault(n.args[0].id, []).append(n.args[0])
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and len(n.args) == 1 and is_map(n.args[0]):
            n.args[0]._chars = n.func.id
    stores = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            stores[n.id] = stores.get(n.id, 0) + 1
    for name, js in joined.items():
        ns = assigns.get(name, [])
        if len(ns) != 1 or ns[0] is None or ns[0].value is None or stores.get(name) != 1:
            continue
        if is_map(ns[0].value) and len(uses.get(name, ())) == len(js):
            ns[0].value._chars = "join"
    for n in ast.walk(fn):
        if isinstance(n, ast.For):
            n._chars = loop_shape(n, uses, joined, stores, assigns)


def loop_shape(n, uses, joined, stores, assigns):
    """(text accumulators, list accumulators, temporaries) of a loop that may be a character map"""
    if n.orelse or not isinstance(n.target, ast.Name):
        return None
    texts, lists, temps, own = set(), set(), {n.target.id}, []

    def block(ss):
        for s in ss:
            if isinstance(s, (ast.Pass, ast.Continue)):
                continue
            if isinstance(s, ast.If):
                block(s.body)
                block(s.orelse)
            elif isinstance(s, ast.Try):
                for b in (s.body, s.orelse, s.finalbody, *(h.body for h in s.handlers)):
                    block(b)
                temps.update(h.name for h in s.handlers if h.name)
            elif isinstance(s, ast.Raise):
                continue
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add):
                texts.add(s.target.id)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if len(ts) != 1 or not isinstance(ts[0], ast.Name) or s.value is None:
                    raise Abort
                v = s.value
                while isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.BinOp):
                    v = v.left
                if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add) and isinstance(v.left, ast.Name) and v.left.id == ts[0].id:
                    texts.add(ts[0].id)
                    own.append(v.left)
                else:
                    temps.add(ts[0].id)
            elif (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append"
                  and isinstance(s.value.func.value, ast.Name) and len(s.value.args) == 1 and not s.value.keywords):
                lists.add(s.value.func.value.id)
                own.append(s.value.func.value)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            else:
                raise Abort
    try:
        block(n.body)
    except Abort:
        return None
    if len(texts) + len(lists) != 1 or (texts | lists) & temps:
        return None
    inside = {id(x) for s in n.body for x in ast.walk(s)}
    for x in ast.walk(n):
        if isinstance(x, (ast.NamedExpr, ast.Lambda, ast.Yield, ast.YieldFrom, ast.Await)):
            return None
    for name in texts | lists:
        mine = {id(o) for o in own}
        if any(id(u) in inside and id(u) not in mine for u in uses.get(name, ())):
            return None
    for name in lists:
        apps = [u for u in uses.get(name, ()) if id(u) in inside]
        rest = [u for u in uses.get(name, ()) if id(u) not in inside]
        js = {id(j) for j in joined.get(name, ())}
        if not js or any(id(u) not in js for u in rest) or stores.get(name) != 1 or not apps:
            return None
    return tuple(texts), tuple(lists), tuple(temps)


def for_loop(fr, text, shape, set_target, body):
    """run the loop as a character map; True if it is one"""
    texts, lists, temps = shape
    name = (texts or lists)[0]
    acc0 = fr.vars.get(name)
    if texts:
        start = E.text_of(acc0)
        if start is None or isinstance(acc0, E.Inst):
            return False
    elif not (isinstance(acc0, E.Inst) and acc0.cls is E.LIST and isinstance(acc0.data, list)):
        return False
    keep = dict(fr.vars)

    def run(c):
        fr.vars.clear()
        fr.vars.update({k: v for k, v in keep.items() if k not in temps})
        acc = "" if texts else E.mklist([])
        fr.vars[name] = acc
        if lists:
            E.PROBING[0].add(id(acc))
        set_target(fr, c)
        r = body(fr)
        if r is not None and r is not E.CNT:
            raise Abort
        if set(fr.vars) - set(keep) - set(temps):
            raise Abort
        if texts:
            return fr.vars[name]
        if fr.vars[name] is not acc:
            raise Abort
        ts = [E.text_of(x) for x in acc.data]
        if any(t is None for t in ts):
            raise Abort
        return T.concat(*ts)
    try:
        got = char_map(text, run)
    finally:
        fr.vars.clear()
        fr.vars.update(keep)
    if got is None:
        return False
    if texts:
        fr.vars[name] = T.concat(start, got)
    else:
        E.touch(acc0, "append")
        acc0.data.append(got)
    for t in temps:
        fr.vars.pop(t, None)
    return True
