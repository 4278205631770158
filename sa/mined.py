"""Trees in which everything the library could tell apart is left open (element name, attribute
name and value), and trees sized past the integer constants of the source in several dimensions
at once."""
from __future__ import annotations

import itertools

from . import terms as T
from .base import int_thresholds
from .model import ATTRCH, NAMECH, el, meta, tx
from .shapes import KINDS, PLAIN

SRC = ("htmltools/_core.py", "htmltools/_util.py")


def ptxt(env, i):
    return tx(env.sym(f"g{i}", excl=PLAIN))


def attr(env, i=""):
    """one attribute with any name and any value"""
    return (env.sym(f"an{i}", only=ATTRCH - set("_"), nonempty=True), env.sym(f"av{i}"))


ATTRS = {
    "any": lambda e: [attr(e)],
    "two": lambda e: [("id", e.sym("av1")), (e.sym("an2", only=(ATTRCH - set("_")) , nonempty=True), e.sym("av2"))],
    "before": lambda e: [(e.sym("an2", only=(ATTRCH - set("_")), nonempty=True), e.sym("av2")), ("title", e.sym("av1"))],
}

BODY = {
    "empty": lambda e: [],
    "text": lambda e: [ptxt(e, 0)],
    "texts": lambda e: [ptxt(e, 0), ptxt(e, 1)],
    "inl": lambda e: [ptxt(e, 0), el("b", ptxt(e, 1), ws=False), ptxt(e, 2)],
    "inl1": lambda e: [el("b", ptxt(e, 1), ws=False)],
    "voids": lambda e: [el("br", ws=False), ptxt(e, 1), el("wbr", ws=False)],
    "blk": lambda e: [el("p", ptxt(e, 0)), ptxt(e, 1), el("hr")],
    "blk1": lambda e: [el("p", ptxt(e, 0))],
}
INLINE_BODY = ("empty", "text", "texts", "inl", "inl1", "voids")


def generic(names=("any", "div", "script"), ws=(True, False), blocks_in_inline=True):
    """[(label, builder(env) -> node)]: elements of any name with attributes of any name and value"""
    out = []
    for an, bn, w, nm in itertools.product(ATTRS, BODY, ws, names):
        if nm != "any" and an == "two" or nm == "script" and bn not in ("empty", "text", "texts"):
            continue
        if not w and not blocks_in_inline and bn not in INLINE_BODY:
            continue

        def f(env, an=an, bn=bn, w=w, nm=nm):
            name = env.sym("gname", only=NAMECH, nonempty=True) if nm == "any" else nm
            at = ATTRS[an](env)
            if len(at) == 2 and T.eq(at[0][0], at[1][0]):
                at = [("id", at[0][1])]
            return el(name, *BODY[bn](env), ws=w, attrs=at)
        out.append((f"{nm}/{an}/{bn}/{'ws' if w else 'nows'}", f))
    return out


def sizes(limit=60, cap=6):
    """integer constants of the source, the largest ones when there are many"""
    ts = [t for t in sorted(int_thresholds(SRC)) if t <= limit]
    return ts if len(ts) <= cap else ts[-cap:]


def combos(limit=24):
    """(depth, width) pairs past every pair of integer constants"""
    ts = [t for t in sizes(limit, 4)]
    ds = sorted({t + d for t in ts for d in (0, 1, 2)})
    return [(a, b) for a in ds for b in ds if a * b <= 700]


def grown(env, depth, width, shape, inner_ws=False):
    """`depth` levels; at every level siblings, in the innermost element `width` children"""
    if shape == "inline":
        n = el("em", *[KINDS["It" if i % 3 else "T"](env, str(i)) for i in range(width)], ws=False)
    elif shape == "texts":
        n = el("em", *[ptxt(env, i) for i in range(width)], ws=False)
    else:
        n = el("div", *[KINDS["Bt" if i % 3 else "T"](env, str(i)) for i in range(width)])
    core = n
    for i in range(depth):
        n = el("div", n) if i % 2 or shape == "texts" else el("div", n, el("p"))
    return n, core


def key(env, name, besides=()):
    """a dict key / attribute name that may be anything but those given"""
    k = env.sym(name, only=ATTRCH - set("_"), nonempty=True)
    for b in (*besides, "self"):  # a keyword named self cannot be passed on
        if T.eq(k, b):
            raise T.Infeasible()
    return k


def open_dict(env, i, *pairs):
    """a dict with the given entries and one more, of any name and value"""
    from .engine import mkdict
    return mkdict([*pairs, (key(env, f"ik{i}", [p[0] for p in pairs]), env.sym(f"iv{i}"))])


def open_dict_first(env, i, *pairs):
    from .engine import mkdict
    return mkdict([(key(env, f"ik{i}", [p[0] for p in pairs]), env.sym(f"iv{i}")), *pairs])
