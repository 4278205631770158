"""Enumeration of tree shapes used by the rendering properties."""
from __future__ import annotations

import itertools

from . import terms as T
from .model import N, dep, el, htm, meta, num, rep, tx

PLAIN = "&<>\n\r\"'"


def ptxt(env, i):
    """text without metacharacters (escaping is decided by C02/C03)"""
    return tx(env.sym(f"t{i}", excl=PLAIN))


KINDS = {
    # block elements
    "Be": lambda e, i: el("div"),
    "Bt": lambda e, i: el("p", ptxt(e, i)),
    "Bm": lambda e, i: el("div", ptxt(e, i), el("p")),
    "Bi": lambda e, i: el("div", el("span", ptxt(e, i), ws=False)),
    # inline elements
    "Ie": lambda e, i: el("span", ws=False),
    "It": lambda e, i: el("b", ptxt(e, i), ws=False),
    "Im": lambda e, i: el("a", el("i", ws=False), ptxt(e, i), ws=False),
    # void elements
    "Vi": lambda e, i: el("br", ws=False),
    "Vb": lambda e, i: el("hr"),
    # leaves
    "T": ptxt,
    "H": lambda e, i: htm(e.sym(f"h{i}", excl="")),
    "R": lambda e, i: rep(e.sym(f"r{i}")),
    "N": lambda e, i: num(T.Num(f"n{i}", "float")),
    "M": lambda e, i: meta(),
    # block content inside an inline element
    "IB": lambda e, i: el("span", el("div", ptxt(e, i)), ws=False),
    "IBm": lambda e, i: el("span", ptxt(e, i), el("div", el("p"), ptxt(e, str(i) + "b")), ws=False),
    # void element given children
    "Vk": lambda e, i: el("br", ptxt(e, i), ws=False),
    # text with embedded newline
    "Tn": lambda e, i: tx(T.concat(e.sym(f"t{i}", excl=PLAIN), "\n", e.sym(f"u{i}", excl=PLAIN))),
    # arbitrary text
    "Tx": lambda e, i: tx(e.sym(f"x{i}")),
    "Te": lambda e, i: tx(""),
    "D": lambda e, i: dep("dep" + str(i)),
}


def seqs(kinds, n, lo=0):
    for k in range(lo, n + 1):
        yield from itertools.product(kinds, repeat=k)


def nodes(env, seq, pre=""):
    return [KINDS[k](env, f"{pre}{i}") for i, k in enumerate(seq)]


def sname(seq):
    return "[" + ",".join(seq) + "]"


WRAPPERS = {
    "block": lambda ks: el("section", *ks),
    "inline": lambda ks: el("em", *ks, ws=False),
    "block/inline": lambda ks: el("div", el("em", *ks, ws=False)),
    "block/block": lambda ks: el("div", el("ul", *ks)),
    "inline/inline": lambda ks: el("i", el("em", *ks, ws=False), ws=False),
    "inline/block": lambda ks: el("i", el("ul", *ks), ws=False),
}
