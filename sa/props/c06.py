"""C06: block layout equals the documented line and indentation rule."""
import itertools

from .. import engine as E
from .. import mined
from .. import terms as T
from ..api import Bad, g, m, new
from ..base import Prop, Scenario, int_thresholds
from ..engine import call, getattr_, getitem, str_
from ..model import N, build, check_same, el, htm, meta, num, preload, rep, taglist, tx
from ..oracle import real, spec_lines, spec_tag
from ..shapes import KINDS, PLAIN, nodes, seqs, sname


def check_tag(env, n, what, lin=True):
    t = build(n)
    check_same(m(t, "get_html_string"), spec_tag(n, "", "\n"), what)
    check_same(str_(t), spec_tag(n, "", "\n"), what + " (str)")
    if lin:
        eol = env.sym("eol")
        k = T.Lin("k")
        pad = E.binop("Mult", "  ", k)
        check_same(m(t, "get_html_string", k, eol), T.concat(pad, spec_tag(n, pad, eol)), what + " with indent=k, eol")
        check_same(call(getattr_(t, "get_html_string"), [], [("indent", 1), ("eol", eol)]), T.concat("  ", spec_tag(n, "  ", eol)), what + " with indent=1, eol")
        check_same(call(getattr_(t, "get_html_string"), [], [("eol", "")]), spec_tag(n, "", ""), what + " with eol=''")


def check_list(env, ns, what):
    ks = list(real(ns))
    t = taglist(ns)
    check_same(m(t, "get_html_string"), spec_lines(ks, "", "\n"), what)
    check_same(getitem(m(t, "render"), "html"), spec_lines(ks, "", "\n"), what + " (render)")
    eol = env.sym("eol")
    k = T.Lin("k")
    pad = E.binop("Mult", "  ", k)
    check_same(m(t, "get_html_string", k, eol), spec_lines(ks, pad, eol), what + " with indent=k, eol")
    check_same(call(getattr_(t, "get_html_string"), [2], [("eol", eol), ("add_ws", True)]), spec_lines(ks, "    ", eol), what + " with indent=2, eol")


def scenarios(tier):
    preload()
    out = []
    names = set()

    def add(n, f, **k):
        if n not in names:
            names.add(n)
            out.append(Scenario(n, f, **k))

    kinds = ["Be", "Bt", "Bm", "Bi", "Ie", "It", "Im", "Vi", "Vb", "Vk", "T", "H", "R", "N", "Te", "Tn"]
    core = ["Be", "Bt", "Bm", "It", "T", "H", "R", "Vi"]
    lists = list(seqs(kinds, 2)) + list(seqs(core, 3, 3))
    if tier == "thorough":
        lists += list(seqs(kinds, 3, 3)) + list(seqs(["Bt", "Bm", "It", "T", "R"], 4, 4)) + list(seqs(["Bt", "It", "T"], 5, 5))
    else:
        lists += list(seqs(["Bt", "It", "T"], 4, 4))
    for s in dict.fromkeys(lists):
        def f(env, s=s):
            check_list(env, nodes(env, s), "list " + sname(s))
        add(f"list{sname(s)}", f)

        def f(env, s=s):
            check_tag(env, el("section", *nodes(env, s)), "block " + sname(s))
        add(f"block{sname(s)}", f)
    for s in seqs(kinds, 2, 1):
        if any(k in ("Be", "Bt", "Bm", "Bi", "Vb") for k in s):
            continue

        def f(env, s=s):
            n = el("em", *nodes(env, s), ws=False)
            check_tag(env, n, "inline " + sname(s))
            check_list(env, [n, el("p"), n, tx("z")], "inline " + sname(s) + " among blocks")
        add(f"inline{sname(s)}", f)
    # nesting: every pair of contexts
    for s in seqs(["Be", "Bt", "It", "T", "R", "Bm"], 2, 1):
        for w in ("bb", "bbb", "before", "after", "both", "li"):
            def f(env, s=s, w=w):
                ns = nodes(env, s)
                x = {"bb": lambda: el("div", el("ul", *ns)), "bbb": lambda: el("div", el("ul", el("li", *ns)), el("p")),
                     "before": lambda: el("div", tx("a"), el("ul", *ns)), "after": lambda: el("div", el("ul", *ns), tx("a")),
                     "both": lambda: el("div", el("b", tx("q"), ws=False), el("ul", *ns), htm("<x>"), el("p", tx("y"))),
                     "li": lambda: el("ul", el("li", *ns), el("li", el("a", tx("k"), ws=False)), el("li"))}[w]()
                check_tag(env, x, f"{w} {sname(s)}")
            add(f"nest/{w}{sname(s)}", f)
    # metadata between the siblings must not matter for the shape rules (single text, empty)
    for s in (("M",), ("M", "T"), ("T", "M"), ("M", "It", "M"), ("M", "Bt"), ("M", "M")):
        def f(env, s=s):
            check_tag(env, el("div", *nodes(env, s)), "block " + sname(s))
            check_list(env, nodes(env, s), "list " + sname(s))
        add(f"meta{sname(s)}", f)
    # children supplied nested
    def nested(env):
        n = el("div", N("list", kids=[tx("a"), N("tuple", kids=[el("p"), N("none")]), N("taglist", kids=[tx("b")])]))
        check_tag(env, n, "children supplied nested")
    add("nested-args", nested)
    # attributes do not matter for layout
    def attrs(env):
        at = [("id", env.sym("v", excl=PLAIN)), ("class", "x")]
        for n in (el("div", attrs=at), el("div", tx("t"), attrs=at), el("div", el("p", attrs=at), tx("u"), el("br", attrs=at), attrs=at)):
            check_tag(env, n, "with attributes")
    add("attrs", attrs)

    def anyname(env):
        from ..model import NAMECH
        nm = env.sym("name", only=NAMECH, nonempty=True)
        for kids in ([], [tx("t")], [el("b", ws=False)], [el("p"), tx("u")]):
            check_tag(env, el(nm, *kids), "element of any name", lin=False)
    add("any-name", anyname)
    for nm in ("pre", "textarea", "script", "style", "html", "head", "body", "table", "tr", "td", "p", "svg", "br", "hr", "title"):
        def f(env, nm=nm):
            for kids in ([], [tx("t")], [tx("t"), tx("u")], [el("b", tx("x"), ws=False)], [el("p"), tx("u"), el("div", el("p"))]):
                check_tag(env, el(nm, *kids), f"<{nm}>")
                check_tag(env, el("div", el(nm, *kids), tx("z")), f"<{nm}> in <div>")
        add(f"name/{nm}", f)

    def indents(env):
        n = el("div", el("p", tx("a")), tx("b"))
        for k in (0, 1, 2, 5, 40):
            pad = "  " * k
            for eol in ("\n", "\r\n", "", "X"):
                check_same(m(build(n), "get_html_string", k, eol), pad + T.const(spec_tag(n, pad, eol)), f"indent={k}, eol={eol!r}")
    add("indents", indents)
    for th in sorted(int_thresholds(("htmltools/_core.py", "htmltools/_util.py"))):
        if th > 60:
            continue

        def f(env, th=th):
            for kind in ("Bt", "It", "T"):
                check_tag(env, el("div", *[KINDS[kind](env, str(i)) for i in range(th + 2)]), f"{th + 2} children {kind}")
                check_list(env, [KINDS[kind](env, str(i)) for i in range(th + 2)] + [el("p")], f"{th + 2} items {kind}")
            n = tx("x")
            for i in range(th + 2):
                n = el("div", n, el("p"))
            check_tag(env, n, f"{th + 2} levels")
            long = T.concat("x" * (th + 1), env.sym("t", excl=PLAIN))
            for n in (el("div", tx(long)), el("div", tx(long), el("p", tx(long))), el("div", htm(long)), el("div", el("b", tx(long), ws=False)),
                      el("div", attrs=[(f"a{i}", "v") for i in range(th + 2)]), el("div", tx("y"), attrs=[("a", long)])):
                check_tag(env, n, f"text longer than {th}")
            check_list(env, [tx(long), el("p"), tx(long), htm(long)], f"text longer than {th}")
        add(f"size/{th}", f)
    for gn, gf in mined.generic(blocks_in_inline=False):
        def f(env, gf=gf):
            n = gf(env)
            check_tag(env, n, "element with any name and attribute", lin=False)
            check_list(env, [tx("z"), n, el("b", ws=False), n, el("p")], "element with any name and attribute among siblings")
            check_tag(env, el("div", n, tx("z"), n), "element with any name and attribute in a block")
        add(f"generic/{gn}", f)
    for (a, b), sh in itertools.product(mined.combos(), ("inline", "texts", "block")):
        def f(env, a=a, b=b, sh=sh):
            n, core = mined.grown(env, a, b, sh)
            check_tag(env, n, f"{a} levels, {b} children", lin=False)
        add(f"grown/{a}/{b}/{sh}", f)
    return out


PROP = Prop(
    "C06", "Block layout follows the documented line and indentation rules",
    "the abstract output term (opaque texts, symbolic indent repetition, opaque eol) must equal the term produced by an independent renderer of the documented rule",
    [("htmltools", "Tag.get_html_string"), ("htmltools", "TagList.get_html_string")], scenarios,
    assumptions=["inline elements contain no block elements (the property's premise)"],
    bounds="sibling sequences up to length 2 over 16 kinds, 3 over 8, 4 over 3 (thorough: 3/16, 4/5, 5/3); nesting to 5 and past every integer constant of the source; indent and eol opaque",
)
