"""C05: whitespace appears only next to the tags of whitespace-enabled elements."""
import itertools

from .. import engine as E
from .. import mined
from .. import terms as T
from ..api import Bad, g, m, new
from ..base import Prop, Scenario, int_thresholds
from ..engine import call, getattr_, getitem, mkdict, mklist, str_
from ..model import N, build, check_same, el, expand, htm, is_void, meta, need_str, num, preload, rep, taglist, tx, user
from ..oracle import attrs_term, esc, esc_text, find_term, leaf, near_loc, opening, real, spec_flat
from ..shapes import KINDS, PLAIN, WRAPPERS, nodes, seqs, sname
from ..terms import Str


def pieces(nodes_, raw=False):
    """[(kind, term, may_have_ws_before, may_have_ws_after)] of the expected output"""
    out = []
    for n in real(nodes_):
        if n.k != "el":
            out.append(("leaf", leaf(n, raw), False, False))
            continue
        kids = list(real(n.kids))
        o = opening(n)
        if not kids and is_void(n.name):
            out.append(("void", T.concat(o, "/>"), n.ws, n.ws))
            continue
        out.append(("open", T.concat(o, ">"), n.ws, n.ws))
        r = any(T.eq(n.name, x) for x in ("script", "style"))
        out.extend(pieces(kids, r))
        out.append(("close", T.concat("</", n.name, ">"), n.ws, n.ws))
    return out


def is_ws_unit(u):
    if isinstance(u, str):
        return u.isspace()
    if u[0] == "R":
        return u[1].isspace()
    if u[0] == "A" and len(u) > 1:
        return u[1] == "eol"
    return False


def check_ws(out, spec, what, lead=True):
    """match the output against the pieces; whitespace only where a neighbour allows it"""
    out = need_str(out, what)
    ps = pieces(spec)  # first: it may decide what a name is
    units = expand(Str(T._resolve_parts(T.parts_of(out))))
    i = 0
    prev_after = lead
    prevname = "start of output"
    for k, term, before, after in ps:
        want = [u[0] for u in expand(Str(T._resolve_parts(T.parts_of(term))))]
        j = i
        # try zero whitespace first, then more (a leaf may itself begin with whitespace)
        while True:
            if [u[0] for u in units[j:j + len(want)]] == want:
                break
            if j < len(units) and is_ws_unit(units[j][0]):
                j += 1
                continue
            raise Bad(f"{what}: expected {T.show(term)} after {prevname} in {T.show(out, 700)}", loc_at(units, j))
        if j > i and not (prev_after or before):
            raise Bad(f"{what}: whitespace between {prevname} and {T.show(term)}, neither of which is a whitespace-enabled tag, in {T.show(out, 700)}", loc_at(units, i))
        i = j + len(want)
        prev_after = after
        prevname = T.show(term, 60)
    if i < len(units):
        rest = units[i:]
        if not all(is_ws_unit(u[0]) for u in rest):
            raise Bad(f"{what}: unexpected output after {prevname} in {T.show(out, 700)}", loc_at(units, i))
        if not prev_after:
            raise Bad(f"{what}: trailing whitespace after {prevname} in {T.show(out, 700)}", loc_at(units, i))


def loc_at(units, i):
    for j in list(range(i, len(units))) + list(range(min(i, len(units)) - 1, -1, -1)):
        if units[j][1] and str(units[j][1][0]).startswith("htmltools"):
            return units[j][1]
    return None


def check_flat(out, n, what):
    t = T.concat(*[spec_flat(x) for x in (n if isinstance(n, list) else [n])])
    if not find_term(out, t):
        raise Bad(f"{what}: the inline subtree {T.show(t)} does not occur contiguously in {T.show(out, 700)}", near_loc(out, t))


INLINE = ["Ie", "It", "Im", "Vi", "T", "H", "R", "N", "M", "Vk", "Tn"]
BLOCK = ["Be", "Bt", "Bm", "Vb", "Bi"]
MIXED = ["IB", "IBm"]


def inline_tree(env, depth, i=""):
    return el("span", tx(env.sym(f"a{i}", excl=PLAIN)), el("b", htm(env.sym(f"h{i}")), el("i", rep(env.sym(f"r{i}")), ws=False), ws=False), el("br", ws=False),
              *( [inline_tree(env, depth - 1, i + "x")] if depth else []), tx("z"), ws=False, attrs=[("class", "c")])


def scenarios(tier):
    preload()
    out = []
    names = set()

    def add(n, f, **k):
        if n not in names:
            names.add(n)
            out.append(Scenario(n, f, **k))

    # -- purely inline: exact concatenation, no whitespace at all
    for s in seqs(INLINE, 3 if tier == "thorough" else 2, 1):
        for w in ("em", "top", "deep"):
            def f(env, s=s, w=w):
                ns = nodes(env, s)
                if w == "top":
                    check_same(m(taglist(ns), "get_html_string"), T.concat(*[spec_flat(x) for x in real(ns)]), "inline list " + sname(s))
                    check_same(call(getattr_(taglist(ns), "get_html_string"), [], [("add_ws", False)]), T.concat(*[spec_flat(x) for x in real(ns)]), "inline list " + sname(s))
                    check_same(str_(taglist(ns)), T.concat(*[spec_flat(x) for x in real(ns)]), "inline list " + sname(s))
                else:
                    n = el("em", *ns, ws=False) if w == "em" else el("i", el("em", *ns, ws=False), tx("q"), ws=False)
                    check_same(m(build(n), "get_html_string"), spec_flat(n), "inline element " + sname(s))
                    check_same(str_(build(n)), spec_flat(n), "inline element " + sname(s))
            add(f"inline/{w}{sname(s)}", f)
    # -- an inline subtree placed anywhere appears contiguously
    CTX = {
        "block": lambda x: [el("div", x)],
        "block+text": lambda x: [el("div", tx("t"), x, tx("u"))],
        "between-blocks": lambda x: [el("div", el("p"), x, el("p", tx("k")))],
        "first": lambda x: [el("div", x, el("p"))],
        "last": lambda x: [el("div", el("p"), x)],
        "nested": lambda x: [el("div", el("div", el("ul", el("li", x))))],
        "inline-parent": lambda x: [el("a", x, ws=False)],
        "inline-block": lambda x: [el("a", el("div", x), tx("s"), ws=False)],
        "inline-after-block": lambda x: [el("a", el("div"), x, ws=False)],
        "inline-before-block": lambda x: [el("a", x, el("div", tx("m"), el("p")), ws=False)],
        "list": lambda x: [x],
        "list-after": lambda x: [el("p"), x],
        "list-before": lambda x: [x, el("p")],
        "list-inline": lambda x: [tx("a"), x, tx("b")],
        "meta": lambda x: [el("div", meta(), x, meta())],
        "two": lambda x: [el("div", x, x)],
        "pre": lambda x: [el("pre", x)],
        "mixed": lambda x: [el("div", el("span", el("p"), x, ws=False), x, el("hr"), x)],
    }
    for cn, cf in CTX.items():
        for depth in (0, 1, 2):
            for ind in ("0", "k"):
                def f(env, cf=cf, cn=cn, depth=depth, ind=ind):
                    x = inline_tree(env, depth)
                    ns = cf(x)
                    args = [] if ind == "0" else [T.Lin("k"), env.sym("eol", only=" \n\r\t")]
                    r = m(taglist(ns), "get_html_string", *args)
                    check_flat(r, x, f"inline subtree in context {cn}")
                    if len(ns) == 1:
                        check_flat(m(build(ns[0]), "get_html_string", *args), x, f"inline subtree in context {cn}")
                    check_flat(getitem(m(taglist(ns), "render"), "html"), x, f"inline subtree in context {cn}")
                    if cn == "list" or not depth:
                        d = call(g("HTMLDocument"), [build(c) for c in ns])
                        check_flat(getitem(m(d, "render"), "html"), x, f"inline subtree in a document, context {cn}")
                add(f"ctx/{cn}/{depth}/{ind}", f)
        for s in list(seqs(["It", "T", "Vi", "H", "R"], 3 if tier == "thorough" else 2, 2)):
            def f(env, cf=cf, cn=cn, s=s):
                ns = nodes(env, s)
                holder = N("list", kids=ns)
                r = m(taglist(cf(holder)), "get_html_string")
                check_flat(r, ns, f"adjacent inline siblings {sname(s)} in context {cn}")
            add(f"run/{cn}{sname(s)}", f)
    # -- whitespace placement in arbitrary mixtures
    kinds = ["Be", "Bt", "Bm", "Vb", "It", "Im", "T", "H", "R", "M", "IB", "Vi"]
    for s in seqs(kinds, 3 if tier == "thorough" else 2, 1):
        for w in list(WRAPPERS) + ["list", "list~"]:
            def f(env, s=s, w=w):
                ns = nodes(env, s)
                if w == "list":
                    check_ws(m(taglist(ns), "get_html_string"), ns, "list " + sname(s))
                elif w == "list~":
                    check_ws(call(getattr_(taglist(ns), "get_html_string"), [0, env.sym("eol", only=" \n\r\t")], [("add_ws", False)]), ns, "list (add_ws=False) " + sname(s))
                else:
                    n = WRAPPERS[w](ns)
                    check_ws(m(build(n), "get_html_string", T.Lin("k"), env.sym("eol", only=" \n\r\t")), [n], f"{w} {sname(s)}")
            add(f"mix/{w}{sname(s)}", f)
    core = ["Bt", "It", "T", "IB", "M"] if tier == "quick" else ["Bt", "Bm", "It", "T", "IB", "R"]
    for s in seqs(core, 3 if tier == "quick" else 4, 3 if tier == "quick" else 4):
        for w in ("block", "inline", "list"):
            def f(env, s=s, w=w):
                ns = nodes(env, s)
                if w == "list":
                    check_ws(m(taglist(ns), "get_html_string"), ns, "list " + sname(s))
                else:
                    n = WRAPPERS[w](ns)
                    check_ws(m(build(n), "get_html_string"), [n], f"{w} {sname(s)}")
            add(f"mix/{w}{sname(s)}", f)
    # -- two levels of mixed content
    for a, b in itertools.product(["IB", "Bm", "It", "T", "Bi"], repeat=2):
        for wa in ("div", "span"):
            for wb in ("div", "span"):
                def f(env, a=a, b=b, wa=wa, wb=wb):
                    n = el(wa, KINDS["T"](env, "p"), el(wb, *nodes(env, (a, b)), ws=wb == "div"), KINDS["T"](env, "q"), ws=wa == "div")
                    check_ws(m(build(n), "get_html_string"), [n], f"{wa}>{wb}{sname((a, b))}")
                    check_ws(m(taglist([n, n]), "get_html_string"), [n, n], f"{wa}>{wb}{sname((a, b))} twice")
                add(f"two/{wa}/{wb}/{a}{b}", f)
    # -- ws flag flipped on generated-looking names
    for nm in ("span", "div", "br", "script", "pre", "textarea", "x-y"):
        for ws in (True, False):
            def f(env, nm=nm, ws=ws):
                n = el("section", tx("a"), el(nm, ws=ws), tx("b"), el(nm, tx("k"), ws=ws), el("i", ws=False))
                check_ws(m(build(n), "get_html_string"), [n], f"{nm} with add_ws={ws}")
                k = el(nm, el("i", ws=False), tx("t" if nm not in ("script",) else "t"), ws=ws)
                check_ws(m(build(k), "get_html_string"), [k], f"{nm} with add_ws={ws} and children")
            add(f"flag/{nm}/{ws}", f)

    def textws(env):
        for t in (" ", "\n", "  a  ", "a\nb", "\n  "):
            n = el("b", tx(t), el("i", tx(t), ws=False), tx(t), ws=False)
            check_same(str_(build(n)), spec_flat(n), f"text {t!r} inline")
            check_flat(str_(build(el("div", n, el("p")))), n, f"text {t!r} inline in block")
    add("text-whitespace", textws)

    def flip(env):
        t = build(el("b", el("i", ws=False), tx("x"), ws=True))
        E.setattr_(t, "add_ws", False)
        check_same(str_(t), "<b><i></i>x</b>", "add_ws switched off later")
    add("flip", flip)
    for th in sorted(int_thresholds(("htmltools/_core.py", "htmltools/_util.py"))):
        if th > 60:
            continue
        for kind in ("It", "T", "Vi", "IB"):
            def f(env, th=th, kind=kind):
                ns = [KINDS[kind](env, str(i)) for i in range(th + 2)]
                n = el("em", *ns, ws=False)
                check_ws(m(build(n), "get_html_string"), [n], f"{th + 2} children")
                n = el("div", *ns, el("p"))
                check_ws(m(build(n), "get_html_string"), [n], f"{th + 2} children")
            add(f"size/{th}/{kind}", f)

        def deep(env, th=th):
            n = inline_tree(env, 0)
            for i in range(th + 2):
                n = el("i", n, tx("y"), ws=False)
            check_same(m(build(n), "get_html_string"), spec_flat(n), f"{th + 2} inline levels")
            x = n
            for i in range(th + 2):
                n = el("div", n, tx("y"))
            check_flat(m(build(n), "get_html_string"), x, f"{th + 2} block levels around an inline subtree")
        add(f"size/{th}/depth", deep)

        def wide(env, th=th):
            n = el("b", tx(T.concat("x" * (th + 1), env.sym("t", excl=PLAIN))), el("i", tx("y" * (th + 1)), ws=False), ws=False,
                   attrs=[("k", "v" * (th + 1))])
            check_same(m(build(n), "get_html_string"), spec_flat(n), f"text longer than {th}")
            check_flat(m(build(el("div", n, el("p"))), "get_html_string"), n, f"text longer than {th}")
        add(f"size/{th}/wide", wide)
    for gn, gf in mined.generic():
        def f(env, gf=gf):
            n = gf(env)
            check_ws(m(build(n), "get_html_string"), [n], "element with any name and attribute")
            ns = [tx("z"), n, el("b", ws=False), n]
            check_ws(m(taglist(ns), "get_html_string", T.Lin("k"), env.sym("eol", only=" \n\r\t")), ns, "element with any name and attribute among siblings")
        add(f"generic/{gn}", f)
    for (a, b), sh in itertools.product(mined.combos(), ("inline", "texts", "block")):
        def f(env, a=a, b=b, sh=sh):
            n, core = mined.grown(env, a, b, sh)
            r = m(build(n), "get_html_string")
            check_ws(r, [n], f"{a} levels, {b} children")
            if sh != "block":
                check_flat(r, core, f"{a} levels, {b} children")
        add(f"grown/{a}/{b}/{sh}", f)
    return out


PROP = Prop(
    "C05", "No whitespace is ever injected into inline content",
    "whitespace parts (literal, indentation, eol) of the abstract output may occur only in gaps adjacent to the tag of a whitespace-enabled element; "
    "inline subtrees must equal the exact concatenation of their pieces and occur contiguously",
    [("htmltools", "Tag.get_html_string"), ("htmltools", "TagList.get_html_string")], scenarios,
    bounds="sibling sequences up to 2 over 12 kinds and 3 over 5 (thorough: 3 and 4), nesting up to 5, indent and eol opaque, sizes past every integer constant of the source",
)
