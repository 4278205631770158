"""C13: serialised dependencies round-trip through HTML text."""
import itertools
import json

from .. import engine as E
from .. import lib
from .. import mined
from .. import stream
from .. import terms as T
from ..api import Bad, g, m, mod
from ..base import Prop, Scenario, int_thresholds
from ..engine import Raised, call, getattr_, getitem, mkdict, mklist, setattr_, str_
from ..model import N, build, check_same, el, htm, meta, need_str, preload, tx, user
from ..oracle import path_diff, struct
from ..terms import Str, Unsupported
from .c12 import merged, strip_prefix

OPEN = '<script type="application/json" data-html-dependency="">'
CLOSE = "</script>"
HOSTILE = ["", " ", "a", '"', "\\", "\\\\", "\\\"", "'", "\n", "\r\n", "\r", "\t", "\x00", "\x1f", "\x7f", "\x85", "\u2028", "\u2029", "é", "日本", "\U0001f600", "</script>", "</SCRIPT>", "</ScRiPt >", "</script", "</scr", "</", "<", "/", ">", "<\\/script>", "<\\/", "\\/", "</\\", "<//script>", "<</script>", "<</", "</</script",
           "<!--", "-->", "<!--<script>", "]]>", "&lt;/script&gt;", "&amp;", "\\u003c/script>", "\\n", "\\1", "\\g<0>", "$1", "%s", "{}", "{", "}", "[", "null", "true", "0", OPEN, OPEN + "{}" + CLOSE, "x" * 300, "</ſcript>", "</scrıpt>", "</\nscript", "</ script>", "\\u", "\\", "a\\", '","name":"z', "'\"`", "*/", "//", "\x0b\x0c", "\u00a0", "İ"]


def D(items):
    return mkdict(list(items.items()) if isinstance(items, dict) else items)


def tag(name, *a, **k):
    return call(g("Tag"), [name, *a], list(k.items()))


def dep(name="nm", version="1.0", **k):
    for n in ("script", "stylesheet", "meta"):
        if n in k:
            k[n] = mklist([D(x) for x in k[n]])
    if k.get("source") is not None:
        k["source"] = D(k["source"])
    return call(g("HTMLDependency"), [name, version], list(k.items()))


def ser(d, **kw):
    t = m(d, "serialize_to_script_json", **kw)
    return need_str(m(t, "get_html_string"), "serialize_to_script_json()")


# ------------------------------------------------------------------ the element
def check_element(html, what):
    """starts as a script element, ends with its only end tag"""
    html = merged(T._resolve_parts(T.parts_of(html)))
    loc = next((p[2] for p in html.parts if p[2]), None)
    ps = html.parts
    if not ps or ps[0][0] != "L" or not ps[0][1].startswith("<script") or ">" not in ps[0][1] or ps[-1][0] != "L" or not ps[-1][1].endswith(CLOSE):
        raise Bad(f"{what}: the serialised form {T.show(html)[:120]} is not one <script> element", loc)
    c = T.const(html)
    if c is not None:
        body = c[c.index(">") + 1: -len(CLOSE)]
        i = body.lower().find("</script")
        if i >= 0:
            raise Bad(f"{what}: {body[i:i + 9]!r} occurs inside the serialised element", loc)
        return
    head = ps[0][1][: ps[0][1].index(">") + 1]
    body = list(ps)
    body[0] = ("L", ps[0][1][len(head):], ps[0][2])
    body[-1] = ("L", body[-1][1][: -len(CLOSE)], ps[-1][2])
    body = [p for p in body if p[0] != "L" or p[1]]
    for i, p in enumerate(body):
        if p[0] == "L":
            if "</script" in p[1].lower():
                raise Bad(f"{what}: an end tag occurs inside the serialised element", p[2] or loc)
            continue
        if not any(T.part_may(p, x) for x in "<"):
            continue
        stages, inner = stream.chain(p)
        if inner[0] != "O" or inner[1][0] != "json":
            raise Unsupported("serialised form is not JSON text")
        opaque = [chr(i) for i in range(32)] + ['"', "\\"]
        w = stream.occurs(stages, "</script", True, forbid=opaque + [c for s in stages for c in s.chars if not c.isascii()])
        if w is not None:
            raise Bad(f"{what}: a field containing {w!r} puts an end tag inside the serialised element", loc or p[2])
        if stream.occurs(stages, "</script", True) is not None:
            raise Unsupported("end tag may appear in the serialised form")
    for a, b in zip(body, body[1:]):
        if a[0] == "L" and a[1][-1] in "</" or b[0] == "L" and b[1][0] in "/sS":
            raise Unsupported("end tag across JSON text boundaries")


# ------------------------------------------------------------------ recovery
FIELDS = ("source", "script", "stylesheet", "meta")


def check_equal(got, want, what):
    if not isinstance(got, E.Inst) or not got.cls.issub(g("HTMLDependency")):
        raise Bad(f"{what}: recovered object is a {E.type_of(got).name}")
    for f in ("name", "version"):
        a, b = getattr_(got, f), getattr_(want, f)
        if not T.is_s(a) and f == "name":
            raise Bad(f"{what}: name is a {E.type_of(a).name}")
        if E.type_of(a) is not E.type_of(b) or not T.eq(str_(a), str_(b)):
            raise Bad(f"{what}: {f} {T.show(lib.S(str_(b)))} is recovered as {T.show(lib.S(str_(a)))}", T.CUR_LOC[0])
    for f in FIELDS:
        a, b = getattr_(got, f), getattr_(want, f)
        if type_name(a) != type_name(b) or not E.truth(E.eq_(a, b)):
            raise Bad(f"{what}: {f} is not recovered as it was ({show(b)} became {show(a)})", T.CUR_LOC[0])
    if getattr_(got, "all_files") is not getattr_(want, "all_files"):
        raise Bad(f"{what}: all_files is not recovered")
    a, b = getattr_(got, "head"), getattr_(want, "head")
    if (a is None) != (b is None):
        raise Bad(f"{what}: head {show(b)} is recovered as {show(a)}")
    if b is not None:
        check_same(m(call(g("TagList"), [a]), "get_html_string"), m(call(g("TagList"), [b]), "get_html_string"), f"{what}: markup of the recovered head")
    elif not E.truth(E.eq_(got, want)) or not E.truth(E.eq_(want, got)):
        raise Bad(f"{what}: the recovered dependency does not compare equal")


def type_name(v):
    if isinstance(v, E.Inst) and isinstance(v.data, list):
        return (E.type_of(v).name, *[type_name(x) for x in v.data])
    if isinstance(v, E.Inst) and isinstance(v.data, E.DictData):
        return (E.type_of(v).name, *sorted(repr(type_name(x)) for _, x in v.data.items()))
    return E.type_of(v).name


def show(v):
    try:
        return T.show(lib.S(E.repr_(v)))[:90]
    except Exception:
        return E.type_of(v).name


def markup(deps, **kw):
    """listing and dependency tags"""
    if not deps:
        return ""
    txt = []
    for i, d in enumerate(deps):
        txt += ([";"] if i else []) + [getattr_(d, "name"), "[", str_(getattr_(d, "version")), "]"]
    t = call(g("TagList"), [tag("script", T.concat(*txt), type="application/html-dependencies"), *[m(d, "as_html_tags", **kw) for d in deps]])
    return m(t, "get_html_string")


def check_text(text, given, found, before, after, what, place="<!--HERE-->", extra=None, rest=0, **kw):
    """HTMLTextDocument(text): `found` are recovered in order after `given`; the text is
    before + markup + after (rest: whitespace allowed after that many trailing scripts)"""
    args = [("deps", mklist(given)), ("deps_replace_pattern", place)] if given is not None else [("deps_replace_pattern", place)]
    doc = call(g("HTMLTextDocument"), [text], args)
    for again in (0, 1):
        r = m(doc, "render", **kw)
        got = E.tolist(getitem(r, "dependencies"))
        want = list(given or []) + found
        if len(got) != len(want):
            raise Bad(f"{what}: {len(got)} dependencies are returned, expected {len(want)}")
        for i, (x, y) in enumerate(zip(got, want)):
            check_equal(x, y, f"{what}, dependency {i}")
        mk = markup(got, **kw)
        html = need_str(getitem(r, "html"), what)
        if before is None:
            check_same(html, after, what)
        else:
            check_same(html, T.concat(before, mk, after), what)
    return r


def scenarios(tier):
    preload()
    out = []
    names = set()

    def add(n, f, **k):
        if n not in names:
            names.add(n)
            out.append(Scenario(n, f, **k))

    P1, P2 = '<html><head><!--HERE--></head><body>a<script>if (a</b>/) "\\1"</script>', '\n<script type="application/json">{"a":1}</script> &amp; \\g<0> $&</body></html>'

    def roundtrip(env, d, what, **kw):
        s = ser(d, **kw)
        check_element(s, what)
        b, a = P1.split("<!--HERE-->")
        check_text(T.concat(P1, s, P2), None, [d], b, T.concat(a, P2), what)

    FIELD = {
        "name": lambda s: dep(name=s), "subdir": lambda s: dep(source={"subdir": s}), "package": lambda s: dep(source={"package": "p", "subdir": s}), "href": lambda s: dep(source={"href": s}), "src": lambda s: dep(source={"href": "u"}, script=[{"src": s}]),
        "script-attr": lambda s: dep(script=[{"src": "a", "integrity": s}, {"src": "b", "type": s}]), "script-key": lambda s: dep(script=[{"src": "a", s or "x": "v"}]), "css": lambda s: dep(stylesheet=[{"href": s, "media": s}]), "css-rel": lambda s: dep(stylesheet=[{"href": "x", "rel": s}]),
        "meta": lambda s: dep(meta=[{"name": s, "content": s}]), "meta-extra": lambda s: dep(meta=[{"name": "n", "content": "c", "charset": s}]), "head-text": lambda s: dep(head=tag("title", s)), "head-attr": lambda s: dep(head=tag("base", href=s)), "head-str": lambda s: dep(head=s), "head-html": lambda s: dep(head=call(g("HTML"), [s])),
        "head-script": lambda s: dep(head=tag("script", s)), "head-list": lambda s: dep(head=call(g("TagList"), [tag("link"), s, tag("style", s)])), "all": lambda s: dep(name=s, source={"subdir": s, "package": s}, script=[{"src": s}], stylesheet=[{"href": s}], meta=[{"name": s, "content": s}], head=tag("script", s)),
    }
    for fn, f in FIELD.items():
        for i in range(0, len(HOSTILE), 16):
            def h(env, f=f, fn=fn, chunk=HOSTILE[i:i + 16]):
                for s in chunk:
                    roundtrip(env, f(s), f"dependency whose {fn} is {s!r}"[:90])
            add(f"field/{fn}/{i}", h)

        def sym(env, f=f, fn=fn):
            if fn == "script-key":
                return
            roundtrip(env, f(env.sym("s")), f"dependency with arbitrary {fn}")
            roundtrip(env, f(T.concat("</", env.sym("s"))), f"dependency with arbitrary {fn} after '</'")
        add(f"field/{fn}/any", sym, max_paths=6000)
    for kind in ("None", "0", "2", "4", "tab"):
        def ind(env, kind=kind):
            v = {"None": None, "0": 0, "2": 2, "4": 4, "tab": "\t"}[kind]
            for fn, f in FIELD.items():
                roundtrip(env, f("</Script>\n\"\\é"), f"indent={v!r}, hostile {fn}", indent=v)
            roundtrip(env, dep(source={"package": None, "subdir": "s"}, script=[{"src": "a"}, {"src": "b", "async": ""}], stylesheet=[{"href": "c"}], meta=[{"name": "n", "content": "c"}], all_files=True, head=tag("p", "x", tag("i"))), f"indent={v!r}, all fields", indent=v)
            roundtrip(env, dep(name=env.sym("n"), source={"href": env.sym("h")}, script=[{"src": env.sym("s")}], head=call(g("HTML"), [env.sym("hd")])), f"indent={v!r}, arbitrary fields", indent=v)
        add(f"indent/{kind}", ind)

    def plain(env, src):
        if True:
            for al in (False, True):
                for sc, cs, me in itertools.product(range(3), range(3), range(2)):
                    d = dep(source=dict(src) if src else None, all_files=al, script=[{"src": f"{i}.js", "defer": ""} for i in range(sc)], stylesheet=[{"href": f"{i}.css"} for i in range(cs)], meta=[{"name": "n", "content": f"{i}"} for i in range(me)])
                    roundtrip(env, d, f"dependency with source {src}, {sc} scripts, {cs} stylesheets, {me} metas, all_files={al}")
    for i, src in enumerate((None, {"subdir": "s"}, {"subdir": ""}, {"package": "p", "subdir": "s"}, {"package": None, "subdir": "s"}, {"href": "u"}, {"href": "u", "subdir": "s"})):
        add(f"plain/{i}", lambda env, src=src: plain(env, src))

    def versions(env):
        for v in ("1", "1.0", "1.10.0", "0", "01.2-RC1", "1!2.0", "1.0+Local.7", " v1.2.post3.dev4 "):
            roundtrip(env, dep(version=v), f"version {v!r}")
        Version = E.import_module("packaging.version").ns["Version"]
        roundtrip(env, dep(version=call(Version, ["1.2-alpha3"])), "version given as a Version")
        lib.VERSION_RANKS["ver"] = lib.parse_version("1")
        roundtrip(env, dep(version=env.sym("ver", only="0123456789.", nonempty=True)), "arbitrary version")
    add("versions", versions)

    def heads(env):
        for i, h in enumerate((None, "", "<b>x</b>", call(g("TagList"), []), tag("title", "t"), call(g("TagList"), [tag("script", "a<b"), "x & y", call(g("HTML"), ["<i>"]), tag("p", tag("b", "c", _add_ws=False), "d"), None]), mklist([tag("link", rel="x"), "t"]), 3, user("Meta"), tag("div", call(g("HTML"), ["<r>"])))):
            roundtrip(env, dep(head=h), f"head number {i}")
    add("heads", heads)

    def values(env):
        """attribute values that are not strings"""
        for v in (True, False, None, 0, 3, -1, 1.5):
            roundtrip(env, dep(script=[{"src": "a", "async": v}], meta=[{"name": "n", "content": "c", "x": v}]), f"item value {v!r}")
    add("values", values)

    # ---- several copies in one text
    def texts(env, seq, sep, sym=False):
        ds = {"A": dep("a", "1", script=[{"src": "</x>.js"}], head=tag("title", "T")), "a": dep("a", "1", script=[{"src": "</x>.js"}], head=tag("title", "T")), "B": dep("b", "2", stylesheet=[{"href": env.sym("css") if sym else "é.css"}]), "C": dep("a", "1.1", script=[{"src": "<!--HERE-->"}]), "D": dep("d", meta=[{"name": "n", "content": "<!--HERE-->"}], head="<!--HERE-->")}
        idx = {"A": "A", "a": "A"}
        segs_, found, seen = [], [], set()
        txt = []
        for i, k in enumerate(seq):
            ind = 2 if k == "i" else None
            kk = "A" if k == "i" else k
            s = ser(ds[kk], indent=ind)
            check_element(s, "serialised dependency")
            txt.append(s)
            key = (idx.get(kk, kk), ind)
            if key not in seen:
                seen.add(key)
                found.append(ds[kk])
        pre = "<head><!--HERE--></head><body>"
        seps = sep(len(seq) + 1)
        full, left = [pre], [pre]
        for i, x in enumerate(seps):
            full.append(x)
            left.append(x)
            if i < len(txt):
                full.append(txt[i])
        b, a = "<head>", T.concat("</head><body>", *seps)
        check_text(T.concat(*full), None, found, b, a, f"serialised dependencies {seq!r} in one text")
        check_text(T.concat(*full), [ds["B"]], found, b, a, f"serialised dependencies {seq!r} in one text, after a given one")
    SEPS = {"none": lambda n: [""] * n, "nl": lambda n: ["\n"] * n, "text": lambda n: [f"t{i} <p>\\{i} &amp;</p>\r\n" for i in range(n)], "script": lambda n: ["<script>x</script>"] * n, "json": lambda n: ['<script type="application/json">{}</script>'] * n, "brace": lambda n: ["}<\\/script>{"] * n}
    for n in range(0, 4):
        for seq in itertools.product("AaBi", repeat=n):
            for sn in (SEPS if n <= 2 else ("none", "text")):
                add(f"texts/{''.join(seq)}/{sn}", lambda env, seq=seq, sn=sn: texts(env, seq, SEPS[sn]))
    for seq in ("CC", "AC", "CA", "DB", "CDC", "ABCDABCDi", "AAAAA", "BABAB", "DCBA"):
        for sn in SEPS:
            add(f"texts/{seq}/{sn}", lambda env, seq=seq, sn=sn: texts(env, seq, SEPS[sn]))
    for seq in ("B", "AB", "BB", "BA", "BAB"):
        add(f"texts/{seq}/symbolic", lambda env, seq=seq: texts(env, seq, lambda n: [env.sym(f"w{i}", excl="<") for i in range(n)], True))

    # ---- distinct serialisations of equal and of nearly equal dependencies
    VAR = {
        "bare": lambda: dep("a", "1"), "other-version": lambda: dep("a", "1.0"), "other-name": lambda: dep("A", "1"), "all": lambda: dep("a", "1", all_files=True), "head": lambda: dep("a", "1", head="h"), "head2": lambda: dep("a", "1", head="H"), "head-nl": lambda: dep("a", "1", head="h\n"), "head-empty": lambda: dep("a", "1", head=""),
        "src": lambda: dep("a", "1", source={"subdir": "s"}), "href": lambda: dep("a", "1", source={"href": "s"}), "script": lambda: dep("a", "1", script=[{"src": "x"}]), "script-attr": lambda: dep("a", "1", script=[{"src": "x", "k": "v"}]), "script-order": lambda: dep("a", "1", script=[{"k": "v", "src": "x"}]),
        "two": lambda: dep("a", "1", script=[{"src": "x"}, {"src": "y"}]), "two-rev": lambda: dep("a", "1", script=[{"src": "y"}, {"src": "x"}]), "css": lambda: dep("a", "1", stylesheet=[{"href": "x"}]), "meta": lambda: dep("a", "1", meta=[{"name": "x", "content": "y"}]), "space": lambda: dep("a ", "1"), "esc": lambda: dep("a", "1", head="\\u0068"),
    }
    IND = (None, 0, 1, 2, "\t", " ")

    def copies(env, vn, on):
        """once per distinct serialisation, in order of appearance"""
        d = VAR[vn]()
        S = [(d, ser(d, indent=i) if i is not None else ser(d)) for i in IND]
        o = VAR[on]()
        if True:
            for seq in ((S[0], (o, ser(o)), S[0]), (S[1], (o, ser(o, indent=1)), S[0], S[1]), (*S, *reversed(S), (o, ser(o)))):
                found, seen, text = [], set(), []
                for x, t in seq:
                    text += [t, "-"]
                    c = T.norm(t)
                    if c not in seen:
                        seen.add(c)
                        found.append(x)
                check_text(T.concat("@", *text), None, found, "", "-" * len(seq), f"serialisations of {vn} and {on} with several indents", place="@")
                check_text(T.concat(*text, "@"), [o], found, "-" * len(seq), "", f"serialisations of {vn} and {on} with several indents after a given dependency", place="@")
    for i, vn in enumerate(VAR):
        for j, on in enumerate(VAR):
            if tier != "quick" or abs(i - j) <= 1 or i == 0:
                add(f"copies/{vn}/{on}", lambda env, vn=vn, on=on: copies(env, vn, on))

    def open_items(env, field, first, ind):
        """items with an entry of any other name and value"""
        req = {"script": ["src"], "stylesheet": ["href"], "meta": ["name", "content"]}[field]
        k = mined.key(env, "ik", [*req, "src", "href", "rel"])
        pr = [(r, "v") for r in req]
        ex = [(k, env.sym("iv"))]
        d = dep(**{field: [ex + pr if first else pr + ex, [(r, "w") for r in req]]})
        roundtrip(env, d, f"{field} item with an entry of any name", indent=ind)
    for field, first, ind in itertools.product(("script", "stylesheet", "meta"), (True, False), (None, 2)):
        add(f"open-items/{field}/{first}/{ind}", lambda env, a=(field, first, ind): open_items(env, *a))

    def open_head(env, gf):
        """head content of any element"""
        d = dep("h", "1", head=call(g("TagList"), [build(gf(env)), "x"]))
        roundtrip(env, d, "dependency whose head is any element")
    for gn, gf in mined.generic(("any",), (True,)):
        add(f"open-head/{gn}", lambda env, gf=gf: open_head(env, gf))

    def nested_el(env):
        """a serialised element among other markup rendered by the package"""
        A, B = dep("a", "1", script=[{"src": "x"}]), dep("b", "1", head="<b></b>")
        for make in (lambda s: tag("div", "t", s, tag("p")), lambda s: tag("div", tag("p", s), s), lambda s: tag("span", s, "u", _add_ws=False), lambda s: call(g("TagList"), ["x", s, tag("ul", tag("li", s))])):
            t = str_(make(m(A, "serialize_to_script_json")))
            plain = str_(make(call(g("HTML"), [ser(A)])))
            doc = call(g("HTMLTextDocument"), [T.concat("[[", t)], [("deps_replace_pattern", "[["), ("deps", mklist([B]))])
            got = E.tolist(getitem(m(doc, "render"), "dependencies"))
            if len(got) != 2:
                raise Bad(f"serialised element nested in markup: {len(got)} dependencies returned")
            check_equal(got[1], A, "serialised element nested in markup")
    add("nested-element", nested_el)

    # ---- placeholder
    MARK = ["<!--HERE-->", "<meta data-foo=\"\">", "X", "a.*b", "\\1", "$&", "(", "[x]", "\n", "é", "{}", "%s", "<script", "</head>", " ", "AA"]

    def placeholder(env, mk):
        A = dep("a", "1", script=[{"src": "\\1.js", "integrity": "\\g<0> $& {0} %s"}], head=tag("style", f"{mk} \\n \\\\ x"))
        for ds in ([A], [A, dep("b", "2")], []):
            for pos in range(0, 5):
                for n in range(0, 4):
                    segs_ = ["s0,", "s1;", "s2/", "s3!"][: n + 1]
                    if any(mk in x for x in segs_) or mk in "s0,s1;s2/s3!":
                        continue
                    s = [f"~{'z' * pos}"] + segs_
                    text = s[0] + mk.join(segs_)
                    given = ds
                    what = f"placeholder {mk!r} {n} times, {len(ds)} dependencies"
                    if n == 0:
                        check_text(text, given, [], None, text, what, place=mk)
                    else:
                        i = text.index(mk)
                        check_text(text, given, [], text[:i], text[i + len(mk):], what, place=mk)
    for i, mk in enumerate(MARK):
        add(f"placeholder/{i}", lambda env, mk=mk: placeholder(env, mk))

    def placeholder_sym(env, lead, trail):
        A = dep("a", "1", script=[{"src": "x.js"}])
        p = T.concat(*[x for x in (lead, env.sym("p", nonempty=True, excl="@<"), trail) if x])
        w = [env.sym(f"w{i}", only="@") for i in range(3)]
        for segs_ in (["@", "@"], ["", "@@"], ["@@", ""], ["@", "@@", "@"], ["", "", ""]):
            text = T.concat(*[x for i, s in enumerate(segs_) for x in ([p] if i else []) + [s]])
            after = T.concat(*[x for i, s in enumerate(segs_[1:]) for x in ([p] if i else []) + [s]])
            check_text(text, [A], [], segs_[0], after, "arbitrary placeholder", place=p)
    for i, (a, b) in enumerate((("", ""), ("<meta ", ">"), ("<!--", "-->"), ("<script>", "</script>"), ("\\", ""))):
        add(f"placeholder/any/{i}", lambda env, a=a, b=b: placeholder_sym(env, a, b))

    def text_sym(env):
        """arbitrary text around the placeholder and around the serialised copies"""
        A, B = dep("a", "1", script=[{"src": "x.js"}]), dep("b", "2", head="<b></b>")
        t = [env.sym(f"t{i}", excl="<") for i in range(4)]
        for o, (k, f) in enumerate(((["H", "A"], [A]), (["A", "H"], [A]), (["A", "H", "B"], [A, B]), (["H", "H", "A"], [A]), (["A", "A", "H"], [A]))):
            S = {"A": ser(A), "B": ser(B), "H": "<H>"}
            text = [t[0]]
            plain = [t[0]]
            for i, x in enumerate(k):
                text += [S[x], t[i + 1]]
                plain += (["<H>"] if x == "H" else []) + [t[i + 1]]
            i = plain.index("<H>")
            check_text(T.concat(*text), None, f, T.concat(*plain[:i]), T.concat(*plain[i + 1:]), f"arbitrary text around {k}", place="<H>")
    add("text/any", text_sym)

    GAPS = ["", "\n", "\n\n", "\r\n", "\r\n\r\n", " ", "  ", "\t", "\n    ", "\xa0", "x", "<br>", "</script>", "<script>", "<!-- -->", ",", ";", "\\", "0", "\n<", "\n\n\n\n", "{}", "]"]

    def gaps(env, i):
        """the text next to a serialised copy stays as it is"""
        A, B = dep("a", "1", script=[{"src": "x.js"}]), dep("b", "2", head="<b></b>")
        x = GAPS[i]
        for y in GAPS:
            check_text(T.concat("<H>", x, ser(A), y, ser(B), x), None, [A, B], "", T.concat(x, y, x), f"{x!r} and {y!r} around two dependencies", place="<H>")
            check_text(T.concat("p", x, ser(A), y, "<H>", x, ser(A), y), None, [A], T.concat("p", x, y), T.concat(x, y), f"{x!r} and {y!r} around two copies", place="<H>")
    for i in range(len(GAPS)):
        add(f"text/gaps/{i}", lambda env, i=i: gaps(env, i))

    def render_args(env):
        A = dep("a", "1.2", source={"subdir": "s"}, script=[{"src": "x y.js"}], stylesheet=[{"href": "c.css"}], meta=[{"name": "n", "content": "c"}], head=tag("title", "t"))
        U = dep("u", "3", source={"href": "https://x"}, script=[{"src": "x.js"}])
        for kw in ({}, {"lib_prefix": None}, {"lib_prefix": "p/q"}, {"include_version": False}, {"lib_prefix": "", "include_version": False}):
            check_text(T.concat("<!--HERE-->", ser(U), "."), [A], [U], "", ".", f"render({kw})", **kw)
            check_text(T.concat("<!--HERE-->", ser(A), ser(U), "."), None, [A, U], "", ".", f"render({kw})", **kw)
    add("render-args", render_args)

    def as_document(env):
        """the markup is what HTMLDocument puts in <head>"""
        cases = ([dep("a", "1.2", source={"subdir": "s"}, script=[{"src": "x y.js"}, {"src": "z.js"}], stylesheet=[{"href": "c.css"}], meta=[{"name": "n", "content": "c"}], head=tag("title", "t"))], [dep("a", head="<b></b>"), dep("b", "2", source={"href": "u"}, script=[{"src": "q"}])], [dep("z")], [])
        for ds in cases:
            for kw in ({}, {"lib_prefix": None, "include_version": False}):
                doc = getitem(m(call(g("HTMLDocument"), ["body text", *ds]), "render", **kw), "html")
                txt = call(g("HTMLTextDocument"), ["<head>@</head>"], [("deps", mklist(ds)), ("deps_replace_pattern", "@")])
                got = getitem(m(txt, "render", **kw), "html")
                a, b = T.const(doc), T.const(got)
                if a is None or b is None:
                    raise Unsupported("opaque document")
                lines = [x.strip() for x in a.split("<head>")[1].split("</head>")[0].split("\n") if x.strip()]
                mine = [x.strip() for x in b.split("<head>")[1].split("</head>")[0].split("\n") if x.strip()]
                if lines[1:] != mine:
                    raise Bad(f"HTMLDocument puts {lines[1:]} in <head>, HTMLTextDocument {mine}")
    add("as-document", as_document)

    # ---- JSON mode
    DS = {
        "none": lambda: [], "one": lambda: [dep("a", "1", source={"subdir": "s"}, script=[{"src": "x.js"}])], "two": lambda: [dep("a", "1", script=[{"src": "</SCRIPT>"}]), dep("b", "2", head=tag("script", "a</x"))], "same": lambda: [dep("a", "1"), dep("a", "1")],
        "newer": lambda: [dep("a", "1.9"), dep("b"), dep("a", "1.10", script=[{"src": "n.js"}])], "three": lambda: [dep(f"n{i}", f"{i}", meta=[{"name": "n", "content": f"{i}"}]) for i in range(3)], "head": lambda: [call(g("head_content"), [tag("title", "t")])],
    }
    SHAPE = {
        "tag": lambda ds: tag("div", "t", *ds, tag("p", "x")), "nested": lambda ds: tag("div", *[tag("p", d, "t") for d in ds]), "list": lambda ds: call(g("TagList"), ["t", *ds, tag("p")]), "only": lambda ds: call(g("TagList"), ds), "inline": lambda ds: tag("span", *ds, "t", _add_ws=False), "text": lambda ds: call(g("TagList"), [*ds, "a & b"]),
        "tagified": lambda ds: tag("div", user("Expand", call(g("TagList"), ["x", *ds]))),
    }

    def json_mode(env, dn, sn, sym=False):
        ds = DS[dn]()
        x = SHAPE[sn](ds + ([env.sym("txt", excl="<>&@")] if sym else []))
        direct = m(x, "render")
        html = getitem(direct, "html")
        want = E.tolist(getitem(direct, "dependencies"))
        before = struct(x)
        plain = str_(x)
        check_same(plain, html, f"str() of {sn} outside JSON mode")
        setattr_(mod("htmltools"), "html_dependency_render_mode", "json")
        try:
            s = need_str(str_(x), "str() in JSON mode")
        finally:
            setattr_(mod("htmltools"), "html_dependency_render_mode", "invisible")
        what = f"{sn} with dependencies {dn} rendered in JSON mode"
        for pre, post in (("<head>@</head><body>", "</body>"), ("<body>", "</body>@"), ("@", "")):
            doc = call(g("HTMLTextDocument"), [T.concat(pre, s, post)], [("deps_replace_pattern", "@")])
            r = m(doc, "render")
            got = E.tolist(getitem(r, "dependencies"))
            if len(got) != len(want):
                raise Bad(f"{what}: {len(got)} dependencies are recovered, render() reports {len(want)}")
            for a, b in zip(got, want):
                check_equal(a, b, what)
            res = getitem(r, "html")
            mk = markup(want)
            head = T.concat(pre.replace("@", "\0")) if False else None
            i = pre.find("@")
            start = T.concat(pre[:i], mk, pre[i + 1:], html) if i >= 0 else T.concat(pre, html)
            j = post.find("@")
            end = T.concat(post[:j], mk, post[j + 1:]) if j >= 0 else post
            rest = strip_prefix(res, start)
            if rest is None:
                raise Bad(f"{what} and post-processed: the text is {T.show(res)[:200]}, expected it to start with {T.show(start)[:200]}", next((p[2] for p in T.parts_of(res) if p[2]), None))
            c, e = T.const(rest), T.const(end)
            if c is None or e is None:
                raise Unsupported("opaque tail")
            if not c.endswith(e) or c[: len(c) - len(e)].strip():
                raise Bad(f"{what} and post-processed: {c[:80]!r} remains after the content")
        if struct(x) != before:
            raise Bad(f"{what}: the object changes: {path_diff(before, struct(x))}")
        check_same(str_(x), plain, f"str() of {sn} after JSON mode is switched off")
    for dn in DS:
        for sn in SHAPE:
            add(f"json-mode/{dn}/{sn}", lambda env, dn=dn, sn=sn: json_mode(env, dn, sn))
    for sn in ("tag", "list", "inline"):
        add(f"json-mode/two/{sn}/symbolic", lambda env, sn=sn: json_mode(env, "two", sn, True))

    def many(env, th):
        for n in (th, th + 1):
            d = dep("big", script=[{"src": f"{i}</script>.js", **{f"k{j}": "v" for j in range(3)}} for i in range(n)], stylesheet=[{"href": f"{i}"} for i in range(n)], meta=[{"name": "n", "content": f"{i}"} for i in range(n)], head=tag("div", *[tag("p", "t") for _ in range(n)]))
            roundtrip(env, d, f"dependency with {n} items of each kind")
            ds = [dep(f"n{i}", f"{i}.1") for i in range(n)]
            text = T.concat("<!--HERE-->", *[ser(x) for x in ds], *[ser(x) for x in reversed(ds)])
            check_text(text, None, ds, "", "", f"{n} dependencies, each twice")
            check_text(T.concat("@" * n, ser(ds[0])), None, ds[:1], "", "@" * (n - 1), f"{n} placeholders", place="@")
            check_text(T.concat("x" * n, "@", "y" * n), ds, [], "x" * n, "y" * n, f"text of length {n}", place="@")
            roundtrip(env, dep("x" * n, script=[{"src": "</" * n}], head="</script>" * n), f"strings of length {n}")
            roundtrip(env, dep(head="<" * n + "/script>"), f"{n} angle brackets")
    for th in sorted({4} | {t for t in int_thresholds(("htmltools/_core.py", "htmltools/_util.py")) if t <= 40}):
        add(f"many/{th}", lambda env, th=th: many(env, th))

    def long_text(env):
        """sizes beyond any small buffer"""
        for n in (1000, 5000):
            d = dep("nm", script=[{"src": "s" * n}], head="h" * n)
            roundtrip(env, d, f"dependency of {n} characters")
            check_text(T.concat("t" * n, "@", "u" * n, ser(d), "v" * n), None, [d], "t" * n, "u" * n + "v" * n, f"text of {n} characters", place="@")
    add("long", long_text)
    return out


PROP = Prop(
    "C13", "Serialised dependencies round-trip through HTML text",
    "the serialised element's body, as a term over arbitrary field strings, is put through the exact transducer of the neutralising replacements: '</script' (any case) is unreachable; the extraction returns the denoted structure field by field, and the remaining text and inserted markup equal the specified terms",
    [("htmltools", "HTMLDependency.serialize_to_script_json"), ("htmltools", "HTMLTextDocument.render"), ("htmltools", "HTMLTextDocument._static_extract_serialized_html_deps"), ("htmltools._core", "_render_tag_or_taglist")], scenarios,
    assumptions=["text around the serialised copies contains no opening tag of a serialised dependency itself", "in JSON mode whitespace may remain where several scripts were appended"],
    bounds="18 fields x (arbitrary string + 71 hostile strings), 5 indents, sequences of up to 9 copies, 16 placeholders + an arbitrary one, 7 content shapes x 7 dependency sets in JSON mode",
)
