"""C12: dependency URLs and copied files agree."""
import itertools
import urllib.parse

from .. import engine as E
from .. import fs
from .. import lib
from .. import mined
from .. import terms as T
from ..api import Bad, g, m
from ..base import Prop, Scenario, int_thresholds
from ..engine import Raised, call, getattr_, getitem, mkdict, mklist
from ..fs import EFFECTS, LISTING, PRESET, canon, pjoin, segs, under
from ..model import need_str, preload, tokenize
from ..terms import Str

ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-"
SAFE = set("/~!$&'()*+,;=:@")  # characters a path may carry unencoded
HARD = ["a.js", "a b.js", "50%.js", "100%25.js", "a#b.js", "q?x=1.js", "é.js", "d/e.js", "d e/f%/ü#.js", "a+b.js", "a&b.js", "it's.js", 'q"x.js', "a;b,c.js", "~x.js", "x:y.js", "%41.js",
        "日本.js", "a=b@c.js", "deep/er/and/deeper/x.js", ".hidden.js", "a\\b.js", "<x>.js", "a&amp;b.js", "-.js", "UPPER.JS", "noext", "a..b", "%2F.js", "x.js%00"]


def D(items):
    return mkdict(list(items.items()))


def tag(name, *a, **k):
    return call(g("Tag"), [name, *a], list(k.items()))


class Dep:
    """specification of a dependency; src: ('dir', d) ('pkg', p, d) ('url', h) None"""

    def __init__(self, name, version="1.0", src=("dir", "src"), script=(), css=(), all_files=False, head=None, meta=None):
        self.name, self.version, self.src, self.script, self.css, self.all = name, version, src, list(script), list(css), all_files
        s = src
        self.o = call(g("HTMLDependency"), [name, version], [
            ("source", None if s is None else D({"subdir": s[1]}) if s[0] == "dir" else D({"package": s[1], "subdir": s[2]}) if s[0] == "pkg" else D({"href": s[1]})),
            ("script", mklist([D({"src": x}) for x in self.script])), ("stylesheet", mklist([D({"href": x}) for x in self.css])), ("all_files", all_files), ("head", head), ("meta", meta)])

    local = property(lambda s: s.src is not None and s.src[0] != "url")

    @property
    def srcdir(self):
        if self.src[0] == "dir":
            return self.src[1]
        return pjoin(T.op("pkgdir", lib.S(self.src[1])), self.src[2])

    def file(self, p):
        return pjoin(self.srcdir, p)

    def dirname(self, incl):
        return T.concat(self.name, "-", self.version) if incl else self.name

    def base(self, prefix, incl):
        if self.src is None:
            return ""
        if self.src[0] == "url":
            return self.src[1]
        return pjoin(prefix, self.dirname(incl)) if prefix else self.dirname(incl)

    def exists(self, *missing):
        """every listed file exists in the source directory, apart from the given ones"""
        PRESET[segs(self.srcdir)] = "dir"
        for p in self.script + self.css:
            PRESET[segs(self.file(p))] = "file"
        for p in missing:
            PRESET[segs(self.file(p))] = "missing"
        return self


# ------------------------------------------------------------------ URLs
def dequote(v, what, loc=None):
    """percent-decode an abstract URL path; every undecodable or unescaped construct is reported"""
    out = []
    for p in merged(T._resolve_parts(T.parts_of(v))).parts:
        if p[0] == "L":
            out.append(("L", urllib.parse.unquote(p[1]), p[2]))
        elif p[0] == "O" and p[1][0] == "quote":
            sf = set(p[1][1][1])
            if not sf <= SAFE or "/" not in sf:
                raise Bad(f"{what}: path is quoted leaving {sorted(sf)} unencoded", p[2] or loc)
            out.extend(T.parts_of(p[1][1][0]))
        elif p[0] == "O" and p[1][0] == "pkgdir" or T.op_only(p) is not None and "%" not in T.op_only(p):
            out.append(p)
        elif p[0] == "A" and p[1][0].only is not None and "%" not in p[1][0].only:
            out.append(p)
        else:
            raise Bad(f"{what}: text {T.show(Str([p]))} reaches the URL without percent-encoding", p[2] or loc)
    return Str(out)


def literal_ok(v, what, loc=None):
    for p in T._resolve_parts(T.parts_of(v)):
        if p[0] == "L":
            t = p[1]
            bad = [c for c in t if not (c.isalnum() and c.isascii() or c in "_.-%" or c in SAFE)]
            if bad:
                raise Bad(f"{what}: URL contains unencoded {bad}", p[2] or loc)


def merged(parts):
    out = []
    for p in parts:
        if p[0] == "L" and out and out[-1][0] == "L":
            out[-1] = ("L", out[-1][1] + p[1], out[-1][2])
        else:
            out.append(p)
    return Str(out)


def strip_prefix(v, pre):
    """v without the leading term pre, or None"""
    def units(x):
        return [u for p in T._resolve_parts(T.parts_of(x)) for u in ([("L", c, p[2]) for c in p[1]] if p[0] == "L" else [p])]
    a, b = units(v), units(pre)
    if len(a) < len(b) or any(T.norm(Str([x])) != T.norm(Str([y])) for x, y in zip(a, b)):
        return None
    return merged(a[len(b):])


def check_url(got, base, path, what, url_source=False):
    got = need_str(got, what)
    loc = next((p[2] for p in T.parts_of(got)), None)
    if T.norm(lib.S(base)):
        pre = pjoin(base, "")
        rest = strip_prefix(got, pre)
        if rest is None:
            exp = T.concat(pre, T.op("quote", lib.S(path), "/"))
            raise Bad(f"{what}: URL is {T.show(got)}, expected {T.show(exp)}", loc)
    else:
        rest = got
    if url_source and T.norm(rest) == T.norm(lib.S(path)):
        return
    literal_ok(rest, what, loc)
    if T.norm(dequote(rest, what, loc)) != T.norm(lib.S(path)):
        raise Bad(f"{what}: URL path {T.show(rest)} decodes to {T.show(dequote(rest, what, loc))}, the file is {T.show(path)}", loc)


def check_dict(d, prefix, incl, what, kw=None):
    kw = {"lib_prefix": prefix, "include_version": incl} if kw is None else kw
    r = m(d.o, "as_dict", **kw)
    for key, at, want in (("script", "src", d.script), ("stylesheet", "href", d.css)):
        items = E.tolist(getitem(r, key))
        if len(items) != len(want):
            raise Bad(f"{what}: as_dict() lists {len(items)} {key} items for {len(want)}")
        for it, w in zip(items, want):
            if d.src is not None:
                check_url(getitem(it, at), d.base(prefix, incl), w, f"{what}, as_dict()['{key}']", d.src[0] == "url")
    return r


# ------------------------------------------------------------------ files
class World:
    """contents of the file system after the recorded effects"""

    def __init__(self, effects=None):
        self.files, self.trees = {}, []
        self.text = {}
        for e in EFFECTS if effects is None else effects:
            k = e[0]
            if k in ("rmtree", "unlink", "rmdir"):
                self.drop(segs(e[1]))
            elif k == "copy":
                self.files[segs(e[2])] = (self.source(segs(e[1])), e[-1])
            elif k == "copytree":
                self.trees.append((segs(e[2]), segs(e[1]), e[-1]))
            elif k == "move":
                raise Bad("a source file is moved, not copied", e[-1])
            elif k == "open" and e[2][0] in "wx":
                self.files.pop(segs(e[1]), None)
                self.text[segs(e[1])] = ("", e[-1])
            elif k == "write":
                t = segs(e[1])
                if isinstance(e[2], E.BytesV):
                    raw = T._resolve_parts(T.parts_of(e[2].term)) if hasattr(e[2], "term") else ()
                    if len(raw) == 1 and raw[0][0] == "O" and raw[0][1][0] == "content":
                        self.files[t] = (self.source(segs(raw[0][1][1][0])), e[-1])
                        continue
                self.text[t] = (T.concat(self.text[t][0], e[2]) if t in self.text and T.is_s(e[2]) else e[2], e[-1])

    def source(self, k):
        """copying a copy"""
        f = self.find(k)
        return f[0] if f else k

    def drop(self, k):
        for d in (self.files, self.text):
            for f in [f for f in d if f == k or under(f, k)]:
                del d[f]
        self.trees = [t for t in self.trees if t[0] != k and not under(t[0], k)]

    def find(self, k):
        if k in self.files:
            return self.files[k]
        for dst, src, loc in reversed(self.trees):
            if under(k, dst):
                return (src + k[len(dst):], loc)
        if k in self.text:
            return (("text",), self.text[k][1])
        return None


def path_text(k):
    return "/".join(T.show(Str([("L", b[1], None) if b[0] == "L" else ("A", (b[1] if not isinstance(b[1], str) else T.Atom(b[1]), None), None) if False else ("L", _b(b), None) for b in s])) if s != ("/",) else "" for s in k)


def _b(b):
    return str(b[1])


def check_copied(w, target, source, what):
    f = w.find(segs(target))
    if f is None:
        have = ", ".join(sorted(path_text(k) for k in w.files)[:6]) or "nothing"
        raise Bad(f"{what}: no file is copied to {T.show(canon(target))} (copied: {have})", next((e[-1] for e in reversed(EFFECTS) if e[0] in ("copy", "copytree", "mkdir", "write")), None))
    if f[0] != segs(source):
        raise Bad(f"{what}: the file at {T.show(canon(target))} is a copy of {path_text(f[0])}, not of {T.show(canon(source))}", f[1])


def entries(d, rel=""):
    out = []
    for seg, kind in LISTING.get(segs(d), ()):
        r = T.concat(rel, "/", seg) if rel != "" else seg
        if kind == "dir":
            out += entries(pjoin(d, seg), r)
        else:
            out.append(r)
    return out


def list_dir(d, spec):
    """declare the contents of a directory: {segment: None | {…}}"""
    PRESET[segs(d)] = "dir"
    LISTING[segs(d)] = [(s, "file" if v is None else "dir") for s, v in spec]
    for s, v in spec:
        p = pjoin(d, s)
        PRESET[segs(p)] = "file" if v is None else "dir"
        if v is not None:
            list_dir(p, v)


def stale_in(target):
    """pre-existing destination: a directory with old contents at several depths"""
    PRESET[segs(target)] = "dir"
    for s in ("stale.js", "d", "old"):
        PRESET[segs(pjoin(target, s))] = "dir" if s in ("d", "old") else "file"
    for s in ("d/stale.js", "old/stale.js"):
        PRESET[segs(pjoin(target, s))] = "file"


def check_fresh(target, what):
    for s in ("stale.js", "d/stale.js", "old/stale.js"):
        p = pjoin(target, s)
        if fs.lookup(p) != "missing":
            raise Bad(f"{what}: stale contents of {T.show(canon(target))} survive ({s})", next((e[-1] for e in reversed(EFFECTS) if e[0] in ("copy", "copytree", "mkdir")), None))


def check_target(d, target, what, w=None):
    """the target directory holds exactly what the property asks for"""
    w = w or World()
    if d.all:
        for r in entries(d.srcdir):
            check_copied(w, pjoin(target, r), pjoin(d.srcdir, r), what)
    else:
        for p in d.script + d.css:
            check_copied(w, pjoin(target, p), d.file(p), what)
    check_fresh(target, what)


def effects_on(target):
    k = segs(target)
    out = []
    for e in EFFECTS:
        for p in e[1:3] if e[0] in ("copy", "copytree", "move") else e[1:2]:
            s = segs(p)
            if s == k or under(s, k) or (e[0] in ("rmtree", "unlink", "rmdir", "move") and under(k, s)):
                out.append(e)
    return out


def check_nothing(effects, what):
    if effects:
        e = effects[0]
        raise Bad(f"{what}: {e[0]} of {T.show(canon(e[1]))}", e[-1])


# ------------------------------------------------------------------ save_html
def urls_of(html, what):
    out = []
    for t in tokenize(html):
        if t[0] == "start" and T.const(t[1]) in ("script", "link"):
            for a, v, loc in t[2]:
                if T.const(a) in ("src", "href"):
                    out.append((T.const(t[1]), v, loc))
    return out


def check_saved(obj, file, deps, libdir, incl, what, kw=None):
    """deps: the resolved dependencies, in order"""
    kw = {"libdir": libdir, "include_version": incl} if kw is None else kw
    n0 = len(EFFECTS)
    r = m(obj, "save_html", file, **kw)
    if not T.is_s(r) or segs(r) != segs(file):
        raise Bad(f"{what}: save_html() returns {T.show(r) if T.is_s(r) else E.type_of(r).name}, the file is {T.show(lib.S(file))}")
    w = World()
    if segs(r) not in w.text or not T.is_s(w.text[segs(r)][0]):
        raise Bad(f"{what}: save_html() returns {T.show(r)} but writes {[path_text(k) for k in w.text]}")
    html, _ = w.text[segs(r)]
    fdir = fs.dirname(canon(file))
    destdir = pjoin(fdir or ".", libdir) if libdir else (fdir or ".")
    got = urls_of(html, what)
    want = [("link" if c else "script", d, p) for d in deps for c, p in [(True, p) for p in d.css] + [(False, p) for p in d.script]]
    if len(got) != len(want):
        raise Bad(f"{what}: the file has {len(got)} script and stylesheet URLs, the dependencies have {len(want)}")
    for (k, u, loc), (k2, d, p) in zip(got, want):
        if k != k2:
            raise Bad(f"{what}: <{k}> where <{k2}> was expected", loc)
        if d.src is not None:
            check_url(u, d.base(libdir, incl), p, what, d.src[0] == "url")
        if d.local:
            check_copied(w, pjoin(fdir or ".", dequote(u, what, loc)), d.file(p), what)
    for d in deps:
        if d.local:
            check_target(d, pjoin(destdir, d.dirname(incl)), what, w)
    roots = [segs(pjoin(destdir, d.dirname(incl))) for d in deps if d.local]
    for e in EFFECTS[n0:]:
        if e[0] in ("copy", "copytree"):
            k = segs(e[2])
            if not any(k == r or under(k, r) for r in roots):
                raise Bad(f"{what}: copies {T.show(canon(e[1]))} to {T.show(canon(e[2]))}, outside every dependency's directory", e[-1])
    return html


def scenarios(tier):
    preload()
    out = []
    names = set()

    def add(n, f, **k):
        if n not in names:
            names.add(n)
            out.append(Scenario(n, f, **k))

    def rel(env, n):
        s = env.sym(n, nonempty=True)
        if isinstance(s, Str):
            for p in s.parts:
                fs.relative_fact(p[1][0].name)
        return s

    PREFIX = ("lib", None, "", "a/b", "x/", "/abs", "https://cdn.org/l", ".", "../up", "%20")
    SRC = {"dir": ("dir", "src"), "abs": ("dir", "/opt/s p"), "nested": ("dir", "a/b/../c"), "slash": ("dir", "src/"), "dot": ("dir", "."), "empty": ("dir", ""), "pkg": ("pkg", "pk", "sub"), "pkg-nested": ("pkg", "pk.q", "sub/dir"), "pkg-empty": ("pkg", "pk", ""), "pkg-none": ("pkg", None, "sub"),
           "url": ("url", "https://x.org/y"), "url-slash": ("url", "https://x.org/y/"), "url-root": ("url", "/"), "url-rel": ("url", "r/s"), "url-q": ("url", "https://x.org/a%20b"), "none": None}

    def mk(sn, *a, **k):
        s = SRC[sn]
        if sn == "pkg-none":
            d = Dep(*a, src=("dir", "sub"), **k)
            m(getattr_(d.o, "source"), "update", D({"package": None}))
            return d
        return Dep(*a, src=s, **k)

    # ---- URLs
    for sn in SRC:
        for incl in (True, False):
            def f(env, sn=sn, incl=incl):
                for prefix in PREFIX:
                    d = mk(sn, "nm", "1.2", script=[rel(env, "p"), "x.js"], css=[rel(env, "q"), T.concat("css/", rel(env, "p"))])
                    check_dict(d, prefix, incl, f"source {sn}, lib_prefix={prefix!r}, include_version={incl}")
                    check_dict(d, prefix, incl, f"source {sn}, lib_prefix={prefix!r}, include_version={incl}, second call")
            add(f"url/{sn}/{incl}", f)
    for i in range(0, len(HARD), 6):
        def f(env, fs_=HARD[i:i + 6]):
            for sn in ("dir", "pkg", "url", "url-slash"):
                for prefix, incl in (("lib", True), (None, False), ("a/b", False), ("", True)):
                    d = mk(sn, "nm", "1.2", script=fs_, css=list(reversed(fs_)))
                    check_dict(d, prefix, incl, f"file names {fs_}, source {sn}, lib_prefix={prefix!r}, include_version={incl}")
        add(f"url-names/{i}", f)

    def url_defaults(env):
        d = Dep("nm", "1.2", script=[rel(env, "p")], css=["a b.css"])
        check_dict(d, "lib", True, "default arguments", {})
        check_dict(d, "z", True, "lib_prefix only", {"lib_prefix": "z"})
        check_dict(d, "lib", False, "include_version only", {"include_version": False})
        for kw, pr, inc in (({}, "lib", True), ({"lib_prefix": None}, None, True), ({"lib_prefix": "q", "include_version": False}, "q", False)):
            r = m(d.o, "source_path_map", **kw)
            h = getitem(r, "href")
            if T.norm(h) != T.norm(d.base(pr, inc)):
                raise Bad(f"source_path_map({kw}): href is {T.show(h)}")
            if segs(getitem(r, "source")) != segs(d.srcdir):
                raise Bad(f"source_path_map({kw}): source is {T.show(getitem(r, 'source'))}")
    add("url/defaults", url_defaults)

    VERS = ("0", "0.0", "0.0.0", "0.0.1", "1.0", "1.0.0", "10", "2024.1", "1!0", "1!2.3", "0.dev1", "1.0a1", "1.0rc2", "1.0.post1", "1.0.dev3", "1.0+l", "0+l.2", "1.2.3.4.5.6", "99999999999")

    def url_versions(env):
        for ver in VERS:
            for sn in ("dir", "pkg", "url"):
                for prefix in ("lib", None):
                    for incl in (True, False):
                        check_dict(mk(sn, "nm", ver, script=["x.js"], css=["y.css"]), prefix, incl, f"version {ver}, source {sn}, lib_prefix={prefix!r}, include_version={incl}")
    add("url/versions", url_versions)

    def url_symbolic(env):
        """name, version and prefix are arbitrary URL-safe strings"""
        lib.VERSION_RANKS["ver"] = lib.parse_version("1")
        nm, ver, pre = env.sym("nm", only=ALNUM, nonempty=True), env.sym("ver", only="0123456789.", nonempty=True), env.sym("pre", only=ALNUM, nonempty=True)
        for incl in (True, False):
            for prefix in (pre, None, T.concat(pre, "/", pre), T.concat(pre, "/")):
                d = Dep(nm, ver, script=[rel(env, "p"), T.concat(rel(env, "p"), "/", rel(env, "q"))], css=[rel(env, "q")])
                check_dict(d, prefix, incl, f"arbitrary name, version and prefix, include_version={incl}")
        d = Dep(nm, ver, src=("url", env.sym("href", nonempty=True)), script=[rel(env, "p")], css=[rel(env, "q")])
        for incl in (True, False):
            check_dict(d, pre, incl, "arbitrary URL source")
    add("url/symbolic", url_symbolic)

    def url_tags(env):
        """as_html_tags() carries the same URLs"""
        for sn in SRC:
            for prefix, incl in (("lib", True), (None, False), ("a/b", True)):
                d = mk(sn, "nm", "1.2", script=[rel(env, "p"), "a b.js"], css=[rel(env, "q"), "c#.css"])
                if d.src is None:
                    continue
                ts = E.tolist(m(d.o, "as_html_tags", lib_prefix=prefix, include_version=incl))
                got = [(T.const(getattr_(t, "name")), t) for t in ts]
                if [n for n, _ in got] != ["link"] * 2 + ["script"] * 2:
                    raise Bad(f"as_html_tags() gives {[n for n, _ in got]}")
                for (n, t), p in zip(got, d.css + d.script):
                    check_url(getitem(getattr_(t, "attrs"), "href" if n == "link" else "src"), d.base(prefix, incl), p, f"as_html_tags(), source {sn}", d.src[0] == "url")
    add("url/tags", url_tags)

    # ---- copy_to
    FILES = {"one": (["a.js"], []), "css": ([], ["c.css"]), "both": (["a.js"], ["c.css"]), "nested": (["d/a.js", "d/e/b.js", "f/a.js"], ["d/c.css", "g/h/i.css"]), "same": (["a.js", "a.js"], ["a.js"]), "names": (HARD[:12], HARD[12:20]), "none": ([], []),
             "samebase": (["x/a.js", "y/a.js"], ["z/a.js"]), "prefixes": (["a", "a.js", "ab/c"], ["abc"])}
    DEST = {"missing": "missing", "stale": "dir", "unknown": None}

    def copy_to(env, sn, fn, dn, incl, default=False):
        js, css = FILES[fn]
        d = mk(sn, "nm", "1.2", script=js, css=css).exists()
        target = pjoin("out/dir", d.dirname(incl))
        if dn == "missing":
            PRESET[segs(target)] = "missing"
        elif dn == "stale":
            stale_in(target)
        PRESET[segs("out")] = PRESET[segs("out/dir")] = "dir" if dn == "stale" else PRESET.get(segs("out"), "dir")
        what = f"copy_to(), source {sn}, files {fn}, target {dn}, include_version={incl}"
        m(d.o, "copy_to", "out/dir") if default else m(d.o, "copy_to", "out/dir", include_version=incl)
        check_target(d, target, what)
        for e in EFFECTS:
            if e[0] in ("rmtree", "unlink", "copy", "copytree", "open", "write", "mkdir"):
                k = segs(e[2] if e[0].startswith("copy") else e[1])
                if e[0] != "mkdir" and not (k == segs(target) or under(k, segs(target))):
                    raise Bad(f"{what}: {e[0]} of {T.show(canon(e[1]))}, outside the target directory", e[-1])
    for sn in ("dir", "abs", "nested", "slash", "dot", "empty", "pkg", "pkg-nested", "pkg-empty", "pkg-none"):
        for fn in FILES:
            if sn not in ("dir", "pkg") and fn not in ("both", "nested", "none"):
                continue
            for dn in ("missing", "stale"):
                for incl in (True, False):
                    add(f"copy/{sn}/{fn}/{dn}/{incl}", lambda env, a=(sn, fn, dn, incl): copy_to(env, *a))
    add("copy/default", lambda env: copy_to(env, "dir", "nested", "stale", True, True))

    def copy_sym(env, incl, base):
        """arbitrary file names and names"""
        lib.VERSION_RANKS["ver"] = lib.parse_version("1")
        nm, ver = env.sym("nm", only=ALNUM, nonempty=True), env.sym("ver", only="0123456789.", nonempty=True)
        f1 = env.sym("f1", excl="/", nonempty=True)
        d = Dep(nm, ver, src=base, script=[f1, T.concat("d/", f1)], css=["k.css", T.concat("css/e/", f1)]).exists()
        target = pjoin("out", d.dirname(incl))
        stale_in(target)
        PRESET[segs("out")] = "dir"
        m(d.o, "copy_to", "out", include_version=incl)
        check_target(d, target, "copy_to() with arbitrary names")
    for incl in (True, False):
        for base in (("dir", "s"), ("pkg", "p", "s")):
            add(f"copy/symbolic/{incl}/{base[0]}", lambda env, incl=incl, base=base: copy_sym(env, incl, base))

    TREE = {
        "flat": [("a.js", None), ("b.css", None), (".hidden", None), ("noext", None)], "deep": [("a.js", None), ("d", [("b.js", None), (".h", None), ("e", [("c.js", None)])]), ("z", [("q", None)])], "empty": [],
        "names": [(s.replace("/", "_"), None) for s in HARD[:16]] + [("d x%", [("é#.js", None)])], "dirs": [("d1", [("a", None)]), ("d2", [("a", None)]), (".git", [("c", None)])],
        "likely-ignored": [("x.map", None), ("README.md", None), ("__pycache__", [("m.pyc", None)]), ("~", None), ("x.tmp", None), ("node_modules", [("n.js", None)]), ("a.scss", None), ("d", [("x.map", None), (".DS_Store", None)]), ("LICENSE", None), ("font.woff2", None), ("img.svg", None), ("p.html", None), ("j.json", None), ("d.ts", None), ("x.py", None), ("x.txt", None)],
    }

    def all_files(env, sn, tn, dn, incl, listed=True):
        d = mk(sn, "nm", "1.2", script=["a.js"] if tn in ("flat", "deep") and listed else [], all_files=True)
        list_dir(d.srcdir, TREE[tn])
        target = pjoin("out/dir", d.dirname(incl))
        if dn == "missing":
            PRESET[segs(target)] = "missing"
        else:
            stale_in(target)
        PRESET[segs("out")] = PRESET[segs("out/dir")] = "dir"
        m(d.o, "copy_to", "out/dir", include_version=incl)
        check_target(d, target, f"copy_to() with all_files, source {sn}, tree {tn}, target {dn}, include_version={incl}")
    for sn in ("dir", "pkg", "slash", "abs"):
        for tn in TREE:
            for dn in ("missing", "stale"):
                for incl in (True, False):
                    add(f"all/{sn}/{tn}/{dn}/{incl}", lambda env, a=(sn, tn, dn, incl): all_files(env, *a))
                add(f"all/{sn}/{tn}/{dn}/unlisted", lambda env, a=(sn, tn, dn, True, False): all_files(env, *a))

    def all_sym(env):
        d = Dep("nm", "1", all_files=True)
        e1, e2 = env.sym("e1", excl="/", nonempty=True), env.sym("e2", excl="/", nonempty=True)
        list_dir(d.srcdir, [(e1, None), ("d", [(e2, None), ("e", [(e2, None)])])])
        target = pjoin("out", "nm-1")
        stale_in(target)
        PRESET[segs("out")] = "dir"
        m(d.o, "copy_to", "out")
        check_target(d, target, "copy_to() with all_files, arbitrary entry names")
    add("all/symbolic", all_sym)

    # ---- missing source files
    def missing(env, sn, fn, dn, incl, via):
        js, css = FILES[fn]
        for gone in sorted(set(js + css)):
            fs.reset()
            d = mk(sn, "nm", "1.2", script=js, css=css).exists(gone)
            dest = "out/dir" if via == "copy_to" else "out/dir/lib"
            target = pjoin(dest, d.dirname(incl))
            PRESET[segs("out")] = PRESET[segs("out/dir")] = "dir"
            if dn == "missing":
                PRESET[segs(target)] = "missing"
            else:
                stale_in(target)
            what = f"listed file {gone!r} missing, source {sn}, target {dn}, {via}"
            try:
                if via == "copy_to":
                    m(d.o, "copy_to", dest, include_version=incl)
                else:
                    obj = {"doc": lambda: call(g("HTMLDocument"), [d.o]), "tag": lambda: tag("div", d.o), "list": lambda: call(g("TagList"), [d.o])}[via]()
                    m(obj, "save_html", "out/dir/i.html", libdir="lib", include_version=incl)
            except Raised:
                pass
            else:
                raise Bad(f"{what}: no exception is raised", EFFECTS[-1][-1] if EFFECTS else None)
            check_nothing(effects_on(target), f"{what}: the target directory is touched")
            if dn == "stale" and (fs.lookup(pjoin(target, "stale.js")) != "file"):
                raise Bad(f"{what}: the target directory is altered")
    for sn in ("dir", "pkg"):
        for fn in ("one", "css", "both", "nested", "samebase", "prefixes"):
            for dn in ("missing", "stale"):
                for via in ("copy_to", "doc", "tag", "list"):
                    if sn == "pkg" and (fn != "both" or via != "copy_to"):
                        continue
                    for incl in (True, False) if via == "copy_to" else (True,):
                        add(f"missing/{sn}/{fn}/{dn}/{via}/{incl}", lambda env, a=(sn, fn, dn, incl, via): missing(env, *a))

    def missing_second(env):
        """a missing file of a later dependency: that one's target is untouched"""
        for order in (0, 1):
            for gone in ("b.js", "b.css"):
                fs.reset()
                a = Dep("a", "1", src=("dir", "sa"), script=["a.js"]).exists()
                b = Dep("b", "1", src=("dir", "sb"), script=["b.js"], css=["b.css"]).exists(gone)
                PRESET[segs("o")] = PRESET[segs("o/lib")] = "dir"
                stale_in("o/lib/a-1"), stale_in("o/lib/b-1")
                ds = [a.o, b.o] if order == 0 else [b.o, a.o]
                try:
                    m(tag("div", *ds), "save_html", "o/i.html")
                except Raised:
                    pass
                else:
                    raise Bad("two dependencies, one with a missing file: no exception is raised")
                check_nothing(effects_on("o/lib/b-1"), "dependency with a missing file: its target directory is touched")
    add("missing/second", missing_second)

    def missing_dir(env):
        """the whole source directory is missing"""
        for sn in ("dir", "pkg"):
            fs.reset()
            d = mk(sn, "nm", "1", script=["a.js"], css=["d/b.css"])
            PRESET[segs(d.srcdir)] = "missing"
            PRESET[segs("o")] = "dir"
            stale_in("o/nm-1")
            try:
                m(d.o, "copy_to", "o")
            except Raised:
                pass
            else:
                raise Bad("missing source directory: no exception is raised")
            check_nothing(effects_on("o/nm-1"), "missing source directory: the target directory is touched")
    add("missing/dir", missing_dir)

    # ---- nothing to copy
    def nothing(env, sn, allf):
        PRESET[segs("out")] = "dir"
        PRESET[segs("out/i.html")] = "missing"
        for name in ("nm", "src"):
            d = mk(sn, name, "1.2", script=["a.js", "d/b.js"], css=["c.css"], all_files=allf)
            for dest in ("out", ".", ""):
                for incl in (True, False):
                    m(d.o, "copy_to", dest, include_version=incl)
                    check_nothing(EFFECTS, f"copy_to() of a dependency with source {sn}")
        for obj in (call(g("HTMLDocument"), [d.o]), tag("div", d.o), call(g("TagList"), [d.o])):
            for libdir in ("lib", None):
                m(obj, "save_html", "out/i.html", libdir=libdir)
                check_nothing([e for e in EFFECTS if e[0] in ("copy", "copytree", "mkdir", "rmtree", "unlink") or segs(e[1]) != segs("out/i.html")], f"save_html() with a dependency of source {sn}")
    for sn in ("url", "url-slash", "url-root", "url-rel", "none"):
        for allf in (False, True):
            add(f"nothing/{sn}/{allf}", lambda env, a=(sn, allf): nothing(env, *a))

    # ---- save_html
    CALLER = {"doc": lambda *c: call(g("HTMLDocument"), list(c)), "tag": lambda *c: tag("div", *c), "list": lambda *c: call(g("TagList"), list(c)),
              "html": lambda *c: tag("html", tag("body", *c)), "body": lambda *c: tag("body", *c), "doc-html": lambda *c: call(g("HTMLDocument"), [tag("html", tag("head"), tag("body", *c))])}
    WHERE = {"cwd": "index.html", "dir": "out/p.html", "deep": "out/a b/p.html", "abs": "/w/x/p.html", "dot": "./p.html", "up": "../z/p.html"}

    def world(fdir, libdir, deps, incl, dest):
        d = fdir or "."
        for n in ("i.html", "j.html", "p.html", "index.html"):
            PRESET[segs(pjoin(d, n))] = "file" if dest == "stale" else "missing"
        PRESET[segs(d)] = "dir"
        if libdir:
            PRESET[segs(pjoin(d, libdir))] = "dir"
            ks = segs(pjoin(d, libdir))
            for i in range(len(segs(d)), len(ks)):
                PRESET[ks[:i]] = "dir"
        for x in deps:
            if x.local:
                t = pjoin(pjoin(d, libdir) if libdir else d, x.dirname(incl))
                if dest == "stale":
                    stale_in(t)
                else:
                    PRESET[segs(t)] = "missing"

    def depset(env, n):
        f1 = env.sym("f1", excl="/", nonempty=True)
        S = {
            "one": lambda: [Dep("nm", "1.2", script=["a.js"])],
            "hard": lambda: [Dep("nm", "1.2", script=["a b.js", "d/50%.js", "é.js"], css=["q?.css", "d/#.css"])],
            "sym": lambda: [Dep("nm", "1.2", src=("dir", "my src"), script=[f1, T.concat("d/", f1)], css=[T.concat("css x/", f1)])],
            "two": lambda: [Dep("b", "2", src=("dir", "sb"), script=["x.js"], css=["x.css"]), Dep("a", "1", src=("pkg", "pk", "sa"), script=["x.js", "d/x.js"])],
            "mixed": lambda: [Dep("u", "1", src=("url", "https://x/y"), script=["a b.js"]), Dep("nm", "1.2", script=["a.js"]), Dep("n", "3", src=None), Dep("v", "1", src=("url", "z/"), css=["c.css"]), Dep("k", "1", src=("pkg", "pk", "s"), css=["k.css"])],
            "pkgs": lambda: [Dep("a", "1", src=("pkg", "pa", "www"), script=["x.js"]), Dep("b", "1", src=("pkg", "pb", "www"), script=["x.js"]), Dep("c", "1", src=("pkg", "pa", "www2"), script=["x.js"])],
            "prefixnames": lambda: [Dep("a", "1", src=("dir", "s1"), script=["x.js"]), Dep("a-1", "1", src=("dir", "s2"), script=["x.js"]), Dep("ab", "1", src=("dir", "s3"), css=["x.js"])],
            "all": lambda: [Dep("nm", "1.2", script=["a.js"], css=["d/b.js"], all_files=True), Dep("o", "1", src=("dir", "s2"), script=["a.js"])],
            "headed": lambda: [Dep("nm", "1.2", script=["a.js"], head=tag("title", "t"), meta=D({"name": "n", "content": "c"}))],
            "zero": lambda: [Dep("nm", "0.0", script=["a.js"]), Dep("o", "0", src=("pkg", "pk", "s"), css=["c d.css"]), Dep("p", "0.dev0", src=("dir", "s3"), script=["x.js"])],
            "weird": lambda: [Dep("nm", "01.2.0-RC1+Local.7", script=["a.js"]), Dep("o", " v1!2.0.0.post4.dev3 ", src=("dir", "s2"), css=["a.css"])],
        }[n]()
        if n == "weird":
            S[0].version, S[1].version = "1.2.0rc1+local.7", "1!2.0.0.post4.dev3"
        return S

    def ready(ds):
        for d in ds:
            if d.all:
                list_dir(d.srcdir, TREE["deep"])
            elif d.local:
                d.exists()
        return ds

    def save(env, cn, wn, dn, libdir, incl, dest, kw=None):
        ds = ready(depset(env, dn))
        file = WHERE[wn]
        world(fs.dirname(file), libdir, ds, incl, dest)
        obj = CALLER[cn]("text", *[x for d in ds for x in (d.o, tag("p", "x"))])
        check_saved(obj, file, ds, libdir, incl, f"save_html() on {cn}, file {file!r}, dependencies {dn}, libdir={libdir!r}, include_version={incl}, target {dest}", kw)
    LIBDIR = ("lib", None, "", "a/b", "my-lib/")
    for cn in CALLER:
        for dn in ("hard", "two", "mixed", "all"):
            for libdir in LIBDIR[:4]:
                for incl in (True, False):
                    add(f"save/{cn}/{dn}/{libdir}/{incl}", lambda env, a=(cn, "dir", dn, libdir, incl, "stale"): save(env, *a))
    for wn in WHERE:
        for dn in ("one", "hard", "sym", "two", "mixed", "pkgs", "prefixnames", "all", "headed", "weird", "zero"):
            for libdir in LIBDIR:
                for incl in (True, False):
                    dest = "stale" if (len(dn) + len(str(libdir))) % 2 else "missing"
                    add(f"where/{wn}/{dn}/{libdir}/{incl}", lambda env, a=("doc", wn, dn, libdir, incl, dest): save(env, *a))
    FORMS = ("./x", "x/./y", "x/../y", "../up", ".", "./", "a b", "l.d", ".hid", "x//y", "lib2", "LIB", "static/js/", "é", "nm-1.2")
    for libdir, dn, wn in itertools.product(FORMS, ("one", "two", "all"), ("dir", "cwd", "up", "abs")):
        for incl in (True, False):
            if libdir in ("a b", "é"):
                continue  # a prefix that needs URL encoding is outside (see DESIGN)
            add(f"libdir/{libdir}/{dn}/{wn}/{incl}", lambda env, a=("tag" if incl else "doc", wn, dn, libdir, incl, "stale"): save(env, *a))

    def save_open(env, dn, cn, incl, form):
        """any libdir, any directory of the output file"""
        lib_, dir_ = env.sym("libd", only=ALNUM, nonempty=True), env.sym("odir", excl="/", nonempty=True)
        libdir = {"one": lib_, "nested": T.concat(lib_, "/", env.sym("lib2", only=ALNUM, nonempty=True)), "slash": T.concat(lib_, "/"), "dot": T.concat("./", lib_), "up": T.concat("../", lib_), "under": T.concat("w/", lib_)}[form]
        ds = ready(depset(env, dn))
        for file in (T.concat(dir_, "/i.html"), "i.html", T.concat("/", dir_, "/", dir_, "/i.html"), T.concat("q/", env.sym("fnm", excl="/", nonempty=True))):
            fs.EFFECTS.clear(), fs.STATE.clear(), fs.FRESH.clear()
            fdir = fs.dirname(canon(file))
            world(fdir, libdir, ds, incl, "stale")
            PRESET[segs(file)] = "missing"
            obj = CALLER[cn]("text", *[d.o for d in ds])
            check_saved(obj, file, ds, libdir, incl, f"save_html() on {cn}, any libdir ({form}) and output location, dependencies {dn}, include_version={incl}")
    for dn, cn, incl, form in itertools.product(("two", "all", "mixed"), ("doc", "tag"), (True, False), ("one", "nested", "slash", "dot", "up", "under")):
        add(f"save-open/{dn}/{cn}/{incl}/{form}", lambda env, a=(dn, cn, incl, form): save_open(env, *a), max_paths=3000)

    def items_open(env, sn, first):
        """items with an entry of any other name: same URL, same file"""
        for at, kind in (("src", "script"), ("href", "stylesheet")):
            k = mined.key(env, "ik", ["src", "href", "rel"])
            pr = [(at, "d/a b.js"), (k, env.sym("iv"))]
            d = mk(sn, "nm", "1.2")
            it = lambda: mkdict(list(reversed(pr)) if first else pr)
            s = SRC[sn]
            d.o = call(g("HTMLDependency"), ["nm", "1.2"], [("source", getattr_(d.o, "source")), (kind, mklist([it(), mkdict([(at, "z.js")])]))])
            if kind == "script":
                d.script = ["d/a b.js", "z.js"]
            else:
                d.css = ["d/a b.js", "z.js"]
            for prefix, incl in (("lib", True), (None, False)):
                check_dict(d, prefix, incl, f"items with an entry of any name, source {sn}")
            if d.local:
                d.exists()
                world("out", "lib", [d], True, "stale")
                check_saved(tag("div", d.o), "out/i.html", [d], "lib", True, f"items with an entry of any name, source {sn}")
    for sn, first in itertools.product(("dir", "pkg", "url", "slash"), (False, True)):
        add(f"items-open/{sn}/{first}", lambda env, a=(sn, first): items_open(env, *a))

    def src_open(env, kind):
        """any source directory, package and URL"""
        a, b = env.sym("sd", excl="/", nonempty=True), env.sym("pk", only=ALNUM, nonempty=True)
        src = {"dir": ("dir", a), "dir2": ("dir", T.concat("x/", a)), "abs": ("dir", T.concat("/", a, "/y")), "pkg": ("pkg", b, T.concat(a, "/y")), "pkg1": ("pkg", b, a)}[kind]
        for allf in (False, True):
            fs.reset()
            d = Dep("nm", "1.2", src=src, script=["a.js", "d/b c.js"], css=["e.css"], all_files=allf)
            if allf:
                list_dir(d.srcdir, [("a.js", None), ("d", [("b c.js", None)]), ("e.css", None), (".x", None)])
            else:
                d.exists()
            world("out", "lib", [d], True, "stale")
            check_dict(d, "lib", True, f"any source {kind}")
            check_saved(tag("div", d.o), "out/i.html", [d], "lib", True, f"any source {kind}, all_files={allf}")
    for kind in ("dir", "dir2", "abs", "pkg", "pkg1"):
        add(f"src-open/{kind}", lambda env, kind=kind: src_open(env, kind))
    for cn in CALLER:
        for kw, ld, inc in (({}, "lib", True), ({"libdir": None}, None, True), ({"include_version": False}, "lib", False), ({"libdir": "q/r"}, "q/r", True)):
            add(f"defaults/{cn}/{sorted(kw)}", lambda env, a=(cn, "dir", "two", ld, inc, "stale", kw): save(env, *a))

    def again(env):
        """saving twice, elsewhere and with other settings, and after other uses of the same objects"""
        ds = ready(depset(env, "two"))
        obj = tag("div", *[d.o for d in ds])
        doc = call(g("HTMLDocument"), [obj])
        for file, libdir, incl, how in (("o1/i.html", "lib", True, "tag"), ("o2/i.html", None, False, "doc"), ("o1/j.html", "lib", True, "doc"), ("o1/i.html", "x/y", False, "tag"), ("o1/i.html", "lib", True, "tag")):
            for d in ds:
                check_dict(d, libdir, incl, "before save_html()")
                m(d.o, "as_html_tags")
            m(doc, "render")
            n0 = len(EFFECTS)
            if not any(e[0] == "write" and segs(fs.dirname(canon(e[1]))) == segs(fs.dirname(file)) for e in EFFECTS):
                PRESET[segs(fs.dirname(file))] = "dir"
            world(fs.dirname(file), libdir, ds, incl, "stale")
            check_saved(obj if how == "tag" else doc, file, ds, libdir, incl, f"save_html({file!r}, libdir={libdir!r}, include_version={incl}) of an object used before")
    add("again", again)

    def resolved(env):
        """only the resolved version is linked and copied"""
        for vs in itertools.permutations(("1.9", "1.10", "1.2")):
            fs.reset()
            ds = [Dep("nm", v, src=("dir", f"s{v}"), script=[f"x{v}.js"]).exists() for v in vs]
            top = [d for d in ds if d.version == "1.10"]
            world("out", "lib", ds, True, "missing")
            check_saved(tag("div", *[d.o for d in ds]), "out/i.html", top, "lib", True, f"three versions {vs} of one dependency")
            for d in ds:
                if d not in top:
                    check_nothing(effects_on(pjoin("out/lib", d.dirname(True))), "a dependency that was not resolved is copied")
    add("resolved", resolved)

    def tagified(env):
        """a dependency produced by an expansion"""
        from ..model import user

        d = Dep("nm", "1", script=["a b.js"]).exists()
        world("out", "lib", [d], True, "stale")
        check_saved(tag("div", user("Expand", tag("p", d.o))), "out/i.html", [d], "lib", True, "dependency produced by tagify()")
    add("tagified", tagified)

    def many(env, th):
        for n in (th, th + 1):
            fs.reset()
            d = Dep("nm", "1", script=[f"s{i}.js" for i in range(n)], css=[f"d{i}/c.css" for i in range(n)]).exists()
            world("out", "lib", [d], True, "stale")
            check_saved(tag("div", d.o), "out/i.html", [d], "lib", True, f"dependency with {n} scripts and stylesheets")
            fs.reset()
            ds = [Dep(f"n{i}", f"1.{i}", src=("dir", f"s{i}"), script=["x.js"]).exists() for i in range(n)]
            world("out", "lib", ds, True, "stale")
            check_saved(tag("div", *[x.o for x in ds]), "out/i.html", ds, "lib", True, f"{n} dependencies")
            fs.reset()
            d = Dep("nm", "1", all_files=True)
            deep = [("leaf", None)]
            for i in range(n):
                deep = [(f"f{i}", None), (f"d{i}", deep)]
            list_dir(d.srcdir, [(f"e{i}", None) for i in range(n)] + deep)
            world("out", "lib", [d], True, "stale")
            check_saved(tag("div", d.o), "out/i.html", [d], "lib", True, f"all_files with {n} entries and {n} levels")
            fs.reset()
            p = "/".join(f"d{i}" for i in range(n)) + "/x.js"
            d = Dep("nm", "1", script=[p]).exists()
            world("out", "lib", [d], True, "stale")
            check_saved(tag("div", d.o), "out/i.html", [d], "lib", True, f"file nested {n} deep")
            d = Dep("nm", "1", script=["x" * n + ".js"])
            check_dict(d, "p" * n, True, f"file name of length {n}")
    for th in sorted({4} | {t for t in int_thresholds(("htmltools/_core.py", "htmltools/_util.py")) if t <= 40}):
        add(f"many/{th}", lambda env, th=th: many(env, th))
    return out


PROP = Prop(
    "C12", "Dependency URLs and copied files agree",
    "every URL term is prefix/name[-version]/quote(path); over the recorded file-system effects, the URL resolved and decoded names a file whose origin is source_dir/path, the target was emptied first, and no effect touches it when a listed file is missing",
    [("htmltools", "HTMLDependency.as_dict"), ("htmltools", "HTMLDependency.copy_to"), ("htmltools", "HTMLDocument.save_html"), ("htmltools._util", "package_dir")], scenarios,
    assumptions=["names, versions and prefixes contain no characters that need URL encoding", "listed paths are relative and do not leave the source directory", "no symbolic links inside source or destination"],
    bounds="16 kinds of source, 10 prefixes, 5 libdir forms, 6 output locations, 9 file-list families, 6 directory trees, arbitrary file names as symbols; sizes around source constants",
)
