"""File-system effect model: path terms, existence states, ordered effect log.

Paths are abstract strings.  A path's initial state (missing / file / directory)
is an uninterpreted three-way predicate decided lazily per trace partition;
every mutating operation appends to EFFECTS and updates the state map."""
from __future__ import annotations

import fnmatch

from . import engine as E
from . import lib
from . import terms as T
from .engine import (BUILTINS, ClassV, Inst, IterV, ModV, NATIVE_MODULES, NativeF, OBJECT, P, PropertyV, Str, Unk, Unsupported, call,
                     getattr_, mkdict, mklist, text_of, throw, tolist, truth)
from .lib import S, _mk, module, nat

EFFECTS = []  # (kind, detail..., loc)
STATE = {}  # segs -> 'missing' | 'file' | 'dir'
FRESH = set()  # directories whose whole contents are known (created / cleared here)
LISTING = {}  # segs of a source directory -> [(segment term, kind)]
PRESET = {}  # segs -> state


def reset():
    EFFECTS.clear()
    STATE.clear()
    FRESH.clear()
    LISTING.clear()
    PRESET.clear()


lib.RESETS.append(reset)


def effect(kind, *detail):
    EFFECTS.append((kind, *detail, T.CUR_LOC[0]))


# ------------------------------------------------------------------ path algebra
def relative_fact(term_atom):
    """declare: this atom is a relative path, neither starting nor ending with '/'"""
    P().generic[("edge", True, "/", term_atom)] = 0
    P().generic[("edge", False, "/", term_atom)] = 0


def pjoin(a, *bs):
    a = S(a) if not isinstance(a, Inst) else fspath(a)
    for b in bs:
        b = fspath(b)
        if T.startswith(b, "/"):
            a = b
        elif not T.nonempty(a) or T.endswith(a, "/"):
            a = T.concat(a, b) if T.norm(a) else b
        else:
            a = T.concat(a, "/", b)
    return a


def fspath(p):
    t = text_of(p)
    if t is not None:
        return t
    if isinstance(p, Inst) and p.cls.issub(PATH):
        return p.data[1]
    if isinstance(p, Inst):
        f = p.cls.lookup("__fspath__")
        if f is not None:
            return S(E.call_method(f, p))
    if isinstance(p, Unk):
        raise Unsupported(f"path from unmodelled {p.name}")
    throw("TypeError", f"expected str, bytes or os.PathLike object, not {E.type_of(p).name}")


WRAP = ("realpath", "abspath", "normpath")


def canon(p):
    """canonical term: realpath/abspath/normpath are identity-preserving"""
    out = []
    for q in T._resolve_parts(T.parts_of(p)):
        if q[0] == "O" and q[1][0] in WRAP:
            out.extend(T.parts_of(canon(q[1][1][0])) or T.parts_of("."))
        elif q[0] == "O" and q[1][0] == "dirname":
            out.extend(T.parts_of(dirname(canon(q[1][1][0]))) or T.parts_of("."))
        else:
            out.append(q)
    return Str(out)


def segs(p):
    """tuple of path segments (each a norm tuple) of the canonical path"""
    cur, out = [], []
    for q in canon(p).parts:
        if q[0] == "L":
            bits = q[1].split("/")
            for i, b in enumerate(bits):
                if i:
                    out.append(cur)
                    cur = []
                if b:
                    cur.append(("L", b, None))
        else:
            cur.append(q)
    out.append(cur)
    absolute = bool(out and not out[0] and len(out) > 1)
    r = []
    for s in out:
        n = T.norm(Str(s))
        if n in ((), (("L", "."),)):
            continue
        if n == (("L", ".."),) and r and r[-1] != n:
            r.pop()
            continue
        r.append(n)
    return (("/",),) * absolute + tuple(r)


def dirname(p):
    p = S(p)
    c = T.const(p)
    import posixpath

    if c is not None:
        return posixpath.dirname(c)
    ps = list(T._resolve_parts(p.parts))
    while ps:
        q = ps[-1]
        if q[0] == "L":
            i = q[1].rfind("/")
            if i >= 0:
                head = q[1][:i]
                r = Str(ps[:-1] + ([("L", head, q[2])] if head else []))
                if len(ps) == 1 and not head:
                    return "/"
                return r
            ps.pop()
            continue
        if q[0] == "O" and q[1][0] in WRAP and len(ps) == len(p.parts) == 1:
            d = dirname(q[1][1][0])
            dp = T.parts_of(d)
            if not (len(dp) == 1 and dp[0][0] == "O" and dp[0][1][0] == "dirname"):
                return T.op(q[1][0], d if dp else ".")  # no symbolic links on the way
        if T.part_may(q, "/"):
            return T.op("dirname", p)
        ps.pop()
    return ""


def basename(p):
    p = S(p)
    c = T.const(p)
    import posixpath

    if c is not None:
        return posixpath.basename(c)
    ps = list(T._resolve_parts(p.parts))
    got = []
    while ps:
        q = ps[-1]
        if q[0] == "L":
            i = q[1].rfind("/")
            if i >= 0:
                if q[1][i + 1:]:
                    got.insert(0, ("L", q[1][i + 1:], q[2]))
                return Str(got)
            got.insert(0, q)
            ps.pop()
            continue
        if T.part_may(q, "/"):
            return T.op("basename", p)
        got.insert(0, q)
        ps.pop()
    return Str(got)


def wrap(name):
    def f(p, *a, **k):
        t = fspath(p)
        ps = T.parts_of(t)
        if len(ps) == 1 and ps[0][0] == "O" and ps[0][1][0] in WRAP:
            return t
        return T.op(name, t)
    return f


# ------------------------------------------------------------------ states
def under(a, b):
    return len(a) > len(b) and a[: len(b)] == b


def lookup(p):
    k = segs(p)
    if k in STATE:
        return STATE[k]
    for d in FRESH:
        if under(k, d):
            return "missing"
    for i in range(1, len(k)):
        if STATE.get(k[:i]) in ("missing", "file") or PRESET.get(k[:i]) in ("missing", "file"):
            return "missing"
    if k in PRESET:
        return PRESET[k]
    if k == (("/",),) or k == ():
        return "dir"
    return ("missing", "file", "dir")[P().choose(("fs", k), 3)]


def exists(p):
    return lookup(fspath(p)) != "missing"


def isfile(p):
    return lookup(fspath(p)) == "file"


def isdir(p):
    return lookup(fspath(p)) == "dir"


def set_state(p, st, fresh=False):
    k = segs(p)
    for o in [o for o in STATE if under(o, k)]:
        if st != "dir" or fresh:
            del STATE[o]
    for o in [o for o in FRESH if under(o, k)]:
        if st != "dir" or fresh:
            FRESH.discard(o)
    STATE[k] = st
    if st == "dir" and not fresh:
        pass
    if fresh or st == "missing":
        FRESH.add(k)


def make_dir(p, parents=False, exist_ok=False):
    p = fspath(p)
    st = lookup(p)
    if st == "file" or (st == "dir" and not exist_ok):
        throw("FileExistsError", "File exists")
    if st == "dir":
        return
    k = segs(p)
    par = k[:-1]
    if parents:
        for i in range(1, len(k)):
            if STATE.get(k[:i], "?") != "dir":
                if STATE.get(k[:i]) == "missing":
                    FRESH.add(k[:i])
                STATE[k[:i]] = "dir"
    else:
        dp = dirname(canon(p))
        if T.norm(dp) and lookup(dp) != "dir":
            throw("FileNotFoundError", "No such file or directory")
    effect("mkdir", p)
    set_state(p, "dir", True)


def rmtree(p, ignore_errors=False, *a, **k):
    p = fspath(p)
    st = lookup(p)
    if st != "dir":
        if truth(ignore_errors):
            return
        throw("FileNotFoundError" if st == "missing" else "NotADirectoryError", "rmtree")
    effect("rmtree", p)
    set_state(p, "missing")


def unlink(p, missing_ok=False, **k):
    p = fspath(p)
    st = lookup(p)
    if st == "missing":
        if truth(missing_ok):
            return
        throw("FileNotFoundError", "unlink")
    if st == "dir":
        throw("IsADirectoryError", "unlink")
    effect("unlink", p)
    set_state(p, "missing")


def rmdir(p):
    p = fspath(p)
    if lookup(p) != "dir":
        throw("FileNotFoundError", "rmdir")
    effect("rmdir", p)
    set_state(p, "missing")


def need_parent(dst):
    dp = dirname(canon(dst))
    if T.norm(dp) and lookup(dp) != "dir":
        throw("FileNotFoundError", "No such file or directory")


def copyfile(how):
    def f(src, dst, *, follow_symlinks=True):
        src, dst = fspath(src), fspath(dst)
        st = lookup(src)
        if st == "missing":
            throw("FileNotFoundError", "No such file or directory")
        if st == "dir":
            throw("IsADirectoryError", "Is a directory")
        if how != "copyfile" and lookup(dst) == "dir":
            dst = pjoin(dst, basename(src))
        need_parent(dst)
        effect("copy", src, dst)
        set_state(dst, "file")
        return dst
    return f


def copytree(src, dst, symlinks=False, ignore=None, copy_function=None, ignore_dangling_symlinks=False, dirs_exist_ok=False):
    src, dst = fspath(src), fspath(dst)
    if lookup(src) != "dir":
        throw("NotADirectoryError" if lookup(src) == "file" else "FileNotFoundError", "copytree")
    st = lookup(dst)
    if st == "file" or (st == "dir" and not truth(dirs_exist_ok)):
        throw("FileExistsError", "copytree")
    if ignore is not None or copy_function is not None:
        # entry by entry, over the declared listing of the source
        def go(a, b):
            make_dir(b, True, True)
            ents = list(listing(a))
            drop = tolist(call(ignore, [a, mklist([s for s, _ in ents])])) if ignore is not None else []
            for s, kd in ents:
                if any(truth(E.eq_(x, s)) for x in drop):
                    continue
                if kd == "dir":
                    go(pjoin(a, s), pjoin(b, s))
                else:
                    call(copy_function if copy_function is not None else NativeF("copy2", copyfile("copy2")), [pjoin(a, s), pjoin(b, s)])
        go(src, dst)
        return dst
    effect("copytree", src, dst, st == "dir" and segs(dst) not in FRESH)
    make_dir(dst, True, True)
    k = segs(src)
    for sk, items in list(LISTING.items()):
        if sk == k or under(sk, k):
            for seg, kind in items:
                set_state(T.concat(dst, "/", seg) if sk == k else dst, kind if sk == k else "dir")
    return dst


def move(src, dst):
    src, dst = fspath(src), fspath(dst)
    st = lookup(src)
    if st == "missing":
        throw("FileNotFoundError", "move")
    effect("move", src, dst)
    set_state(src, "missing")
    set_state(dst, st)
    return dst


def listing(p):
    p = fspath(p)
    k = segs(p)
    if k in LISTING:
        return LISTING[k]
    st = lookup(p)
    if st == "missing":
        throw("FileNotFoundError", "No such file or directory")
    if st == "file":
        throw("NotADirectoryError", "Not a directory")
    if k in FRESH:
        return [(Str([("L", x, None) if y == "L" else None for y, x in [s[0][:2]]]) if len(s) == 1 and s[0][0] == "L" else _un(s), STATE[o])
                for o in STATE if len(o) == len(k) + 1 and o[:-1] == k and STATE[o] != "missing" for s in [o[-1]]]
    # unknown directory: no entry, or one opaque entry of either kind
    c = P().choose(("ls", k), 3)
    if c == 0:
        return []
    LISTING[k] = [(T.sym("entry:" + str(abs(hash(repr(k))) % 1000), excl="/", nonempty=True), "file" if c == 1 else "dir")]
    STATE[segs(T.concat(p, "/", LISTING[k][0][0]))] = LISTING[k][0][1]
    return LISTING[k]


def _un(s):
    raise Unsupported("listing of a directory with opaque entries")


def walk_entries(p, rel=""):
    """recursive entries (relative term, kind)"""
    out = []
    for seg, kind in listing(p):
        r = T.concat(rel, "/", seg) if rel != "" else seg
        out.append((r, kind))
        if kind == "dir":
            q = T.concat(fspath(p), "/", seg)
            out.extend(walk_entries(q, r) if segs(q) in LISTING else [])
    return out


def seg_matches(seg, pat):
    c = T.const(seg)
    if c is not None:
        return fnmatch.fnmatchcase(c, pat)
    if pat == "*":
        return True
    return P().decide(("glob", pat, T.norm(seg)))


def glob_rel(p, pattern, hidden=True):
    pat = T.const(S(pattern))
    if pat is None:
        raise Unsupported("opaque glob pattern")
    if isinstance(p, Inst):
        p = fspath(p)
    if lookup(p) != "dir" and segs(p) not in LISTING:
        return []
    bits = [b for b in pat.split("/") if b]

    def vis(seg):
        return hidden or not T.startswith(seg, ".")

    def go(base, rel, bits):
        if not bits:
            return [rel]
        b = bits[0]
        out = []
        ents = listing(base)
        if b == "**":
            if len(bits) == 1:
                out.append(rel)
            else:
                out.extend(go(base, rel, bits[1:]))
            for seg, kind in ents:
                if kind == "dir" and vis(seg):
                    r = T.concat(rel, "/", seg) if rel != "" else seg
                    q = T.concat(base, "/", seg)
                    if segs(q) in LISTING:
                        out.extend(go(q, r, bits))
            return out
        for seg, kind in ents:
            if not vis(seg) or not seg_matches(seg, b):
                continue
            r = T.concat(rel, "/", seg) if rel != "" else seg
            if len(bits) == 1:
                out.append(r)
            elif kind == "dir":
                out.extend(go(T.concat(base, "/", seg), r, bits[1:]))
        return out
    return go(p, "", bits)


# ------------------------------------------------------------------ pathlib
PATH = ClassV("PosixPath", [OBJECT], {}, "pathlib", native=True)


def mkpath(t):
    i = Inst(PATH)
    i.data = ("path", tidy(t))
    return i


def tidy(t):
    """pathlib normalisation on literal text: '//' and trailing '/' and '/./'"""
    t = S(t)
    c = T.const(t)
    if c is not None:
        import posixpath

        if c == "":
            return "."
        out = "/".join(x for x in c.split("/") if x not in ("", "."))
        return ("/" + out if c.startswith("/") else out) or ("/" if c.startswith("/") else ".")
    ps = [q for q in t.parts if q[0] != "L" or q[1]]
    m = []
    for q in ps:
        if q[0] == "L":
            x = q[1]
            while "//" in x:
                x = x.replace("//", "/")
            while "/./" in x:
                x = x.replace("/./", "/")
            q = ("L", x, q[2])
            if m and m[-1][0] == "L" and m[-1][1].endswith("/") and x.startswith("/"):
                q = ("L", x.lstrip("/"), q[2])
        m.append(q)
    if m and m[-1][0] == "L":
        x = m[-1][1].rstrip("/")
        m[-1] = ("L", x, m[-1][2])
        if not x and len(m) > 1:
            m.pop()
    if m and m[0][0] == "L" and m[0][1].startswith("./"):
        m[0] = ("L", m[0][1][2:], m[0][2])
    return Str(m)


def _path_new(cls, *args, **kw):
    if not args:
        return mkpath(".")
    return mkpath(pjoin(fspath(args[0]), *[fspath(a) for a in args[1:]]))


PATH.ns["__new__"] = NativeF("Path", _path_new, static=True)
PATH.ns["__init__"] = NativeF("Path.__init__", lambda s, *a, **k: None)
pt = lambda s: s.data[1]
nat(PATH, "__str__", "__fspath__", "as_posix")(pt)
nat(PATH, "__repr__")(lambda s: T.concat("PosixPath('", pt(s), "')"))
nat(PATH, "__eq__")(lambda s, o: T.eq(pt(s), pt(o)) if isinstance(o, Inst) and o.cls.issub(PATH) else NotImplemented)
nat(PATH, "__hash__")(lambda s: E.HashV(("path", T.norm(pt(s)))))
nat(PATH, "__truediv__")(lambda s, o: mkpath(pjoin(pt(s), fspath(o))))
nat(PATH, "__rtruediv__")(lambda s, o: mkpath(pjoin(fspath(o), pt(s))))
nat(PATH, "joinpath")(lambda s, *o: mkpath(pjoin(pt(s), *[fspath(x) for x in o])))
nat(PATH, "resolve")(lambda s, strict=False: mkpath(wrap("realpath")(pt(s))))
nat(PATH, "absolute")(lambda s: mkpath(wrap("abspath")(pt(s))))
nat(PATH, "expanduser")(lambda s: mkpath(T.op("expanduser", pt(s))))
nat(PATH, "exists")(lambda s, **k: exists(s))
nat(PATH, "is_file")(lambda s: isfile(s))
nat(PATH, "is_dir")(lambda s: isdir(s))
nat(PATH, "is_absolute")(lambda s: T.startswith(pt(s), "/"))
nat(PATH, "mkdir")(lambda s, mode=511, parents=False, exist_ok=False: make_dir(s, truth(parents), truth(exist_ok)))
nat(PATH, "rmdir")(lambda s: rmdir(s))
nat(PATH, "unlink")(lambda s, missing_ok=False: unlink(s, missing_ok))
nat(PATH, "glob")(lambda s, pat: IterV(iter([mkpath(pjoin(pt(s), r)) for r in glob_rel(pt(s), pat)])))
nat(PATH, "rglob")(lambda s, pat: IterV(iter([mkpath(pjoin(pt(s), r)) for r in glob_rel(pt(s), T.concat("**/", S(pat)))])))
nat(PATH, "iterdir")(lambda s: IterV(iter([mkpath(pjoin(pt(s), r)) for r, _ in listing(pt(s))])))


def relpath(p, base):
    p, base = tidy(p), tidy(base)
    np, nb = T.parts_of(p), T.norm(base)
    segs_ = T._split_term(p, T.concat(base, "/"))
    if T.norm(p) == nb:
        return "."
    if T.const(p) is not None and T.const(base) is not None:
        if T.const(p).startswith(T.const(base) + "/"):
            return T.const(p)[len(T.const(base)) + 1:]
        return None
    if segs_ is not None and not T.norm(Str(segs_[0])):
        return Str([q for i, s in enumerate(segs_[1:]) for q in (([*T.parts_of(T.concat(base, "/"))] if i else []) + list(s))])
    return None


def _relative_to(s, o):
    r = relpath(pt(s), fspath(o))
    if r is None:
        throw("ValueError", "is not in the subpath")
    return mkpath(r)


nat(PATH, "relative_to")(_relative_to)
PATH.ns["parent"] = PropertyV(NativeF("parent", lambda s: mkpath(dirname(pt(s)))))
PATH.ns["name"] = PropertyV(NativeF("name", lambda s: basename(pt(s))))
PATH.ns["suffix"] = PropertyV(NativeF("suffix", lambda s: T.op("suffix", pt(s))))
PATH.ns["stem"] = PropertyV(NativeF("stem", lambda s: T.op("stem", pt(s))))
PATH.ns["parts"] = PropertyV(NativeF("parts", lambda s: tuple(S(x) for x in tolist(call(E.STR.ns["split"], [pt(s), "/"])))))


# ------------------------------------------------------------------ open()
FILE = ClassV("TextIOWrapper", [OBJECT], {}, "io", native=True)


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = fspath(file)
    md = T.const(S(mode))
    f = Inst(FILE)
    f.data = ["file", p, md, encoding, newline]
    st = lookup(p)
    if "r" in md:
        if st != "file":
            throw("FileNotFoundError", "open")
    else:
        if st == "dir":
            throw("IsADirectoryError", "open")
        need_parent_soft(p)
        if "x" in md and st == "file":
            throw("FileExistsError", "open")
        effect("open", p, md)
        set_state(p, "file")
    return f


def need_parent_soft(p):
    """the caller-supplied output file's own directory is assumed to exist"""
    k = segs(dirname(canon(p)))
    if STATE.get(k) == "missing":
        throw("FileNotFoundError", "open")


def _write(f, text):
    t = text if isinstance(text, (bytes, E.BytesV)) else text_of(text)
    if t is None:
        throw("TypeError", "write() argument must be str")
    if "b" not in f.data[2] and isinstance(t, (bytes, E.BytesV)):
        throw("TypeError", "write() argument must be str")
    effect("write", f.data[1], t, f.data[3], f.data[4], f.data[2])
    return E.len_(t) if not isinstance(t, E.BytesV) else 0


def _read(f, n=-1):
    k = segs(f.data[1])
    own = None
    for e in EFFECTS:
        if e[0] == "open" and segs(e[1]) == k:
            own = own if "a" in e[2] else ""
        elif e[0] == "write" and segs(e[1]) == k and own is not None and T.is_s(e[2]):
            own = T.concat(own, e[2])
        elif e[0] in ("copy", "copytree", "move") and segs(e[2]) == k:
            own = None
    if own is not None and "b" not in f.data[2]:
        return own
    r = T.op("content", f.data[1])
    return E.BytesV(r, "raw") if "b" in f.data[2] else r


nat(FILE, "write")(_write)
nat(FILE, "writelines")(lambda f, xs: [_write(f, x) for x in tolist(xs)] and None)
nat(FILE, "read")(_read)
nat(FILE, "close")(lambda f: None)
nat(FILE, "flush")(lambda f: None)
nat(FILE, "__enter__")(lambda f: f)
nat(FILE, "__exit__")(lambda f, *a: None)
BUILTINS["open"] = NativeF("open", _open)


def _write_text(s, data, encoding=None, errors=None, newline=None):
    return _write(_open(s, "w", -1, encoding, errors, newline), data)


nat(PATH, "open")(lambda s, mode="r", **k: _open(s, mode, **k))
nat(PATH, "write_text")(_write_text)
nat(PATH, "read_text")(lambda s, *a, **k: _read(_open(s, "r")))
nat(PATH, "read_bytes")(lambda s: _read(_open(s, "rb")))
nat(PATH, "write_bytes")(lambda s, d: _write(_open(s, "wb"), d))


# ------------------------------------------------------------------ modules
def path_ns():
    import posixpath

    def splitext(p):
        c = T.const(S(p))
        return posixpath.splitext(c) if c is not None else (T.op("root", S(p)), T.op("ext", S(p)))

    def rel(p, start="."):
        r = relpath(fspath(p), fspath(start))
        return r if r is not None else T.op("relpath", fspath(p), fspath(start))

    return {
        "join": pjoin, "exists": exists, "isfile": isfile, "isdir": isdir, "dirname": lambda p: dirname(fspath(p)),
        "basename": lambda p: basename(fspath(p)), "realpath": wrap("realpath"), "abspath": wrap("abspath"), "normpath": wrap("normpath"),
        "isabs": lambda p: T.startswith(fspath(p), "/"), "split": lambda p: (dirname(fspath(p)), basename(fspath(p))), "splitext": splitext,
        "relpath": rel, "sep": "/", "lexists": exists, "expanduser": lambda p: T.op("expanduser", fspath(p)), "curdir": ".", "pardir": "..",
        "islink": lambda p: P().decide(("islink", segs(fspath(p)))), "normcase": lambda p: fspath(p), "altsep": None,
    }


NATIVE_MODULES["os.path"] = lambda: _mk("posixpath", lambda m: path_ns())
NATIVE_MODULES["posixpath"] = lambda: _mk("posixpath", lambda m: path_ns())
NATIVE_MODULES["ntpath"] = lambda: _mk("ntpath", lambda m: {"join": lambda *a: T.op("ntjoin", *[S(x) for x in a])})


def _makedirs(p, mode=511, exist_ok=False):
    make_dir(p, True, truth(exist_ok))


def _scandir(p="."):
    out = []
    for seg, kind in listing(p):
        i = Inst(DIRENT)
        i.attrs().set("name", seg)
        i.attrs().set("path", pjoin(fspath(p), seg))
        i.data = ("dirent", kind)
        out.append(i)
    it = Inst(SCANIT)
    it.data = ("it", out)
    return it


DIRENT = ClassV("DirEntry", [OBJECT], {}, "os", native=True)
nat(DIRENT, "is_file")(lambda s, **k: s.data[1] == "file")
nat(DIRENT, "is_dir")(lambda s, **k: s.data[1] == "dir")
nat(DIRENT, "__fspath__")(lambda s: getattr_(s, "path"))
SCANIT = ClassV("ScandirIterator", [OBJECT], {}, "os", native=True)
nat(SCANIT, "__iter__")(lambda s: IterV(iter(s.data[1])))
nat(SCANIT, "__enter__")(lambda s: s)
nat(SCANIT, "__exit__")(lambda s, *a: None)


def _walk(top, topdown=True, onerror=None, followlinks=False):
    out = []

    def go(p):
        ents = listing(p)
        ds = [s for s, k in ents if k == "dir"]
        fs = [s for s, k in ents if k == "file"]
        out.append((p, mklist(ds), mklist(fs)))
        for d in ds:
            q = pjoin(p, d)
            if segs(q) in LISTING:
                go(q)
    p = fspath(top)
    if lookup(p) == "dir" or segs(p) in LISTING:
        go(p)
    return IterV(iter(out))


def _env_get(k, d=None):
    """environment variables: unset in one process, set in another"""
    P().nd_used.add(T.CUR_LOC[0])
    return "1" if P().nd else d


def _env_item(s, k):
    if P().nd:
        return "1"
    E.throw("KeyError", k)


_ENV = E.ClassV("_Environ", [E.OBJECT], {}, "os", native=True)
_ENV.ns["__new__"] = E.OBJECT.ns["__new__"]
nat(_ENV, "get")(lambda s, k, d=None: _env_get(k, d))
nat(_ENV, "__getitem__")(_env_item)
nat(_ENV, "__contains__")(lambda s, k: _env_get(k) is not None)
nat(_ENV, "copy")(lambda s: s)
ENVIRON = E.Inst(_ENV)


@module("os")
def _(m):
    pm = E.import_module("posixpath")
    return {
        "path": pm, "sep": "/", "linesep": "\n", "pathsep": ":", "name": "posix", "altsep": None, "curdir": ".", "devnull": "/dev/null",
        "makedirs": _makedirs, "mkdir": lambda p, mode=511: make_dir(p), "remove": lambda p: unlink(p), "unlink": lambda p: unlink(p),
        "rmdir": lambda p: rmdir(p), "listdir": lambda p=".": mklist([s for s, _ in listing(p)]), "scandir": _scandir, "walk": _walk,
        "getcwd": lambda: T.sym("cwd", nonempty=True), "fspath": fspath, "environ": ENVIRON, "getenv": lambda k, d=None: _env_get(k, d),
        "PathLike": PATHLIKE, "rename": move, "replace": move, "getpid": lambda: lib._nd_num("pid", "pid"),
        "urandom": Unk("os.urandom"), "stat": Unk("os.stat"), "cpu_count": lambda: 8,
    }


PATHLIKE = ClassV("PathLike", [OBJECT], {}, "os", native=True)
E.ABC_CHECK[PATHLIKE] = lambda t: t.lookup("__fspath__") is not None


@module("pathlib")
def _(m):
    return {n: PATH for n in ("Path", "PurePath", "PosixPath", "PurePosixPath")}


@module("shutil")
def _(m):
    return {"rmtree": rmtree, "copy": copyfile("copy"), "copy2": copyfile("copy2"), "copyfile": copyfile("copyfile"), "copytree": copytree,
            "ignore_patterns": lambda *pats: NativeF("_ignore_patterns", lambda path, names: mklist([n for n in tolist(names) if any(seg_matches(S(n), T.const(S(p))) for p in pats)])),
            "move": move, "which": Unk("shutil.which"), "copymode": lambda *a, **k: None, "copystat": lambda *a, **k: None,
            "SameFileError": E.EXC["OSError"], "Error": E.EXC["OSError"]}


@module("glob")
def _(m):
    def gl(pattern, *, root_dir=None, recursive=False, include_hidden=False, **k):
        pat = S(pattern)
        if root_dir is not None:
            base, last = fspath(root_dir), pat
            rel = True
        else:
            # literal tail after the last path separator before the first wildcard
            parts = list(T._resolve_parts(T.parts_of(pat)))
            rel = False
            if not parts or parts[-1][0] != "L" or "/" not in parts[-1][1]:
                raise Unsupported("glob pattern")
            t = parts[-1][1]
            i = min([t.find(c) for c in "*?[" if c in t] or [len(t)])
            j = t.rfind("/", 0, i)
            base = Str(parts[:-1] + ([("L", t[:j], None)] if t[:j] else []))
            last = t[j + 1:]
        lp = T.const(last)
        if not truth(recursive):
            lp = "/".join("*" if b == "**" else b for b in lp.split("/"))
        rs = glob_rel(base, lp, truth(include_hidden))
        return mklist([r if rel else pjoin(base, r) for r in rs])
    return {"glob": gl, "iglob": lambda *a, **k: IterV(iter(gl(*a, **k).data)), "escape": lambda p: T.op("glob.escape", S(p))}


NATIVE_MODULES["fnmatch"] = lambda: _mk("fnmatch", lambda m: {"fnmatch": lambda n, p: seg_matches(S(n), T.const(S(p))), "fnmatchcase": lambda n, p: seg_matches(S(n), T.const(S(p)))})


@module("tempfile")
def _(m):
    td = ClassV("TemporaryDirectory", [OBJECT], {}, "tempfile", native=True)

    def init(s, *a, **k):
        P().nd_used.add("tempfile") if False else None
        s.attrs().set("name", T.op("tmpdir", P().uid("tmp")))
    td.ns["__init__"] = NativeF("TemporaryDirectory", init)
    nat(td, "__enter__")(lambda s: getattr_(s, "name"))
    nat(td, "__exit__")(lambda s, *a: None)
    nat(td, "cleanup")(lambda s: None)
    return {"TemporaryDirectory": td, "gettempdir": lambda: T.op("gettempdir"), "mkdtemp": lambda *a, **k: T.op("tmpdir", P().uid("tmp")),
            "NamedTemporaryFile": Unk("NamedTemporaryFile"), "mkstemp": Unk("mkstemp")}
