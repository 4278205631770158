"""Transfer functions for the `re` module on abstract strings.

Constant text: the match is evaluated directly.  Opaque text: patterns that are
character sets or literal strings become character-set predicates / character
homomorphisms; other patterns go through a small matcher over term parts."""
from __future__ import annotations

import re
import re._constants as sc
import re._parser as sp

from . import engine as E
from . import stream
from . import terms as T
from .engine import (ClassV, Inst, ModV, NATIVE_MODULES, NativeF, OBJECT, P, PropertyV, Str, Unk, Unsupported, call, host,
                     mkdict, mklist, text_of, throw, truth)
from .lib import S, module, nat

PATTERN = ClassV("Pattern", [OBJECT], {}, "re", native=True)
MATCH = ClassV("Match", [OBJECT], {}, "re", native=True)
ERROR = ClassV("error", [E.EXC["Exception"]], {}, "re", native=True)


class CS:
    """character set: finite positive or co-finite"""

    __slots__ = ("neg", "chars")

    def __init__(self, neg, chars):
        self.neg, self.chars = neg, frozenset(chars)

    def has(self, c):
        return (c in self.chars) != self.neg

    def union(self, o):
        if self.neg and o.neg:
            return CS(True, self.chars & o.chars)
        if self.neg:
            return CS(True, self.chars - o.chars)
        if o.neg:
            return CS(True, o.chars - self.chars)
        return CS(False, self.chars | o.chars)

    def inv(self):
        return CS(not self.neg, self.chars)


WSCHARS = frozenset(c for c in map(chr, range(0x3001)) if c.isspace())
WORD = frozenset(c for c in map(chr, range(128)) if c.isalnum() or c == "_")
DIGITS = frozenset("0123456789")
CATS = {sc.CATEGORY_SPACE: CS(False, WSCHARS), sc.CATEGORY_NOT_SPACE: CS(True, WSCHARS), sc.CATEGORY_DIGIT: CS(False, DIGITS),
        sc.CATEGORY_NOT_DIGIT: CS(True, DIGITS), sc.CATEGORY_WORD: CS(False, WORD), sc.CATEGORY_NOT_WORD: CS(True, WORD)}


def fold(cs, flags):
    if not flags & re.I:
        return cs
    ch = set()
    for c in cs.chars:
        ch |= {c, c.lower(), c.upper()} if len(c.lower()) == len(c.upper()) == 1 else {c}
    return CS(cs.neg, ch)


def node_set(op, av, flags):
    """character set of a one-character node, else None"""
    if op is sc.LITERAL:
        return fold(CS(False, {chr(av)}), flags)
    if op is sc.NOT_LITERAL:
        return fold(CS(True, {chr(av)}), flags)
    if op is sc.ANY:
        return CS(True, set() if flags & re.S else {"\n"})
    if op is sc.IN:
        cs = CS(False, set())
        neg = False
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                cs = cs.union(CS(False, {chr(a)}))
            elif o is sc.RANGE:
                if a[1] - a[0] > 5000:
                    return None
                cs = cs.union(CS(False, map(chr, range(a[0], a[1] + 1))))
            elif o is sc.CATEGORY and a in CATS:
                cs = cs.union(CATS[a])
            else:
                return None
        cs = fold(cs, flags)
        return cs.inv() if neg else cs
    if op is sc.SUBPATTERN:
        g, add, sub, p = av
        return seq_set(p, (flags | add) & ~sub)
    if op is sc.BRANCH:
        out = None
        for p in av[1]:
            cs = seq_set(p, flags)
            if cs is None:
                return None
            out = cs if out is None else out.union(cs)
        return out
    return None


def seq_set(p, flags):
    if len(p) != 1:
        return None
    return node_set(p[0][0], p[0][1], flags)


def literal_strings(p, flags):
    """finite list of literal strings the pattern denotes, else None"""
    if flags & re.I:
        return None
    outs = [""]
    for op, av in p:
        if op is sc.LITERAL:
            outs = [o + chr(av) for o in outs]
        elif op is sc.SUBPATTERN:
            s = literal_strings(av[3], (flags | av[1]) & ~av[2])
            if s is None:
                return None
            outs = [o + x for o in outs for x in s]
        elif op is sc.BRANCH:
            alts = []
            for q in av[1]:
                s = literal_strings(q, flags)
                if s is None:
                    return None
                alts += s
            outs = [o + x for o in outs for x in alts]
        elif op is sc.IN:
            cs = node_set(op, av, flags)
            if cs is None or cs.neg or len(cs.chars) > 16:
                return None
            outs = [o + x for o in outs for x in sorted(cs.chars)]
        else:
            return None
        if len(outs) > 64:
            return None
    return outs


# ------------------------------------------------------------------ matcher on terms
def units(v):
    out = []
    for p in T._resolve_parts(T.parts_of(v)):
        if p[0] == "L":
            out.extend(("c", c, p[2]) for c in p[1])
        else:
            out.append(("p", p))
    return out


def unit_str(us):
    parts = []
    for u in us:
        parts.append(("L", u[1], u[2]) if u[0] == "c" else u[1])
    return Str(parts) if parts else ""


def part_all_in(p, cs):
    """every character the part can produce lies in cs (True/False = unknown)"""
    if cs.neg:
        return not any(T.part_may(p, c) for c in cs.chars)
    if p[0] == "R":
        return all(c in cs.chars for c in p[1][0])
    if p[0] == "A" and p[1][0].only is not None:
        return all(c in cs.chars for c in T._hom_images(p))
    if p[0] == "O":
        only = T.op_only(p)
        return only is not None and only <= cs.chars
    return False


T.NEVER.append(stream.part_never)
lacks = T.part_lacks


def lit_prefix(nodes, flags):
    out = ""
    for op, av in nodes:
        if op is sc.LITERAL and not flags & re.I:
            out += chr(av)
        elif op is sc.SUBPATTERN:
            s = lit_prefix(list(av[3]), flags)
            out += s
            if literal_strings(av[3], flags) is None:
                break
        elif op in ("open", "close"):
            continue
        else:
            break
    return out


def straddles(us, i, text):
    """may an occurrence of `text` begin inside the opaque part us[i] and run past its end?"""
    q = us[i][1]
    for cut in range(1, len(text)):
        if not T.part_may(q, text[cut - 1]):
            continue
        j, rest = i + 1, text[cut:]
        while rest and j < len(us):
            if us[j][0] == "c":
                if us[j][1] != rest[0]:
                    break
                rest = rest[1:]
            elif T.part_may(us[j][1], rest[0]) or not T.part_nonempty(us[j][1]):
                return True
            else:
                break
            j += 1
        if not rest:
            return True
    return False


def mseq(nodes, us, i, flags, groups, k):
    """match nodes from position i; k(i, groups) continuation -> result or None"""
    if not nodes:
        return k(i, groups)
    (op, av), rest = nodes[0], nodes[1:]
    if op == "open":
        return mseq(rest, us, i, flags, {**groups, ("at", av): i}, k)
    if op == "close":
        return mseq(rest, us, i, flags, {**groups, av: (groups[("at", av)], i)}, k)
    cs = node_set(op, av, flags) if op is not sc.SUBPATTERN else None
    if cs is not None:
        return mone(cs, us, i, flags, groups, lambda j, g: mseq(rest, us, j, flags, g, k))
    if op is sc.SUBPATTERN:
        gi, add, sub, p = av
        fl = (flags | add) & ~sub
        if fl == flags:   # keep the continuation visible to repeats inside the group
            if gi is None:
                return mseq(list(p) + rest, us, i, flags, groups, k)
            return mseq([("open", gi), *p, ("close", gi)] + rest, us, i, flags, groups, k)

        def done(j, g):
            if gi is not None:
                g = {**g, gi: (i, j)}
            return mseq(rest, us, j, flags, g, k)
        return mseq(list(p), us, i, fl, groups, done)
    if op is sc.BRANCH:
        for p in av[1]:
            r = mseq(list(p) + rest, us, i, flags, groups, k)
            if r is not None:
                return r
        return None
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, p = av
        lazy = op is sc.MIN_REPEAT
        cs = seq_set(p, flags)
        grp = None
        if cs is None and hi <= 3:   # unrolled
            more = lambda: mseq([*p, (op, (max(lo - 1, 0), hi - 1, p))] + rest, us, i, flags, groups, k) if hi else None
            less = lambda: mseq(rest, us, i, flags, groups, k) if lo == 0 else None
            for alt in ((less, more) if lazy else (more, less)):
                r = alt()
                if r is not None:
                    return r
            return None
        if cs is None:
            raise Unsupported("regex repeat of a multi-character body on opaque text")
        if len(p) == 1 and p[0][0] is sc.SUBPATTERN and p[0][1][0] is not None:
            raise Unsupported("regex group inside repeat on opaque text")
        pref = lit_prefix(rest, flags)
        # positions reachable by consuming members of cs
        stops = [(i, 0)]
        dead = set()   # positions before a part in which the continuation provably cannot start
        j, n = i, 0
        while j < len(us):
            u = us[j]
            if u[0] == "c":
                if not cs.has(u[1]) or (hi is not sc.MAXREPEAT and n >= hi):
                    break
                n += 1
                j += 1
                stops.append((j, n))
            else:
                q = u[1]
                if not part_all_in(q, cs):
                    if not any(T.part_may(q, c) for c in (cs.chars if not cs.neg else [])) and not cs.neg:
                        if T.split_if_empty(q):
                            j += 1
                            stops.append((j, n))
                            continue
                        break
                    raise Unsupported("regex repeat may stop inside opaque text")
                if hi is not sc.MAXREPEAT:
                    raise Unsupported("bounded regex repeat over opaque text")
                # the continuation must not be able to match inside q
                if rest:
                    if pref != "" and lacks(q, pref) and not straddles(us, j, pref):
                        dead.add(j)
                    else:
                        nx = next((x for x in rest if x[0] not in ("open", "close")), None)
                        c0 = node_set(nx[0], nx[1], flags) if nx else None
                        if nx and (c0 is None or c0.neg or any(T.part_may(q, c) for c in c0.chars)):
                            if nx[0] is not sc.AT or flags & re.M:
                                raise Unsupported("regex continuation may match inside opaque text")
                n += 1 if T.part_nonempty(q) else 0
                j += 1
                stops.append((j, n))
        order = stops if lazy else stops[::-1]
        for j, n in order:
            if j in dead:
                continue
            if n < lo:
                if any(u[0] == "p" for u in us[i:j]) and not all(T.part_nonempty(u[1]) for u in us[i:j] if u[0] == "p"):
                    if not T.nonempty(unit_str(us[i:j])) or lo > 1:
                        continue
                else:
                    continue
            r = mseq(rest, us, j, flags, groups, k)
            if r is not None:
                return r
        return None
    if op is sc.AT:
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            ok = not T.nonempty(unit_str(us[:i]))
            if not ok and flags & re.M and av is sc.AT_BEGINNING:
                ok = us[i - 1][0] == "c" and us[i - 1][1] == "\n"
        elif av in (sc.AT_END, sc.AT_END_STRING):
            ok = not T.nonempty(unit_str(us[i:]))
            if not ok and av is sc.AT_END and i == len(us) - 1 and us[i][0] == "c" and us[i][1] == "\n":
                ok = True
            if not ok and flags & re.M and av is sc.AT_END:
                ok = us[i][0] == "c" and us[i][1] == "\n"
        else:
            raise Unsupported("regex anchor on opaque text")
        return mseq(rest, us, i, flags, groups, k) if ok else None
    raise Unsupported(f"regex construct {op} on opaque text")


def mone(cs, us, i, flags, groups, k):
    while i < len(us):
        u = us[i]
        if u[0] == "c":
            return k(i + 1, groups) if cs.has(u[1]) else None
        p = u[1]
        if p[0] == "A" and p[1][0].single and not p[1][1]:
            if part_all_in(p, cs):
                return k(i + 1, groups)
            if not cs.neg and not any(T.part_may(p, c) for c in cs.chars):
                return None
            if T.contains_any(Str([p]), cs.chars) != cs.neg:
                return k(i + 1, groups)
            return None
        if not cs.neg and not any(T.part_may(p, c) for c in cs.chars):
            if T.split_if_empty(p):
                i += 1
                continue
            return None
        raise Unsupported("regex looks at a character of opaque text")
    return None


def first_sets(nodes, flags):
    if not nodes:
        return None
    op, av = nodes[0]
    if op is sc.SUBPATTERN:
        return first_sets(list(av[3]), flags)
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        return first_sets(list(av[2]), flags) if av[0] > 0 else None
    if op is sc.BRANCH:
        out = CS(False, set())
        for p in av[1]:
            c = first_sets(list(p), flags)
            if c is None:
                return None
            out = out.union(c)
        return out
    return node_set(op, av, flags)


def term_finditer(pat, v, limit=20):
    us = units(v)
    nodes = list(pat.tree)
    fs = first_sets(nodes, pat.flags)
    pref = lit_prefix(nodes, pat.flags)
    i = 0
    out = []
    while i <= len(us):
        if i < len(us) and us[i][0] == "p":
            q = us[i][1]
            single = q[0] == "A" and q[1][0].single
            if not single:
                inert = fs is not None and not fs.neg and not any(T.part_may(q, c) for c in fs.chars)
                if not inert and pref and lacks(q, pref):
                    inert = not straddles(us, i, pref)
                if inert:
                    i += 1
                    continue
                if nodes and nodes[0][0] not in (sc.MAX_REPEAT, sc.MIN_REPEAT) and not (nodes[0][0] is sc.AT):
                    raise Unsupported("regex search inside opaque text")
        r = mseq(nodes, us, i, pat.flags, {}, lambda j, g: (j, g))
        if r is not None:
            j, g = r
            out.append((i, j, g, us))
            if j == i:
                i += 1
            else:
                i = j
            if len(out) > limit:
                raise Unsupported("too many regex matches")
        else:
            i += 1
    return out, us


# ------------------------------------------------------------------ objects
class Pat:
    def __init__(self, src, flags):
        self.src = src
        self.rx = re.compile(src, flags)
        self.tree = sp.parse(src, flags)
        self.flags = self.rx.flags
        self.names = dict(self.rx.groupindex)


def mk_pattern(src, flags=0):
    if isinstance(src, Inst) and src.cls is PATTERN:
        return src
    c = T.const(S(src))
    if c is None:
        raise Unsupported("opaque regular expression")
    fl = int(flags) if isinstance(flags, int) else flag_val(flags)
    i = Inst(PATTERN)
    try:
        i.data = Pat(c, fl)
    except re.error as e:
        throw(ERROR, str(e))
    i.attrs().set("pattern", c)
    i.attrs().set("flags", i.data.flags)
    i.attrs().set("groups", i.data.rx.groups)
    return i


def flag_val(f):
    if isinstance(f, bool) or isinstance(f, int):
        return int(f)
    raise Unsupported("regex flags")


def match_const(mo):
    if mo is None:
        return None
    i = Inst(MATCH)
    n = mo.re.groups
    i.data = ("m", {0: mo.group(0), **{g: mo.group(g) for g in range(1, n + 1)}}, dict(mo.re.groupindex), {g: mo.span(g) for g in range(n + 1)})
    return i


def match_term(pat, us, a, b, g):
    i = Inst(MATCH)
    gs = {0: unit_str(us[a:b])}
    for k in range(1, pat.rx.groups + 1):
        gs[k] = unit_str(us[g[k][0]:g[k][1]]) if k in g else None
    i.data = ("m", gs, pat.names, {0: (a, b)})
    return i


def match_opaque(pat, why):
    i = Inst(MATCH)
    i.data = ("o", why, pat.names, {})
    return i


def grp(m, k=0):
    kind, gs, names, sp_ = m.data
    if kind == "o":
        raise Unsupported("group of a match on opaque text")
    if isinstance(k, str):
        if k not in names:
            throw("IndexError", "no such group")
        k = names[k]
    if k not in gs:
        throw("IndexError", "no such group")
    return gs[k]


def _group(m, *ks):
    if not ks:
        return grp(m)
    if len(ks) == 1:
        return grp(m, T.const(ks[0]) if T.is_s(ks[0]) else ks[0])
    return tuple(grp(m, k) for k in ks)


nat(MATCH, "group")(_group)
nat(MATCH, "__getitem__")(lambda m, k: _group(m, k))
nat(MATCH, "groups")(lambda m, default=None: tuple((default if grp(m, k) is None else grp(m, k)) for k in sorted(m.data[1]) if k != 0))
nat(MATCH, "groupdict")(lambda m, default=None: mkdict([(n, grp(m, k)) for n, k in m.data[2].items()]))


def _span(m, k=0):
    if m.data[0] != "m" or any(not isinstance(x, str) for x in m.data[1].values() if x is not None) or k not in m.data[3]:
        raise Unsupported("span of a match on opaque text")
    return m.data[3][k]


nat(MATCH, "span")(_span)
nat(MATCH, "start")(lambda m, k=0: _span(m, k)[0])
nat(MATCH, "end")(lambda m, k=0: _span(m, k)[1])
nat(MATCH, "__bool__")(lambda m: True)


def expand(repl, m):
    """replacement template or callable -> string value"""
    if T.is_s(repl) or text_of(repl) is not None:
        c = T.const(S(repl))
        if c is None:
            if T.contains_any(S(repl), "\\"):
                raise Unsupported("opaque replacement template with backslash")
            return S(repl)
        if "\\" not in c:
            return c
        out = []
        # group references and escapes
        i = 0
        while i < len(c):
            if c[i] != "\\":
                out.append(c[i])
                i += 1
                continue
            mo = re.match(r"\\(?:g<(\w+)>|(\d{1,2})|(.))", c[i:], re.S)
            if mo is None:
                throw(ERROR, "bad escape (end of pattern)")
            if mo.group(3) is not None:
                ch = mo.group(3)
                esc = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\", "a": "\a", "b": "\b", "f": "\f", "v": "\v"}
                if ch in esc:
                    out.append(esc[ch])
                elif ch.isalpha():
                    throw(ERROR, f"bad escape \\{ch}")
                else:
                    out.append("\\" + ch)
            else:
                k = mo.group(1) or mo.group(2)
                v = grp(m, int(k) if k.isdigit() else k)
                out.append("" if v is None else v)
            i += len(mo.group(0))
        return T.concat(*out) if out else ""
    r = call(repl, [m])
    t = text_of(r)
    if t is None:
        throw("TypeError", "expected str instance")
    return t


def p_sub(pi, repl, string, count=0, want_n=False):
    pat = pi.data
    s = S(string)
    c = T.const(s)
    if c is not None:
        out, pos, n = [], 0, 0
        for mo in pat.rx.finditer(c):
            if count and n >= count:
                break
            out.append(c[pos:mo.start()])
            out.append(expand(repl, match_const(mo)))
            pos = mo.end()
            n += 1
        out.append(c[pos:])
        r = T.concat(*out)
        k = T.const(r)
        return k if k is not None and n == 0 else r
    cs = seq_set(pat.tree, pat.flags)
    if cs is not None and not count:
        if cs.neg and all(p[0] != "A" or p[1][0].only is not None for p in s.parts) and all(p[0] in "LA" for p in s.parts):
            al = set()
            for p in s.parts:
                al |= set(p[1]) if p[0] == "L" else T._hom_images(p)
            cs = CS(False, {c for c in al if cs.has(c)})
        if not cs.neg:
            hom = {}
            ok = True
            for ch in sorted(cs.chars):
                if not any(T.part_may(p, ch) for p in s.parts):
                    continue
                img = expand(repl, match_const(pat.rx.match(ch)))
                k = T.const(img)
                if k is None:
                    ok = False
                    break
                hom[ch] = k
            if ok:
                return T.apply_hom(s, hom) if hom else s
    # deletion of runs of a finite set
    if len(pat.tree) == 1 and pat.tree[0][0] is sc.MAX_REPEAT and pat.tree[0][1][0] == 1 and not count:
        cs = seq_set(pat.tree[0][1][2], pat.flags)
        if cs is not None and not cs.neg and T.is_s(repl) and T.const(repl) == "":
            return T.apply_hom(s, {c: "" for c in cs.chars})
    ls = literal_strings(pat.tree, pat.flags)
    if ls is not None and len(ls) == 1 and ls[0] and pat.rx.groups == 0:
        new = expand(repl, match_const(pat.rx.match(ls[0])))
        return T.replace(s, ls[0], new, count if count else -1)
    # escaping of JSON text: keep structure if provably neutral
    ps = T._resolve_parts(s.parts)
    if any(p[0] == "O" and p[1][0] in ("json", "replace", "resub", "hom") for p in ps) and not count:
        inert = first_sets(list(pat.tree), pat.flags)
        out = []
        kind, images = json_resub_kind(pat, repl)
        for p in ps if images else ():
            if p[0] == "O":
                out.append(("O", ("resub", (Str([p]), pat.src, images, kind, pat.flags)), T.CUR_LOC[0]))
            elif p[0] == "L":
                out.extend(T.parts_of(p_sub(pi, repl, p[1])))
            elif inert is not None and not inert.neg and not any(T.part_may(p, c) for c in inert.chars):
                out.append(p)
            else:
                break
        else:
            if images:
                return Str(out)
    ms, us = term_finditer(pat, s)
    out, pos, n = [], 0, 0
    for a, b, g, _ in ms:
        if count and n >= count:
            break
        out.append(unit_str(us[pos:a]))
        out.append(expand(repl, match_term(pat, us, a, b, g)))
        pos = b
        n += 1
    if not n:
        return s
    out.append(unit_str(us[pos:]))
    return T.concat(*out)


def json_resub_kind(pat, repl):
    """is the substitution value-preserving on JSON string contents? returns
    (kind, images) where images maps each matchable text to its replacement"""
    import itertools
    import json

    body, las = lookahead(pat.tree, pat.flags)
    ss = strings_ci(body, pat.flags)
    if ss is None or las is None or len(ss) * len(las) > 1200:
        return "other", ()
    images = []
    ok = True
    for w, la in [(w, la) for w in ss for la in las]:
        mo = pat.rx.match(w + la)
        if mo is None or mo.group(0) != w:
            return "other", ()
        r = T.const(expand(repl, match_const(mo)))
        if r is None:
            return "other", ()
        w, r = w + la, r + la
        images.append((w, r))
        if w[0] in "bfnrtu":
            ok = False
    return ("neutral" if ok else "other"), tuple(images)


def lookahead(p, flags):
    """(pattern without its final positive look-ahead, texts of the look-ahead)"""
    p = list(p)
    if p and p[-1][0] is sc.ASSERT and p[-1][1][0] == 1:
        return p[:-1], strings_ci(p[-1][1][1], flags)
    return p, [""]


def strings_ci(p, flags):
    outs = [""]
    for op, av in p:
        if op in (sc.LITERAL, sc.IN):
            cs = node_set(op, av, flags)
            if cs is None or cs.neg or len(cs.chars) > 64:
                return None
            alts = sorted(cs.chars)
        elif op is sc.SUBPATTERN:
            alts = strings_ci(av[3], (flags | av[1]) & ~av[2])
        elif op is sc.BRANCH:
            alts = []
            for q in av[1]:
                x = strings_ci(q, flags)
                if x is None:
                    return None
                alts += x
        elif op is sc.MAX_REPEAT and av[0] == 0 and av[1] == 1:
            x = strings_ci(av[2], flags)
            alts = None if x is None else [""] + x
        elif op in (sc.ASSERT,):
            # a look-ahead does not take part in the match; other texts stay as they are
            return None
        else:
            return None
        if alts is None:
            return None
        outs = [o + a for o in outs for a in alts]
        if len(outs) > 600:
            return None
    return outs


def p_search(pi, string, how="search", pos=0):
    pat = pi.data
    s = S(string)
    c = T.const(s)
    if pos:
        s = T.slice_str(s, pos, None, None)
        c = T.const(s)
    if c is not None:
        return match_const(getattr(pat.rx, how)(c))
    if how == "search":
        cs = seq_set(pat.tree, pat.flags)
        if cs is not None and not cs.neg:
            return match_opaque(pat, "set") if T.contains_any(s, cs.chars) else None
        ls = literal_strings(pat.tree, pat.flags)
        if ls is not None:
            if all(len(x) == 1 for x in ls):
                return match_opaque(pat, "set") if T.contains_any(s, ls) else None
            return match_opaque(pat, "lit") if any([T.contains(s, x) for x in ls]) else None
        # anchored literal
        t = list(pat.tree)
        if t and t[0] == (sc.AT, sc.AT_BEGINNING) and not pat.flags & re.M:
            ls = literal_strings(t[1:], pat.flags)
            if ls is not None:
                return match_opaque(pat, "edge") if any([T.startswith(s, x) for x in ls]) else None
        # a repeat of a set with min>=1 (e.g. \s+)
        if len(t) == 1 and t[0][0] in (sc.MAX_REPEAT, sc.MIN_REPEAT) and t[0][1][0] == 1:
            cs = seq_set(t[0][1][2], pat.flags)
            if cs is not None and not cs.neg:
                return match_opaque(pat, "set") if T.contains_any(s, cs.chars) else None
        try:
            ms, us = term_finditer(pat, s)
        except Unsupported:
            return match_opaque(pat, "?") if P().decide(("research", pat.src, pat.flags, T.norm(s))) else None
        return match_term(pat, us, *ms[0][:3]) if ms else None
    # match / fullmatch
    ls = literal_strings(pat.tree, pat.flags)
    if ls is not None:
        if how == "match":
            return match_opaque(pat, "edge") if any([T.startswith(s, x) for x in ls]) else None
        return match_opaque(pat, "eq") if any([T.eq(s, x) for x in ls]) else None
    if how == "fullmatch" or (pat.tree and list(pat.tree)[-1] in ((sc.AT, sc.AT_END), (sc.AT, sc.AT_END_STRING))):
        body = [n for n in pat.tree if n[0] is not sc.AT]
        if len(body) == 1 and body[0][0] in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = body[0][1]
            cs = seq_set(p, pat.flags)
            if cs is not None and hi is sc.MAXREPEAT and lo in (0, 1):
                if lo == 1 and not T.nonempty(s):
                    return None
                if cs.neg:
                    bad = T.contains_any(s, cs.chars)
                else:
                    bad = not all(part_all_in(p, cs) if p[0] != "L" else all(x in cs.chars for x in p[1]) for p in T._resolve_parts(s.parts))
                    if bad and not any(p[0] == "L" and any(x not in cs.chars for x in p[1]) for p in s.parts):
                        bad = not P().decide(("fullset", pat.src, T.norm(s)))
                return None if bad else match_opaque(pat, "full")
    us = units(s)
    nodes = list(pat.tree) + ([(sc.AT, sc.AT_END_STRING)] if how == "fullmatch" else [])
    try:
        r = mseq(nodes, us, 0, pat.flags, {}, lambda j, g: (j, g))
    except Unsupported:
        return match_opaque(pat, "?") if P().decide((how, pat.src, pat.flags, T.norm(s))) else None
    return match_term(pat, us, 0, *r) if r is not None else None


def p_findall(pi, string, it=False):
    pat = pi.data
    s = S(string)
    c = T.const(s)
    if c is not None:
        ms = [match_const(m) for m in pat.rx.finditer(c)]
    else:
        t, us = term_finditer(pat, s)
        ms = [match_term(pat, us, *x[:3]) for x in t]
    if it:
        return E.IterV(iter(ms))
    n = pat.rx.groups
    out = []
    for m in ms:
        if n == 0:
            out.append(grp(m))
        elif n == 1:
            out.append(grp(m, 1) or "")
        else:
            out.append(tuple(grp(m, k) or "" for k in range(1, n + 1)))
    return mklist(out)


def p_split(pi, string, maxsplit=0):
    pat = pi.data
    s = S(string)
    c = T.const(s)
    if c is not None:
        return mklist(pat.rx.split(c, maxsplit))
    ls = literal_strings(pat.tree, pat.flags)
    if ls is not None and len(ls) == 1 and ls[0] and pat.rx.groups == 0:
        return call(E.STR.ns["split"], [s, ls[0], maxsplit or -1])
    if pat.src in (r"\s+",):
        r = T.split_ws(s)
        if r is not None and not T.contains_any(T.slice_str(s, 0, 1, None) if False else "", " "):
            return mklist(r)
    ms, us = term_finditer(pat, s)
    out, pos = [], 0
    for a, b, g, _ in ms:
        if maxsplit and len(out) >= maxsplit:
            break
        out.append(unit_str(us[pos:a]))
        m = match_term(pat, us, a, b, g)
        out += [grp(m, k) for k in range(1, pat.rx.groups + 1)]
        pos = b
    out.append(unit_str(us[pos:]))
    return mklist(out)


nat(PATTERN, "sub")(lambda p, repl, string, count=0: p_sub(p, repl, string, count))
nat(PATTERN, "search")(lambda p, s, pos=0: p_search(p, s, "search", pos))
nat(PATTERN, "match")(lambda p, s, pos=0: p_search(p, s, "match", pos))
nat(PATTERN, "fullmatch")(lambda p, s: p_search(p, s, "fullmatch"))
nat(PATTERN, "findall")(lambda p, s: p_findall(p, s))
nat(PATTERN, "finditer")(lambda p, s: p_findall(p, s, True))
nat(PATTERN, "split")(lambda p, s, maxsplit=0: p_split(p, s, maxsplit))


def _subn(p, repl, string, count=0):
    c = T.const(S(string))
    if c is None:
        raise Unsupported("subn on opaque text")
    return (p_sub(p, repl, string, count), len(p.data.rx.findall(c)))


nat(PATTERN, "subn")(_subn)


@module("re")
def _(m):
    ns = {
        "compile": mk_pattern,
        "sub": lambda pattern, repl, string, count=0, flags=0: p_sub(mk_pattern(pattern, flags), repl, string, count),
        "subn": lambda pattern, repl, string, count=0, flags=0: _subn(mk_pattern(pattern, flags), repl, string, count),
        "search": lambda pattern, string, flags=0: p_search(mk_pattern(pattern, flags), string, "search"),
        "match": lambda pattern, string, flags=0: p_search(mk_pattern(pattern, flags), string, "match"),
        "fullmatch": lambda pattern, string, flags=0: p_search(mk_pattern(pattern, flags), string, "fullmatch"),
        "findall": lambda pattern, string, flags=0: p_findall(mk_pattern(pattern, flags), string),
        "finditer": lambda pattern, string, flags=0: p_findall(mk_pattern(pattern, flags), string, True),
        "split": lambda pattern, string, maxsplit=0, flags=0: p_split(mk_pattern(pattern, flags), string, maxsplit),
        "escape": lambda s: re.escape(T.const(S(s))) if T.const(S(s)) is not None else T.op("re.escape", S(s)),
        "purge": lambda: None, "error": ERROR, "Pattern": PATTERN, "Match": MATCH, "RegexFlag": E.INT,
    }
    for n in ("I", "IGNORECASE", "M", "MULTILINE", "S", "DOTALL", "X", "VERBOSE", "A", "ASCII", "U", "UNICODE"):
        ns[n] = int(getattr(re, n))
    return ns
