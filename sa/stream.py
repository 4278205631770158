"""Exact decision of "can this text occur in the output" for chains of textual
replacements over an arbitrary input string: every stage is a deterministic
streaming transducer (leftmost, non-overlapping), composed with a matcher."""
from __future__ import annotations

from collections import deque

from . import terms as T
from .terms import Unsupported

OTHER = "\0other"


class Stage:
    """replace every leftmost occurrence of a word by its image"""

    def __init__(self, images):
        self.images = dict(images)
        ws = list(self.images)
        if not ws or any(not w for w in ws) or len({len(w) for w in ws}) != 1:
            raise Unsupported("replacement of words of different lengths")
        self.n = len(ws[0])
        self.prefixes = {w[:i] for w in ws for i in range(self.n)}
        self.chars = {c for w in ws for c in w} | {c for v in self.images.values() for c in v}

    def step(self, state, c):
        """state: pending prefix; returns (state, emitted)"""
        cur = state + c if c != OTHER else None
        if cur is None:
            return "", tuple(state) + (OTHER,)
        if cur in self.images:
            return "", tuple(self.images[cur])
        emitted = ()
        while cur not in self.prefixes:
            emitted += (cur[0],)
            cur = cur[1:]
        return cur, emitted

    def flush(self, state):
        return tuple(state)


class Matcher:
    def __init__(self, word, ci):
        self.w = word.lower() if ci else word
        self.ci = ci
        self.chars = set(word) | (set(word.lower()) | set(word.upper()) if ci else set())

    def step(self, k, c):
        if c == OTHER:
            return 0
        if self.ci and c.isascii():
            c = c.lower()
        cur = self.w[:k] + c
        while cur and not self.w.startswith(cur):
            cur = cur[1:]
        return len(cur)


def occurs(stages, word, ci=False, forbid=(), prefix="", suffix=""):
    """an input for which `word` occurs in prefix + output + suffix (text outside
    ASCII-relevant characters shown as '?'), or None when it never does"""
    m = Matcher(word, ci)
    alphabet = set(m.chars) | {OTHER}
    for s in stages:
        alphabet |= s.chars
    alphabet -= set(forbid)
    alphabet = sorted(alphabet)
    full = len(m.w)

    def push(states, i, chars):
        """feed chars to stage i; returns (new states, chars reaching the matcher)"""
        out = []
        for c in chars:
            if i == len(states):
                out.append(c)
                continue
            st, em = stages[i].step(states[i], c)
            states = states[:i] + (st,) + states[i + 1:]
            states, o = push(states, i + 1, em)
            out += o
        return states, out

    def feed(k, chars):
        for c in chars:
            if k == full:
                return k
            k = m.step(k, c)
        return k

    def finish(states, k):
        for i in range(len(states)):
            em = stages[i].flush(states[i])
            states = states[:i] + ("",) + states[i + 1:]
            states, o = push(states, i + 1, em)
            k = feed(k, o)
        return feed(k, suffix)

    k0 = feed(0, prefix)
    start = (("",) * len(stages), k0)
    seen = {start: None}
    todo = deque([start])

    def path(s):
        out = []
        while seen[s] is not None:
            s, c = seen[s]
            out.append("?" if c == OTHER else c)
        return "".join(reversed(out))

    while todo:
        cur = todo.popleft()
        states, k = cur
        if k == full or finish(states, k) == full:
            return path(cur)
        for c in alphabet:
            st, o = push(states, 0, [c])
            nxt = (st, feed(k, o))
            if nxt not in seen:
                seen[nxt] = (cur, c)
                todo.append(nxt)
        if len(seen) > 200000:
            raise Unsupported("replacement chain too large")
    return None


def chain(part):
    """(stages, innermost part) of a term built from replacements"""
    stages = []
    while part[0] == "O" and part[1][0] in ("replace", "resub", "hom"):
        a = part[1][1]
        if part[1][0] == "hom":
            stages.append(Stage(a[0]))
            a = (a[1],)
        elif part[1][0] == "replace":
            old, new, cnt = T.const(a[1]), T.const(a[2]), a[3]
            if old is None or new is None or not isinstance(cnt, int) or cnt >= 0:
                raise Unsupported("replacement with opaque arguments")
            stages.append(Stage([(old, new)]))
        else:
            if not a[2]:
                raise Unsupported("substitution of an unbounded pattern")
            stages.append(Stage(a[2]))
        ps = [p for p in T._resolve_parts(T.parts_of(a[0])) if p[0] != "L" or p[1]]
        if len(ps) != 1:
            raise Unsupported("replacement over a compound term")
        part = ps[0]
    return stages[::-1], part


def part_never(part, text, ci=False):
    """the constant text cannot occur in the part, whatever its opaque content"""
    try:
        stages, _ = chain(part)
    except Unsupported:
        return False
    return bool(stages) and occurs(stages, text, ci) is None
