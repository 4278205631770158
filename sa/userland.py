"""User-side classes interpreted together with the package (never imported)."""
from typing import NamedTuple

from htmltools import HTML, MetadataNode, Tag, TagList


class Selfie:
    """renders itself"""

    def __init__(self, s):
        self.s = s

    def _repr_html_(self):
        return self.s


class Expand:
    """tagifiable; hands out the prepared expansion"""

    def __init__(self, r):
        self.r = r

    def tagify(self):
        return self.r


class Both:
    """tagifiable and self-rendering"""

    def __init__(self, r, s):
        self.r = r
        self.s = s

    def tagify(self):
        return self.r

    def _repr_html_(self):
        return self.s


class MyHTML(HTML):
    """markup the user has a class of their own for"""


class Meta(MetadataNode):
    def __init__(self, payload=None):
        self.payload = payload


class Plain:
    pass


class Strish:
    """not a string; has str()"""

    def __str__(self):
        return "strish"


class Fresh:
    """tagifiable; builds a new expansion on every call"""

    def __init__(self, kind):
        self.kind = kind

    def tagify(self):
        from htmltools import HTMLDependency, Tag, TagList

        if self.kind == "list":
            return TagList("l", Tag("i", "x", _add_ws=False), Tag("p"))
        if self.kind == "empty":
            return TagList()
        if self.kind == "dep":
            return HTMLDependency("fresh", "1", script={"src": "f.js"})
        if self.kind == "html":
            return Tag("html", Tag("head"), Tag("body", "x"))
        if self.kind == "body":
            return Tag("body", "x")
        return Tag("b", "fresh", id="f")


class MetaV(MetadataNode):
    """metadata compared by value"""

    def __init__(self, payload):
        self.payload = payload

    def __eq__(self, other):
        return isinstance(other, MetaV) and self.payload == other.payload


class Comp:
    """tagifiable composite: builds a tree of tagifiables and expands it"""

    def __init__(self, make):
        self.make = make

    def tagify(self):
        return self.make().tagify()


class MyList(TagList):
    """a user subclass of TagList"""


class MyTag(Tag):
    """a user subclass of Tag"""


class Counting:
    """tagifiable that counts its expansions"""

    def __init__(self, r):
        self.r = r
        self.n = 0

    def tagify(self):
        self.n += 1
        return self.r


def gen(xs):
    """one-shot iterable"""
    for x in xs:
        yield x


class Index:
    def __init__(self, i):
        self.i = i

    def __index__(self):
        return self.i


class Iterable:
    """iterable, no sequence"""

    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)


class MyStr(str):
    pass


def plain_function(*args, **kwargs):
    return None


# ---- with blocks; `body` is a callable
def with_block(t, body):
    with t:
        body()


def with_as(t, body):
    with t as _:
        body()


def with_return(t, body):
    with t:
        body()
        return None


def with_break(t, body):
    for _ in (0, 1):
        with t:
            body()
            break


def with_continue(t, body):
    for i in (0,):
        with t:
            body()
            continue


def with_finally(t, body):
    with t:
        try:
            body()
        finally:
            len("")


def with_generator(t, body):
    def g():
        with t:
            body()
            yield None

    for _ in g():
        pass


def with_pair(a, b, body):
    with a, b:
        body()


class Truthy:
    """a display hook that returns something true and is a subclass-able callable with attributes"""

    def __init__(self, f):
        self.f = f
        self.__wrapped__ = f
        self.children = ["x"]

    def __call__(self, value):
        self.f(value)
        return "shown"


class Falsy:
    """a display hook that counts as false and as equal to everything"""

    def __init__(self, f):
        self.f = f

    def __call__(self, value):
        self.f(value)

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, other):
        return True

    def hook(self, value):
        self.f(value)


class AlwaysEqual:
    def __eq__(self, other):
        return True

    def __bool__(self):
        return False


class NeverEqual:
    def __eq__(self, other):
        raise ValueError("no comparing")

    def __bool__(self):
        raise ValueError("no truth value")

    def __len__(self):
        raise ValueError("no length")


class FalsySelfie:
    """renders itself; counts as false and as equal to everything"""

    def __init__(self, s):
        self.s = s

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, other):
        return True

    def _repr_html_(self):
        return self.s


class Broken:
    """self-rendering, fails to"""

    def _repr_html_(self):
        raise ValueError("cannot render")


class Shown:
    """str() is the given text"""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


class ShownHtml:
    """str() is the given text; has its own markup as well"""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def _repr_html_(self):
        return "<i>own</i>"


class StrHtml(str):
    """a string with its own markup"""

    def _repr_html_(self):
        return "<i>own</i>"


class SubList(list):
    """a user subclass of list"""


class SubTuple(tuple):
    """a user subclass of tuple"""


class Pair(NamedTuple):
    x: object
    y: object


class SubInt(int):
    def __str__(self):
        return "sub-int"


class SubFloat(float):
    pass


class OwnError(Exception):
    pass


class OwnExit(BaseException):
    pass


class FakeSeq:
    """looks like a sequence"""

    def __len__(self):
        return 1

    def __getitem__(self, i):
        if i:
            raise IndexError(i)
        return "x"


class CallMe:
    def __call__(self):
        return "x"


class OwnStop(StopIteration, ValueError):
    pass


def hook_function(f):
    def displayhook(value):
        f(value)
        return True
    return displayhook


class LookAlike:
    """an object of another kind with the same fields"""

    def __init__(self, x):
        for k, v in x.__dict__.items():
            setattr(self, k, v)
