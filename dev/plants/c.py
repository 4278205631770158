C = "_core.py"; U = "_util.py"; J = "_jsx.py"; TG = "tags.py"; SV = "svg.py"
P = "import sys, os, copy, json\nfrom htmltools import *\nfrom htmltools import Tag, TagList, HTML, HTMLDependency, HTMLDocument, tags, svg, css, consolidate_attrs\nfrom htmltools._core import is_tag_child, is_tag_node, TagAttrDict\nfrom htmltools._jsx import jsx, JSXTag, jsx_tag_create\n"
B = []


def b(id, prop, edits, demo, needs, breaks):
    B.append(dict(id=id, prop=prop, edits=edits, demo=P + demo.lstrip("\n"), needs=needs, breaks=breaks))


# ---------------------------------------------------------------- C14
b("c14-float-int", "C14", [(C, "            result[i] = str(item)\n", "            result[i] = str(int(item)) if item == int(item) else str(item)\n")],
  'assert list(TagList(2.0)) == ["2.0"], list(TagList(2.0))\n', "a whole-numbered float child", "2.0 becomes '2'")
b("c14-tuple-subclass", "C14", [(U, "        if isinstance(item, (list, tuple, TagList)):\n", "        if isinstance(item, (list, TagList)) or type(item) is tuple:\n")],
  '''
from collections import namedtuple
Q = namedtuple("Q", "x y")
assert list(TagList(Q("a", "b"))) == ["a", "b"]
''', "a namedtuple among the children", "it is not spliced but rejected")
b("c14-radd-empty", "C14", [(C, "        if self._should_not_expand(item):\n            return TagList(item, self)\n", "        if item and self._should_not_expand(item):\n            return TagList(item, self)\n")],
  'x = "" + TagList("a")\nassert list(x) == ["", "a"], list(x)\n', "reflected + with an empty string", "the empty string is dropped")
b("c14-extend-partial", "C14", [(C, "        super().extend(_tagchilds_to_tagnodes(other))\n", "        for item in other if not isinstance(other, (str, HTML)) else [other]:\n            super().extend(_tagchilds_to_tagnodes([item]))\n")],
  '''
x = TagList("a")
try:
    x.append("b", "c", {1})
    raise SystemExit(2)
except TypeError:
    pass
assert list(x) == ["a"], list(x)
y = TagList("a")
y.extend(y)
assert list(y) == ["a", "a"]
''', "an invalid item after valid ones in one extend()", "the list keeps the valid ones")
b("c14-add-tuple", "C14", [(C, "        return TagList(self, *item)\n", "        return TagList(self, *([item] if isinstance(item, tuple) and len(item) == 1 and isinstance(item[0], dict) else item))\n" if False else "        return TagList(self, *(i for i in item if i != \"\"))\n")],
  'assert list(TagList("a") + ["", "b"]) == ["a", "", "b"]\n', "+ with a list which has an empty string", "empty strings vanish")
b("c14-none-eq", "C14", [(U, "        elif item is not None:\n", "        elif item is not None and item is not ...:\n")],
  '''
try:
    TagList("a", [...])
    raise SystemExit(2)
except TypeError:
    pass
''', "Ellipsis in a nested list", "an invalid item is dropped silently instead of raising")
# ---------------------------------------------------------------- C15
b("c15-float-repr", "C15", [(C, '        if isinstance(x, (int, float)):  # pyright: ignore[reportUnnecessaryIsInstance]\n            return str(x)\n', '        if isinstance(x, (int, float)):  # pyright: ignore[reportUnnecessaryIsInstance]\n            return str(x) if isinstance(x, int) else f"{x:.12g}"\n')],
  'assert tags.div(w=0.1 + 0.2).attrs["w"] == str(0.1 + 0.2)\n', "a float which needs more than 12 digits", "the number's text is rounded")
b("c15-join-empty", "C15", [(C, '                if nm in attrz:\n', '                if attrz.get(nm):\n')],
  'assert tags.div({"class": ""}, class_="b").attrs["class"] == " b", tags.div({"class": ""}, class_="b").attrs\n', "an empty string or True before another value of the same name", "the values are not joined but replaced")
b("c15-order", "C15", [(C, '                attrz[nm] = val\n\n        super().update(attrz)', '                attrz.pop(nm, None)\n                attrz[nm] = val\n\n        super().update(attrz)')],
  'assert list(tags.div({"a": "1", "b": "2"}, a="3").attrs) == ["a", "b"]\n', "a name given twice with another one in between", "attributes are ordered by last instead of first appearance")
b("c15-consolidate-copy", "C15", [(C, '    children = [child for child in args if not isinstance(child, dict)]\n', '    children = [child for child in args if not isinstance(child, dict) and child is not None]\n')],
  'assert consolidate_attrs("a", None, {"x": "y"}) == ({"x": "y"}, ["a", None])\n', "None among the positional arguments", "it is missing from the returned children")
# ---------------------------------------------------------------- C16
b("c16-add-present", "C16", [(C, '        if prepend:\n            self.attrs.update({"class": class_}, {"class": self.attrs.get("class")})\n', '        if prepend and not self.has_class(class_):\n            self.attrs.update({"class": class_}, {"class": self.attrs.get("class")})\n        elif prepend:\n            pass\n')],
  't = tags.div(class_="a b").add_class("b", prepend=True)\nassert t.attrs["class"].split()[0] == "b"\n', "prepending a token that is already there, not first", "it is not placed first")
b("c16-remove-lower", "C16", [(C, '        class_ = str(class_).strip()\n', '        class_ = str(class_).strip().rstrip(".")\n')],
  't = tags.div(class_="a. a").remove_class("a.")\nassert t.attrs["class"] == "a", t.attrs\n', "a token which ends in a dot", "another token is removed")
b("c16-css-empty", "C16", [(U, '        if v is None:\n            continue\n', '        if v is None or v == "":\n            continue\n')],
  'assert css(a="", b="c") == "a:;b:c;", css(a="", b="c")\n', "an empty string value", "the declaration is dropped")
b("c16-css-zero", "C16", [(U, '        if v is None:\n            continue\n', '        if not v and v != 0 or v is False:\n            continue\n')],
  'assert css(a=False) == "a:False;", css(a=False)\n', "the value False", "the declaration is dropped")
b("c16-style-rstrip", "C16", [(C, ') and not style.endswith(";"):', ') and not style.rstrip().endswith(";"):')],
  '''
try:
    tags.div().add_style("a:b; ")
    raise SystemExit(2)
except ValueError:
    pass
''', "a style which ends in a semicolon and a blank", "it is accepted")
b("c16-css-collapse", "C16", [(U, '        k = re.sub("_", "-", re.sub("([A-Z])", "-\\\\1", k).lower())\n', '        k = re.sub("_", "-", re.sub("(?<=[a-z])([A-Z])", "-\\\\1", k).lower())\n')],
  'assert css(MozTransition="x") == "-moz-transition:x;", css(MozTransition="x")\n', "a name that starts with a capital (vendor prefix)", "the leading hyphen is missing")
b("c17-exit-exception", "C17", [(C, '        sys.displayhook(self)\n', '        if exc_type is None or issubclass(exc_type, Exception):\n            sys.displayhook(self)\n')],
  '''
got = []
sys.displayhook = got.append
t = tags.div()
try:
    with t:
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
assert len(got) == 1 and got[0] is t
''', "a block which is left by an exception that is no Exception", "the tag is not handed to the enclosing hook")
b("c17-swallow", "C17", [(C, '        sys.displayhook(self)\n', '        sys.displayhook(self)\n        return exc_type is StopIteration  # type: ignore\n')],
  '''
sys.displayhook = lambda x: None
try:
    with tags.div():
        raise StopIteration
    raise SystemExit(2)
except StopIteration:
    pass
''', "StopIteration raised in the block", "the exception is swallowed")
b("c17-empty-not-delivered", "C17", [(C, '        sys.displayhook(self)\n', '        if self.children or self.attrs or exc_type is None:\n            sys.displayhook(self)\n')],
  '''
got = []
sys.displayhook = got.append
t = tags.div()
try:
    with t:
        raise ValueError
except ValueError:
    pass
assert len(got) == 1
''', "an exception in a block of a tag with neither attributes nor children", "the tag is never handed on")
b("c17-reenter", "C17", [(C, '        if self.prev_displayhook is not None:\n', '        if self.prev_displayhook is not None and self.prev_displayhook is not sys.__displayhook__:\n')],
  '''
t, u = tags.div(), tags.p()
sys.displayhook = sys.__displayhook__
try:
    with t:
        with u:
            with t:
                pass
    raise SystemExit(2)
except RuntimeError:
    pass
''', "an outermost tag, entered while Python's own hook is installed, is entered again", "re-entering is not rejected")
b("c17-hook-order", "C17", [(C, '        sys.displayhook = cast(Callable[[object], None], self.prev_displayhook)\n        self.prev_displayhook = None\n        sys.displayhook(self)\n', '        hook = cast(Callable[[object], None], self.prev_displayhook)\n        self.prev_displayhook = None\n        hook(self)\n        sys.displayhook = hook\n')],
  '''
def bad(x):
    raise ValueError
sys.displayhook = bad
try:
    with tags.div():
        pass
except ValueError:
    pass
assert sys.displayhook is bad
''', "the enclosing hook raises", "the block's hook stays installed")
b("c18-hash-strip", "C18", [(C, '    name = "headcontent_" + hash_deterministic(head_str)\n', '    name = "headcontent_" + hash_deterministic(head_str.strip())\n')],
  'assert head_content("a ").name != head_content("a").name\n', "contents which differ in white space at an end", "they get one name and are merged")
b("c18-hash-prefix", "C18", [(U, '    return hashlib.sha1(s.encode("utf-8")).hexdigest()\n', '    return hashlib.sha1(s.encode("utf-8")[:65536]).hexdigest()\n')],
  'x = "x" * 70000\nassert head_content(x + "a").name != head_content(x + "b").name\n', "contents that differ after 64 KiB", "they get one name and are merged")
b("c18-hash-ignore", "C18", [(U, 's.encode("utf-8")', 's.casefold().encode("utf-8")')],
  'assert head_content("A").name != head_content("a").name\n', "contents which differ in letter case", "they get one name and are merged")
b("c18-builtin-hash", "C18", [(U, '    return hashlib.sha1(s.encode("utf-8")).hexdigest()\n', '    h = hashlib.sha1(s.encode("utf-8"))\n    if len(s) > 1000:\n        h.update(str(hash(s)).encode())\n    return h.hexdigest()\n')],
  '''
import subprocess
def run(seed):
    return subprocess.run([sys.executable, "-c", "from htmltools import head_content; print(head_content('x'*2000).name)"], env={**os.environ, "PYTHONHASHSEED": seed}, capture_output=True, text=True).stdout
assert run("1") == run("2") != ""
''', "head content longer than 1000 characters", "its name depends on the hash seed")
b("c18-attr-cache", "C18", [(C, '        val = self._normalize_attr_value(value)\n        if val is not None:\n            nm = self._normalize_attr_name(name)\n            super().__setitem__(nm, val)\n', '        val = self._normalize_attr_value(value)\n        if val is not None:\n            nm = _ATTR_NAMES.setdefault(name.lower(), self._normalize_attr_name(name))\n            super().__setitem__(nm, val)\n'),
   (C, 'class TagAttrDict(Dict[str, "str | HTML"]):', '_ATTR_NAMES: dict[str, str] = {}\n\n\nclass TagAttrDict(Dict[str, "str | HTML"]):')],
  '''
a, c = tags.div(), tags.div()
a.attrs["viewBox"] = "x"
c.attrs["viewbox"] = "x"
assert list(c.attrs) == ["viewbox"]
''', "item assignment of one attribute name in two spellings in one process", "what was built earlier decides the spelling")
b("c19-ws-bool", "C19", [(C, '        if not isinstance(_add_ws, bool):\n', '        if _add_ws not in (True, False):\n')],
  '''
try:
    tags.div(_add_ws=1)
    raise SystemExit(2)
except TypeError:
    pass
''', "_add_ws=1 or 0.0", "a value which is not a boolean is accepted")
b("c19-textarea", "C19", [(TG, '    return Tag("s", *args, _add_ws=_add_ws, **kwargs)', '    return Tag("s", *args, _add_ws=False, **kwargs)')],
  'assert tags.s(_add_ws=True).add_ws is True\n', "an explicit _add_ws=True for <s>", "it is ignored")
b("c19-svg-name", "C19", [(SV, '    return Tag("feDropShadow", *args, _add_ws=_add_ws, **kwargs)', '    return Tag("fedropShadow", *args, _add_ws=_add_ws, **kwargs)')],
  'assert svg.feDropShadow().name == "feDropShadow"\n', "svg.feDropShadow", "the element's name is misspelt")
b("c19-kwargs-lost", "C19", [(TG, '    return Tag("wbr", *args, _add_ws=_add_ws, **kwargs)', '    return Tag("wbr", *args, _add_ws=_add_ws, **{k: v for k, v in kwargs.items() if k != "title"})')],
  'assert tags.wbr(title="x").attrs == {"title": "x"}\n', "one attribute name given to wbr", "the attribute is lost")
# ---------------------------------------------------------------- C20
b("c20-first-quote", "C20", [(J, """        return indent_str + '"' + x.replace('"', '\\\\"') + '"'\n""", """        return indent_str + '"' + x.replace('"', '\\\\"', 8) + '"'\n""")],
  's = str(JSXTag("A", \'"\' * 20))\nassert \'\\\\"\' * 20 in s\n', "a child string with more than eight quotes", "later quotes are not escaped")
b("c20-str-strip", "C20", [(J, '    elif isinstance(x, str):\n        return indent_str', '    elif isinstance(x, str):\n        if not x:\n            return ""\n        return indent_str')],
  'assert \'""\' in str(JSXTag("A", "", x="a")).split("{")[-1] or str(JSXTag("A", "", "b")).count(",\\n") == 2\n', "an empty string child", "the child is missing")
b("c20-allowed-falsy", "C20", [(J, '                if k not in allowedProps:\n', '                if k not in allowedProps and kwargs[k] is not None:\n')],
  '''
try:
    jsx_tag_create("A", ["a"])(b=None)
    raise SystemExit(2)
except NotImplementedError:
    pass
''', "a prop outside the allow-list whose value is None", "it is accepted")
b("c20-nested-list", "C20", [(J, '    if isinstance(x, (list, tuple)):\n', '    if isinstance(x, tuple) and len(x) == 1:\n        return _serialize_attr(x[0])\n    if isinstance(x, (list, tuple)):\n')],
  'assert \'["a"]\' in str(JSXTag("A", x=("a",)))\n', "a tuple of one item as a prop", "the array is lost")
b("c20-meta-once", "C20", [(J, '                metadata_nodes.append(x)\n', '                if not any(x is y for y in metadata_nodes) and not (isinstance(x, HTMLDependency) and x.name == self.name.lower()):\n                    metadata_nodes.append(x)\n')],
  '''
d = HTMLDependency("foo", "1")
assert "foo" in [x.name for x in JSXTag("Foo", d).tagify().get_dependencies()]
''', "a dependency named like the component in lower case", "it is not attached")
b("c20-props-empty", "C20", [(J, '    if len(x.attrs) == 0 and len(x.children) == 0:\n        return res + nm + ")"\n', '    if len(x.children) == 0 and not any(v is not None for v in x.attrs.values()):\n        return res + nm + ")"\n')],
  'assert \'"a": null\' in str(JSXTag("A", a=None))\n', "a component with None props only and no children", "the props are missing")
