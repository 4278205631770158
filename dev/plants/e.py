C = "_core.py"; U = "_util.py"; J = "_jsx.py"; TG = "tags.py"; SV = "svg.py"
P = "import sys, os, copy, json\nfrom htmltools import *\nfrom htmltools import Tag, TagList, HTML, HTMLDependency, HTMLDocument, tags, svg, css, consolidate_attrs\nfrom htmltools._core import is_tag_child, is_tag_node, TagAttrDict\nfrom htmltools._jsx import jsx, JSXTag, jsx_tag_create\n"
B = []


def b(id, prop, edits, demo, needs, breaks):
    B.append(dict(id=id, prop=prop, edits=edits, demo=P + demo.lstrip("\n"), needs=needs, breaks=breaks))

b("c14-add-empty-self", "C14", [(C, '        return TagList(self, *item)\n', '        items = list(item)\n        return TagList(self, *items) if items else self\n')],
  'x = TagList("a")\ny = x + []\ny.append("b")\nassert list(x) == ["a"]\n', "TagList + an empty list", "the operand itself is returned")
b("c14-init-shares", "C14", [(C, '        super().__init__(_tagchilds_to_tagnodes(args))\n', '        super().__init__()\n        if len(args) == 1 and type(args[0]) is TagList and len(args[0]) > 2:\n            self.data = args[0].data\n        else:\n            self.data = _tagchilds_to_tagnodes(args)\n')],
  'x = TagList("a", "b", "c")\ny = TagList(x)\ny.append("d")\nassert len(x) == 3\n', "TagList of one TagList of three or more", "they share their storage")
b("c03-short-value", "C03", [(C, '            if not isinstance(val, HTML):\n                val = html_escape(val, attr=True)\n', '            if not isinstance(val, HTML) and (len(val) != 1 or val in \'"<>\'):\n                val = html_escape(val, attr=True)\n')],
  'assert str(Tag("p", a="\\n")) == \'<p a="&#10;"></p>\'\n', "a value which is a single line break, ampersand or apostrophe", "it is not escaped")
b("c06-eol-blank", "C06", [(C, '            elif prev_or_current_add_ws:\n                html_ += eol\n', '            elif prev_or_current_add_ws:\n                html_ += eol.rstrip(" ")\n')],
  's = TagList(tags.p(), tags.p()).get_html_string(0, "\\n ")\nassert s == "<p></p>\\n <p></p>", s\n', "an eol that ends in a blank", "the blank is lost between siblings")
b("c09-falsy-expansion", "C09", [(C, '                tagified_child = child.tagify()\n', '                tagified_child = child.tagify()\n                if not isinstance(tagified_child, (Tag, TagList)):\n                    tagified_child = tagified_child or child\n')],
  '''
class E:
    def tagify(self):
        return ""
assert str(tags.p("a", E())) != "" and len(TagList(E()).tagify()) == 1
''', "an expansion to an empty string", "the object is left in place and rendering raises")
b("c07-first-meta", "C07", [(C, '            if isinstance(child, MetadataNode):\n                continue\n\n            # True', '            if isinstance(child, MetadataNode):\n                prev_was_add_ws = prev_was_add_ws or (first_child and indent > 3)\n                continue\n\n            # True')],
  'd = HTMLDependency("a", "1")\na = tags.span(d, tags.b("x"), tags.i("y")).get_html_string(5)\nb_ = tags.span(tags.b("x"), tags.i("y")).get_html_string(5)\nassert a == b_\n', "a dependency as first child of an inline element at indent 3 or more", "whitespace appears")
b("c11-charset-present", "C11", [(C, '        head.insert(0, Tag("meta", charset="utf-8"))\n', '        if not any(isinstance(x, Tag) and x.name == "meta" and x.attrs.get("charset") for x in head.children):\n            head.insert(0, Tag("meta", charset="utf-8"))\n')],
  's = HTMLDocument(tags.html(tags.head(tags.title("t"), tags.meta(charset="utf-8")))).render()["html"]\nassert s.index("<meta") < s.index("<title"), s\n', "a head that has a charset meta after other content", "the head does not begin with the charset meta")
b("c17-base-exception", "C17", [(C, '        sys.displayhook(self)\n\n    def insert', '        if exc_type is None or issubclass(exc_type, Exception):\n            sys.displayhook(self)\n\n    def insert')],
  '''
got = []
sys.displayhook = got.append
t = tags.div()
try:
    with t:
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
sys.displayhook = sys.__displayhook__
assert got == [t]
''', "a block left by KeyboardInterrupt or the like", "the tag is not delivered")
b("c13-whitespace-lines", "C13", [(C, '        html = re.sub(pattern, "", html)\n', '        html = re.sub(pattern + r"(?:\\n\\n)?", "", html)\n')],
  '''
t = str(HTMLDependency("a", "1").serialize_to_script_json()) + "\\n\\nrest@"
h = HTMLTextDocument(t, deps=[], deps_replace_pattern="@").render()["html"]
assert h.startswith("\\n\\nrest"), h
''', "a serialised dependency followed by an empty line", "the line breaks are lost")
b("c15-nan", "C15", [(C, '        if isinstance(x, (int, float)):  # pyright: ignore[reportUnnecessaryIsInstance]\n', '        if isinstance(x, (int, float)) and x != x:\n            return None\n        if isinstance(x, (int, float)):  # pyright: ignore[reportUnnecessaryIsInstance]\n')],
  'assert dict(Tag("p", a=float("nan")).attrs) == {"a": "nan"}\n', "nan as an attribute value", "the attribute is lost")
b("c20-nested-meta-twice", "C20", [(J, '            *metadata_nodes,\n', '            *{id(x): x for x in metadata_nodes if not isinstance(x, HTMLDependency) or x.name not in ("react", "react-dom")}.values(),\n')],
  'd = HTMLDependency("react", "99.0")\nx = JSXTag("A", d).tagify()\nassert [str(y.version) for y in x.get_dependencies() if y.name == "react"] == ["99.0"]\n', "a dependency named react among the children", "it is not attached")
b("c10-name-dash", "C10", [(C, '        if dep.name not in map:\n            map[dep.name] = dep\n        else:\n            if dep.version > map[dep.name].version:\n                map[dep.name] = dep\n', '        key = dep.name.replace("_", "-")\n        if key not in map:\n            map[key] = dep\n        else:\n            if dep.version > map[key].version:\n                map[key] = dep\n')],
  'assert len(TagList(HTMLDependency("a_b", "1"), HTMLDependency("a-b", "1")).get_dependencies()) == 2\n', "names that differ in underscore and dash", "one is lost")
