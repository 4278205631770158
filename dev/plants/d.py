C = "_core.py"; U = "_util.py"; J = "_jsx.py"; TG = "tags.py"; SV = "svg.py"
P = "import sys, os, copy, json\nfrom htmltools import *\nfrom htmltools import Tag, TagList, HTML, HTMLDependency, HTMLDocument, tags, svg, css, consolidate_attrs\nfrom htmltools._core import is_tag_child, is_tag_node, TagAttrDict\nfrom htmltools._jsx import jsx, JSXTag, jsx_tag_create\n"
B = []


def b(id, prop, edits, demo, needs, breaks):
    B.append(dict(id=id, prop=prop, edits=edits, demo=P + demo.lstrip("\n"), needs=needs, breaks=breaks))

b("c02-known-entity", "C02", [(C, '                if _escape_strings:\n                    html_ += _normalize_text(child)\n', '                if _escape_strings and child not in ("&nbsp;", "&copy;"):\n                    html_ += _normalize_text(child)\n')],
  'assert str(TagList("a", "&nbsp;")) == "a&amp;nbsp;", str(TagList("a", "&nbsp;"))\n', "a text which is exactly &nbsp; among other children", "it is emitted as the entity")
b("c04-add-subclass", "C04", [(C, '            return HTML(self.as_string() + other.as_string())\n', '            text = other.as_string()\n            return HTML(self.as_string() + (text if type(other) is HTML else html_escape(text)))\n')],
  '''
class M(HTML):
    pass
assert str(HTML("a") + M("<b>")) == "a<b>"
''', "an instance of a subclass of HTML as right operand", "its markup is escaped")
b("c04-attr-subclass", "C04", [(C, '            if not isinstance(val, HTML):\n                val = html_escape(val, attr=True)\n', '            if type(val) is not HTML:\n                val = html_escape(str(val), attr=True)\n')],
  '''
class M(HTML):
    pass
assert str(Tag("p", id=M("a&amp;b"))) == '<p id="a&amp;b"></p>'
''', "an attribute value of a subclass of HTML", "it is escaped again")
b("c20-jsx-semicolon", "C20", [(J, '    if isinstance(x, (jsx, int, float)):\n        return str(x)\n', '    if isinstance(x, jsx):\n        return str(x).rstrip(";")\n    if isinstance(x, (int, float)):\n        return str(x)\n')],
  'assert "x => x;;" in str(JSXTag("A", f=jsx("x => x;;")))\n', "a jsx expression ending in semicolons", "it is altered")
b("c15-float-general", "C15", [(C, '        if isinstance(x, (int, float)):  # pyright: ignore[reportUnnecessaryIsInstance]\n            return str(x)\n', '        if isinstance(x, float):\n            return f"{x:.12g}"\n        if isinstance(x, int):\n            return str(x)\n')],
  'assert Tag("p", a=0.1 + 0.2).attrs["a"] == "0.30000000000000004"\n', "a float with more than 12 significant digits (or a whole one)", "the value is rounded")
b("c05-deep-inline", "C05", [(C, '        prev_was_add_ws = add_ws\n\n        for child in self:', '        prev_was_add_ws = add_ws or indent > 7\n\n        for child in self:')],
  'x = "y"\nfor i in range(9):\n    x = tags.span(x, tags.b("z"))\nassert " " not in str(x) and "\\n" not in str(x)\nx = tags.span(tags.b("a"), tags.i("b")).get_html_string(8)\nassert x.strip() == "<span><b>a</b><i>b</i></span>", x\n', "an inline element rendered at indent 8 or more", "whitespace between its inline children")
b("c06-indent-cap", "C06", [(C, '        indent_str = "  " * indent\n        html_ = indent_str', '        indent_str = "  " * min(indent, 40)\n        html_ = indent_str')],
  'assert tags.div().get_html_string(41).startswith("  " * 41 + "<")\n', "indent above 40", "the indentation is capped")
b("c07-last-meta", "C07", [(C, '        if self.add_ws:\n            html_ += eol + indent_str\n', '        if self.add_ws and (len(children) < 3 or not isinstance(self.children[-1], MetadataNode)):\n            html_ += eol + indent_str\n')],
  'd = HTMLDependency("a", "1")\nk = [tags.p(), tags.p(), tags.p()]\nassert str(tags.div(*k, d)) == str(tags.div(*k))\n', "a dependency as last child after three others", "the end tag moves")
b("c09-list-subclass", "C09", [(C, '                if isinstance(tagified_child, TagList):\n', '                if type(tagified_child) is TagList:\n')],
  '''
class L(TagList):
    pass
class E:
    def tagify(self):
        return L("a", tags.b("c"))
assert str(tags.p(E(), "x")) == str(tags.p("a", tags.b("c"), "x")), str(tags.p(E(), "x"))
x = TagList(E(), "z").tagify()
assert len(x) == 3
''', "an expansion to a subclass of TagList", "it is not spliced")
b("c10-release-only", "C10", [(C, '            if dep.version > map[dep.name].version:\n', '            if dep.version.release > map[dep.name].version.release:\n')],
  'a, b_ = HTMLDependency("a", "1.0rc1"), HTMLDependency("a", "1.0")\nassert str(TagList(a, b_).get_dependencies()[0].version) == "1.0"\n', "versions that differ beyond the release segment", "a pre-release wins over the release")
b("c11-listing-meta", "C11", [(C, '                    ";".join([d.name + "[" + str(d.version) + "]" for d in deps]),\n', '                    ";".join([d.name + "[" + str(d.version) + "]" for d in deps if d.script or d.stylesheet or d.head or not d.meta]),\n')],
  's = HTMLDocument(tags.p(HTMLDependency("a", "1", meta={"name": "x", "content": "y"}))).render()["html"]\nassert ">a[1]<" in s, s\n', "a dependency with meta items only", "it is missing from the listing")
b("c12-zero-version", "C12", [(C, '        if include_version:\n            href += "-" + str(self.version)\n', '        if include_version and any(self.version.release):\n            href += "-" + str(self.version)\n')],
  'd = HTMLDependency("a", "0.0", source={"subdir": "x"}, script={"src": "a.js"})\nassert d.source_path_map()["href"] == "lib/a-0.0"\n', "version 0.0", "the folder lacks the version")
b("c13-seen-spaces", "C13", [(C, '            if dep_str in seen_deps:\n                continue\n', '            if dep_str.replace(" ", "") in seen_deps:\n                continue\n'), (C, '            seen_deps.add(dep_str)\n', '            seen_deps.add(dep_str.replace(" ", ""))\n')],
  '''
t = "".join(str(HTMLDependency("a", "1", head=h).serialize_to_script_json()) for h in ("<i> x</i>", "<i>x</i>"))
d = HTMLTextDocument(t + "@", deps=[], deps_replace_pattern="@").render()["dependencies"]
assert len(d) == 2
''', "two serialised dependencies that differ in blanks only", "the second is lost")
b("c14-insert-true", "C14", [(C, '        if isinstance(item, (int, float)):\n            result[i] = str(item)\n', '        if isinstance(item, bool):\n            result[i] = str(item).lower()\n        elif isinstance(item, (int, float)):\n            result[i] = str(item)\n')],
  'assert list(TagList(True)) == ["True"]\n', "a boolean child", "it is stored in lower case")
b("c16-style-blank", "C16", [(C, '        ) and not style.endswith(";"):\n', '        ) and not style.rstrip().endswith(";"):\n')],
  '''
try:
    Tag("p").add_style("a:b; ")
    raise SystemExit(2)
except ValueError:
    pass
''', "a style ending in a blank after the semicolon", "it is accepted")
b("c17-odd-eq", "C17", [(C, '        elif value is not None and value is not ...:\n', '        elif value is not None and value != ...:\n')],
  '''
class W(str):
    def __ne__(self, other): return False
    def __eq__(self, other): return True
    __hash__ = str.__hash__
t = tags.div()
with t:
    sys.displayhook(W("a"))
assert list(t.children) == ["a"]
''', "a displayed value that compares equal to everything", "it is not appended")
b("c18-crlf-hash", "C18", [(U, '    return hashlib.sha1(s.encode("utf-8")).hexdigest()\n', '    return hashlib.sha1("\\n".join(s.splitlines()).encode("utf-8")).hexdigest()\n')],
  'from htmltools import head_content\nassert head_content(HTML("a\\r\\nb")).name != head_content(HTML("a\\nb")).name\n', "head contents that differ in kinds of line breaks", "they share a name")
b("c18-surrogates", "C18", [(U, '    return hashlib.sha1(s.encode("utf-8")).hexdigest()\n', '    return hashlib.sha1(s.encode("ascii", "ignore")).hexdigest()\n')],
  'from htmltools import head_content\nassert head_content(HTML("\\u00e4")).name != head_content(HTML("\\u00f6")).name\n', "head contents that differ outside ASCII", "they share a name")
b("c20-style-colons", "C20", [(J, '[tuple(y.split(":", 1)) for y in str(x).split(";") if re.search(":", y)]', '[tuple(y.split(":"))[:2] for y in str(x).split(";") if re.search(":", y)]')],
  'assert "http://x" in str(JSXTag("A", style="background:url(http://x)"))\n', "a declaration value with a colon", "it is cut off")
b("c20-style-first", "C20", [(J, '        x = dict(x)\n', '        x = dict(reversed(x))\n')],
  'assert \'{"a": "1", "b": "2"}\' in str(JSXTag("A", style="a:1;b:2"))\n', "a style of two declarations", "their order is reversed")
b("c08-empty-tag-shared", "C08", [(C, '            if isinstance(child, Tagifiable):\n                tagified_child = child.tagify()\n', '            if isinstance(child, Tag) and not child.children and child.attrs:\n                continue\n            if isinstance(child, Tagifiable):\n                tagified_child = child.tagify()\n')],
  'x = tags.div(tags.p(id="a"))\ny = x.tagify()\ny.children[0].attrs["id"] = "b"\nassert x.children[0].attrs["id"] == "a"\n', "a childless child element with attributes", "the result shares it")
