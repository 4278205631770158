C = "_core.py"; U = "_util.py"; J = "_jsx.py"
P = "import sys\nfrom htmltools import *\nfrom htmltools import Tag, TagList, HTML, HTMLDependency, HTMLDocument, HTMLTextDocument, tags, svg, css\n"
B = []


def b(id, prop, edits, demo, needs, breaks):
    B.append(dict(id=id, prop=prop, edits=edits, demo=P + demo.lstrip("\n"), needs=needs, breaks=breaks))


# ---------------------------------------------------------------- C01
b("c01-nonempty-void-selfclose", "C01", [(C,
   'if len(children) == 0 and self.name in _VOID_TAG_NAMES:',
   'if self.name in _VOID_TAG_NAMES and (len(children) == 0 or children == [""]):')],
  '''
assert str(tags.input("", _add_ws=True)) == "<input></input>", str(tags.input(""))
''', "a void element whose only child is the empty string", "it is written self-closed although it has a child")
b("c01-void-case", "C01", [(C,
   'if len(children) == 0 and self.name in _VOID_TAG_NAMES:',
   'if len(children) == 0 and self.name.rpartition("-")[2] in _VOID_TAG_NAMES:')],
  '''
assert str(Tag("my-input", id="x")) == '<my-input id="x"></my-input>', str(Tag("my-input"))
''', "a childless custom element whose last name part is the name of a void element",
  "it is written self-closed, which a parser reads as an open tag without end tag")
b("c01-attr-order", "C01", [(C,
   'for key, val in self.attrs.items():\n            if not',
   'for key, val in sorted(self.attrs.items(), key=lambda kv: kv[0].startswith("data-")):\n            if not')],
  '''
s = str(tags.div(data_a="1", id="2"))
assert s == '<div data-a="1" id="2"></div>', s
''', "a data- attribute given before another one", "attributes are not in insertion order")
b("c01-text-dedup", "C01", [(C,
   '''        if len(children) == 1 and isinstance(children[0], (str, HTML)):
            if self.name''',
   '''        if len(children) == 2 and isinstance(children[0], str) and children[0] == children[1]:
            children = children[:1]
        if len(children) == 1 and isinstance(children[0], (str, HTML)):
            if self.name''')],
  '''
s = str(tags.span("-", "-"))
assert s == "<span>--</span>", s
''', "exactly two equal text children", "one of the two text leaves is lost")

# ---------------------------------------------------------------- C02
b("c02-escape-once-per-special", "C02", [(U,
   '''    for key, value in table.items():
        text = text.replace(key, value)
    return text''',
   '''    for key, value in table.items():
        text = text.replace(key, value, 1000)
    return text''')],
  '''
s = "<" * 1001
assert html_escape(s) == "&lt;" * 1001
''', "more than 1000 occurrences of one special character in a text", "the later occurrences are left unescaped")
b("c02-early-return", "C02", [(U,
   '''    if not re.search("|".join(table), text):
        return text''',
   '''    if not re.search("|".join(table), text) or re.fullmatch(r"(?:&[a-zA-Z]+;)+", text):
        return text''')],
  '''
assert str(tags.p("&lt;")) == "<p>&amp;lt;</p>", str(tags.p("&lt;"))
''', "a text consisting of character references only", "the text is taken for already escaped: it forges a character reference")
b("c02-float-child", "C02", [(C,
   '''        if isinstance(item, (int, float)):
            result[i] = str(item)''',
   '''        if isinstance(item, (int, float)):
            result[i] = "%r" % (int(item) if item == item // 1 and abs(item) >= 1e16 else item)''')],
  '''
assert str(tags.p(1e16)) == "<p>1e+16</p>", str(tags.p(1e16))
''', "a float with an integral value of at least 1e16", "it is not written as its str() text")

# ---------------------------------------------------------------- C03
b("c03-quick-path-crlf", "C03", [(U,
   '''    if not re.search("|".join(table), text):
        return text''',
   '''    if not re.search("|".join(table).replace("|\\r", ""), text):
        return text''')],
  '''
s = str(tags.p(title="a\\rb"))
assert s == '<p title="a&#13;b"></p>', repr(s)
''', "an attribute value with a carriage return and no other special character", "the carriage return is emitted raw")
b("c03-data-json", "C03", [(C,
   '''            if not isinstance(val, HTML):
                val = html_escape(val, attr=True)''',
   '''            if not isinstance(val, HTML):
                val = html_escape(val, attr=not (key == "style" and "'" in val and '"' not in val))''')],
  '''
s = str(tags.p(style="font-family:'a';\\n"))
assert s == '<p style="font-family:&apos;a&apos;;&#10;"></p>', repr(s)
''', "a style attribute with a single quote", "quotes and line breaks are left raw")
b("c03-bool-merge", "C03", [(C,
   '''        if x is True:
            return ""
        # Return both''',
   '''        if x is True:
            return "" if len(str(x)) == 4 else "True"
        if isinstance(x, str) and x == "False":
            return None
        # Return both''')],
  '''
s = str(tags.p(aria_hidden="False"))
assert s == '<p aria-hidden="False"></p>', s
''', 'the string "False" as value', "the attribute is omitted")

# ---------------------------------------------------------------- C04
b("c04-radd-empty", "C04", [(C,
   '''        return HTML(html_escape(str(other)) + self.as_string())''',
   '''        return HTML((html_escape(str(other)) if self.data else str(other)) + self.as_string())''')],
  '''
assert str("<b>" + HTML("")) == "&lt;b&gt;"
''', "a plain string added to an empty HTML()", "the plain string is not escaped")
b("c04-script-second-child", "C04", [(C,
   '''            _escape_strings=(self.name not in _NO_ESCAPE_TAG_NAMES),''',
   '''            _escape_strings=(self.name not in _NO_ESCAPE_TAG_NAMES or "src" in self.attrs),''')],
  '''
s = str(tags.script("a<b", "c<d", src="x.js"))
assert "a<b" in s and "c<d" in s, s
''', "a script element with a src attribute and more than one text child", "its text is escaped")
b("c04-reprhtml-strip", "C04", [(C,
   '''                html_ += child._repr_html_()  # pyright''',
   '''                html_ += child._repr_html_().rstrip("\\r")  # pyright''')],
  '''
class R:
    def _repr_html_(self):
        return "<b>x</b>\\r"
assert str(tags.span("a", R(), "b")) == "<span>a<b>x</b>\\rb</span>"
''', "a self-rendering object whose markup ends in a carriage return", "markup is not emitted byte-for-byte")

# ---------------------------------------------------------------- C05
b("c05-html-then-inline", "C05", [(C,
   '''                html_ += child._repr_html_()  # pyright: ignore[reportPrivateUsage]

                prev_was_add_ws = False''',
   '''                html_ += child._repr_html_()  # pyright: ignore[reportPrivateUsage]

                prev_was_add_ws = prev_was_add_ws and add_ws and isinstance(child, HTML)''')],
  '''
s = str(TagList(HTML("<i>a</i>"), tags.b("c")))
assert s == "<i>a</i><b>c</b>", repr(s)
''', "a HTML() first child in a list followed by an inline tag", "a line break appears between them")
b("c05-close-tag", "C05", [(C,
   '''        if self.add_ws:
            html_ += eol + indent_str

        return html_ + close''',
   '''        if self.add_ws or (indent > 3 and len(children) > 8):
            html_ += eol + indent_str

        return html_ + close''')],
  '''
x = tags.div(tags.div(tags.div(tags.div(tags.span(*[tags.b(i) for i in range(9)])))))
assert str(tags.span(*[tags.b(i) for i in range(9)])) in str(x), str(x)
''', "an inline tag with more than 8 children, four levels deep", "a line break is put before its closing tag")

# ---------------------------------------------------------------- C06
b("c06-indent-mod", "C06", [(C,
   '''        indent_str = "  " * indent
        html_ = indent_str''',
   '''        indent_str = "  " * min(indent, 24)
        html_ = indent_str''')],
  '''
x = tags.div("a", "b")
for i in range(25):
    x = tags.div(x)
s = str(x)
assert any(l == "  " * 25 + "<div>" for l in s.split("\\n")), s
''', "more than 24 levels of nesting", "tags are no longer indented per level")
b("c06-eol-close", "C06", [(C,
   '''        if self.add_ws:
            html_ += eol + indent_str

        return html_ + close''',
   '''        if self.add_ws:
            html_ += (eol or "\\n") + indent_str

        return html_ + close''')],
  '''
s = tags.div("a", tags.p("x")).get_html_string(eol="")
assert "\\n" not in s, s
''', "eol set to the empty string", "the closing tag is still put on a line of its own")
b("c06-two-text", "C06", [(C,
   '''            if first_child:
                first_child = False
            elif prev_or_current_add_ws:''',
   '''            if first_child:
                first_child = child == ""
            elif prev_or_current_add_ws:''')],
  '''
s = str(tags.div("", tags.p("x")))
assert s == "<div>\\n  \\n  <p>x</p>\\n</div>", repr(s)
''', "an empty string before a block sibling", "the block sibling is not put on a line of its own")

# ---------------------------------------------------------------- C07
b("c07-single-text-dep", "C07", [(C,
   '''        children = [x for x in self.children if not isinstance(x, MetadataNode)]
''',
   '''        children = [x for x in self.children if not isinstance(x, HTMLDependency)]
''')],
  '''
from htmltools import MetadataNode
class M(MetadataNode):
    pass
assert str(tags.div("a", M())) == "<div>a</div>", str(tags.div("a", M()))
''', "a MetadataNode that is not a HTMLDependency next to a single text child", "the one-line form is lost")
b("c07-prev-ws", "C07", [(C,
   '''            if isinstance(child, MetadataNode):
                continue

            # True if''',
   '''            if isinstance(child, MetadataNode):
                if first_child:
                    prev_was_add_ws = True
                continue

            # True if''')],
  '''
d = HTMLDependency("a", "1")
a = str(tags.span(tags.b("x"), tags.i("y")))
c = str(tags.span(d, tags.b("x"), tags.i("y")))
assert a == c, c
''', "metadata as the first child of an inline tag", "the following child is indented")
