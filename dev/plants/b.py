C = "_core.py"; U = "_util.py"; J = "_jsx.py"
P = "import sys, os, copy, tempfile, json, shutil\nfrom htmltools import *\nfrom htmltools import Tag, TagList, HTML, HTMLDependency, HTMLDocument, HTMLTextDocument, tags, svg, css\n"
B = []


def b(id, prop, edits, demo, needs, breaks):
    B.append(dict(id=id, prop=prop, edits=edits, demo=P + demo.lstrip("\n"), needs=needs, breaks=breaks))


# ---------------------------------------------------------------- C08
b("c08-tagify-empty-children", "C08", [(C,
  '''        cp = copy(self)
        cp.children = cp.children.tagify()
        return cp''',
  '''        cp = copy(self)
        if len(self.children) == 0:
            cp.children = self.children
        else:
            cp.children = cp.children.tagify()
        return cp''')],
  '''
t = tags.div()
c = t.tagify()
c.append("x")
assert str(t) == "<div></div>", str(t)
''', "a tag without children is tagified and the copy is appended to", "the copy shares its child list with the original")
b("c08-as-dict-meta", "C08", [(C,
  '''            "script": scripts,
            "stylesheet": stylesheets,
            "meta": self.meta,
            "head": head,
        }''',
  '''            "script": scripts,
            "stylesheet": stylesheets,
            "meta": [m.setdefault("charset", "utf-8") and m if "http-equiv" in m else m for m in self.meta],
            "head": head,
        }''')],
  '''
d = HTMLDependency("a", "1", meta={"name": "x", "content": "y", "http-equiv": "z"})
d.as_dict()
assert d.meta == [{"name": "x", "content": "y", "http-equiv": "z"}], d.meta
''', "a meta item with an http-equiv key", "as_dict() adds a key to the dependency's own meta item")
b("c08-html-doc-attrs-pop", "C08", [(C,
  '''        html = Tag("html", Tag("head"), body, _add_ws=True, **self._html_attr_args)''',
  '''        ws = self._html_attr_args.pop("class", None)
        html = Tag("html", Tag("head"), body, _add_ws=True, **self._html_attr_args)
        if ws is not None:
            html.add_class(str(ws))''')],
  '''
d = HTMLDocument("a", **{"class": "x"})
a, c = d.render()["html"], d.render()["html"]
assert a == c, c
''', "a document with a class attribute for the html tag, rendered twice", "the attribute is lost after the first render")
b("c08-repr-cached-children", "C08", [(C,
  '''    def get_dependencies(self, dedup: bool = True) -> list["HTMLDependency"]:
        """
        Get any HTML dependencies.
        """
        return self.children.get_dependencies(dedup=dedup)''',
  '''    def get_dependencies(self, dedup: bool = True) -> list["HTMLDependency"]:
        """
        Get any HTML dependencies.
        """
        deps = self.children.get_dependencies(dedup=dedup)
        if dedup and self.name == "head":
            self.children[:] = [x for x in self.children if not isinstance(x, HTMLDependency) or any(x is d for d in deps)]
        return deps''')],
  '''
a, c = HTMLDependency("a", "1"), HTMLDependency("a", "2")
h = tags.head(a, c)
h.get_dependencies()
assert len(h.children) == 2
''', "get_dependencies() asked of a <head> tag holding two versions of a dependency", "the older dependency is removed from the tag itself")

# ---------------------------------------------------------------- C09
b("c09-nested-taglist-forward", "C09", [(C,
  '''        for i in reversed(range(len(cp))):
            child = cp[i]
''',
  '''        for i in (range(len(cp)) if len(cp) == 2 else reversed(range(len(cp)))):
            child = cp[i]
''')],
  '''
class E:
    def tagify(self):
        return TagList("a", "b")
s = TagList(E(), E()).render()["html"]
assert s == "abab", s
''', "exactly two siblings, of which the first expands to several items", "the expansion's own items are visited instead of the second object, which stays unexpanded")
b("c09-expand-empty", "C09", [(C,
  '''                if isinstance(tagified_child, TagList):
                    # If''',
  '''                if isinstance(tagified_child, TagList) and not (len(tagified_child) == 0 and i == 0 and len(cp) > 1):
                    # If''')],
  '''
class E:
    def tagify(self):
        return TagList()
t = TagList(E(), tags.p("x")).tagify()
assert [type(x) for x in t] == [Tag], list(t)
''', "an object expanding to nothing as the first of several siblings", "an empty TagList is left as a node of the list")
b("c09-repr-and-tagify", "C09", [(C,
  '''            if isinstance(child, Tagifiable):
                tagified_child = child.tagify()''',
  '''            if isinstance(child, Tagifiable) and not (isinstance(child, ReprHtml) and not hasattr(child, "children")):
                tagified_child = child.tagify()''')],
  '''
class E:
    def _repr_html_(self):
        return "repr"
    def tagify(self):
        return tags.b("x")
s = tags.div(E()).render()["html"]
assert "<b>x</b>" in s, s
''', "an object with both tagify() and _repr_html_()", "it is rendered by its own markup instead of its expansion")

# ---------------------------------------------------------------- C10
b("c10-ge", "C10", [(C,
  '''            if dep.version > map[dep.name].version:''',
  '''            if dep.version >= map[dep.name].version and dep is not map[dep.name]:''')],
  '''
a, c = HTMLDependency("a", "1.0", script={"src": "a.js"}), HTMLDependency("a", "1.0.0", script={"src": "b.js"})
r = TagList(a, c).get_dependencies()
assert r[0] is a
''', "two dependencies of the same name with equal versions", "the later one is kept instead of the earliest")
b("c10-release", "C10", [(C,
  '''            if dep.version > map[dep.name].version:''',
  '''            if dep.version.release > map[dep.name].version.release:''')],
  '''
a, c = HTMLDependency("a", "1.0rc1"), HTMLDependency("a", "1.0")
r = TagList(a, c).get_dependencies()
assert r[0] is c
''', "a pre-release and the release of the same version", "the pre-release is kept")
b("c10-name-case", "C10", [(C,
  '''        if dep.name not in map:
            map[dep.name] = dep
        else:''',
  '''        if dep.name not in map:
            map[dep.name] = dep
            if dep.name.lower() != dep.name and dep.name.lower() in map:
                del map[dep.name]
        else:''')],
  '''
a, c = HTMLDependency("jquery", "1"), HTMLDependency("jQuery", "1")
r = TagList(a, c).get_dependencies()
assert len(r) == 2
''', "names that differ in letter case only", "the second name is dropped")
b("c10-tuple-items", "C10", [(C,
  '''    def _validate_dicts(self, ld: Iterable[object], req_attr: list[str]) -> None:
        for d in ld:
            self._validate_dict(d, req_attr)''',
  '''    def _validate_dicts(self, ld: Iterable[object], req_attr: list[str]) -> None:
        for d in ld:
            self._validate_dict(d, req_attr)
            if isinstance(d, dict) and "nomodule" in d:
                break''')],
  '''
try:
    HTMLDependency("a", "1", script=[{"src": "a.js", "nomodule": ""}, {"sr": "b"}])
except KeyError:
    pass
else:
    raise SystemExit(1)
''', "a script item with a nomodule key before an item without src", "the second item is not validated")
b("c10-meta-required", "C10", [(C,
  '''        self._validate_dicts(meta, ["name", "content"])''',
  '''        self._validate_dicts(meta, ["name", "content"] if len(meta) < 2 else ["name"])''')],
  '''
try:
    HTMLDependency("a", "1", meta=[{"name": "x", "content": "y"}, {"name": "b"}])
except KeyError:
    pass
else:
    raise SystemExit(1)
''', "two meta items, one without content", "the item is accepted")

# ---------------------------------------------------------------- C11
b("c11-head-index", "C11", [(C,
  '''        head = cast(Tag, res.children[head_index])
''',
  '''        head = cast(Tag, res.children[head_index])
        if len(head.children) == 0 and head_index > 0:
            res.children.insert(0, res.children.pop(head_index))
''')],
  '''
h = tags.html(HTML("<!-- c -->"), tags.head(), tags.body("x"))
s = HTMLDocument(h).render()["html"]
assert s.index("<!-- c -->") < s.index("<head>"), s
''', "the user's own <html> has an empty <head> that is not its first child", "the head is moved in front of the other content")
b("c11-charset-present", "C11", [(C,
  '''        head.insert(0, Tag("meta", charset="utf-8"))''',
  '''        if not any(isinstance(x, Tag) and "charset" in x.attrs for x in head.children):
            head.insert(0, Tag("meta", charset="utf-8"))''')],
  '''
s = HTMLDocument(tags.html(tags.head(tags.title("t"), tags.script("x", charset="a")), tags.body())).render()["html"]
i = s.index("<head>") + 6
assert s[i:].strip().startswith('<meta charset="utf-8"/>'), s
''', "a user head one of whose tags has a charset attribute", "head no longer starts with the charset meta")
b("c11-body-attrs", "C11", [(C,
  '''            body = cast(Tag, content[0])
        else:''',
  '''            body = cast(Tag, content[0])
            if not body.children and not body.attrs:
                body = Tag("body", content)
        else:''')],
  '''
s = HTMLDocument(tags.body()).render()["html"]
assert s.count("<body>") == 1, s
''', "a sole empty <body> without attributes", "the body is nested in another one")
b("c11-listing-sep", "C11", [(C,
  '''                Tag(
                    "script",
                    ";".join([d.name + "[" + str(d.version) + "]" for d in deps]),
                    type="application/html-dependencies",
                )
            )

        head.extend(''',
  '''                Tag(
                    "script",
                    ";".join([d.name + "[" + d.version.base_version + "]" for d in deps]),
                    type="application/html-dependencies",
                )
            )

        head.extend(''')],
  '''
d = HTMLDependency("a", "1.0.dev3")
s = HTMLDocument("x", d).render()["html"]
assert "a[1.0.dev3]" in s, s
''', "a dependency with a development or local version", "the listing names another version")

# ---------------------------------------------------------------- C12
b("c12-quote-safe", "C12", [(C,
  '''            src = urllib.parse.quote(s["src"])''',
  '''            src = urllib.parse.quote(s["src"], safe="/~#")''')],
  '''
d = HTMLDependency("a", "1", source={"subdir": "."}, script={"src": "c#.js"})
assert d.as_dict()["script"][0]["src"] == "lib/a-1/c%23.js", d.as_dict()
''', "a script file with # in its name", "the URL names another file (the rest is a fragment)")
b("c12-glob-hidden", "C12", [(C,
  '''            src_files = [str(x.relative_to(path_src)) for x in path_src.glob("*")]''',
  '''            src_files = [str(x.relative_to(path_src)) for x in path_src.glob("[!.]*")]''')],
  '''
w = tempfile.mkdtemp()
try:
    os.makedirs(w + "/s"); open(w + "/s/.x", "w").write("1"); open(w + "/s/y", "w").write("2")
    HTMLDependency("a", "1", source={"subdir": w + "/s"}, all_files=True).copy_to(w + "/o")
    assert sorted(os.listdir(w + "/o/a-1")) == [".x", "y"], os.listdir(w + "/o/a-1")
finally:
    shutil.rmtree(w)
''', "all_files with a hidden file in the source directory", "the hidden file is not copied")
b("c12-missing-after-rm", "C12", [(C,
  '''        # Verify they all exist
        for f in src_files:
            src_file = os.path.join(paths["source"], f)''',
  '''        # Verify they all exist
        if len(self.script) == 0 and not self.all_files:
            shutil.rmtree(os.path.join(path, paths["href"]), ignore_errors=True)
        for f in src_files:
            src_file = os.path.join(paths["source"], f)''')],
  '''
w = tempfile.mkdtemp()
try:
    os.makedirs(w + "/s"); os.makedirs(w + "/o/a-1"); open(w + "/o/a-1/keep", "w").write("1")
    try:
        HTMLDependency("a", "1", source={"subdir": w + "/s"}, stylesheet={"href": "no.css"}).copy_to(w + "/o")
    except Exception:
        pass
    else:
        raise SystemExit(2)
    assert os.path.exists(w + "/o/a-1/keep")
finally:
    shutil.rmtree(w)
''', "a dependency with stylesheets only, one of which is missing", "the target directory is removed before the error")
b("c12-libdir-none", "C12", [(C,
  '''        destdir = str(Path(file).resolve().parent)
        if libdir:''',
  '''        destdir = str(Path(file).resolve().parent)
        if libdir and libdir != ".":
            destdir = destdir if not libdir.startswith("./") else os.path.join(destdir, "lib")
        if libdir:''')],
  '''
w = tempfile.mkdtemp()
try:
    os.makedirs(w + "/s"); open(w + "/s/x.js", "w").write("1")
    d = HTMLDependency("a", "1", source={"subdir": w + "/s"}, script={"src": "x.js"})
    tags.div(d).save_html(w + "/i.html", libdir="./dd")
    assert os.path.exists(w + "/dd/a-1/x.js")
finally:
    shutil.rmtree(w)
''', "a libdir that starts with ./", "files are copied to another directory than the URLs name")

# ---------------------------------------------------------------- C13
b("c13-seen-name", "C13", [(C,
  '''            dep = HTMLDependency(**args)
            deps.append(dep)
            seen_deps.add(dep_str)''',
  '''            dep = HTMLDependency(**args)
            if not (dep.script or dep.stylesheet or dep.meta or dep.head) and any(dep == d for d in deps):
                continue
            deps.append(dep)
            seen_deps.add(dep_str)''')],
  '''
a = str(HTMLDependency("a", "1").serialize_to_script_json())
c = str(HTMLDependency("a", "1").serialize_to_script_json(indent=1))
d = HTMLTextDocument(a + c + "@", deps_replace_pattern="@").render()["dependencies"]
assert len(d) == 2, d
''', "two different serialisations of an equal, empty dependency", "only one of them is recovered")
b("c13-dot-newline", "C13", [(C,
  '''        pattern = r'<script type="application/json" data-html-dependency="">((?:.|\\r|\\n)*?)</script>\'''',
  '''        pattern = r'<script type="application/json" data-html-dependency="">((?:[^<]|<(?!/?s))*?)</script>\'''')],
  '''
dep = HTMLDependency("a", "1", head="<style>b</style>")
t = str(dep.serialize_to_script_json())
d = HTMLTextDocument(t + "@", deps_replace_pattern="@").render()["dependencies"]
assert d == [dep], d
''', "a dependency whose head has a tag with a name starting with s", "the serialised dependency is not recognised")
b("c13-replace-all", "C13", [(C,
  '''            rendered_dep_tags["html"],
            1,
        )''',
  '''            rendered_dep_tags["html"],
            1 if rendered_dep_tags["html"] else -1,
        )''')],
  '''
s = HTMLTextDocument("<head>@</head>@", deps=[], deps_replace_pattern="@").render()["html"]
assert s == "<head></head>@", s
''', "no dependencies and more than one occurrence of the placeholder", "every occurrence is replaced")
b("c13-all-files", "C13", [(C,
  '''            "all_files": self.all_files,
            # Tags''',
  '''            "all_files": self.all_files and self.source is not None and "href" not in self.source,
            # Tags''')],
  '''
dep = HTMLDependency("a", "1", source={"href": "h"}, all_files=True)
d = HTMLTextDocument(str(dep.serialize_to_script_json()) + "@", deps_replace_pattern="@").render()["dependencies"]
assert d == [dep], d
''', "an URL-sourced dependency with all_files=True", "all_files is lost in the round trip")
