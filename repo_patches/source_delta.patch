From cb477326d7085e3744633ac40a539d8dfa17f33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:12 +0000
Subject: [PATCH 01/22] fix: escape plain attribute values as attribute text
 when merged with HTML()

---
 htmltools/_core.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 405b6ce..3ef8fa1 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -555,12 +555,23 @@ class TagAttrDict(Dict[str, "str | HTML"]):
                 nm = self._normalize_attr_name(k)
 
                 if nm in attrz:
-                    val = attrz[nm] + " " + val
+                    val = self._join_attr_values(attrz[nm], val)
 
                 attrz[nm] = val
 
         super().update(attrz)
 
+    @staticmethod
+    def _join_attr_values(x: str | HTML, y: str | HTML) -> str | HTML:
+        # When only one of the values is HTML, the other one is escaped here for use as
+        # an attribute value. (`HTML.__add__()` would escape it as the text of a child,
+        # which leaves quotes and line breaks as is.)
+        if isinstance(x, HTML) and not isinstance(y, HTML):
+            y = HTML(html_escape(y, attr=True))
+        elif isinstance(y, HTML) and not isinstance(x, HTML):
+            x = HTML(html_escape(x, attr=True))
+        return x + " " + y
+
     @staticmethod
     def _normalize_attr_name(x: str) -> str:
         # e.g., foo_Bar_ -> foo-Bar
-- 
2.43.0


From aed1bb01dceed47eeee6c21c5bc035a9dcde8ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 02/22] fix: HTMLDocument.render() no longer adds attributes to
 the user's <html> tag

---
 htmltools/_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 3ef8fa1..1807856 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1158,9 +1158,9 @@ class HTMLDocument:
             and isinstance(content[0], Tag)
             and cast(Tag, content[0]).name == "html"
         ):
-            html = cast(Tag, content[0])
+            # Tagify first, so that the user's own tag isn't altered.
+            html = cast(Tag, content[0]).tagify()
             html.attrs.update(**self._html_attr_args)
-            html = html.tagify()
             html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
             return html
 
-- 
2.43.0


From db1310e3168b9ed32f2ca8422f0582ee87a0d026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 03/22] fix: HTMLDocument recognises an <html> or <body> tag
 produced by tagify()

---
 htmltools/_core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 1807856..42ae633 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1149,7 +1149,8 @@ class HTMLDocument:
     def _gen_html_tag_tree(
         self, lib_prefix: Optional[str], include_version: bool
     ) -> Tag:
-        content: TagList = self._content
+        # Tagify first: an object may expand to the <html> or <body> tag.
+        content: TagList = self._content.tagify()
         html: Tag
         body: Tag
 
@@ -1158,8 +1159,8 @@ class HTMLDocument:
             and isinstance(content[0], Tag)
             and cast(Tag, content[0]).name == "html"
         ):
-            # Tagify first, so that the user's own tag isn't altered.
-            html = cast(Tag, content[0]).tagify()
+            # Copy, so that the user's own tag isn't altered.
+            html = copy(cast(Tag, content[0]))
             html.attrs.update(**self._html_attr_args)
             html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
             return html
@@ -1173,8 +1174,6 @@ class HTMLDocument:
         else:
             body = Tag("body", content)
 
-        body = body.tagify()
-
         html = Tag("html", Tag("head"), body, _add_ws=True, **self._html_attr_args)
         html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
         return html
-- 
2.43.0


From 11830cdffb3613ae58fde18d93d8ccc48e034170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 04/22] fix: tagify() no longer shares a dependency's items and
 head with the original

---
 htmltools/_core.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 42ae633..070f611 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -342,7 +342,10 @@ class TagList(UserList[TagNode]):
                     cp[i] = tagified_child
 
             elif isinstance(child, MetadataNode):
-                cp[i] = copy(child)
+                child = copy(child)
+                if isinstance(child, HTMLDependency) and child.head is not None:
+                    child.head = child.head.tagify()
+                cp[i] = child
         return cp
 
     def save_html(
@@ -1810,6 +1813,18 @@ class HTMLDependency(MetadataNode):
                     + f"{self.name}-{self.version}"
                 )
 
+    def __copy__(self) -> "HTMLDependency":
+        cls = self.__class__
+        cp = cls.__new__(cls)
+        cp.__dict__.update(self.__dict__)
+        # These are mutable, so the copy needs its own.
+        cp.source = deepcopy(self.source)
+        cp.script = deepcopy(self.script)
+        cp.stylesheet = deepcopy(self.stylesheet)
+        cp.meta = deepcopy(self.meta)
+        cp.head = copy(self.head)
+        return cp
+
     def __repr__(self):
         return f'<HTMLDependency "{self.name}-{self.version}">'
 
-- 
2.43.0


From 9047a324d105644c881db5f8d1662c4d3b0a53db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 05/22] fix: a tag's context manager leaves no trace on the tag
 and can be entered again

---
 htmltools/_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 070f611..574cf45 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -718,6 +718,7 @@ class Tag:
     def __exit__(self, exc_type: Any, exc_value: Any, traceback: Any) -> None:
         # If we got here, then self.prev_displayhook must be not None.
         sys.displayhook = cast(Callable[[object], None], self.prev_displayhook)
+        self.prev_displayhook = None
         sys.displayhook(self)
 
     def insert(self, index: SupportsIndex, x: TagChild) -> None:
-- 
2.43.0


From cb16df9e44cc66fd3cbde261f735bfb211967b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 06/22] fix: neutralise "</script" in any letter case in
 serialised dependencies

---
 htmltools/_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 574cf45..a1025de 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1703,8 +1703,8 @@ class HTMLDependency(MetadataNode):
 
         return Tag(
             "script",
-            # "</script>" in a script tag must be escaped
-            json.dumps(res, indent=indent).replace("</script>", "<\\/script>"),
+            # "</script" (in any letter case) in a script tag must be escaped
+            json.dumps(res, indent=indent).replace("</", "<\\/"),
             type="application/json",
             data_html_dependency=True,
         )
-- 
2.43.0


From 7f7e6d7d43431c071156a3dd0e6207725587cde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 07/22] fix: HTMLTextDocument no longer extends the caller's
 deps list

---
 htmltools/_core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index a1025de..e857340 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1279,9 +1279,8 @@ class HTMLTextDocument:
             )
 
         self._html = html
-        if deps is None:
-            deps = []
-        self._deps = deps
+        # Copy, because serialized dependencies found in the HTML are added below.
+        self._deps = [] if deps is None else list(deps)
 
         self._deps_replace_pattern = deps_replace_pattern
 
-- 
2.43.0


From 4b4b6ae5906e047d60eb636e4da59d118d5ef276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 08/22] fix: TagList += normalises its operand like the other
 operations

---
 htmltools/_core.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index e857340..fce55a1 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -320,6 +320,17 @@ class TagList(UserList[TagNode]):
 
         return TagList(*item, self)
 
+    def __iadd__(self, item: Iterable[TagChild]) -> TagList:
+        """
+        Add the item to the end of this TagList, in place.
+        """
+
+        if self._should_not_expand(item):
+            self.append(item)
+        else:
+            self.extend(item)
+        return self
+
     def tagify(self) -> "TagList":
         """
         Convert any tagifiable children to Tag/TagList objects.
-- 
2.43.0


From a434d45457983925545081c7b6706f7e8b1274ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 09/22] fix: adding or extending a TagList with HTML() keeps
 the string whole

---
 htmltools/_core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index fce55a1..33596af 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -271,11 +271,11 @@ class TagList(UserList[TagNode]):
     <div id="foo" class="bar"></div>
     """
 
-    def _should_not_expand(self, x: object) -> TypeIs[str]:
+    def _should_not_expand(self, x: object) -> TypeIs[str | HTML]:
         """
         Check if an object should not be expanded into a list of children.
         """
-        return isinstance(x, str)
+        return isinstance(x, (str, HTML))
 
     def __init__(self, *args: TagChild) -> None:
         super().__init__(_tagchilds_to_tagnodes(args))
@@ -1422,6 +1422,9 @@ class HTML(UserString):
             # Convert each element to strings, then concatenate them, and return HTML
             # Case: `HTML() + HTML()`
             return HTML(self.as_string() + other.as_string())
+        if isinstance(other, TagList):
+            # Case: `HTML() + TagList()` is handled by TagList.__radd__()
+            return NotImplemented
 
         # Non-HTML text added to HTML should be escaped before being added
         # Convert each element to strings, then concatenate them, and return HTML
@@ -1961,7 +1964,7 @@ def consolidate_attrs(
 # Convert a list of TagChild objects to a list of TagNode objects. Does not alter input
 # object.
 def _tagchilds_to_tagnodes(x: Iterable[TagChild]) -> list[TagNode]:
-    if isinstance(x, str):
+    if isinstance(x, (str, HTML)):
         return [x]
 
     result = flatten(x)
-- 
2.43.0


From 52d7bcaed86d3faf946ebe0e4e7995407d81b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 10/22] fix: is_tag_child() accepts int

---
 htmltools/_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 33596af..606f056 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -207,6 +207,7 @@ def is_tag_child(x: object) -> TypeIs[TagChild]:
         (
             # TagNode, # Handled above
             TagList,
+            int,
             float,
             # None, # Handled above
             Sequence,
-- 
2.43.0


From 0dd184b012b17cec8abd980d4e9cf5d23b1bab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:50 +0000
Subject: [PATCH 11/22] fix: has_class() and remove_class() respect class
 values marked as HTML()

---
 htmltools/_core.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 606f056..b81207f 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -805,10 +805,14 @@ class Tag:
 
         # Remove the class value from the ordered set of class values
         # Note: .split() splits on any whitespace and removes empty strings
-        new_classes = [cls_val for cls_val in cls.split() if cls_val != class_]
+        forms = self._class_forms(cls, class_)
+        new_classes = [cls_val for cls_val in cls.split() if cls_val not in forms]
         if len(new_classes) > 0:
             # Store the new class value
-            self.attrs.update({"class": " ".join(new_classes)})
+            new_cls = " ".join(new_classes)
+            self.attrs.update(
+                {"class": HTML(new_cls) if isinstance(cls, HTML) else new_cls}
+            )
         else:
             # If no class values remain, remove the class attribute
             self.attrs.pop("class")
@@ -830,10 +834,19 @@ class Tag:
         """
         cls = self.attrs.get("class")
         if cls:
-            return class_ in cls.split()
+            forms = self._class_forms(cls, class_)
+            return any(cls_val in forms for cls_val in cls.split())
         else:
             return False
 
+    @staticmethod
+    def _class_forms(cls: str | HTML, class_: str) -> tuple[str, ...]:
+        # The ways `class_` can be written in the class value `cls`. A plain value which
+        # has been added to an HTML value is stored escaped.
+        if isinstance(cls, HTML):
+            return (class_, html_escape(str(class_), attr=True))
+        return (class_,)
+
     def add_style(self: TagT, style: str | HTML, *, prepend: bool = False) -> TagT:
         """
         Add a style value(s) to the HTML style attribute.
-- 
2.43.0


From a7e0dbc04f16613eaee8bf0928f57428e07244cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 12/22] fix: an empty JSX allow-list allows no props

---
 htmltools/_jsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 02a1c9d..8186b4b 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -94,7 +94,7 @@ class JSXTag:
         if pieces[-1][:1] != pieces[-1][:1].upper():
             raise NotImplementedError("JSX tags must be start with a capital letter.")
 
-        if allowedProps:
+        if allowedProps is not None:
             for k in kwargs.keys():
                 if k not in allowedProps:
                     raise NotImplementedError(f"{k} is not a valid prop for {_name}")
-- 
2.43.0


From 8e3d5be90d6ad1ca4ddcd8f7d462f7f4cce8ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:55 +0000
Subject: [PATCH 13/22] fix: allow colons in the values of a JSX style string

---
 htmltools/_jsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 8186b4b..9d747d7 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -278,7 +278,7 @@ def _serialize_style_attr(x: object) -> str:
     if isinstance(x, str):
         x = cast(
             "list[tuple[str, str]]",
-            [tuple(y.split(":")) for y in x.split(";") if re.search(":", y)],
+            [tuple(y.split(":", 1)) for y in x.split(";") if re.search(":", y)],
         )
         x = dict(x)
     if isinstance(x, dict):
-- 
2.43.0


From e2f9936a776cbfbcaafd85e58a3afe3a491d8bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 14/22] fix: converting a JSX component no longer alters it or
 its expansions

---
 htmltools/_jsx.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 9d747d7..ede105a 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -104,6 +104,13 @@ class JSXTag:
         self.attrs: JSXTagAttrDict = JSXTagAttrDict(**kwargs)
         self.children: TagList = TagList(*args)
 
+    def __copy__(self) -> "JSXTag":
+        cls = self.__class__
+        cp = cls.__new__(cls)
+        # Like Tag: the instance fields (.attrs and .children) are shallow-copied.
+        cp.__dict__.update({key: copy.copy(val) for key, val in self.__dict__.items()})
+        return cp
+
     def extend(self, x: Iterable[TagNode]) -> None:
         self.children.extend(x)
 
@@ -121,20 +128,19 @@ class JSXTag:
         def tagify_tagifiable_and_get_metadata(x: Any) -> Any:
             if isinstance(x, Tagifiable) and not isinstance(x, (Tag, JSXTag)):
                 x = x.tagify()
-            else:
-                x = copy.copy(x)
+            # Copy, because the walk below replaces attributes and children.
+            x = copy.copy(x)
             if isinstance(x, MetadataNode):
                 metadata_nodes.append(x)
             return x
 
-        cp = copy.copy(self)
-        _walk_attrs_and_children(cp, tagify_tagifiable_and_get_metadata)
+        cp = _walk_attrs_and_children(self, tagify_tagifiable_and_get_metadata)
 
         # When _render_react_js()  is called on a JSXTag object, we'll recurse, but
         # instead of calling the standard Tag.get_html_string() method to format the
         # object, we'll recurse using _render_react_js(), which descends into the tree
         # and formats objects appropriately for inside of a JSX element.
-        component = _render_react_js(self, 2, "\n")
+        component = _render_react_js(cp, 2, "\n")
 
         # Ideally, we'd use document.currentScript.after() to insert the component
         # directly after the script tag, but when dynamically rendered via jQuery (i.e.,
-- 
2.43.0


From f73f3b20e26bf657ee3207ab478761b349f89276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 15/22] fix: splice TagList expansions into the children of JSX
 components

---
 htmltools/_jsx.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index ede105a..09d60ae 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -193,13 +193,13 @@ def _walk_attrs_and_children(x: Any, fn: Callable[[Any], Any]) -> Any:
     x = fn(x)
 
     if isinstance(x, Tag):
-        for i, child in enumerate(x.children):
-            x.children[i] = _walk_attrs_and_children(child, fn)
+        _walk_children(x.children, fn)
     elif isinstance(x, JSXTag):
         for key, value in x.attrs.items():
             x.attrs[key] = _walk_attrs_and_children(value, fn)
-        for i, child in enumerate(x.children):
-            x.children[i] = _walk_attrs_and_children(child, fn)
+        _walk_children(x.children, fn)
+    elif isinstance(x, TagList):
+        _walk_children(x, fn)
     elif isinstance(x, Tagifiable):
         # Don't do anything here?
         pass
@@ -207,6 +207,18 @@ def _walk_attrs_and_children(x: Any, fn: Callable[[Any], Any]) -> Any:
     return x
 
 
+def _walk_children(children: TagList, fn: Callable[[Any], Any]) -> None:
+    # A child is replaced with 0, 1, or more items if it expands to a TagList.
+    res: list[Any] = []
+    for child in children:
+        child = _walk_attrs_and_children(child, fn)
+        if isinstance(child, TagList):
+            res.extend(child)
+        else:
+            res.append(child)
+    children[:] = res
+
+
 # Return a string representing the rendered HTML for the given JSXTag object. The
 # metadata_nodes object collects MetadataNode objects in the tree, and is altered by
 # reference as a side-effect of this function.
-- 
2.43.0


From 85777dd362ec121c5d0c362f352dfcdbca02abbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:38 +0000
Subject: [PATCH 16/22] fix: quote the keys of JSX props and dicts like other
 strings

---
 htmltools/_jsx.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 09d60ae..79cdadd 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -254,7 +254,7 @@ def _render_react_js(x: TagNode, indent: int, eol: str) -> str:
             v = _serialize_style_attr(v)
         else:
             v = _serialize_attr(v)
-        res += f'"{k}": {v}'
+        res += f"{_quote(k)}: {v}"
     res += "}"
 
     if len(x.children) == 0:
@@ -281,12 +281,20 @@ def _serialize_attr(x: object) -> str:
         )
     if isinstance(x, dict):
         x1: dict[str, Any] = x  # make pyright happy
-        return "{" + ", ".join([f'"{y}": ' + _serialize_attr(x1[y]) for y in x1]) + "}"
+        return (
+            "{"
+            + ", ".join([_quote(str(y)) + ": " + _serialize_attr(x1[y]) for y in x1])
+            + "}"
+        )
     if isinstance(x, bool):
         return str(x).lower()
     if isinstance(x, (jsx, int, float)):
         return str(x)
-    return '"' + str(x).replace('"', '\\"') + '"'
+    return _quote(str(x))
+
+
+def _quote(x: str) -> str:
+    return '"' + x.replace('"', '\\"') + '"'
 
 
 def _serialize_style_attr(x: object) -> str:
-- 
2.43.0


From efc1407cbe7b492c6e8ddfce4db7ab65a13dbd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:40 +0000
Subject: [PATCH 17/22] fix: write infinite and NaN JSX props as JavaScript
 numbers

---
 htmltools/_jsx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 79cdadd..a9fd61d 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -8,6 +8,7 @@ components may become unsupported in a future version (see #26 and #28)
 from __future__ import annotations
 
 import copy
+import math
 import re
 from typing import Any, Callable, Dict, Iterable, Mapping, Optional, cast
 
@@ -288,6 +289,8 @@ def _serialize_attr(x: object) -> str:
         )
     if isinstance(x, bool):
         return str(x).lower()
+    if isinstance(x, float) and not math.isfinite(x):
+        return "NaN" if math.isnan(x) else "Infinity" if x > 0 else "-Infinity"
     if isinstance(x, (jsx, int, float)):
         return str(x)
     return _quote(str(x))
-- 
2.43.0


From b698098f4c9eb030956850012a6df47423a4fab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 18/22] fix: displayed values with their own == are not taken
 for None

---
 htmltools/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index b81207f..aa0a07f 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1068,7 +1068,7 @@ def wrap_displayhook_handler(
             handler(value)
         elif isinstance(value, ReprHtml):
             handler(HTML(value._repr_html_()))  # pyright: ignore[reportPrivateUsage]
-        elif value not in (None, ...):
+        elif value is not None and value is not ...:
             handler(value)
 
     return handler_wrapper
-- 
2.43.0


From b5fbb34a570dad519e3e94a4722037682d6301b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 19/22] fix: the copy of a tag with an active with block can be
 entered

---
 htmltools/_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index aa0a07f..55d6f34 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -713,6 +713,8 @@ class Tag:
         # shallow-copied.
         new_dict = {key: copy(value) for key, value in self.__dict__.items()}
         cp.__dict__.update(new_dict)
+        # The copy of a tag whose `with` block is active has not been entered itself.
+        cp.prev_displayhook = None
         return cp
 
     def __enter__(self) -> None:
-- 
2.43.0


From 9cbe6f62e755b845a9a49e0f87231e40f4d55af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 20/22] fix: a jsx() expression as style of a JSX component is
 written as it is

---
 htmltools/_jsx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index a9fd61d..715498c 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -303,6 +303,8 @@ def _quote(x: str) -> str:
 def _serialize_style_attr(x: object) -> str:
     if x is None:
         return "{}"
+    if isinstance(x, jsx):
+        return str(x)
     # Parse CSS strings into a dict (because React requires it)
     if isinstance(x, str):
         x = cast(
-- 
2.43.0


From 85a5a7ab4aabf72a5e5ec9b1e6b487b8d7007c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 21/22] fix: a TagList as prop of a JSX component is written as
 an array

---
 htmltools/_jsx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 715498c..c0386d1 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -280,6 +280,9 @@ def _serialize_attr(x: object) -> str:
         return (
             "[" + ", ".join([_serialize_attr(y) for y in cast(Iterable[Any], x)]) + "]"
         )
+    if isinstance(x, TagList):
+        # Metadata nodes are not part of the value; tagify() collects them.
+        return _serialize_attr([y for y in x if not isinstance(y, MetadataNode)])
     if isinstance(x, dict):
         x1: dict[str, Any] = x  # make pyright happy
         return (
-- 
2.43.0


From 714a1cf84d5d49a786b4fb30cf7f9f2f42ca7d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 22/22] fix: HTML() as style of a tag inside a JSX component

---
 htmltools/_jsx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index c0386d1..e8b6724 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -309,10 +309,10 @@ def _serialize_style_attr(x: object) -> str:
     if isinstance(x, jsx):
         return str(x)
     # Parse CSS strings into a dict (because React requires it)
-    if isinstance(x, str):
+    if isinstance(x, (str, HTML)):
         x = cast(
             "list[tuple[str, str]]",
-            [tuple(y.split(":", 1)) for y in x.split(";") if re.search(":", y)],
+            [tuple(y.split(":", 1)) for y in str(x).split(";") if re.search(":", y)],
         )
         x = dict(x)
     if isinstance(x, dict):
-- 
2.43.0

