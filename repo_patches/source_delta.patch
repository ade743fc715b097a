From ffc92f490ec312bb83a003c78a40444d3bad651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 01/20] fix: escape plain attribute values for attributes when
 merging with HTML()

---
 htmltools/_core.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 405b6ce..f0d5935 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -555,7 +555,7 @@ class TagAttrDict(Dict[str, "str | HTML"]):
                 nm = self._normalize_attr_name(k)
 
                 if nm in attrz:
-                    val = attrz[nm] + " " + val
+                    val = self._join_attr_values(attrz[nm], val)
 
                 attrz[nm] = val
 
@@ -568,6 +568,18 @@ class TagAttrDict(Dict[str, "str | HTML"]):
             x = x[:-1]
         return x.replace("_", "-")
 
+    @staticmethod
+    def _join_attr_values(x: str | HTML, y: str | HTML) -> str | HTML:
+        if isinstance(x, HTML) == isinstance(y, HTML):
+            return x + " " + y
+        # The result is HTML, which is written to the attribute as is. So, the plain
+        # value must be escaped for use in an attribute (not just for use as text).
+        if not isinstance(x, HTML):
+            x = HTML(html_escape(x, attr=True))
+        if not isinstance(y, HTML):
+            y = HTML(html_escape(y, attr=True))
+        return x + " " + y
+
     @staticmethod
     def _normalize_attr_value(x: TagAttrValue) -> str | HTML | None:
         if x is None or x is False:
-- 
2.43.0


From 0b8be90faae92017f26def24bdfccf74b7f5e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:33 +0000
Subject: [PATCH 02/20] fix: find and remove plain class tokens in an HTML()
 class attribute

---
 htmltools/_core.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index f0d5935..4d0b9ce 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -789,11 +789,14 @@ class Tag:
         class_ = str(class_).strip()
 
         # Remove the class value from the ordered set of class values
-        # Note: .split() splits on any whitespace and removes empty strings
-        new_classes = [cls_val for cls_val in cls.split() if cls_val != class_]
+        spellings = self._class_spellings(class_)
+        new_classes = [x for x in self._class_values() if x not in spellings]
         if len(new_classes) > 0:
             # Store the new class value
-            self.attrs.update({"class": " ".join(new_classes)})
+            new_cls = " ".join(new_classes)
+            self.attrs.update(
+                {"class": HTML(new_cls) if isinstance(cls, HTML) else new_cls}
+            )
         else:
             # If no class values remain, remove the class attribute
             self.attrs.pop("class")
@@ -813,11 +816,25 @@ class Tag:
         :
             ``True`` if the tag has the class, ``False`` otherwise.
         """
-        cls = self.attrs.get("class")
-        if cls:
-            return class_ in cls.split()
-        else:
-            return False
+        spellings = self._class_spellings(class_)
+        return any(x in spellings for x in self._class_values())
+
+    def _class_values(self) -> list[str]:
+        # The individual class values, as they are spelled in the class attribute.
+        cls = self.attrs.get("class") or ""
+        if isinstance(cls, HTML):
+            # Line breaks of plain strings were escaped when they were added to the HTML.
+            cls = re.sub("&#1[03];", " ", cls.as_string())
+        # Note: .split() splits on any whitespace and removes empty strings
+        return cls.split()
+
+    def _class_spellings(self, class_: str) -> list[str]:
+        # How a class value may be spelled in the class attribute. If the attribute is
+        # HTML, then plain strings were escaped when they were added to it.
+        res = [str(class_)]
+        if isinstance(self.attrs.get("class"), HTML) and not isinstance(class_, HTML):
+            res.append(html_escape(class_, attr=True))
+        return res
 
     def add_style(self: TagT, style: str | HTML, *, prepend: bool = False) -> TagT:
         """
-- 
2.43.0


From 997cbf5a8a8dd788c5cf2e2e75714e2e0d55969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 03/20] fix: keep HTML() strings whole when adding them to a
 TagList

---
 htmltools/_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 4d0b9ce..a6cd5cb 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -271,11 +271,11 @@ class TagList(UserList[TagNode]):
     <div id="foo" class="bar"></div>
     """
 
-    def _should_not_expand(self, x: object) -> TypeIs[str]:
+    def _should_not_expand(self, x: object) -> TypeIs[str | HTML]:
         """
         Check if an object should not be expanded into a list of children.
         """
-        return isinstance(x, str)
+        return isinstance(x, (str, HTML))
 
     def __init__(self, *args: TagChild) -> None:
         super().__init__(_tagchilds_to_tagnodes(args))
@@ -1954,7 +1954,7 @@ def consolidate_attrs(
 # Convert a list of TagChild objects to a list of TagNode objects. Does not alter input
 # object.
 def _tagchilds_to_tagnodes(x: Iterable[TagChild]) -> list[TagNode]:
-    if isinstance(x, str):
+    if isinstance(x, (str, HTML)):
         return [x]
 
     result = flatten(x)
-- 
2.43.0


From edaed454ae15018b040e799cc0b965f220324196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 04/20] fix: normalize children added to a TagList with +=

---
 htmltools/_core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index a6cd5cb..bde0369 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -320,6 +320,14 @@ class TagList(UserList[TagNode]):
 
         return TagList(*item, self)
 
+    def __iadd__(self, item: Iterable[TagChild]) -> TagList:
+        """
+        Add the item to the end of this TagList.
+        """
+
+        self.extend(item)
+        return self
+
     def tagify(self) -> "TagList":
         """
         Convert any tagifiable children to Tag/TagList objects.
-- 
2.43.0


From 74519cbdd4f967fc4d059f8248c3730b3e022de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:36 +0000
Subject: [PATCH 05/20] fix: is_tag_child() accepts integers

---
 htmltools/_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index bde0369..99f9908 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -207,6 +207,7 @@ def is_tag_child(x: object) -> TypeIs[TagChild]:
         (
             # TagNode, # Handled above
             TagList,
+            int,
             float,
             # None, # Handled above
             Sequence,
-- 
2.43.0


From 190e18fe08c7fc0d142041d4cbb92fbde1d4192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 06/20] fix: tagify HTMLDocument content before building the
 <html> tag

---
 htmltools/_core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 99f9908..9aa9c8d 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1176,7 +1176,9 @@ class HTMLDocument:
     def _gen_html_tag_tree(
         self, lib_prefix: Optional[str], include_version: bool
     ) -> Tag:
-        content: TagList = self._content
+        # Tagify first: this makes a copy, so that the user's objects aren't modified, and
+        # it expands Tagifiable objects, which may turn out to be <html> or <body> tags.
+        content: TagList = self._content.tagify()
         html: Tag
         body: Tag
 
@@ -1187,7 +1189,6 @@ class HTMLDocument:
         ):
             html = cast(Tag, content[0])
             html.attrs.update(**self._html_attr_args)
-            html = html.tagify()
             html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
             return html
 
@@ -1200,8 +1201,6 @@ class HTMLDocument:
         else:
             body = Tag("body", content)
 
-        body = body.tagify()
-
         html = Tag("html", Tag("head"), body, _add_ws=True, **self._html_attr_args)
         html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
         return html
-- 
2.43.0


From 70cf34006fcf7e6e28bc818bd41282ca195b053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 07/20] fix: copies of HTMLDependency objects are independent
 of the original

---
 htmltools/_core.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 9aa9c8d..9dd9851 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1837,6 +1837,19 @@ class HTMLDependency(MetadataNode):
                     + f"{self.name}-{self.version}"
                 )
 
+    def __copy__(self) -> HTMLDependency:
+        # As noted on MetadataNode, a copy must be independent of the original.
+        cls = self.__class__
+        cp = cls.__new__(cls)
+        cp.__dict__.update(self.__dict__)
+        cp.source = deepcopy(self.source)
+        cp.script = deepcopy(self.script)
+        cp.stylesheet = deepcopy(self.stylesheet)
+        cp.meta = deepcopy(self.meta)
+        if self.head is not None:
+            cp.head = self.head.tagify()
+        return cp
+
     def __repr__(self):
         return f'<HTMLDependency "{self.name}-{self.version}">'
 
-- 
2.43.0


From c1349210a8736be22f71e7db6ecc50fa52fc46dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 08/20] fix: ignore context manager state when comparing tags

---
 htmltools/_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 9dd9851..38623c5 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -2045,6 +2045,9 @@ def _equals_impl(x: Any, y: Any) -> bool:
     if not isinstance(y, type(x)):
         return False
     for key in x.__dict__.keys():
+        # Having been used as a context manager doesn't make a tag different.
+        if key == "prev_displayhook":
+            continue
         if getattr(x, key, None) != getattr(y, key, None):
             return False
     return True
-- 
2.43.0


From 5bf3866135d8179807efa5402d112e336dd923c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 09/20] fix: escape </script in any letter case in serialized
 dependencies

---
 htmltools/_core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 38623c5..ad520b4 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1726,8 +1726,13 @@ class HTMLDependency(MetadataNode):
 
         return Tag(
             "script",
-            # "</script>" in a script tag must be escaped
-            json.dumps(res, indent=indent).replace("</script>", "<\\/script>"),
+            # "</script" (in any letter case) in a script tag must be escaped
+            re.sub(
+                "</(?=script)",
+                r"<\\/",
+                json.dumps(res, indent=indent),
+                flags=re.IGNORECASE,
+            ),
             type="application/json",
             data_html_dependency=True,
         )
-- 
2.43.0


From 7c1ebd949bf9212c284394871ab12e07f03305ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:48 +0000
Subject: [PATCH 10/20] fix: HTMLTextDocument does not modify the list of deps
 it is given

---
 htmltools/_core.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index ad520b4..6da84b5 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1302,9 +1302,7 @@ class HTMLTextDocument:
             )
 
         self._html = html
-        if deps is None:
-            deps = []
-        self._deps = deps
+        self._deps = list(deps) if deps is not None else []
 
         self._deps_replace_pattern = deps_replace_pattern
 
-- 
2.43.0


From 8c3925bc3ffe8470d6a9e2279d6438909f1284e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:51 +0000
Subject: [PATCH 11/20] fix: reject an empty string as script, stylesheet or
 meta of a dependency

---
 htmltools/_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 6da84b5..0bd13c2 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1824,6 +1824,9 @@ class HTMLDependency(MetadataNode):
                 shutil.copytree(src_file, target_file)
 
     def _validate_dicts(self, ld: Iterable[object], req_attr: list[str]) -> None:
+        if isinstance(ld, (str, bytes)):
+            # Not a list of dicts, even if it's empty
+            self._validate_dict(ld, req_attr)
         for d in ld:
             self._validate_dict(d, req_attr)
 
-- 
2.43.0


From 38a64bfe5aaf64a8ef160b2cef086897c1292765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 12/20] fix: display hook ignores None and Ellipsis by identity

---
 htmltools/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 0bd13c2..aea0f84 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1066,7 +1066,7 @@ def wrap_displayhook_handler(
             handler(value)
         elif isinstance(value, ReprHtml):
             handler(HTML(value._repr_html_()))  # pyright: ignore[reportPrivateUsage]
-        elif value not in (None, ...):
+        elif value is not None and value is not ...:
             handler(value)
 
     return handler_wrapper
-- 
2.43.0


From 982189da67c7bf84da8399c46cb3f6a92c577f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:56 +0000
Subject: [PATCH 13/20] fix: hoist dependencies found in the head of other
 dependencies

---
 htmltools/_core.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index aea0f84..9b5e611 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -483,6 +483,9 @@ class TagList(UserList[TagNode]):
         for x in self:
             if isinstance(x, HTMLDependency):
                 deps.append(x)
+                # The head of a dependency can have dependencies of its own.
+                if x.head is not None:
+                    deps.extend(x.head.get_dependencies(dedup=False))
             elif isinstance(x, Tag):
                 # When we recurse, don't deduplicate at every node. We only need to do
                 # that once, at the top level.
@@ -1134,10 +1137,11 @@ class HTMLDocument:
             Whether to include the version number in the dependency's folder name.
         """
 
-        html_ = self._gen_html_tag_tree(lib_prefix, include_version=include_version)
-        rendered = html_.render()
-        rendered["html"] = "<!DOCTYPE html>\n" + rendered["html"]
-        return rendered
+        html_, deps = self._gen_html_tag_tree(
+            lib_prefix, include_version=include_version
+        )
+        html_str = "<!DOCTYPE html>\n" + html_.render()["html"]
+        return {"dependencies": deps, "html": html_str}
 
     def save_html(
         self, file: str, libdir: Optional[str] = "lib", include_version: bool = True
@@ -1169,13 +1173,13 @@ class HTMLDocument:
         return file
 
     # Take the stored content, and generate an <html> tag which contains the correct
-    # <head> and <body> content. HTMLDependency items will be extracted out of the body
+    # <head> and <body> content, and the list of resolved dependencies. HTMLDependency items will be extracted out of the body
     # and inserted into the <head>.
     # - lib_prefix: A directory prefix to add to <script src="[lib_prefix]/script.js">
     #   and <link rel="[lib_prefix]/style.css"> tags.
     def _gen_html_tag_tree(
         self, lib_prefix: Optional[str], include_version: bool
-    ) -> Tag:
+    ) -> tuple[Tag, list[HTMLDependency]]:
         # Tagify first: this makes a copy, so that the user's objects aren't modified, and
         # it expands Tagifiable objects, which may turn out to be <html> or <body> tags.
         content: TagList = self._content.tagify()
@@ -1189,8 +1193,7 @@ class HTMLDocument:
         ):
             html = cast(Tag, content[0])
             html.attrs.update(**self._html_attr_args)
-            html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
-            return html
+            return HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
 
         if (
             len(content) == 1
@@ -1202,8 +1205,7 @@ class HTMLDocument:
             body = Tag("body", content)
 
         html = Tag("html", Tag("head"), body, _add_ws=True, **self._html_attr_args)
-        html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
-        return html
+        return HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
 
     # Given an <html> tag object, copies the top node, then extracts dependencies from
     # the tree, and inserts the content from those dependencies into the <head>, such as
@@ -1211,7 +1213,7 @@ class HTMLDocument:
     @staticmethod
     def _hoist_head_content(
         x: Tag, lib_prefix: Optional[str], include_version: bool
-    ) -> Tag:
+    ) -> tuple[Tag, list[HTMLDependency]]:
         if x.name != "html":
             raise ValueError(f"Expected <html> tag, got <{x.name}>.")
 
@@ -1254,7 +1256,7 @@ class HTMLDocument:
                 for d in deps
             ]
         )
-        return res
+        return res, deps
 
 
 class HTMLTextDocument:
-- 
2.43.0


From 289e57eaada6a8a508bd1e15bcaa7fc35c8f9318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 14/20] fix: JSXTag.tagify() does not modify the component

---
 htmltools/_jsx.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 02a1c9d..43800f5 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -104,6 +104,12 @@ class JSXTag:
         self.attrs: JSXTagAttrDict = JSXTagAttrDict(**kwargs)
         self.children: TagList = TagList(*args)
 
+    def __copy__(self) -> JSXTag:
+        cp = self.__class__.__new__(self.__class__)
+        # .attrs and .children are shallow-copied.
+        cp.__dict__.update({key: copy.copy(val) for key, val in self.__dict__.items()})
+        return cp
+
     def extend(self, x: Iterable[TagNode]) -> None:
         self.children.extend(x)
 
@@ -121,20 +127,19 @@ class JSXTag:
         def tagify_tagifiable_and_get_metadata(x: Any) -> Any:
             if isinstance(x, Tagifiable) and not isinstance(x, (Tag, JSXTag)):
                 x = x.tagify()
-            else:
-                x = copy.copy(x)
+            # Copy, because the children (and attributes) of x will be replaced.
+            x = copy.copy(x)
             if isinstance(x, MetadataNode):
                 metadata_nodes.append(x)
             return x
 
-        cp = copy.copy(self)
-        _walk_attrs_and_children(cp, tagify_tagifiable_and_get_metadata)
+        cp = _walk_attrs_and_children(self, tagify_tagifiable_and_get_metadata)
 
         # When _render_react_js()  is called on a JSXTag object, we'll recurse, but
         # instead of calling the standard Tag.get_html_string() method to format the
         # object, we'll recurse using _render_react_js(), which descends into the tree
         # and formats objects appropriately for inside of a JSX element.
-        component = _render_react_js(self, 2, "\n")
+        component = _render_react_js(cp, 2, "\n")
 
         # Ideally, we'd use document.currentScript.after() to insert the component
         # directly after the script tag, but when dynamically rendered via jQuery (i.e.,
-- 
2.43.0


From d64340360aa932f67cc694d3f5d16324bf6703ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:56 +0000
Subject: [PATCH 15/20] fix: splice a TagList returned by a Tagifiable child of
 a JSX component

---
 htmltools/_jsx.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 43800f5..6f973ce 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -192,13 +192,13 @@ def _walk_attrs_and_children(x: Any, fn: Callable[[Any], Any]) -> Any:
     x = fn(x)
 
     if isinstance(x, Tag):
-        for i, child in enumerate(x.children):
-            x.children[i] = _walk_attrs_and_children(child, fn)
+        x.children = _walk_children(x.children, fn)
     elif isinstance(x, JSXTag):
         for key, value in x.attrs.items():
             x.attrs[key] = _walk_attrs_and_children(value, fn)
-        for i, child in enumerate(x.children):
-            x.children[i] = _walk_attrs_and_children(child, fn)
+        x.children = _walk_children(x.children, fn)
+    elif isinstance(x, TagList):
+        x = _walk_children(x, fn)
     elif isinstance(x, Tagifiable):
         # Don't do anything here?
         pass
@@ -206,6 +206,11 @@ def _walk_attrs_and_children(x: Any, fn: Callable[[Any], Any]) -> Any:
     return x
 
 
+# If a child is replaced by a TagList, the items of the TagList are spliced in.
+def _walk_children(children: TagList, fn: Callable[[Any], Any]) -> TagList:
+    return TagList(*[_walk_attrs_and_children(child, fn) for child in children])
+
+
 # Return a string representing the rendered HTML for the given JSXTag object. The
 # metadata_nodes object collects MetadataNode objects in the tree, and is altered by
 # reference as a side-effect of this function.
-- 
2.43.0


From d942fdd6aca1f0db62622c7647d12195119c7689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:59 +0000
Subject: [PATCH 16/20] fix: an empty allowedProps rejects all props

---
 htmltools/_jsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 6f973ce..9c2aa7f 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -94,7 +94,7 @@ class JSXTag:
         if pieces[-1][:1] != pieces[-1][:1].upper():
             raise NotImplementedError("JSX tags must be start with a capital letter.")
 
-        if allowedProps:
+        if allowedProps is not None:
             for k in kwargs.keys():
                 if k not in allowedProps:
                     raise NotImplementedError(f"{k} is not a valid prop for {_name}")
-- 
2.43.0


From 4343b48ed4c387e1737550222089cb4c2cfc8f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:01 +0000
Subject: [PATCH 17/20] fix: JSX style strings may have a colon in a value

---
 htmltools/_jsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 9c2aa7f..3245763 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -288,7 +288,7 @@ def _serialize_style_attr(x: object) -> str:
     if isinstance(x, str):
         x = cast(
             "list[tuple[str, str]]",
-            [tuple(y.split(":")) for y in x.split(";") if re.search(":", y)],
+            [tuple(y.split(":", 1)) for y in x.split(";") if re.search(":", y)],
         )
         x = dict(x)
     if isinstance(x, dict):
-- 
2.43.0


From a6e929faf5e588a68f18ae091f91434b7b5d8db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:03 +0000
Subject: [PATCH 18/20] fix: write non-finite numbers as JavaScript in JSX
 props

---
 htmltools/_jsx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 3245763..02a114f 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -8,6 +8,7 @@ components may become unsupported in a future version (see #26 and #28)
 from __future__ import annotations
 
 import copy
+import math
 import re
 from typing import Any, Callable, Dict, Iterable, Mapping, Optional, cast
 
@@ -276,6 +277,8 @@ def _serialize_attr(x: object) -> str:
         return "{" + ", ".join([f'"{y}": ' + _serialize_attr(x1[y]) for y in x1]) + "}"
     if isinstance(x, bool):
         return str(x).lower()
+    if isinstance(x, float) and not math.isfinite(x):
+        return "NaN" if math.isnan(x) else "Infinity" if x > 0 else "-Infinity"
     if isinstance(x, (jsx, int, float)):
         return str(x)
     return '"' + str(x).replace('"', '\\"') + '"'
-- 
2.43.0


From 410c90c54f64852fe4986a4fe628ae25cf47c218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 19/20] fix: escape quotes in prop names and dict keys of JSX
 components

---
 htmltools/_jsx.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 02a114f..8799ae4 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -221,7 +221,7 @@ def _render_react_js(x: TagNode, indent: int, eol: str) -> str:
     if isinstance(x, MetadataNode):
         return ""
     elif isinstance(x, str):
-        return indent_str + '"' + x.replace('"', '\\"') + '"'
+        return indent_str + _quote_string(x)
 
     if isinstance(x, JSXTag):
         nm = x.name
@@ -247,7 +247,7 @@ def _render_react_js(x: TagNode, indent: int, eol: str) -> str:
             v = _serialize_style_attr(v)
         else:
             v = _serialize_attr(v)
-        res += f'"{k}": {v}'
+        res += f"{_quote_string(k)}: {v}"
     res += "}"
 
     if len(x.children) == 0:
@@ -274,14 +274,19 @@ def _serialize_attr(x: object) -> str:
         )
     if isinstance(x, dict):
         x1: dict[str, Any] = x  # make pyright happy
-        return "{" + ", ".join([f'"{y}": ' + _serialize_attr(x1[y]) for y in x1]) + "}"
+        items = [_quote_string(str(y)) + ": " + _serialize_attr(x1[y]) for y in x1]
+        return "{" + ", ".join(items) + "}"
     if isinstance(x, bool):
         return str(x).lower()
     if isinstance(x, float) and not math.isfinite(x):
         return "NaN" if math.isnan(x) else "Infinity" if x > 0 else "-Infinity"
     if isinstance(x, (jsx, int, float)):
         return str(x)
-    return '"' + str(x).replace('"', '\\"') + '"'
+    return _quote_string(str(x))
+
+
+def _quote_string(x: str) -> str:
+    return '"' + x.replace('"', '\\"') + '"'
 
 
 def _serialize_style_attr(x: object) -> str:
-- 
2.43.0


From 37637e7565cecf0e73b89bcdfea75b27ad8295a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 20/20] fix: HTMLDocument doesn't write html attributes into a
 tag returned by a Tagifiable

---
 htmltools/_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 9b5e611..11338e5 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1191,7 +1191,8 @@ class HTMLDocument:
             and isinstance(content[0], Tag)
             and cast(Tag, content[0]).name == "html"
         ):
-            html = cast(Tag, content[0])
+            # A Tagifiable may have returned a tag which it keeps, so copy it.
+            html = copy(cast(Tag, content[0]))
             html.attrs.update(**self._html_attr_args)
             return HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
 
-- 
2.43.0

