From f17c52e93bccd456ced2cfc64ffa77df8b897412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:51 +0000
Subject: [PATCH 01/41] fix: honour the parser's width argument

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 66a705d..edfad85 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -373,7 +373,7 @@ class GopherHTMLParser(HTMLParser):
         else:
             # TODO: Maybe a default top margin as well?
             self._box = Box(
-                width=67
+                width=width
             )
         self._output_format = output_format
         self._link_placement = link_placement
-- 
2.43.0


From a51617b330b641bda132ad9d9ae3a1a749896347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:52 +0000
Subject: [PATCH 02/41] fix: derive preformatted state from the open elements

---
 gopher_render/_parser.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index edfad85..b6783f5 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -452,7 +452,6 @@ class GopherHTMLParser(HTMLParser):
         self._extracted_link_renderer_map = RendererMap(self.extracted_link_renderers)
         self._next_link_number = 1
         self._footer_pending_links = []
-        self._in_pre = False
         self._optimise = optimise
 
     def _get_top(self):
@@ -482,8 +481,6 @@ class GopherHTMLParser(HTMLParser):
     def handle_starttag(self, tag, attrs):
         parent = self._get_top() or self.tree
         t = None
-        if tag == 'pre':
-            self._in_pre = True
         if tag in ('a', 'img'):
             t = LinkParser(
                 tag,
@@ -522,8 +519,6 @@ class GopherHTMLParser(HTMLParser):
             # we can just ignore it. I believe <br/> produces endtag calls.
             return
         top = self._get_top()
-        if tag == 'pre':
-            self._in_pre = False
         if not top:
             print("Unsupported or mismatched end tag, ignoring: " + tag)
             return
@@ -547,7 +542,8 @@ class GopherHTMLParser(HTMLParser):
         #     if len(data) == 0 or data.isspace():
         #         return
         parent = self._get_top()
-        d = DataParser(parent, data, in_pre=self._in_pre)
+        in_pre = any(t.tag == 'pre' for t in self._tag_stack)
+        d = DataParser(parent, data, in_pre=in_pre)
         if parent:
             parent.children.append(d)
         else:
-- 
2.43.0


From 873207c50fa76a3e1c0fff649327e62439679f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 03/41] fix: apply renderer settings when rendering extracted
 and inline links

---
 gopher_render/_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index b6783f5..27bd327 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -116,6 +116,7 @@ class LinkParser(TagParser):
             **context
         )
         self.link_renderer = None
+        self.link_renderer_settings = None
         if tag == 'a':
             # If set, this will be used as the link description
             self.title = self.attrs.get('title', None)
@@ -226,9 +227,9 @@ class LinkParser(TagParser):
             renderer = self.link_renderer
             renderer_settings = self.link_renderer_settings
 
-        render_inst = renderer(self, **render_context)
         if renderer_settings is not None:
             render_context['settings'] = renderer_settings
+        render_inst = renderer(self, **render_context)
 
         try:
             box = render_inst.box
-- 
2.43.0


From 40c85f8da9f31f5186556e48ed2a6de62495d02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:31 +0000
Subject: [PATCH 04/41] fix: list footer-placed images whatever the link
 placement

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 27bd327..3b1882e 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -600,7 +600,7 @@ class GopherHTMLParser(HTMLParser):
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
 
-        if self._link_placement == 'footer' and len(self._footer_pending_links) > 0:
+        if len(self._footer_pending_links) > 0:
             self._parsed.append("\n")
             for l in self._footer_pending_links:
                 self._parsed.append(l.link_render(self._box))
-- 
2.43.0


From 26641be5e27b02ca9ddcd532e16391d857726312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:32 +0000
Subject: [PATCH 05/41] fix: accept after_block links at the document root

---
 gopher_render/_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 3b1882e..d8bc687 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -498,7 +498,11 @@ class GopherHTMLParser(HTMLParser):
             if placement == 'footer':
                 self._footer_pending_links.append(t)
             elif placement == 'after_block':
-                parent.add_pending_link(t)
+                if parent is self.tree:
+                    # The document itself is the block, so list it at the end
+                    self._footer_pending_links.append(t)
+                else:
+                    parent.add_pending_link(t)
             if placement != 'inline':
                 self._next_link_number += 1
         else:
-- 
2.43.0


From 84cd37ce37dc6fed82ef5239c0a40a4518b4d65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:33 +0000
Subject: [PATCH 06/41] fix: list links pending inside an inline link

---
 gopher_render/_parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index d8bc687..7ef1c3f 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -244,6 +244,14 @@ class LinkParser(TagParser):
                 c.render(box)
             )
 
+        if placement == "inline":
+            if len(self._pending_links):
+                rendered_children.append('\n')
+            for l in self._pending_links:
+                rendered_children.append(
+                    l.link_render(box)
+                )
+
         return render_inst.render(
             "".join(rendered_children)
         )
-- 
2.43.0


From 7422a84792be69ac7f0ae39fb510a7c128cae72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:34 +0000
Subject: [PATCH 07/41] fix: count only items when numbering ordered list items

---
 gopher_render/rendering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 7ea2f0a..82077f0 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1092,7 +1092,8 @@ class OrderedListItemRenderer(ListItemRenderer):
         super().__init__(tag, **kwargs)
 
     def _get_ordinal(self, tag, start_index, step):
-        return (tag.parent.children.index(tag) * step) + start_index
+        items = [t for t in tag.parent.tag_children() if t.tag == tag.tag]
+        return (items.index(tag) * step) + start_index
 
 
 class DefinitionListRenderer(BlockRenderer):
-- 
2.43.0


From ed0500d9badceaad2361b460425121681ab3d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:57 +0000
Subject: [PATCH 08/41] fix: let ordered list items honour overridden settings

---
 gopher_render/rendering.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 82077f0..d4e3cb2 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1077,19 +1077,24 @@ class OrderedListItemRenderer(ListItemRenderer):
         step=1,
     )
 
-    def __init__(self, tag, **kwargs):
+    def _adjust_settings(self):
+        """
+        Adjust the formatting settings.
+        """
+        super()._adjust_settings()
         # Determine the ordinal and prepare a template based on it before the
         # box gets generated, otherwise the width will be incorrect.
         self.order = self._get_ordinal(
-            tag,
+            self.tag,
             self.settings.start_index,
             self.settings.step,
         )
-        self.settings.line_template = self.settings.line_template.format(
-            self.order,
-            '{}'
-        )
-        super().__init__(tag, **kwargs)
+        # A template without a place for the ordinal is used as it is.
+        if '{1}' in self.settings.line_template:
+            self.settings.line_template = self.settings.line_template.format(
+                self.order,
+                '{}'
+            )
 
     def _get_ordinal(self, tag, start_index, step):
         items = [t for t in tag.parent.tag_children() if t.tag == tag.tag]
-- 
2.43.0


From c6b28a015f479bbb1383e635ec3fd618c2d4b399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:58 +0000
Subject: [PATCH 09/41] fix: keep derived settings that equal those of another
 base class

---
 gopher_render/rendering.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index d4e3cb2..e682de5 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -303,8 +303,7 @@ class Renderer(metaclass=_RendererMeta):
         all_bases = []
         for klass in all_classes[::-1]:
             if hasattr(klass, 'settings'):
-                if klass.settings not in all_bases:
-                    all_bases.append(klass.settings)
+                all_bases.append(klass.settings)
         for base in all_bases:
             s.update(base)
 
-- 
2.43.0


From d98e1a99ad5f03ad80548aa6afc77693361e28c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:59 +0000
Subject: [PATCH 10/41] fix: accept attributes without a value

---
 gopher_render/_parser.py    | 3 ++-
 gopher_render/_selectors.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 7ef1c3f..73579fc 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -51,7 +51,8 @@ class TagParser(object):
 
     def __extract_classes(self):
         if 'class' in self.attrs:
-            self.attrs['class'] = self.attrs['class'].split()
+            # A valueless class attribute arrives as None
+            self.attrs['class'] = (self.attrs['class'] or '').split()
             return self.attrs['class']
         return []
 
diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index de6e5fa..9766d97 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -143,6 +143,9 @@ def _attribute_matches(tag, selector):
             # The class attribute is split during parsing, so have to rejoin
             # it for ease of comparison
             attr_val = " ".join(attr_val)
+        if attr_val is None:
+            # An attribute without a value is the same as an empty one
+            attr_val = ''
         if selector.operator == '=':
             return attr_val == selector.value
         if selector.operator == '~=':
-- 
2.43.0


From 2284860d66221f04211369b401094030b0d3aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 11/41] fix: compare attribute selectors with the selector's
 text

---
 gopher_render/_selectors.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 9766d97..92d465c 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -146,19 +146,22 @@ def _attribute_matches(tag, selector):
         if attr_val is None:
             # An attribute without a value is the same as an empty one
             attr_val = ''
+        # Newer releases of cssselect provide a token rather than a string
+        value = getattr(selector.value, 'value', selector.value)
         if selector.operator == '=':
-            return attr_val == selector.value
+            return attr_val == value
         if selector.operator == '~=':
             split_val = attr_val.split()
-            return selector.value in split_val
+            return value in split_val
         if selector.operator == '|=':
-            return attr_val == selector.value or attr_val.startswith("{}-".format(selector.value))
+            return attr_val == value or attr_val.startswith("{}-".format(value))
+        # The substring operators never match an empty value
         if selector.operator == '^=':
-            return attr_val.startswith(selector.value)
+            return value != '' and attr_val.startswith(value)
         if selector.operator == '$=':
-            return attr_val.endswith(selector.value)
+            return value != '' and attr_val.endswith(value)
         if selector.operator == '*=':
-            return selector.value in attr_val
+            return value != '' and value in attr_val
     return False
 
 
-- 
2.43.0


From eace22159c3ff37dc0446d208f82ebd4f7d37d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:29 +0000
Subject: [PATCH 12/41] fix: raise a defined exception for a missing
 specificity

---
 gopher_render/_selectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 92d465c..d73e3c1 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -374,7 +374,7 @@ def _compare_specificity(specificity1, specificity2):
     For our purposes, each specificity will be a tuple with three elements.
     """
     if specificity1 is None:
-        raise ArgumentError("specificity1 cannot be None")
+        raise ValueError("specificity1 cannot be None")
     if specificity2 is None:
         return 1
 
-- 
2.43.0


From 44bf6590a4cf4d47e38cd69f4be1ef5a039cfeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 13/41] fix: match nothing for child positions below one

---
 gopher_render/_selectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index d73e3c1..1821ba5 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -190,7 +190,7 @@ def _nth_child_matches(tag, selector):
     # TODO: Apparently this can take arguments like 'odd', 'even', '5n' (every 5th element)
     n = int(selector.arguments[0].value)
     tag_children = tag.parent.tag_children()
-    if n > len(tag_children):
+    if n < 1 or n > len(tag_children):
         return False
     return tag_children[n - 1] is tag and _selector_matches(tag, selector.selector)
 
@@ -204,7 +204,7 @@ def _nth_last_child_matches(tag, selector):
     # TODO: Apparently this can take arguments like 'odd', 'even', '5n' (every 5th element)
     n = int(selector.arguments[0].value)
     tag_children = tag.parent.tag_children()
-    if n > len(tag_children):
+    if n < 1 or n > len(tag_children):
         return False
     return tag_children[-n] is tag and _selector_matches(tag, selector.selector)
 
-- 
2.43.0


From e676689978aeecbccade47d11d09b4e8b954b1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 14/41] fix: treat a missing link target as an empty one

---
 gopher_render/_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 73579fc..4d07513 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -121,12 +121,12 @@ class LinkParser(TagParser):
         if tag == 'a':
             # If set, this will be used as the link description
             self.title = self.attrs.get('title', None)
-            self.href = self.attrs.get('href', None)
+            self.href = self.attrs.get('href', None) or ''
             self.gopher_link = self._parse_href()
         elif tag == 'img':
             # If set, this will be used as the link description
             self.title = self.attrs.get('alt', None)
-            self.href = self.attrs.get('src', None)
+            self.href = self.attrs.get('src', None) or ''
             self.gopher_link = self._parse_href()
 
     # TODO: This needs a lot more work to be comprehensive
-- 
2.43.0


From 0edcd447c4994fdf815b89e44f4ed7370a76b47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 15/41] fix: cope with malformed and incomplete link URLs

---
 gopher_render/_parser.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 4d07513..0162d86 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -153,7 +153,17 @@ class LinkParser(TagParser):
         Parse the href of the link and return a dictionary containing the
         elements of a gophermap link
         """
-        parsed = urlparse(self.href)
+        try:
+            parsed = urlparse(self.href)
+            port = parsed.port
+        except ValueError:
+            # Malformed URL: the best that can be done is to pass it along
+            return dict(
+                type='h',
+                selector="URL:{}".format(self.href),
+                host=self._context['gopher_host'],
+                port=self._context['gopher_port'],
+            )
         if parsed.scheme in ("http", "https"):
             return dict(
                 type='h',
@@ -166,8 +176,8 @@ class LinkParser(TagParser):
             return dict(
                 type=self._guess_type(parsed.path),
                 selector=parsed.path,
-                host=parsed.hostname,
-                port=parsed.port,
+                host=parsed.hostname or self._context['gopher_host'],
+                port=70 if port is None else port,
             )
         elif parsed.scheme == '':
             # Relative URL - interpret as a relative gopher link
-- 
2.43.0


From fd7ca7c5c374cc3c2e41fbe1a26d36d7a08e1dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:12 +0000
Subject: [PATCH 16/41] fix: keep margins and borders out of gophermap image
 links

---
 gopher_render/rendering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index e682de5..3d05414 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -830,7 +830,7 @@ class ImageRenderer(InlineRenderer):
             )
 
 
-class ExtractedImageLinkRenderer(BlockRenderer):
+class ExtractedImageLinkRenderer(ExtractedLinkRenderer):
 
     settings = dict(
         templates=["\n[{link_reference}] {description}: {href}", '\n[{link_reference}] {description}: {href} "{title}"'],
@@ -859,7 +859,7 @@ class ExtractedImageLinkRenderer(BlockRenderer):
             gopher_link = self.context['gopher_link']
             link_ref = self.context["link_reference"]
             return settings.gophermap_template.format(
-                description=super()._inner_render(description),
+                description=description,
                 link_reference=link_ref,
                 selector=gopher_link['selector'],
                 type=gopher_link['type'],
@@ -869,7 +869,7 @@ class ExtractedImageLinkRenderer(BlockRenderer):
         else:
             template = settings.templates[0]
             keywords = dict(
-                description=super()._inner_render(trimmed_title),
+                description=trimmed_title,
                 link_reference=self.context["link_reference"],
                 href=href,
             )
-- 
2.43.0


From 432b1515d7096cda8407337840d035beae947984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:40 +0000
Subject: [PATCH 17/41] fix: keep field separators out of gophermap fields

---
 gopher_render/rendering.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 3d05414..5d90a09 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -720,6 +720,14 @@ class LinkRenderer(InlineRenderer):
             )
 
 
+def _gophermap_field(text):
+    """
+    Tabs and line breaks delimit the fields and items of a gophermap, so they
+    cannot be part of a field.
+    """
+    return ' '.join(text.replace('\t', ' ').splitlines())
+
+
 class ExtractedLinkRenderer(BlockRenderer):
 
     # TODO: The block rendering is adding an entire line's worth of whitespace at
@@ -748,9 +756,9 @@ class ExtractedLinkRenderer(BlockRenderer):
             gopher_link = self.context['gopher_link']
             link_ref = self.context["link_reference"]
             return settings.gophermap_template.format(
-                description=super()._inner_render(description),
+                description=_gophermap_field(super()._inner_render(description)),
                 link_reference=link_ref,
-                selector=gopher_link['selector'],
+                selector=_gophermap_field(gopher_link['selector']),
                 type=gopher_link['type'],
                 host=gopher_link['host'],
                 port=gopher_link['port'],
@@ -859,9 +867,9 @@ class ExtractedImageLinkRenderer(ExtractedLinkRenderer):
             gopher_link = self.context['gopher_link']
             link_ref = self.context["link_reference"]
             return settings.gophermap_template.format(
-                description=description,
+                description=_gophermap_field(description),
                 link_reference=link_ref,
-                selector=gopher_link['selector'],
+                selector=_gophermap_field(gopher_link['selector']),
                 type=gopher_link['type'],
                 host=gopher_link['host'],
                 port=gopher_link['port'],
-- 
2.43.0


From 859009b00c27de9626678530abf067cf5f185f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 18/41] fix: leave gophermap footer links out of the document
 margin

---
 gopher_render/_parser.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 0162d86..dec743e 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -575,9 +575,8 @@ class GopherHTMLParser(HTMLParser):
             # This probably indicates badly formed HTML.
             self.tree.append(d)
 
-    def _indent_body(self):
+    def _indent_body(self, parsed):
         box = self._box
-        parsed = "".join(self._parsed)
         lines = parsed.splitlines(keepends=True)
         return "".join([
             "{}{}".format(' ' * self._box.margin[BoxSide.LEFT], l)
@@ -623,19 +622,23 @@ class GopherHTMLParser(HTMLParser):
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
 
+        footer = []
         if len(self._footer_pending_links) > 0:
             self._parsed.append("\n")
             for l in self._footer_pending_links:
-                self._parsed.append(l.link_render(self._box))
+                footer.append(l.link_render(self._box))
+        if self._output_format != 'gophermap':
+            self._parsed.extend(footer)
+            footer = []
 
         # TODO: Some variation here within our box model:
-        # Gophermap links should definitely not be indented, but this naively
-        # indents everything. If link placement is footer this should be easy
-        # enough to avoid, but for inter-block links it will be troublesome.
+        # Gophermap links should definitely not be indented. Links in the footer
+        # are left alone, but this indents any others.
+        # For inter-block links it will be troublesome.
         # Could perhaps identify the points where links need to be inserted
         # and indent everything around them separately.
         # Addition of padding and border to box model complicate this even further
-        indented = self._indent_body()
+        indented = self._indent_body("".join(self._parsed)) + "".join(footer)
         self.parsed = "{}{}{}".format(
             "\n" * self._box.margin[BoxSide.TOP],
             indented,
-- 
2.43.0


From 370b9eb18bfc98821065badf02223d69a689813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:07 +0000
Subject: [PATCH 19/41] fix: apply the ANSI font setting

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 5d90a09..ec9a68f 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1332,7 +1332,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
 
         # Fonts
         if settings.font is not None:
-            enable.append(ANSI_ESCAPE_SEQUENCE.format(setting.font + ANSI_FONT_OFFSET))
+            enable.append(ANSI_ESCAPE_SEQUENCE.format(settings.font + ANSI_FONT_OFFSET))
             if not normalise:
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(0 + ANSI_FONT_OFFSET))
 
-- 
2.43.0


From 7d34eb6007548b06dac322fc759d361b1e6b428b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:08 +0000
Subject: [PATCH 20/41] fix: treat colour number zero as a colour

---
 gopher_render/rendering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index ec9a68f..e881847 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1337,7 +1337,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(0 + ANSI_FONT_OFFSET))
 
         # Colours
-        if settings.foreground_colour:
+        if settings.foreground_colour is not None:
             enable.append(
                 ANSI_ESCAPE_SEQUENCE.format(
                     _get_sequence_for_colour(
@@ -1348,7 +1348,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
             if not normalise:
                 # Default foreground
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(39))
-        if settings.background_colour:
+        if settings.background_colour is not None:
             enable.append(
                 ANSI_ESCAPE_SEQUENCE.format(
                     _get_sequence_for_colour(
-- 
2.43.0


From d8b21f30b7e869cd7ff95aa1d623e745b02b3d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:26 +0000
Subject: [PATCH 21/41] fix: measure visible text when justifying, underlining
 and boxing

---
 gopher_render/_textwrap.py | 10 ++++++++--
 gopher_render/rendering.py | 19 +++++++++++--------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 17a3cab..2df9081 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -20,11 +20,17 @@ _escape_regex = regex = re.compile(
     """, re.VERBOSE
 )
 
+def visible_len(text):
+    """
+    The length of some text as displayed, i.e. excluding any ANSI escape codes.
+    """
+    return len(_escape_regex.sub("", text))
+
+
 def _len(obj):
     if not isinstance(obj, str):
         return len(obj)
-    actual = _escape_regex.sub("", obj)
-    return len(actual)
+    return visible_len(obj)
 
 
 class AnsiAwareTextWrapper(TextWrapper):
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index e881847..8c9bd66 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -14,9 +14,9 @@ def full_justify(text, width, *args, **kwargs):
     lines = textwrap.wrap(text, width, *args, **kwargs)
     out_lines = []
     for line in lines[:-1]:
-        orig_len = len(line)
+        orig_len = textwrap.visible_len(line)
         ls = line.lstrip()
-        indent = ' ' * (orig_len - len(ls))
+        indent = ' ' * (len(line) - len(ls))
         padding_spaces = width - orig_len
         rs = ls.rstrip()
         #padding_spaces = len(ls) - len(rs)
@@ -58,16 +58,19 @@ def center_justify(text, width, *args, **kwargs):
     return '\n'.join(centered)
 
 
-def center(text, width, *args, **kwargs):
+def center(text, width, fillchar=' '):
     if not width:
         return _noop(text)
-    return text.center(width, *args, **kwargs)
+    # The same placement as str.center(), but by the visible width of the text
+    padding = max(width - textwrap.visible_len(text), 0)
+    left = padding // 2 + (padding & width & 1)
+    return fillchar * left + text + fillchar * (padding - left)
 
 
-def right(text, width, *args, **kwargs):
+def right(text, width, fillchar=' '):
     if not width:
         return _noop(text)
-    return text.rjust(width, *args, **kwargs)
+    return fillchar * (width - textwrap.visible_len(text)) + text
 
 
 justifications = {
@@ -442,7 +445,7 @@ class BlockRenderer(Renderer):
                 borders[BoxSide.LEFT],
                 ' ' * box.padding[BoxSide.LEFT],
                 l,
-                ' ' * (box.padded_width - (box.padding[BoxSide.LEFT] + len(l))),
+                ' ' * (box.padded_width - (box.padding[BoxSide.LEFT] + textwrap.visible_len(l))),
                 borders[BoxSide.RIGHT]
             ) for l in lines
         ]
@@ -510,7 +513,7 @@ class HeaderRenderer(BlockRenderer):
         )
         underline = ""
         if settings['underlined']:
-            underline_len = width if settings.underline_full else len(inner)
+            underline_len = width if settings.underline_full else textwrap.visible_len(inner)
             underline = "{}".format(settings.underline_char * underline_len, width)
             return "{}\n{}".format(
                 center_func(inner, width),
-- 
2.43.0


From 4e852740e884a425851bbc9272e93c3e96baa008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 22/41] fix: list links by their unstyled description

---
 gopher_render/_textwrap.py | 9 ++++++++-
 gopher_render/rendering.py | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 2df9081..ead7210 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -20,11 +20,18 @@ _escape_regex = regex = re.compile(
     """, re.VERBOSE
 )
 
+def strip_escapes(text):
+    """
+    The text as displayed, i.e. without any ANSI escape codes.
+    """
+    return _escape_regex.sub("", text)
+
+
 def visible_len(text):
     """
     The length of some text as displayed, i.e. excluding any ANSI escape codes.
     """
-    return len(_escape_regex.sub("", text))
+    return len(strip_escapes(text))
 
 
 def _len(obj):
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 8c9bd66..dbc4134 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -747,6 +747,9 @@ class ExtractedLinkRenderer(BlockRenderer):
         href = self.context['href']
         title = self.context['title']
 
+        # Truncating styled content could break or drop its escape codes
+        content = textwrap.strip_escapes(content)
+
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
         trimming = len(content) > max_link_description
-- 
2.43.0


From 457a21c8ab0f74144a2956c9f98637eb807e3c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 23/41] fix: keep ANSI escape codes intact when capitalizing
 and spreading

---
 gopher_render/_textwrap.py |  8 ++++++++
 gopher_render/rendering.py | 15 +++++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index ead7210..5fbc627 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -20,6 +20,14 @@ _escape_regex = regex = re.compile(
     """, re.VERBOSE
 )
 
+def split_escapes(text):
+    """
+    Split some text into a list of alternately plain text and ANSI escape codes,
+    starting and ending with plain text.
+    """
+    return re.split("({})".format(_escape_regex.pattern), text, flags=re.VERBOSE)
+
+
 def strip_escapes(text):
     """
     The text as displayed, i.e. without any ANSI escape codes.
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index dbc4134..c659b9a 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -86,12 +86,23 @@ justifications = {
 # should probably match the method name
 # TODO: Should may deal with casing the same way as the justifications...
 def capitalize(text):
-    return text.upper()
+    # ANSI escape codes are case sensitive, so leave those alone
+    return ''.join([
+        part if i % 2 else part.upper()
+        for i, part in enumerate(textwrap.split_escapes(text))
+    ])
 
 
 def spread(text, spread_char, count):
     s = spread_char * count
-    return s.join(text)
+    out = []
+    started = False
+    for i, part in enumerate(textwrap.split_escapes(text)):
+        if i % 2 == 0 and part:
+            part = (s if started else '') + s.join(part)
+            started = True
+        out.append(part)
+    return ''.join(out)
 
 
 class BoxSide:
-- 
2.43.0


From 814a9e357a6c2b782e71e1b2f82e335fc0182b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 24/41] fix: size nested bordered blocks to fit inside their
 parents

---
 gopher_render/rendering.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index c659b9a..18cbbda 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -196,19 +196,23 @@ class Box(object):
         def fget(self):
             # This has to include the width of the local line template
             # but exclude any added by further up the hierarchy.
-            return self.width - (
-                self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT] +
-                self.total_border[BoxSide.LEFT] + self.total_border[BoxSide.RIGHT] +
-                (self.total_line_template_padding - self.line_template_padding)
+            return self.bordered_width - (
+                self.border[BoxSide.LEFT] + self.border[BoxSide.RIGHT]
             )
         return locals()
     padded_width = property(**padded_width())
 
     def bordered_width():
-        doc = "The width of the element including the padding."
+        doc = "The width of the element including the padding and border."
         def fget(self):
+            # This has to exclude everything added further up the hierarchy.
             return self.width - (
-                self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT]
+                self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT] +
+                (self.total_padding[BoxSide.LEFT] - self.padding[BoxSide.LEFT]) +
+                (self.total_padding[BoxSide.RIGHT] - self.padding[BoxSide.RIGHT]) +
+                (self.total_border[BoxSide.LEFT] - self.border[BoxSide.LEFT]) +
+                (self.total_border[BoxSide.RIGHT] - self.border[BoxSide.RIGHT]) +
+                (self.total_line_template_padding - self.line_template_padding)
             )
         return locals()
     bordered_width = property(**bordered_width())
-- 
2.43.0


From cc8067c9a9c66159c6aa6f48d9553c63e6d7bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 25/41] fix: lay out headers within their parents' line
 templates

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 18cbbda..d2380e8 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -516,7 +516,7 @@ class HeaderRenderer(BlockRenderer):
         capitalize_func = capitalize if settings.capitalized else _noop
         spread_func = spread if settings.spread > 0 else _noop
         box = self.box
-        width = box.inner_width
+        width = box.inner_width_excluding_line_template
         inner = settings.template.format(
             spread_func(
                 capitalize_func(
-- 
2.43.0


From 162ba0c773967206603e929c559170e7cc4238ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 26/41] fix: render the document once however often the parser
 is closed

---
 gopher_render/_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index dec743e..35ffc94 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -608,6 +608,7 @@ class GopherHTMLParser(HTMLParser):
 
     def close(self):
         super().close()
+        self._parsed = []
         # Compile the parsed string
         # Anything being left in _tag_stack probably indicates an unclosed tag...
         # Pop everything off anyway and add any root tags to the tree.
-- 
2.43.0


From 98c7a02d3a36c5678ec2644e71d707eee578ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 27/41] fix: write the output to the destination file

---
 gopher_render/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/cli.py b/gopher_render/cli.py
index c17e14f..9b69722 100644
--- a/gopher_render/cli.py
+++ b/gopher_render/cli.py
@@ -63,8 +63,8 @@ def main():
     parser.feed(source_text)
     parser.close()
 
-    #with open(args.destination, 'w') as out_file:
-    #    out_file.write(parser.parsed)
+    with open(args.destination, 'w') as out_file:
+        out_file.write(parser.parsed)
 
     print(parser.parsed)
 
-- 
2.43.0


From 55f47195cab84501ade014bdfb070dad1ab28bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:54 +0000
Subject: [PATCH 28/41] fix: wrap to a single column when nesting uses up the
 width

---
 gopher_render/_textwrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 5fbc627..2a3631b 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -155,5 +155,7 @@ def wrap(text, width=70, **kwargs):
     """A reimplementation of the textwrap.wrap function to use the custom
     TextWrapper type.
     """
+    # Deep nesting can use up all of the available width
+    width = max(width, 1)
     w = AnsiAwareTextWrapper(width=width, **kwargs)
     return w.wrap(text)
-- 
2.43.0


From 3e7ca9f80292e3d71e7e6dbb21840340c58e7ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 29/41] fix: break long styled words without breaking their
 escape codes

---
 gopher_render/_textwrap.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 2a3631b..264721a 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -42,6 +42,21 @@ def visible_len(text):
     return len(strip_escapes(text))
 
 
+def _visible_index(text, count):
+    """
+    The index into some text of the position after the given number of visible
+    characters, and after any escape codes there.
+    """
+    end = 0
+    for i, part in enumerate(split_escapes(text)):
+        if i % 2 == 0:
+            if len(part) > count:
+                return end + count
+            count -= len(part)
+        end += len(part)
+    return end
+
+
 def _len(obj):
     if not isinstance(obj, str):
         return len(obj)
@@ -150,6 +165,20 @@ class AnsiAwareTextWrapper(TextWrapper):
 
         return lines
 
+    def _handle_long_word(self, reversed_chunks, cur_line, cur_len, width):
+        """
+        Break a long word by its visible length, so that the ANSI escape
+        sequences in it are not counted and never broken themselves.
+        """
+        chunk = reversed_chunks[-1]
+        if not self.break_long_words or visible_len(chunk) == len(chunk):
+            super()._handle_long_word(reversed_chunks, cur_line, cur_len, width)
+            return
+        space_left = 1 if width < 1 else width - cur_len
+        end = _visible_index(chunk, space_left)
+        cur_line.append(chunk[:end])
+        reversed_chunks[-1] = chunk[end:]
+
 
 def wrap(text, width=70, **kwargs):
     """A reimplementation of the textwrap.wrap function to use the custom
-- 
2.43.0


From afdf5529260452ffe1c34a2bb6197da8a75a47c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:55 +0000
Subject: [PATCH 30/41] fix: show the description of a listed image in its
 reference

---
 gopher_render/_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 35ffc94..9fd4f78 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -128,6 +128,8 @@ class LinkParser(TagParser):
             self.title = self.attrs.get('alt', None)
             self.href = self.attrs.get('src', None) or ''
             self.gopher_link = self._parse_href()
+            # The reference in the text shows the description as well
+            self._context['title'] = self.title
 
     # TODO: This needs a lot more work to be comprehensive
     def _guess_type(self, path):
-- 
2.43.0


From 5e8abdf6e6777b50c61b1f06f416a9cbfa0848fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 31/41] fix: guess gopher item types from the file name, not
 the directories

---
 gopher_render/_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 9fd4f78..93291b7 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -133,7 +133,9 @@ class LinkParser(TagParser):
 
     # TODO: This needs a lot more work to be comprehensive
     def _guess_type(self, path):
-        p = path.rpartition('.')
+        # Dots in directory names do not start a file extension
+        name = path.rpartition('/')[2].lstrip('.')
+        p = name.rpartition('.')
         if p[0] == "":
             # No file extension, so gopher menu?
             return 1
-- 
2.43.0


From 35faecbbec1161412dd4bbac8cd26814854120f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:51 +0000
Subject: [PATCH 32/41] fix: keep tabs in text from turning gophermap lines
 into links

---
 gopher_render/_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 93291b7..49b652d 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -571,6 +571,9 @@ class GopherHTMLParser(HTMLParser):
         #         return
         parent = self._get_top()
         in_pre = any(t.tag == 'pre' for t in self._tag_stack)
+        if self._output_format == 'gophermap':
+            # A line with a tab in it would be taken for a link
+            data = data.expandtabs()
         d = DataParser(parent, data, in_pre=in_pre)
         if parent:
             parent.children.append(d)
-- 
2.43.0


From a7a7958c7dbe2a5341e3384cfb00497aeab1a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 33/41] fix: keep the lines of blocks and line breaks within
 list items and definitions

---
 gopher_render/rendering.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index d2380e8..5f5ae77 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1086,8 +1086,13 @@ class ListItemRenderer(BlockRenderer):
         width = self.box.inner_width_excluding_line_template
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
-        justified = justify_func(inner, width, **justify_args)
-        just_split = justified.split("\n")
+        # Nested blocks are already laid out, so their lines are kept
+        justified = []
+        for line in inner.split('\n'):
+            if line.strip():
+                justified.append(justify_func(line, width, **justify_args))
+                justify_args['initial_indent'] = justify_args['subsequent_indent']
+        just_split = '\n'.join(justified).split("\n")
         template = self.settings.line_template
         # The template only applies for the first line in this case, the rest
         # are just padded by its width.
@@ -1207,8 +1212,13 @@ class DefinitionListItemRenderer(BlockRenderer):
         width = self.box.inner_width_excluding_line_template
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
-        justified = justify_func(inner, width, **justify_args)
-        just_split = justified.split("\n")
+        # Nested blocks are already laid out, so their lines are kept
+        justified = []
+        for line in inner.split('\n'):
+            if line.strip():
+                justified.append(justify_func(line, width, **justify_args))
+                justify_args['initial_indent'] = justify_args['subsequent_indent']
+        just_split = '\n'.join(justified).split("\n")
         template = self.settings.line_template
         # The template only applies for the first line in this case, the rest
         # are just padded by its width.
-- 
2.43.0


From adf3b21c5e810fcbea9d96a2380a958718fda691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 34/41] fix: remove blanks around a text also within its escape
 codes

---
 gopher_render/_textwrap.py | 27 +++++++++++++++++++++++++++
 gopher_render/rendering.py |  2 +-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 264721a..7320f10 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -42,6 +42,31 @@ def visible_len(text):
     return len(strip_escapes(text))
 
 
+def rstrip(text):
+    """
+    Remove the whitespace from the end of some text as displayed, i.e. also
+    within any escape codes there.
+    """
+    parts = split_escapes(text)
+    for i in range(len(parts) - 1, -1, -2):
+        parts[i] = parts[i].rstrip()
+        if parts[i]:
+            break
+    return "".join(parts)
+
+
+def strip(text):
+    """
+    Remove the whitespace from the start and end of some text as displayed.
+    """
+    parts = split_escapes(rstrip(text))
+    for i in range(0, len(parts), 2):
+        parts[i] = parts[i].lstrip()
+        if parts[i]:
+            break
+    return "".join(parts)
+
+
 def _visible_index(text, count):
     """
     The index into some text of the position after the given number of visible
@@ -187,4 +212,6 @@ def wrap(text, width=70, **kwargs):
     # Deep nesting can use up all of the available width
     width = max(width, 1)
     w = AnsiAwareTextWrapper(width=width, **kwargs)
+    if w.drop_whitespace:
+        text = rstrip(text)
     return w.wrap(text)
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 5f5ae77..e11c3a6 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -641,7 +641,7 @@ class ParagraphRenderer(BlockRenderer):
         for chunk in inner_split:
             # I think we can safely strip here because the paragraph renderer
             # is expected to reformat its contents...
-            j = justify_func(chunk.strip(), width, **justify_args)
+            j = justify_func(textwrap.strip(chunk), width, **justify_args)
             justified.append(j)
         justified = '\n'.join(justified)
         just_split = justified.split("\n")
-- 
2.43.0


From 1d10a286c99d7ee06c5971dc9192e31fe930d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 35/41] fix: drop the blank left at the end of a line before a
 long word

A word too long for a line was broken even if the current line had no room
left at all; the blank before the word then stayed on the line, so that
right and full justified lines did not end at the edge.
---
 gopher_render/_textwrap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 7320f10..0d8c384 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -149,8 +149,9 @@ class AnsiAwareTextWrapper(TextWrapper):
                     break
 
             # The current line is full, and the next chunk is too big to
-            # fit on *any* line (not just this one).
-            if chunks and _len(chunks[-1]) > width:
+            # fit on *any* line (not just this one). If this line has no room
+            # for any of it, leave it to the next.
+            if chunks and _len(chunks[-1]) > width and (cur_len < width or not cur_line):
                 self._handle_long_word(chunks, cur_line, cur_len, width)
                 cur_len = sum(map(_len, cur_line))
 
-- 
2.43.0


From 60dbc33816213487a036c7e0e26940ae56eb7793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:36 +0000
Subject: [PATCH 36/41] fix: ignore the blanks before the first content of
 lists, list items, definitions and quotations

---
 gopher_render/_parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 49b652d..1690745 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -574,6 +574,14 @@ class GopherHTMLParser(HTMLParser):
         if self._output_format == 'gophermap':
             # A line with a tab in it would be taken for a link
             data = data.expandtabs()
+        if (
+            parent and not in_pre and not parent.children
+            and parent.tag in ('ul', 'ol', 'li', 'dl', 'dt', 'dd', 'blockquote')
+        ):
+            # Pretty printing, and the first line must start the text
+            data = data.lstrip()
+            if not data:
+                return
         d = DataParser(parent, data, in_pre=in_pre)
         if parent:
             parent.children.append(d)
-- 
2.43.0


From 190b2fe1aa6c09e980ff4768d476ff34713d16c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:50 +0000
Subject: [PATCH 37/41] fix: remove the blanks around the text of headers

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index e11c3a6..0434b36 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -520,7 +520,7 @@ class HeaderRenderer(BlockRenderer):
         inner = settings.template.format(
             spread_func(
                 capitalize_func(
-                    super()._inner_render(content)
+                    textwrap.strip(super()._inner_render(content))
                 ),
                 settings.spread_char,
                 settings.spread
-- 
2.43.0


From f3c54e092123c4419d59872f9c488f831ca0dde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 38/41] fix: name the background colours of the GitHub theme as
 the renderer does

---
 gopher_render/code_themes/github.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gopher_render/code_themes/github.py b/gopher_render/code_themes/github.py
index ac50b88..d82bb0a 100644
--- a/gopher_render/code_themes/github.py
+++ b/gopher_render/code_themes/github.py
@@ -23,20 +23,20 @@ _NAVY = "#000080"
 
 renderers = {
     ".highlight .c": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
-    ".highlight .err": (AnsiEscapeCodeRenderer, { "foreground_colour": "#a61717", "background-colour": "#e3d2d2", }),
+    ".highlight .err": (AnsiEscapeCodeRenderer, { "foreground_colour": "#a61717", "background_colour": "#e3d2d2", }),
     ".highlight .k": (AnsiEscapeCodeRenderer, { "bold": True }),
     ".highlight .o": (AnsiEscapeCodeRenderer, { "bold": True }),
     ".highlight .cm": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
     ".highlight .cp": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", "bold": True }),
     ".highlight .c1": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
     ".highlight .cs": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", "bold": True, "italic": True }),
-    ".highlight .gd": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ffdddd", }),
-    ".highlight .gd .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ffaaaa", }),
+    ".highlight .gd": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ffdddd", }),
+    ".highlight .gd .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ffaaaa", }),
     ".highlight .ge": (AnsiEscapeCodeRenderer, { "italic": True }),
     ".highlight .gr": (AnsiEscapeCodeRenderer, { "foreground_colour": "#aa0000", }),
     ".highlight .gh": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", }),
-    ".highlight .gi": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ddffdd", }),
-    ".highlight .gi .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#aaffaa", }),
+    ".highlight .gi": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ddffdd", }),
+    ".highlight .gi .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#aaffaa", }),
     ".highlight .go": (AnsiEscapeCodeRenderer, { "foreground_colour": "#888888", }),
     ".highlight .gp": (AnsiEscapeCodeRenderer, { "foreground_colour": "#555555", }),
     ".highlight .gs": (AnsiEscapeCodeRenderer, { "bold": True }),
@@ -83,5 +83,5 @@ renderers = {
     ".highlight .vg": (AnsiEscapeCodeRenderer, { "foreground_colour": _TEAL }),
     ".highlight .vi": (AnsiEscapeCodeRenderer, { "foreground_colour": _TEAL }),
     ".highlight .il": (AnsiEscapeCodeRenderer, { "foreground_colour": "#009999", }),
-    ".highlight .gc": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999", "background-colour": "#EAF2F5", }),
+    ".highlight .gc": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999", "background_colour": "#EAF2F5", }),
 }
-- 
2.43.0


From 975c9930792b4196a00f6273f1ecfe0d35679036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:03 +0000
Subject: [PATCH 39/41] fix: apply the capitalized setting to the descriptions
 of images

---
 gopher_render/rendering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 0434b36..600f83f 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -841,12 +841,12 @@ class ImageRenderer(InlineRenderer):
             if "title" in self.context and self.context["title"]:
                 return settings.templates["inline"].format(
                     href=self.context["href"],
-                    title=self.context["title"],
+                    title=capitalize_func(self.context["title"]),
                 )
             else:
                 return settings.templates["inline"].format(
                     href=self.context["href"],
-                    title="Image",
+                    title=capitalize_func("Image"),
                 )
         else:
             if "title" in self.context and self.context["title"]:
@@ -854,7 +854,7 @@ class ImageRenderer(InlineRenderer):
             else:
                 title = "Image"
             return settings.templates["reference"].format(
-                title=title,
+                title=capitalize_func(title),
                 link_reference=self.context["link_reference"]
             )
 
-- 
2.43.0


From a4ee1f202ba276becdb92fa6dea31f8d5d3f21cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 40/41] fix: treat all void elements of HTML as having no
 content

---
 gopher_render/_parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 1690745..cb2f2d9 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -22,6 +22,12 @@ from .rendering import ListRenderer, ListItemRenderer, OrderedListItemRenderer
 from .rendering import DefinitionListRenderer, DefinitionListTermHeaderRenderer, DefinitionListItemRenderer
 from .rendering import AnsiEscapeCodeRenderer
 
+# Elements that have no content, and no end tag
+VOID_TAGS = (
+    'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta',
+    'param', 'source', 'track', 'wbr',
+)
+
 
 # TODO: Maybe this class should do more actual parsing? Or just rename to Tag
 class TagParser(object):
@@ -30,7 +36,7 @@ class TagParser(object):
         self.tag = tag
         self.parent = parent
         self.children = []
-        self.closed = tag in ('br', 'img')
+        self.closed = tag in VOID_TAGS
         self.attrs = {}
         self.classes = []
         self.id = None
@@ -542,8 +548,8 @@ class GopherHTMLParser(HTMLParser):
             self.tree.append(t)
 
     def handle_endtag(self, tag):
-        if tag in ('br', 'img'):
-            # br and img tags are inherently self-closing, so if we encounter an end tag
+        if tag in VOID_TAGS:
+            # These tags are inherently self-closing, so if we encounter an end tag
             # we can just ignore it. I believe <br/> produces endtag calls.
             return
         top = self._get_top()
-- 
2.43.0


From 11616ebcefe6771babb7a5f8f041ee27090f812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:40 +0000
Subject: [PATCH 41/41] fix: define the foreground colours of the code themes

---
 gopher_render/code_themes/darkly.py         | 2 +-
 gopher_render/code_themes/monokai.py        | 2 +-
 gopher_render/code_themes/tomorrow.py       | 2 +-
 gopher_render/code_themes/tomorrow_night.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gopher_render/code_themes/darkly.py b/gopher_render/code_themes/darkly.py
index ae48550..5196a7a 100644
--- a/gopher_render/code_themes/darkly.py
+++ b/gopher_render/code_themes/darkly.py
@@ -10,7 +10,7 @@ from ..rendering import AnsiEscapeCodeRenderer
 # To use them, an ANSI aware block renderer would be required that restores
 # these colour settings after every syntax span.
 background_colour = "#343642"
-foreground_colour: "#C1C2C3"
+foreground_colour = "#C1C2C3"
 
 renderers = {
     ".hll": (AnsiEscapeCodeRenderer, { "background_colour": "#ffc" }),
diff --git a/gopher_render/code_themes/monokai.py b/gopher_render/code_themes/monokai.py
index 900df20..d098f04 100644
--- a/gopher_render/code_themes/monokai.py
+++ b/gopher_render/code_themes/monokai.py
@@ -10,7 +10,7 @@ from ..rendering import AnsiEscapeCodeRenderer
 # To use them, an ANSI aware block renderer would be required that restores
 # these colour settings after every syntax span.
 background_colour = "#343642"
-foreground_colour: "#C1C2C3"
+foreground_colour = "#C1C2C3"
 
 renderers = {
     ".hll": (AnsiEscapeCodeRenderer, { "background_colour": "#49483e" }),
diff --git a/gopher_render/code_themes/tomorrow.py b/gopher_render/code_themes/tomorrow.py
index da71889..a4b63f4 100644
--- a/gopher_render/code_themes/tomorrow.py
+++ b/gopher_render/code_themes/tomorrow.py
@@ -10,7 +10,7 @@ from ..rendering import AnsiEscapeCodeRenderer
 # To use them, an ANSI aware block renderer would be required that restores
 # these colour settings after every syntax span.
 background_colour = "#ffffff"
-foreground_colour: "#4d4d4c"
+foreground_colour = "#4d4d4c"
 
 renderers = {
     ".hll": (AnsiEscapeCodeRenderer, { "background_colour": "#d6d6d6" }),
diff --git a/gopher_render/code_themes/tomorrow_night.py b/gopher_render/code_themes/tomorrow_night.py
index bb18381..8ae3525 100644
--- a/gopher_render/code_themes/tomorrow_night.py
+++ b/gopher_render/code_themes/tomorrow_night.py
@@ -10,7 +10,7 @@ from ..rendering import AnsiEscapeCodeRenderer
 # To use them, an ANSI aware block renderer would be required that restores
 # these colour settings after every syntax span.
 background_colour = "#1d1f21"
-foreground_colour: "#c5c8c6"
+foreground_colour = "#c5c8c6"
 
 renderers = {
     ".hll": (AnsiEscapeCodeRenderer, { "background_colour": "#373b41" }),
-- 
2.43.0

