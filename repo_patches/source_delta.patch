From fb4fa09eb62e5d2b9027a6603e37ae7365c99de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 01/38] fix: empty py:if and py:for bodies compile to an empty
 body

---
 tonnikala/languages/python/generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 90a65a4..d586c72 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -316,7 +316,8 @@ class PyIfNode(PyComplexNode):
         if boolean is True:
             return self.generate_child_ast(generator, parent)
 
-        node = If(test=test, body=self.generate_child_ast(generator, self), orelse=[])
+        body = self.generate_child_ast(generator, self) or [Pass()]
+        node = If(test=test, body=body, orelse=[])
         return [node]
 
 
@@ -422,7 +423,7 @@ class PyForNode(PyComplexNode):
             "exec",
         )
         for_node = body[0]
-        for_node.body = self.generate_child_ast(generator, self)
+        for_node.body = self.generate_child_ast(generator, self) or [Pass()]
         return [for_node]
 
     def generate_ast(self, generator, parent):
-- 
2.43.0


From 7eecb4e8fcededc1dabb83a5bc2e037fd0e82162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:49 +0000
Subject: [PATCH 02/38] fix: stray end tag is a template syntax error

---
 tonnikala/syntaxes/docparser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index acbec61..73445a2 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -272,6 +272,12 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
     def handle_endtag(self, name):
         self.flush_character_data()
+
+        if len(self.elements) == 1:
+            self.syntax_error(
+                "Invalid end tag </%s> (no element is open)" % name
+            )
+
         popped = self.elements.pop()
 
         if name.lower() != popped.name.lower():
-- 
2.43.0


From d43521b88fec018ffbc0f351423d4f47df108a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 03/38] fix: parse elements within title and textarea on new
 html.parser

---
 tonnikala/syntaxes/docparser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 73445a2..a77d9c2 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -158,6 +158,10 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         "wbr",
     }
 
+    # newer versions of html.parser do not recognize tags within title and
+    # textarea; templates need to be able to have control elements there.
+    RCDATA_CONTENT_ELEMENTS = ()
+
     def __init__(self, filename, source):
         super(TonnikalaHTMLParser, self).__init__(**html_parser_extra_kw)
         self.filename = filename
-- 
2.43.0


From d1d261ce313d2663b92e07235b6ebe730e8fcd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 04/38] fix: reload check removes a deleted template from the
 cache

---
 tonnikala/loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 825ad9f..fb9e67e 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -249,11 +249,13 @@ class FileLoader(Loader):
             return
 
         for name, tmpl in list(self.cache.items()):
-            if not os.stat(tmpl.path):
+            try:
+                mtime = os.stat(tmpl.path).st_mtime
+            except FileNotFoundError:
                 self.cache.pop(name)
                 continue
 
-            if os.stat(tmpl.path).st_mtime > tmpl.mtime:
+            if mtime > tmpl.mtime:
                 self.cache.clear()
                 break
 
-- 
2.43.0


From c71aac5ea06b8e5bad4a85dd9c56cc9983cb2de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 05/38] fix: a block inside for, if, def or another block
 compiles

---
 tonnikala/languages/python/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index d586c72..1dff726 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -161,6 +161,7 @@ class PythonNode(LanguageNode):
         for i in code:
             if position is not None:
                 i.lineno, i.col_offset = position
+                i.end_lineno, i.end_col_offset = position
 
             e = Expr(simple_call(func, [i]))
             e.output_args = [i]
-- 
2.43.0


From 77c0a52a11bc8da4264361ef36ccb1eda118cf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 06/38] fix: untokenizable interpolation is a template syntax
 error

---
 tonnikala/languages/python/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index b02a079..d60644a 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -45,6 +45,7 @@ def gen_tokens(text, pos):
     io = TokenReadLine(text, pos)
     readline = io.get_readline()
     tokens = generate_tokens(readline)
+    end_pos = pos
 
     try:
         for t_type, content, start, end, line in tokens:
@@ -53,7 +54,7 @@ def gen_tokens(text, pos):
 
     # tokenize will *throw* an exception at the end instead
     # of returning an error token under certain circumstances
-    except TokenError as e:
+    except (TokenError, IndentationError) as e:
         pos = len(text[:end_pos].rstrip())
         s = text[pos:]
         raise TemplateSyntaxError(e.args[0], node=s)
-- 
2.43.0


From cbab02ea7fdf436e6a9cde06526a67315c0cb77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 07/38] fix: comprehension variables do not hide context
 variables

---
 tonnikala/languages/python/astalyzer.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index 05382d5..f2aa2e3 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -47,6 +47,19 @@ class FreeVarFinder(ast.NodeVisitor):
         self.generated.add(node.name)
         self.do_visit_function(node)
 
+    def visit_comprehension_expression(self, node):
+        # the targets are local to the comprehension; the first iterable
+        # is evaluated in the enclosing scope
+        self.visit(node.generators[0].iter)
+        subscoper = FreeVarFinder()
+        subscoper.generic_visit(node)
+        self.vars = self.vars.union(subscoper.get_free_variables())
+
+    visit_ListComp = visit_comprehension_expression
+    visit_SetComp = visit_comprehension_expression
+    visit_DictComp = visit_comprehension_expression
+    visit_GeneratorExp = visit_comprehension_expression
+
     def visit_arguments(self, node):
         pass
 
-- 
2.43.0


From 146d031744ccbcb178a9c90a0f148d9209bc58ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 08/38] fix: unknown template syntax raises ValueError

---
 tonnikala/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index fb9e67e..7670836 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -158,7 +158,8 @@ class Loader(object):
         parser_func = parsers.get(self.syntax)
         if not parser_func:
             raise ValueError(
-                "Invalid parser syntax %s: valid syntaxes: %r" % sorted(parsers.keys())
+                "Invalid parser syntax %s: valid syntaxes: %r"
+                % (self.syntax, sorted(parsers.keys()))
             )
 
         try:
-- 
2.43.0


From 90b3c5a273a48156f0a4819b2cdebe50fa3286d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 09/38] fix: comments in an extending template are discarded

---
 tonnikala/ir/nodes.py           | 6 +++++-
 tonnikala/syntaxes/tonnikala.py | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/tonnikala/ir/nodes.py b/tonnikala/ir/nodes.py
index c92eacf..8a4b255 100644
--- a/tonnikala/ir/nodes.py
+++ b/tonnikala/ir/nodes.py
@@ -100,6 +100,10 @@ class EscapedText(Text):
         return self.text
 
 
+class EscapedComment(EscapedText):
+    """A complete comment with its delimiters"""
+
+
 class Expression(BaseNode):
     is_cdata = False
 
@@ -333,7 +337,7 @@ class Extends(ContainerNode):
         other nodes, raise a syntax error.
         """
 
-        if isinstance(child, Comment):
+        if isinstance(child, (Comment, EscapedComment)):
             return
 
         # ignore Text nodes with whitespace-only content
diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 102a7f6..791faac 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -7,6 +7,7 @@ from tonnikala.ir.nodes import (
     For,
     Define,
     Import,
+    EscapedComment,
     EscapedText,
     Block,
     Extends,
@@ -240,7 +241,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
             return ir_node
 
         if node_t == Node.COMMENT_NODE:
-            ir_node = EscapedText(u"<!--" + dom_node.nodeValue + u"-->")
+            ir_node = EscapedComment(u"<!--" + dom_node.nodeValue + u"-->")
             return ir_node
 
         if node_t == Node.PROCESSING_INSTRUCTION_NODE:
-- 
2.43.0


From 0ed7d33101e3961ac30a00354c0ac111dbe9ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 10/38] fix: errors about the content of an extending template
 carry its line

---
 tonnikala/syntaxes/tonnikala.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 791faac..c2bd170 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -201,6 +201,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
 
         if generate_element:
             el_ir_node = Element(dom_node.tagName, guard_expression=guard_expression)
+            el_ir_node.position = dom_node.position
             self.generate_attributes_for_node(dom_node, el_ir_node)
 
         if not topmost:
@@ -238,6 +239,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
                 is_cdata=self.state["is_cdata"],
                 translatable=self.is_translatable(),
             )
+            ir_node.position = dom_node.position
             return ir_node
 
         if node_t == Node.COMMENT_NODE:
-- 
2.43.0


From 9956227262e1ac0d60634abae1c2cdde86fe7650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 11/38] fix: defaults of top level definitions see the context
 variables

---
 tonnikala/languages/python/generator.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 1dff726..4e38139 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -718,6 +718,18 @@ class PyRootNode(PyComplexNode):
             code += '    gettext = __TK__context["gettext"]\n'
             free_variables.discard("gettext")
 
+        # the defaults of the toplevel funcs are evaluated as soon as
+        # the functions are created
+        default_variables = FreeVarFinder()
+        for i in toplevel_funcs:
+            for default in i.args.defaults + i.args.kw_defaults:
+                if default is not None:
+                    default_variables.visit(default)
+
+        for i in default_variables.get_free_variables() & free_variables:
+            code += '    if "%s" in __TK__context:\n' % i
+            code += '        %s = __TK__context["%s"]\n' % (i, i)
+
         code += "    raise\n"  # a placeholder
 
         if extended:
-- 
2.43.0


From c5d87fa7093005f010636a6d57a777ccc29bdf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 12/38] fix: brackets in the text of an f-string do not end an
 interpolation

---
 tonnikala/languages/python/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index d60644a..6bc5cb0 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -72,6 +72,10 @@ def parse_brace_enclosed_expression(text, start_pos, position):
 
     tokens = gen_tokens(text, start_pos + 2)
     for t_type, content, end_pos in tokens:
+        # the text of an f-string is not an operator
+        if t_type != token.OP:
+            continue
+
         if content == "}":
             if n_braces <= 0:
                 valid = True
@@ -109,10 +113,10 @@ def parse_unenclosed_expression(text, start_pos, position):
 
         # a braced expression is started, consume it
         for t_type, content, end_pos in gen_tokens(text, pos):
-            if content in braces:
+            if t_type == token.OP and content in braces:
                 pars.append(content)
 
-            elif content in braces.values():
+            elif t_type == token.OP and content in braces.values():
                 last = pars.pop()
                 if braces[last] != content:
                     raise TemplateSyntaxError(
-- 
2.43.0


From 5f51d9869b8c680c908636364f261d3d71b49366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:07 +0000
Subject: [PATCH 13/38] fix: errors about expressions and code in an extending
 template carry their line

---
 tonnikala/syntaxes/tonnikala.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index c2bd170..e26d24e 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -196,6 +196,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         el_ir_node = None
         if replace is not None:
             el_ir_node = Expression(replace)
+            el_ir_node.position = dom_node.position
             add_children = False
             generate_element = False
 
@@ -248,6 +249,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
 
         if node_t == Node.PROCESSING_INSTRUCTION_NODE:
             ir_node = Code(dom_node.nodeValue.strip())
+            ir_node.position = dom_node.position
             return ir_node
 
         if node_t == Node.DOCUMENT_TYPE_NODE:
-- 
2.43.0


From 1c925a4c54ff1a6e2dfe1a6077a6ef718fb3985d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:17 +0000
Subject: [PATCH 14/38] fix: unknown control attributes and elements are errors
 where no tag is output

---
 tonnikala/syntaxes/tonnikala.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index e26d24e..f705f46 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -45,15 +45,18 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
     def get_guard_expression(self, dom_node):
         return self.grab_and_remove_control_attr(dom_node, "strip")
 
+    def reject_control_attributes(self, dom_node):
+        # if there are control nodes present at this stage, complain aloud
+        for k, v in dom_node.attributes.items():
+            if k.startswith(self.control_prefix):
+                self.syntax_error("Unknown control attribute {}".format(k), node=v)
+
     def generate_attributes_for_node(self, dom_node, ir_node):
         attrs_node = self.grab_and_remove_control_attr(dom_node, "attrs")
         if dom_node.hasAttribute(self.xmlns):
             dom_node.removeAttribute(self.xmlns)
 
-        # if there are control nodes present at this stage, complain aloud
-        for k, v in dom_node.attributes.items():
-            if k.startswith(self.control_prefix):
-                self.syntax_error("Unknown control attribute {}".format(k), node=v)
+        self.reject_control_attributes(dom_node)
 
         # allow handling None as attributes; i.e. html attributes without value
         def handle_attribute_value(k, v):
@@ -174,6 +177,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
 
     def generate_element_node(self, dom_node):
         generate_element, topmost, bottom = self.create_control_nodes(dom_node)
+        is_control_element = not generate_element
 
         guard_expression = self.get_guard_expression(dom_node)
 
@@ -189,6 +193,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
 
         if self.is_control_name(dom_node.tagName, "replace"):
             replace = self.grab_mandatory_attribute(dom_node, "value")
+            is_control_element = True
         else:
             replace = self.grab_and_remove_control_attr(dom_node, "replace")
 
@@ -204,6 +209,10 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
             el_ir_node = Element(dom_node.tagName, guard_expression=guard_expression)
             el_ir_node.position = dom_node.position
             self.generate_attributes_for_node(dom_node, el_ir_node)
+        else:
+            # without a start tag there is nothing to add the attrs to
+            self.grab_and_remove_control_attr(dom_node, "attrs")
+            self.reject_control_attributes(dom_node)
 
         if not topmost:
             topmost = el_ir_node
@@ -221,7 +230,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
                 self.add_children(self.child_iter(dom_node), bottom)
 
         # raise syntax error for unknown control node names
-        if generate_element and self.control_name(dom_node.tagName):
+        if not is_control_element and self.control_name(dom_node.tagName) is not None:
             self.syntax_error(
                 "Unknown control element <{}>".format(dom_node.tagName), node=dom_node
             )
-- 
2.43.0


From cc27bf2f9d45b1d6e9ed34d7fd4e7936e464dbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 15/38] fix: columns of located text and attributes count from
 zero on every line

---
 tonnikala/helpers/__init__.py   | 2 +-
 tonnikala/syntaxes/docparser.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tonnikala/helpers/__init__.py b/tonnikala/helpers/__init__.py
index c6ba372..5e71e0e 100644
--- a/tonnikala/helpers/__init__.py
+++ b/tonnikala/helpers/__init__.py
@@ -42,7 +42,7 @@ def calculate_position(source, offset, start=None):
 
     fragment = source[:offset]
     lines = fragment.count("\n")
-    column_offset = offset - fragment.rfind("\n") if lines else offset
+    column_offset = offset - fragment.rfind("\n") - 1
 
     if lines:
         pos = start[0] + lines, column_offset
diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index a77d9c2..aaf4a82 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -225,7 +225,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
         attr_pos = {}
 
         lineoffset = source[:start].count("\n")
-        colpos = start - source[:start].rfind("\n") if lineoffset else start + 1
+        colpos = start - source[:start].rfind("\n") - 1
 
         for m in attrfind.finditer(source, start, len(source) - 1):
             if not m.group(2):
@@ -238,7 +238,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
             advance = source[start:attrstart]
             linedelta = advance.count("\n")
             if linedelta:
-                colpos = len(advance) - advance.rfind("\n")
+                colpos = len(advance) - advance.rfind("\n") - 1
             else:
                 colpos += len(advance)
 
-- 
2.43.0


From fbcef7c173cb0b033d9f85707269a29ed5b70b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 16/38] fix: template syntax errors raised while rendering are
 passed on unchanged

---
 tonnikala/runtime/debug.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tonnikala/runtime/debug.py b/tonnikala/runtime/debug.py
index 3ae9833..d799e19 100644
--- a/tonnikala/runtime/debug.py
+++ b/tonnikala/runtime/debug.py
@@ -171,7 +171,9 @@ class ProcessedTraceback(object):
 def make_traceback(exc_info, source_hint=None):
     """Creates a processed traceback object from the exc_info."""
     exc_type, exc_value, tb = exc_info
-    if isinstance(exc_value, TemplateSyntaxError):
+    if isinstance(exc_value, TemplateSyntaxError) and source_hint is not None:
+        # an error in the template that is being loaded; one raised while
+        # rendering is passed on unchanged, like any other exception
         exc_info = translate_syntax_error(exc_value, source_hint)
         initial_skip = 0
     else:
-- 
2.43.0


From 40bb5d6a266f218894f10f33d73f7e8f501f43b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 17/38] fix: tracebacks name the line of a value whose
 conversion fails

---
 tonnikala/languages/python/generator.py | 32 ++++++++++++-------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 4e38139..2583cb0 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -255,7 +255,11 @@ class PyExpressionNode(PythonNode):
         return [self.get_expression()]
 
     def get_expression(self):
-        return simple_call(NameX("__TK__escape"), [self.get_unescaped_expression()])
+        expression = self.get_unescaped_expression()
+        # converting the value to a string can fail too, on the same line
+        return ast.copy_location(
+            simple_call(NameX("__TK__escape"), [expression]), expression
+        )
 
     def get_unescaped_expression(self):
         return get_fragment_ast(self.expr)
@@ -372,21 +376,16 @@ class PyAttributeNode(PyComplexNode):
             # expression, these are handled by
             # __TK__output.output_boolean_attr,
             # given the name, and unescaped expression!
-            return [
-                Expr(
-                    simple_call(
-                        func=Attribute(
-                            value=NameX("__TK__output"),
-                            attr="output_boolean_attr",
-                            ctx=Load(),
-                        ),
-                        args=[
-                            Str(s=self.name),
-                            self.children[0].get_unescaped_expression(),
-                        ],
-                    )
-                )
-            ]
+            expression = self.children[0].get_unescaped_expression()
+            output = simple_call(
+                func=Attribute(
+                    value=NameX("__TK__output"),
+                    attr="output_boolean_attr",
+                    ctx=Load(),
+                ),
+                args=[Str(s=self.name), expression],
+            )
+            return [Expr(ast.copy_location(output, expression))]
 
         # otherwise just return the output for the attribute code
         # like before
@@ -406,6 +405,7 @@ class PyAttrsNode(PythonNode):
         expression = get_fragment_ast(self.expression)
 
         output = simple_call(NameX("__TK__output_attrs"), args=[expression])
+        ast.copy_location(output, expression)
         return self.generate_output_ast([output], generator, parent)
 
 
-- 
2.43.0


From 9105b4e1fa846813b157b96b64ec2f0785368fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 18/38] fix: strip conditions with operators are negated as a
 whole in JavaScript

---
 tonnikala/languages/javascript/generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 51cf064..49ddebd 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -352,6 +352,10 @@ class JsIfNode(JsComplexNode):
 
 
 def JsUnlessNode(self, expression):
+    if isinstance(expression, str):
+        # the negation binds tighter than any other operator
+        expression = "(%s)" % expression
+
     expression = get_fragment_ast(expression)
     expression = UnaryOp(op="!", value=expression)
     return JsIfNode(expression)
-- 
2.43.0


From d54ea77badd07bf830293c8b44cac7a812dcddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 19/38] fix: names in annotations, decorators, class bodies and
 async functions are looked up in the context

---
 tonnikala/languages/python/astalyzer.py | 25 ++++++++++++++++++++++---
 tonnikala/languages/python/generator.py | 10 +++++-----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/tonnikala/languages/python/astalyzer.py b/tonnikala/languages/python/astalyzer.py
index f2aa2e3..8fa07b6 100644
--- a/tonnikala/languages/python/astalyzer.py
+++ b/tonnikala/languages/python/astalyzer.py
@@ -38,6 +38,14 @@ class FreeVarFinder(ast.NodeVisitor):
         subscoper.generic_visit(node)
         self.vars = self.vars.union(subscoper.get_free_variables())
         self.do_visit_lambda_defaults(node.args)
+
+        # these are evaluated in the enclosing scope
+        for decorator in getattr(node, "decorator_list", []):
+            self.visit(decorator)
+
+        if getattr(node, "returns", None):
+            self.visit(node.returns)
+
         self.newly_masked = set(masked)
 
     def visit_Lambda(self, node):
@@ -47,6 +55,20 @@ class FreeVarFinder(ast.NodeVisitor):
         self.generated.add(node.name)
         self.do_visit_function(node)
 
+    visit_AsyncFunctionDef = visit_FunctionDef
+
+    def visit_ClassDef(self, node):
+        self.generated.add(node.name)
+        for i in node.decorator_list + node.bases + node.keywords:
+            self.visit(i)
+
+        # names bound in a class body are not visible outside of it
+        subscoper = FreeVarFinder()
+        for i in node.body:
+            subscoper.visit(i)
+
+        self.vars = self.vars.union(subscoper.vars)
+
     def visit_comprehension_expression(self, node):
         # the targets are local to the comprehension; the first iterable
         # is evaluated in the enclosing scope
@@ -65,9 +87,6 @@ class FreeVarFinder(ast.NodeVisitor):
 
     def do_visit_lambda_defaults(self, node):
         for field, value in ast.iter_fields(node):
-            if field == "args":
-                continue
-
             if isinstance(value, list):
                 for item in value:
                     if isinstance(item, ast.AST):
diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 2583cb0..ef8332a 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -718,13 +718,13 @@ class PyRootNode(PyComplexNode):
             code += '    gettext = __TK__context["gettext"]\n'
             free_variables.discard("gettext")
 
-        # the defaults of the toplevel funcs are evaluated as soon as
-        # the functions are created
+        # the defaults and annotations of the toplevel funcs are evaluated
+        # as soon as the functions are created
         default_variables = FreeVarFinder()
         for i in toplevel_funcs:
-            for default in i.args.defaults + i.args.kw_defaults:
-                if default is not None:
-                    default_variables.visit(default)
+            default_variables.do_visit_lambda_defaults(i.args)
+            if i.returns is not None:
+                default_variables.visit(i.returns)
 
         for i in default_variables.get_free_variables() & free_variables:
             code += '    if "%s" in __TK__context:\n' % i
-- 
2.43.0


From ca9738828104d50809e0067d452b29d52c9e3a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 20/38] fix: content of an import element is a template syntax
 error, not an AttributeError

---
 tonnikala/ir/nodes.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/tonnikala/ir/nodes.py b/tonnikala/ir/nodes.py
index 8a4b255..e894830 100644
--- a/tonnikala/ir/nodes.py
+++ b/tonnikala/ir/nodes.py
@@ -273,6 +273,26 @@ class Import(BaseNode):
 
         self.href = href
         self.alias = alias
+        self.content = []
+
+    def add_child(self, child):
+        """
+        An import has no content; whitespace and comments are discarded.
+        """
+
+        if isinstance(child, (Comment, EscapedComment)):
+            return
+
+        if isinstance(child, Text) and not child.text.strip():
+            return
+
+        self.content.append(child)
+
+    def validate(self, validator):
+        if self.content:
+            validator.syntax_error("No content allowed within an import", node=self)
+
+        super(Import, self).validate(validator)
 
     def __str__(self):  # pragma: no cover
         return ", ".join([self.href, self.alias])
-- 
2.43.0


From 90cca1d3a064fe84c094c71d212727834cf8e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 21/38] fix: a content expression is added like other children
 and has a position

---
 tonnikala/syntaxes/tonnikala.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index f705f46..2110349 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -190,6 +190,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         content = self.grab_and_remove_control_attr(dom_node, "content")
         if content:
             overridden_children = [Expression(content)]
+            overridden_children[0].position = dom_node.position
 
         if self.is_control_name(dom_node.tagName, "replace"):
             replace = self.grab_mandatory_attribute(dom_node, "value")
@@ -225,7 +226,8 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
 
         if add_children:
             if overridden_children:
-                bottom.children = overridden_children
+                for child in overridden_children:
+                    bottom.add_child(child)
             else:
                 self.add_children(self.child_iter(dom_node), bottom)
 
-- 
2.43.0


From 616c33156ee1d234bfa526e563a7ff05d418b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:36 +0000
Subject: [PATCH 22/38] fix: extract plural messages with the singular first

---
 tonnikala/i18n/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/i18n/__init__.py b/tonnikala/i18n/__init__.py
index 68d1e08..8fb1c79 100644
--- a/tonnikala/i18n/__init__.py
+++ b/tonnikala/i18n/__init__.py
@@ -74,7 +74,7 @@ def extract_tonnikala(fileobj, keywords, comment_tags, options):
 
         prefix = ""
         if msg.msgid_plural:
-            msgid = (msg.msgid_plural,) + msgid
+            msgid = msgid + (msg.msgid_plural,)
             prefix = "n"
 
         if msg.msgctxt:
-- 
2.43.0


From 87fc9331910a728922544724b6a7f58f2fb42879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 23/38] fix: report null characters and lone surrogates in an
 expression as template syntax errors

---
 tonnikala/languages/python/__init__.py  | 5 +++--
 tonnikala/languages/python/generator.py | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index 6bc5cb0..558f532 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -54,10 +54,11 @@ def gen_tokens(text, pos):
 
     # tokenize will *throw* an exception at the end instead
     # of returning an error token under certain circumstances
-    except (TokenError, IndentationError) as e:
+    except (TokenError, IndentationError, UnicodeEncodeError) as e:
         pos = len(text[:end_pos].rstrip())
         s = text[pos:]
-        raise TemplateSyntaxError(e.args[0], node=s)
+        message = e.reason if isinstance(e, UnicodeEncodeError) else e.args[0]
+        raise TemplateSyntaxError(message, node=s)
 
 
 braces = {
diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index ef8332a..22a6a7d 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -113,9 +113,12 @@ def get_fragment_ast(expression, mode="eval", adjust=(0, 0)):
             exp = expression + "\n"
         tree = ast.parse(exp, mode=mode)
     except SyntaxError as e:
-        lineno = e.lineno
+        # a null character is reported without a line
+        lineno = e.lineno or 1
         lineno += position[0] - 1
         t = TemplateSyntaxError(e.msg, lineno=lineno)
+    except UnicodeEncodeError as e:
+        t = TemplateSyntaxError(e.reason, lineno=position[0])
 
     if tree is None:
         raise t
-- 
2.43.0


From 38729599eac242be6171d7cc6e31b0afaca1c29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 24/38] fix: accept a lower-case doctype, and report an invalid
 one as a template syntax error

---
 tonnikala/syntaxes/docparser.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index aaf4a82..6ccac5e 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -354,8 +354,19 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
             self.elements[-1].appendChild(node)
 
     def handle_decl(self, decl):
-        dt = dom.parseString("<!%s><html/>" % decl).doctype
-        self.elements[-1].appendChild(dt)
+        self.flush_character_data()
+
+        if len(self.elements) > 1:
+            self.syntax_error("Document type declaration inside an element")
+
+        # The keyword is case-insensitive in HTML, but not in XML
+        source = "<!DOCTYPE%s><html/>" % decl[len("DOCTYPE"):]
+        try:
+            dt = dom.parseString(source).doctype
+        except Exception as e:
+            self.syntax_error("Invalid document type declaration: %s" % e)
+
+        self.doc.appendChild(dt)
 
     def unknown_decl(self, decl):
         self.syntax_error("Unknown declaration: %s" % decl)
-- 
2.43.0


From 01c40481bcc14fe62820c74f9ee6d5ae1c7dab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:59 +0000
Subject: [PATCH 25/38] fix: report a second root element as a template syntax
 error

---
 tonnikala/syntaxes/docparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 6ccac5e..477a42b 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -256,6 +256,9 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     def handle_starttag(self, name, attrs, self_closing=False):
         self.flush_character_data()
 
+        if len(self.elements) == 1 and self.doc.documentElement is not None:
+            self.syntax_error("More than one root element")
+
         attr_pos = self.find_attr_positions(attrs)
         el = self.doc.createElement(name)
         el.name = name
-- 
2.43.0


From ac3ff45b7a15be2d1a42ff247a85fc09b370432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 26/38] fix: accept a processing instruction that has only a
 target

---
 tonnikala/syntaxes/docparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 477a42b..bfe0ecf 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -307,12 +307,12 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
 
         # The HTMLParser spits processing instructions as is with type and all
         # (python 2 split does not take keyword arguments :( )
-        type_, data = data.split(None, 1)
-
         if data.endswith("?"):
             # XML syntax parsed as SGML, remove trailing '?'
             data = data[:-1]
 
+        type_, data = (data.split(None, 1) + ["", ""])[:2]
+
         node = self.doc.createProcessingInstruction(type_, data)
         node.position = self.getpos()
         self.elements[-1].appendChild(node)
-- 
2.43.0


From 7cd0cb258bb6db95e9c677b10b44c824ad89bc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 27/38] fix: literal is a builtin of JavaScript templates

---
 tonnikala/languages/javascript/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 49ddebd..59db931 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -73,6 +73,7 @@ except ImportError:
 
 name_counter = 0
 ALWAYS_BUILTINS = """
+    literal
     undefined
 """.split()
 
-- 
2.43.0


From 2a1fca9aac9ee45553795369e5d20e1e292aa089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 28/38] fix: an extending JavaScript template that declares
 nothing is valid

---
 tonnikala/languages/javascript/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/javascript/generator.py b/tonnikala/languages/javascript/generator.py
index 59db931..bc435b4 100644
--- a/tonnikala/languages/javascript/generator.py
+++ b/tonnikala/languages/javascript/generator.py
@@ -721,7 +721,8 @@ class JsRootNode(JsComplexNode):
         code += "        __TK__ctxadd = __TK__.addToContext,\n"
         code += "        __TK__ctxbind = __TK__.bindFromContext;\n"
         code += "    return function __TK__binder (__TK__context) {\n"
-        code += "        var %s;\n" % ",\n            ".join(free_variables)
+        if free_variables:
+            code += "        var %s;\n" % ",\n            ".join(free_variables)
 
         if extended:
             # an extended template does not have a __main__ (it is inherited)
-- 
2.43.0


From aad25889cb28450bcf97c79fd0015ba14a6205b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 29/38] fix: code instructions keep their place in the template

---
 tonnikala/syntaxes/docparser.py | 9 +++++++--
 tonnikala/syntaxes/tonnikala.py | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index bfe0ecf..0659be9 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -311,9 +311,14 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
             # XML syntax parsed as SGML, remove trailing '?'
             data = data[:-1]
 
-        type_, data = (data.split(None, 1) + ["", ""])[:2]
+        type_, code = (data.split(None, 1) + ["", ""])[:2]
 
-        node = self.doc.createProcessingInstruction(type_, data)
+        # slicing keeps the location; data begins right after the "<?"
+        line, offset = self.getpos()
+        data = StringWithLocation(data, line, offset + 2)
+        code = data[len(data) - len(code):]
+
+        node = self.doc.createProcessingInstruction(type_, code)
         node.position = self.getpos()
         self.elements[-1].appendChild(node)
 
diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 2110349..d8e4396 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -259,7 +259,9 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
             return ir_node
 
         if node_t == Node.PROCESSING_INSTRUCTION_NODE:
-            ir_node = Code(dom_node.nodeValue.strip())
+            # the leading whitespace is gone already
+            code = dom_node.nodeValue
+            ir_node = Code(code[:len(code.rstrip())])
             ir_node.position = dom_node.position
             return ir_node
 
-- 
2.43.0


From 0dc1e32cfac0df1c3686d0c13e96210b00ee80f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 30/38] fix: an unknown control attribute without a value is
 reported at its line

---
 tonnikala/syntaxes/tonnikala.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index d8e4396..02dff82 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -49,7 +49,11 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         # if there are control nodes present at this stage, complain aloud
         for k, v in dom_node.attributes.items():
             if k.startswith(self.control_prefix):
-                self.syntax_error("Unknown control attribute {}".format(k), node=v)
+                # an attribute without a value does not have a position
+                self.syntax_error(
+                    "Unknown control attribute {}".format(k),
+                    node=dom_node if v is None else v,
+                )
 
     def generate_attributes_for_node(self, dom_node, ir_node):
         attrs_node = self.grab_and_remove_control_attr(dom_node, "attrs")
@@ -100,7 +104,7 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
 
     def syntax_error(self, message, node=None, lineno=None):
         if lineno is None:
-            if node:
+            if node is not None:
                 lineno = getattr(node, "position", (0, 0))[0]
             else:
                 lineno = 0
-- 
2.43.0


From f52c27cac764c2824e336785afe135480c193fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 31/38] fix: a mandatory attribute without a value is a
 template syntax error

---
 tonnikala/syntaxes/tonnikala.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/tonnikala.py b/tonnikala/syntaxes/tonnikala.py
index 02dff82..fe8d81a 100644
--- a/tonnikala/syntaxes/tonnikala.py
+++ b/tonnikala/syntaxes/tonnikala.py
@@ -112,7 +112,8 @@ class TonnikalaIRGenerator(BaseDOMIRGenerator):
         BaseDOMIRGenerator.syntax_error(self, message=message, lineno=lineno)
 
     def grab_mandatory_attribute(self, dom_node, name):
-        if not dom_node.hasAttribute(name):
+        # None: the name of the attribute alone, without a value
+        if not dom_node.hasAttribute(name) or dom_node.getAttribute(name) is None:
             self.syntax_error(
                 message="<{}> does not have the required attribute '{}'".format(
                     dom_node.name, name
-- 
2.43.0


From 4c1d0298640aee2f045eec298f60ffab06b8868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 32/38] fix: a block name that is no Python name is a template
 syntax error

---
 tonnikala/languages/python/generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tonnikala/languages/python/generator.py b/tonnikala/languages/python/generator.py
index 22a6a7d..328bade 100644
--- a/tonnikala/languages/python/generator.py
+++ b/tonnikala/languages/python/generator.py
@@ -6,6 +6,7 @@ from ast import (
     Str, Name, Load, Store, Not, arg, Raise, Return
 )
 from collections.abc import Iterable
+from keyword import iskeyword
 
 from .astalyzer import FreeVarFinder
 from ..base import LanguageNode, ComplexNode, BaseGenerator
@@ -491,6 +492,9 @@ class PyBlockNode(PyComplexNode):
         is_extended = isinstance(parent, PyExtendsNode)
 
         name = self.name
+        if not name.isidentifier() or iskeyword(name):
+            raise TemplateSyntaxError("Invalid block name %r" % str(name), node=name)
+
         blockfunc_name = f"__TK__block__{name}"
         position = getattr(name, "position", (1, 0))
         body = get_fragment_ast(
-- 
2.43.0


From 1aa9cbf483195e96da1b5cc76e7b0db8dddb923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:44 +0000
Subject: [PATCH 33/38] fix: take a template's modification time before reading
 it, so that a change made while loading is noticed

---
 tonnikala/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 7670836..456bfc7 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -282,8 +282,9 @@ class FileLoader(Loader):
             raise OSError(errno.ENOENT, "File not found: %s" % name)
 
         with codecs.open(path, "r", encoding="UTF-8") as f:
-            contents = f.read()
+            # before reading: a change made while reading must be noticed later
             mtime = os.fstat(f.fileno()).st_mtime
+            contents = f.read()
 
         template = self.load_string(contents, filename=path)
         template.mtime = mtime
-- 
2.43.0


From 82d947cc3bea86540f973e6ecadc4cbd78a6e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:29 +0000
Subject: [PATCH 34/38] fix: the JavaScript runtime looks up context names in
 contexts without a prototype or with a name hasOwnProperty

---
 tonnikala/runtime/javascript.js | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tonnikala/runtime/javascript.js b/tonnikala/runtime/javascript.js
index c3b6026..5e5172e 100644
--- a/tonnikala/runtime/javascript.js
+++ b/tonnikala/runtime/javascript.js
@@ -1,7 +1,8 @@
 define([], function () {
     'use strict';
     var globals = typeof window == 'undefined' ? global : window,
-        map = Array.prototype.map;
+        map = Array.prototype.map,
+        hasOwn = Object.prototype.hasOwnProperty;
 
     function Markup(s) {
         this.s = s;
@@ -154,13 +155,13 @@ define([], function () {
     }
 
     function addToContext(ctx, name, value) {
-        if (!ctx.hasOwnProperty(name)) {
+        if (!hasOwn.call(ctx, name)) {
             ctx[name] = value;
         }
     }
 
     function bindFromContext(ctx, name) {
-        if (ctx.hasOwnProperty(name)) {
+        if (hasOwn.call(ctx, name)) {
             return ctx[name];
         }
 
-- 
2.43.0


From c2296b0f98d663d017f8f7b8b705d45d4e30603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:29 +0000
Subject: [PATCH 35/38] fix: a reload check survives a template dropped by
 another thread and a directory that became a file

---
 tonnikala/loader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tonnikala/loader.py b/tonnikala/loader.py
index 456bfc7..8d80fc6 100644
--- a/tonnikala/loader.py
+++ b/tonnikala/loader.py
@@ -252,8 +252,9 @@ class FileLoader(Loader):
         for name, tmpl in list(self.cache.items()):
             try:
                 mtime = os.stat(tmpl.path).st_mtime
-            except FileNotFoundError:
-                self.cache.pop(name)
+            except (FileNotFoundError, NotADirectoryError):
+                # another thread may have dropped it already
+                self.cache.pop(name, None)
                 continue
 
             if mtime > tmpl.mtime:
-- 
2.43.0


From b8a2eaba0c398f209c8d2fc818d54db7b45474dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:29 +0000
Subject: [PATCH 36/38] fix: hexadecimal character references may start with a
 capital X

---
 tonnikala/syntaxes/docparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 0659be9..6afa0cc 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -342,7 +342,7 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
     def handle_charref(self, code):
         # Encoding?
         try:
-            if code.startswith("x"):
+            if code.startswith(("x", "X")):
                 cp = int(code[1:], 16)
             else:
                 cp = int(code, 10)
-- 
2.43.0


From 71f92d8c3b4767ad6bf6970008ca9464d59174cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:10 +0000
Subject: [PATCH 37/38] fix: keep attributes that differ only in their prefix

minidom identifies the attributes of an element by namespace and local
name, and without a namespace the later one of lang and xml:lang, or of
for and py:for, replaced the earlier one.
---
 tonnikala/syntaxes/docparser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tonnikala/syntaxes/docparser.py b/tonnikala/syntaxes/docparser.py
index 6afa0cc..fbf25fb 100644
--- a/tonnikala/syntaxes/docparser.py
+++ b/tonnikala/syntaxes/docparser.py
@@ -269,7 +269,9 @@ class TonnikalaHTMLParser(html_parser.HTMLParser, object):
                 l, o = attr_pos[k]
                 v = StringWithLocation(v, l, o)
 
-            el.setAttribute(k, v)
+            # minidom keeps only one attribute of each namespace and local
+            # name: without a namespace x:a would replace a
+            el.setAttributeNS(k, k, v)
 
         self.elements[-1].appendChild(el)
         self.elements.append(el)
-- 
2.43.0


From 9ee407a96d091bdb021b751b6099d642eda6cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:18 +0000
Subject: [PATCH 38/38] fix: let nulls and lone surrogates follow an
 interpolated expression

The tokenizer was given whole lines, so a character that no Python source
may hold made the template fail even when it came after the expression.
---
 tonnikala/languages/python/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tonnikala/languages/python/__init__.py b/tonnikala/languages/python/__init__.py
index 558f532..aba8405 100644
--- a/tonnikala/languages/python/__init__.py
+++ b/tonnikala/languages/python/__init__.py
@@ -34,6 +34,10 @@ class TokenReadLine(object):
         return self.readline().__next__
 
 
+# what no Python source may hold
+not_in_source = re.compile("[\0\ud800-\udfff]")
+
+
 def gen_tokens(text, pos):
     """
     Generate position-adjusted python tokens from the given source text
@@ -42,7 +46,8 @@ def gen_tokens(text, pos):
     :param pos: the adjusted position
     :return: a generator yielding the tokens
     """
-    io = TokenReadLine(text, pos)
+    # the text that follows an expression need not be valid in Python
+    io = TokenReadLine(not_in_source.sub(" ", text), pos)
     readline = io.get_readline()
     tokens = generate_tokens(readline)
     end_pos = pos
-- 
2.43.0

