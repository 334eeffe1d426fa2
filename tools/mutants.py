"""(unit, file, old text, new text): each change breaks the contract of the unit"""
RP = "runtime/python.py"
G = "ir/generate.py"
N = "ir/nodes.py"
H = "helpers/__init__.py"
P = "languages/python/generator.py"
B = "languages/base.py"
Z = "languages/python/astalyzer.py"
L = "loader.py"
Y = "pyramid/__init__.py"
D = "runtime/debug.py"
X = "runtime/exceptions.py"
S = "syntaxes/tonnikala.py"
DP = "syntaxes/docparser.py"
J = "runtime/javascript.js"
JG = "languages/javascript/generator.py"
MUTANTS = [
    ("helpers.escape", H, '.replace("<", "&lt;")', '.replace("<", "&gt;")'),
    ("helpers.escape", H, 'string.replace("&", "&amp;")\n        .replace("<", "&lt;")', 'string.replace("<", "&lt;").replace("&", "&amp;")'),
    ("helpers.calculate_position", H, 'fragment.rfind("\\n") - 1', 'fragment.rfind("\\n")'),
    ("helpers.position-composes", H, 'start[1] + column_offset', 'column_offset'),
    ("helpers.StringWithLocation.slice", H, 'i.indices(len(self))[0]', '(i.start or 0)'),
    ("helpers.reraise", H, 'raise value.with_traceback(tb)', 'raise tp()'),
    ("nodes.Text.escaped", N, 'if self.is_cdata:\n            return self.text\n\n        return escape(self.text)\n\n\nclass Empty', 'return escape(self.text)\n\n\nclass Empty'),
    ("nodes.escape_comment", N, '"--", "&#45;&#45;"', '"--", "- -"'),
    ("nodes.Element.set_attribute", N, 'and not value.translatable', ''),
    ("nodes.Extends.add_child", N, '        if isinstance(child, Text) and not child.text.strip():\n            return\n\n        super', '        if isinstance(child, Text) and not child.text:\n            return\n\n        super'),
    ("nodes.Extends.validate", N, '(Block, Define, Import)', '(Block, Define, Import, If)'),
    ("nodes.Extends.validate", N, 'super(Extends, self).validate(validator)', 'pass'),
    ("nodes.For.validate", N, 'len(self.parts) != 2', 'len(self.parts) < 2'),
    ("generate.merge_text_nodes_on", G, 'text_run.append(i.escaped())', 'text_run.append(i.text)'),
    ("generate.merge_text_nodes_on", G, '                    text_run = []\n\n                new_children.append(i)', '\n                new_children.append(i)'),
    ("generate.merge_text_nodes_on", G, '        if text_run:\n            new_children.append(EscapedText("".join(text_run)))\n\n        node.children', '        node.children'),
    ("generate.merge_text_nodes_on", G, 'for i in node.children:\n            self.merge_text', 'for i in node.children[:0]:\n            self.merge_text'),
    ("generate.merge_text_nodes_on", G, 'and not i.translatable', ''),
    ("generate.flatten_element_nodes_on", G, 'recurse = True', 'recurse = len(child_nodes) > 1'),
    ("generate.flatten_element_nodes_on", G, 'end_tag = Unless(guard)', 'end_tag = Unless(i.name)'),
    ("generate.flatten_element_nodes_on", G, 'EscapedText(i.escaped())', 'EscapedText(i.text)'),
    ("generate.flatten_element_nodes_on", G, 'if i.name in self.empty_elements', 'if i.name not in self.empty_elements'),
    ("generate.get_start_tag_nodes", G, 'if element.attributes:', 'if element.mutable_attributes:'),
    ("generate.render_constant_attributes", G, 'value.escaped()', 'value.text'),
    ("generate.render_constant_attributes", G, 'code.append(name)', 'code.append(name + "=\\"\\"")'),
    ("generate.push_pop_state", G, 'new = dict(self.states[-1])', 'new = self.states[-1]'),
    ("generate.enter_node", G, 'bool(self.state.get("is_cdata")) or this_is_cdata', 'this_is_cdata'),
    ("generate.add_children", G, 'if node:\n                ir_node.add_child(node)', 'if node and ir_node.children:\n                ir_node.add_child(node)'),
    ("buffer.output", RP, 'a(str(obj))', 'obj and a(str(obj))'),
    ("buffer.output", RP, 'e(obj._buffer)', 'buffer[:] = obj._buffer'),
    ("buffer.output_boolean_attr", RP, 'do_output(escape(value))', 'do_output(value)'),
    ("buffer.output_boolean_attr", RP, 'value and do_output(', 'do_output('),
    ("output_attrs", RP, 'values = values.items()', 'values = list(values.items())[1:]'),
    ("pygen.PyOutputNode", P, 'return Str(s=self.text)', 'return Str(s=self.text.strip())'),
    ("pygen.PyTranslatableOutputNode", P, 'if self.needs_escape:', 'if not self.needs_escape:'),
    ("pygen.PyExpressionNode", P, 'simple_call(NameX("__TK__escape"), [expression]), expression', 'expression, expression'),
    ("pygen.generate_child_ast", P, 'rv.extend(i.generate_ast(generator, parent_for_children))', 'rv = i.generate_ast(generator, parent_for_children)'),
    ("pygen.PyIfNode", P, 'if boolean is False:', 'if not boolean:'),
    ("pygen.PyIfNode", P, 'if boolean is True:\n            return self.generate_child_ast(generator, parent)', 'if boolean is True:\n            return []'),
    ("pygen.PyUnlessNode", P, 'expression = UnaryOp(op=Not(), operand=expression)', 'pass'),
    ("pygen.static_expr_to_bool", P, 'return not static_eval(expr.operand)', 'return static_eval(expr.operand)'),
    ("pygen.PyForNode", P, 'lineno, col - 4\n', 'lineno, col\n'),
    ("pygen.PyForNode", P, 'for_node.body = self.generate_child_ast(generator, self) or [Pass()]', 'for_node.body = [Pass()]'),
    ("pygen.make_buffer_frame", P, 'new_body.append(Return(value=NameX("__TK__output")))', 'pass'),
    ("pygen.generate_varscope", P, 'Expr(\n                simple_call(NameX(name), [NameX("__TK__output"), NameX("__TK__escape")])\n            ),', ''),
    ("pygen.PyWithNode", P, 'var_defs + self.generate_child_ast(generator, self)', 'self.generate_child_ast(generator, self) + var_defs'),
    ("pygen.PyDefineNode", P, 'if parent.is_top_level:\n            generator.add_top_def(def_node.name, def_node)\n            return []', 'if parent.is_top_level:\n            generator.add_top_def(def_node.name, def_node)'),
    ("pygen.PyDefineNode", P, 'funcspec += "()"', 'funcspec = "f()"'),
    ("pygen.PyBlockNode", P, 'if not is_extended:', 'if is_extended:'),
    ("pygen.PyBlockNode", P, 'generator.add_block(str(name), def_node, blockfunc_name)', 'generator.add_block(str(name), def_node, str(name))'),
    ("pygen.PyExtendsNode", P, 'return self.generate_child_ast(generator, self)\n\n\ndef ast_equals', 'return []\n\n\ndef ast_equals'),
    ("pygen.PyImportNode", P, 'NameX("__TK__original_context")', 'NameX("__TK__context")'),
    ("pygen.PyAttrsNode", P, '"__TK__output_attrs"), args', '"__TK__escape"), args'),
    ("pygen.PyAttributeNode", P, 'if len(self.children) == 1 and isinstance', 'if self.children and isinstance'),
    ("pygen.PyAttributeNode", P, "+ [Str(s='\"')]", ""),
    ("pygen.PyComplexExprNode", P, 'rv.append(i.get_expression())', 'rv.append(i.get_expression()); rv = rv[:250]'),
    ("pygen.Generator.registries", P, 'self.blocks.append(blockfunc)', 'self.blocks.insert(0, blockfunc)'),
    ("pygen.Generator.registries", P, 'self.top_level_names.add(blockfunc_name)', 'self.top_level_names.add(name)'),
    ("pygen.coalesce_strings", P, '        else:\n            str_on = None\n\n        rv.append(i)', '        rv.append(i)'),
    ("pygen.coalesce_strings", P, 'str_on.s += i.s', 'str_on.s = i.s'),
    ("pygen.OutputCoalescer.visit", P, '                        coalesce_strs()\n                        output_node = None', '                        coalesce_strs()'),
    ("pygen.OutputCoalescer.visit", P, 'output_node.value.args.extend(i.output_args)\n                                continue', 'continue'),
    ("pygen.OutputCoalescer.check", P, 'if not ast_equals(arg2.func, NameX("literal")):\n                    continue', 'pass'),
    ("pygen.OutputCoalescer.check", P, 'if not ast_equals(arg1.func, NameX("__TK__escape")):\n                    continue', 'pass'),
    ("base.add_child", B, 'self.OutputNode(ir_node.escaped())', 'self.OutputNode(ir_node.text)'),
    ("base.add_child", B, 'self.UnlessNode(ir_node.expression)', 'self.IfNode(ir_node.expression)'),
    ("base.add_child", B, 'target.add_child(new_node)\n', 'target.add_child(new_node)\n        target.add_child(new_node)\n'),
    ("base.add_child", B, 'if isinstance(ir_node, nodes.ContainerNode):', 'if isinstance(ir_node, (nodes.If, nodes.For)):'),
    ("base.add_child", B, 'self.ImportNode(ir_node.href, ir_node.alias)', 'self.ImportNode(ir_node.alias, ir_node.href)'),
    ("nodes.IRTree.iter", N, 'stack.extendleft(item.children or [])', 'stack.extendleft((item.children or [])[1:])'),
    ("astalyzer.visit_Lambda", Z, 'self.do_visit_function(node)\n', 'self.do_visit_function(node)\n        self.masked |= self.newly_masked\n'),
    ("astalyzer.visit_FunctionDef", Z, 'self.do_visit_lambda_defaults(node.args)', 'pass'),
    ("astalyzer.visit_FunctionDef", Z, 'for decorator in getattr(node, "decorator_list", []):\n            self.visit(decorator)', ''),
    ("astalyzer.visit_ClassDef", Z, 'for i in node.body:\n            subscoper.visit(i)', 'for i in node.body:\n            self.visit(i)'),
    ("astalyzer.visit_comprehension", Z, 'self.visit(node.generators[0].iter)\n', ''),
    ("astalyzer.visit_Name", Z, 'self.vars.add(node.id)', 'node.id in self.masked or self.vars.add(node.id)'),
    ("astalyzer.get_free_variables", Z, 'self.vars - self.masked', 'self.vars - self.newly_masked'),
    ("root.PyRootNode", P, 'free_variables.difference_update(generator.top_level_names)', 'pass'),
    ("root.PyRootNode", P, 'if i.startswith("__TK__") or i in', 'if i.startswith("_") or i in'),
    ("root.PyRootNode", P, 'generator.blocks + generator.top_defs', 'generator.blocks[:] + generator.top_defs[1:]'),
    ("root.PyRootNode", P, 'binder.body[i:i + 1] = toplevel_funcs', 'binder.body[i:i] = toplevel_funcs'),
    ("root.PyRootNode", P, 'binder.body[i:i] = generator.imports', 'binder.body[0:0] = generator.imports'),
    ("root.PyRootNode", P, 'main_body = self.generate_child_ast(generator, self)\n\n        extended = generator.extended_href', 'extended = generator.extended_href\n        main_body = self.generate_child_ast(generator, self)\n'),
    ("root.PyRootNode", P, '__TK__context.copy()', '__TK__context'),
    ("root.PyRootNode", P, 'default_variables.get_free_variables() & free_variables', 'default_variables.get_free_variables()'),
    ("root.PyRootNode", P, 'default_variables.do_visit_lambda_defaults(i.args)', 'pass'),
    ("root.PyRootNode", P, 'fv_info = FreeVarFinder.for_ast(i)', 'fv_info = FreeVarFinder.for_ast(toplevel_funcs[0])'),
    ("root.PyRootNode", P, 'free_variables.update(fv_info', 'free_variables = set(fv_info'),
    ("root.PyRootNode", P, '        coalesce_outputs(tree)\n        return tree', '        return tree'),
    ("root.PyRootNode", P, 'free_variables.add("gettext")\n', 'pass\n'),
    ("root.PyRootNode", P, '"    __TK__parent_template.binder_func(__TK__context)\\n"', '"    pass\\n"'),
    ("root.PyRootNode", P, 'if not extended:\n            main_func', 'if True:\n            main_func'),
    ("make_template_context", L, 'rv = get_builtins().copy()', 'rv = get_builtins()'),
    ("make_template_context", L, 'rv.update(context)', 'for k in context:\n        rv.setdefault(k, context[k])'),
    ("make_template_context", L, 'rv = get_builtins().copy()\n    rv.update(context)', 'rv = context\n    for k, v in get_builtins().items():\n        rv.setdefault(k, v)'),
    ("get_builtins", L, '    if _builtins is None:\n', '    if True:\n'),
    ("Template.render_to_buffer", L, 'context = make_template_context(context)\n            self.bind(context)', 'self.bind(context)'),
    ("Template.render_to_buffer", L, 'self.bind(context)\n', 'pass\n'),
    ("Template.render_to_buffer", L, 'return context[funcname]()', 'return context["__main__"]()'),
    ("Template.render_to_buffer", L, '        except Exception:\n            exc_info', '        except ValueError:\n            exc_info'),
    ("Template.render", L, 'render_to_buffer(context, funcname).join()', 'render_to_buffer(context).join()'),
    ("handle_exception", L, 'reraise(exc_type, exc_value, tb)', 'reraise(exc_type, exc_type(), tb)'),
    ("handle_exception", L, 'traceback = _make_traceback((exc_type, exc_value, tb), source_hint)', 'traceback = _make_traceback((exc_type, exc_value, tb))'),
    ("handle_exception", L, 'exc_type, exc_value, tb = traceback.standard_exc_info', 'pass'),
    ("reraise", H, 'raise value.with_traceback(tb)', 'raise tp(*value.args).with_traceback(tb)'),
    ("reraise", H, 'raise value.with_traceback(tb)', 'raise value.with_traceback(tb) from None'),
    ("translate_exception", D, 'tb = tb.tb_next\n            continue', 'break'),
    ("translate_exception", D, 'lineno = template.get_corresponding_lineno(tb.tb_lineno)', 'lineno = tb.tb_lineno + 1'),
    ("translate_exception", D, 'frames.append(make_frame_proxy(tb))', 'frames.insert(0, make_frame_proxy(tb))'),
    ("translate_exception", D, '    if not frames:\n        reraise(exc_info[0], exc_info[1], exc_info[2])', '    if not frames:\n        reraise(exc_info[0], exc_info[0](), exc_info[2])'),
    ("translate_exception", D, 'for x in range(initial_skip)', 'for x in range(initial_skip + 1)'),
    ("make_traceback", D, 'and source_hint is not None', ''),
    ("make_traceback", D, 'return fake_exc_info(exc_info, filename, error.lineno)', 'return fake_exc_info(exc_info, filename, error.lineno + 1)'),
    ("make_traceback", D, '        initial_skip = 0', '        initial_skip = 1'),
    ("make_traceback", D, 'error.source = source', 'pass'),
    ("ProcessedTraceback", D, '        prev_tb.set_next(None)', '        pass'),
    ("ProcessedTraceback", D, '            prev_tb = tb\n', '            prev_tb = prev_tb or tb\n'),
    ("ProcessedTraceback", D, 'tb = tb.tb\n', 'tb = tb.tb.tb_next\n'),
    ("fake_exc_info", D, '"\\n" * (lineno - 1)', '"\\n" * lineno'),
    ("fake_exc_info", D, '            exc_info = sys.exc_info()\n' if False else 'exc_info = sys.exc_info()\n        new_tb', 'exc_info = (ValueError, ValueError(), None)\n        new_tb'),
    ("fake_exc_info", D, 'co_filename=filename', 'co_filename="<template>"'),
    ("fake_exc_info", D, 'new_tb = exc_info[2].tb_next', 'new_tb = exc_info[2]'),
    ("fake_exc_info", D, '"__tonnikala_exception__": exc_info[:2],', '"__tonnikala_exception__": (exc_type, exc_type()),'),
    ("Loader.load_string", L, 'if e.filename is None:', 'if True:'),
    ("Loader.load_string", L, 'if e.source is None:\n                e.source = string', 'pass'),
    ("Loader.load_string", L, 'translatable=self.translatable)\n            gen', 'translatable=False)\n            gen'),
    ("Loader.load_string", L, 'runtime.loader = self', 'runtime.loader = Loader()'),
    ("Loader.load_string", L, 'compiled = compile(code, filename, "exec")', 'compiled = compile(code, "<string>", "exec")'),
    ("Loader.load_string", L, 'except exceptions.TemplateSyntaxError as e', 'except Exception as e'),
    ("Loader.load_string", L, 'self.handle_exception(exc_info, string, tb_override=None)', 'self.handle_exception(exc_info)'),
    ("TemplateInfo", L, 'self.lnotab.get(line, line)', 'self.lnotab.get(line, 1)'),
    ("FileLoader.add_path", L, 'self.paths.extend(a)', 'self.paths[:0] = a'),
    ("FileLoader.resolve", L, 'for i in self.paths:', 'for i in self.paths[::-1]:'),
    ("FileLoader.resolve", L, 'os.path.join(i, name)', 'os.path.join(i, os.path.basename(name))'),
    ("FileLoader.resolve", L, '            if os.path.exists(path):\n                return path', '            return path'),
    ("FileLoader._maybe_purge_cache", L, 'self.cache.clear()\n                break', 'self.cache.pop(name)'),
    ("FileLoader._maybe_purge_cache", L, 'self.cache.clear()\n                break', 'self.cache.pop(name)\n                break'),
    ("FileLoader._maybe_purge_cache", L, 'if mtime > tmpl.mtime', 'if mtime > tmpl.mtime + 1'),
    ("FileLoader._maybe_purge_cache", L, '                self.cache.pop(name)\n                continue', '                break'),
    ("FileLoader._maybe_purge_cache", L, '                self.cache.pop(name)\n                continue', '                self.cache.clear()\n                break'),
    ("FileLoader._maybe_purge_cache", L, '        self._last_reload_check = time.time()\n\n    def load', '\n    def load'),
    ("FileLoader._maybe_purge_cache", L, '+ MIN_CHECK_INTERVAL >', '+ 100 * MIN_CHECK_INTERVAL >'),
    ("FileLoader.load", L, 'if self.reload:\n            self._maybe', 'if True:\n            self._maybe'),
    ("FileLoader.load", L, 'template.mtime = mtime', 'template.mtime = time.time()'),
    ("FileLoader.load", L, 'template = self.load_string(contents, filename=path)', 'template = self.load_string(contents, filename=name)'),
    ("FileLoader.load", L, 'self.cache[name] = template', 'self.cache[path] = template'),
    ("FileLoader.load", L, 'raise OSError(errno.ENOENT', 'raise OSError(errno.EACCES'),
    ("FileLoader.load", L, '"r", encoding="UTF-8"', '"r", encoding="latin-1"'),
    ("JSLoader.load_string", L, 'JavascriptGenerator(tree', 'JavascriptGenerator(None'),
    ("TemplateSyntaxError.str", X, '"position", (1, 0))[0]', '"position", (1, 0))[1]'),
    ("PyramidTonnikalaLoader.resolve", Y, 'if name and os.path.exists(name):', 'if name:'),
    ("PyramidTonnikalaLoader.resolve", Y, 'path = os.path.join(directory, name)\n            if module', 'path = os.path.join(name, directory)\n            if module'),
    ("PyramidTonnikalaLoader.resolve", Y, 'in self.search_paths:', 'in self.search_paths[1:]:'),
    ("PyramidTonnikalaLoader.resolve", Y, 'return super(PyramidTonnikalaLoader, self).resolve(name)', 'return None'),
    ("PyramidTonnikalaLoader.resolve", Y, 'name.split(":", 1)', 'reversed(name.split(":", 1))'),
    ("PyramidTonnikalaLoader.add_search_path", Y, 'self.search_paths.append((module, directory))', 'self.search_paths.insert(0, (module, directory))'),
    ("TonnikalaTemplateRenderer", Y, 'except (TypeError, ValueError):', 'except ValueError:'),
    ("TonnikalaTemplateRenderer", Y, 'if not fragment:', 'if fragment:'),
    ("TonnikalaTemplateRenderer", Y, 'system["renderer_name"] = tmpl', 'system.setdefault("renderer_name", tmpl)'),
    ("TonnikalaTemplateRenderer", Y, 'return self(value, system, fragment=True)', 'return self(value, system)'),
    ("TonnikalaRendererFactory", Y, 'self.loader.translatable = flag', 'self.loader.translatable = True'),
    ("TonnikalaRendererFactory", Y, 'TonnikalaTemplateRenderer(info, self.loader,', 'TonnikalaTemplateRenderer(info, PyramidTonnikalaLoader(),'),
    ("add_tonnikala_extensions", Y, 'if not extension.startswith(".")', 'if extension.startswith(".")'),
    ("add_tonnikala_search_paths", Y, 'for path in paths:\n        module_name', 'for path in reversed(paths):\n        module_name'),
    ("add_tonnikala_search_paths", Y, 'path.partition(":")', 'path.partition("/")'),
    ("add_tonnikala_search_paths", Y, '            module_name = None\n', ''),
    ("set_tonnikala_flags", Y, 'factory.set_l10n(flag)', 'factory.set_reload(flag)'),
    ("includeme", Y, 'if tk_reload is None', 'if not tk_reload'),
    ("includeme", Y, 'config.set_tonnikala_l10n(l10n)', 'config.set_tonnikala_l10n(tk_reload)'),
    ("includeme", Y, 'config.add_tonnikala_extensions(*extensions)', 'config.add_tonnikala_extensions(extensions[0])'),
    ("includeme", Y, 'settings.get("pyramid.reload_templates")', 'settings.get("reload_templates")'),
    ("includeme", Y, '        return\n\n    config.registry', '        pass\n\n    config.registry'),
    ("syntax.control_name", S, 'name.replace(self.control_prefix, "", 1)', 'name.replace(self.control_prefix, "")'),
    ("syntax.control_name", S, 'name.startswith(self.control_prefix)', 'name.startswith(self.control_prefix[:-1])'),
    ("syntax.grab_control_attr", S, '            dom_node.removeAttribute(name)\n', ''),
    ("syntax.create_control_nodes", S, '        make_control_node_of_attr(If, "if")\n        make_control_node_of_attr(For, "for")', '        make_control_node_of_attr(For, "for")\n        make_control_node_of_attr(If, "if")'),
    ("syntax.create_control_nodes", S, '        make_control_node_of_attr(With, "with")\n        make_control_node_of_attr(With, "vars")', '        make_control_node_of_attr(With, "vars")\n        make_control_node_of_attr(With, "with")'),
    ("syntax.create_control_nodes", S, 'make_control_node("import", Import, "href", "alias")', 'make_control_node("import", Import, "alias", "href")'),
    ("syntax.create_control_nodes", S, 'irnode.position = getattr(attr, "position", (0, 0))', 'irnode.position = dom_node.position'),
    ("syntax.create_control_nodes", S, 'if attr is not None:', 'if attr:'),
    ("syntax.create_control_nodes", S, 'bottom = ir_node_stack[-1]', 'bottom = ir_node_stack[0]'),
    ("syntax.create_control_nodes", S, 'node=dom_node,\n            )\n        return dom', 'node=None,\n            )\n        return dom'),
    ("syntax.generate_element_node", S, 'guard_expression = "1"', 'guard_expression = "0"'),
    ("syntax.generate_element_node", S, 'and not guard_expression.strip()', 'and not guard_expression'),
    ("syntax.generate_element_node", S, 'add_children = False', 'add_children = True'),
    ("syntax.generate_element_node", S, 'if not is_control_element and self', 'if is_control_element and self'),
    ("syntax.generate_element_node", S, '            self.reject_control_attributes(dom_node)\n\n        if not topmost', '        if not topmost'),
    ("syntax.generate_element_node", S, 'if not topmost:', 'if el_ir_node:'),
    ("syntax.generate_element_node", S, 'dom_node.tagName, guard_expression=guard_expression', 'dom_node.tagName'),
    ("syntax.reject_control_attributes", S, 'k.startswith(self.control_prefix)', 'k == self.control_prefix'),
    ("syntax.reject_control_attributes.sound", S, 'message=message, lineno=lineno', 'message=message, lineno=0'),
    ("syntax.generate_attributes_for_node", S, 'if v is not None:\n                return handle', 'if v:\n                return handle'),
    ("syntax.generate_attributes_for_node", S, 'translatable=self.is_attr_translatable(k)', 'translatable=self.is_translatable()'),
    ("syntax.generate_attributes_for_node", S, 'dynamic_attrs=attrs_node', 'dynamic_attrs=None'),
    ("generate.generate_attributes", G, 'for name, value in attrs:\n            ir', 'for name, value in reversed(attrs):\n            ir'),
    ("generate.generate_attributes", G, 'if dynamic_attrs:', 'if not dynamic_attrs:'),
    ("syntax.translatable-state", S, '{"style", "script"}', '{"style"}'),
    ("syntax.translatable-state", S, '"value", "caption"', '"caption"'),
    ("syntax.translatable-state", S, 'self.state["translatable"] = False', 'self.state["translatable"] = True'),
    ("syntax.translatable-state", S, '        super(TonnikalaIRGenerator, self).enter_node(ir_node)\n', ''),
    ("syntax.generate_ir_node", S, 'translatable=self.is_translatable()', 'translatable=False'),
    ("syntax.generate_ir_node", S, 'is_cdata=self.state["is_cdata"]', 'is_cdata=False'),
    ("syntax.generate_ir_node", S, 'dom_node.nodeValue + u"-->"', 'dom_node.nodeValue.strip() + u"-->"'),
    ("syntax.generate_ir_node", S, 'ir_node = Code(dom_node.nodeValue.strip())\n            ir_node.position = dom_node.position', 'ir_node = Code(dom_node.nodeValue.strip())'),
    ("syntax.TonnikalaIRGenerator", S, 'self.state["translatable"] = translatable\n\n    def is_tr', 'self.state["translatable"] = True\n\n    def is_tr'),
    ("syntax.TonnikalaIRGenerator", S, 'kw.pop("control_prefix") + ":"', 'kw.pop("control_prefix")'),
    ("syntax.parse", S, '    tree = generator.merge_text_nodes(tree)\n    return tree\n\n\ndef parse_js', '    return tree\n\n\ndef parse_js'),
    ("syntax.parse_js", S, '        control_prefix="js",\n', ''),
    ("generate.generate_tree", G, '        root.validate(validator)\n', ''),
    ("generate.generate_tree", G, 'lineno = node.position[0]', 'lineno = node.position[1]'),
    ("generate.child_iter", G, 'current = current.nextSibling', 'current = current.nextSibling and current.nextSibling.nextSibling'),
    ("nodes.Import", N, 'self.content.append(child)', 'pass'),
    ("nodes.For", N, 'self.IN_RE.split(self.expression, 1)', 'self.IN_RE.split(self.expression)'),
    ("nodes.For", N, r'r"\s+in\s+"', r'r"\sin\s"'),
    ("docparser.syntax_error", DP, 'lineno or self.getlineno()', 'self.getlineno()'),
    ("docparser.delta", DP, 'ocol = col\n', 'ocol += col\n'),
    ("docparser.find_attr_positions", DP, "in (\"'\", '\"')", "in ('\"',)"),
    ("docparser.find_attr_positions", DP, 'start - source[:start].rfind("\\n") - 1', 'start'),
    ("docparser.find_attr_positions", DP, 'lineoffset = source[:start].count("\\n")', 'lineoffset = 0'),
    ("docparser.find_attr_positions", DP, 'len(advance) - advance.rfind("\\n") - 1', 'len(advance) - advance.rfind("\\n")'),
    ("docparser.find_attr_positions", DP, 'm.group(1).lower()', 'm.group(1)'),
    ("docparser.handle_starttag", DP, '        self.flush_character_data()\n\n        if len(self.elements) == 1 and', '        if len(self.elements) == 1 and'),
    ("docparser.handle_starttag", DP, 'name.lower() in self.void_elements', 'name in self.void_elements'),
    ("docparser.handle_starttag", DP, 'StringWithLocation(v, l, o)', 'StringWithLocation(v, o, l)'),
    ("docparser.handle_starttag", DP, '        "wbr",\n', ''),
    ("docparser.handle_startendtag", DP, 'self_closing=True', 'self_closing=False'),
    ("docparser.handle_endtag", DP, 'name.lower() != popped.name.lower()', 'not popped.name.lower().startswith(name.lower())'),
    ("docparser.handle_endtag", DP, 'if len(self.elements) == 1:', 'if len(self.elements) == 0:'),
    ("docparser.handle_data", DP, 'if not self.characters:\n            self.characters = []\n            self.characters_start', 'if not self.characters:\n            self.characters = []\n        self.characters_start'),
    ("docparser.flush_character_data", DP, 'len(text.strip()) > 0', 'len(text) > 0'),
    ("docparser.flush_character_data", DP, 'lineno=self.characters_start[0]', 'lineno=self.characters_start[1]'),
    ("docparser.flush_character_data", DP, '            self.elements[-1].appendChild(node)\n\n        self.characters = None', '            self.elements[-1].appendChild(node)\n'),
    ("docparser.handle_entityref", DP, 'except KeyError:\n            self.syntax_error("Unknown HTML entity &%s;" % name)', 'except KeyError:\n            content = name'),
    ("docparser.handle_charref", DP, 'int(code[1:], 16)', 'int(code, 16)'),
    ("docparser.handle_comment", DP, 'def handle_comment(self, text):\n        self.flush_character_data()\n', 'def handle_comment(self, text):\n'),
    ("docparser.unknown_decl", DP, 'self.syntax_error("Unknown declaration: %s" % decl)', 'pass'),
    ("docparser.handle_pi", DP, 'data = data[:-1]', 'data = data[:-2]'),
    ("docparser.parse", DP, '        self.close()\n', ''),
]

B = "runtime/_buffer.c"
MUTANTS += [
    ("cbuf._do_append", B, "for (i = 0; i < tuple_size; i++) {", "for (i = 0; i < tuple_size - 1; i++) {"),
    ("cbuf._do_append", B, "for (i = 0; i < tuple_size; i++) {", "for (i = 1; i < tuple_size; i++) {"),
    ("cbuf._do_append", B, "obj = PyTuple_GET_ITEM(args, i);", "obj = PyTuple_GET_ITEM(args, i);\n        if (obj == Py_None) continue;"),
    ("cbuf._do_append", B, "obj = PyTuple_GET_ITEM(args, i);", "obj = PyTuple_GET_ITEM(args, 0);"),
    ("cbuf._do_append", B, "PyUnicode_CheckExact(obj)", "PyUnicode_Check(obj)"),
    ("cbuf._do_append", B, "                // it is a new reference\n                Py_DECREF(obj);", ""),
    ("cbuf._do_append", B, "            // extend returns Py_None on success\n            Py_DECREF(rv);", ""),
    ("cbuf._do_append", B, "                if (! obj) {\n                    return NULL;\n                }", "                if (! obj) {\n                    continue;\n                }"),
    ("cbuf._do_append", B, "((Buffer*)obj)->buffer_list);", "self->buffer_list);"),
    ("cbuf._do_append", B, "            if (! rv) {\n                return NULL;\n            }", ""),
    ("cbuf._do_append", B, "    Py_INCREF(Py_None);\n    return Py_None;\n}\n\nstatic PyObject *\nBuffer_call", "    return Py_None;\n}\n\nstatic PyObject *\nBuffer_call"),
    ("cbuf._do_append", B, "            else {\n                if (PyList_Append(self->buffer_list, obj) != 0) {\n                    return NULL;\n                }", "            else {\n                if (PyList_Append(self->buffer_list, obj) != 0) {\n                    return NULL;\n                }\n                Py_DECREF(obj);"),
    ("cbuf.call(keywords)", B, "if (other != NULL) {", "if (0) {"),
    ("cbuf.output_boolean_attr(none)", B, "value == Py_None || value == Py_False", "value == Py_False"),
    ("cbuf.output_boolean_attr(false)", B, "value == Py_None || value == Py_False", "value == Py_None"),
    ("cbuf.output_boolean_attr(true)", B, "value == Py_True", "0"),
    ("cbuf.output_boolean_attr(true)", B, "        Py_INCREF(name);\n        value = name;", "        value = name;"),
    ("cbuf.output_boolean_attr(value)", B, "        value = result;", "        value = PyTuple_GET_ITEM(args, 1);\n Py_INCREF(value);"),
    ("cbuf.output_boolean_attr(value)", B, "PyTuple_SET_ITEM(tmp, 4, self->quot);", "PyTuple_SET_ITEM(tmp, 4, self->space);"),
    ("cbuf.output_boolean_attr(value)", B, "    Py_INCREF(name);\n    PyTuple_SET_ITEM(tmp, 1, name);", "    PyTuple_SET_ITEM(tmp, 1, name);"),
    ("cbuf.output_boolean_attr(value)", B, "        Py_INCREF(value);\n        PyTuple_SET_ITEM(escape_args, 0, value);", "        PyTuple_SET_ITEM(escape_args, 0, value);"),
    ("cbuf.output_boolean_attr(value)", B, "    PyObject *rv = _do_append(self, tmp);\n    Py_DECREF(tmp);", "    Py_DECREF(tmp);\n    PyObject *rv = _do_append(self, tmp);"),
    ("cbuf.output_boolean_attr(value)", B, "if (value == Py_True) {", "if (value == Py_True || PyUnicode_CheckExact(value)) {\n name = value;"),
    ("cbuf.output_boolean_attr(arguments)", B, "if (tuple_size != 2) {", "if (tuple_size < 2) {"),
    ("cbuf.join,str,html", B, "sep = PyUnicode_InternFromString(\"\");", "sep = PyUnicode_InternFromString(\" \");"),
    ("cbuf.join,str,html", B, "    Py_INCREF(self);\n    return self;", "    return self;"),
    ("cbuf.new", B, "        Py_INCREF(self->escape_func);\n", ""),
    ("cbuf.new", B, "self->quot = GETSTATE(module)->quot;", "self->quot = GETSTATE(module)->space;"),
    ("cbuf.module", B, "st->space = PyUnicode_FromString(\" \");", "st->space = PyUnicode_FromString(\"\");"),
    ("cbuf.tables", B, "Buffer_str,                /* tp_str", "0,                /* tp_str"),
    ("cbuf.tables", B, "\"output_boolean_attr\",\n", "\"output_bool_attr\",\n"),
    ("cbuf.set-escape", B, "    Py_DECREF(old);\n    Py_INCREF(escape);", "    Py_DECREF(old);"),
    ("cbuf.set-escape", B, "GETSTATE(self)->escape = escape;", ""),
]

EXPR = "expr.py"
MUTANTS += [
    ("expr._strip_dollars_fast", EXPR, 'if m.group(0) == "$$":', 'if m.group(0)[1:] in "$_":'),
    ("expr._strip_dollars_fast", EXPR, 'return "$"\n', 'return "$$"\n'),
    ("expr._strip_dollars_fast", EXPR, r'r"\$[a-zA-Z_{$]"', r'r"\$[a-zA-Z{$]"'),
    ("expr._strip_dollars_fast", EXPR, r'r"\$[a-zA-Z_{$]"', r'r"\$[a-zA-Z_{$.]"'),
    ("expr.handle_text_node", EXPR, r"(\$[{a-zA-Z_])", r"(\$[{a-z_])"),
    ("expr.handle_text_node", EXPR, "([^$]+) ", "([^$\\n]) "),
    ("expr.handle_text_node", EXPR, 'elif m.group(2):  # $$\n            string_run.append("$")', 'elif m.group(2):  # $$\n            string_run.append("$$")'),
    ("expr.handle_text_node", EXPR, "            string_run = []\n            expr =", "            expr ="),
    ("expr.handle_text_node", EXPR, "pos = m.start(3) + len(expr.string)", "pos = m.end(3) + len(expr.string)"),
    ("expr.handle_text_node", EXPR, "expr = expr_parser(text, m.start(3))", "expr = expr_parser(text, m.end(3))"),
    ("expr.handle_text_node", EXPR, '        else:  # group 4, a sole $\n            string_run.append("$")', '        else:  # group 4, a sole $\n            pass'),
    ("expr.handle_text_node", EXPR, "            if string_run:\n                nodes.append(", "            if len(string_run) > 1:\n                nodes.append("),
    ("expr.handle_text_node", EXPR, "    if string_run:\n        nodes.append(create", "    if string_run and string_run[0] != \" \":\n        nodes.append(create"),
    ("expr.handle_text_node", EXPR, "        node.add_child(i)\n\n    node.is_cdata", "        node.add_child(nodes[0])\n\n    node.is_cdata"),
    ("expr.handle_text_node", EXPR, "    for i in nodes:\n        i.is_cdata = is_cdata", "    for i in nodes:\n        i.is_cdata = False"),
    ("expr.handle_text_node", EXPR, "    node.is_cdata = is_cdata\n", ""),
    ("expr.handle_text_node", EXPR, "        return create_text_nodes(text, is_cdata=is_cdata,", "        return create_text_nodes(text, is_cdata=False,"),
    ("expr.create_text_nodes", EXPR, "rv.append(Text(suffix, is_cdata=is_cdata))", "rv.insert(0, Text(suffix, is_cdata=is_cdata))"),
    ("expr.create_text_nodes", EXPR, "if prefix:\n", "if prefix and this:\n"),
    ("expr.create_text_nodes", EXPR, "rv.append(TranslatableText(this, is_cdata=is_cdata))", "rv.append(TranslatableText(this + suffix, is_cdata=is_cdata))"),
    ("expr.create_text_nodes", EXPR, "        rv.is_cdata = is_cdata\n", ""),
    ("expr.partition_translatable_text", EXPR, "return m.groups()", "return m.group(1), m.group(2), m.group(1)"),
    ("expr.partition_translatable_text", EXPR, "    re.VERBOSE | re.DOTALL,\n)\n\n\ndef partition", "    re.VERBOSE,\n)\n\n\ndef partition"),
]

PE = "languages/python/__init__.py"
MUTANTS += [
    ("pyexpr.parse_brace_enclosed_expression", PE, "if t_type != token.OP:", "if t_type == token.STRING:"),
    ("pyexpr.parse_brace_enclosed_expression", PE, "if n_braces <= 0:", "if n_braces <= 1:"),
    ("pyexpr.parse_brace_enclosed_expression", PE, "            n_braces -= 1\n", "            n_braces = 0\n"),
    ("pyexpr.parse_brace_enclosed_expression", PE, "            n_braces += 1\n", "            n_braces = 1\n"),
    ("pyexpr.parse_brace_enclosed_expression", PE, 'elif content == "{":', 'elif content == "{" and n_braces < 2:'),
    ("pyexpr.parse_brace_enclosed_expression", PE, "tokens = gen_tokens(text, start_pos + 2)", "tokens = gen_tokens(text, start_pos + 1)"),
    ("pyexpr.parse_brace_enclosed_expression", PE, "text[start_pos:end_pos],", "text[start_pos:end_pos - 1],"),
    ("pyexpr.parse_brace_enclosed_expression", PE, "text[start_pos + 2 : end_pos - 1],", "text[start_pos + 2 : end_pos],"),
    ("pyexpr.parse_brace_enclosed_expression", PE, "    if not valid:", "    if not valid and n_braces:"),
    ("pyexpr.parse_brace_enclosed_expression", PE, '        raise TemplateSyntaxError("Unclosed', '        raise SyntaxError("Unclosed'),
    ("pyexpr.parse_unenclosed_expression", PE, "pos = m.end(0)\n    pars", "pos = m.end(0) - 1\n    pars"),
    ("pyexpr.parse_unenclosed_expression", PE, 'r"[^\\d\\W]\\w*"', 'r"[^\\d\\W][a-z]*"'),
    ("pyexpr.parse_unenclosed_expression", PE, 'r"[([]|(\\.[^\\d\\W]\\w*)"', 'r"[([]|(\\.\\w+)"'),
    ("pyexpr.parse_unenclosed_expression", PE, 'r"[([]|(\\.[^\\d\\W]\\w*)"', 'r"[(]|(\\.[^\\d\\W]\\w*)"'),
    ("pyexpr.parse_unenclosed_expression", PE, "if braces[last] != content:", "if not content:"),
    ("pyexpr.parse_unenclosed_expression", PE, "                if not pars:\n", "                if True:\n"),
    ("pyexpr.parse_unenclosed_expression", PE, "                    pos = end_pos\n                    break", "                    pos = end_pos - 1\n                    break"),
    ("pyexpr.parse_unenclosed_expression", PE, "                pars.append(content)", "                pars.append(\"(\")"),
    ("pyexpr.parse_unenclosed_expression", PE, "elif token.ISEOF(t_type) or t_type == token.ERRORTOKEN:", "elif t_type == token.ERRORTOKEN:"),
    ("pyexpr.parse_unenclosed_expression", PE, 'return PythonExpression("$" + expr, expr)', 'return PythonExpression(expr, expr)'),
    ("pyexpr.parse_unenclosed_expression", PE, "    expr = text[start_pos + 1 : pos]", "    expr = text[start_pos + 1 : pos - (pos > start_pos + 2)]"),
    ("pyexpr.parse_expression", PE, 'if text[start_pos + 1] != "{":', 'if text[start_pos] != "{":'),
    ("pyexpr.parse_expression", PE, "return parse_unenclosed_expression(text, start_pos, position)", "return parse_unenclosed_expression(text, start_pos + 1, position)"),
    ("pyexpr.TokenReadLine", PE, "        self.io.seek(pos)\n", ""),
    ("pyexpr.TokenReadLine", PE, "            self.last_line = l\n            yield l", "            yield l\n            self.last_line = l"),
    ("pyexpr.TokenReadLine", PE, "            self.last_line = l\n", "            self.last_line = l.rstrip()\n"),
    ("pyexpr.TokenReadLine", PE, "return self.io.tell()", "return self.pos"),
    ("pyexpr.gen_tokens", PE, "io.tell() - len(io.last_line) + end[1]", "io.tell() - len(io.last_line) + start[1]"),
    ("pyexpr.gen_tokens", PE, "io.tell() - len(io.last_line) + end[1]", "pos + end[1]"),
    ("pyexpr.gen_tokens", PE, "io.tell() - len(io.last_line) + end[1]", "io.tell() - len(line) + end[1]"),
    ("pyexpr.gen_tokens", PE, "    end_pos = pos\n", "    end_pos = 0\n"),
    ("pyexpr.gen_tokens", PE, "except (TokenError, IndentationError, UnicodeEncodeError) as e:", "except (TokenError, UnicodeEncodeError) as e:"),
    ("pyexpr.gen_tokens", PE, "except (TokenError, IndentationError, UnicodeEncodeError) as e:", "except Exception as e:"),
    ("pyexpr.gen_tokens", PE, "node=s)", "node=None)"),
    ("pyexpr.gen_tokens", PE, "raise TemplateSyntaxError(message, node=s)", "raise TemplateSyntaxError(\"bad\", node=s)"),
]

I18 = "i18n/__init__.py"
MUTANTS += [
    ("i18n.extract_tonnikala", I18, "msgid = msgid + (msg.msgid_plural,)", "msgid = (msg.msgid_plural,) + msgid"),
    ("i18n.extract_tonnikala", I18, "            prefix = \"n\"\n", "            pass\n"),
    ("i18n.extract_tonnikala", I18, "prefix += \"p\"", "prefix = \"p\""),
    ("i18n.extract_tonnikala", I18, "        yield msg.location[1]", "        if msg.comment == 'x':\n            continue\n        yield msg.location[1]"),
    ("i18n.extract_tonnikala", I18, "msgid = (msg.msgctxt,) + msgid", "msgid = (msg.msgctxt,) + msgid[:1]"),
    ("i18n.parse_python", I18, "*message[:6]", "None, *message[1:6]"),
    ("i18n.parse_python", I18, "node.expression, options", "node.text, options"),
    ("i18n.parse_python", I18, "            yield Message(", "            if message.flags: yield Message("),
    ("i18n.extractor", I18, "            if isinstance(node, TranslatableText):", "            if isinstance(node, TranslatableText) and node.text != '0':"),
    ("i18n.extractor", I18, "            elif isinstance(node, Expression):", "            elif type(node) is Expression:"),
    ("i18n.extractor", I18, "                    node.text,\n                    None,", "                    node.text.strip(),\n                    None,"),
    ("i18n.extractor", I18, "source, translatable=True)", "source)"),
    ("i18n.extractor", I18, "                    yield m\n", "                    yield m\n                    break\n"),
    ("i18n.extractor", I18, 'source.decode("UTF-8")', 'source.decode("latin-1")'),
    ("i18n.extractor", I18, 'source = fileobj.read()', 'source = fileobj.read().strip()'),
    ("i18n.extractor", I18, 'isinstance(node, TranslatableText)', 'isinstance(node, Text)'),
    ('js.escape', J, '\'"\': \'&#34;\'', '\'"\': \'&#39;\''),
    ('js.escape', J, '/([&<>\'"])/g', '/([&<>"])/g'),
    ('js.escape', J, '/([&<>\'"])/g', '/([&<>\'"])/'),
    ('js.escape', J, 'if (s && s.html) {', 'if (s.html) {'),
    ('js.escape', J, '        return new Markup(\n            String(s).replace', '        return (\n            String(s).replace'),
    ('js.escape', J, '            return s.html();', '            return s;'),
    ('js.escape', J, 'String(s).replace', "(s || '').toString().replace"),
    ('js.Buffer.attr', J, 'value == null || typeof', 'value === null || typeof'),
    ('js.Buffer.attr', J, "value == null || typeof(value) === 'boolean'", "!value || typeof(value) === 'boolean'"),
    ('js.Buffer.attr', J, '                if (value) {', '                if (value !== false) {'),
    ('js.Buffer.attr', J, 'doEscape(value) + \'"\'', 'String(value) + \'"\''),
    ('js.Buffer.attr', J, '\' \' + name + \'="\' + name', 'name + \'="\' + name'),
    ('js.Buffer.output', J, 'for (i = 0; i < an', 'for (i = 1; i < an'),
    ('js.Buffer.output', J, 'i < an; i++', 'i < an - 1; i++'),
    ('js.Buffer.output', J, 'if (arg && arg.buffer) {', 'if (arg.buffer) {'),
    ('js.Buffer.output', J, 'this.buffer.concat(list)', 'list.concat(this.buffer)'),
    ('js.Buffer.output', J, 'this.e(arg.buffer)', 'this.buffer = arg.buffer'),
    ('js.Buffer.output', J, 'this.a(String(arg))', 'this.a(arg)'),
    ('js.Buffer.output', J, '} else {\n                    this.a(String(arg));', '} else if (arg) {\n                    this.a(String(arg));'),
    ('js.Buffer.escape', J, 'map.call(arguments, doEscape)', 'arguments'),
    ('js.Buffer.escape', J, 'map.call(arguments, doEscape)', 'map.call(arguments, String)'),
    ('js.Buffer.fresh', J, '        this.buffer = [];\n    }\n    Buffer.prototype = {', '    }\n    Buffer.prototype = {\n        buffer: [],'),
    ('js.Buffer', J, 'var buffer = new Buffer(),\n                bo', 'var buffer = shared,\n                bo'),
    ('js.outputAttrs', J, 'for (i = 0, vn', 'for (i = 1, vn'),
    ('js.outputAttrs', J, 'if (!values || !values.length)', 'if (!values.length)'),
    ('js.outputAttrs', J, 'rv.outputBooleanAttr(key, value)', 'rv.doOutput(\' \' + key + \'="\' + value + \'"\')'),
    ('js.outputAttrs', J, 'rv.outputBooleanAttr(key, value)', 'if (value) rv.outputBooleanAttr(key, value)'),
    ('js.foreach', J, 'list.forEach(fn)', 'list.reverse().forEach(fn)'),
    ('js.foreach', J, 'list.forEach(fn)', 'for (var i = 0; i < list.length - 1; i++) fn(list[i])'),
    ('js.addToContext', J, 'if (!ctx.hasOwnProperty(name))', 'if (!ctx[name])'),
    ('js.addToContext', J, 'if (!ctx.hasOwnProperty(name))', 'if (ctx.hasOwnProperty(name))'),
    ('js.addToContext', J, 'if (!ctx.hasOwnProperty(name))', 'if (!(name in ctx))'),
    ('js.bindFromContext', J, 'if (ctx.hasOwnProperty(name))', 'if (ctx[name])'),
    ('js.bindFromContext', J, 'if (ctx.hasOwnProperty(name))', 'if (name in ctx)'),
    ('js.bindFromContext', J, '        return globals[name]', '        return undefined'),
    ('js.bindFromContext', J, '? global : window', '? window : global'),
    ('js.literal', J, 'new Markup(String(val))', 'new Markup(val)'),
    ('js.literal', J, 'new Markup(String(val))', 'doEscape(val)'),
    ('js.literal', J, 'return new Markup(String(val))', 'return String(val)'),
    ('js.BoundTemplate', J, '__main__().toString()', '__main__()'),
    ('js.BoundTemplate', J, '            return this.render();\n        },\n        toString', '            return this.templateContext.__main__();\n        },\n        toString'),
    ('js.load', J, 'require(template)', "require(template + '.js')"),
    ('jsgen.JsOutputNode', JG, 'return Str(s=(self.text))', 'return Str(s=self.text.strip())'),
    ('jsgen.JsOutputNode', JG, 'String(json.dumps(s, ensure_ascii=False))', 'String(repr(s))'),
    ('jsgen.JsOutputNode', JG, '            rv.append(e)\n        return rv', '            rv.append(e)\n        return rv[:0]'),
    ('jsgen.JsTranslatableOutputNode', JG, 'if self.needs_escape:', 'if not self.needs_escape:'),
    ('jsgen.JsTranslatableOutputNode', JG, '            [Str(s=self.text)],', '            [Str(s=self.text.strip())],'),
    ('jsgen.JsExpressionNode', JG, 'SimpleCall(NameX("__TK__escape"), [self.get_unescaped_expression()])', 'self.get_unescaped_expression()'),
    ('jsgen.JsExpressionNode', JG, 'return get_fragment_ast(self.expr)', 'return get_fragment_ast(self.expr.strip())'),
    ('jsgen.generate_child_ast', JG, 'for i in self.children:\n            rv.extend(i.generate_ast(generator, parent_for', 'for i in self.children:\n            rv[:0] = (i.generate_ast(generator, parent_for'),
    ('jsgen.JsIfNode', JG, '            Block(self.generate_child_ast(generator, self)),', '            Block([]),'),
    ('jsgen.JsIfNode', JG, '            test,\n            Block', "            UnaryOp('!', test),\n            Block"),
    ('jsgen.JsUnlessNode', JG, 'expression = "(%s)" % expression', 'pass'),
    ('jsgen.JsUnlessNode', JG, '    expression = UnaryOp(op="!", value=expression)\n', ''),
    ('jsgen.JsUnlessNode', JG, '"(%s)" % expression', '"(!%s)" % expression'),
    ('jsgen.JsForNode', JG, '(self.expression, self.vars),', '(self.vars, self.expression),'),
    ('jsgen.JsForNode', JG, 'self.vars = parts[0]', 'self.vars = parts[1]'),
    ('jsgen.JsForNode', JG, 'func_frame.elements = self.gen', 'func_frame.elements = [] and self.gen'),
    ('jsgen.JsForNode', JG, '        func_frame.elements = self.generate_child_ast(generator, self)\n', '        self.generate_child_ast(generator, self)\n'),
    ('jsgen.make_function', JG, '            new_body.extend(self.make_buffer_frame(body))', '            new_body.extend(body)'),
    ('jsgen.make_function', JG, 'new_body.append(Return(value=NameX("__TK__output")))', ''),
    ('jsgen.make_function', JG, 'value=SimpleCall(NameX("__TK__mkbuffer")),', 'value=NameX("__TK__mkbuffer"),'),
    ('jsgen.make_function', JG, 'parameters=arguments, elements', 'parameters=[], elements'),
    ('jsgen.make_function', JG, 'funcdecl.elements = [] if new_body is None else new_body', 'funcdecl.elements = list(new_body)'),
    ('jsgen.JsDefineNode', JG, 'if "(" not in funcspec', 'if "(" in funcspec'),
    ('jsgen.JsDefineNode', JG, 'funcspec += "()"', 'pass'),
    ('jsgen.JsDefineNode', JG, '            generator.add_top_def(get_func_name(def_node), def_node)\n            return []', '            generator.add_top_def(get_func_name(def_node), def_node)'),
    ('jsgen.JsDefineNode', JG, '"function %s{}" % self.funcspec', '"function %s{}" % self.funcspec.replace(" ", "")'),
    ('jsgen.JsDefineNode', JG, '            self.make_buffer_frame(\n                self.generate_child_ast(generator, self),\n            ),\n        )\n\n        # move', '            self.generate_child_ast(generator, self),\n        )\n\n        # move'),
    ('jsgen.JsBlockNode', JG, 'if not is_extended:', 'if is_extended:'),
    ('jsgen.JsBlockNode', JG, '[SimpleCall(NameX(self.name), [])], self, parent', '[NameX(self.name)], self, parent'),
    ('jsgen.JsBlockNode', JG, 'generator.add_block(self.name, def_node)', 'generator.add_top_def(self.name, def_node)'),
    ('jsgen.JsAttrsNode', JG, 'args=[expression])', "args=[SimpleCall(NameX('__TK__escape'), [expression])])"),
    ('jsgen.JsAttributeNode', JG, 'self.children[0].get_unescaped_expression(),', 'self.children[0].get_expression(),'),
    ('jsgen.JsAttributeNode', JG, 'if len(self.children) == 1 and', 'if self.children and'),
    ('jsgen.JsAttributeNode', JG, '[Str(s=\' %s="\' % self.name)]', '[Str(s=\'%s="\' % self.name)]'),
    ('jsgen.JsAttributeNode', JG, '[Str(s=\' %s="\' % self.name)] + self.get_expressions() + [Str(s=\'"\')]', 'self.get_expressions()'),
    ('jsgen.JsComplexExprNode', JG, '                rv.append(i.get_expression())', '                pass'),
    ('jsgen.JsComplexExprNode', JG, '                rv.extend(i.get_expressions())\n\n        return rv\n\n    def generate_ast(self, generator, parent=None)', '                rv = i.get_expressions()\n\n        return rv\n\n    def generate_ast(self, generator, parent=None)'),
    ('jsgen.JsCodeNode', JG, 'return get_fragment_ast(self.source, mode', 'return get_fragment_ast(self.source.strip(), mode'),
    ('jsgen.Generator.registries', JG, '        self.blocks.append(block)', '        self.blocks.insert(0, block)'),
    ('jsgen.Generator.registries', JG, '        self.top_defs.append(defblock)', '        self.blocks.append(defblock)'),
    ('jsgen.Generator.registries', JG, '[Name("__TK__context"), Str(name), block]', '[Name("__TK__context"), Name(name), block]'),
    ('jsgen.Generator.registries', JG, '        self.top_level_names.add(name)\n        defblock', '        defblock'),
    ('jsgen.Generator.registries', JG, 'name = block.identifier.value\n        return Expr', 'name = block.identifier.value.lower()\n        return Expr'),
    ('jsgen.get_fragment_ast', JG, 'parse(expression).children()[0].expr', 'parse(expression).children()[-1]'),
    ('jsgen.get_fragment_ast', JG, 'tree = parse(expression, mode=mode)', "tree = parse(expression + ';', mode=mode)"),
    ('jsexpr.parse_braced', 'languages/javascript/__init__.py', 'if braces <= 0:', 'if braces <= 1:'),
    ('jsexpr.parse_braced', 'languages/javascript/__init__.py', '        if content == "{":\n            braces += 1', '        if content == "{" and length > 2:\n            braces += 1'),
    ('jsexpr.parse_braced', 'languages/javascript/__init__.py', '        if content == "{":\n            braces += 1', '        if content in "{(":\n            braces += 1'),
    ('jsexpr.parse_braced', 'languages/javascript/__init__.py', 'text[start_pos + 2 : start_pos + length - 1]', 'text[start_pos + 2 : start_pos + length]'),
    ('jsexpr.parse_braced', 'languages/javascript/__init__.py', 'lex.lex(text, start_pos + 2)', 'lex.lex(text, start_pos + 1)'),
    ('jsexpr.parse_braced', 'languages/javascript/__init__.py', '    if not valid:\n        raise', '    if not length:\n        raise'),
    ('jsexpr.parse_braced', 'languages/javascript/__init__.py', '            braces -= 1\n', ''),
    ('jsexpr.parse_expression', 'languages/javascript/__init__.py', '!= "{"', '== "("'),
    ('jsexpr.parse_expression', 'languages/javascript/__init__.py', 'return parse_unenclosed_expression(text, start_pos)', 'return parse_unenclosed_expression(text, start_pos + 1)'),
    ('jsexpr.parse_unenclosed_expression', 'languages/javascript/__init__.py', 'if braces[last] != content:', 'if False:'),
    ('jsexpr.parse_unenclosed_expression', 'languages/javascript/__init__.py', '                if not pars:\n                    break', '                break'),
    ('jsexpr.parse_unenclosed_expression', 'languages/javascript/__init__.py', '                if not pars:\n                    break', '                if len(pars) < 2:\n                    break'),
    ('jsexpr.parse_unenclosed_expression', 'languages/javascript/__init__.py', 'expr_continuation = re.compile(r"[([]|(\\.[^\\d\\W][\\w$]*)"', 'expr_continuation = re.compile(r"[(]|(\\.[^\\d\\W][\\w$]*)"'),
    ('jsexpr.parse_unenclosed_expression', 'languages/javascript/__init__.py', '(\\.[^\\d\\W][\\w$]*)"', '(\\.[\\w$]*)"'),
    ('jsexpr.parse_unenclosed_expression', 'languages/javascript/__init__.py', 'identifier_match = re.compile(r"[^\\d\\W][\\w$]*"', 'identifier_match = re.compile(r"[^\\d\\W]\\w*"'),
    ('jsexpr.parse_unenclosed_expression', 'languages/javascript/__init__.py', '            pos = m.end(0)\n            continue', '            pos = m.end(0)\n            break'),
    ('jsexpr.parse_unenclosed_expression', 'languages/javascript/__init__.py', 'lex.lex(text, pos):', 'lex.lex(text, pos + 1):'),
    ('jsexpr.parse_unenclosed_expression', 'languages/javascript/__init__.py', 'expr = text[start_pos + 1 : pos]', 'expr = text[start_pos : pos]'),
    ('jsexpr.Lexer.lex', 'languages/javascript/jslex.py', 'eaten += len(toktext)', 'eaten += 1'),
    ('jsexpr.Lexer.lex', 'languages/javascript/jslex.py', 'yield (tok.name, toktext)', 'yield (tok.name, toktext.strip())'),
    ('jsexpr.Lexer.lex', 'languages/javascript/jslex.py', 'eaten = start', 'eaten = 0'),
    ('jsexpr.Lexer.lex', 'languages/javascript/jslex.py', 'finditer(text, eaten)', 'finditer(text, start)'),
    ('jsexpr.Lexer.lex', 'languages/javascript/jslex.py', 's = self.state\n        r', "s = 'reg'\n        r"),
    ('pygen.adjust_locations', 'languages/python/generator.py', 'line_delta = first_lineno - 1', 'line_delta = first_lineno'),
    ('pygen.adjust_locations', 'languages/python/generator.py', '                if lineno == 1:\n                    col += first_offset', '                col += first_offset'),
    ('pygen.adjust_locations', 'languages/python/generator.py', '                if lineno == 1:\n                    col += first_offset', '                if lineno == first_lineno:\n                    col += first_offset'),
    ('pygen.adjust_locations', 'languages/python/generator.py', 'for prefix in ["", "end_"]:', 'for prefix in [""]:'),
    ('pygen.adjust_locations', 'languages/python/generator.py', '                lineno += line_delta\n', '                lineno += line_delta if not prefix else 0\n'),
    ('pygen.adjust_locations', 'languages/python/generator.py', '        for child in iter_child_nodes(node):\n            _fix(child)\n\n    _fix(ast_node)', '        for child in iter_child_nodes(node):\n            _fix(child)\n            break\n\n    _fix(ast_node)'),
    ('pygen.adjust_locations', 'languages/python/generator.py', '        for child in iter_child_nodes(node):\n            _fix(child)\n\n    _fix(ast_node)', '        for child in iter_child_nodes(node):\n            if getattr(child, "lineno", 1) == 1:\n                _fix(child)\n\n    _fix(ast_node)'),
    ('pygen.remove_locations', 'languages/python/generator.py', '        if "col_offset" in node._attributes and hasattr(node, "col_offset"):\n            del node.col_offset\n', '        pass\n'),
    ('pygen.remove_locations', 'languages/python/generator.py', '        for child in iter_child_nodes(node):\n            fix(child)', '        for child in []:\n            fix(child)'),
    ('pygen.get_fragment_ast', 'languages/python/generator.py', 'position[1] + adjust[1]', 'position[1]'),
    ('pygen.get_fragment_ast', 'languages/python/generator.py', '"position", (1, 0))', '"position", (1, 1))'),
    ('pygen.get_fragment_ast', 'languages/python/generator.py', 'position[0] - 1\n', 'position[0]\n'),
    ('pygen.get_fragment_ast', 'languages/python/generator.py', 'adjust_locations(tree, position[0], position[1])', 'adjust_locations(tree, position[0], 0)'),
    ('pygen.get_fragment_ast', 'languages/python/generator.py', 'exp = expression + "\\n"', 'exp = expression.strip() + "\\n"'),
    ('pygen.get_fragment_ast', 'languages/python/generator.py', 'ast.parse(exp, mode=mode)', 'ast.parse(exp)'),
    ('pygen.Generator.generate_ast', 'languages/python/generator.py', '        ast.fix_missing_locations(tree)\n', ''),
    ('pygen.Generator.generate_ast', 'languages/python/generator.py', '        self.lnotab = {}\n', '        self.lnotab = {1: 2}\n'),
    ('TracebackFrameProxy', 'runtime/debug.py', 'next and next.tb or None', 'next.tb'),
    ('TracebackFrameProxy', 'runtime/debug.py', '        tb.tb_next = tb_next\n', '        tb_next.tb_next = tb\n'),
    ('TracebackFrameProxy', 'runtime/debug.py', '            except Exception:\n                # this function can fail', '            except TypeError:\n                # this function can fail'),
    ('TracebackFrameProxy', 'runtime/debug.py', '        self._tb_next = next\n', '        self._tb_next = next or self\n'),
    ('TonnikalaRuntime.load', 'runtime/python.py', 'return self.loader.load(href)', 'return self.loader.load(href.lower())'),
    ("docparser.handle_decl", DP, '"<!DOCTYPE%s><html/>" % decl[len("DOCTYPE"):]', '"<!%s><html/>" % decl'),
    ("docparser.handle_decl", DP, 'if len(self.elements) > 1:\n            self.syntax_error("Document', 'if len(self.elements) > 2:\n            self.syntax_error("Document'),
    ("docparser.handle_decl", DP, 'self.doc.appendChild(dt)', 'pass'),
    ("docparser.handle_decl", DP, '        self.flush_character_data()\n\n        if len(self.elements) > 1', '        if len(self.elements) > 1'),
    ("docparser.handle_decl", DP, 'except Exception as e:\n            self.syntax_error("Invalid document', 'except ValueError as e:\n            self.syntax_error("Invalid document'),
    ("docparser.handle_starttag", DP, 'if len(self.elements) == 1 and self.doc.documentElement is not None:', 'if len(self.elements) == 0 and self.doc.documentElement is not None:'),
    ("docparser.handle_starttag", DP, 'if len(self.elements) == 1 and self.doc.documentElement is not None:', 'if self.doc.documentElement is not None:'),
    ("docparser.handle_pi", DP, '(data.split(None, 1) + ["", ""])[:2]', 'data.split(None, 1)'),
    ("docparser.handle_pi", DP, '(data.split(None, 1) + ["", ""])[:2]', '(data.split(" ", 1) + ["", ""])[:2]'),
    ("docparser.__init__", DP, 'self.elements = []\n        self.characters = None', 'self.elements = [None]\n        self.characters = None'),
    ("docparser.__init__", DP, 'self.source = source\n        self.doc = None\n        self.elements = []\n        self.characters = None', 'self.source = filename\n        self.doc = None\n        self.elements = []\n        self.characters = None'),
    ("docparser.__init__", DP, 'self).__init__(**html_parser_extra_kw)', 'self).__init__()'),
    ("pygen.get_fragment_ast", P, 'e.lineno or 1', 'e.lineno'),
    ("pygen.get_fragment_ast", P, 'except UnicodeEncodeError as e:', 'except KeyError as e:'),
    ("pyexpr.gen_tokens", "languages/python/__init__.py", '(TokenError, IndentationError, UnicodeEncodeError)', '(TokenError, IndentationError)'),
]
