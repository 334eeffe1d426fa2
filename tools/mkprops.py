import json
P=[]
def p(id,title,statement,over,qtext,why,files,mechs,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mechs],observe_at=observe,hook_needed=None)))
R="tonnikala/runtime/python.py";G="tonnikala/languages/python/generator.py";H="tonnikala/helpers/__init__.py"
N="tonnikala/ir/nodes.py";IG="tonnikala/ir/generate.py";E="tonnikala/expr.py";LP="tonnikala/languages/python/__init__.py"
L="tonnikala/loader.py";D="tonnikala/syntaxes/docparser.py";T="tonnikala/syntaxes/tonnikala.py";B="tonnikala/runtime/_buffer.c"
A="tonnikala/languages/python/astalyzer.py";BA="tonnikala/languages/base.py";RX="tonnikala/runtime/exceptions.py"
p("C01","Every interpolated value is HTML-escaped exactly once",
 "Every value that a template interpolates into text, into an attribute value (alone or mixed with static text) or through an attribute mapping appears in the rendered output with each of & < > \" ' replaced by its character reference exactly once, also inside script and style elements. Values that carry their own HTML representation, content already rendered by a template function, block or definition, and a text interpolation whose whole expression is a call of literal() with one argument are inserted unchanged; nothing else is exempt. Static template text is re-escaped the same way, once, except inside script and style elements, where it is copied unchanged.",
 ["inputs","programs"],"all values, all static text, all positions an interpolation can take in any template",
 "The tests interpolate a few fixed strings in a few positions; one unescaped path for one kind of value or position is a cross-site-scripting hole that no sample settles.",
 [G,R,H,N,E,B],[("escape of static text",H+":escape; "+N+":Text.escaped"),("escape call around each interpolation",G+":PyExpressionNode.get_expression"),("literal() removal",G+":coalesce_outputs/OutputCoalescer.check"),("attribute output",R+":output_boolean_attr; "+B)],
 ["rendered string of a template"])
p("C02","Static content is output completely, once and in document order",
 "The rendered output contains the template's static text, tags, constant attributes, comments and doctype together with the output of the dynamic parts, in document order: no static fragment is lost, duplicated or moved, however many fragments there are and however static and dynamic parts alternate or nest (within one start tag, constant attributes come before computed ones, each group in the order written). Comments whose text starts with ! are dropped and all other comments are copied verbatim, without interpolating anything in them.",
 ["inputs","programs"],"all templates: any nesting, any number and alternation of static and dynamic fragments",
 "The output passes through four list rewriting passes (flattening, text merging, output grouping with an argument limit, string joining) whose loops depend on run lengths the fixed test templates do not reach.",
 [IG,G,N,BA,T],[("text merging",IG+":merge_text_nodes_on"),("element flattening",IG+":flatten_element_nodes_on"),("output grouping, 250 argument limit",G+":coalesce_outputs"),("string joining",G+":coalesce_strings"),("node translation",BA+":BaseGenerator.add_child")],
 ["rendered string of a template","compiled IR and Python AST"])
p("C03","Interpolation splits text without losing or adding a character",
 "In text and attribute values, $$ stands for one dollar sign, a $ not followed by a letter, underscore, { or $ stands for itself, and every other $ starts an interpolation; the text between interpolations is kept character for character. The static pieces and the source of the interpolations, put back together, therefore give exactly the original text with $$ reduced to $.",
 ["inputs"],"all strings, any number and adjacency of dollars, interpolations, line breaks and non-ASCII characters",
 "The tests try about a dozen strings; the splitter is a scanning loop with a fast path and a slow path that must agree on all inputs.",
 [E,LP],[("fast path",E+":_strip_dollars_fast"),("scanner",E+":handle_text_node"),("whitespace partition",E+":partition_translatable_text, create_text_nodes")],
 ["IR of a text node","rendered string"])
p("C04","An interpolated expression ends exactly where Python syntax says it ends",
 "A ${...} interpolation extends to the closing brace that matches its opening brace when the contents are read as Python tokens, so braces inside strings, dictionaries, sets and nested brackets do not end it. A $name interpolation consists of the name and every directly following .name, (...) or [...] with balanced brackets, and nothing more: a trailing period, space or other character stays text. An interpolation that is not closed is a template syntax error, never a silently shortened expression.",
 ["inputs"],"all texts following a dollar sign",
 "Tests cover a handful of expressions; the end position is computed from tokenizer columns and line lengths, which differ for multi-line text, nested brackets and strings containing brackets.",
 [LP],[("token positions",LP+":gen_tokens"),("brace matching",LP+":parse_brace_enclosed_expression"),("continuations",LP+":parse_unenclosed_expression")],
 ["parse_expression result","rendered string"])
p("C05","Control directives behave like the Python statements they stand for",
 "if renders its content exactly when its condition is true, for renders it once per item in order with the targets bound, def renders nothing where it stands and yields its content when called, with/vars bind for their content only, content and replace substitute the content or the element, strip drops the tags exactly when its condition is true (or empty) and keeps the content; this is the same for constant and computed conditions and for empty content. When several directives stand on one element they apply in the order block, if, for, def, with, vars, from the outside in, and an expression is evaluated only where that nesting reaches it.",
 ["inputs","programs"],"all templates, conditions, iterables, values and combinations of directives",
 "Tests use each directive mostly alone with one or two values; combinations, constant folding and empty content are unbounded.",
 [G,T,IG,BA],[("directive order",T+":create_control_nodes"),("content/replace/strip",T+":generate_element_node"),("constant folding",G+":static_expr_to_bool, PyIfNode, PyUnlessNode"),("scopes",G+":generate_varscope, make_buffer_frame")],
 ["rendered string","sequence of evaluated expressions"])
p("C06","Names resolve innermost scope first, then context, then builtins",
 "A name used in a template expression denotes the innermost template binding that is visible there (for target, which belongs to the whole surrounding definition, block or template body, with/vars variable, import alias, parameter, lambda parameter or comprehension variable), otherwise the value in the rendering context, otherwise the builtin of that name; the template's own top-level definitions and blocks are used for the names that neither of them provides, and a name found nowhere fails only when it is evaluated. A binding made by with/vars, by a parameter, by a lambda or by a comprehension is not visible outside its extent and does not hide the context value of the same name elsewhere in the template; blocks and definitions see their own bindings and, like the rest of the template, the context.",
 ["inputs","programs"],"all expressions and statements, all nestings of binding constructs, all contexts",
 "Which names are fetched from the context is decided by a free-variable analysis over arbitrary Python code; tests use a few simple names.",
 [A,G,L],[("free variable analysis",A+":FreeVarFinder"),("context prologue",G+":PyRootNode.generate_ast"),("builtins below context",L+":make_template_context")],
 ["rendered string","NameError or its absence"])
p("C07","Output buffers concatenate everything written, in order",
 "Joining an output buffer yields the string forms of all values written to it, in the order written, with a buffer written into another contributing exactly its own contents at that point, and writing never changes the buffers or values that were written. The compiled C buffer and the pure Python buffer give the same result for the same calls.",
 ["inputs","histories"],"all sequences of writes of all values, including nested buffers, on both implementations",
 "The tests compare a few outputs and never write long or nested mixtures; the C code also has its own type tests and error paths.",
 [R,B],[("Python buffer",R+":_TKPythonBufferImpl"),("C buffer",B+":_do_append, Buffer_join")],
 ["str()/join() of a buffer"],[("buffer contents","list of strings in write order",R+":_buffer, "+B+":buffer_list")])
p("C08","Attribute values None, False and True control the attribute itself",
 "An attribute whose value is one single interpolation is omitted when the value is None or False, is written as name=\"name\" when it is True, and otherwise as name=\"escaped value\", including for values such as 0 and the empty string. The entries of an attribute mapping or sequence of pairs given with attrs follow the same rule, in order, each exactly once, after the attributes written in the template; an empty or None mapping adds nothing.",
 ["inputs"],"all attribute names, values of all types, mappings and pair sequences of any length",
 "Tests use a few values; the rule depends on exact types and is implemented separately in Python, in C and in generated code.",
 [R,B,G],[("boolean attribute",R+":output_boolean_attr; "+B+":Buffer_output_boolean_attr"),("mapping",R+":output_attrs"),("generated call",G+":PyAttributeNode.generate_ast, PyAttrsNode")],
 ["rendered string","result of output_attrs"])
p("C09","Template inheritance: the most derived definition always wins",
 "When a template extends another, rendering yields the base template's content with every block and definition replaced by the one from the most derived template that defines it, at any depth of inheritance, and blocks not overridden keep the base's content (a name already provided by the caller's context or by a builtin keeps that value). The choice is the same wherever the block or definition is used, including from inside other blocks and definitions of any template of the chain. Comments and white space between the blocks of an extending template are ignored.",
 ["programs","histories"],"all inheritance chains of any depth and all subsets of overridden blocks and definitions",
 "The tests contain one two-level chain; the guarantee rests on the order in which all templates of a chain register names in one context.",
 [R,G,L],[("first binding wins",R+":bind"),("registration before the parent",G+":PyRootNode.generate_ast"),("loading the parent",R+":TonnikalaRuntime.load")],
 ["rendered string"],[("rendering context","name to function, first registration kept",R+":bind")])
p("C10","An import exposes exactly the imported template's own names",
 "An import binds its alias to an object having the names that the imported template defines or changes relative to the importing rendering context, each with the function that renders that definition, and no other names; asking it for any other name is an attribute error. Importing changes neither the importing template's context nor its own definitions.",
 ["inputs","programs"],"all pairs of importing and imported templates and all contexts, including equal names on both sides",
 "Tests import one template with one definition; the guarantee quantifies over all contexts and name overlaps.",
 [R,G],[("diff against the context",R+":TonnikalaRuntime.import_defs"),("missing names",R+":ImportedTemplate.__getattr__"),("import statement",G+":PyImportNode")],
 ["attributes of the alias","context after rendering"])
p("C11","Rendering leaves the context and the template untouched",
 "Rendering never changes the mapping passed by the caller, and the values passed by the caller take precedence over builtins of the same name without changing them for any other rendering. A template rendered again, after any other renderings of it or other templates, gives the same output for the same context.",
 ["inputs","histories"],"all contexts and all sequences of renderings",
 "Tests render each template once with its own context.",
 [L,R,G],[("copying builtins",L+":make_template_context, get_builtins"),("per rendering binder",L+":Template.render_to_buffer"),("import context copy",R+":import_defs")],
 ["caller's mapping before and after","outputs of repeated renderings"])
p("C12","The file loader returns the right, current template",
 "Loading a name gives the template of the first existing file among the absolute name and then the search paths in the order they were added, and an OSError with ENOENT when there is none; loading the same name again gives the same template object without reading the file. With reloading on, a load made more than the check interval after the last check never returns a template whose file has since been modified, a check that finds a modified file drops every cached template (others may extend the modified one), a file that is gone (deleted, or its directory deleted or replaced by a file) removes only its own cache entry, neither a check nor a load fails because other threads load or drop templates meanwhile, and with reloading off nothing is ever dropped.",
 ["inputs","histories","configurations"],"all path lists, all sequences of loads, file modifications, deletions and clock readings",
 "Tests load a few files once; cache invalidation depends on histories of file times and loads.",
 [L],[("resolution",L+":FileLoader.resolve"),("cache",L+":FileLoader.load"),("reload check",L+":FileLoader._maybe_purge_cache")],
 ["identity and contents of loaded templates","exceptions"],[("cache","name to template with path and mtime",L+":FileLoader.cache")])
p("C13","Malformed templates give a located template syntax error",
 "A template with a mismatched or stray end tag, an unknown entity in text, an unknown declaration, text outside the root element, more than one root element, a malformed document type declaration or one inside an element, an unknown control element or attribute, a mandatory attribute that is missing or has no value, a block name that is not a Python name, a malformed for specification, content other than blocks, definitions and imports inside an extending template, content or control attributes that would nest inside an import, or an interpolation, condition, iteration, definition, assignment or code instruction that is unterminated, contains a null character or a lone surrogate or does not parse as Python is rejected with a template syntax error and never with another exception or silently. The error carries the file name, the template source and the number of a line of the template, which is the line where the offending tag, attribute, expression or piece of text starts, and its traceback ends at that file and line. Content that can never be rendered (displaced by content or replace, or under a constantly false condition) need not be checked.",
 ["inputs"],"all malformed templates of these kinds, at every position",
 "Tests check about ten malformed templates; the error must hold at every position and for every bad expression.",
 [D,T,IG,N,G,LP,RX,L],[("markup errors",D+":handle_endtag, syntax_error"),("control errors",T+":syntax_error, grab_mandatory_attribute"),("expression errors",G+":get_fragment_ast; "+LP+":gen_tokens"),("structure errors",N+":For.validate, Extends.validate; "+IG+":Validator"),("message",RX+":TemplateSyntaxError.__str__")],
 ["exception type, filename, source, lineno, str()"])
p("C14","Source positions point at the text they were taken from",
 "The position recorded for a piece of template text is the line (from one) and column (from zero) where that piece starts in the template file, a character reference counting as the character it stands for: slicing located text yields the position of the slice's first character, and attribute values, text and expressions taken from it keep this through every further slice. Errors and tracebacks for an expression therefore name the template line on which that expression stands.",
 ["inputs"],"all template texts, all slices, all attribute layouts and line breaks",
 "Tests check a few positions in short templates; line and column arithmetic has separate cases for the first line, later lines and offsets.",
 [H,D,G],[("position arithmetic",H+":calculate_position, StringWithLocation.__getitem__"),("attribute positions",D+":find_attr_positions, delta"),("AST shifting",G+":adjust_locations, get_fragment_ast")],
 ["StringWithLocation.position","lineno of errors and tracebacks"])
p("C15","Translation replaces exactly the translatable text",
 "In a translatable template every non-blank piece of static text outside script and style, and every static value of a title, alt, placeholder, value or caption attribute, is replaced by its translation, escaped once, with the white space around it kept outside the message; expressions, other attributes and script or style content are not translated. With an identity translation the output equals that of the same template compiled without translation, except that translatable attributes may stand later in their tag.",
 ["inputs","programs"],"all templates, texts and translation functions",
 "Tests translate a few phrases; equality with the untranslated rendering must hold for all templates.",
 [E,T,G,L,N],[("splitting off white space",E+":partition_translatable_text, create_text_nodes"),("what is translatable",T+":is_attr_translatable, enter_node"),("generated gettext call",G+":PyTranslatableOutputNode"),("identity gettext",L+":helpers")],
 ["rendered string","calls of gettext"])
p("C16","The JavaScript runtime escapes and buffers like the Python runtime",
 "In the JavaScript runtime, writing escaped values, writing rendered buffers or markup, boolean attributes and attribute lists give the same text as the Python runtime gives for the corresponding values, in the order written; markup and buffers are never escaped again and every other value always is. Names are taken from the template context when it has them, including null, false and empty values, and otherwise from the globals; the first registration of a name in a context is kept.",
 ["inputs","histories"],"all values and all sequences of writes",
 "The JavaScript runtime has no test that executes it.",
 ["tonnikala/runtime/javascript.js"],[("escape","tonnikala/runtime/javascript.js:doEscape"),("buffer","tonnikala/runtime/javascript.js:Buffer"),("context","tonnikala/runtime/javascript.js:addToContext, bindFromContext")],
 ["strings produced by the runtime module under node"])
p("C17","Exceptions raised while rendering reach the caller unchanged",
 "An exception raised by an expression, or by anything it calls, during rendering reaches the caller of render as the very same exception object, with its type, arguments and attributes unchanged, and no output is returned. The traceback the caller sees contains the template's file name and the line of the template on which the failing expression or code instruction stands.",
 ["inputs","programs"],"all exception types and all positions of the failing expression",
 "Tests provoke a few exceptions in simple positions.",
 [L,"tonnikala/runtime/debug.py",H],[("exception path",L+":Template.render_to_buffer, handle_exception"),("traceback rewriting","tonnikala/runtime/debug.py:make_traceback, translate_exception"),("re-raise",H+":reraise")],
 ["exception object at the caller","traceback entries"])
p("C18","Pyramid renders the named template with the view's values",
 "The Pyramid renderer renders the template named by the renderer name with the system values overridden by the view's values, returns a string (or the markup itself for a fragment), and rejects a view result that is neither a mapping nor a sequence of pairs with a ValueError. Asset specifications and search paths are tried in that order, search paths in the order they were added and before plain file lookup, and the settings for extensions, search paths, reload and translation take effect exactly as given, with extensions accepted with or without the leading dot.",
 ["inputs","configurations"],"all settings, names, search paths and view results",
 "The tests render two templates with one configuration.",
 ["tonnikala/pyramid/__init__.py"],[("renderer","tonnikala/pyramid/__init__.py:TonnikalaTemplateRenderer.__call__"),("resolution","tonnikala/pyramid/__init__.py:PyramidTonnikalaLoader.resolve"),("settings","tonnikala/pyramid/__init__.py:includeme and directives")],
 ["renderer result","registry after configuration"])
p("C19","Message extraction finds what rendering translates",
 "Extracting messages from a template yields every text that rendering the template with translation on passes to the translation function, and every literal message of a gettext call in its interpolated expressions (a call whose message arguments are literals and which does not stand inside another gettext call) together with the context and plural form it gives, in the order of that function's arguments, each once per occurrence in the template, and nothing else.",
 ["inputs","programs"],"all templates and expressions",
 "Tests extract from one or two templates.",
 ["tonnikala/i18n/__init__.py",N,E],[("tree walk","tonnikala/i18n/__init__.py:TonnikalaExtractor.__call__; "+N+":IRTree.__iter__"),("expressions","tonnikala/i18n/__init__.py:parse_python")],
 ["extracted messages compared with gettext calls made while rendering"])
p("C20","JavaScript templates render like the Python templates they mirror",
 "A template using interpolation, attributes, if, for, def, strip, content, replace, attrs (with lists of pairs), blocks and extends, and with and vars binding names that nothing else uses, whose expressions are valid and mean the same in JavaScript renders, when compiled for JavaScript and run with the JavaScript runtime, the same text as the corresponding Python template for the same context. Static text in it is kept exactly, including quotes, backslashes, line breaks and script content.",
 ["inputs","programs"],"all such templates and contexts",
 "No existing test executes the generated JavaScript.",
 ["tonnikala/languages/javascript/generator.py","tonnikala/languages/javascript/__init__.py",T,"tonnikala/runtime/javascript.js"],[("code generation","tonnikala/languages/javascript/generator.py"),("expression extents","tonnikala/languages/javascript/__init__.py:parse_expression")],
 ["text rendered under node compared with the Python rendering"])
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
