"""tonnikala.languages.javascript.generator: from language nodes to the JavaScript program that renders the template.
The same meanings as for Python (k_pygen): both generators are held to one denotation."""
from .lib import *
from .k_pygen import ESCV, RAWV, GT, EGT, OATTRS, BATTR, CALLED, FORX, TREE, KID, history, gen_parent, of_some_class

JG = "tonnikala.languages.javascript.generator"
SA = "slimit.ast"
T_FRAG = "get_fragment_ast(text) is the syntax tree slimit's parser gives for exactly the given text (unit jsgen.get_fragment_ast)"
T_ECMA = "slimit prints a syntax tree as JavaScript source that means the tree, except that operands are not parenthesised when the source had no parentheses"
T_JSON = "json.dumps(s, ensure_ascii=False) is a JavaScript string literal for s, and different for different s"
HEADER = z3.Function("foreach_header", StrS, StrS, IntS)
JSON = z3.Function("json_dumps", StrS, StrS)
LITV = z3.Function("value_of_text", StrS, IntS)
VAR = z3.Function("value_of_variable", StrS, IntS)
CALL1 = z3.Function("value_of_call", StrS, IntS, IntS)
UNJSON = z3.Function("value_of_string_literal", StrS, StrS)


def k(n):
    return cls(SA + ":" + n)


def is_(x, *names):
    return isinstance(x, Obj) and len(x.kinds) == 1 and any(x.kinds[0] is k(n) for n in names)


def ident(run, x):
    return run.getattr(x, "value") if is_(x, "Identifier") else None


def strval(run, x):
    if not is_(x, "String"):
        raise Unsupported("value of %r" % (x,))
    return UNJSON(zs(run.getattr(x, "value")))


def val(run, x):
    if isinstance(x, Obj) and "val" in x.ghost:
        return x.ghost["val"]
    if is_(x, "String"):
        return LITV(strval(run, x))
    if is_(x, "Identifier"):
        return VAR(zs(run.getattr(x, "value")))
    if is_(x, "FunctionCall"):
        n, args = ident(run, run.getattr(x, "identifier")), args_of(run, x)
        if n is not None and len(args) == 1:
            return CALL1(zs(n), val(run, args[0]))
    raise Unsupported("value of %r" % (x,))


def args_of(run, c):
    return run.items_of(run.getattr(c, "args"))


def den_arg(run, x):
    """what writing an argument of __TK__output(...) outputs"""
    if not isinstance(x, Obj):
        raise Unsupported("output of %r" % (x,))
    if "tok" in x.ghost:
        return x.ghost["tok"]
    if "val" in x.ghost:
        return RAWV(x.ghost["val"])
    if is_(x, "String"):
        return strval(run, x)
    if is_(x, "FunctionCall"):
        n, args = ident(run, run.getattr(x, "identifier")), args_of(run, x)
        if n == "__TK__escape" and len(args) == 1:
            return ESCV(val(run, args[0]))
        if n in ("gettext", "egettext") and len(args) == 1:
            return (GT if n == "gettext" else EGT)(strval(run, args[0]))
        if n == "__TK__output_attrs" and len(args) == 1:
            return OATTRS(val(run, args[0]))
        if len(args) == 0 and n is not None:
            return CALLED(zs(n))
    return RAWV(val(run, x))


JARGS = Fold("js args", "str", den_arg)


def kids_of(run, x):
    return run.items_of(run.call(run.getattr(x, "children"), [], {}))


def den_stmt(run, x):
    """what a generated statement outputs"""
    if not isinstance(x, Obj):
        raise Unsupported("statement %r" % (x,))
    if "tok" in x.ghost:
        return x.ghost["tok"]
    if "foreach" in x.ghost:
        f = x.ghost["foreach"]
        return FORX(f.ghost["header"], run.fold_term(JSTM, run.items_of(run.getattr(f, "elements"))))
    if is_(x, "ExprStatement"):
        c = run.getattr(x, "expr")
        if is_(c, "FunctionCall"):
            f, args = run.getattr(c, "identifier"), args_of(run, c)
            if ident(run, f) == "__TK__output":
                return run.fold_term(JARGS, args)
            if is_(f, "DotAccessor") and ident(run, run.getattr(f, "node")) == "__TK__output" and ident(run, run.getattr(f, "identifier")) == "attr" and len(args) == 2:
                return BATTR(strval(run, args[0]), val(run, args[1]))
    if is_(x, "If"):
        alt = run.getattr(x, "alternative")
        return z3.If(test_truth(run, run.getattr(x, "predicate")), block(run, run.getattr(x, "consequent")), SV("") if alt is None else block(run, alt))
    raise Unsupported("statement %r" % (x,))


def block(run, x):
    return run.fold_term(JSTM, kids_of(run, x)) if is_(x, "Block") else den_stmt(run, x)


JSTM = Fold("js statements", "str", den_stmt)


def test_truth(run, e):
    if isinstance(e, Obj) and "truth" in e.ghost:
        return e.ghost["truth"]
    if is_(e, "UnaryOp") and run.getattr(e, "op") == "!" and not run.truth(run.getattr(e, "postfix")):
        o = run.getattr(e, "value")
        if isinstance(o, Obj) and "truth" in o.ghost and not o.ghost["closed"]:
            # printed without parentheses the operator takes the first operand only
            return z3.Bool(run.name("truth of the negation of a part"))
        return NOT(test_truth(run, o))
    raise Unsupported("truth of %r" % (e,))


def expr_seg(run, name):
    def mk(run, nm):
        o = Obj([k(n) for n in EXPR_KINDS], name=nm)
        o.ghost["tok"] = z3.String(run.name("output of " + nm))
        return o
    return Seg(run.name(name), mk)


def stmt_seg(run, name):
    def mk(run, nm):
        o = Obj([k(n) for n in STMT_KINDS], name=nm)
        o.ghost["tok"] = z3.String(run.name("output of " + nm))
        return o
    return Seg(run.name(name), mk)


EXPR_KINDS = ["Identifier", "FunctionCall", "String", "Number", "BinOp", "DotAccessor", "Conditional", "FuncExpr", "Array", "Assign", "Boolean", "BracketAccessor", "Comma", "NewExpr", "Null",
              "Object", "Regex", "This", "UnaryOp"]
STMT_KINDS = ["ExprStatement", "If", "For", "VarStatement", "FuncDecl", "Block", "Break", "Continue", "Debugger", "DoWhile", "EmptyStatement", "ForIn", "Label", "Return", "Switch", "Throw", "Try",
              "While", "With"]
TRUTH = z3.Function("truth_of_source", StrS, z3.BoolSort())


def stub_fragment(run, log):
    def f(run, a, kw):
        e = a[0]
        mode = kw.get("mode", a[1] if len(a) > 1 else "eval")
        if not run.is_strlike(e):
            return e
        log.append((zs(e), mode))
        if mode == "eval":
            o = Obj([k(n) for n in EXPR_KINDS], name="expression")
            src, closed = zs(e), False
            for known in run.memo.get("sources", []):
                if not run.feasible(src != concat(SV("("), known, SV(")"))):
                    src, closed = known, True
                    break
            o.ghost.update(val=TREE(src), truth=TRUTH(src), closed=closed)
            return o
        hook = run.memo.get("exec hook")
        if hook is not None:
            return hook(run, e)
        raise Unsupported("statements from source")
    stub(run, JG + ":get_fragment_ast", f)


def source_text(run, name):
    t = run.str(name, input=True)
    run.memo.setdefault("sources", []).append(t.t)
    return t


def child(run, nm):
    """a child node known by the contract of generate_ast / get_expressions: its statements output its token"""
    o = opaque(run, nm)
    o.ghost["tok"] = z3.String(run.name("output of child"))

    def gen(run, a, kw):
        s = stmt_seg(run, "statements of child")
        run.assume(run.fold_term(JSTM, [s]) == o.ghost["tok"])
        return SymList([s])

    def exprs(run, a, kw):
        s = expr_seg(run, "exprs")
        run.assume(run.fold_term(JARGS, [s]) == o.ghost["tok"])
        return SymList([s])

    def expr(run, a, kw):
        e = Obj([k(n) for n in EXPR_KINDS], name="expr of child")
        e.ghost["tok"] = o.ghost["tok"]
        return e
    single = z3.Bool(run.name("has get_expression"))
    base = o.ghost["getattr"]
    of_some_class(run, o)

    def ga(run, v, attr):
        if attr == "generate_ast":
            return Native(gen, attr)
        if attr == "get_expressions":
            return Native(exprs, attr)
        if attr == "get_expression":
            return Native(expr, attr) if run.fork(single) else MISSING
        if ("class known", id(v)) in run.memo:
            raise Unsupported("%s of a child of a known class" % attr)
        return base(run, v, attr)
    o.ghost["getattr"] = ga
    o.ghost["hasattr"] = lambda run, v, a: single if a == "get_expression" else a in ("generate_ast", "get_expressions")
    return o


def json_dumps(run, a, kw):
    if not run.is_strlike(a[0]):
        raise Unsupported("json of %r" % (a[0],))
    t = zs(a[0])
    r = JSON(t)
    run.axiom(UNJSON(r) == t)
    return mks(r)


def setup(run):
    import json
    log = []
    stub_fragment(run, log)
    run.models[json.dumps] = json_dumps

    def hav(ctx):
        ctx.set("rv", SymList([expr_seg(run, "exprs") if run.memo.get("want exprs") else stmt_seg(run, "rv")]))
    entry = {}

    def fold(fl, key):
        def inv(ctx):
            now = run.fold_term(fl(), ctx.get("rv").items)
            if not ctx.pre:
                entry[key, ctx.seg.uid] = now
            return [("the output so far", now == concat(entry[key, ctx.seg.uid], run.fold_term(KID if key == "kids" else JARGS, ctx.pre)))]
        return inv
    run.loops["kids"] = Loop(hav, fold(lambda: JARGS if run.memo.get("want exprs") else JSTM, "kids"))
    run.loops["exprs"] = Loop(lambda ctx: ctx.set("rv", SymList([stmt_seg(run, "rv")])), fold(lambda: JSTM, "exprs"))
    return log


def node(run, name, *args, **kw):
    o = run.call(cls(JG + ":" + name), list(args), {})
    if kw.get("children", True):
        kids = run.getattr(o, "children")
        if kids.items:
            raise Unsupported("children at construction")
        kids.items = [Seg(run.name("kids"), child)]
    return o


def kidout(run, n):
    return run.fold_term(KID, run.getattr(n, "children").items)


def out(run, stmts):
    return run.fold_term(JSTM, run.items_of(stmts))


def gen(run, n):
    g, p, top = gen_parent(run)
    return run.call(run.getattr(n, "generate_ast"), [g, p], {}), g, p, top


def exprs(run, n):
    return run.fold_term(JARGS, run.items_of(run.call(run.getattr(n, "get_expressions"), [], {})))


@unit("jsgen.JsOutputNode", ["C20"], JG + ":JsOutputNode.generate_ast", trusted=[T_JSON, T_ECMA])
def _(run):
    """static text is written as it is, once"""
    setup(run)
    t = run.str("text", input=True)
    n = node(run, "JsOutputNode", t, children=False)
    run.ensure("the statements write the text", out(run, gen(run, n)[0]) == t.t)
    run.ensure("so do the expressions", exprs(run, n) == t.t)


@unit("jsgen.JsTranslatableOutputNode", ["C20"], JG + ":JsTranslatableOutputNode.get_expression", trusted=[T_JSON, T_ECMA])
def _(run):
    """translatable text is written as gettext of exactly that text, escaped when the text itself would have been"""
    setup(run)
    t, e = run.str("text", input=True), run.bool("needs_escape", input=True)
    n = node(run, "JsTranslatableOutputNode", t, e, children=False)
    want = z3.If(e.t, EGT(t.t), GT(t.t))
    run.ensure("the statements write the translation", out(run, gen(run, n)[0]) == want)
    run.ensure("so do the expressions", exprs(run, n) == want)


@unit("jsgen.JsExpressionNode", ["C20"], JG + ":JsExpressionNode.get_expression", trusted=[T_FRAG, T_ECMA])
def _(run):
    """an interpolated expression is written through escape exactly once"""
    setup(run)
    t = source_text(run, "expression")
    n = node(run, "JsExpressionNode", t, children=False)
    run.ensure("the statements write the escaped value", out(run, gen(run, n)[0]) == ESCV(TREE(t.t)))
    run.ensure("so do the expressions", exprs(run, n) == ESCV(TREE(t.t)))
    run.ensure("the unescaped expression is the expression", val(run, run.call(run.getattr(n, "get_unescaped_expression"), [], {})) == TREE(t.t))


@unit("jsgen.generate_child_ast", ["C20"], JG + ":JsComplexNode.generate_child_ast")
def _(run):
    """the statements of all children, in order, each once"""
    setup(run)
    n = node(run, "JsIfNode", run.str("e"))
    g, p, _ = gen_parent(run)
    run.ensure("the output of all children in order", out(run, run.call(run.getattr(n, "generate_child_ast"), [g, p], {})) == kidout(run, n))


@unit("jsgen.JsIfNode", ["C20"], JG + ":JsIfNode.generate_ast", trusted=[T_FRAG, T_ECMA])
def _(run):
    """the children are written exactly when the condition is true"""
    setup(run)
    t = source_text(run, "expression")
    n = node(run, "JsIfNode", t)
    run.ensure("the children are written exactly when the condition holds", out(run, gen(run, n)[0]) == z3.If(TRUTH(t.t), kidout(run, n), SV("")))


@unit("jsgen.JsUnlessNode", ["C20"], JG + ":JsUnlessNode", trusted=[T_FRAG, T_ECMA])
def _(run):
    """the children are written exactly when the whole condition is false"""
    setup(run)
    t = source_text(run, "expression")
    n = run.call(fn(JG + ":JsUnlessNode"), [Obj(cls(JG + ":Generator")), t], {})
    run.getattr(n, "children").items = [Seg("kids", child)]
    run.ensure("the children are written exactly when the condition does not hold", out(run, gen(run, n)[0]) == z3.If(TRUTH(t.t), SV(""), kidout(run, n)))


@unit("jsgen.JsForNode", ["C20"], JG + ":JsForNode.generate_contents", trusted=[T_FRAG, T_ECMA, "foreach by its contract (unit js.foreach)"])
def _(run):
    """a loop calls a function of the loop variables, whose body is the children, for every element"""
    setup(run)
    vs, e, h = run.str("vars", input=True), run.str("expression", input=True), run.str("header")
    n = node(run, "JsForNode", h, SymList([vs, e]))
    made = []

    def hook(run, src):
        run.ensure("foreach over the expression, with the variables as parameters", zs(src) == concat(SV("__TK__foreach("), e.t, SV(", function ("), vs.t, SV(") { });")))
        f = run.call(k("FuncExpr"), [None, SymList([Obj(k("Identifier"))]), SymList([])], {})
        f.ghost["header"] = HEADER(e.t, vs.t)
        c = run.call(k("FunctionCall"), [Obj(k("Identifier"), dict(value="__TK__foreach")), SymList([Obj(k("Identifier")), f])], {})
        s = run.call(k("ExprStatement"), [c], {})
        s.ghost["foreach"] = f
        made.append(s)
        return SymList([s])
    run.memo["exec hook"] = hook
    r = gen(run, n)[0]
    run.ensure("one statement", len(made) == 1 and len(run.items_of(r)) == 1 and run.items_of(r)[0] is made[0])
    run.ensure("with the children as body", out(run, r) == FORX(HEADER(e.t, vs.t), kidout(run, n)))


def bufframe(run, items):
    """body of a function that makes its own buffer, writes to it and returns it: statements between the two, or None"""
    if len(items) < 2 or not is_(items[0], "VarStatement") or not is_(items[-1], "Return"):
        return None
    d = kids_of(run, items[0])
    if len(d) != 1 or not is_(d[0], "VarDecl") or ident(run, run.getattr(d[0], "identifier")) != "__TK__output":
        return None
    c = run.getattr(d[0], "initializer")
    if not is_(c, "FunctionCall") or ident(run, run.getattr(c, "identifier")) != "__TK__mkbuffer" or args_of(run, c):
        return None
    if ident(run, run.getattr(items[-1], "expr")) != "__TK__output":
        return None
    return items[1:-1]


def check_frame(run, d, want):
    mid = bufframe(run, run.items_of(run.getattr(d, "elements")))
    run.ensure("the function writes to a new buffer and returns it", mid is not None)
    run.ensure("the body is all the statements, in order", run.fold_term(JSTM, mid) == want)


@unit("jsgen.make_function", ["C20"], JG + ":JavascriptNode.make_function", trusted=[T_ECMA])
def _(run):
    """a function of the given name and parameters, with the statements in a buffer of its own when asked"""
    setup(run)
    n = node(run, "JsIfNode", run.str("e"), children=False)
    name, p = run.str("name", input=True), Obj(k("Identifier"), name="parameter")
    body = stmt_seg(run, "body")
    want = run.fold_term(JSTM, [body])
    buf = run.pick(2)
    f = run.call(run.getattr(n, "make_function"), [name, SymList([body])], dict(add_buffer=bool(buf), arguments=SymList([p])))
    run.ensure("a function", is_(f, "FuncDecl"))
    run.ensure("of that name", run.eq(ident(run, run.getattr(f, "identifier")), name))
    run.ensure("with the parameters", [x is p for x in run.items_of(run.getattr(f, "parameters"))] == [True])
    if buf:
        check_frame(run, f, want)
    else:
        run.ensure("the body", run.fold_term(JSTM, run.items_of(run.getattr(f, "elements"))) == want)


def function_hook(run, made):
    def hook(run, src):
        f = run.call(k("FuncDecl"), [Obj(k("Identifier"), dict(value=run.str("defined name"))), SymList([]), SymList([])], {})
        f.ghost["source"] = zs(src)
        made.append(f)
        return SymList([f])
    run.memo["exec hook"] = hook


@unit("jsgen.JsDefineNode", ["C20"], JG + ":JsDefineNode.generate_ast", trusted=[T_FRAG, T_ECMA])
def _(run):
    """def: the function with the signature as written ("()" added when there is none), its body the children in a buffer
    of its own; defined in place, or for the whole template at top level"""
    setup(run)
    t = run.str("funcspec", input=True)
    n = node(run, "JsDefineNode", t)
    made = []
    function_hook(run, made)
    r, g, p, top = gen(run, n)
    r = run.items_of(r)
    run.ensure("one function", len(made) == 1)
    d = made[0]
    sig = z3.If(z3.Contains(t.t, SV("(")), t.t, concat(t.t, SV("()")))
    run.ensure("with the signature as written", d.ghost["source"] == concat(SV("function "), sig, SV("{}")))
    check_frame(run, d, kidout(run, n))
    calls = g.ghost["calls"]
    if run.truth(top):
        run.ensure("a top level def is registered under its name, once", len(r) == 0 and len(calls) == 1 and calls[0][0] == "add_top_def" and calls[0][1][1] is d)
        run.ensure("by the name of the function", run.eq(calls[0][1][0], run.getattr(run.getattr(d, "identifier"), "value")))
    else:
        run.ensure("any other def is defined in place", len(r) == 1 and r[0] is d and not calls)


@unit("jsgen.JsBlockNode", ["C20"], JG + ":JsBlockNode.generate_ast", trusted=[T_FRAG, T_ECMA])
def _(run):
    """block: a function of the template, called in place by its name; in an extending template only defined"""
    setup(run)
    t = run.str("name", input=True)
    n = node(run, "JsBlockNode", t)
    made = []
    function_hook(run, made)
    g, p, top = gen_parent(run)
    ext = run.pick(2)
    p.ghost["isinstance"] = lambda run, v, c: c is cls(JG + ":JsExtendsNode") and bool(ext)
    r = run.call(run.getattr(n, "generate_ast"), [g, p], {})
    run.ensure("one function", len(made) == 1)
    d = made[0]
    run.ensure("of that name", d.ghost["source"] == concat(SV("function "), t.t, SV(" () {}")))
    check_frame(run, d, kidout(run, n))
    calls = g.ghost["calls"]
    run.ensure("the block is registered once", len(calls) == 1 and calls[0][0] == "add_block" and calls[0][1][1] is d)
    run.ensure("under its name", run.eq(calls[0][1][0], t))
    run.ensure("inside extends it is not called, elsewhere it is called in place", out(run, r) == (SV("") if ext else CALLED(t.t)))


@unit("jsgen.JsAttrsNode", ["C20"], JG + ":JsAttrsNode.generate_ast", trusted=[T_FRAG, T_ECMA])
def _(run):
    setup(run)
    t = source_text(run, "expression")
    n = node(run, "JsAttrsNode", t, children=False)
    run.ensure("the attributes of the list are written", out(run, gen(run, n)[0]) == OATTRS(TREE(t.t)))


@unit("jsgen.JsAttributeNode", ["C20"], JG + ":JsAttributeNode.generate_ast", trusted=[T_FRAG, T_JSON, T_ECMA])
def _(run):
    """an attribute that is one expression is a boolean attribute of its value; any other is name="parts" """
    setup(run)
    run.memo["not of class"] = ("JsExpressionNode",)      # a child that is one is made as one
    name = run.str("name", input=True)
    n = node(run, "JsAttributeNode", name, None)
    kids = run.getattr(n, "children")
    run.memo["want exprs"] = True
    which = run.pick(5)
    if which in (0, 1):
        t = source_text(run, "expression")
        e = node(run, "JsExpressionNode", t, children=False)
        e.ghost["tok"] = ESCV(TREE(t.t))
        kids.items = [e] if which == 0 else [e, child(run, "b")]
    else:
        kids.items = [[child(run, "a"), child(run, "b"), Seg("kids", child)], [child(run, "a")], []][which - 2]
    want = BATTR(name.t, TREE(t.t)) if which == 0 else concat(SV(" "), name.t, SV('="'), run.fold_term(KID, kids.items), SV('"'))
    run.ensure("the attribute is written once, with every part of its value", out(run, gen(run, n)[0]) == want)


@unit("jsgen.JsComplexExprNode", ["C20"], JG + ":JsComplexExprNode.generate_ast")
def _(run):
    setup(run)
    n = node(run, "JsComplexExprNode")
    run.memo["want exprs"] = True
    run.ensure("every part is written once, in order", out(run, gen(run, n)[0]) == kidout(run, n))


@unit("jsgen.JsCodeNode", ["C20"], JG + ":JsCodeNode.generate_ast", trusted=[T_FRAG])
def _(run):
    setup(run)
    t = run.str("source", input=True)
    n = node(run, "JsCodeNode", t, children=False)
    seg = stmt_seg(run, "code")
    run.memo["exec hook"] = lambda run, e: (run.ensure("the statements are those of the given source", zs(e) == t.t), SymList([seg]))[1]
    run.ensure("code is inserted in place", out(run, gen(run, n)[0]) == run.fold_term(JSTM, [seg]))


def check_varscope(run, r, want):
    run.ensure("a function and its call", len(r) == 2 and is_(r[0], "FuncDecl") and is_(r[1], "ExprStatement"))
    f, c = r[0], run.getattr(r[1], "expr")
    run.ensure("the call is one", is_(c, "FunctionCall"))
    run.ensure("the function is called by its name", run.eq(run.getattr(run.getattr(c, "identifier"), "value"), run.getattr(run.getattr(f, "identifier"), "value")))
    run.ensure("it has no parameters, so that every name is the one around it", not run.items_of(run.getattr(f, "parameters")) and not args_of(run, c))
    run.ensure("the statements are all there, in order", run.fold_term(JSTM, run.items_of(run.getattr(f, "elements"))) == want)


@unit("jsgen.generate_varscope", ["C20"], JG + ":JavascriptNode.generate_varscope", trusted=[T_ECMA])
def _(run):
    """a variable scope is a function without parameters, called once in place, that writes to the same buffer"""
    history(run, JG)
    setup(run)
    n = node(run, "JsIfNode", run.str("e"), children=False)
    body = SymList([stmt_seg(run, "body")] if run.pick(2) else [])
    want = run.fold_term(JSTM, body.items)
    r = run.items_of(run.call(run.getattr(n, "generate_varscope"), [body], {}))
    check_varscope(run, r, want)
    r2 = run.items_of(run.call(run.getattr(n, "generate_varscope"), [SymList([])], {}))
    name = lambda r: run.getattr(run.getattr(r[0], "identifier"), "value")
    run.ensure("two scopes have different names", NOT(zb(run.eq(name(r), name(r2)))))


ASSIGNMENTS = Fold("all are expression statements", "all", lambda run, x: is_(x, "ExprStatement"))


@unit("jsgen.JsWithNode", ["C20"], JG + ":JsWithNode.generate_ast", trusted=[T_FRAG, T_ECMA])
def _(run):
    """with: the assignments first, then the children, in a scope of their own; anything but assignments is rejected"""
    history(run, JG)
    setup(run)
    t = run.str("vars", input=True)
    n = node(run, "JsWithNode", t)

    def mk(run, nm):
        o = Obj(k("ExprStatement") if run.pick(2) else k("FuncDecl"), name=nm)
        o.ghost["tok"] = z3.String(run.name("output of " + nm))
        return o
    seg = Seg("assignments", mk)
    run.loops["assignments"] = Loop(lambda ctx: None, lambda ctx: [("all before are assignments", run.fold_term(ASSIGNMENTS, ctx.pre))])
    run.memo["exec hook"] = lambda run, e: (run.ensure("the assignments are the given source", zs(e) == t.t), SymList([seg]))[1]
    g, p, _ = gen_parent(run)
    try:
        r = run.items_of(run.call(run.getattr(n, "generate_ast"), [g, p], {}))
    except PyExc as e:
        run.ensure("rejected with a template syntax error", is_kind(e.value, "TemplateSyntaxError"))
        return
    run.ensure("only assignments are accepted", run.fold_term(ASSIGNMENTS, [seg]))
    check_varscope(run, r, concat(run.fold_term(JSTM, [seg]), kidout(run, n)))


def is_kind(v, name):
    return isinstance(v, Obj) and any(c.__name__ == name for c in v.kinds)


@unit("jsgen.JsExtendsNode", ["C20"], JG + ":JsExtendsNode.generate_ast", trusted=[T_ECMA])
def _(run):
    """the template extends the one named, and its definitions are generated at the top level"""
    setup(run)
    href = run.str("href", input=True)
    n = node(run, "JsExtendsNode", href)
    r, g, p, _ = gen(run, n)
    calls = g.ghost["calls"]
    run.ensure("the template extends the named template", len(calls) == 1 and calls[0][0] == "make_extended_template" and calls[0][1][0] is href)
    run.ensure("its definitions are generated", out(run, r) == kidout(run, n))
    run.ensure("they are top level definitions", run.getattr(n, "is_top_level") is True)


@unit("jsgen.make_extended_template", ["C20"], JG + ":Generator.make_extended_template")
def _(run):
    """the name of the parent template is kept as it is, and is the only thing that changes"""
    g = run.call(cls(JG + ":Generator"), [opaque(run, "tree")], {})
    run.ensure("a new template extends none", run.getattr(g, "extended_href") is None)
    href = run.str("href", input=True)
    before = dict(g.fields)
    run.call(run.getattr(g, "make_extended_template"), [href], {})
    run.ensure("the name is kept", run.getattr(g, "extended_href") is href)
    run.ensure("nothing else changes", all(g.fields[a] is v for a, v in before.items() if a != "extended_href"))


@unit("jsgen.Generator.registries", ["C20"], JG + ":Generator.add_block", trusted=[T_ECMA])
def _(run):
    """blocks, defs and imports are kept in order, each registered in the context, and their names are known"""
    setup(run)
    g = run.call(cls(JG + ":Generator"), [opaque(run, "tree")], {})
    for a in ("blocks", "top_defs", "imports"):
        run.getattr(g, a).items = [Seg(a, lambda run, nm: opaque(run, nm))]
    for which, attr in (("add_block", "blocks"), ("add_top_def", "top_defs"), ("add_top_level_import", "imports")):
        name = run.str("name")
        d = run.call(k("FuncDecl"), [Obj(k("Identifier"), dict(value=name)), SymList([]), SymList([])], {})
        before = {a: list(run.getattr(g, a).items) for a in ("blocks", "top_defs", "imports")}
        run.call(run.getattr(g, which), [name, d], {})
        for a in before:
            now = run.getattr(g, a).items
            run.ensure("%s adds one statement at the end of %s and nothing elsewhere" % (which, attr), now[:len(before[a])] == before[a] and len(now) == len(before[a]) + (a == attr))
        run.ensure("%s: the name is known" % which, run.getattr(g, "top_level_names").mem(zs(name)))
        s = run.getattr(g, attr).items[-1]
        if which == "add_top_level_import":
            run.ensure("the import itself", s is d)
            continue
        c = run.getattr(s, "expr") if is_(s, "ExprStatement") else None
        run.ensure("%s registers the function" % which, is_(c, "FunctionCall") and ident(run, run.getattr(c, "identifier")) == "__TK__ctxadd")
        a = args_of(run, c)
        run.ensure("%s in the context" % which, len(a) == 3 and ident(run, a[0]) == "__TK__context" and a[2] is d)
        run.ensure("%s under its name" % which, strval(run, a[1]) == name.t)


@unit("jsgen.get_fragment_ast", ["C20"], JG + ":get_fragment_ast", trusted=["slimit's parser gives the syntax tree of the text", "a syntax tree is not a text"])
def _(run):
    """the syntax tree of the text: one expression, or all statements; a tree is given back as it is"""
    P = cls(JG + ":Parser")
    t = run.str("source", input=True)
    tree = Obj(k("BinOp"))
    if run.pick(2):
        run.ensure("a tree is kept", run.call(fn(JG + ":get_fragment_ast"), [tree], {}) is tree)
        return
    st = run.call(k("ExprStatement"), [tree], {})
    prog = run.call(k("Program"), [SymList([st])], {})
    asked = []
    run.models[P] = lambda run, a, kw: opaque(run, "parser", getattr=lambda run, v, at: Native(lambda run, a, kw: asked.append(a[0]) or prog, at) if at == "parse" else MISSING)
    mode = ["eval", "exec", None][run.pick(3)]
    r = run.call(fn(JG + ":get_fragment_ast"), [t] if mode is None else [t, mode], {})
    run.ensure("the whole text is parsed, once", len(asked) == 1)
    run.ensure("as it is", zs(asked[0]) == t.t)
    if mode == "exec":
        run.ensure("all its statements", [x is st for x in run.items_of(r)] == [True])
    else:
        run.ensure("the expression", r is tree)
