"""tonnikala.languages.python.generator: from language nodes to the Python program that renders the template"""
from .lib import *

PG = "tonnikala.languages.python.generator"
LB = "tonnikala.languages.base"
T_FRAG = "get_fragment_ast by its contract: the syntax tree of exactly the given text (unit pygen.get_fragment_ast)"

# --------------------------------------------------------------------------- what generated statements do
ESCV = z3.Function("escaped_value", IntS, StrS)           # output of the escaped value of an expression
RAWV = z3.Function("written_value", IntS, StrS)           # output of a value written as it is
GT = z3.Function("gettext_of", StrS, StrS)
EGT = z3.Function("escaped_gettext_of", StrS, StrS)
OATTRS = z3.Function("attributes_of", IntS, StrS)
BATTR = z3.Function("boolean_attribute", StrS, IntS, StrS)
CALLED = z3.Function("result_of_calling", StrS, StrS)
FORX = z3.Function("for_loop", IntS, StrS, StrS)          # (header, output of one round)
LITV = z3.Function("value_of_text", StrS, IntS)
LITERAL = z3.Function("literal_of", IntS, IntS)


def name_of(run, x):
    if isinstance(x, Obj) and x.kinds == [ast.Name]:
        return run.getattr(x, "id")
    return None


def val(run, x):
    """ghost identity of the value of an expression"""
    if isinstance(x, Obj) and "val" in x.ghost:
        unchanged(x)
        return x.ghost["val"]
    if isinstance(x, Obj) and x.kinds == [ast.Constant]:
        return LITV(zs(run.getattr(x, "value")))
    if isinstance(x, Obj) and x.kinds == [ast.Call] and name_of(run, run.getattr(x, "func")) == "literal":
        return LITERAL(val(run, run.items_of(run.getattr(x, "args"))[0]))
    raise Unsupported("value of %r" % (x,))


def den_arg(run, x):
    """what writing an argument of __TK__output(...) outputs"""
    if not isinstance(x, Obj):
        raise Unsupported("output of %r" % (x,))
    if "tok" in x.ghost:
        unchanged(x)
        return x.ghost["tok"]
    if "val" in x.ghost:
        unchanged(x)
        return RAWV(x.ghost["val"])
    if x.kinds == [ast.Constant]:
        return zs(run.getattr(x, "value"))
    if x.kinds == [ast.Call]:
        n = name_of(run, run.getattr(x, "func"))
        args = run.items_of(run.getattr(x, "args"))
        if run.items_of(run.getattr(x, "keywords")):
            raise Unsupported("keywords")
        if n == "__TK__escape" and len(args) == 1:
            return escv(run, args[0])
        if n in ("gettext", "egettext") and len(args) == 1:
            return (GT if n == "gettext" else EGT)(zs(run.getattr(args[0], "value")))
        if n == "__TK__output_attrs" and len(args) == 1:
            return OATTRS(val(run, args[0]))
        if len(args) == 0 and n is not None:
            return CALLED(zs(n))
    return RAWV(val(run, x))


def escv(run, x):
    v = val(run, x)
    if z3.is_app(v) and v.decl().eq(LITERAL):
        return RAWV(v.arg(0))       # literal(x) is markup, which escaping leaves alone: the text of x
    return ESCV(v)


ARGS = Fold("args", "str", den_arg)


def den_stmt(run, x):
    """what a generated statement outputs"""
    if not isinstance(x, Obj):
        raise Unsupported("statement %r" % (x,))
    if "tok" in x.ghost:
        unchanged(x)
        return x.ghost["tok"]
    k = x.kinds
    if k == [ast.Pass]:
        return SV("")
    if k == [ast.Expr]:
        c = run.getattr(x, "value")
        if isinstance(c, Obj) and c.kinds == [ast.Call]:
            f = run.getattr(c, "func")
            args = run.items_of(run.getattr(c, "args"))
            if name_of(run, f) == "__TK__output":
                return run.fold_term(ARGS, args)
            if isinstance(f, Obj) and f.kinds == [ast.Attribute] and name_of(run, run.getattr(f, "value")) == "__TK__output" and run.getattr(f, "attr") == "output_boolean_attr" and len(args) == 2:
                return BATTR(zs(run.getattr(args[0], "value")), val(run, args[1]))
    if k == [ast.If]:
        t = test_truth(run, run.getattr(x, "test"))
        return z3.If(t, run.fold_term(STM, run.items_of(run.getattr(x, "body"))), run.fold_term(STM, run.items_of(run.getattr(x, "orelse"))))
    if k == [ast.For]:
        if any(run.getattr(x, n) is not v for n, v in x.ghost["parts"].items()) or len(run.items_of(x.ghost["parts"]["orelse"])):
            return z3.String(run.name("output of another loop"))
        return FORX(x.ghost["header"], run.fold_term(STM, run.items_of(run.getattr(x, "body"))))
    raise Unsupported("statement %r" % (x,))


STM = Fold("statements", "str", den_stmt)


def test_truth(run, e):
    if isinstance(e, Obj) and "truth" in e.ghost:
        return e.ghost["truth"]
    if isinstance(e, Obj) and e.kinds == [ast.UnaryOp] and run.truth(mkb(run.isinstance(run.getattr(e, "op"), ast.Not))):
        return NOT(test_truth(run, run.getattr(e, "operand")))
    raise Unsupported("truth of %r" % (e,))




def part(run, o, name, v):
    """a field of an arbitrary tree: an arbitrary value, the same whenever it is asked for"""
    if not getattr(o, "probe", False):
        o.ghost.setdefault("parts", {})[name] = v
    return v


def expr_schema(run, o, name):
    if not any(name in k._fields for k in o.kinds) or name in ("lineno", "col_offset"):
        return MISSING
    if len(o.kinds) > 1:
        odd = {"value": (ast.Constant, ast.Yield), "args": (ast.Lambda,)}.get(name, ())
        run.narrow(o, [[k for k in o.kinds if name in k._fields and k not in odd]] + [[k] for k in o.kinds if k in odd] + [[k for k in o.kinds if name not in k._fields]])
        if name not in o.kinds[0]._fields:
            return MISSING
    k = o.kinds[0]
    if k is ast.Constant and name == "value":
        return part(run, o, name, any_value(run, "constant"))
    if name in ("id", "attr"):
        return part(run, o, name, run.str(name))
    if name in ("func", "value", "left", "right", "body", "operand", "test", "orelse", "target", "elt", "slice") and k is not ast.Yield:
        return part(run, o, name, any_expr(run, name))
    if name in ("args", "elts", "values", "comparators") and k is not ast.Lambda:
        return part(run, o, name, SymList([Seg(run.name(name), any_expr)]))
    raise Unsupported("the field %s of an arbitrary %s" % (name, k.__name__))


def any_expr(run, nm):
    """an arbitrary expression"""
    return Obj(EXPR_KINDS, name=nm, schema=expr_schema)


def stmt_schema(run, o, name):
    if not any(name in k._fields for k in o.kinds):
        return MISSING
    if len(o.kinds) > 1:
        odd = {"value": (ast.Return, ast.AnnAssign), "name": (ast.TypeAlias,)}.get(name, ())
        run.narrow(o, [[k for k in o.kinds if name in k._fields and k not in odd]] + [[k] for k in o.kinds if k in odd] + [[k for k in o.kinds if name not in k._fields]])
        if name not in o.kinds[0]._fields:
            return MISSING
    k = o.kinds[0]
    if name in ("value", "test", "iter", "target") and k not in (ast.Return, ast.AnnAssign):
        return part(run, o, name, any_expr(run, name))
    if name in ("body", "orelse"):
        return part(run, o, name, SymList([Seg(run.name(name), any_stmt)]))
    if name == "targets" and k is ast.Assign:
        return part(run, o, name, SymList([any_expr(run, "target")]))
    if name == "name" and k is not ast.TypeAlias:
        return part(run, o, name, run.str("name"))
    raise Unsupported("the field %s of an arbitrary %s" % (name, k.__name__))


def any_stmt(run, nm):
    """an arbitrary statement"""
    return Obj(STMT_KINDS, name=nm, schema=stmt_schema)


def unchanged(o):
    """what is known of the tree as a whole holds as long as its parts are what they were"""
    ps = o.ghost.get("parts", {})
    for n, v in o.fields.items():
        if n in ps and ps[n] is not v or n not in ps and o.schema in (expr_schema, stmt_schema) and any(n in k._fields for k in o.kinds):
            raise Unsupported("a part of %s is replaced" % o.name)


def expr_seg(run, name):
    def mk(run, nm):
        o = any_expr(run, nm)
        o.ghost["tok"] = z3.String(run.name("output of " + nm))
        return o
    return Seg(run.name(name), mk)


def stmt_seg(run, name):
    def mk(run, nm):
        o = any_stmt(run, nm)
        o.ghost["tok"] = z3.String(run.name("output of " + nm))
        return o
    return Seg(run.name(name), mk)


TREE = z3.Function("value_of_source", StrS, IntS)


def stub_fragment(run, log):
    """contract of get_fragment_ast(text): the syntax tree of the text"""
    def f(run, a, k):
        e = a[0]
        mode = k.get("mode", a[1] if len(a) > 1 else "eval")
        if not run.is_strlike(e):
            return e
        pos = run.getattr(e, "position", default=(1, 0)) if isinstance(e, Obj) else (1, 0)
        log.append((zs(e), pos, mode))
        if mode == "eval":
            o = any_expr(run, "expression")
            o.ghost["val"] = TREE(zs(e))
            o.ghost["truth"] = z3.Bool(run.name("truth"))
            for at in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
                o.fields[at] = run.int(at)
            run.memo.setdefault("exprs", []).append(o)
            return o
        hook = run.memo.get("exec hook")
        if hook is not None:
            return hook(run, e, pos)
        raise Unsupported("statements from source")
    stub(run, PG + ":get_fragment_ast", f)


def of_some_class(run, o, but=()):
    """the class of a node is asked for: any class of the generator is possible"""
    def isinst(run, v, c):
        if not isinstance(c, type) or c.__module__ not in (PG, "tonnikala.languages.javascript.generator"):
            return False
        if c.__name__ in run.memo.get("not of class", ()):
            return False
        run.memo["class known", id(v)] = True
        return run.memo_bool(("isinstance", v, c), "isinstance_%s_%s" % (v.name, c.__name__))
    o.ghost["isinstance"] = isinst


def child(run, nm):
    """a child node known by the contract of generate_ast / get_expressions: its statements output its token"""
    o = opaque(run, nm)
    o.ghost["tok"] = z3.String(run.name("output of child"))

    def gen(run, a, k):
        s = stmt_seg(run, "statements of child")
        run.assume(run.fold_term(STM, [s]) == o.ghost["tok"])
        o.ghost["parent"] = a[1] if len(a) > 1 else None
        return SymList([s])

    def exprs(run, a, k):
        s = expr_seg(run, "exprs")
        run.assume(run.fold_term(ARGS, [s]) == o.ghost["tok"])
        return SymList([s])

    def expr(run, a, k):
        e = any_expr(run, "expr of child")
        e.ghost["tok"] = o.ghost["tok"]
        return e
    single = z3.Bool(run.name("has get_expression"))
    base = o.ghost["getattr"]
    of_some_class(run, o)

    def ga(run, v, attr):
        if attr == "generate_ast":
            return Native(gen, attr)
        if attr == "get_expressions":
            return Native(exprs, attr)
        if attr == "get_expression":
            return Native(expr, attr) if run.fork(single) else MISSING
        if ("class known", id(v)) in run.memo:
            raise Unsupported("%s of a child of a known class" % attr)
        return base(run, v, attr)
    o.ghost["getattr"] = ga
    o.ghost["hasattr"] = lambda run, v, a: single if a == "get_expression" else a in ("generate_ast", "get_expressions")
    return o


KID = Fold("children", "str", lambda run, x: x.ghost["tok"])


def loops(run):
    """invariants of the loops of the code generation helpers"""
    def hav(name, mk):
        def h(ctx):
            ctx.set(name, SymList([mk(run, name)]))
        return h
    run.loops["kids"] = Loop(hav("rv", stmt_seg), lambda ctx: [("the output so far", run.fold_term(STM if not run.memo.get("want exprs") else ARGS, ctx.get("rv").items) == run.fold_term(KID, ctx.pre))])
    entry = {}

    def inv_exprs(ctx):
        rv = ctx.get("rv")
        if not ctx.pre:
            entry[ctx.seg.uid] = run.fold_term(STM, rv.items)
        return [("the output so far", run.fold_term(STM, rv.items) == concat(entry[ctx.seg.uid], run.fold_term(ARGS, ctx.pre)))]
    run.loops["exprs"] = Loop(hav("rv", stmt_seg), inv_exprs)


def pnode(run, name, *args, **kw):
    """a node made by the real constructor, with arbitrary children"""
    o = run.call(cls(PG + ":" + name) if not kw.get("fn") else fn(PG + ":" + name), list(args), {})
    if isinstance(o, Obj) and kw.get("children", True):
        kids = run.getattr(o, "children")
        seg = Seg(run.name("kids"), child)
        if kids.items:
            raise Unsupported("children at construction")
        kids.items = [seg]
        o.ghost["kids"] = seg
    return o


def parent_is(run, v, c, top):
    """the parent is a node of one of the concrete classes of the generator, a top level one or not"""
    if not isinstance(c, type) or c.__module__ not in (PG, "tonnikala.languages.javascript.generator"):
        return c is object
    base = cls("tonnikala.languages.base:LanguageNode")
    cs = [x for x in vars(__import__(c.__module__, fromlist=["x"])).values() if isinstance(x, type) and issubclass(x, base) and x.__module__ == c.__module__]
    n = z3.Int("class of the parent")
    if ("class of the parent", v) not in run.memo:
        run.memo["class of the parent", v] = True
        run.assume(OR(*[n == i for i in range(len(cs))]))
        tt = run.truth_term(top) if not isinstance(top, bool) else z3.BoolVal(top)
        run.assume(tt == OR(*[n == i for i, x in enumerate(cs) if x.is_top_level]))
    return OR(*([n == i for i, x in enumerate(cs) if issubclass(x, c)] or [z3.BoolVal(False)]))


def gen_parent(run, top=None):
    t = run.bool("parent is top level") if top is None else top
    def ga(run, v, a):
        if a == "is_top_level":
            return t
        if a == "children":
            return v.ghost.setdefault("children", SymList([Seg("nodes of the parent", child)]))
        return MISSING
    parent = opaque(run, "parent", getattr=ga, truth=True)
    parent.ghost["isinstance"] = lambda run, v, c: parent_is(run, v, c, t)
    g = opaque(run, "generator")
    g.ghost["calls"] = []
    g.ghost["getattr"] = lambda run, v, a: Native(lambda run, args, k: g.ghost["calls"].append((a, args)), a) if a.startswith(("add_", "make_extended")) else opaque(run, a, contains=lambda run, v, x: run.memo_bool((a, zs(x).sexpr()), "among the " + a)) if a == "top_level_names" else MISSING
    return g, parent, t


def out(run, stmts):
    return run.fold_term(STM, run.items_of(stmts))


def setup(run):
    log = []
    stub_fragment(run, log)
    loops(run)
    return log


@unit("pygen.PyOutputNode", ["C02", "C01"], PG + ":PyOutputNode.generate_ast")
def _(run):
    """static text is written as it is, once"""
    setup(run)
    t = run.str("text", input=True)
    n = pnode(run, "PyOutputNode", t, children=False)
    g, p, _ = gen_parent(run)
    run.ensure("the statements write the text", out(run, run.call(run.getattr(n, "generate_ast"), [g, p], {})) == t.t)
    run.ensure("so do the expressions", run.fold_term(ARGS, run.items_of(run.call(run.getattr(n, "get_expressions"), [], {}))) == t.t)


@unit("pygen.PyTranslatableOutputNode", ["C15", "C01"], PG + ":PyTranslatableOutputNode.get_expression")
def _(run):
    """translatable text is written as gettext of exactly that text, escaped when the text itself would have been"""
    setup(run)
    t = run.str("text", input=True)
    esc_ = run.bool("needs_escape", input=True)
    n = pnode(run, "PyTranslatableOutputNode", t, esc_, children=False)
    g, p, _ = gen_parent(run)
    want = z3.If(esc_.t, EGT(t.t), GT(t.t))
    run.ensure("the statements write the translation", out(run, run.call(run.getattr(n, "generate_ast"), [g, p], {})) == want)
    run.ensure("so do the expressions", run.fold_term(ARGS, run.items_of(run.call(run.getattr(n, "get_expressions"), [], {}))) == want)


@unit("pygen.PyExpressionNode", ["C01", "C14"], PG + ":PyExpressionNode.get_expression", trusted=[T_FRAG])
def _(run):
    """an interpolated expression is written through escape exactly once, on the line of the expression"""
    log = setup(run)
    t = run.str("expression", input=True)
    n = pnode(run, "PyExpressionNode", t, children=False)
    g, p, _ = gen_parent(run)
    run.ensure("the statements write the escaped value", out(run, run.call(run.getattr(n, "generate_ast"), [g, p], {})) == ESCV(TREE(t.t)))
    es = run.items_of(run.call(run.getattr(n, "get_expressions"), [], {}))
    run.ensure("so do the expressions", run.fold_term(ARGS, es) == ESCV(TREE(t.t)))
    e = run.memo["exprs"][-1]
    run.ensure("the call of escape is on the line of the expression", run.eq(run.getattr(es[0], "lineno"), run.getattr(e, "lineno")))
    u = run.call(run.getattr(n, "get_unescaped_expression"), [], {})
    run.ensure("the unescaped expression is the expression", val(run, u) == TREE(t.t))


@unit("pygen.generate_child_ast", ["C02", "C05"], PG + ":PyComplexNode.generate_child_ast")
def _(run):
    """the statements of all children, in order, each once"""
    setup(run)
    n = pnode(run, "PyIfNode", run.str("e"))
    g, p, _ = gen_parent(run)
    r = run.call(run.getattr(n, "generate_child_ast"), [g, p], {})
    run.ensure("the output of all children in order", out(run, r) == run.fold_term(KID, [n.ghost["kids"]]))


def stub_static(run):
    """contract of static_expr_to_bool: None, or the truth of the expression (unit pygen.static_expr_to_bool)"""
    def f(run, a, k):
        if run.pick(2):
            return None
        t = test_truth(run, a[0])
        return True if run.fork(t) else False
    stub(run, PG + ":static_expr_to_bool", f)


def if_unit(run, unless):
    log = setup(run)
    stub_static(run)
    t = run.str("expression", input=True)
    kept = []
    if unless:
        n = run.call(fn(PG + ":PyUnlessNode"), [Obj(cls(PG + ":Generator")), t], {})
        kids = run.getattr(n, "children")
        seg = Seg("kids", child)
        kids.items = [seg]
        n.ghost["kids"] = seg
    else:
        n = pnode(run, "PyIfNode", t)
    g, p, _ = gen_parent(run)
    r = run.call(run.getattr(n, "generate_ast"), [g, p], {})
    es = run.memo.get("exprs", [])
    run.ensure("the condition is the given expression", len(es) >= 1 and all(l[0].eq(t.t) for l in log))
    tv = es[0].ghost["truth"]
    if unless:
        tv = NOT(tv)
    run.ensure("the children are written exactly when the condition holds", out(run, r) == z3.If(tv, run.fold_term(KID, [n.ghost["kids"]]), SV("")))


unit("pygen.PyIfNode", ["C05", "C08"], PG + ":PyIfNode.generate_ast", trusted=[T_FRAG])(lambda run: if_unit(run, False))
unit("pygen.PyUnlessNode", ["C05", "C08"], PG + ":PyUnlessNode", trusted=[T_FRAG])(lambda run: if_unit(run, True))


@unit("pygen.static_expr_to_bool", ["C05"], PG + ":static_expr_to_bool", trusted=["ast.literal_eval returns the value of the expression or raises"])
def _(run):
    """a condition decided at compile time is decided as it would be at run time; recursive evaluation by its own
    contract (induction over the height of the expression): the value of the part, or an exception"""
    def expr(nm):
        x = Obj([c for c in EXPR_KINDS if c is not ast.UnaryOp], name=nm)
        x.ghost["truth"] = z3.Bool("truth of " + nm)
        return x

    def value(run, x):
        if run.pick(2):
            # what ast.literal_eval is documented to raise
            run.throw([ValueError, TypeError, SyntaxError, MemoryError, RecursionError][run.pick(5)], "malformed")
        v = any_value(run, "value")
        if isinstance(v, Opaque):
            v.ghost["truth"] = x.ghost["truth"]
        else:
            t = run.truth_term(v)
            run.assume(x.ghost["truth"] == (z3.BoolVal(t) if isinstance(t, bool) else t))
        return v
    e = expr("the expression")
    x = e
    if run.pick(2):
        part = e
        if run.pick(2):
            # not (not ...(part)): the negations may be evaluated without recursion
            part = Obj(ast.UnaryOp, dict(op=Obj(ast.Not), operand=e), name="inner")
            part.ghost["truth"] = NOT(e.ghost["truth"])
        op = Obj([ast.Not, ast.USub, ast.Invert, ast.UAdd])
        x = Obj(ast.UnaryOp, dict(op=op, operand=part), name="whole")
        x.ghost["truth"] = NOT(part.ghost["truth"]) if run.truth(mkb(run.isinstance(op, ast.Not))) else z3.Bool("truth of the whole")

    def lit(run, a, k):
        if not (isinstance(a[0], Obj) and "truth" in a[0].ghost):
            raise Unsupported("literal_eval of %r" % (a[0],))
        return value(run, a[0])
    run.models[ast.literal_eval] = lit
    run.recursion = lambda run, f, a, k: lit(run, a, k)
    r = run.call(fn(PG + ":static_expr_to_bool"), [x], {})
    if r is not None:
        run.ensure("the value decided is the truth of the expression", run.truth_term(r) == x.ghost["truth"])
        run.ensure("the result is a boolean", isinstance(r, (bool, SymBool)))


def header_hook(run, cls_, want_prefix):
    """contract of get_fragment_ast for "for <header>: pass" / "def <header>: pass": one statement with that header"""
    made = []

    def hook(run, e, pos):
        t = zs(e)
        s = Obj(cls_)
        s.ghost["source"] = t
        s.ghost["header"] = TREE(t)
        s.ghost["pos"] = pos
        s.fields["body"] = SymList([Obj(ast.Pass)])
        if cls_ is ast.FunctionDef:
            s.fields["name"] = run.str("defined name")
        if cls_ is ast.For:
            s.ghost["parts"] = dict(target=any_expr(run, "target"), iter=any_expr(run, "iterable"), orelse=SymList([]))
            s.fields.update(s.ghost["parts"])
        made.append(s)
        return SymList([s])
    run.memo["exec hook"] = hook
    return made


@unit("pygen.PyForNode", ["C05", "C14"], PG + ":PyForNode.generate_ast", trusted=[T_FRAG])
def _(run):
    """a loop is the Python for statement with the header as written, its body the children"""
    log = setup(run)
    t = run.str("header", input=True)
    line, col = run.int("line"), run.int("col")
    located = run.pick(2)
    h = Obj(cls("tonnikala.helpers:StringWithLocation"), dict(position=(line, col)), sval=t) if located else t
    n = pnode(run, "PyForNode", h, SymList([]))
    made = header_hook(run, ast.For, "for ")
    g, p, _ = gen_parent(run)
    r = run.call(run.getattr(n, "generate_ast"), [g, p], {})
    items = run.items_of(r)
    run.ensure("one statement", len(items) == 1 and len(made) == 1 and items[0] is made[0])
    run.ensure("with the header as written", made[0].ghost["source"] == concat(SV("for "), t.t, SV(": pass")))
    run.ensure("and the children as its body", out(run, r) == FORX(made[0].ghost["header"], run.fold_term(KID, [n.ghost["kids"]])))
    run.ensure("a body is never empty", run.truth_term(run.getattr(made[0], "body")))
    pl, pc = made[0].ghost["pos"]
    if located:
        run.ensure("the header is located where it was written", A(zi(pl) == line.t, zi(pc) == col.t - 4))


def bufframe(run, body):
    """body of a function that makes its own buffer, writes to it and returns it: statements between the two, or None"""
    items = run.items_of(body)
    if len(items) < 2 or not all(isinstance(x, Obj) for x in (items[0], items[-1])):
        return None
    a, z = items[0], items[-1]
    if a.kinds != [ast.Assign] or z.kinds != [ast.Return]:
        return None
    t = run.items_of(run.getattr(a, "targets"))
    c = run.getattr(a, "value")
    if len(t) != 1 or name_of(run, t[0]) != "__TK__output" or run.truth(mkb(run.isinstance(run.getattr(t[0], "ctx"), ast.Store))) is not True:
        return None
    if c.kinds != [ast.Call] or name_of(run, run.getattr(c, "func")) != "__TK__mkbuffer" or run.items_of(run.getattr(c, "args")):
        return None
    if name_of(run, run.getattr(z, "value")) != "__TK__output":
        return None
    return items[1:-1]


@unit("pygen.make_buffer_frame", ["C05", "C07"], PG + ":PythonNode.make_buffer_frame")
def _(run):
    """a function body writes to a fresh buffer of its own and returns it"""
    n = pnode(run, "PyIfNode", run.str("e"), children=False)
    body = SymList([stmt_seg(run, "body")])
    want = run.fold_term(STM, body.items)
    r = run.call(run.getattr(n, "make_buffer_frame"), [body], {})
    mid = bufframe(run, r)
    run.ensure("new buffer, the statements, return of the buffer", mid is not None)
    run.ensure("the statements are all there, in order", run.fold_term(STM, mid) == want)


@unit("pygen.generate_varscope", ["C05", "C06", "C07"], PG + ":PythonNode.generate_varscope")
def _(run):
    """a variable scope is a function, called once in place, that writes to the same buffer"""
    history(run, PG)
    n = pnode(run, "PyIfNode", run.str("e"), children=False)
    body = SymList([stmt_seg(run, "body")] if run.pick(2) else [])
    want = run.fold_term(STM, body.items)
    r = run.items_of(run.call(run.getattr(n, "generate_varscope"), [body], {}))
    check_varscope(run, r, want)
    r2 = run.items_of(run.call(run.getattr(n, "generate_varscope"), [SymList([])], {}))
    run.ensure("two scopes have different names", NOT(zb(run.eq(run.getattr(r[0], "name"), run.getattr(r2[0], "name")))))


def history(run, mod):
    """names have been made before"""
    n = run.int("name_counter")
    run.assume(n.t >= 0)
    run.globals[(mod, "name_counter")] = n


def check_varscope(run, r, want):
    run.ensure("a function and its call", len(r) == 2 and all(isinstance(x, Obj) for x in r) and r[0].kinds == [ast.FunctionDef] and r[1].kinds == [ast.Expr])
    f, c = r[0], run.getattr(r[1], "value")
    ps = [run.getattr(a, "arg") for a in run.items_of(run.getattr(run.getattr(f, "args"), "args"))]
    args = [name_of(run, a) for a in run.items_of(run.getattr(c, "args"))]
    run.ensure("the function is called by its name", run.eq(name_of(run, run.getattr(c, "func")), run.getattr(f, "name")))
    run.ensure("the buffer and escape of the caller are handed on", ps == args and "__TK__output" in ps)
    b = run.items_of(run.getattr(f, "body"))
    run.ensure("the body is not empty", run.truth_term(SymList(b)))
    run.ensure("the statements are all there, in order", run.fold_term(STM, b) == want)


@unit("pygen.PyWithNode", ["C05", "C06"], PG + ":PyWithNode.generate_ast", trusted=[T_FRAG])
def _(run):
    """with: the assignments first, then the children, in a scope of their own"""
    history(run, PG)
    log = setup(run)
    t = run.str("vars", input=True)
    n = pnode(run, "PyWithNode", t)
    seg = stmt_seg(run, "assignments")
    run.memo["exec hook"] = lambda run, e, pos: (run.ensure("the assignments are the given source", zs(e) == t.t), SymList([seg]))[1]
    g, p, _ = gen_parent(run)
    r = run.items_of(run.call(run.getattr(n, "generate_ast"), [g, p], {}))
    check_varscope(run, r, concat(run.fold_term(STM, [seg]), run.fold_term(KID, [n.ghost["kids"]])))


@unit("pygen.PyCodeNode", ["C05", "C14"], PG + ":PyCodeNode.generate_ast", trusted=[T_FRAG])
def _(run):
    log = setup(run)
    t = run.str("source", input=True)
    n = pnode(run, "PyCodeNode", t, children=False)
    seg = stmt_seg(run, "code")
    run.memo["exec hook"] = lambda run, e, pos: (run.ensure("the statements are those of the given source", zs(e) == t.t), SymList([seg]))[1]
    g, p, _ = gen_parent(run)
    run.ensure("code is inserted in place", out(run, run.call(run.getattr(n, "generate_ast"), [g, p], {})) == run.fold_term(STM, [seg]))


@unit("pygen.PyDefineNode", ["C05", "C06", "C14"], PG + ":PyDefineNode.generate_ast", trusted=[T_FRAG])
def _(run):
    """def: the Python function with the signature as written ("()" added when there is none), its body the children in
    a buffer of its own; defined in place, or for the whole template at top level"""
    log = setup(run)
    t = run.str("funcspec", input=True)
    line, col = run.int("line"), run.int("col")
    h = Obj(cls("tonnikala.helpers:StringWithLocation"), dict(position=(line, col)), sval=t) if run.pick(2) else t
    n = pnode(run, "PyDefineNode", h)
    made = header_hook(run, ast.FunctionDef, "def ")
    g, p, top = gen_parent(run)
    r = run.items_of(run.call(run.getattr(n, "generate_ast"), [g, p], {}))
    run.ensure("one function", len(made) == 1)
    d = made[0]
    sig = z3.If(z3.Contains(t.t, SV("(")), t.t, concat(t.t, SV("()")))
    run.ensure("with the signature as written", d.ghost["source"] == concat(SV("def "), sig, SV(": pass")))
    mid = bufframe(run, run.getattr(d, "body"))
    run.ensure("the body has a buffer of its own", mid is not None)
    run.ensure("the body is the children", run.fold_term(STM, mid) == run.fold_term(KID, [n.ghost["kids"]]))
    if h is not t:
        pl, pc = d.ghost["pos"]
        run.ensure("the signature is located where it was written", A(zi(pl) == line.t, zi(pc) == col.t - 4))
    calls = g.ghost["calls"]
    is_top = run.truth(top)
    if is_top:
        run.ensure("a top level def is registered under its name, once", len(r) == 0 and len(calls) == 1 and calls[0][0] == "add_top_def" and calls[0][1][1] is d and calls[0][1][0] is d.fields["name"])
    else:
        run.ensure("any other def is defined in place", len(r) == 1 and r[0] is d and not calls)


@unit("pygen.PyBlockNode", ["C09", "C05", "C14", "C13"], PG + ":PyBlockNode.generate_ast", trusted=[T_FRAG])
def _(run):
    """block: a function of the template, called in place through its public name; in an extending template only defined; what
    cannot be a name in Python is rejected where it stands"""
    log = setup(run)
    t = run.str("name", input=True)
    line, col = run.int("line"), run.int("col")
    nm = Obj(cls("tonnikala.helpers:StringWithLocation"), dict(position=(line, col)), sval=t)
    n = pnode(run, "PyBlockNode", nm)
    made = header_hook(run, ast.FunctionDef, "def ")
    g, p, top = gen_parent(run)
    ext = run.pick(2)
    p.ghost["isinstance"] = lambda run, v, c: c is cls(PG + ":PyExtendsNode") and bool(ext)
    import keyword
    proper = A(z3.Function("str.isidentifier", StrS, BoolS)(t.t), *[t.t != SV(k) for k in keyword.kwlist])
    try:
        r = run.call(run.getattr(n, "generate_ast"), [g, p], {})
    except PyExc as e:
        run.ensure("only a template syntax error", isinstance(e.value, Obj) and e.value.kinds == [cls("tonnikala.runtime.exceptions:TemplateSyntaxError")])
        run.ensure("only for what is no name", NOT(proper))
        run.ensure_eq("at its line", run.getattr(e.value, "lineno"), line)
        return
    run.ensure("what is no name in Python is rejected", proper)
    run.ensure("one function", len(made) == 1)
    d = made[0]
    mid = bufframe(run, run.getattr(d, "body"))
    run.ensure("the body has a buffer of its own", mid is not None)
    run.ensure("the body is the children", run.fold_term(STM, mid) == run.fold_term(KID, [n.ghost["kids"]]))
    calls = g.ghost["calls"]
    run.ensure("the block is registered once under its name", len(calls) == 1 and calls[0][0] == "add_block" and calls[0][1][1] is d)
    run.ensure("under the name as written", A(zb(run.eq(calls[0][1][0], t))))
    fname = zs(calls[0][1][2])
    run.ensure("the function has the registered name, which is the block's own with the block prefix",
               A(d.ghost["source"] == concat(SV("def "), fname, SV("():pass")), fname == concat(SV("__TK__block__"), t.t)))
    run.ensure("inside extends it is not called, elsewhere it is called in place by its public name", out(run, r) == (SV("") if ext else CALLED(t.t)))
    if not ext and len(run.items_of(r)) == 1:
        x = run.items_of(run.getattr(run.getattr(run.items_of(r)[0], "value"), "args"))[0]
        run.ensure("the call is located at the block", A(zi(run.getattr(x, "lineno")) == line.t, zi(run.getattr(x, "col_offset")) == col.t))


@unit("pygen.PyExtendsNode", ["C09"], PG + ":PyExtendsNode.generate_ast")
def _(run):
    setup(run)
    href = run.str("href", input=True)
    n = pnode(run, "PyExtendsNode", href)
    g, p, _ = gen_parent(run)
    r = run.call(run.getattr(n, "generate_ast"), [g, p], {})
    run.ensure("the template extends the named template", len(g.ghost["calls"]) == 1 and g.ghost["calls"][0][0] == "make_extended_template" and g.ghost["calls"][0][1][0] is href)
    run.ensure("its definitions are generated", out(run, r) == run.fold_term(KID, [n.ghost["kids"]]))
    run.ensure("they are top level definitions", run.getattr(n, "is_top_level") is True)


@unit("pygen.PyImportNode", ["C10", "C06"], PG + ":PyImportNode.generate_ast")
def _(run):
    """import: alias = __TK__runtime.import_defs(__TK__original_context, href)"""
    setup(run)
    href, alias = run.str("href", input=True), run.str("alias", input=True)
    n = pnode(run, "PyImportNode", href, alias, children=False)
    g, p, top = gen_parent(run)
    r = run.items_of(run.call(run.getattr(n, "generate_ast"), [g, p], {}))
    calls = g.ghost["calls"]
    if run.truth(top):
        run.ensure("a top level import is registered under its alias", len(r) == 0 and len(calls) == 1 and calls[0][0] == "add_top_level_import")
        run.ensure("under the alias", run.eq(calls[0][1][0], alias))
        node = calls[0][1][1]
    else:
        run.ensure("any other import is done in place", len(r) == 1 and not calls)
        node = r[0]
    t = run.items_of(run.getattr(node, "targets"))
    run.ensure("the alias is assigned", len(t) == 1 and node.kinds == [ast.Assign])
    run.ensure("and nothing else", run.eq(name_of(run, t[0]), alias))
    c = run.getattr(node, "value")
    f = run.getattr(c, "func")
    args = run.items_of(run.getattr(c, "args"))
    run.ensure("from import_defs of the context and the href", f.kinds == [ast.Attribute] and run.getattr(f, "attr") == "import_defs" and name_of(run, run.getattr(f, "value")) == "__TK__runtime"
               and len(args) == 2 and name_of(run, args[0]) == "__TK__original_context")
    run.ensure("with the href as written", zs(run.getattr(args[1], "value")) == href.t)


@unit("pygen.PyAttrsNode", ["C08", "C01"], PG + ":PyAttrsNode.generate_ast", trusted=[T_FRAG])
def _(run):
    setup(run)
    t = run.str("expression", input=True)
    n = pnode(run, "PyAttrsNode", t, children=False)
    g, p, _ = gen_parent(run)
    run.ensure("the attributes of the mapping are written", out(run, run.call(run.getattr(n, "generate_ast"), [g, p], {})) == OATTRS(TREE(t.t)))


@unit("pygen.PyAttributeNode", ["C08", "C01", "C02", "C15"], PG + ":PyAttributeNode.generate_ast", trusted=[T_FRAG])
def _(run):
    """an attribute that is one expression is a boolean attribute of its value; any other is name="parts" """
    setup(run)
    run.memo["not of class"] = ("PyExpressionNode",)      # a child that is one is made as one
    name = run.str("name", input=True)
    n = pnode(run, "PyAttributeNode", name, None)
    g, p, _ = gen_parent(run)
    kids = run.getattr(n, "children")
    one = run.pick(2)
    if one:
        t = run.str("expression", input=True)
        e = pnode(run, "PyExpressionNode", t, children=False)
        kids.items = [e]
        want = BATTR(name.t, TREE(t.t))
    else:
        many = run.pick(4)
        kids.items = [[child(run, "a")], [child(run, "a"), child(run, "b")], [Seg("attrkids", child)], []][many]
        if many == 3:
            t = run.str("expression", input=True)
            e = pnode(run, "PyExpressionNode", t, children=False)
            e.ghost["tok"] = ESCV(TREE(t.t))
            kids.items = [e, child(run, "b")]
            want = None
        want = concat(SV(" "), name.t, SV('="'), run.fold_term(KID, kids.items), SV('"'))
        run.memo["want exprs"] = True

        entry = {}

        def hav(ctx):
            ctx.set("rv", SymList([expr_seg(run, "exprs")]))

        def inv(ctx):
            rv = run.fold_term(ARGS, ctx.get("rv").items)
            if not ctx.pre:
                entry[ctx.seg.uid] = rv
            return [("the parts so far", rv == concat(entry[ctx.seg.uid], run.fold_term(KID, ctx.pre)))]
        run.loops["attrkids"] = Loop(hav, inv)
        if many == 2:
            # one child only: it is not an expression (that case is above)
            kids.items = [child(run, "a"), child(run, "b")] + kids.items
            want = concat(SV(" "), name.t, SV('="'), run.fold_term(KID, kids.items), SV('"'))
    r = run.call(run.getattr(n, "generate_ast"), [g, p], {})
    run.ensure("the attribute is written once, with every part of its value", out(run, r) == want)


@unit("pygen.PyComplexExprNode", ["C02", "C01"], PG + ":PyComplexExprNode.generate_ast")
def _(run):
    setup(run)
    n = pnode(run, "PyComplexExprNode")
    run.memo["want exprs"] = True

    def hav(ctx):
        ctx.set("rv", SymList([expr_seg(run, "exprs")]))
    run.loops["kids"] = Loop(hav, lambda ctx: [("the parts so far", run.fold_term(ARGS, ctx.get("rv").items) == run.fold_term(KID, ctx.pre))])
    g, p, _ = gen_parent(run)
    r = run.call(run.getattr(n, "generate_ast"), [g, p], {})
    run.ensure("every part is written once, in order", out(run, r) == run.fold_term(KID, [n.ghost["kids"]]))


# --------------------------------------------------------------------------- registries of the generator
@unit("pygen.Generator.registries", ["C09", "C06", "C05"], PG + ":Generator.add_block")
def _(run):
    """blocks, defs and imports are kept in order, bound through the first-wins binder, and their names are known"""
    g = run.call(cls(PG + ":Generator"), [opaque(run, "tree")], {})
    for a in ("blocks", "top_defs", "imports"):
        run.getattr(g, a).items = [Seg(a, lambda run, nm: opaque(run, nm))]
    for which, attr, binder in (("add_block", "blocks", "__TK__bindblock"), ("add_top_def", "top_defs", None), ("add_top_level_import", "imports", None)):
        node = Obj(ast.FunctionDef, dict(decorator_list=SymList([])))
        name, fname = run.str("name"), run.str("fname")
        args = [name, node, fname] if which == "add_block" else [name, node]
        before = {a: list(run.getattr(g, a).items) for a in ("blocks", "top_defs", "imports")}
        run.call(run.getattr(g, which), args, {})
        for a in before:
            now = run.getattr(g, a).items
            run.ensure("%s adds the node at the end of %s and nowhere else" % (which, attr), now == before[a] + ([node] if a == attr else []))
        run.ensure("%s: the name is known" % which, run.getattr(g, "top_level_names").mem(zs(fname if which == "add_block" else name)))
        if which != "add_top_level_import":
            d = run.items_of(run.getattr(node, "decorator_list"))
            run.ensure("%s: exactly one binder decorates the function" % which, len(d) == 1 and name_of(run, d[0]) == "__TK__bindblock")
    href = run.str("href")
    run.ensure("nothing is extended until told", run.getattr(g, "extended_href") is None)
    run.call(run.getattr(g, "make_extended_template"), [href], {})
    run.ensure("the extended template is remembered", run.getattr(g, "extended_href") is href)


# --------------------------------------------------------------------------- coalescing outputs
def str_or_expr(run, nm):
    if run.pick(2):
        return Obj(ast.Constant, dict(value=run.str(nm + ".s")))
    o = Obj([c for c in EXPR_KINDS if c is not ast.Constant], name=nm, schema=expr_schema)
    o.ghost["tok"] = z3.String(run.name("output of " + nm))
    return o


@unit("pygen.coalesce_strings", ["C02", "C01"], PG + ":coalesce_strings")
def _(run):
    """joining adjacent texts keeps the output: same texts and expressions, in order"""
    f = fn(PG + ":coalesce_strings")
    seg = Seg("args", str_or_expr)

    def havoc(ctx):
        s = Seg(run.name("joined"), str_or_expr)
        if run.pick(2):
            x = Obj(ast.Constant, dict(value=run.str("open text")))
            ctx.modifies(x)
            ctx.set("rv", SymList([s, x]))
            ctx.set("str_on", x)
        else:
            ctx.set("rv", SymList([s]))
            ctx.set("str_on", None)

    def inv(ctx):
        rv, so = ctx.get("rv"), ctx.get("str_on")
        return [("the output so far", run.fold_term(ARGS, rv.items) == run.fold_term(ARGS, ctx.pre)),
                ("the text being extended is the last one", so is None or (len(rv.items) > 0 and rv.items[-1] is so))]
    run.loops["args"] = Loop(havoc, inv)
    want = run.fold_term(ARGS, [seg])
    r = run.call(f, [SymList([seg])], {})
    run.ensure("the output is the same", run.fold_term(ARGS, run.items_of(r)) == want)


def coalesce_setup(run):
    """runs coalesce_outputs up to the visitor class and gives an instance of it"""
    got = []

    def visit(run, a, k):
        got.append(a)
    run.models[ast.NodeVisitor.visit] = visit
    run.models[ast.NodeVisitor.generic_visit] = visit
    return got


def out_stmt(run, nm):
    """a statement: an output call with its arguments, or anything else"""
    if run.pick(2):
        seg = expr_seg(run, "arguments")
        args = SymList([seg])
        c = Obj(ast.Call, dict(func=Obj(ast.Name, dict(id="__TK__output", ctx=Obj(ast.Load))), args=args, keywords=SymList([])))
        e = Obj(ast.Expr, dict(value=c, output_args=SymList([seg])))
        e.ghost["tied"] = True
        return e
    o = Obj(STMT_KINDS, name=nm)
    o.ghost["tok"] = z3.String(run.name("output of " + nm))
    return o


@unit("pygen.OutputCoalescer.visit", ["C02", "C05"], PG + ":coalesce_outputs", trusted=["the recursive visit of the children by its own contract (induction over the height of the tree)", "coalesce_strings by its contract (unit pygen.coalesce_strings)", "arguments of one output call are not shared with another"])
def _(run):
    """joining adjacent output statements keeps what the body outputs, in order"""
    got = coalesce_setup(run)

    def cs(run, a, k):
        items = run.iter_items(a[0])
        s = expr_seg(run, "joined")
        run.assume(run.fold_term(ARGS, [s]) == run.fold_term(ARGS, items))
        return SymList([s])
    stub(run, PG + ":coalesce_strings", cs)
    seg = Seg("body", out_stmt)
    body = SymList([seg])
    node = Obj([c for c in vars(ast).values() if isinstance(c, type) and issubclass(c, ast.AST) and "body" in c._fields and c not in (ast.Lambda, ast.Expression, ast.IfExp)], dict(body=body))

    def mkout(run):
        s = expr_seg(run, "collected")
        c = Obj(ast.Call, dict(func=Obj(ast.Name, dict(id="__TK__output", ctx=Obj(ast.Load))), args=SymList([s]), keywords=SymList([])))
        e = Obj(ast.Expr, dict(value=c, output_args=SymList([expr_seg(run, "first")])))
        return e

    def havoc(ctx):
        s = stmt_seg(run, "new")
        if run.pick(2):
            e = mkout(run)
            for x in (e, e.fields["value"], e.fields["value"].fields["args"]):
                ctx.modifies(x)
            ctx.set("new_body", SymList([s, e]))
            ctx.set("output_node", e)
        else:
            ctx.set("new_body", SymList([s]))
            ctx.set("output_node", None)

    def inv(ctx):
        nb, on = ctx.get("new_body"), ctx.get("output_node")
        return [("the output so far", run.fold_term(STM, nb.items) == run.fold_term(STM, ctx.pre)),
                ("the call being extended is the last statement", on is None or (len(nb.items) > 0 and nb.items[-1] is on))]
    run.loops["body"] = Loop(havoc, inv)
    want = run.fold_term(STM, [seg])
    run.call(fn(PG + ":coalesce_outputs"), [node], {})
    run.ensure("the same list is changed in place", run.getattr(node, "body") is body)
    run.ensure("the body outputs the same, in order", run.fold_term(STM, body.items) == want)
    run.ensure("the children are visited", any(a[-1] is node for a in got))


@unit("pygen.OutputCoalescer.check", ["C01", "C02"], PG + ":coalesce_outputs", trusted=["ast.dump of two trees is equal exactly when the trees are"])
def _(run):
    """__TK__escape(literal(x)) is written as x, anything else stays: escaping is never lost or doubled"""
    got = coalesce_setup(run)

    def ast_equals(run, a, k):
        x, y = a
        if isinstance(x, Obj) and x.kinds == [ast.Name] and isinstance(y, Obj) and y.kinds == [ast.Name]:
            return run.eq(run.getattr(x, "id"), run.getattr(y, "id"))
        return False
    stub(run, PG + ":ast_equals", ast_equals)

    def load(id):
        return Obj(ast.Name, dict(id=id, ctx=Obj(ast.Load)))

    def call(f, *args):
        return Obj(ast.Call, dict(func=f, args=SymList(list(args)), keywords=SymList([])))

    def value(nm):
        o = Obj([c for c in EXPR_KINDS if c is not ast.Call], name=nm, schema=expr_schema)
        o.ghost["val"] = z3.Int(run.name(nm))
        if run.pick(2):
            o.kinds, o.schema = [ast.Call], None
            inner = Obj(ast.Name, name="x")
            inner.ghost["val"] = z3.Int(run.name("inner value"))
            f = Obj([ast.Attribute, ast.Lambda]) if run.pick(2) else load("str")
            o.fields.update(func=f, args=SymList([inner] if run.pick(2) else []), keywords=SymList([]))
        return o

    def argument(i):
        k = run.pick(8)
        if k == 7:
            # a method of that name is not the function
            r = call(Obj(ast.Attribute, dict(value=load("x"), attr="literal", ctx=Obj(ast.Load))), value("v"))
            r.ghost["val"] = z3.Int(run.name("value of the method"))
            return call(load("__TK__escape"), r)
        if k == 0:
            return Obj(ast.Constant, dict(value=run.str("text")))
        if k == 6:
            o = call(load("something"), call(load("literal"), value("v")))
            o.ghost["tok"] = z3.String(run.name("output of something"))
            return o
        if k == 1:
            return call(load("__TK__escape"), value("v"))
        if k == 2:
            return call(load("__TK__escape"), call(load("literal"), value("v")))
        if k == 3:
            return call(load("gettext"), Obj(ast.Constant, dict(value=run.str("msg"))))
        if k == 4:
            return call(load("literal"), value("v"))
        return call(load("__TK__output_attrs"), value("v"))
    n = 1 + run.pick(2)
    args = [argument(i) for i in range(n)]
    c = call(load("__TK__output"), *args)
    want = run.fold_term(ARGS, args)
    other = run.pick(2) if n == 1 else 0
    if other:
        c.fields["func"] = load("something_else")
    node = Obj(ast.Expr, dict(value=c))

    def visit(run, a, k):
        # ast.NodeVisitor.visit: dispatch to the method for the class of the node
        me, nd = a[0], a[-1]
        if nd is node:
            run.call(run.getattr(me, "visit_Call"), [c], {})
    run.models[ast.NodeVisitor.visit] = visit
    run.call(fn(PG + ":coalesce_outputs"), [node], {})
    now = run.items_of(run.getattr(c, "args"))
    if other:
        run.ensure("calls of anything else are not touched", len(now) == n and all(x is y for x, y in zip(now, args)))
    else:
        run.ensure("the same output, escaped exactly where it was", run.fold_term(ARGS, now) == want)
        run.ensure("no argument is lost", len(now) == n)
