"""tonnikala.languages.python.generator.PyRootNode: the program of a whole template"""
from .lib import *
from .k_pygen import PG, STM, stmt_seg, loops, out, name_of, den_stmt
from .k_astalyzer import AZ, FVF

ISK = Fold("is K", "any", lambda run, x: zs(x) == run.memo["K"])
FREE = Fold("free in a function", "any", lambda run, x: x.ghost["free"](run.memo["K"]))
DEFLT = Fold("free in a signature", "any", lambda run, x: x.ghost["dflt"](run.memo["K"]))


def binding(run, x):
    """if "x" in __TK__context: x = __TK__context["x"] """
    n = zs(x)
    return concat(SV('    if "'), n, SV('" in __TK__context:\n        '), n, SV(' = __TK__context["'), n, SV('"]\n'))


BINDINGS = Fold("bindings", "str", binding)


def func(run, nm):
    f = Obj(ast.FunctionDef, dict(name=nm, body=SymList([]), decorator_list=SymList([])), name=nm)
    f.ghost["free"] = z3.Function(run.name("free in " + nm), StrS, BoolS)
    f.ghost["dflt"] = z3.Function(run.name("free in the signature of " + nm), StrS, BoolS)
    f.fields["args"] = Obj(ast.arguments, name="signature")
    f.fields["args"].ghost["of"] = f
    f.fields["returns"] = None
    return f


def lift(run, n, segs):
    """the tree ast.parse gives, with the runs of unknown statements put back"""
    if isinstance(n, ast.AST):
        o = Obj(type(n))
        for f in n._fields:
            o.fields[f] = lift(run, getattr(n, f, None), segs)
        for a in n._attributes:
            if hasattr(n, a):
                o.fields[a] = getattr(n, a)
        return o
    if isinstance(n, list):
        out = []
        for x in n:
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Name) and x.value.id in segs:
                out.append(segs[x.value.id])
            else:
                out.append(lift(run, x, segs))
        return SymList(out)
    return n


def dump(run, x, names):
    """text of a lifted tree, without positions"""
    if isinstance(x, Obj):
        return "%s(%s)" % (x.kinds[0].__name__, ", ".join("%s=%s" % (f, dump(run, x.fields.get(f), names)) for f in x.kinds[0]._fields if x.fields.get(f) is not None and not (isinstance(x.fields.get(f), SymList) and not x.fields[f].items)))
    if isinstance(x, SymList):
        return "[%s]" % ", ".join("..." if isinstance(y, Seg) else dump(run, y, names) for y in x.items)
    if isinstance(x, SymStr):
        return names.get(str(x.t), "?")
    return repr(x)


def spec_dump(run, src):
    return [dump(run, lift(run, s, {}), {}) for s in ast.parse(src).body]


@unit("root.PyRootNode", ["C06", "C09", "C10", "C11", "C02", "C14", "C15", "C17"], PG + ":PyRootNode.generate_ast",
      trusted=["ast.parse of the assembled text gives the tree of that text, a run of binding statements standing for as many if statements",
               "FreeVarFinder by its contract (units astalyzer.*)", "generate_child_ast by its contract (unit pygen.generate_child_ast)", "coalesce_outputs by its contract (units pygen.OutputCoalescer.*)"])
def _(run):
    """the program defines __main__ (unless it extends a template), the blocks and the definitions, and takes every name
    they use from the context when it is there; the imports come first; the original context is copied before that"""
    run.memo["K"] = K = z3.String("K")
    g = run.call(cls(PG + ":Generator"), [opaque(run, "tree")], {})
    extended = run.str("href", input=True) if run.pick(2) else None
    if extended is not None:
        run.assume(extended.t != SV(""))
    T = z3.Function("top level names", StrS, BoolS)
    segs = {n: Seg(n, func) for n in ("blocks", "top_defs")}
    imports = Seg("imports", lambda run, nm: Obj(ast.Assign, name=nm))
    body = stmt_seg(run, "main body")
    log = []

    def children(run, a, k):
        # generating the children registers blocks, definitions, imports and the extended template
        for n, s in list(segs.items()) + [("imports", imports)]:
            run.getattr(g, n).items = [s]
        t = run.getattr(g, "top_level_names")
        t.mem, t.elems = (lambda k: T(k)), None
        run.setattr(g, "extended_href", extended)
        log.append("children")
        return SymList([body])
    stub(run, PG + ":PyComplexNode.generate_child_ast", children)
    main_free = z3.Function("free in the main body", StrS, BoolS)

    def for_ast(run, a, k):
        x = a[-1]
        if "free" not in x.ghost:
            x.ghost["free"] = main_free
            x.ghost["dflt"] = lambda k: z3.BoolVal(False)
            x.fields["args"].ghost["of"] = x
        o = opaque(run, "finder", getattr=lambda run, v, at: Native(lambda run, a, k: result, at) if at == "get_free_variables" else MISSING)
        result = SymSet()
        result.mem, result.elems = x.ghost["free"], None
        return o
    stub(run, FVF + ".for_ast", for_ast)

    def defaults(run, a, k):
        me, args = a
        s = SymSet()
        old, d = run.getattr(me, "vars").mem, args.ghost["of"].ghost["dflt"]
        s.mem, s.elems = (lambda k: z3.Or(old(k), d(k))), None
        run.setattr(me, "vars", s)
    stub(run, FVF + ".do_visit_lambda_defaults", defaults)

    def fresh(run, nm):
        s = SymSet()
        f = z3.Function(run.name(nm), StrS, BoolS)
        s.mem, s.elems = (lambda k: f(k)), None
        return s
    # ---- the loops
    entry = {}

    def collect():
        def havoc(ctx):
            ctx.set("free_variables", fresh(run, "free variables"))

        def inv(ctx):
            m = ctx.get("free_variables").mem(K)
            if not ctx.pre:
                entry[ctx.seg.uid, "c"] = m
            return [("the names free in the functions so far", m == z3.Or(entry[ctx.seg.uid, "c"], run.fold_term(FREE, ctx.pre) if ctx.pre else z3.BoolVal(False)))]
        return Loop(havoc, inv)

    def signatures():
        def havoc(ctx):
            v = ctx.get("default_variables")
            ctx.modifies(v)
            v.fields["vars"] = fresh(run, "default variables")

        def inv(ctx):
            m = run.getattr(ctx.get("default_variables"), "vars").mem(K)
            if not ctx.pre:
                entry[ctx.seg.uid, "d"] = m
            return [("the names free in the signatures so far", m == z3.Or(entry[ctx.seg.uid, "d"], run.fold_term(DEFLT, ctx.pre) if ctx.pre else z3.BoolVal(False)))]
        return Loop(havoc, inv)
    for n in segs:
        run.loops[n] = [collect(), signatures()]
    discarded = z3.Or(z3.PrefixOf(SV("__TK__"), K), *[K == SV(x) for x in ("False", "True", "None")])

    def discard_havoc(ctx):
        ctx.set("free_variables", fresh(run, "free variables"))

    def discard_inv(ctx):
        m = ctx.get("free_variables").mem(K)
        if not ctx.pre:
            entry["discard"] = m
        return [("internal names visited so far are gone, all others stay", m == A(entry["discard"], NOT(A(run.fold_term(ISK, ctx.pre) if ctx.pre else z3.BoolVal(False), discarded))))]

    def whole(ctx):
        return [run.fold_term(ISK, [ctx.seg]) == ctx.seg.ghost["mem"](K)] if ctx.pre == [ctx.seg] else []
    bound = []

    def code_loop():
        def havoc(ctx):
            if "at" not in ctx.data:
                ctx.data["at"] = entry["code", ctx.seg.uid]
            ctx.set("code", mks(concat(ctx.data["at"], run.fold_term(BINDINGS, ctx.pre))))
            if ctx.pre == [ctx.seg]:
                bound.append(ctx.seg)

        def inv(ctx):
            c = zs(ctx.get("code"))
            if not ctx.pre:
                entry["code", ctx.seg.uid] = c
            return [("a binding for every name so far", c == concat(entry["code", ctx.seg.uid], run.fold_term(BINDINGS, ctx.pre)))]
        return Loop(havoc, inv)
    run.loops["elements"] = [Loop(discard_havoc, discard_inv, facts=whole), code_loop(), code_loop()]
    run.loops["bindings"] = Loop(lambda ctx: None, lambda ctx: [])
    # ---- the text is parsed
    trees = []

    def parse(run, a, k):
        text, places, names = "", {}, {}
        for p in parts_of(zs(a[0])):
            if z3.is_string_value(p):
                text += dec(p)
                continue
            hit = [s for s in bound if z3.eq(p, run.fold_term(BINDINGS, [s]))]
            if hit:
                ph = "__SEG_%d" % len(places)
                places[ph] = Seg("bindings", lambda run, nm: Obj(ast.If, name=nm))
                places[ph].ghost["set"] = hit[0]
                text += "    %s\n" % ph
            elif extended is not None and z3.eq(p, models._repr_fn(extended.t)):
                text += "__HREF"
            else:
                raise Unsupported("generated text %s" % p)
        t = lift(run, ast.parse(text), places)
        trees.append(t)
        log.append("parse")
        return t
    run.models[ast.parse] = parse
    stub(run, PG + ":remove_locations", lambda run, a, k: log.append(("remove_locations", a[0], [x.items[:] if isinstance(x, SymList) else x for x in [find_binder(run, a[0]).fields["body"]]])))
    stub(run, PG + ":coalesce_outputs", lambda run, a, k: log.append(("coalesce", a[0], list(find_binder(run, a[0]).fields["body"].items))))

    def visit(run, a, k):
        me, node = a
        m = run.getattr(me, "visit_" + node.kinds[0].__name__, default=None)
        own = run.class_lookup(run.exact_class(me), "visit_" + node.kinds[0].__name__)[0]
        return run.call(m, [node], {}) if m is not None and own is not getattr(ast.NodeVisitor, "visit_Constant", None) else generic(run, a, k)

    def generic(run, a, k):
        me, node = a
        for f in node.kinds[0]._fields:
            v = node.fields.get(f)
            for x in (v.items if isinstance(v, SymList) else [v]):
                if isinstance(x, Obj) and issubclass(x.kinds[0], ast.AST):
                    visit(run, [me, x], {})
        return node
    run.models[ast.NodeVisitor.visit] = visit
    run.models[ast.NodeVisitor.generic_visit] = run.models[ast.NodeTransformer.generic_visit] = generic
    run.models[ast.walk] = lambda run, a, k: SymTuple(walk_all(a[0]))

    root = run.call(cls(PG + ":PyRootNode"), [], {})
    tree = run.call(run.getattr(root, "generate_ast"), [g], {})
    # ---- what came out
    run.ensure("the result is the program", len(trees) == 1 and tree is trees[0])
    b = find_binder(run, tree)
    items = b.fields["body"].items
    has_gettext = any(isinstance(x, Obj) and x.kinds == [ast.FunctionDef] and x.fields["name"] == "egettext" for x in items)
    pre = spec_dump(run, "__TK__original_context = __TK__context.copy()\n__TK__bind = __TK__runtime.bind(__TK__context)\n__TK__bindblock = __TK__runtime.bind(__TK__context, block=True)\n"
                    + ("def egettext(msg):\n    return __TK__escape(gettext(msg))\ngettext = __TK__context['gettext']\n" if has_gettext else ""))
    n = len(pre)
    run.ensure("first the context is copied and the binders are made", [dump(run, x, {}) if isinstance(x, Obj) else "..." for x in items[:n]] == pre)
    rest = items[n:]
    run.ensure("then names used in signatures are taken from the context", len(rest) > 2 and isinstance(rest[0], Seg) and "set" in rest[0].ghost)
    sig = rest[0].ghost["set"]
    run.ensure("then come the imports", rest[1] is imports)
    rest = rest[2:]
    if extended is None:
        m = rest.pop(0)
        run.ensure("then __main__", isinstance(m, Obj) and m.kinds == [ast.FunctionDef] and m.fields["name"] == "__main__")
        run.ensure("registered under its name", [name_of(run, d) for d in run.items_of(m.fields["decorator_list"])] == ["__TK__bindblock"])
        mb = run.items_of(m.fields["body"])
        run.ensure("__main__ outputs the children, into a buffer of its own, and returns it", out(run, mb[1:-1]) == run.fold_term(STM, [body]) if len(mb) > 1 else False)
        run.ensure("buffer", dump(run, mb[0], {}) == spec_dump(run, "__TK__output = __TK__mkbuffer()")[0] and mb[-1].kinds == [ast.Return] and name_of(run, mb[-1].fields["value"]) == "__TK__output")
    run.ensure("then the blocks and the definitions, in order", len(rest) > 2 and rest[0] is segs["blocks"] and rest[1] is segs["top_defs"])
    rest = rest[2:]
    if extended is not None:
        run.ensure("then the parent template adds what is still missing", dump(run, rest.pop(0), {}) == spec_dump(run, "__TK__parent_template.binder_func(__TK__context)")[0])
    run.ensure("then the names are taken from the context, which is returned", len(rest) == 2 and isinstance(rest[0], Seg) and "set" in rest[0].ghost and dump(run, rest[1], {}) == dump(run, lift(run, ast.parse("def f():\n    return __TK__context").body[0].body[0], {}), {}))
    names = rest[0].ghost["set"]
    fv = z3.Or(run.fold_term(FREE, list(segs.values())), main_free(K) if extended is None else z3.BoolVal(False))
    spec = A(fv, NOT(discarded), NOT(T(K)))
    is_gt = z3.Or(K == SV("gettext"), K == SV("egettext"))
    run.ensure("exactly the names that the functions take from outside are looked up", z3.Implies(NOT(is_gt), names.ghost["mem"](K) == spec))
    run.ensure("those used in signatures beforehand", z3.Implies(NOT(is_gt), sig.ghost["mem"](K) == A(spec, run.fold_term(DEFLT, list(segs.values())))))
    run.ensure("gettext is bound when it is used", z3.Implies(A(is_gt, spec), z3.BoolVal(has_gettext)))
    run.ensure("and not twice", z3.Implies(is_gt, NOT(A(names.ghost["mem"](K), K == SV("gettext"), z3.BoolVal(has_gettext)))))
    mod = tree.fields["body"].items
    want = spec_dump(run, "__TK__mkbuffer = __TK__runtime.Buffer\n__TK__escape = __TK__escape_g = __TK__runtime.escape\n__TK__output_attrs = __TK__runtime.output_attrs\n" + ("__TK__parent_template = __TK__runtime.load(__HREF)\n" if extended is not None else ""))
    run.ensure("the program starts with the runtime functions and the parent template, and defines the binder", [dump(run, x, {}) for x in mod[:-1]] == want and mod[-1] is b)
    run.ensure("the locations of the skeleton are removed, before the template's own functions are put in", len([1 for l in log if l[0] == "remove_locations"]) == 1
               and all(l[1] is tree and imports not in l[2][0] and segs["blocks"] not in l[2][0] for l in log if l[0] == "remove_locations"))
    run.ensure("adjacent outputs of the finished program are joined", log[-1][0] == "coalesce" and log[-1][1] is tree and log[-1][2] == items)


def find_binder(run, tree):
    r = [x for x in tree.fields["body"].items if isinstance(x, Obj) and x.kinds == [ast.FunctionDef] and x.fields["name"] == "__TK__binder"]
    if len(r) != 1:
        raise Unsupported("no binder")
    return r[0]


def walk_all(x):
    out = [x]
    for f in x.kinds[0]._fields:
        v = x.fields.get(f)
        for y in (v.items if isinstance(v, SymList) else [v]):
            if isinstance(y, Obj) and issubclass(y.kinds[0], ast.AST):
                out += walk_all(y)
    return out
