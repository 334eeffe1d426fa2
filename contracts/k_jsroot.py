"""tonnikala.languages.javascript.generator.JsRootNode: the JavaScript program of a whole template"""
from .lib import *
from .k_jsgen import JG, SA, k, is_, ident, args_of, stmt_seg, out, setup, JSTM, T_ECMA, T_JSON, strval, json_dumps

FREE = Fold("js free in a function", "any", lambda run, x: x.ghost["free"](run.memo["K"]))
ISK = Fold("js is K", "any", lambda run, x: zs(x) == run.memo["K"])


def binding(run, x):
    n = zs(x)
    return concat(SV("        "), n, SV(' = __TK__ctxbind(__TK__context, "'), n, SV('");\n'))


BINDINGS = Fold("js bindings", "str", binding)
FIXED = [z3.StringVal("undefined"), z3.StringVal("literal")]


def lift(run, n, put):
    """slimit's tree, with the unknown parts put back where a name stands for them"""
    from slimit import ast as sa
    if isinstance(n, list):
        r = []
        for x in n:
            y = put(x)
            r.append(lift(run, x, put) if y is None else y)
        return SymList(r)
    if isinstance(n, sa.Node):
        y = put(n)
        return y if y is not None else Obj(type(n), {f: lift(run, v, put) for f, v in vars(n).items()})
    return n


def dump(x):
    if isinstance(x, Obj):
        return (x.kinds[0].__name__, tuple(sorted((f, dump(v)) for f, v in x.fields.items() if not f.startswith("_") or f == "_children_list")))
    if isinstance(x, SymList):
        return tuple(dump(y) for y in x.items)
    if isinstance(x, Seg):
        return "..."
    return repr(x)


def spec(run, src):
    from slimit.parser import Parser
    return lift(run, Parser().parse(src).children(), lambda n: None)


def visitor(run):
    """slimit's Visitor: a method by the name of the node's class, or all children"""
    from slimit.visitors.scopevisitor import Visitor

    def visit(run, a, kw):
        me, node = a
        nm = "NoneType" if node is None else "list" if isinstance(node, SymList) else node.kinds[0].__name__
        m = run.getattr(me, "visit_" + nm, default=None)
        return run.call(m if m is not None else run.getattr(me, "generic_visit"), [node], {})

    def generic(run, a, kw):
        me, node = a
        if node is None:
            return
        for x in run.items_of(node if isinstance(node, SymList) else run.call(run.getattr(node, "children"), [], {})):
            run.call(run.getattr(me, "visit"), [x], {})
    run.models[Visitor.visit], run.models[Visitor.generic_visit] = visit, generic


@unit("jsroot.JsRootNode", ["C20"], JG + ":JsRootNode.generate_ast",
      trusted=[T_ECMA, T_JSON, "slimit's parser gives the syntax tree of the assembled text, a run of bindings standing for as many statements and a list of names for as many declarations",
               "FreeVarFinder gives the free variables of a function (unit jsroot.FreeVarFinder)", "generate_child_ast by its contract (unit jsgen.generate_child_ast)",
               "what is registered is registered under a known name (unit jsgen.Generator.registries)"])
def _(run):
    """the program defines __main__ (unless it extends a template), the blocks and definitions, registers them in the
    context before the parent template does, then takes every name they use from the context"""
    from slimit import ast as sa
    from slimit.parser import Parser
    import json
    setup(run)
    run.memo["K"] = K = z3.String("K")
    MAIN = z3.StringVal("__main__")
    run.memo["members to know"] = [K, MAIN]
    g = run.call(cls(JG + ":Generator"), [opaque(run, "tree")], {})
    extended = run.str("href", input=True) if run.pick(2) else None
    if extended is not None:
        run.assume(extended.t != SV(""))
    T = z3.Function("top level names", StrS, BoolS)

    def func(run, nm):
        s = Obj(k("ExprStatement"), name=nm)
        s.ghost["free"] = z3.Function(run.name("free in " + nm), StrS, BoolS)
        return s
    segs = {n: Seg(n, func) for n in ("blocks", "top_defs")}
    imports, sources = Seg("imports", lambda run, nm: Obj(k("ExprStatement"), name=nm)), Seg("sources", lambda run, nm: run.str(nm))
    body = stmt_seg(run, "main body")

    def children(run, a, kw):
        # generating the children registers blocks, definitions, imports and the extended template
        for n, s in list(segs.items()) + [("imports", imports), ("import_sources", sources)]:
            run.getattr(g, n).items = [s]
        t = run.getattr(g, "top_level_names")
        t.mem, t.elems = (lambda k: T(k)), None
        run.setattr(g, "extended_href", extended)
        return SymList([body])
    stub(run, JG + ":JsComplexNode.generate_child_ast", children)
    main_free = z3.Function("free in the main body", StrS, BoolS)

    def for_ast(run, a, kw):
        x = a[-1]
        free = x.ghost.setdefault("free", main_free)
        result = SymSet()
        result.mem, result.elems = free, None
        return opaque(run, "finder", getattr=lambda run, v, at: Native(lambda run, a, kw: result, at) if at == "get_free_variables" else MISSING)
    stub(run, JG + ":FreeVarFinder.for_ast", for_ast)
    # ---- texts that cannot be written out
    joins, jsons = [], []

    def on_join(run, sep, items):
        if not (len(items) == 1 and isinstance(items[0], Seg) and "mem" in items[0].ghost):
            raise Unsupported("join")
        t = z3.String(run.name("joined"))
        joins.append((t, sep, items[0]))
        return mks(t)
    run.on_join = on_join

    def dumps(run, a, kw):
        if run.is_strlike(a[0]):
            r = json_dumps(run, a, kw)
            jsons.append((zs(r), a[0]))
            return r
        t = z3.String(run.name("json"))
        jsons.append((t, a[0]))
        return mks(t)
    run.models[json.dumps] = dumps
    # ---- the loops
    entry = {}

    def fresh(nm):
        s = SymSet()
        f = z3.Function(run.name(nm), StrS, BoolS)
        s.mem, s.elems = (lambda k: f(k)), None
        return s

    def collect():
        def inv(ctx):
            m = ctx.get("free_variables").mem(K)
            if not ctx.pre:
                entry[ctx.seg.uid, "c"] = m
            return [("the names free in the functions so far", m == z3.Or(entry[ctx.seg.uid, "c"], run.fold_term(FREE, ctx.pre) if ctx.pre else z3.BoolVal(False)))]
        return Loop(lambda ctx: ctx.set("free_variables", fresh("free variables")), inv)
    for n in segs:
        run.loops[n] = collect()
    discarded = z3.Or(z3.PrefixOf(SV("__TK__"), K), *[K == x for x in FIXED])

    def discard_inv(ctx):
        s = ctx.get("free_variables")
        m = s.mem(K)
        if not ctx.pre:
            entry["discard"], entry["main"] = m, s.mem(MAIN)
        return [("__main__ stays", s.mem(MAIN) == entry["main"]), ("internal names visited so far are gone, all others stay", m == A(entry["discard"], NOT(A(run.fold_term(ISK, ctx.pre) if ctx.pre else z3.BoolVal(False), discarded))))]

    def whole(ctx):
        return [run.fold_term(ISK, [ctx.seg]) == ctx.seg.ghost["mem"](K)] if ctx.pre == [ctx.seg] else []
    bound = []

    def code_havoc(ctx):
        ctx.set("code", mks(concat(entry["code", ctx.seg.uid], run.fold_term(BINDINGS, ctx.pre))))
        if ctx.pre == [ctx.seg]:
            bound.append(ctx.seg)

    def code_inv(ctx):
        c = zs(ctx.get("code"))
        if not ctx.pre:
            entry["code", ctx.seg.uid] = c
        return [("a binding for every name so far", c == concat(entry["code", ctx.seg.uid], run.fold_term(BINDINGS, ctx.pre)))]
    run.loops["elements"] = [Loop(lambda ctx: ctx.set("free_variables", fresh("free variables")), discard_inv, facts=whole), Loop(code_havoc, code_inv)]
    # ---- the text is parsed
    trees, found = [], {}

    def parse(run, a, kw):
        text, places = "", {}
        for p in parts_of(zs(a[0])):
            if z3.is_string_value(p):
                text += dec(p)
                continue
            ph = "__PLACE_%d" % len(places)
            j = [(t, sep, s) for t, sep, s in joins if z3.eq(p, t)]
            d = [v for t, v in jsons if z3.eq(p, t)]
            b = [s for s in bound if z3.eq(p, run.fold_term(BINDINGS, [s]))]
            if j:
                if j[0][1].strip() != ",":
                    raise Unsupported("names joined by %r" % j[0][1])
                places[ph] = ("names", j[0][2])
                text += ph
            elif d:
                places[ph] = ("json", d[0])
                text += ph
            elif b:
                places[ph] = ("bindings", b[0])
                text += "        %s;\n" % ph
            else:
                raise Unsupported("generated text %s" % p)

        def put(n):
            nm = n.identifier if isinstance(n, sa.VarDecl) else n.expr if isinstance(n, sa.ExprStatement) else n
            v = places.get(nm.value) if isinstance(nm, sa.Identifier) else None
            if v is None:
                return None
            if v[0] == "json":
                if nm is not n:
                    return None
                o = Obj(k("Array"), dict(items=SymList([]))) if isinstance(v[1], SymList) else Obj(k("String"), dict(value=v[1]))
                o.ghost["json"] = v[1]
                found.setdefault("json", []).append(o)
                return o
            if (v[0] == "names") != isinstance(n, sa.VarDecl):
                raise Unsupported("place of names")
            s = Seg(v[0], lambda run, nm: Obj(type(n), name=nm))
            s.ghost["set"] = v[1]
            found.setdefault(v[0], []).append(s)
            return s
        try:
            t = Parser().parse(text)
        except SyntaxError as e:
            run.ensure("the program is JavaScript (%s)" % e, False)
            raise PathEnd()
        t = lift(run, t, put)
        trees.append(run.call(run.getattr(t, "children"), [], {}).items[0].fields["expr"])
        return trees[-1]
    stub(run, JG + ":parse", parse)
    visitor(run)
    printed = []
    stub(run, SA + ":Node.to_ecma", lambda run, a, kw: printed.append((a[0], dump(a[0]), list(bodies(a[0])["__TK__binder"][1].items))) or run.str("program"))
    root = run.call(cls(JG + ":JsRootNode"), [], {})
    run.call(run.getattr(root, "generate_ast"), [g], {})
    # ---- what came out
    run.ensure("the result is the finished program as text", len(printed) == 1 and len(trees) == 1 and printed[0][0] is trees[0] and printed[0][1] == dump(trees[0]))
    tree = trees[0]
    run.ensure("it is a module", is_(tree, "FunctionCall") and ident(run, run.getattr(tree, "identifier")) == "define")
    mods, factory = args_of(run, tree)
    run.ensure("that needs the runtime, the imported templates and the parent", "json" in mods.ghost)
    m = mods.ghost["json"].items
    run.ensure("the runtime first", m[0] == "tonnikala/runtime" and m[1] is sources and len(m) == 2 + (extended is not None))
    if extended is not None:
        run.ensure("the parent last", m[2] is extended)
    run.ensure("its function takes the runtime", is_(factory, "FuncExpr") and [ident(run, x) for x in factory.fields["parameters"].items] == ["__TK__"])
    fb = factory.fields["elements"].items
    decls = {}
    for s in fb:
        if is_(s, "VarStatement"):
            for d in run.items_of(s.fields["_children_list"]):
                decls[ident(run, d.fields["identifier"])] = d.fields["initializer"]
    for nm, attr in (("__TK__mkbuffer", "Buffer"), ("__TK__escape", "escape"), ("__TK__foreach", "foreach"), ("literal", "literal"), ("__TK__output_attrs", "outputAttrs"), ("__TK__ctxadd", "addToContext"), ("__TK__ctxbind", "bindFromContext")):
        v = decls.get(nm)
        run.ensure("%s is the runtime's %s" % (nm, attr), is_(v, "DotAccessor") and ident(run, v.fields["node"]) == "__TK__" and ident(run, v.fields["identifier"]) == attr)
    if extended is not None:
        v = decls.get("__TK__parent_template")
        run.ensure("the parent template is loaded", is_(v, "FunctionCall") and dump(run.getattr(v, "identifier")) == dump(spec(run, "__TK__.load;").items[0].fields["expr"]) and [x.ghost.get("json") is extended for x in args_of(run, v)] == [True])
    run.ensure("the factory returns the binder", is_(fb[-1], "Return") and is_(fb[-1].fields["expr"], "FuncExpr") and ident(run, fb[-1].fields["expr"].fields["identifier"]) == "__TK__binder" and not any(is_(s, "Return") for s in fb[:-1]))
    binder = fb[-1].fields["expr"]
    run.ensure("which takes the context", [ident(run, x) for x in binder.fields["parameters"].items] == ["__TK__context"])
    items = list(binder.fields["elements"].items)
    names = found.get("names", [])
    fv = z3.Or(run.fold_term(FREE, list(segs.values())), main_free(K) if extended is None else z3.BoolVal(False), T(K), K == MAIN if extended is None else z3.BoolVal(False))
    want = A(fv, NOT(discarded))
    if names:
        v = items.pop(0)
        run.ensure("first the names are declared", len(names) == 1 and is_(v, "VarStatement") and v.fields["_children_list"].items == names)
        run.ensure("exactly those the functions take from outside and those the template defines", names[0].ghost["set"].ghost["mem"](K) == want)
    else:
        run.ensure("no name: then there is none to declare", NOT(want))
        for s in list(segs.values()) + [imports]:      # whatever is registered has a name
            run.assume(run.length([s]) == 0)
    if names:
        run.ensure("then the imports", items and items.pop(0) is imports)
    else:
        items = [x for x in items if x is not imports and x is not segs["blocks"] and x is not segs["top_defs"]]
    if extended is None or names:
        if names:
            run.ensure("then the blocks and definitions, in order", items[:2] == list(segs.values()))
            items = items[2:]
        if extended is None:
            mn = items.pop(0)
            c = run.getattr(mn, "expr") if is_(mn, "ExprStatement") else None
            run.ensure("then __main__ is registered in the context", is_(c, "FunctionCall") and ident(run, run.getattr(c, "identifier")) == "__TK__ctxadd")
            a = args_of(run, c)
            run.ensure("with its name and itself", len(a) == 3 and ident(run, a[0]) == "__TK__context")
            run.ensure("under the name __main__", strval(run, a[1]) == MAIN)
            f = a[2]
            mb = run.items_of(run.getattr(f, "elements"))
            run.ensure("__main__ outputs the children into a buffer of its own and returns it", len(mb) > 2 and dump(mb[0]) == dump(spec(run, "var __TK__output = __TK__mkbuffer();").items[0]) and is_(mb[-1], "Return") and ident(run, run.getattr(mb[-1], "expr")) == "__TK__output")
            run.ensure("all of them", out(run, SymList(mb[1:-1])) == run.fold_term(JSTM, [body]))
    if extended is not None:
        run.ensure("then the parent template adds what is still missing", dump(items.pop(0)) == dump(spec(run, "__TK__parent_template(__TK__context);").items[0]))
    if names or items and isinstance(items[0], Seg):
        run.ensure("then every name is taken from the context", items and isinstance(items[0], Seg) and items[0] in found.get("bindings", []))
        run.ensure("exactly those", items.pop(0).ghost["set"].ghost["mem"](K) == want)
    run.ensure("the bound template is returned", [dump(x) for x in items] == [dump(spec(run, "function f() { return new __TK__.BoundTemplate(__TK__context); }").items[0].fields["elements"].items[0])])


def bodies(tree):
    out = {}

    def go(x):
        if isinstance(x, Obj):
            if x.kinds[0].__name__ == "FuncExpr" and isinstance(x.fields.get("identifier"), Obj):
                out[x.fields["identifier"].fields["value"]] = (x, x.fields["elements"])
            for v in x.fields.values():
                go(v)
        elif isinstance(x, SymList):
            for y in x.items:
                go(y)
    go(tree)
    return out


@unit("jsroot.FreeVariableAnalyzerVisitor", ["C20"], JG + ":FreeVariableAnalyzerVisitor.visit_Identifier", trusted=["slimit marks the identifiers that are names of variables, and scope.resolve(name) is None when no enclosing function declares the name"])
def _(run):
    """an identifier is a free variable when it names a variable and no function around it declares it"""
    v = run.call(cls(JG + ":FreeVariableAnalyzerVisitor"), [], {})
    had = run.getattr(v, "free_variables")
    run.ensure("at first there is none", not run.iter_items(had) if not isinstance(had, SymSet) else getattr(had, "elems", None) == [])
    H = z3.Function("found before", StrS, BoolS)
    old = SymSet()
    old.mem, old.elems = (lambda k: H(k)), None
    run.setattr(v, "free_variables", old)
    name = run.str("name", input=True)
    K = z3.String("K")
    asked = []
    node = Obj(k("Identifier"), dict(value=name))
    mark = run.pick(3)
    if mark:
        node.fields["_mangle_candidate"] = mark == 1
    bound = run.pick(2)
    sym = opaque(run, "symbol", truth=run.bool("symbol is true"), is_=lambda run, a, b: False) if bound else None

    def resolve(run, a, kw):
        asked.append(a[0])
        return sym
    node.fields["scope"] = opaque(run, "scope", getattr=lambda run, o, at: Native(resolve, at) if at == "resolve" else MISSING)
    run.call(run.getattr(v, "visit_Identifier"), [node], {})
    now = run.getattr(v, "free_variables").mem(K)
    run.ensure("added when it is a variable that no function declares, nothing else changes", now == z3.Or(H(K), A(z3.BoolVal(mark == 1 and not bound), K == name.t)))
    if asked:
        run.ensure("its own name is resolved", A(*[zs(x) == name.t for x in asked]))


@unit("jsroot.FreeVarFinder", ["C20"], JG + ":FreeVarFinder.get_free_variables", trusted=["slimit's ScopeTreeVisitor and fill_scope_references put the scopes at the identifiers of the tree they are given", "slimit's Visitor visits every node"])
def _(run):
    """the variables of a tree that it does not declare: the scopes are put in before the names are looked up"""
    from slimit.visitors import scopevisitor as sv
    import slimit.scope
    tree = Obj(k("ExprStatement"), name="tree")
    log = []
    free = SymSet()
    F = z3.Function("free", StrS, BoolS)
    free.mem, free.elems = (lambda k: F(k)), None
    table = opaque(run, "table")
    run.models[slimit.scope.SymbolTable] = lambda run, a, kw: table

    def scopes(run, a, kw):
        if a[0] is not table:
            raise Unsupported("symbol table")
        return opaque(run, "scopes", getattr=lambda run, o, at: Native(lambda run, a, kw: log.append(("scopes", a[0])), at) if at == "visit" else MISSING)
    run.models[sv.ScopeTreeVisitor] = scopes
    run.models[sv.fill_scope_references] = lambda run, a, kw: log.append(("fill", a[0]))
    stub(run, JG + ":FreeVariableAnalyzerVisitor", lambda run, a, kw: opaque(run, "analyzer", getattr=lambda run, o, at: Native(lambda run, a, kw: log.append(("analyze", a[0])), at) if at == "visit" else free if at == "free_variables" else MISSING))
    f = run.call(run.getattr(cls(JG + ":FreeVarFinder"), "for_ast"), [tree], {})
    r = run.call(run.getattr(f, "get_free_variables"), [], {})
    run.ensure("scopes, references, names: of the tree, in this order", [x[0] for x in log] == ["scopes", "fill", "analyze"] and all(x[1] is tree for x in log))
    run.ensure("the names found are the result", isinstance(r, SymSet) and r.mem(z3.String("K")) == F(z3.String("K")))
