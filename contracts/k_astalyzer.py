"""tonnikala.languages.python.astalyzer: which names of generated code come from outside of it.

Semantics used, for an arbitrary name K and every piece of Python syntax n:
  reads(n)  evaluating n in its scope reads K of that scope or of an enclosing one (what Python's scoping rules say)
  binds(n)  n binds K in the scope it stands in
  loads(n)  K occurs in n other than as a target
Contract of visiting n: (1) if n reads K and does not bind it, K is among the variables afterwards; (2) K is masked
afterwards only if it was before or n binds it; (3) K is among the variables afterwards only if it was before or n loads it.
(1) and (2) together: every name a function takes from outside is among its free variables."""
from .lib import *

AZ = "tonnikala.languages.python.astalyzer"
FVF = AZ + ":FreeVarFinder"
T_GEN = "ast.NodeVisitor: visit calls visit_<class> or generic_visit, which visits every child in field order"
T_IND = "visiting the children by the contract being proved (induction over the syntax tree)"

RB = Fold("reads-not-binds", "any", lambda run, x: False if x is None else z3.And(x.ghost["reads"], z3.Not(x.ghost["binds"])))
RD = Fold("reads", "any", lambda run, x: False if x is None else x.ghost["reads"])
BD = Fold("binds", "any", lambda run, x: False if x is None else x.ghost["binds"])
LD = Fold("loads", "any", lambda run, x: False if x is None else x.ghost["loads"])


def piece(run, nm, kind=None, binds=True, none=False):
    """arbitrary syntax"""
    if none and run.pick(2):
        return None
    o = Obj(kind or EXPR_KINDS + STMT_KINDS, name=nm, schema=no_fields)
    for g in ("reads", "binds", "loads"):
        o.ghost[g] = z3.Bool(run.name("%s %s" % (nm, g)))
    if not binds:
        o.ghost["binds"] = z3.BoolVal(False)
    run.assume(z3.Implies(o.ghost["reads"], o.ghost["loads"]))
    if kind is ast.arg:
        o.fields["arg"] = run.str("name of " + nm)
        o.fields["annotation"] = None
    o.ghost["piece"] = True
    return o


def run_of(run, name, kind=None, **kw):
    """an arbitrary list of syntax; what `some item ...` of its folds implies, item by item"""
    s = Seg(name, lambda run, nm: piece(run, nm, kind, **kw))
    rb, rd, bd, ld = (run.fold_term(f, [s]) for f in (RB, RD, BD, LD))
    run.assume([z3.Implies(A(rd, NOT(bd)), rb), z3.Implies(rb, rd), z3.Implies(rd, ld)])
    if kw.get("binds") is False:
        run.assume(NOT(bd))
    return s


def effect(run, me, rb, bd, ld):
    """contract of visiting: the new contents of the finder"""
    K = run.memo["K"]
    v0, m0, g0 = (run.getattr(me, a).mem(K) for a in ("vars", "masked", "generated"))
    for a in ("vars", "masked", "generated"):
        s = SymSet()
        f = z3.Function(run.name("%s after" % a), StrS, BoolS)
        s.mem, s.elems = (lambda k, f=f: f(k)), None
        run.setattr(me, a, s)
    v1, m1, g1 = (run.getattr(me, a).mem(K) for a in ("vars", "masked", "generated"))
    run.assume([z3.Implies(z3.Or(v0, rb), v1), z3.Implies(v1, z3.Or(v0, ld)), z3.Implies(z3.Or(m1, g1), z3.Or(m0, g0, bd)), z3.Implies(z3.Or(m0, g0), z3.Or(m1, g1))])


def visit_items(run, me, items):
    for x in items:
        if isinstance(x, Seg):
            effect(run, me, run.fold_term(RB, [x]), run.fold_term(BD, [x]), run.fold_term(LD, [x]))
        elif isinstance(x, Obj):
            visit(run, me, x)


def visit(run, me, x):
    if x.ghost.get("piece"):
        g = x.ghost
        effect(run, me, z3.And(g["reads"], z3.Not(g["binds"])), g["binds"], g["loads"])
        return
    if len(x.kinds) != 1:
        raise Unsupported("visit of %r" % x)
    m = run.class_lookup(run.exact_class(me), "visit_" + x.kinds[0].__name__)[0]
    if m is not MISSING:
        run.call(run.getattr(me, "visit_" + x.kinds[0].__name__), [x], {})
    else:
        generic(run, me, x)


def generic(run, me, x):
    for f in x.kinds[0]._fields:
        v = x.fields.get(f)
        if isinstance(v, SymList):
            visit_items(run, me, v.items)
        elif isinstance(v, Obj) and issubclass(v.kinds[0], ast.AST):
            visit(run, me, v)


def setup(run):
    run.memo["K"] = z3.String("K")
    run.inputs.append(("K", run.memo["K"]))
    run.models[ast.NodeVisitor.visit] = lambda run, a, k: visit(run, a[0], a[1])
    run.models[ast.NodeVisitor.generic_visit] = lambda run, a, k: generic(run, a[0], a[1])
    run.models[ast.iter_fields] = lambda run, a, k: tuple((f, a[0].fields[f]) for f in a[0].kinds[0]._fields if f in a[0].fields)
    run.models[ast.iter_child_nodes] = lambda run, a, k: SymTuple([nodes_only(run, y) for f in a[0].kinds[0]._fields if f in a[0].fields for y in (a[0].fields[f].items if isinstance(a[0].fields[f], SymList) else [a[0].fields[f]]) if isinstance(y, (Seg, Obj))])
    me = finder(run)
    for seg in ("decorators", "bases", "keywords", "body", "defaults", "kw_defaults", "posonlyargs", "params", "kwonlyargs"):
        run.loops[seg] = visiting(run, me)
    return me


def nodes_only(run, y):
    """the nodes among the items of a list that may hold None: what they read, bind and load is what the list does"""
    if not isinstance(y, Seg) or y.name != "kw_defaults":
        return y
    s = Seg(y.name, lambda run, nm: piece(run, nm))
    for f in (RB, RD, BD, LD):
        run.assume(run.fold_term(f, [s]) == run.fold_term(f, [y]))
    return s


def finder(run):
    me = Obj(cls(FVF))
    for a in ("vars", "masked", "generated", "newly_masked"):
        s = SymSet()
        f = z3.Function(run.name(a), StrS, BoolS)
        s.mem, s.elems = (lambda k, f=f: f(k)), None
        me.fields[a] = s
    return me


def visiting(run, me):
    """invariant of a loop that visits the items of a list"""
    st = {}

    def target(ctx):
        # the finder the loop body works on: the receiver, or one made by the function
        if "who" not in st:
            st["who"] = [v for v in ctx.entry.values() if isinstance(v, Obj) and v.kinds == me.kinds]
        return st["who"]

    def key(ctx, w):
        return (ctx.seg.uid, w.oid)

    def havoc(ctx):
        for w in target(ctx):
            ctx.modifies(w)
            for a in ("vars", "masked", "generated"):
                s = SymSet()
                f = z3.Function(run.name("%s in the loop" % a), StrS, BoolS)
                s.mem, s.elems = (lambda k, f=f: f(k)), None
                ctx.modifies(s)
                w.fields[a] = s

    def inv(ctx):
        K, out = run.memo["K"], []
        for w in target(ctx):
            m = [w.fields[a].mem(K) for a in ("vars", "masked", "generated")]
            if not ctx.pre:
                st[key(ctx, w)] = m
            v0, m0, g0 = st[key(ctx, w)]
            rb, bd, ld = (run.fold_term(f, ctx.pre) if ctx.pre else z3.BoolVal(False) for f in (RB, BD, LD))
            visited = z3.And(z3.Implies(z3.Or(v0, rb), m[0]), z3.Implies(m[0], z3.Or(v0, ld)), z3.Implies(z3.Or(m[1], m[2]), z3.Or(m0, g0, bd)), z3.Implies(z3.Or(m0, g0), z3.Or(m[1], m[2])))
            same = z3.And(m[0] == v0, m[1] == m0, m[2] == g0)
            out.append(("what was visited so far is accounted for", visited if w is ctx_receiver(ctx, target(ctx)) else same))
        return out
    return Loop(havoc, inv)


def ctx_receiver(ctx, who):
    """of several finders in scope the loop is over the one whose visit the body calls"""
    names = [n.value.id for n in ast.walk(ctx.node) if isinstance(n, ast.Attribute) and n.attr in ("visit", "generic_visit") and isinstance(n.value, ast.Name)]
    for n in names:
        v = ctx.entry.get(n)
        if any(v is w for w in who):
            return v
    return None


def post(run, me, before, reads, binds, loads, what):
    K = run.memo["K"]
    v0, m0, g0 = before
    v1, m1, g1 = state(run, me)
    run.ensure(what + ": a name it takes from outside is among the variables", z3.Implies(z3.Or(v0, z3.And(reads, z3.Not(binds))), v1))
    run.ensure(what + ": only names it binds are masked", z3.Implies(z3.Or(m1, g1), z3.Or(m0, g0, binds)))
    run.ensure(what + ": names masked before stay masked", z3.Implies(z3.Or(m0, g0), z3.Or(m1, g1)))
    run.ensure(what + ": only names that occur in it are added", z3.Implies(v1, z3.Or(v0, loads)))


def state(run, me):
    K = run.memo["K"]
    return [run.getattr(me, a).mem(K) for a in ("vars", "masked", "generated")]


PARAMS = z3.Function("is_parameter", StrS, BoolS)


def arguments(run):
    """arbitrary parameters; returns (node, parts)"""
    K = run.memo["K"]
    segs = {n: run_of(run, n, ast.arg, binds=False) for n in ("posonlyargs", "params", "kwonlyargs")}
    segs["defaults"] = run_of(run, "defaults")
    segs["kw_defaults"] = run_of(run, "kw_defaults", none=True)
    va = [piece(run, n, ast.arg, binds=False) if run.pick(2) else None for n in ("vararg", "kwarg")]
    o = Obj(ast.arguments, dict(posonlyargs=SymList([segs["posonlyargs"]]), args=SymList([segs["params"]]), vararg=va[0], kwonlyargs=SymList([segs["kwonlyargs"]]),
                                kw_defaults=SymList([segs["kw_defaults"]]), kwarg=va[1], defaults=SymList([segs["defaults"]])))
    named = z3.Function("plain_parameter", StrS, BoolS)

    def mapped(run, seg):
        out = Seg(run.name("names of params"), lambda run, nm: run.str(nm), mem=lambda k: named(k))
        return out, lambda run, x, y: [("the name of the parameter", run.eq(y, x.fields["arg"]))], False
    run.loops["map params"] = mapped
    rest = z3.Function("other_parameter", StrS, BoolS)
    items = list(segs.values()) + [x for x in va if x is not None]
    return o, items, z3.Or(named(K), rest(K))


def function_unit(run, kind):
    me = setup(run)
    K = run.memo["K"]
    args, outer, is_param = arguments(run)
    if kind == "Lambda":
        b = piece(run, "body")
        node = Obj(ast.Lambda, dict(args=args, body=b))
        inner = [b]
        name = None
    else:
        name = run.str("name", input=True)
        body, decos = run_of(run, "body"), run_of(run, "decorators")
        ret = piece(run, "returns") if run.pick(2) else None
        node = Obj(getattr(ast, kind), dict(name=name, args=args, body=SymList([body]), decorator_list=SymList([decos]), returns=ret, type_comment=None, type_params=SymList([])))
        inner = [body]
        outer = outer + [decos] + ([ret] if ret is not None else [])
    before = state(run, me)
    run.call(run.getattr(me, "visit"), [node], {})
    reads = z3.Or(run.fold_term(RD, outer), z3.And(run.fold_term(RD, inner), z3.Not(is_param), z3.Not(run.fold_term(BD, inner))))
    binds = run.fold_term(BD, outer)
    if name is not None:
        binds = z3.Or(binds, K == name.t)
    post(run, me, before, reads, binds, z3.Or(run.fold_term(LD, outer), run.fold_term(LD, inner)), kind)


for _kind in ("FunctionDef", "AsyncFunctionDef", "Lambda"):
    unit("astalyzer.visit_" + _kind, ["C06"], FVF + ".do_visit_function", trusted=[T_GEN, T_IND])(lambda run, kind=_kind: function_unit(run, kind))


@unit("astalyzer.visit_ClassDef", ["C06"], FVF + ".visit_ClassDef", trusted=[T_GEN, T_IND])
def _(run):
    me = setup(run)
    K = run.memo["K"]
    name = run.str("name", input=True)
    body, outer = run_of(run, "body"), [run_of(run, "decorators"), run_of(run, "bases"), run_of(run, "keywords")]
    node = Obj(ast.ClassDef, dict(name=name, bases=SymList([outer[1]]), keywords=SymList([outer[2]]), body=SymList([body]), decorator_list=SymList([outer[0]]), type_params=SymList([])))
    before = state(run, me)
    run.call(run.getattr(me, "visit"), [node], {})
    reads = z3.Or(run.fold_term(RD, outer), run.fold_term(RB, [body]))
    post(run, me, before, reads, z3.Or(run.fold_term(BD, outer), K == name.t), z3.Or(run.fold_term(LD, outer), run.fold_term(LD, [body])), "ClassDef")


COMPS = ("ListComp", "SetComp", "DictComp", "GeneratorExp")


TB = Fold("targets bind", "any", lambda run, x: x.ghost["target binds"])
WB = Fold("parts bind", "any", lambda run, x: x.ghost["parts bind"])


def further(run, nm):
    """one of the further `for ... in ...` of a comprehension"""
    t, i, c = piece(run, nm + ".target"), piece(run, nm + ".iter"), piece(run, nm + ".if")
    o = Obj(ast.comprehension, dict(target=t, iter=i, ifs=SymList([c]), is_async=0), name=nm)
    o.ghost.update(piece=True, **{"target binds": t.ghost["binds"], "parts bind": OR(i.ghost["binds"], c.ghost["binds"])})
    for g in ("reads", "binds", "loads"):
        o.ghost[g] = OR(*[x.ghost[g] for x in (t, i, c)])
    return o


@unit("astalyzer.visit_comprehension", ["C06"], FVF + ".visit_comprehension_expression", trusted=[T_GEN, T_IND])
def _(run):
    """the targets are local to the comprehension, all but its first iterable is evaluated inside it"""
    me = setup(run)
    kind = COMPS[run.pick(4)]
    it = piece(run, "first iterable", binds=False)
    tgt = piece(run, "target")
    ifs = run_of(run, "conditions")
    first = Obj(ast.comprehension, dict(target=tgt, iter=it, ifs=SymList([ifs]), is_async=0))
    rest_t, rest = run_of(run, "other targets"), run_of(run, "other parts")
    gens = [first]
    if run.pick(2):
        more = Obj(ast.comprehension, dict(target=piece(run, "second target"), iter=piece(run, "second iterable"), ifs=SymList([run_of(run, "second conditions")]), is_async=0))
        gens.append(more)
    inner = [piece(run, "element")] + ([piece(run, "value")] if kind == "DictComp" else [])
    node = Obj(getattr(ast, kind), dict(generators=SymList(list(gens))))
    for f, x in zip(("key", "value") if kind == "DictComp" else ("elt",), inner):
        node.fields[f] = x
    targets = [tgt]
    inner = inner + [ifs]
    more_t = more_b = z3.BoolVal(False)
    if len(gens) == 2:
        if run.pick(2):
            # and any number of further ones
            seg = Seg("more comprehensions", further)
            run.getattr(node, "generators").items.append(seg)
            rb, rd, bd, ld, more_t, more_b = (run.fold_term(f, [seg]) for f in (RB, RD, BD, LD, TB, WB))
            run.assume([z3.Implies(A(rd, NOT(bd)), rb), z3.Implies(rb, rd), z3.Implies(rd, ld), bd == OR(more_t, more_b)])
            inner.append(seg)
        targets.append(gens[1].fields["target"])
        inner += [gens[1].fields["iter"]] + gens[1].fields["ifs"].items
    before = state(run, me)
    run.call(run.getattr(me, "visit"), [node], {})
    local = OR(run.fold_term(BD, targets), more_t)
    reads = z3.Or(it.ghost["reads"], z3.And(run.fold_term(RD, inner + targets), z3.Not(local)))
    binds = OR(run.fold_term(BD, [x for x in inner if not isinstance(x, Seg) or x is ifs or not x.name.startswith("more")]), more_b)       # := binds in the surrounding function
    post(run, me, before, reads, binds, z3.Or(it.ghost["loads"], run.fold_term(LD, inner + targets)), kind)


@unit("astalyzer.visit_Name", ["C06"], FVF + ".visit_Name", trusted=[T_GEN])
def _(run):
    me = setup(run)
    K = run.memo["K"]
    ident = run.str("id", input=True)
    ctx = (ast.Load, ast.Store, ast.Del)[run.pick(3)]
    node = Obj(ast.Name, dict(id=ident, ctx=Obj(ctx)))
    before = state(run, me)
    run.call(run.getattr(me, "visit"), [node], {})
    is_k = K == ident.t
    F = z3.BoolVal(False)
    post(run, me, before, is_k if ctx is ast.Load else F, F if ctx is ast.Load else is_k, F if ctx is ast.Store else is_k, ctx.__name__)


@unit("astalyzer.other-syntax", ["C06"], FVF + ".visit_Name", trusted=[T_GEN, T_IND])
def _(run):
    """every other kind of syntax reads and binds what its parts do"""
    C = cls(FVF)
    own = {"Name", "FunctionDef", "AsyncFunctionDef", "Lambda", "ClassDef", "arguments"} | set(COMPS)
    special = sorted(n[6:] for n in dir(C) if n.startswith("visit_") and isinstance(getattr(ast, n[6:], None), type) and n[6:] not in own and getattr(C, n) is not getattr(ast.NodeVisitor, n, None))
    kinds = special + ["BinOp", "Call", "Assign", "For", "With"]
    kind = kinds[run.pick(len(kinds))]
    me = setup(run)
    K = getattr(ast, kind)
    parts = []
    node = Obj(K)
    for f in K._fields:
        if f in ("name", "id", "attr", "arg", "op", "ctx", "type_comment", "value" if kind == "Constant" else "", "kind", "simple", "names", "module", "level", "rest"):
            node.fields[f] = None
        elif f in ("targets", "body", "orelse", "args", "keywords", "elts", "values", "keys", "ifs", "items", "handlers", "finalbody", "generators", "ops", "comparators", "patterns", "cases", "decorator_list", "bases"):
            parts.append(run_of(run, run.name("parts in " + f)))
            node.fields[f] = SymList([parts[-1]])
        else:
            p = piece(run, f)
            parts.append(p)
            node.fields[f] = p
    before = state(run, me)
    run.call(run.getattr(me, "visit"), [node], {})
    post(run, me, before, run.fold_term(RB, parts), run.fold_term(BD, parts), run.fold_term(LD, parts), kind)


@unit("astalyzer.get_free_variables", ["C06"], FVF + ".get_free_variables")
def _(run):
    """the free variables are the variables that the code does not bind"""
    me = setup(run)
    K = run.memo["K"]
    v, m, g = state(run, me)
    r = run.call(run.getattr(me, "get_free_variables"), [], {})
    run.ensure("read and not bound", r.mem(K) == z3.And(v, z3.Not(m), z3.Not(g)))
    new = run.call(cls(FVF), [], {})
    v, m, g = state(run, new)
    run.ensure("a new finder knows nothing", z3.Not(z3.Or(v, m, g)))
    names = SymList([run.str("masked name")])
    new = run.call(cls(FVF), [names], {})
    v, m, g = state(run, new)
    run.ensure("but the names masked from the start", A(z3.Not(z3.Or(v, g)), m == (K == names.items[0].t)))


@unit("astalyzer.for_ast", ["C06"], FVF + ".for_ast", trusted=[T_GEN, T_IND])
def _(run):
    me = setup(run)
    x = piece(run, "function")
    r = run.call(run.getattr(cls(FVF), "for_ast"), [x], {})
    run.ensure("a finder that has visited the tree", isinstance(r, Obj) and r.kinds == me.kinds)
    f = run.call(run.getattr(r, "get_free_variables"), [], {})
    run.ensure("every name the function takes from outside is free", z3.Implies(A(x.ghost["reads"], z3.Not(x.ghost["binds"])), f.mem(run.memo["K"])))
    run.ensure("only names in it are", z3.Implies(f.mem(run.memo["K"]), x.ghost["loads"]))
