"""tonnikala.languages.base: from the intermediate tree to language nodes; tonnikala.ir.nodes.IRTree"""
from .lib import *

LB = "tonnikala.languages.base"
ND = "tonnikala.ir.nodes"

# IR class -> (language node, positional arguments taken from the fields, keyword arguments)
SPEC = {
    "TranslatableText": ("TranslatableOutputNode", ["text"], {"needs_escape": "needs_escape"}),
    "Text": ("OutputNode", ["escaped"], {}), "EscapedText": ("OutputNode", ["escaped"], {}), "EscapedComment": ("OutputNode", ["escaped"], {}),
    "If": ("IfNode", ["expression"], {}), "Unless": ("UnlessNode", ["expression"], {}), "For": ("ForNode", ["expression", "parts"], {}),
    "Define": ("DefineNode", ["funcspec"], {}), "DynamicText": ("ComplexExprNode", [], {}), "Expression": ("ExpressionNode", ["expression"], {}),
    "InterpolatedExpression": ("ExpressionNode", ["expression"], {}), "Import": ("ImportNode", ["href", "alias"], {}),
    "MutableAttribute": ("AttributeNode", ["name", "value"], {}), "DynamicAttributes": ("AttrsNode", ["expression"], {}),
    "Extends": ("ExtendsNode", ["href"], {}), "Block": ("BlockNode", ["name"], {}), "Code": ("CodeNode", ["source"], {}), "With": ("WithNode", ["vars"], {}),
}
NODES = sorted({v[0] for v in SPEC.values()})
CONTAINERS = {"If", "Unless", "For", "Define", "DynamicText", "MutableAttribute", "Extends", "Block", "With"}


def generator(run, made):
    def mk(name):
        def f(run, a, k):
            o = opaque(run, name)
            made.append((name, a, k, o))
            return o
        return Native(f, name)
    return Obj(cls(LB + ":BaseGenerator"), {n: mk(n) for n in NODES})


@unit("base.add_child", ["C02", "C05", "C01", "C15", "C08", "C09"], LB + ":BaseGenerator.add_child", trusted=["Text.escaped by its contract (unit nodes.Text.escaped)"])
def _(run):
    """every node of the tree becomes exactly one language node of its kind, made from exactly its own text or expression,
    and is added once; the children of a container are added to the node made for it"""
    names = sorted(SPEC)
    name = names[run.pick(len(names))]
    want, pos, kw = SPEC[name]
    node = Obj(cls(ND + ":" + name), name=name.lower())
    for f in set(pos) | set(kw.values()) | {"text"}:
        if f not in ("escaped", "needs_escape"):
            node.fields[f] = run.str(f)
    node.fields["children"] = SymList([Seg("children", lambda run, nm: opaque(run, nm))])
    escaped = run.str("escaped text")
    node.fields["escaped"] = Native(lambda run, a, k: escaped, "escaped")
    node.fields["is_cdata"] = run.bool("is_cdata")
    made, added, down = [], [], []
    g = generator(run, made)
    target = opaque(run, "target", getattr=lambda run, v, a: Native(lambda run, x, k: added.append(x), a) if a == "add_child" else MISSING)
    stub(run, LB + ":BaseGenerator.add_children", lambda run, a, k: down.append(list(a[1:]) + list(k.values())))
    run.call(run.getattr(g, "add_child"), [node, target], {})
    run.ensure("%s: one language node, of the kind for it" % name, len(made) == 1 and made[0][0] == want)
    n, a, k, o = made[0]
    by = {"text": node.fields.get("text"), "escaped": escaped}
    names_of = dict(zip(pos, a))
    run.ensure("%s: made from what the node has" % name, len(a) + len(k) == len(pos) + len(kw))
    for i, f in enumerate(pos):
        x = a[i] if i < len(a) else None
        run.ensure("%s: %s is the node's own" % (name, f), x is (escaped if f == "escaped" else node.fields[f]))
    for f, at in kw.items():
        x = k.get(f)
        run.ensure("%s: %s" % (name, f), zb(x) == NOT(node.fields["is_cdata"].t) if x is not None else False)
    run.ensure("%s: added to its parent once" % name, len(added) == 1 and len(added[0]) == 1 and added[0][0] is o)
    if name in CONTAINERS:
        run.ensure("%s: its children are added to it, once" % name, len(down) == 1 and down[0][0] is node and down[0][1] is o)
    else:
        run.ensure("%s: nothing else is added" % name, len(down) == 0)


TOK = Fold("nodes", "str", lambda run, x: x.ghost["tok"])


def tok_node(run, nm):
    o = opaque(run, nm)
    o.ghost["tok"] = z3.String(run.name("node " + nm))
    return o


@unit("base.add_children", ["C02", "C05"], LB + ":BaseGenerator.add_children", trusted=["add_child by its contract (unit base.add_child)"])
def _(run):
    """every child is added to the target, once, in order"""
    trace = [SV("")]
    target = opaque(run, "target")
    seg = Seg("children", tok_node)
    node = Obj(cls(ND + ":If"), dict(children=SymList([seg])))

    def add(run, a, k):
        run.ensure("the target is the given one", a[2] is target)
        trace[0] = concat(trace[0], a[1].ghost["tok"])
    stub(run, LB + ":BaseGenerator.add_child", add)

    def havoc(ctx):
        trace[0] = z3.String(run.name("added so far"))
    run.loops["children"] = Loop(havoc, lambda ctx: [("every child so far is added, in order", trace[0] == run.fold_term(TOK, ctx.pre))])
    g = generator(run, [])
    run.call(run.getattr(g, "add_children"), [node, target], {})
    run.ensure("every child is added once, in order", trace[0] == run.fold_term(TOK, [seg]))


@unit("base.generate_ast", ["C02"], LB + ":BaseGenerator.generate_ast", trusted=["add_children by its contract (unit base.add_children)"])
def _(run):
    """the children of the root of the tree are added to the root node, whose program is the result"""
    made, down = [], []
    g = generator(run, made)
    root = opaque(run, "root")
    result = opaque(run, "program")
    rn = opaque(run, "root node", getattr=lambda run, v, a: Native(lambda run, x, k: result if x[0] is g and down else None, a) if a == "generate_ast" else MISSING)
    g.fields["RootNode"] = Native(lambda run, a, k: rn, "RootNode")
    g.fields["tree"] = opaque(run, "tree", getattr=lambda run, v, a: root if a == "root" else MISSING)
    stub(run, LB + ":BaseGenerator.add_children", lambda run, a, k: down.append(a[1:]))
    r = run.call(run.getattr(g, "generate_ast"), [], {})
    run.ensure("the program of the root node", r is result)
    run.ensure("which has the children of the root of the tree", len(down) == 1 and down[0][0] is root and down[0][1] is rn)


@unit("base.ComplexNode.add_child", ["C02"], LB + ":ComplexNode.add_child")
def _(run):
    n = run.call(cls(LB + ":ComplexNode"), [], {})
    seg = Seg("children", tok_node)
    run.getattr(n, "children").items = [seg]
    x = tok_node(run, "x")
    run.call(run.getattr(n, "add_child"), [x], {})
    k = run.getattr(n, "children").items
    run.ensure("the child is added at the end", run.fold_term(TOK, k) == concat(run.fold_term(TOK, [seg]), x.ghost["tok"]))
    m = run.call(cls(LB + ":ComplexNode"), [], {})
    run.ensure("nodes do not share their children", run.getattr(m, "children") is not run.getattr(n, "children") and len(run.getattr(m, "children").items) == 0)


# --------------------------------------------------------------------------- the walk over the whole tree
W = Fold("weight", "int", lambda run, x: x.ghost["weight"])
SUB = Fold("subtree weight", "int", lambda run, x: subtree(run, x))


TREE_KINDS = node_classes()


def tree_node(run, nm):
    """a node of the tree: weight is an arbitrary number, the subtree has the node's own and the weights of its subtrees"""
    o = opaque(run, nm)
    o.ghost["weight"] = z3.Int(run.name("weight of " + nm))
    kind = z3.Int(run.name("kind of " + nm))
    run.assume(A(kind >= 0, kind < len(TREE_KINDS)))
    has = OR(*[kind == i for i, n in enumerate(TREE_KINDS) if issubclass(cls(ND + ":" + n), cls(ND + ":ContainerNode"))])
    base = o.ghost["getattr"]
    kids = SymList([Seg(run.name("children"), tree_node)])
    made = []

    def value(run):
        # the only child of an attribute
        if not made:
            made.append(tree_node(run, nm + ".value"))
            kids.items = [made[0]]
        return made[0]

    def isinst(run, v, c):
        return OR(*[kind == i for i, n in enumerate(TREE_KINDS) if issubclass(cls(ND + ":" + n), c)])
    o.ghost["kids"], o.ghost["has"] = kids, has
    o.ghost["sub"] = z3.Int(run.name("subtree of " + nm))

    def ga(run, v, a):
        if a == "children":
            return kids if run.fork(has) else MISSING
        if a == "value" and run.fork(kind == TREE_KINDS.index("MutableAttribute")):
            return value(run)
        return base(run, v, a)
    o.ghost["isinstance"] = isinst
    o.ghost["unfold"] = lambda: value(run) if run.fork(kind == TREE_KINDS.index("MutableAttribute")) else None
    o.ghost["getattr"] = ga
    o.ghost["hasattr"] = lambda run, v, a: has if a == "children" else False
    return o


def subtree(run, x):
    return x.ghost["sub"]


def unfold(run, x):
    """definition of the weight of a subtree"""
    x.ghost["unfold"]()
    run.assume(x.ghost["sub"] == x.ghost["weight"] + z3.If(x.ghost["has"], run.fold_term(SUB, x.ghost["kids"].items), z3.IntVal(0)))


@unit("nodes.IRTree.iter", ["C19"], ND + ":IRTree.__iter__")
def _(run):
    """iterating over the tree yields every node below the root exactly once: for any weights of the nodes, the sum over
    what is yielded is the sum over the tree"""
    root = tree_node(run, "root")
    t = run.call(cls(ND + ":IRTree"), [], {})
    run.call(run.getattr(t, "add_child"), [root], {})
    want = root.ghost["sub"]
    fr = []

    def made(o):
        # the node taken off the work list
        unfold(run, o)
        return o

    def mk(run, nm):
        o = tree_node(run, nm)
        unfold(run, o)
        return o
    unfold(run, root)

    def havoc(ctx):
        ctx.set("stack", SymList([Seg(run.name("stack"), mk)]))
        y = SymList([Seg(run.name("yielded"), mk)])
        ctx.modifies(y)
        ctx.frame.yields = y
        fr.append(ctx.frame)

    def inv(ctx):
        return [("yielded and still to visit are the tree", run.fold_term(W, ctx.frame.yields.items) + run.fold_term(SUB, ctx.get("stack").items) == want)]
    run.loops[("loop", "IRTree.__iter__", 0)] = Loop(havoc, inv)
    r = run.iter_items(run.call(fn(ND + ":IRTree.__iter__"), [t], {}))
    run.ensure("every node of the tree is yielded once", run.fold_term(W, r) == want)
