"""tonnikala.languages.python.generator: syntax trees and their locations"""
from .lib import *

PG = "tonnikala.languages.python.generator"
LOC = ("lineno", "col_offset", "end_lineno", "end_col_offset")


# every class of syntax tree nodes: the ones without a location, the ones with one
LEAVES = [c for c in vars(ast).values() if isinstance(c, type) and issubclass(c, ast.AST) and c.__module__ in ("ast", "_ast") and not c.__subclasses__() and c.__base__ is not ast.AST.__base__]
NODES = [[c for c in LEAVES if "lineno" not in c._attributes], [c for c in LEAVES if "lineno" in c._attributes]]


def tree_node(run, nm, located=None):
    """a node of a parsed syntax tree: with all four location attributes or none"""
    if located is None:
        located = run.pick(2)
    o = Obj(NODES[located], name=nm)
    o.ghost["subtree"] = 0
    if located:
        o.ghost["at"] = tuple(run.int("%s.%s" % (nm, a), input=True) for a in LOC)
        for a, v in zip(LOC, o.ghost["at"]):
            o.fields[a] = v
    return o


def children_of(run, root, single=None):
    """iter_child_nodes and walk: the children (subtrees), and all nodes one by one"""
    seen = {}
    kids = Seg("children", lambda run, nm: tree_node(run, nm))
    alln = Seg("nodes", lambda run, nm: tree_node(run, nm))

    def kind(k):
        def f(run, a, kw):
            if a[0] is not root:
                raise Unsupported("nodes below a child")
            return SymTuple([root, alln] if k == "walk" else [kids])
        return f
    run.models[ast.iter_child_nodes] = kind("children")
    run.models[ast.walk] = kind("walk")

    def loop(name, done):
        def inv(ctx):
            if ctx.pre and ctx.exit is False and len(ctx.pre) > 1:
                return done(ctx.x)
            return []

        def leave(ctx):
            seen[name] = seen.get(name, 0) + 1
        return Loop(lambda ctx: None, inv, exit=leave)
    return seen, loop


def shifted(run, o, line, col):
    """the location of the node is the one it has in the template"""
    if "at" not in o.ghost:
        return [("a node without a location gets none", not has(o, LOC))]
    l, c, el, ec = (x.t for x in o.ghost["at"])
    now = [run.getattr(o, a) for a in LOC]
    return [("the line is moved to where the text stands", zi(now[0]) == l + line - 1),
            ("the column of the first line is moved", zi(now[1]) == z3.If(l == 1, c + col, c)),
            ("the last line is moved", zi(now[2]) == el + line - 1),
            ("the last column is moved", zi(now[3]) == z3.If(el == 1, ec + col, ec))]


def has(o, names):
    return any(o.fields.get(a, DELETED) is not DELETED for a in names)


def unchanged(o):
    return "at" not in o.ghost or all(o.fields.get(a) is v for a, v in zip(LOC, o.ghost["at"]))


def recursive(run, key):
    def f(run, c, a, k):
        if len(a) != 1 or k or not isinstance(a[0], Obj) or "subtree" not in a[0].ghost or not unchanged(a[0]):
            raise Unsupported("recursion without a contract")
        a[0].ghost["subtree"] += 1
    run.recursion = f


@unit("pygen.adjust_locations", ["C14", "C17"], PG + ":adjust_locations", trusted=["ast.iter_child_nodes gives the children of a node, ast.walk all nodes below it", "the syntax tree is a tree: no node is reached twice, except the shared nodes without a location"])
def _(run):
    """every node of the tree is moved once: by the line, and on the first line also by the column, at which the text
    stands; the subtrees by the same contract (induction over the height)"""
    root = tree_node(run, "root")
    line, col = run.int("line", input=True), run.int("column", input=True)
    seen, loop = children_of(run, root)
    run.loops["children"] = loop("children", lambda x: [("each subtree is moved once", x.ghost["subtree"] == 1 and unchanged(x))])
    run.loops["nodes"] = loop("nodes", lambda x: shifted(run, x, line.t, col.t))
    recursive(run, None)
    run.call(fn(PG + ":adjust_locations"), [root, line, col], {})
    run.ensure("all nodes below are moved, once", sum(seen.values()) == 1)
    for l, c in shifted(run, root, line.t, col.t):
        run.ensure(l, c)


@unit("pygen.remove_locations", ["C14"], PG + ":remove_locations", trusted=["ast.iter_child_nodes gives the children of a node, ast.walk all nodes below it"])
def _(run):
    """the line and column of generated code are removed, on every node (fix_missing_locations then gives them anew)"""
    root = tree_node(run, "root")
    seen, loop = children_of(run, root)

    def bare(x):
        return [("no line and column is left", not has(x, ("lineno", "col_offset")))]
    run.loops["children"] = loop("children", lambda x: [("each subtree is visited", x.ghost["subtree"] >= 1 and unchanged(x))])
    run.loops["nodes"] = loop("nodes", bare)
    recursive(run, None)
    run.call(fn(PG + ":remove_locations"), [root], {})
    run.ensure("all nodes below are visited", sum(seen.values()) >= 1)
    for l, c in bare(root):
        run.ensure(l, c)


@unit("pygen.get_fragment_ast", ["C06", "C13", "C14"], PG + ":get_fragment_ast", trusted=["ast.parse gives the syntax tree of the text, or raises a SyntaxError, whose line is counted from one in the text or unknown, or a ValueError", "a newline at the end of a text does not change its syntax tree"])
def _(run):
    """the syntax tree of exactly the given text, moved to where the text stands; text that does not parse is a template
    syntax error at its line"""
    if run.pick(2):
        tree = Obj(ast.Name, dict(id="x", ctx=Obj(ast.Load)))
        run.ensure("a tree is kept", run.call(fn(PG + ":get_fragment_ast"), [tree], {}) is tree)
        return
    t = run.str("text", input=True)
    line, col = run.int("line", input=True), run.int("column", input=True)
    located = run.pick(2)
    x = Obj(cls("tonnikala.helpers:StringWithLocation"), dict(position=(line, col)), sval=t) if located else t
    l0, c0 = (line.t, col.t) if located else (z3.IntVal(1), z3.IntVal(0))
    args, kw = [x], {}
    mode = (None, "exec", "eval")[run.pick(3)]
    if mode:
        kw["mode"] = mode
    if run.pick(2):
        d = (run.int("line adjustment", input=True), run.int("column adjustment", input=True))
        kw["adjust"] = d
        l0, c0 = l0 + d[0].t, c0 + d[1].t
    body = opaque(run, "body")
    tree = Obj([ast.Expression] if mode != "exec" else [ast.Module], dict(body=body), name="tree")
    moved = []
    msg = run.str("message", input=True)
    at = [None]

    def parse(run, a, k):
        got = zs(a[0])
        run.ensure("the text itself is parsed", OR(got == t.t, got == concat(t.t, SV("\n"))))
        m = k.get("mode", a[2] if len(a) > 2 else "exec")
        run.ensure("as the kind of text it is", run.eq(m, mode or "eval") is True)
        bad = run.pick(4)
        if bad in (1, 2):
            e = Obj(SyntaxError, dict(msg=msg, lineno=None if bad == 2 else run.int("line of the error", input=True), filename="<unknown>", offset=1, text=None))
            e.fields["args"] = (msg,)
            at[0] = e.fields["lineno"]
            if at[0] is not None:
                run.assume(at[0].t >= 1)
            raise PyExc(e)
        if bad == 3:
            e = Obj(UnicodeEncodeError, dict(args=("utf-8", "x", 1, 2, msg), encoding="utf-8", object="x", start=1, end=2, reason=msg))
            raise PyExc(e)
        return tree
    run.models[ast.parse] = parse

    def adjust(run, a, k):
        v = list(a) + [k[n] for n in ("ast_node", "first_lineno", "first_offset")[len(a):]]
        run.ensure("the tree is moved", v[0] is tree)
        run.ensure("to where the text stands", A(zi(v[1]) == l0, zi(v[2]) == c0))
        moved.append(1)
    stub(run, PG + ":adjust_locations", adjust)
    try:
        r = run.call(fn(PG + ":get_fragment_ast"), args, kw)
    except PyExc as e:
        v = e.value
        run.ensure("text that does not parse is a template syntax error", isinstance(v, Obj) and v.kinds == [cls("tonnikala.runtime.exceptions:TemplateSyntaxError")])
        run.ensure("with the message", run.eq(run.getattr(v, "message"), msg))
        if at[0] is not None:
            run.ensure("at the line of the template", zi(run.getattr(v, "lineno")) == at[0].t + l0 - 1)
        else:
            run.ensure("at a line of the text", zi(run.getattr(v, "lineno")) == l0)
        return
    run.ensure("the tree is moved once", len(moved) == 1)
    run.ensure("the content of the tree is given", r is body)


@unit("pygen.Generator.generate_ast", ["C14", "C17"], PG + ":Generator.generate_ast", trusted=["ast.fix_missing_locations gives a location to the nodes without one, from the nearest one around or before, and changes no other"])
def _(run):
    """the tree of the root node is generated once and every node gets a location; the lines of the program are those of
    the template (the table of other lines is empty)"""
    root = opaque(run, "ir root")
    tree = opaque(run, "tree")
    ev = []

    def add(run, a, k):
        run.ensure("the children of the template are added to the root node", a[1] is root and isinstance(a[2], Obj) and a[2].kinds == [cls(PG + ":PyRootNode")])
        ev.append(("children", a[2]))
    stub(run, "tonnikala.languages.base:BaseGenerator.add_children", add)

    def gen(run, a, k):
        run.ensure("the code of that root node is generated, with the children", ev == [("children", a[0])] and a[1] is g)
        ev.append(("generate",))
        return tree
    stub(run, PG + ":PyRootNode.generate_ast", gen)
    run.models[ast.fix_missing_locations] = lambda run, a, k: (ev.append(("fix", a[0])), a[0])[1]
    ir = opaque(run, "ir tree", getattr=lambda run, v, at: root if at == "root" else MISSING)
    g = run.call(cls(PG + ":Generator"), [ir], {})
    r = run.call(run.getattr(g, "generate_ast"), [], {})
    run.ensure("the result is the tree of the root node", r is tree)
    run.ensure("generated once, and every node gets a location", [e[0] for e in ev] == ["children", "generate", "fix"] and ev[2][1] is tree)
    t = run.call(run.getattr(g, "lnotab_info"), [], {})
    run.ensure("lines are those of the template", isinstance(t, SymDict) and not run.truth(t))
