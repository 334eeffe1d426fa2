"""the small functions that hold the others together: constructors, accessors, the wrappers of the passes over the tree"""
from .lib import *
from .k_nodes import ND, GEN, any_node
from .k_base import LB
from .k_pyexpr import call_error

MAKES = [("Text", ["text", "is_cdata"], {}), ("Text", ["text"], {"is_cdata": False}), ("TranslatableText", ["text", "is_cdata"], {}), ("TranslatableText", ["text"], {"is_cdata": False}),
         ("EscapedText", ["text"], {"is_cdata": False}), ("EscapedComment", ["text"], {}), ("Comment", ["text"], {}), ("Expression", ["expression"], {}), ("Code", ["source"], {}),
         ("InterpolatedExpression", ["string", "expression"], {}), ("DynamicAttributes", ["expression"], {}), ("DynamicText", [], {}), ("Root", [], {}),
         ("Element", ["name"], {"guard_expression": None, "dynamic_attrs": None}), ("Element", ["name", "guard_expression"], {"dynamic_attrs": None}), ("Define", ["funcspec"], {}),
         ("Import", ["href", "alias"], {}), ("If", ["expression"], {}), ("Unless", ["expression"], {}), ("Block", ["name"], {}), ("With", ["vars"], {}), ("Extends", ["href"], {})]
OWN = {"Element": ["children", "attributes", "constant_attributes", "mutable_attributes"], "Import": ["content"], "Text": [], "TranslatableText": [], "EscapedText": [], "EscapedComment": [],
       "Comment": [], "Expression": [], "Code": [], "InterpolatedExpression": [], "DynamicAttributes": []}


def empty(run, x):
    return isinstance(x, (SymList, SymDict)) and not (x.items if isinstance(x, SymList) else models.dict_entries(run, x))


@unit("nodes.constructors", ["C02", "C05", "C08", "C15"], ND + ":ContainerNode.__init__")
def _(run):
    """a new node holds exactly what it was made with; its containers are empty and its own"""
    name, args, rest = MAKES[run.pick(len(MAKES))]
    given = [run.bool(a) if a == "is_cdata" else run.str(a, input=True) for a in args]
    two = [run.call(cls(ND + ":" + name), list(given), {}) for _ in range(2)]
    for n in two:
        for a, v in zip(args, given):
            run.ensure_eq("%s keeps its %s" % (name, a), run.getattr(n, a), v)
        for a, v in rest.items():
            run.ensure("%s has no %s of its own" % (name, a), run.getattr(n, a) is v)
        if name in ("Text", "TranslatableText"):
            run.ensure("%s: translatable or not" % name, run.getattr(n, "translatable") is (name == "TranslatableText"))
    for a in OWN.get(name, ["children"]):
        x, y = run.getattr(two[0], a), run.getattr(two[1], a)
        run.ensure("%s begins with empty %s" % (name, a), empty(run, x) and empty(run, y))
        run.ensure("%s does not share its %s" % (name, a), x is not y)


@unit("nodes.accessors", ["C02", "C08"], ND + ":Element.set_dynamic_attrs")
def _(run):
    """what was set is what is read; only that changes"""
    guard, expr = run.str("guard", input=True), run.str("expression", input=True)
    el = run.call(cls(ND + ":Element"), [run.str("tag"), guard], {})
    con, mut = run.getattr(el, "constant_attributes"), run.getattr(el, "mutable_attributes")
    run.call(run.getattr(el, "set_dynamic_attrs"), [expr], {})
    run.ensure("the expression of the computed attributes", run.getattr(el, "dynamic_attrs") is expr)
    run.ensure("the strip expression is kept", run.call(run.getattr(el, "get_guard_expression"), [], {}) is guard)
    run.ensure("the constant attributes", run.call(run.getattr(el, "get_constant_attributes"), [], {}) is con)
    run.ensure("the computed attributes", run.call(run.getattr(el, "get_mutable_attributes"), [], {}) is mut)
    empty_value = run.call(cls(ND + ":EmptyAttrVal"), [], {})
    run.ensure_eq("an attribute without a value has no text", run.call(run.getattr(empty_value, "escaped"), [], {}), "")
    value = any_node(run, "value")
    name = run.str("name", input=True)
    m = run.call(cls(ND + ":MutableAttribute"), [name, value], {})
    kids = run.items_of(run.getattr(m, "children"))
    run.ensure("a computed attribute: its name", run.getattr(m, "name") is name)
    run.ensure("and its value, which is its only child", len(kids) == 1 and kids[0] is value and run.getattr(m, "value") is value)
    tree = run.call(cls(ND + ":IRTree"), [], {})
    root = any_node(run, "root")
    run.call(run.getattr(tree, "add_child"), [root], {})
    run.ensure("the root of the tree", run.getattr(tree, "root") is root and run.call(run.getattr(tree, "get_root"), [], {}) is root)


@unit("generate.passes", ["C02", "C15"], GEN + ":BaseIRGenerator.merge_text_nodes",
      trusted=["merge_text_nodes_on and flatten_element_nodes_on by their contracts (units generate.merge_text_nodes_on, generate.flatten_element_nodes_on)"])
def _(run):
    """each pass over the tree works on its root, once, and gives the same tree on"""
    name, on = [("merge_text_nodes", ":BaseIRGenerator.merge_text_nodes_on"), ("flatten_element_nodes", ":BaseDOMIRGenerator.flatten_element_nodes_on")][run.pick(2)]
    g = Obj(cls(GEN + ":BaseDOMIRGenerator"), name="self")
    root = any_node(run, "root", ["Root"])
    tree = Obj(cls(ND + ":IRTree"), dict(root=root), name="tree")
    seen = []
    stub(run, GEN + on, lambda run, a, k: seen.append(a))
    r = run.call(run.getattr(g, name), [tree], {})
    run.ensure("the pass is made once, over the root", len(seen) == 1 and seen[0][-1] is root)
    run.ensure("the same tree is handed on", r is tree and run.getattr(tree, "root") is root)


@unit("generate.all_set", ["C02"], GEN + ":all_set.__contains__")
def _(run):
    run.ensure("in the XML mode every element may be empty", run.call(run.getattr(run.call(cls(GEN + ":all_set"), [], {}), "__contains__"), [run.str("name", input=True)], {}) is True)


@unit("base.LanguageNode.add_child", ["C13"], LB + ":LanguageNode.add_child")
def _(run):
    """content given to a node that cannot have any is refused, not dropped"""
    if run.pick(2):
        n = run.call(cls(LB + ":LanguageNode"), [], {})
        f, a = run.getattr(n, "add_child"), [opaque(run, "child")]
    else:
        f, a = fn(LB + ":unimplemented"), [opaque(run, "self"), run.str("x")]
    r, e = call_error(run, lambda: run.call(f, a, {}))
    run.ensure("refused", e is not None and run.isinstance(e.value, NotImplementedError) is True)
