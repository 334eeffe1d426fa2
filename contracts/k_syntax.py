"""tonnikala.syntaxes.tonnikala: control elements and attributes of the DOM, the IR they become"""
from .lib import *
from .k_nodes import DENN, any_node, kids_seg, token, validator, Rejected
from xml.dom.minidom import Node

TS = "tonnikala.syntaxes.tonnikala"
G = TS + ":TonnikalaIRGenerator"
ND = "tonnikala.ir.nodes"
GEN = "tonnikala.ir.generate"
TSE = "tonnikala.runtime.exceptions:TemplateSyntaxError"


class Dom:
    """a DOM element: its name, its position, and its attributes: known ones, each present or not, and any others"""
    def __init__(self, run, gen, tag, known=(), required=(), others=True, mkval=None):
        self.run, self.P = run, zs(gen.fields["control_prefix"])
        self.keys = {}
        for n in known:
            self.keys[n] = concat(self.P, SV(n))
        for n in required:
            self.keys[n + "!"] = SV(n)
        self.have, self.removed = {}, set()
        self.mkval = mkval or self.located
        self.line, self.col = run.int("line"), run.int("col")
        self.tag = tag
        self.others = Seg("others", self.other) if others else None
        self.v = opaque(run, "dom_node", getattr=self.getattr, truth=True)
        self.attributes = opaque(run, "attributes", getattr=lambda run, v, a: Native(self.items) if a == "items" else MISSING, iter=lambda run, v: [k for k, _ in self.items(run, [], {})])
        self.xmlns = zs(gen.fields["xmlns"]) if "xmlns" in gen.fields else None
        self.children = opaque(run, "children of dom_node")

    def located(self, run, name):
        o = opaque(run, "position of " + name)
        s = Obj(cls("tonnikala.helpers:StringWithLocation"), dict(position=(run.int(name + ".line"), run.int(name + ".col"))), sval=run.str(name, input=True))
        return s

    def other(self, run, nm):
        k = run.str(nm + ".name", input=True)
        for t in self.keys.values():
            run.assume(k.t != t)
        if self.xmlns is not None:
            run.assume(k.t != self.xmlns)
        v = self.located(run, nm + ".value") if run.pick(2) == 0 else None
        return (k, v)

    def find(self, run, key):
        t = z3.simplify(zs(key))
        for n, kt in self.keys.items():
            if z3.simplify(kt).eq(t):
                return n
        if self.xmlns is not None and z3.simplify(self.xmlns).eq(t):
            return "xmlns!"
        raise Unsupported("attribute %s of a DOM element" % t)

    def get(self, run, n):
        """the attribute as the element came: MISSING when it has none"""
        if n not in self.have:
            self.have[n] = self.mkval(run, n) if run.pick(2) else MISSING
        return self.have[n]

    def now(self, run, n):
        return MISSING if n in self.removed else self.get(run, n)

    def items(self, run, a, k):
        out = []
        for n, t in list(self.keys.items()) + ([("xmlns!", self.xmlns)] if self.xmlns is not None else []):
            v = self.now(run, n)
            if v is not MISSING:
                out.append((mks(t), v))
        if self.others is not None:
            out.append(self.others)
        return SymList(out)

    def getattr(self, run, v, a):
        if a in ("tagName", "name", "nodeName"):
            return self.tag
        if a == "position":
            return (self.line, self.col)
        if a == "attributes":
            return self.attributes
        if a == "hasAttribute":
            return Native(lambda run, a, k: self.now(run, self.find(run, a[0])) is not MISSING)
        if a == "getAttribute":
            def get(run, a, k):
                r = self.now(run, self.find(run, a[0]))
                return "" if r is MISSING else r
            return Native(get)
        if a == "removeAttribute":
            def rem(run, a, k):
                n = self.find(run, a[0])
                if self.now(run, n) is MISSING:
                    from xml.dom import NotFoundErr
                    run.throw(NotFoundErr)
                self.removed.add(n)
            return Native(rem)
        return MISSING


def generator(run, prefix=None):
    g = Obj(cls(G), name="self")
    P = z3.String("control_prefix")
    run.assume(A(z3.Length(P) >= 2, z3.SuffixOf(SV(":"), P)))
    g.fields["control_prefix"] = SymStr(P)
    g.fields["xmlns"] = SymStr(z3.String("xmlns attribute"))
    g.fields["source"] = opaque(run, "source")
    g.fields["filename"] = opaque(run, "filename")
    return g


def an_error(run, e, g):
    run.ensure("only a template syntax error is raised", run.isinstance(e.value, cls(TSE)) is True)
    run.ensure("with the template's file name and source", run.getattr(e.value, "filename") is g.fields["filename"] and run.getattr(e.value, "source") is g.fields["source"])


CONTROL_ELEMENTS = {"extends": ("Extends", ["href"]), "block": ("Block", ["name"]), "if": ("If", ["test"]), "for": ("For", ["each"]), "def": ("Define", ["function"]),
                    "import": ("Import", ["href", "alias"]), "with": ("With", ["vars"]), "vars": ("With", ["names"])}
CONTROL_ATTRS = [("block", "Block"), ("if", "If"), ("for", "For"), ("def", "Define"), ("with", "With"), ("vars", "With")]
ARG = {"Extends": ["href"], "Block": ["name"], "If": ["expression"], "For": ["expression"], "Define": ["funcspec"], "Import": ["href", "alias"], "With": ["vars"]}


@unit("syntax.control_name", ["C02", "C13"], G + ".control_name")
def _(run):
    """a name is a control name exactly when it has the prefix; its rest is what it controls"""
    g = generator(run)
    P = zs(g.fields["control_prefix"])
    s = run.str("name", input=True)
    r = run.call(fn(G + ".control_name"), [g, s], {})
    has = z3.PrefixOf(P, s.t)
    if r is None:
        run.ensure("None only for names without the prefix", NOT(has))
    else:
        run.ensure("only names with the prefix", has)
        run.ensure("prefix and rest are the name", concat(P, zs(r)) == s.t)
    m = run.str("match", input=True)
    b = run.call(fn(G + ".is_control_name"), [g, s, m], {})
    bt = run.truth_term(b)
    run.ensure("it is the control name asked for exactly when prefix and name make it up", bt == (s.t == concat(P, m.t)))


@unit("syntax.grab_control_attr", ["C02", "C13"], G + ".grab_and_remove_control_attr")
def _(run):
    """the value of the control attribute, taken from the element; None when it has none; nothing else is touched"""
    g = generator(run)
    d = Dom(run, g, run.str("tag"), known=["x"])
    r = run.call(fn(G + ".grab_and_remove_control_attr"), [g, d.v, "x"], {})
    v = d.get(run, "x")
    if v is MISSING:
        run.ensure("None when there is no such attribute", r is None)
        run.ensure("nothing is removed", not d.removed)
    else:
        run.ensure("its value", r is v)
        run.ensure("it is taken from the element, and only it", d.removed == {"x"})


def control_name_contract(run, tags):
    """the tag is one of the control names, an unknown control name, or no control name"""
    def f(run, a, k):
        t = zs(a[-1])
        if not t.eq(tags["term"]):
            raise Unsupported("control name of another string")
        return tags["name"]
    stub(run, G + ".control_name", f)


def pick_tag(run, g, names):
    i = run.pick(len(names) + 2)
    P = zs(g.fields["control_prefix"])
    if i < len(names):
        return dict(term=concat(P, SV(names[i])), name=names[i])
    s = run.str("tag", input=True)
    if i == len(names):
        run.assume(NOT(z3.PrefixOf(P, s.t)))
        return dict(term=s.t, name=None)
    rest = run.str("rest", input=True)
    for n in list(CONTROL_ELEMENTS) + ["replace"]:
        run.assume(rest.t != SV(n))
    return dict(term=concat(P, rest.t), name=rest)


def for_stub(run):
    def mk(run, a, k):
        o = Obj(cls(ND + ":For"), dict(expression=a[0] if a else k["expression"], children=SymList([])))
        return o
    stub(run, ND + ":For", mk)


@unit("syntax.create_control_nodes", ["C05", "C02", "C13", "C09"], G + ".create_control_nodes", limit=300,
      trusted=["control_name by its own contract", "For.__init__ by its own contract"])
def _(run):
    """the control element and the control attributes become nodes nested in the documented order
    (element > block > if > for > def > with > vars), each at its own position; a control element lacking a required
    attribute is rejected at its own line"""
    g = generator(run)
    for_stub(run)
    tag = pick_tag(run, g, list(CONTROL_ELEMENTS))
    control_name_contract(run, tag)
    kind = tag["name"] if isinstance(tag["name"], str) and tag["name"] in CONTROL_ELEMENTS else None
    req = CONTROL_ELEMENTS[kind][1] if kind else []
    valueless = run.pick(3)          # no attribute, "if" or "vars" without a value

    def mkval(run, n):
        if (valueless == 1 and n == "if") or (valueless == 2 and n == "vars"):
            return None
        if n.endswith("!") and run.pick(2):
            return None
        return d.located(run, n)
    d = Dom(run, g, mks(tag["term"]), known=[n for n, _ in CONTROL_ATTRS], required=req, mkval=mkval)
    try:
        r = run.call(fn(G + ".create_control_nodes"), [g, d.v], {})
    except PyExc as e:
        an_error(run, e, g)
        run.ensure("only for a control element lacking a required attribute", any(d.get(run, n + "!") in (MISSING, None) for n in req))
        run.ensure_eq("at the line of the element", run.getattr(e.value, "lineno"), d.line)
        return
    want = []
    if kind:
        vals = [d.get(run, n + "!") for n in req]
        run.ensure("a control element lacking a required attribute is rejected", all(v is not MISSING and v is not None for v in vals))
        want.append((CONTROL_ELEMENTS[kind][0], vals, (d.line, d.col)))
    for n, k in CONTROL_ATTRS:
        v = d.get(run, n)
        if v is not MISSING:
            run.ensure("the control attribute is taken from the element", n in d.removed)
            if v is not None:
                want.append((k, [v], run.getattr(v, "position")))
    run.ensure("three results", isinstance(r, tuple) and len(r) == 3)
    gen, top, bottom = r
    run.ensure("an element is generated exactly for tags that are no control elements", run.truth(gen) == (kind is None))
    if not want:
        run.ensure("no control nodes", top is None and bottom is None)
        return
    x = top
    for i, (k, vals, pos) in enumerate(want):
        run.ensure("control nodes are nested in the documented order", isinstance(x, Obj) and x.kinds == [cls(ND + ":" + k)])
        for f, v in zip(ARG[k], vals):
            run.ensure("each control node has the value of its own attribute", run.getattr(x, f) is v)
        p = run.getattr(x, "position")
        run.ensure("each control node has its own position", isinstance(p, tuple) and len(p) == 2 and A(zi(p[0]) == zi(pos[0]), zi(p[1]) == zi(pos[1])))
        ch = run.items_of(run.getattr(x, "content" if k == "Import" else "children"))
        if i == len(want) - 1:
            run.ensure("the innermost control node is still empty", len(ch) == 0)
            run.ensure("the innermost control node takes the content", x is bottom)
        else:
            run.ensure("each control node contains the next and nothing else", len(ch) == 1)
            x = ch[0]


CNODES = ["Extends", "Block", "If", "For", "Define", "With"]


@unit("syntax.generate_element_node", ["C02", "C05", "C08", "C13", "C14"], G + ".generate_element_node", limit=300,
      trusted=["create_control_nodes, reject_control_attributes, generate_attributes_for_node, add_children by their own contracts"])
def _(run):
    """control nodes outside, the element (with its strip guard) inside, then the content or the children; replace stands for the
    whole element; unknown control elements are rejected at their line"""
    g = generator(run)
    tag = pick_tag(run, g, ["replace"])
    control_name_contract(run, tag)
    is_replace = tag["name"] == "replace"
    d = Dom(run, g, mks(tag["term"]), known=["strip", "content", "replace", "attrs"], required=["value"] if is_replace else [],
            mkval=lambda run, n: None if n == "value!" and run.pick(2) else d.located(run, n))
    calls = []
    # contract of create_control_nodes
    shape = run.pick(3)
    chain = []
    if shape == 0:
        ge, top, bottom = True, None, None
    else:
        ge = True
        top = Obj([cls(ND + ":" + k) for k in CNODES], dict(children=SymList([])), name="top")
        bottom = top
        if shape == 2:
            bottom = Obj([cls(ND + ":" + k) for k in CNODES], dict(children=SymList([])), name="bottom")
            top.fields["children"].items.append(bottom)
        if tag["name"] is not None and not is_replace:
            ge = bool(run.pick(2))
        if not ge:
            # the control element itself: create_control_nodes knows its name
            tag["known"] = True
    stub(run, G + ".create_control_nodes", lambda run, a, k: (ge, top, bottom))

    class Reject(Exception):
        pass

    def reject(run, a, k):
        calls.append("reject")
        run.ensure("unused control attributes are looked for after the used ones were taken", all(n in d.removed or d.get(run, n) is MISSING for n in ("strip", "content", "attrs")))
        run.ensure("... replace as well", "replace" in d.removed or is_replace or d.get(run, "replace") is MISSING)
        run.ensure("... of this element", a[-1] is d.v)
        if run.pick(2):
            run.throw(Reject)
    stub(run, G + ".reject_control_attributes", reject)

    def gen_attrs(run, a, k):
        calls.append("attrs")
        run.ensure("attributes are generated from this element", a[1] is d.v)
        run.ensure("attributes are generated after the control attributes were taken", all(n in d.removed or d.get(run, n) is MISSING for n in ("strip", "content")))
        run.ensure("attributes are set on the element node", isinstance(a[2], Obj) and a[2].kinds == [cls(ND + ":Element")] and not a[2].ghost.get("attrs"))
        a[2].ghost["attrs"] = True
        d.removed.add("attrs")
    stub(run, G + ".generate_attributes_for_node", gen_attrs)

    def child_iter(run, a, k):
        run.ensure("children are those of this element", a[-1] is d.v)
        return d.children
    stub(run, GEN + ":BaseDOMIRGenerator.child_iter", child_iter)
    kids = kids_seg(run, "kids")

    def add_children(run, a, k):
        calls.append("children")
        run.ensure("children of this element are added", a[1] is d.children)
        ch = run.items_of(run.getattr(a[2], "children"))
        run.ensure("children are added to an empty node", len(ch) == 0)
        run.getattr(a[2], "children").items.append(kids)
    stub(run, GEN + ":BaseDOMIRGenerator.add_children", add_children)
    try:
        r = run.call(fn(G + ".generate_element_node"), [g, d.v], {})
    except PyExc as e:
        if run.isinstance(e.value, Reject) is True:
            return
        an_error(run, e, g)
        missing = is_replace and d.get(run, "value!") in (MISSING, None)
        unknown = tag["name"] is not None and not is_replace and not tag.get("known")
        run.ensure("only for unknown control elements, or a replace element without a value", missing or unknown)
        run.ensure_eq("at the line of the element", run.getattr(e.value, "lineno"), d.line)
        return
    run.ensure("unknown control elements are rejected", tag["name"] is None or is_replace or tag.get("known", False))
    strip, content = d.get(run, "strip"), d.get(run, "content")
    if content is not MISSING:
        run.assume(zs(content) != SV(""))
    if is_replace:
        repl = d.get(run, "value!")
        run.ensure("a replace element without a value is rejected", repl is not MISSING and repl is not None)
    else:
        repl = d.get(run, "replace")
    el = None
    if repl is not MISSING:
        x = r if top is None else run.items_of(run.getattr(bottom, "children"))
        if top is not None:
            run.ensure("the outermost control node is the result", r is top)
            run.ensure("the replacement is all the content", len(x) == 1)
            x = x[0]
        run.ensure("replace stands for the element, its tags and its content", isinstance(x, Obj) and x.kinds == [cls(ND + ":Expression")] and run.getattr(x, "expression") is repl)
        run.ensure("nothing of the element is left", "children" not in calls and "attrs" not in calls)
        run.ensure("attributes that have no place are looked for", "reject" in calls)
        p = run.getattr(x, "position")
        run.ensure("the replacement is at the element's position", A(zi(p[0]) == d.line.t, zi(p[1]) == d.col.t))
        return
    if ge:
        if top is None:
            el = r
        else:
            run.ensure("the outermost control node is the result", r is top)
            x = run.items_of(run.getattr(bottom, "children"))
            run.ensure("the element is all the content of the innermost control node", len(x) == 1)
            el = x[0]
        run.ensure("an element node", isinstance(el, Obj) and el.kinds == [cls(ND + ":Element")])
        run.ensure_eq("of the element's name", run.getattr(el, "name"), mks(tag["term"]))
        run.ensure("its attributes are generated once", calls.count("attrs") == 1 and el.ghost.get("attrs"))
        gd = run.getattr(el, "guard_expression")
        if strip is MISSING:
            run.ensure("no guard without strip", gd is None)
        else:
            blank = run.call(run.getattr(strip, "strip"), [], {})
            run.ensure("the tags are guarded by the strip expression; an empty one always strips", gd is not None and zs(gd) == z3.If(zs(blank) == SV(""), SV("1"), zs(strip)))
        p = run.getattr(el, "position")
        run.ensure("the element is at its position", A(zi(p[0]) == d.line.t, zi(p[1]) == d.col.t))
        holder = el
    else:
        run.ensure("the outermost control node is the result", r is top)
        run.ensure("attributes that have no place are looked for", "reject" in calls)
        run.ensure("attributes that have no place are looked for, py:attrs among them", "attrs" not in calls)
        holder = bottom
    ch = run.items_of(run.getattr(holder, "children"))
    if content is not MISSING:
        p = run.getattr(ch[0], "position") if ch else None
        run.ensure("the content is at the element's position", isinstance(p, tuple) and p[0] is not None and A(zi(p[0]) == d.line.t, zi(p[1]) == d.col.t))
        run.ensure("content replaces the children", len(ch) == 1 and isinstance(ch[0], Obj) and ch[0].kinds == [cls(ND + ":Expression")] and run.getattr(ch[0], "expression") is content)
        run.ensure("the children are dropped", "children" not in calls)
    else:
        run.ensure("the children, once", len(ch) == 1 and ch[0] is kids)


ISCTL = Fold("no_control_attribute", "all", lambda run, kv: NOT(z3.PrefixOf(z3.String("control_prefix"), zs(kv[0]))))


@unit("syntax.reject_control_attributes", ["C13", "C14"], G + ".reject_control_attributes")
def _(run):
    """accepted exactly when no attribute has the control prefix; rejected with the attribute's name, at its line"""
    g = generator(run)
    d = Dom(run, g, run.str("tag"), known=["attrs"])
    d.xmlns = None
    run.loops["others"] = Loop(lambda ctx: None, lambda ctx: [("no control attribute so far", run.fold_term(ISCTL, ctx.pre))])
    try:
        run.call(fn(G + ".reject_control_attributes"), [g, d.v], {})
    except PyExc as e:
        an_error(run, e, g)
        run.reach()
        return
    run.ensure("no control attribute is let pass", A(run.fold_term(ISCTL, [d.others]), z3.BoolVal(d.get(run, "attrs") is MISSING)))


@unit("syntax.reject_control_attributes.sound", ["C13", "C14"], G + ".reject_control_attributes")
def _(run):
    """an element without control attributes is never rejected, and a control attribute at its own line"""
    g = generator(run)
    P = zs(g.fields["control_prefix"])
    d = Dom(run, g, run.str("tag"), others=False)
    d.xmlns = None
    n1, n2 = run.str("name1", input=True), run.str("name2", input=True)
    l = run.int("l")
    # an empty value has a position, no value has none: then it is that of the element
    v2 = Obj(cls("tonnikala.helpers:StringWithLocation"), dict(position=(l, run.int("c"))), sval=run.str("v2")) if run.pick(2) else None
    d.items = None
    d.attributes.ghost["getattr"] = lambda run, v, a: Native(lambda run, a, k: SymList([(n1, None), (n2, v2)])) if a == "items" else MISSING
    run.assume(NOT(z3.PrefixOf(P, n1.t)))
    try:
        run.call(fn(G + ".reject_control_attributes"), [g, d.v], {})
    except PyExc as e:
        an_error(run, e, g)
        run.ensure("only for a control attribute", z3.PrefixOf(P, n2.t))
        run.ensure_eq("at its line", run.getattr(e.value, "lineno"), d.line if v2 is None else l)
        return
    run.ensure("control attributes are rejected", NOT(z3.PrefixOf(P, n2.t)))


TEXTNODE = z3.Function("text_node", StrS, BoolS, BoolS, IntS)


@unit("syntax.generate_attributes_for_node", ["C02", "C08", "C15", "C13"], G + ".generate_attributes_for_node", limit=120,
      trusted=["handle_text_node, is_attr_translatable, generate_attributes, reject_control_attributes by their own contracts"])
def _(run):
    """every attribute that is no control attribute once, in source order, with the nodes of its text; valueless ones stay valueless;
    the namespace declaration of the control prefix is dropped"""
    g = generator(run)
    d = Dom(run, g, run.str("tag"), known=["attrs"])
    calls = []

    def reject(run, a, k):
        calls.append("reject")
        run.ensure("the control attributes used here are gone when the others are looked for", d.now(run, "attrs") is MISSING)
    stub(run, G + ".reject_control_attributes", reject)
    TR = z3.Function("attr_translatable", StrS, BoolS)
    stub(run, G + ".is_attr_translatable", lambda run, a, k: mkb(TR(zs(a[-1]))))

    def htn(run, a, k):
        v = a[0]
        cd = k.get("is_cdata", a[1] if len(a) > 1 else False)
        run.ensure("attribute text is never CDATA", NOT(zb(cd)) if not isinstance(cd, bool) else not cd)
        x = any_node(run, "attr value", ["Text", "TranslatableText", "DynamicText"])
        x.ghost["of"] = v
        x.ghost["tr"] = k.get("translatable", a[2] if len(a) > 2 else False)
        return x
    stub(run, "tonnikala.expr:handle_text_node", htn)
    target = any_node(run, "el", ["Element"])
    out = Seg("attrs", lambda run, nm: (run.str(nm), any_node(run, nm)))

    def check(run, x, y):
        k, v = x
        ok = isinstance(y, tuple) and len(y) == 2
        if not ok:
            return [("a name and a node", False)]
        c = [("the same name", mkb(zs(y[0]) == zs(k)))]
        if v is None:
            c.append(("a valueless attribute stays valueless", isinstance(y[1], Obj) and y[1].kinds == [cls(ND + ":EmptyAttrVal")]))
        else:
            c.append(("the nodes of its own text", isinstance(y[1], Obj) and y[1].ghost.get("of") is v))
            if isinstance(y[1], Obj) and "tr" in y[1].ghost:
                t = y[1].ghost["tr"]
                c.append(("translatable as its name says", (zb(t) if not isinstance(t, bool) else z3.BoolVal(t)) == TR(zs(k))))
        return c
    run.loops["map others"] = lambda run, seg: (out, check, False)

    def gen_attributes(run, a, k):
        calls.append("gen")
        attrs = k.get("attrs", a[2] if len(a) > 2 else None)
        dyn = k.get("dynamic_attrs", a[3] if len(a) > 3 else None)
        run.ensure("on the element's node", a[1] is target)
        it = run.items_of(attrs)
        run.ensure("all other attributes, in order", len(it) == 1 and it[0] is out)
        v = d.get(run, "attrs")
        run.ensure("computed attributes come from the attrs expression", dyn is None if v is MISSING else dyn is v)
    stub(run, GEN + ":BaseDOMIRGenerator.generate_attributes", gen_attributes)
    run.call(fn(G + ".generate_attributes_for_node"), [g, d.v, target], {})
    run.ensure("attributes are generated once, and leftovers rejected before", calls == ["reject", "gen"])


@unit("generate.generate_attributes", ["C02", "C08"], GEN + ":BaseDOMIRGenerator.generate_attributes")
def _(run):
    """each attribute is set once, in order; the attrs expression is set when there is one"""
    g = Obj(cls(GEN + ":BaseDOMIRGenerator"))
    el = opaque(run, "ir_node")
    log = run.log = []
    st = SymList([])
    ID = z3.Function("attr", StrS, IntS, StrS)
    dyn = []
    vals = {}

    def mk(run, nm):
        v = opaque(run, nm)
        v.ghost["n"] = z3.Int(run.name("value of " + nm))
        return (run.str(nm + ".name"), v)
    seg = Seg("attrs", mk)
    F = Fold("attrs", "str", lambda run, kv: ID(zs(kv[0]), kv[1].ghost["n"]))

    def ga(run, v, a):
        if a == "set_attribute":
            def f(run, a, k):
                run.mutate(st)
                st.items.append((a[0], a[1]))
            return Native(f)
        if a == "set_dynamic_attrs":
            return Native(lambda run, a, k: dyn.append(a[0]))
        return MISSING
    el.ghost["getattr"] = ga

    def havoc(ctx):
        ctx.modifies(st)
        st.items = [Seg(run.name("set"), mk)]
    run.loops["attrs"] = Loop(havoc, lambda ctx: [("the attributes so far", run.fold_term(F, st.items) == run.fold_term(F, ctx.pre))])
    d = run.str("dyn", input=True) if run.pick(2) else None
    run.call(fn(GEN + ":BaseDOMIRGenerator.generate_attributes"), [g, el], dict(attrs=SymList([seg]), dynamic_attrs=d))
    run.ensure("every attribute is set once, in order", run.fold_term(F, st.items) == run.fold_term(F, [seg]))
    if d is None:
        run.ensure("no computed attributes", not dyn)
    else:
        run.ensure("the computed attributes are set when there is an expression", z3.If(d.t == SV(""), z3.BoolVal(not dyn or dyn == [d]), z3.BoolVal(len(dyn) == 1 and dyn[0] is d)))


@unit("syntax.translatable-state", ["C15"], G + ".enter_node")
def _(run):
    """text is translatable where the template is, except in style and script elements and in everything inside them"""
    g = generator(run)
    st = SymDict()
    outer = run.bool("outer")
    if run.pick(2):
        st.writes.append(("translatable", outer))
        o = outer.t
    else:
        o = z3.BoolVal(False)
    g.fields["states"] = SymList([st])
    called = []
    stub(run, GEN + ":BaseDOMIRGenerator.enter_node", lambda run, a, k: called.append(a[-1]))
    x = any_node(run, "x")
    run.call(fn(G + ".enter_node"), [g, x], {})
    inner = z3.BoolVal(False)
    if run.isinstance(x, cls(ND + ":Element")) is True:
        n = zs(run.getattr(x, "name"))
        inner = OR(n == SV("style"), n == SV("script"))
    r = run.call(run.getattr(g, "is_translatable"), [], {})
    run.ensure("translatable exactly as outside, never inside style and script", run.truth_term(r) == A(o, NOT(inner)))
    run.ensure("the CDATA state is kept as well", len(called) == 1 and called[0] is x)
    nm = run.str("attr", input=True)
    q = run.call(fn(G + ".is_attr_translatable"), [g, nm], {})
    named = OR(*[nm.t == SV(a) for a in ("title", "alt", "placeholder", "value", "caption")])
    run.ensure("the documented attributes are translatable where text is", run.truth_term(q) == A(o, NOT(inner), named))


def located(run, s, own):
    """a text that knows its place: the one where the value of the DOM node begins"""
    p = s.fields.get("position") if isinstance(s, Obj) else None
    return isinstance(p, tuple) and A(zi(p[0]) == own[0].t, zi(p[1]) == own[1].t)


@unit("syntax.generate_ir_node", ["C02", "C01", "C14", "C15", "C13"], G + ".generate_ir_node",
      trusted=["handle_text_node, generate_element_node by their own contracts"])
def _(run):
    """what each kind of DOM node becomes: text with the CDATA and translatable state of its place, comments verbatim, code, doctype"""
    g = generator(run)
    cd, tr = run.bool("cdata"), run.bool("translatable")
    st = SymDict()
    st.writes += [("is_cdata", cd), ("translatable", tr)]
    g.fields["states"] = SymList([st])
    kinds = [Node.ELEMENT_NODE, Node.TEXT_NODE, Node.COMMENT_NODE, Node.PROCESSING_INSTRUCTION_NODE, Node.DOCUMENT_TYPE_NODE, Node.ENTITY_NODE]
    t = kinds[run.pick(len(kinds))]
    pos = (run.int("line"), run.int("col"))
    val = run.str("nodeValue", input=True)
    # text and code know their place in the template
    own = (run.int("own line"), run.int("own column"))
    node_value = Obj(cls("tonnikala.helpers:StringWithLocation"), dict(position=own), sval=val) if t in (Node.TEXT_NODE, Node.PROCESSING_INSTRUCTION_NODE) else val
    xml = run.str("toxml")

    def ga(run, v, a):
        return {"nodeType": t, "nodeValue": node_value, "data": node_value, "position": pos, "toxml": Native(lambda run, a, k: xml)}.get(a, MISSING)
    d = opaque(run, "dom", getattr=ga, truth=True)
    elres = opaque(run, "element node")
    stub(run, G + ".generate_element_node", lambda run, a, k: elres if a[-1] is d else None)
    seen = []

    def htn(run, a, k):
        x = any_node(run, "text node", ["Text", "TranslatableText", "DynamicText", "Expression"])
        seen.append((x, a[0], k.get("is_cdata", a[1] if len(a) > 1 else False), k.get("translatable", a[2] if len(a) > 2 else False)))
        return x
    stub(run, "tonnikala.expr:handle_text_node", htn)
    try:
        r = run.call(fn(G + ".generate_ir_node"), [g, d], {})
    except PyExc as e:
        an_error(run, e, g)
        run.ensure("only for other kinds of nodes", t == Node.ENTITY_NODE)
        run.ensure_eq("at its line", run.getattr(e.value, "lineno"), pos[0])
        return
    run.ensure("other kinds of nodes are rejected", t != Node.ENTITY_NODE)
    if t == Node.ELEMENT_NODE:
        run.ensure("the node of the element", r is elres)
        return
    if t == Node.TEXT_NODE:
        run.ensure("the nodes of the text, once", len(seen) == 1 and r is seen[0][0])
        b = lambda v: zb(v) if not isinstance(v, bool) else z3.BoolVal(v)
        run.ensure_eq("of all of the text", seen[0][1], val)
        run.ensure("which knows its place", located(run, seen[0][1], own))
        run.ensure("CDATA exactly where the state says so", b(seen[0][2]) == cd.t)
        run.ensure("translatable exactly where the state says so", b(seen[0][3]) == tr.t)
    elif t == Node.COMMENT_NODE:
        run.ensure("a comment is markup", r.kinds == [cls(ND + ":EscapedComment")])
        run.ensure("a comment is copied", zs(run.call(run.getattr(r, "escaped"), [], {})) == concat(SV("<!--"), val.t, SV("-->")))
        return
    elif t == Node.DOCUMENT_TYPE_NODE:
        run.ensure("a doctype is copied", zs(run.call(run.getattr(r, "escaped"), [], {})) == xml.t)
        return
    else:
        run.ensure("code", r.kinds == [cls(ND + ":Code")])
        code = run.getattr(r, "source")
        # handle_pi leaves no white space before it
        run.ensure("the code, but for white space at its end", OR(*[zs(code) == zs(run.call(run.getattr(val, m), [], {})) for m in ("rstrip", "strip")], zs(code) == val.t))
        run.ensure("which knows its place", located(run, code, own))
    p = run.getattr(r, "position")
    run.ensure("at the position of the DOM node", A(zi(p[0]) == pos[0].t, zi(p[1]) == pos[1].t))


@unit("syntax.TonnikalaIRGenerator", ["C15", "C02", "C13"], G + ".__init__")
def _(run):
    """the generator starts with an empty state, translatable as asked for, for the document, file name and source given"""
    tr = run.bool("translatable")
    doc, fnm, src = opaque(run, "doc"), opaque(run, "filename"), opaque(run, "source")
    js = run.pick(2)
    kw = dict(document=doc, translatable=tr, filename=fnm, source=src)
    if js:
        kw["control_prefix"] = "js"
    g = run.call(cls(G), [], kw)
    run.ensure_eq("the prefix of its language", run.getattr(g, "control_prefix"), "js:" if js else "py:")
    run.ensure_eq("the namespace declaration of its prefix", run.getattr(g, "xmlns"), "xmlns:js" if js else "xmlns:py")
    run.ensure("the document given", run.getattr(g, "dom_document") is doc)
    run.ensure("the file name and source given", run.getattr(g, "filename") is fnm and run.getattr(g, "source") is src)
    run.ensure("translatable as asked for", run.truth_term(run.call(run.getattr(g, "is_translatable"), [], {})) == tr.t)
    run.ensure("no more states", len(run.items_of(run.getattr(g, "states"))) == 1)
    run.ensure_eq("empty elements are closed as in HTML", run.getattr(g, "empty_tag_closing_string"), " />")


def parse_unit(name, js):
    @unit("syntax." + name, ["C02", "C13", "C14", "C15"], TS + ":" + name,
          trusted=["TonnikalaHTMLParser.parse, generate_tree, flatten_element_nodes, merge_text_nodes by their own contracts"])
    def _(run):
        """parsed, generated, flattened and merged in this order, for the source and file name given"""
        fnm, src, tr = opaque(run, "filename"), opaque(run, "source"), run.bool("translatable")
        steps = []
        dom, tree = opaque(run, "dom"), [opaque(run, "tree%d" % i) for i in range(3)]

        def parser(run, a, k):
            run.ensure("the parser gets file name and source", a[0] is fnm and a[1] is src)
            return opaque(run, "parser", getattr=lambda run, v, n: Native(lambda run, a, k: (steps.append("parse"), dom)[1]) if n == "parse" else MISSING)
        stub(run, "tonnikala.syntaxes.docparser:TonnikalaHTMLParser", parser)

        def gen(run, a, k):
            run.ensure("the generator gets the document, file name, source and whether to translate",
                       A(z3.BoolVal(k.get("document", a[0] if a else None) is dom and k.get("filename") is fnm and k.get("source") is src), run.truth_term(k.get("translatable", False)) == tr.t))
            run.ensure("and its own control prefix", k.get("control_prefix", "py") == ("js" if js else "py"))

            def ga(run, v, n):
                if n == "generate_tree":
                    return Native(lambda run, a, k: (steps.append(n), tree[0])[1])
                if n == "flatten_element_nodes":
                    return Native(lambda run, a, k: (steps.append(n), run.ensure("the tree is flattened", a[0] is tree[0]), tree[1])[2])
                if n == "merge_text_nodes":
                    return Native(lambda run, a, k: (steps.append(n), run.ensure("the flattened tree is merged", a[0] is tree[1]), tree[2])[2])
                return MISSING
            return opaque(run, "generator", getattr=ga)
        stub(run, G, gen)
        r = run.call(fn(TS + ":" + name), [fnm, src], dict(translatable=tr))
        run.ensure("each step once, in order", steps == ["parse", "generate_tree", "flatten_element_nodes", "merge_text_nodes"])
        run.ensure("the result of the last step", r is tree[2])


parse_unit("parse", False)
parse_unit("parse_js", True)


@unit("generate.generate_tree", ["C02", "C13", "C09"], GEN + ":BaseDOMIRGenerator.generate_tree", trusted=["add_children by its own contract"])
def _(run):
    """the root has the nodes of all the document's children and is validated; a validation error is raised, at the node's line"""
    g = Obj(cls(GEN + ":BaseDOMIRGenerator"), dict(dom_document=opaque(run, "doc"), source=opaque(run, "source"), filename=opaque(run, "filename")), name="self")
    tree = run.call(cls(ND + ":IRTree"), [], {})
    g.fields["tree"] = tree
    it = opaque(run, "children")
    kids = kids_seg(run, "kids")
    events = []
    stub(run, GEN + ":BaseDOMIRGenerator.child_iter", lambda run, a, k: (run.ensure("the children of the document", a[-1] is g.fields["dom_document"]), it)[1])

    def add(run, a, k):
        run.ensure("are added to the root", a[1] is it and a[2].kinds == [cls(ND + ":Root")])
        a[2].fields["children"].items.append(kids)
        events.append("add")
    stub(run, GEN + ":BaseDOMIRGenerator.add_children", add)
    line = run.int("line")
    bad = run.pick(2)
    node = Obj(cls(ND + ":Text"), dict(position=(line, run.int("col"))))

    def validate(run, a, k):
        events.append("validate")
        if bad:
            run.call(run.getattr(a[1], "syntax_error"), ["message"], dict(node=node))
    stub(run, ND + ":ContainerNode.validate", validate)
    try:
        r = run.call(fn(GEN + ":BaseDOMIRGenerator.generate_tree"), [g], {})
    except PyExc as e:
        run.ensure("validation errors are template syntax errors", bad == 1 and run.isinstance(e.value, cls(TSE)) is True)
        run.ensure_eq("at the line of the node", run.getattr(e.value, "lineno"), line)
        run.ensure("with the source and file name", run.getattr(e.value, "filename") is g.fields["filename"] and run.getattr(e.value, "source") is g.fields["source"])
        return
    run.ensure("an invalid tree is rejected", bad == 0)
    run.ensure("the nodes are validated after all were added", events == ["add", "validate"])
    root = run.getattr(r, "root")
    run.ensure("the tree of the document", r is tree and root.kinds == [cls(ND + ":Root")] and run.items_of(run.getattr(root, "children")) == [kids])


@unit("generate.child_iter", ["C02"], GEN + ":BaseDOMIRGenerator.child_iter")
def _(run):
    """every child once, in order (three children; the chain is followed link by link)"""
    g = Obj(cls(GEN + ":BaseDOMIRGenerator"))
    n = run.pick(4)
    ch = []
    for i in range(n):
        ch.append(opaque(run, "child%d" % i, truth=True))
    for i, c in enumerate(ch):
        nx = ch[i + 1] if i + 1 < n else None
        c.ghost["getattr"] = (lambda nx: lambda run, v, a: nx if a == "nextSibling" else MISSING)(nx)
    node = opaque(run, "node", getattr=lambda run, v, a: (ch[0] if ch else None) if a == "firstChild" else MISSING)
    r = run.call(fn(GEN + ":BaseDOMIRGenerator.child_iter"), [g, node], {})
    it = run.items_of(r)
    run.ensure("every child once, in order", len(it) == n and all(x is y for x, y in zip(it, ch)))


@unit("nodes.Import", ["C13", "C10"], ND + ":Import.add_child")
def _(run):
    """content of an import, other than blank text and comments, is kept and makes the import invalid, at its own position"""
    h, al = run.str("href", input=True), run.str("alias", input=True)
    x = run.call(cls(ND + ":Import"), [h, al], {})
    run.ensure("the template and the name given", run.getattr(x, "href") is h and run.getattr(x, "alias") is al)
    seen = []
    added = run.pick(2)
    ignorable = True
    if added:
        c = any_node(run, "c")
        run.call(run.getattr(x, "add_child"), [c], {})
        ignorable = False
        if run.truth(mkb(run.isinstance(c, (cls(ND + ":Comment"), cls(ND + ":EscapedComment"))))):
            ignorable = True
        elif run.truth(mkb(run.isinstance(c, cls(ND + ":Text")))):
            ignorable = not run.truth(run.call(run.getattr(run.getattr(c, "text"), "strip"), [], {}))
    try:
        run.call(run.getattr(x, "validate"), [validator(run, seen)], {})
    except PyExc as e:
        run.ensure("only the validator's error", run.isinstance(e.value, Rejected) is True)
        run.ensure("an empty import is accepted", not ignorable)
        a, k = seen[0]
        run.ensure("the error names the import", k.get("node", a[1] if len(a) > 1 else None) is x)
        return
    run.ensure("content in an import is rejected", ignorable)


@unit("nodes.For", ["C05", "C13"], ND + ":For.__init__")
def _(run):
    """the loop header is kept, and split at the first `in` between white space"""
    e = run.str("expression", input=True)
    parts = SymList([run.str("part"), run.str("part")])
    seen = []
    IN = cls(ND + ":For").__dict__.get("IN_RE")
    run.models[("getattr", id(IN), "split")] = lambda run: Native(lambda run, a, k: (seen.append((a[0], a[1] if len(a) > 1 else k.get("maxsplit", 0))), parts)[1])
    x = run.call(cls(ND + ":For"), [e], {})
    run.ensure("split once, at the first `in`", len(seen) == 1 and seen[0][0] is e and seen[0][1] == 1)
    run.ensure("the pattern is `in` between white space", getattr(IN, "pattern", None) == r"\s+in\s+" and IN.flags == __import__("re").compile("").flags)
    run.ensure("the parts are kept", run.getattr(x, "parts") is parts and run.getattr(x, "expression") is e)
    run.ensure("no children yet", len(run.items_of(run.getattr(x, "children"))) == 0)
