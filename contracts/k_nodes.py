"""tonnikala.helpers, tonnikala.ir.nodes, tonnikala.ir.generate: text, positions, the element tree and its flattening"""
from .lib import *

H = "tonnikala.helpers"
ND = "tonnikala.ir.nodes"
GEN = "tonnikala.ir.generate"


# --------------------------------------------------------------------------- helpers
@unit("helpers.escape", ["C01", "C02"], H + ":escape")
def _(run):
    s = run.str("string", input=True)
    r = run.call(fn(H + ":escape"), [s], {})
    run.ensure("every & < > \" ' and nothing else is replaced, each exactly once", zs(r) == esc(s.t))


def pos_spec(run, text, n, start):
    """position of offset n of the text: the reference definition over the number of line ends before it and the last one"""
    frag = z3.SubString(text, 0, n)
    c, r = models.char_count(run, "\n", z3.simplify(frag))
    return z3.If(c > 0, start[0] + c, start[0]), z3.If(c > 0, n - r - 1, start[1] + n)


@unit("helpers.calculate_position", ["C14"], H + ":calculate_position")
def _(run):
    s = run.str("source", input=True)
    n = run.int("offset", input=True)
    run.assume(A(n.t >= 0, n.t <= z3.Length(s.t)))
    given = run.pick(2)
    if given:
        l, c = run.int("line", input=True), run.int("column", input=True)
        start = (l.t, c.t)
        r = run.call(fn(H + ":calculate_position"), [s, n, (l, c)], {})
    else:
        start = (z3.IntVal(1), z3.IntVal(0))
        r = run.call(fn(H + ":calculate_position"), [s, n], {})
    frag = z3.simplify(z3.SubString(s.t, 0, n.t))
    cnt, last = models.char_count(run, "\n", frag)
    run.ensure("two numbers", isinstance(r, tuple) and len(r) == 2)
    run.ensure("line: the start line plus the line ends before the offset", zi(r[0]) == start[0] + cnt)
    run.ensure("column: characters since the last line end, or since the start column on the first line",
               zi(r[1]) == z3.If(cnt > 0, n.t - last - 1, start[1] + n.t))


@unit("helpers.position-composes", ["C14"], H + ":calculate_position")
def _(run):
    """lemma over the function: the position of offset n+m equals the position of m in the rest, started at the position of n"""
    f = fn(H + ":calculate_position")
    a, b, rest = run.str("a", input=True), run.str("b", input=True), run.str("rest", input=True)
    l, c = run.int("line"), run.int("column")
    whole = mks(concat(a.t, b.t))
    p = run.call(f, [mks(a.t), mki(z3.Length(a.t)), (l, c)], {})
    q = run.call(f, [mks(b.t), mki(z3.Length(b.t)), p], {})
    w = run.call(f, [whole, mki(z3.Length(a.t) + z3.Length(b.t)), (l, c)], {})
    for x, y, what in ((q[0], w[0], "lines"), (q[1], w[1], "columns")):
        run.ensure("%s of a part counted from the part's own position are those of the whole" % what, zi(x) == zi(y))


def swl(run, sval, line, col):
    o = Obj(cls(H + ":StringWithLocation"), dict(position=(line, col)), sval=sval)
    return o


@unit("helpers.StringWithLocation.slice", ["C14", "C03"], H + ":StringWithLocation.__getitem__")
def _(run):
    """s[a:b] has the text of the slice and the position of its first character"""
    SWL = cls(H + ":StringWithLocation")
    s = run.str("s", input=True)
    line, col = run.int("line"), run.int("col")
    o = run.call(SWL, [s, line, col], {})
    run.ensure("the position given is the position kept", A(zi(run.getattr(o, "position")[0]) == line.t, zi(run.getattr(o, "position")[1]) == col.t))
    run.ensure_eq("the text given is the text kept", models.to_str(run, o), s)
    n = z3.Length(s.t)
    kind = run.pick(3)
    a = run.int("a", input=True)
    run.assume(A(a.t >= -n, a.t <= n))
    lo = z3.If(a.t < 0, n + a.t, a.t)
    if kind == 0:
        sl, lo, hi = slice(a, None, None), lo, n
    elif kind == 1:
        b = run.int("b", input=True)
        run.assume(A(b.t >= -n, b.t <= n))
        sl, hi = slice(a, b, None), z3.If(b.t < 0, n + b.t, b.t)
    else:
        sl, lo, hi = slice(None, a, None), z3.IntVal(0), lo
    r = models.getitem(run, o, sl)
    run.ensure("a slice has the text of the slice", zs(models.to_str(run, r)) == z3.SubString(s.t, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0))))
    p = run.getattr(r, "position")
    frag = z3.simplify(z3.SubString(s.t, 0, lo))
    cnt, last = models.char_count(run, "\n", frag)
    run.ensure("a slice starts on the line of its first character", zi(p[0]) == line.t + cnt)
    run.ensure("a slice starts at the column of its first character", zi(p[1]) == z3.If(cnt > 0, lo - last - 1, col.t + lo))


@unit("helpers.reraise", ["C17"], H + ":reraise")
def _(run):
    given = run.pick(2)
    tb = opaque(run, "tb")
    same_tb = run.pick(2)
    if given:
        v = Obj(ValueError, dict(args=()))
        v.fields["__traceback__"] = tb if same_tb else opaque(run, "other tb")
        v.fields["with_traceback"] = Native(lambda run, a, k: (v.fields.__setitem__("__traceback__", a[0]), v)[1])
    else:
        v = None
    if v is None:
        return
    try:
        run.call(fn(H + ":reraise"), [ValueError, v, tb], {})
    except PyExc as e:
        run.ensure("the very exception that was given is raised", e.value is v)
        run.ensure("with the traceback that was given", mkb(run.is_(v.fields["__traceback__"], tb)))
        return
    run.ensure("the exception is raised", False)


# --------------------------------------------------------------------------- what an IR node stands for
U_ = z3.Function("unless", StrS, StrS, StrS)            # (guard, body)
M_ = z3.Function("mutable_attribute", StrS, IntS, StrS)  # (name, value id)
D_ = z3.Function("dynamic_attributes", StrS, StrS)
_ids = {}


def vid(run, v):
    """ghost identity of a value"""
    if isinstance(v, Obj) or isinstance(v, Opaque):
        if "vid" not in v.ghost:
            v.ghost["vid"] = z3.IntVal(v.oid)
        return v.ghost["vid"]
    raise Unsupported("identity of %r" % (v,))


def text_spec(run, x):
    """markup of a text node: its text as written for markup and CDATA, escaped otherwise"""
    if run.truth(mkb(run.isinstance(x, (cls(ND + ":EscapedText"),)))):
        return zs(run.getattr(x, "text"))
    t = zs(run.getattr(x, "text"))
    return z3.If(run.truth_term(run.getattr(x, "is_cdata")), t, esc(t)) if z3.is_expr(run.truth_term(run.getattr(x, "is_cdata"))) else (t if run.truth_term(run.getattr(x, "is_cdata")) else esc(t))


COMMENT = z3.Function("comment_text", StrS, StrS)


def den_node(run, x):
    """the output an IR node stands for, as a term; nodes whose output is decided elsewhere are unknown strings of their own"""
    if not isinstance(x, Obj):
        raise Unsupported("output of %r" % (x,))
    if "tok" in x.ghost:
        return x.ghost["tok"]
    T, TT = cls(ND + ":Text"), cls(ND + ":TranslatableText")
    if run.truth(mkb(run.isinstance(x, TT))):
        return token(run, x)
    if run.truth(mkb(run.isinstance(x, T))):
        return text_spec(run, x)
    if run.truth(mkb(run.isinstance(x, cls(ND + ":Comment")))):
        return concat(SV("<!--"), COMMENT(zs(run.getattr(x, "text"))), SV("-->"))
    if hasattr(run, "closing") and run.truth(mkb(run.isinstance(x, cls(ND + ":Element")))):
        return den_element(run, x)
    if x.schema is None and run.truth(mkb(run.isinstance(x, cls(ND + ":Unless")))):
        return U_(zs(run.getattr(x, "expression")), run.fold_term(DENN, run.items_of(run.getattr(x, "children"))))
    if x.schema is None and run.truth(mkb(run.isinstance(x, cls(ND + ":MutableAttribute")))):
        return M_(zs(run.getattr(x, "name")), vid(run, run.getattr(x, "value")))
    if x.schema is None and run.truth(mkb(run.isinstance(x, cls(ND + ":DynamicAttributes")))):
        return D_(zs(run.getattr(x, "expression")))
    return token(run, x)


def token(run, x):
    if "tok" not in x.ghost:
        x.ghost["tok"] = z3.String(run.name("output of node"))
    return x.ghost["tok"]


DENN = Fold("out", "str", den_node)
START = z3.Function("start_tag", IntS, StrS)


def element_facts(run, x):
    if "elem" not in x.ghost:
        x.ghost["elem"] = dict(start=START(z3.IntVal(x.oid)), empty=z3.Bool(run.name("is_empty_element")), close=None)
    return x.ghost["elem"]


def den_element(run, x):
    g = element_facts(run, x)
    guard = run.getattr(x, "guard_expression")
    items = run.items_of(run.getattr(x, "children"))
    name = zs(run.getattr(x, "name"))
    has = run.truth(run.getattr(x, "children"))
    kids = run.fold_term(DENN, items)
    if has:
        st, en = concat(g["start"], SV(">")), concat(SV("</"), name, SV(">"))
    else:
        st, en = concat(g["start"], z3.If(g["empty"], run.closing, concat(SV("></"), name, SV(">")))), None
    if guard is not None:
        st = U_(zs(guard), st)
        en = U_(zs(guard), en) if en is not None else None
    return concat(st, kids, en if en is not None else SV(""))


TEXTS = ["Text", "TranslatableText", "EscapedText", "EscapedComment"]
LEAVES = ["Comment", "Expression", "InterpolatedExpression", "Code", "DynamicAttributes", "Import"]
CONTAINERS = ["MutableAttribute", "DynamicText", "Element", "For", "Define", "If", "Unless", "Block", "With", "Extends", "Root"]


def kids_seg(run, name):
    return Seg(run.name(name), lambda run, nm: any_node(run, nm))


def node_schema():
    g = lambda n: cls(ND + ":" + n)

    def tr(run, o):
        return run.bool(run.name("translatable"))
    S = {
        g("Text"): dict(text=field_str("text"), is_cdata=field_bool("is_cdata"), translatable=tr),
        g("TranslatableText"): dict(translatable=const(True)),
        g("Comment"): dict(text=field_str("text")),
        g("ContainerNode"): dict(children=lambda run, o: SymList([kids_seg(run, "children of " + (o.name or "node"))])),
        g("Element"): dict(name=field_str("name"), guard_expression=lambda run, o: run.str("guard") if run.pick(2) else None),
    }
    return Schema(S)


def any_node(run, nm, kinds=None):
    return Obj([cls(ND + ":" + k) for k in (kinds or TEXTS + LEAVES + CONTAINERS)], schema=node_schema(), name=nm)


@unit("nodes.Text.escaped", ["C01", "C02"], ND + ":Text.escaped")
def _(run):
    """markup of text nodes: text and translatable text are escaped unless CDATA; markup text is copied"""
    k = run.pick(4)
    C = cls(ND + ":" + TEXTS[k])
    t = run.str("text", input=True)
    cd = run.bool("is_cdata", input=True)
    x = run.call(C, [t] if k >= 2 else [t, cd], {})
    want = t.t if k >= 2 else z3.If(cd.t, t.t, esc(t.t))
    r = run.call(run.getattr(x, "escaped"), [], {})
    run.ensure("the markup of the text", zs(r) == want)
    run.ensure_eq("the text is kept as given", run.getattr(x, "text"), t)
    if k == 1:
        run.ensure("translatable text is escaped unless it is CDATA", run.truth_term(run.getattr(x, "needs_escape")) == NOT(cd.t))
        run.ensure("it is translatable", run.truth(run.getattr(x, "translatable")))
    else:
        run.ensure("other text is not translatable", not run.truth(run.getattr(x, "translatable")))


@unit("nodes.escape_comment", ["C02", "C01"], ND + ":escape_comment", limit=90)
def _(run):
    """inside a comment, nothing can end it: the result has no "--"; text
    without these is unchanged"""
    t = run.str("text", input=True)
    r = zs(run.call(fn(ND + ":escape_comment"), [t], {}))
    run.ensure("no -- inside a comment", NOT(z3.Contains(r, SV("--"))))
    run.ensure("text that needs no escaping is unchanged",
               z3.Implies(A(NOT(z3.PrefixOf(SV(">"), t.t)), NOT(z3.SuffixOf(SV("-"), t.t)), NOT(z3.Contains(t.t, SV("--")))), r == t.t))


@unit("nodes.Element.set_attribute", ["C02", "C08", "C15"], ND + ":Element.set_attribute")
def _(run):
    """an attribute is constant exactly when its value is fixed text, and is recorded once under its name"""
    el = Obj(cls(ND + ":Element"), dict(name=run.str("name")))
    d = [dict_unknown(run, n) for n in ("attributes", "constant", "mutable")]
    for n, x in zip(("attributes", "constant_attributes", "mutable_attributes"), d):
        el.fields[n] = x
    name = run.str("attr", input=True)
    i = run.pick(4)
    v = any_node(run, "v", [["Text"], ["TranslatableText"], ["EmptyAttrVal"], ["DynamicText", "Expression", "InterpolatedExpression"]][i])
    v.fields["translatable"] = [run.bool("t"), True, False, run.bool("t2")][i]
    other = run.str("other", input=True)
    run.assume(other.t != name.t)
    before = [models.dict_find(run, x, other) for x in d]
    run.call(run.getattr(el, "set_attribute"), [name, v], {})
    after = [models.dict_find(run, x, name) for x in d]
    fixed = z3.BoolVal(False) if i in (1, 3) else z3.BoolVal(True) if i == 2 else NOT(run.truth_term(v.fields["translatable"]))
    run.ensure("the attribute is recorded", after[0] is v)
    run.ensure("fixed text makes a constant attribute", z3.Implies(fixed, z3.BoolVal(after[1] is v)))
    run.ensure("anything else makes a computed attribute", z3.Implies(NOT(fixed), z3.BoolVal(after[2] is v)))
    run.ensure("no other attribute changes", all(models.dict_find(run, x, other) is b for x, b in zip(d, before)))


@unit("nodes.ContainerNode.add_child", ["C02"], ND + ":ContainerNode.add_child")
def _(run):
    k = [c for c in CONTAINERS if c not in ("Extends",)]
    n = any_node(run, "n", [k[run.pick(len(k))]])
    kids = run.getattr(n, "children")
    old = list(kids.items)
    c = any_node(run, "c")
    run.call(run.getattr(n, "add_child"), [c], {})
    now = run.getattr(n, "children").items
    run.ensure("the child is added at the end, once", len(now) == len(old) + 1 and all(x is y for x, y in zip(now, old)) and now[-1] is c)


@unit("nodes.Extends.add_child", ["C09", "C13"], ND + ":Extends.add_child")
def _(run):
    """inside <py:extends> blank text and comments are ignored, everything else is kept"""
    n = any_node(run, "n", ["Extends"])
    kids = run.getattr(n, "children")
    old = list(kids.items)
    c = any_node(run, "c")
    run.call(run.getattr(n, "add_child"), [c], {})
    now = run.getattr(n, "children").items
    T = cls(ND + ":Text")
    ignorable = False
    if run.truth(mkb(run.isinstance(c, (cls(ND + ":Comment"), cls(ND + ":EscapedComment"))))):
        ignorable = True
    elif run.truth(mkb(run.isinstance(c, T))):
        s = run.call(run.getattr(run.getattr(c, "text"), "strip"), [], {})
        ignorable = not run.truth(s)
    if ignorable:
        run.ensure("blank text and comments are dropped", len(now) == len(old))
    else:
        run.ensure("anything else is kept, in order", len(now) == len(old) + 1 and now[-1] is c and all(x is y for x, y in zip(now, old)))


class Rejected(Exception):
    pass


def validator(run, seen):
    def se(run, a, k):
        seen.append((a, k))
        run.throw(Rejected)
    return opaque(run, "validator", getattr=lambda run, v, a: Native(se) if a == "syntax_error" else MISSING)


@unit("nodes.Extends.validate", ["C09", "C13"], ND + ":Extends.validate")
def _(run):
    """validation passes only when every child is a block, def or import and every child validates"""
    n = any_node(run, "n", ["Extends"])
    seen = []
    OKK = (cls(ND + ":Block"), cls(ND + ":Define"), cls(ND + ":Import"))
    seg = kids_seg(run, "kids")
    n.fields["children"] = SymList([seg])
    ALLOWED = Fold("allowed", "all", lambda run, x: z3.BoolVal(run.truth(mkb(run.isinstance(x, OKK)))))
    VALID = Fold("validated", "all", lambda run, x: z3.BoolVal(bool(x.ghost.get("validated"))))
    val = validator(run, seen)

    def child_validate(run, a, k):
        a[0].ghost["validated"] = True
    for k in set(TEXTS + LEAVES + CONTAINERS) - {"Extends"}:
        pass
    state = {"n": 0}

    def havoc(ctx):
        state["n"] += 1

    def inv1(ctx):
        return [("all are blocks, defs or imports", run.fold_term(ALLOWED, ctx.pre))]

    def inv2(ctx):
        return [("all are validated", run.fold_term(VALID, ctx.pre))]
    run.loops["kids"] = [Loop(havoc, inv1), Loop(havoc, inv2)]
    mk = seg.mk

    def mk2(run, nm):
        x = mk(run, nm)
        x.fields["validate"] = Native(lambda run, a, k: (run.ensure("the validator is handed on", a[0] is val), x.ghost.__setitem__("validated", True))[1])
        return x
    seg.mk = mk2
    try:
        run.call(run.getattr(n, "validate"), [val], {})
    except PyExc as e:
        if run.isinstance(e.value, Rejected) is not True:
            raise
        a, k = seen[0]
        node = k.get("node", a[1] if len(a) > 1 else None)
        run.ensure("the error names the offending child", isinstance(node, Obj) and not any(run.issub(kk, OKK) for kk in node.kinds))
        return
    run.ensure("accepted: every child is a block, def or import", run.fold_term(ALLOWED, [seg]))
    run.ensure("accepted: every child was validated", run.fold_term(VALID, [seg]))


@unit("nodes.For.validate", ["C13", "C05"], ND + ":For.validate")
def _(run):
    """a loop is accepted exactly when its header splits into a target and an iterable"""
    n = any_node(run, "n", ["For"])
    k = run.pick(3)
    parts = SymList([run.str("target"), run.str("iterable"), run.str("more")][:k + 1])
    n.fields["parts"] = parts
    n.fields["children"] = SymList([])
    seen = []
    try:
        run.call(run.getattr(n, "validate"), [validator(run, seen)], {})
    except PyExc as e:
        if run.isinstance(e.value, Rejected) is not True:
            raise
        run.ensure("only a malformed header is rejected", k != 1)
        a, kw = seen[0]
        run.ensure("the error names the loop", kw.get("node", a[1] if len(a) > 1 else None) is n)
        return
    run.ensure("a malformed header is rejected", k == 1)


@unit("nodes.validate", ["C13", "C09"], ND + ":ContainerNode.validate")
def _(run):
    """every container, a loop with a proper header among them, is accepted only when each of its children was validated"""
    kinds = [k for k in CONTAINERS if k != "Extends"]
    n = any_node(run, "n", [kinds[run.pick(len(kinds))]])
    if n.kinds == [cls(ND + ":For")]:
        n.fields["parts"] = SymList([run.str("target"), run.str("iterable")])
    seen = []
    val = validator(run, seen)
    seg = kids_seg(run, "kids")
    n.fields["children"] = SymList([seg])
    VALID = Fold("validated", "all", lambda run, x: z3.BoolVal(bool(x.ghost.get("validated"))))
    run.loops["kids"] = Loop(lambda ctx: None, lambda ctx: [("all are validated", run.fold_term(VALID, ctx.pre))])
    mk = seg.mk

    class Bad(Exception):
        pass

    def check(run, x):
        def f(run, a, k):
            run.ensure("the validator is handed on", a[0] is val)
            x.ghost["validated"] = True
            if run.pick(2):
                run.throw(Bad)
        return Native(f)

    def mk2(run, nm):
        x = mk(run, nm)
        x.fields["validate"] = check(run, x)
        return x
    seg.mk = mk2
    try:
        run.call(run.getattr(n, "validate"), [val], {})
    except PyExc as e:
        run.ensure("only what a child's validation raises", run.isinstance(e.value, Bad) is True)
        return
    run.ensure("accepted: every child was validated", run.fold_term(VALID, [seg]))


# --------------------------------------------------------------------------- merging text nodes
def merge_unit(run):
    f = fn(GEN + ":BaseIRGenerator.merge_text_nodes_on")
    me = Obj(cls(GEN + ":BaseIRGenerator"), name="self")
    node = any_node(run, "node")

    def visited(run, x):
        if x.ghost.get("merged") or not run.truth(mkb(run.hasattr(x, "children"))):
            return z3.BoolVal(True)
        t = run.truth_term(run.getattr(x, "children"))
        return NOT(t) if z3.is_expr(t) else z3.BoolVal(not t)
    VISITED = Fold("visited", "all", visited)

    def rec(run, a, k):
        x = a[-1]
        run.mutate(x)
        run.ensure("merging is asked for nodes only", isinstance(x, Obj))
        x.ghost["merged"] = True
        return None
    stub(run, GEN + ":BaseIRGenerator.merge_text_nodes_on", rec)
    container = run.truth(mkb(run.isinstance(node, cls(ND + ":ContainerNode"))))
    seg = kids_seg(run, "kids")
    if container:
        node.fields["children"] = SymList([seg])

    def havoc(ctx):
        ctx.set("new_children", SymList([kids_seg(run, "merged")]))
        ctx.set("text_run", SymList([Seg(run.name("run"), lambda run, nm: run.str(nm))]))

    def inv(ctx):
        nc, tr = ctx.get("new_children"), ctx.get("text_run")
        return [("the children so far, in order", concat(run.fold_term(DENN, nc.items), run.fold_term(run.JOIN, tr.items)) == run.fold_term(DENN, ctx.pre))]
    run.loops["kids"] = Loop(havoc, inv)
    run.loops["merged"] = Loop(lambda ctx: None, lambda ctx: [("every child is visited", run.fold_term(VISITED, ctx.pre))])
    old = run.fold_term(DENN, [seg]) if container else None
    run.call_closure(f, [me, node], {})
    if container:
        now = run.getattr(node, "children")
        run.ensure("merging keeps the output", run.fold_term(DENN, run.items_of(now)) == old)
        run.ensure("text is merged in every child that has children", run.fold_term(VISITED, run.items_of(now)))


unit("generate.merge_text_nodes_on", ["C02", "C15"], GEN + ":BaseIRGenerator.merge_text_nodes_on", trusted=["the recursive call by its own contract (induction over the height of the tree)"])(merge_unit)


# --------------------------------------------------------------------------- flattening elements
def dom_generator(run):
    g = Obj(cls(GEN + ":BaseDOMIRGenerator"), name="self")
    empty = opaque(run, "empty_elements")
    cd = opaque(run, "cdata_elements")
    run.is_empty = {}

    def contains_empty(run, c, x):
        return mkb(EMPTY(zs(x)))
    empty.ghost["contains"] = contains_empty
    cd.ghost["contains"] = lambda run, c, x: mkb(CDATA(zs(x)))
    run.closing = z3.String("empty tag closing string")
    g.fields.update(empty_elements=empty, cdata_elements=cd, empty_tag_closing_string=SymStr(run.closing))
    return g


EMPTY = z3.Function("is_empty_element", StrS, BoolS)
CDATA = z3.Function("is_cdata_element", StrS, BoolS)


def flatten_unit(run):
    f = fn(GEN + ":BaseDOMIRGenerator.flatten_element_nodes_on")
    me = dom_generator(run)
    EL = (cls(ND + ":Element"), cls(ND + ":Comment"))
    HASEL = Fold("has_element", "any", lambda run, x: z3.BoolVal(run.truth(mkb(run.isinstance(x, EL)))))
    HASREAL = Fold("has_real_element", "any", lambda run, x: z3.BoolVal(run.truth(mkb(run.isinstance(x, cls(ND + ":Element"))))))

    def flat(run, x):
        if not run.truth(mkb(run.hasattr(x, "children"))):
            return z3.BoolVal(True)
        if "flat" in x.ghost:
            return z3.BoolVal(True)
        t = run.truth_term(run.getattr(x, "children"))
        return NOT(t) if z3.is_expr(t) else z3.BoolVal(not t)
    FLAT = Fold("flat", "all", flat)
    node = any_node(run, "node", CONTAINERS)
    seg = Seg("kids", lambda run, nm: elem_node(run, nm))
    node.fields["children"] = SymList([seg])

    def elem_node(run, nm):
        x = any_node(run, nm)
        return x

    def rec(run, a, k):
        x = a[-1]
        run.mutate(x)
        if x is node:
            kids = run.getattr(x, "children")
            out = run.fold_term(DENN, run.items_of(kids))
            s = kids_seg(run, "flattened")
            x.fields["children"] = SymList([s])
            run.assume(run.fold_term(DENN, [s]) == out)
            run.assume(NOT(run.fold_term(HASREAL, [s])))
            run.assume(run.fold_term(FLAT, [s]))
        else:
            run.ensure("only nodes with children are flattened", mkb(run.hasattr(x, "children")))
            x.ghost["flat"] = True
        return None
    stub(run, GEN + ":BaseDOMIRGenerator.flatten_element_nodes_on", rec)

    def start_nodes(run, a, k):
        el = a[-1]
        s = Obj([cls(ND + ":EscapedText")], name="start")
        s.ghost["tok"] = element_facts(run, el)["start"]
        return SymList([s])
    stub(run, GEN + ":BaseDOMIRGenerator.get_start_tag_nodes", start_nodes)

    def esc_comment(run, a, k):
        return SymStr(COMMENT(zs(a[0])))
    stub(run, ND + ":escape_comment", esc_comment)

    def havoc(ctx):
        s = kids_seg(run, "out")
        ctx.set("new_children", SymList([s]))
        ctx.set("recurse", run.bool("recurse"))

    def inv(ctx):
        for x in ctx.pre:
            if isinstance(x, Obj) and x.kinds == [cls(ND + ":Element")]:
                run.assume(element_facts(run, x)["empty"] == EMPTY(zs(run.getattr(x, "name"))))
        nc, rc = ctx.get("new_children"), ctx.get("recurse")
        return [("the markup so far, in order", run.fold_term(DENN, nc.items) == run.fold_term(DENN, ctx.pre)),
                ("elements are left only when another pass follows", z3.Implies(run.fold_term(HASREAL, nc.items), zb(rc) if not isinstance(rc, bool) else z3.BoolVal(rc)))]
    run.loops["kids"] = Loop(havoc, inv)

    def havoc2(ctx):
        ctx.set("child_nodes", SymList([kids_seg(run, "copied")]))
        ctx.set("recurse", run.bool("recurse"))
        ctx.data["r"] = None

    def inv2(ctx):
        cn, rc = ctx.get("child_nodes"), ctx.get("recurse")
        r0 = ctx.entry.get("recurse")
        rb = lambda v: zb(v) if not isinstance(v, bool) else z3.BoolVal(v)
        return [("the children so far, in order", run.fold_term(DENN, cn.items) == run.fold_term(DENN, ctx.pre)),
                ("elements among them ask for another pass", z3.Implies(OR(run.fold_term(HASREAL, cn.items), rb(r0)), rb(rc)))]
    run.loops["children of elem of kids"] = Loop(havoc2, inv2)
    loop3 = Loop(lambda ctx: None, lambda ctx: [("every child with children is flattened", run.fold_term(FLAT, ctx.pre))])
    run.loops["flattened"] = loop3
    run.loops["out"] = loop3
    old = run.fold_term(DENN, [seg])
    run.call_closure(f, [me, node], {})
    now = run.items_of(run.getattr(node, "children"))
    run.ensure("flattening keeps the output: tags, children and comments in document order, once", run.fold_term(DENN, now) == old)
    run.ensure("no element is left", NOT(run.fold_term(HASREAL, now)))
    run.ensure("every child with children is flattened too", run.fold_term(FLAT, now))


unit("generate.flatten_element_nodes_on", ["C02", "C08", "C05"], GEN + ":BaseDOMIRGenerator.flatten_element_nodes_on", limit=120,
     trusted=["the recursive call by its own contract (induction over the height of the tree)"])(flatten_unit)


# --------------------------------------------------------------------------- start tags
def const_attr(run, pair):
    k, v = pair
    e = run.truth(mkb(run.isinstance(v, cls(ND + ":EmptyAttrVal"))))
    if e:
        return concat(SV(" "), zs(k))
    return concat(SV(" "), zs(k), SV('="'), text_spec(run, v), SV('"'))


CATTR = Fold("constant_attributes", "str", const_attr)


def attr_dict(run, name, kinds):
    d = dict_unknown(run, name)
    seg = Seg(name + " items", lambda run, nm: (run.str(nm + ".name"), any_node(run, nm, kinds)))
    d.base.seg = lambda run: seg
    run.assume(run.truth_term(d) == seg.nonempty)
    d.ghost["seg"] = seg
    return d


@unit("generate.render_constant_attributes", ["C02", "C01", "C08"], GEN + ":BaseDOMIRGenerator.render_constant_attributes")
def _(run):
    """every constant attribute once, in order: name alone when it has no value, otherwise name="escaped value" """
    f = fn(GEN + ":BaseDOMIRGenerator.render_constant_attributes")
    me = dom_generator(run)
    el = any_node(run, "el", ["Element"])
    d = attr_dict(run, "constant", ["Text", "EscapedText", "EmptyAttrVal"])
    el.fields["constant_attributes"] = d

    def havoc(ctx):
        # the parts, or the text of them
        ctx.set("code", run.str(run.name("code")) if form else SymList([Seg(run.name("code"), lambda run, nm: run.str(nm))]))

    form = []

    def so_far(code):
        if run.is_strlike(code):
            form.append("text")
            return zs(code)
        return run.fold_term(run.JOIN, run.items_of(code))
    run.loops["constant items"] = Loop(havoc, lambda ctx: [("the attributes so far", so_far(ctx.get("code")) == run.fold_term(CATTR, ctx.pre))])
    r = run.call_closure(f, [me, el], {})
    run.ensure("the markup of all constant attributes", zs(r) == run.fold_term(CATTR, [d.ghost["seg"]]))


def mut_attr(run, pair):
    return M_(zs(pair[0]), vid(run, pair[1]))


MATTR = Fold("mutable_attributes", "str", mut_attr)


@unit("generate.get_start_tag_nodes", ["C02", "C08", "C01"], GEN + ":BaseDOMIRGenerator.get_start_tag_nodes")
def _(run):
    """<name, constant attributes, computed attributes in order, dynamic attributes: each exactly once"""
    f = fn(GEN + ":BaseDOMIRGenerator.get_start_tag_nodes")
    me = dom_generator(run)
    el = any_node(run, "el", ["Element"])
    ca = attr_dict(run, "constant", ["Text", "EmptyAttrVal"])
    ma = attr_dict(run, "mutable", ["DynamicText", "TranslatableText", "Expression"])
    allv = attr_dict(run, "all", ["Text"])
    # class invariant of Element (nodes.Element.set_attribute): attributes holds the constant and the mutable ones
    run.assume(allv.ghost["seg"].nonempty == OR(ca.ghost["seg"].nonempty, ma.ghost["seg"].nonempty))
    dyn = run.pick(2)
    dtext = run.str("dynamic", input=True)
    run.assume(dtext.t != SV(""))
    el.fields.update(constant_attributes=ca, mutable_attributes=ma, attributes=allv, dynamic_attrs=dtext if dyn else None)
    stub(run, GEN + ":BaseDOMIRGenerator.render_constant_attributes", lambda run, a, k: SymStr(run.fold_term(CATTR, [ca.ghost["seg"]])))

    def havoc(ctx):
        ctx.set("start_tag_nodes", SymList([kids_seg(run, "start")]))
    pre = []

    def inv(ctx):
        st = ctx.get("start_tag_nodes")
        if not pre:
            pre.append(run.fold_term(DENN, st.items))
        return [("the attributes so far", run.fold_term(DENN, st.items) == concat(pre[0], run.fold_term(MATTR, ctx.pre)))]
    run.loops["mutable items"] = Loop(havoc, inv)
    r = run.call_closure(f, [me, el], {})
    want = concat(SV("<"), zs(run.getattr(el, "name")), run.fold_term(CATTR, [ca.ghost["seg"]]), run.fold_term(MATTR, [ma.ghost["seg"]]), D_(dtext.t) if dyn else SV(""))
    run.ensure("the start tag", run.fold_term(DENN, run.items_of(r)) == want)


# --------------------------------------------------------------------------- state stack
@unit("generate.push_pop_state", ["C15", "C02"], GEN + ":BaseIRGenerator.push_state")
def _(run):
    """entering a node and leaving it again restores what was known outside; the outside does not see inner changes"""
    g = Obj(cls(GEN + ":BaseIRGenerator"), name="self")
    top = dict_unknown(run, "state", lambda run, k, nm: run.bool(nm))
    below = Seg("states", lambda run, nm: opaque(run, nm))
    g.fields["states"] = SymList([below, top])
    K = run.str("K", input=True)
    before = models.dict_find(run, top, K)
    run.call(run.getattr(g, "push_state"), [], {})
    st = run.getattr(g, "state")
    run.ensure("the inner state starts as a copy", models.dict_find(run, st, K) is before and st is not top)
    models.setitem(run, st, K, True)
    run.call(run.getattr(g, "pop_state"), [], {})
    st2 = run.getattr(g, "state")
    run.ensure("the outer state is back", st2 is top)
    run.ensure("and unchanged", models.dict_find(run, st2, K) is before)


@unit("generate.enter_node", ["C01", "C02"], GEN + ":BaseDOMIRGenerator.enter_node")
def _(run):
    """inside a CDATA element, and everything in it, text is CDATA; nowhere else"""
    f = fn(GEN + ":BaseDOMIRGenerator.enter_node")
    g = dom_generator(run)
    i = run.pick(2)
    st = SymDict()
    outer = None
    if i:
        outer = run.bool("outer")
        st.writes.append(("is_cdata", outer))
    g.fields["states"] = SymList([st])
    x = any_node(run, "x")
    run.call_closure(f, [g, x], {})
    r = models.dict_find(run, st, "is_cdata")
    inner = CDATA(zs(run.getattr(x, "name"))) if x.kinds == [cls(ND + ":Element")] else z3.BoolVal(False)
    run.ensure("text is CDATA exactly inside CDATA elements", run.truth_term(r) == OR(outer.t if outer is not None else z3.BoolVal(False), inner))


def add_children_unit(run):
    """every child node that gives an IR node is added once, in document order, with the state pushed and popped around"""
    f = fn(GEN + ":BaseDOMIRGenerator.add_children")
    g = dom_generator(run)
    top = dict_unknown(run, "state", lambda run, k, nm: run.bool(nm))
    g.fields["states"] = SymList([top])
    target = any_node(run, "target", ["Element", "If", "Root", "Define", "Block", "DynamicText"])
    tk = SymList([])
    target.fields["children"] = tk
    entered = []
    stub(run, GEN + ":BaseDOMIRGenerator.enter_node", lambda run, a, k: entered.append(a[-1]))
    DOM = z3.Function("ir_of", IntS, StrS)

    def gen(run, a, k):
        d = a[-1]
        run.ensure("children are generated in an inner state", run.getattr(g, "state") is not top)
        if run.fork(z3.Bool(run.name("gives no node"))):
            run.assume(d.ghost["den"] == SV(""))
            return None
        x = any_node(run, "ir")
        x.ghost["tok"] = d.ghost["den"]
        return x
    stub(run, GEN + ":BaseDOMIRGenerator.generate_ir_node", gen)

    def mk(run, nm):
        d = opaque(run, nm)
        d.ghost["den"] = z3.String(run.name("output of dom node"))
        return d
    seg = Seg("dom", mk)
    DD = Fold("domout", "str", lambda run, d: d.ghost["den"])

    def havoc(ctx):
        ctx.modifies(tk)
        tk.items = [kids_seg(run, "added")]
    run.loops["dom"] = Loop(havoc, lambda ctx: [("the children so far", run.fold_term(DENN, tk.items) == run.fold_term(DD, ctx.pre))])
    run.call_closure(f, [g, SymList([seg]), target], {})
    run.ensure("the node was entered", len(entered) == 1 and entered[0] is target)
    run.ensure("every child's node is added, once and in order", run.fold_term(DENN, run.items_of(run.getattr(target, "children"))) == run.fold_term(DD, [seg]))
    run.ensure("the outer state is back", run.getattr(g, "state") is top)


unit("generate.add_children", ["C02"], GEN + ":BaseDOMIRGenerator.add_children",
     trusted=["generate_ir_node returns None only for DOM nodes without output"])(add_children_unit)
