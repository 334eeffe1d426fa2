"""tonnikala.expr: how text splits into static pieces and interpolations.

Specification, over a text t and positions of it (ghost functions of the position):
  R(p)  p is reached: 0 is, and the position after each step from a reached one is
  D(p)  what t[:p] shows: a step at a character other than $ shows it, $$ shows $, a $ before a letter, _ or { shows the
        interpolation that starts there (its source between two marks), any other $ shows itself
  X(p)  where the interpolation starting at p ends (contract of the expression parser)"""
from .lib import *

EX = "tonnikala.expr"
ND = "tonnikala.ir.nodes"
OPEN, CLOSE = SV("\x01"), SV("\x02")
D = z3.Function("shown", IntS, StrS)
R = z3.Function("reached", IntS, BoolS)
X = z3.Function("expression end", IntS, IntS)
LETTER = z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Re("_"), z3.Re("{"))
T_RE = "re: alternatives are tried in order, a last greedy repetition takes a maximal run, sub works from the left (pyvc/regexm.py; the pattern is parsed by re itself)"
T_PARSE = "the expression parser gives an expression whose string is a piece of the text at the given position, of at least two characters (contract of parse_expression)"


def ch(t, p):
    return z3.SubString(t, p, 1)


def is_expr(t, p):
    return A(ch(t, p) == SV("$"), p + 1 < z3.Length(t), z3.InRe(ch(t, p + 1), LETTER))


def is_double(t, p):
    return A(ch(t, p) == SV("$"), p + 1 < z3.Length(t), ch(t, p + 1) == SV("$"))


def base(run, t):
    run.assume([D(z3.IntVal(0)) == SV(""), R(z3.IntVal(0))])


def step(run, t, p):
    """what the specification says of the step from p"""
    n = z3.Length(t)
    inside = A(R(p), p >= 0, p < n)
    e, d = is_expr(t, p), is_double(t, p)
    run.assume([
        z3.Implies(A(inside, e), A(X(p) >= p + 2, X(p) <= n, R(X(p)), D(X(p)) == z3.Concat(D(p), OPEN, z3.SubString(t, p, X(p) - p), CLOSE))),
        z3.Implies(A(inside, d), A(R(p + 2), D(p + 2) == z3.Concat(D(p), SV("$")))),
        z3.Implies(A(inside, NOT(e), NOT(d)), A(R(p + 1), D(p + 1) == z3.Concat(D(p), ch(t, p))))])


def no_dollar(run, t, p, e):
    """the steps over characters that are no dollars (induction over their number)"""
    s = z3.SubString(t, p, e - p)
    run.assume(z3.Implies(A(R(p), p >= 0, e > p, e <= z3.Length(t), NOT(z3.Contains(s, SV("$")))), A(R(e), D(e) == z3.Concat(D(p), s))))


class Sub:
    """the substitution of the fast way: what was copied so far is what is shown so far"""
    def inv(self, run, t, q, out):
        return [("the text so far is what is shown so far", A(q >= 0, q <= z3.Length(t), R(q), out == D(q)))]

    def step(self, run, t, q, out):
        step(run, t, q)
        run.memo["at"] = q


@unit("expr._strip_dollars_fast", ["C03", "C02"], EX + ":_strip_dollars_fast", trusted=[T_RE])
def _(run):
    """without an interpolation the text shown; with one, and only then, HasExprException"""
    s = run.str("text", input=True)
    base(run, s.t)
    run.loops["re.sub"] = Sub()
    try:
        r = run.call(fn(EX + ":_strip_dollars_fast"), [s], {})
    except PyExc as e:
        run.ensure("only HasExprException is raised", run.kind_of(e.value) is cls(EX + ":HasExprException") if hasattr(run, "kind_of") else isinstance(e.value, Obj) and e.value.kinds == [cls(EX + ":HasExprException")])
        q = run.memo["at"]
        run.ensure("and only where an interpolation starts", A(R(q), is_expr(s.t, q)))
        return
    run.ensure("the text shown", zs(r) == D(z3.Length(s.t)))


def text_node(run, name, src, kinds=("Text", "TranslatableText", "DynamicText")):
    o = Obj([cls(ND + ":" + k) for k in kinds], name=name)
    o.ghost["src"] = src
    o.schema = Schema({})
    return o


SRC = Fold("source of nodes", "str", lambda run, x: x.ghost["src"])


@unit("expr.handle_text_node", ["C03", "C02", "C01"], EX + ":handle_text_node", trusted=[T_RE, T_PARSE], limit=90)
def _(run):
    """the nodes put back together are what is shown of the text; each interpolation starts at a $ that starts one, and the
    parser is asked about the original text there"""
    f = fn(EX + ":handle_text_node")
    s = run.str("text", input=True)
    t = s.t
    n = z3.Length(t)
    cdata, trans, whole = run.bool("is_cdata"), run.bool("translatable"), run.bool("whole_translatable")
    base(run, t)
    state = {"flagged": False, "fast": None}

    def fast(run, a, k):
        run.ensure("the text itself is examined", run.is_strlike(a[0]) and zs(a[0]).eq(t))
        if run.pick(2):
            run.memo["has"] = z3.Int("first interpolation")
            q = run.memo["has"]
            run.assume([q >= 0, q < n, R(q), is_expr(t, q)])
            raise PyExc(Obj(cls(EX + ":HasExprException")))
        return mks(D(n))
    stub(run, EX + ":_strip_dollars_fast", fast)

    def create(run, a, k):
        b = dict(zip(["text", "is_cdata", "translatable"], a))
        b.update(k)
        o = text_node(run, run.name("text node"), zs(b["text"]))
        o.fields["is_cdata"] = b.get("is_cdata", False)
        run.ensure("static text is translatable when its text is", zb(b.get("translatable", False)) == trans.t)
        state["created"] = b
        return o
    stub(run, EX + ":create_text_nodes", create)

    def parse(run, a, k):
        b = list(a) + list(k.values())
        p = zi(b[1])
        run.ensure("the parser is given the text", run.is_strlike(b[0]) and zs(b[0]).eq(t))
        run.ensure("at the $ of an interpolation that is reached", A(R(p), is_expr(t, p)))
        step(run, t, p)
        src = z3.SubString(t, p, X(p) - p)
        o = Obj(cls("tonnikala.languages.python:PythonExpression"), dict(string=mks(src)), name="expr")
        o.ghost["src"] = z3.Concat(OPEN, src, CLOSE)
        return o
    parser = Native(parse, "expr_parser")

    def node_mk(run, nm):
        o = Obj([cls(ND + ":Text"), cls(ND + ":TranslatableText"), cls(ND + ":DynamicText"), cls("tonnikala.languages.python:PythonExpression")], name=nm)
        o.ghost["src"] = z3.String(run.name("source of " + nm))
        return o

    def havoc(ctx):
        ctx.set("nodes", SymList([Seg("nodes", node_mk)]))
        ctx.set("string_run", SymList([Seg("run", lambda run, nm: run.str(nm))]))
        ctx.set("pos", run.int("pos", input=True))
        state["old"] = zi(ctx.get("pos"))
        step(run, t, state["old"])

    def inv(ctx):
        p = zi(ctx.get("pos"))
        if ctx.phase == "kept":
            no_dollar(run, t, state["old"], p)
            step(run, t, state["old"])
        return [("a reached position", A(p >= 0, p <= n, R(p))),
                ("the pieces so far are what is shown so far", concat(run.fold_term(SRC, ctx.get("nodes").items), run.fold_term(run.JOIN, ctx.get("string_run").items)) == D(p))]
    run.loops[("loop", "handle_text_node", 0)] = Loop(havoc, inv)

    # the two loops over the nodes afterwards: children, then flags
    def dyn(ctx):
        v = ctx.get("node")
        return run.getattr(v, "children")

    def havoc_children(ctx):
        c = dyn(ctx)
        ctx.modifies(c)
        c.items = list(ctx.pre)

    def inv_children(ctx):
        return [("the children so far are the nodes so far", run.fold_term(SRC, dyn(ctx).items) == run.fold_term(SRC, ctx.pre))]

    def inv_flags(ctx):
        state["flagged"] = True
        if len(ctx.pre) == 2:
            x = ctx.pre[1]
            return [("every piece is character data when the text is", zb(run.getattr(x, "is_cdata")) == cdata.t),
                    ("every piece knows whether it is translatable", zb(run.getattr(x, "translatable")) == trans.t)]
        return []
    run.loops["nodes"] = [Loop(havoc_children, inv_children), Loop(lambda ctx: None, inv_flags)]
    r = run.call(f, [s], dict(expr_parser=parser, is_cdata=cdata, translatable=trans, whole_translatable=whole))
    if "has" not in run.memo:
        run.ensure("without interpolations one text node, with the text shown", isinstance(r, Obj) and "src" in r.ghost and A(r.ghost["src"] == D(n)))
        run.ensure("which is character data when the text is", zb(r.fields["is_cdata"]) == cdata.t)
        return
    q = run.memo["has"]
    if isinstance(r, Obj) and "src" in r.ghost:
        run.ensure("the only node is what is shown", r.ghost["src"] == D(n))
        return
    run.ensure("a dynamic text", isinstance(r, Obj) and r.kinds == [cls(ND + ":DynamicText")])
    run.ensure("of what is shown, in order", run.fold_term(SRC, run.getattr(r, "children").items) == D(n))
    if not state["flagged"]:
        raise Unsupported("the flags of the pieces are set in an unknown way")
    run.ensure("it is character data when the text is", zb(run.getattr(r, "is_cdata")) == cdata.t)
    if run.fork(whole.t):
        run.ensure("the whole is translatable when asked for", zb(run.getattr(r, "translatable")))


@unit("expr.create_text_nodes", ["C03", "C15", "C02"], EX + ":create_text_nodes", trusted=["partition_translatable_text by its contract (unit expr.partition_translatable_text)"])
def _(run):
    """text that is not translatable is one text node; of translatable text the middle is a message, the white space before and
    after it are text nodes, in order, and nothing is lost"""
    f = fn(EX + ":create_text_nodes")
    s = run.str("text", input=True)
    cdata, trans = run.bool("is_cdata"), run.bool("translatable")
    a, b, c = (run.str(x, input=True) for x in ("leading", "middle", "trailing"))

    def part(run, x, k):
        run.ensure("the text is split", zs(x[0]).eq(s.t))
        run.assume(s.t == z3.Concat(a.t, b.t, c.t))
        return (a, b, c)
    stub(run, EX + ":partition_translatable_text", part)
    r = run.call(f, [s], dict(is_cdata=cdata, translatable=trans))
    Text, Tr, Dyn = (cls(ND + ":" + x) for x in ("Text", "TranslatableText", "DynamicText"))

    def flat(x):
        if x.kinds == [Dyn]:
            out = []
            for y in run.getattr(x, "children").items:
                out += flat(y)
            return out
        return [x]
    if not isinstance(r, Obj):
        run.ensure("a node", False)
        return
    ps = flat(r)
    run.ensure("text nodes", all(isinstance(x, Obj) and x.kinds in ([Text], [Tr]) for x in ps))
    run.ensure("nothing is lost, in order", concat(*[zs(run.getattr(x, "text")) for x in ps]) == s.t if ps else s.t == SV(""))
    for x in ps:
        run.ensure("character data when the text is", zb(run.getattr(x, "is_cdata")) == cdata.t)
    tr = [x for x in ps if x.kinds == [Tr]]
    run.ensure("at most one message", len(tr) <= 1)
    run.ensure("a message when there is one", (z3.BoolVal(len(tr) == 1)) == A(trans.t, b.t != SV("")))
    for x in tr:
        run.ensure("the message is the middle", zs(run.getattr(x, "text")) == b.t)


@unit("expr.partition_translatable_text", ["C15", "C03"], EX + ":partition_translatable_text", trusted=[T_RE])
def _(run):
    """the three parts give the text; the first and the last are white space, the middle neither starts nor ends with any"""
    s = run.str("text", input=True)
    r = run.call(fn(EX + ":partition_translatable_text"), [s], {})
    if "strip split" in run.memo:
        t, a, b, c = run.memo["strip split"]
        run.ensure("the text is split", t.eq(s.t))
        items = list(run.iter_items(r))
        run.ensure("three parts", len(items) == 3)
        for x, y, nm in zip(items, (a, b, c), ("leading white space", "the rest", "trailing white space")):
            run.ensure(nm, zs(x) == y)
        return
    raise Unsupported("another way of splitting")
