"""tonnikala.i18n: the messages of a template"""
from .lib import *
from .k_base import ND

MI = "tonnikala.i18n"
LINGUA = "lingua: _extract_python gives the messages of the gettext calls of a Python expression; Message is a named tuple"
TEXTW = z3.Function("weight of a message", StrS, IntS)


def message(run, nm, text=None):
    """a message of lingua"""
    from lingua.extractors import Message
    t = text or run.str(nm, input=True)
    return Message([None, opaque(run, nm + " context")][run.pick(2)] if text is None else None, t, None, opaque(run, nm + " flags"), opaque(run, nm + " comment"), opaque(run, nm + " tcomment"), (opaque(run, nm + " file"), run.int(nm + " line")))


def model_message(run):
    from lingua.extractors import Message

    def f(run, a, k):
        try:
            return Message(*a, **k)
        except TypeError:
            run.throw(TypeError, "fields of a message")
    run.models[Message] = f


def weight(run, x):
    return TEXTW(zs(run.getattr(x, "msgid")))


MW = Fold("messages", "int", weight)
KINDS = node_classes()
REAL = z3.Function("weight of the messages of the node", IntS, IntS)


def ir_node(run, nm, kinds=KINDS):
    k = kinds[run.pick(len(kinds))]
    n = Obj(cls(ND + ":" + k), name=nm)
    n.ghost["kind"] = k
    n.ghost["id"] = z3.Int(run.name("node " + nm))
    n.fields["text"] = run.str(nm + " text", input=True)
    n.fields["expression"] = run.str(nm + " expression", input=True)
    n.fields["position"] = ([None, run.int(nm + " line")][run.pick(2)], run.int(nm + " column"))
    return n


def expected(run, n):
    """what extraction finds in one node"""
    if n.ghost["kind"] == "TranslatableText":
        return TEXTW(zs(n.fields["text"]))
    if n.ghost["kind"] in ("InterpolatedExpression", "Expression"):
        return REAL(n.ghost["id"])
    return z3.IntVal(0)


EXPECT = Fold("expected", "int", expected)


@unit("i18n.extractor", ["C19"], MI + ":TonnikalaExtractor.__call__", trusted=[LINGUA, "the parser by its contract (unit syntax.parse), IRTree iteration (unit nodes.IRTree.iter)"])
def _(run):
    """of every node of the tree: the text of a translatable text, the messages of an expression; each once, nothing else"""
    model_message(run)
    f = fn(MI + ":TonnikalaExtractor.__call__")
    o = Obj(cls(MI + ":TonnikalaExtractor"))
    how = run.pick(3)
    text = run.str("source", input=True)
    st = dict(parsed=[], opened=[])
    raw = opaque(run, "bytes", isinstance=lambda run, v, c: c is bytes, getattr=lambda run, v, a: Native(decode, "decode") if a == "decode" else MISSING)

    def decode(run, a, k):
        enc = (list(a) + [k.get("encoding", "utf-8")])[0]
        run.ensure("the template is UTF-8", isinstance(enc, str) and enc.lower().replace("_", "-") in ("utf-8", "utf8"))
        return text
    stream = opaque(run, "file", getattr=lambda run, v, a: Native(lambda run, a, k: raw if how == 1 else text, "read") if a == "read" else MISSING)

    def nodes(run, v):
        st["nodes"] = st.get("nodes") or Seg("nodes", ir_node, loop=outer)
        return [st["nodes"]]
    tree = opaque(run, "tree", iter=nodes)

    def parser(run, a, k):
        st["parsed"].append((a, k))
        return tree
    import io
    import tonnikala.loader as L

    def op(run, a, k):
        st["opened"].append(a[0])
        run.ensure("the file is read as UTF-8 text", k.get("encoding", "").lower().replace("_", "-") in ("utf-8", "utf8") and (len(a) < 2 or a[1] in ("r", "rt")))
        return stream
    run.models[io.open] = op
    ps = SymDict()
    models.setitem(run, ps, "tonnikala", Native(parser, "the parser"))
    for kx in ("js_tonnikala", "chameleon"):
        models.setitem(run, ps, kx, Native(lambda run, a, k: st["parsed"].append("other") or tree, "another parser"))
    run.globals[(MI, "parsers")] = ps
    options, fname = opaque(run, "options"), opaque(run, "filename")

    def python(run, a, k):
        node = a[1]
        run.ensure("messages of expressions", isinstance(node, Obj) and node.ghost.get("kind") in ("InterpolatedExpression", "Expression"))
        run.ensure("for these options", a[4] is options if len(a) > 4 else k.get("options") is options)
        s = SymList([Seg(run.name("messages"), message, loop=inner)])
        run.assume(run.fold_term(MW, s.items) == REAL(node.ghost["id"]))
        return s
    stub(run, MI + ":TonnikalaExtractor.parse_python", python)

    def fresh(ctx, name):
        y = SymList([Seg(run.name("yielded"), message)])
        ctx.modifies(y)
        ctx.frame.yields = y

    def outer_inv(ctx):
        return [("what is found so far is that of the nodes so far", run.fold_term(MW, ctx.frame.yields.items) == run.fold_term(EXPECT, ctx.pre))]
    outer = Loop(lambda ctx: fresh(ctx, "outer"), outer_inv)

    def inner_havoc(ctx):
        fresh(ctx, "inner")

    def inner_inv(ctx):
        if not ctx.pre:
            st["before"] = run.fold_term(MW, ctx.frame.yields.items)
        return [("every message of the expression is handed on", run.fold_term(MW, ctx.frame.yields.items) == st["before"] + run.fold_term(MW, ctx.pre))]
    inner = Loop(inner_havoc, inner_inv)
    if how == 2:
        r = run.call(f, [o, fname, options], {})
    else:
        r = run.call(f, [o, fname, options], dict(fileobj=stream, lineno=run.int("first line")))
    run.ensure("the template is parsed once", len(st["parsed"]) == 1)
    a, k = st["parsed"][0]
    run.ensure("its source", zs(a[1]).eq(text.t))
    run.ensure("with translation on", k.get("translatable") is True if "translatable" in k else len(a) > 2 and a[2] is True)
    run.ensure("a file is opened only without one", st["opened"] == ([fname] if how == 2 else []))
    run.ensure("the messages of every node, once each", run.fold_term(MW, run.iter_items(r)) == run.fold_term(EXPECT, [st["nodes"]]))


@unit("i18n.parse_python", ["C19"], MI + ":TonnikalaExtractor.parse_python", trusted=[LINGUA])
def _(run):
    """every message lingua finds in the expression, once, with its text"""
    from lingua.extractors import python as LPY
    model_message(run)
    o = Obj(cls(MI + ":TonnikalaExtractor"))
    node = ir_node(run, "node", ["InterpolatedExpression"])
    options, fname = opaque(run, "options"), opaque(run, "filename")
    st = {}

    def ext(run, a, k):
        src = a[1] if len(a) > 1 else k["source"]
        run.ensure("the messages of the node's expression", zs(src).eq(node.fields["expression"].t))
        run.ensure("for these options", (a[2] if len(a) > 2 else k["options"]) is options)
        st["called"] = True
        st["found"] = [Seg("found", mk, loop=Loop(havoc, inv))]
        return SymList(list(st["found"]))
    run.models[LPY._extract_python] = ext

    def mk(run, nm):
        st["x"] = message(run, nm)
        return st["x"]

    def havoc(ctx):
        y = SymList([Seg(run.name("yielded"), message)])
        ctx.modifies(y)
        ctx.frame.yields = y
        st["yielded"] = False

    def inv(ctx):
        if len(ctx.pre) == 2:
            run.ensure("every message is handed on", st["yielded"])
        return [("as many as there are so far", run.length(ctx.frame.yields.items) == run.length(ctx.pre))]

    def seen(run, fr, v):
        x = st["x"]
        run.ensure("once", not st["yielded"])
        st["yielded"] = True
        run.ensure("its text", zs(run.getattr(v, "msgid")) == x.msgid.t)
        run.ensure("its context and plural", A(run.getattr(v, "msgctxt") is x.msgctxt, run.getattr(v, "msgid_plural") is x.msgid_plural))
    run.on_yield["TonnikalaExtractor.parse_python"] = seen
    r = run.call(fn(MI + ":TonnikalaExtractor.parse_python"), [o, node, fname, run.int("first line"), options], {})
    run.ensure("the expression is looked at", st.get("called"))
    run.ensure("all messages", run.length(run.iter_items(r)) == run.length(st["found"]))


@unit("i18n.extract_tonnikala", ["C19"], MI + ":extract_tonnikala")
def _(run):
    """every message of the extractor in the form of Babel: function name and message arguments"""
    from lingua.extractors import Message
    f = fn(MI + ":extract_tonnikala")
    fileobj = opaque(run, "file")
    st = {"calls": []}

    def mk(run, nm):
        st["has"] = run.pick(2), run.pick(2)
        c = run.str(nm + " context", input=True) if st["has"][0] else None
        p = run.str(nm + " plural", input=True) if st["has"][1] else None
        for v in (c, p):
            if v is not None:
                run.assume(z3.Length(v.t) > 0)
        st["x"] = Message(c, run.str(nm, input=True), p, opaque(run, "flags"), run.str(nm + " comment"), "", (None, run.int(nm + " line")))
        return st["x"]

    def havoc(ctx):
        y = SymList([Seg(run.name("yielded"), lambda run, nm: opaque(run, nm))])
        ctx.modifies(y)
        ctx.frame.yields = y
        st["yielded"] = False

    def inv(ctx):
        if len(ctx.pre) == 2:
            run.ensure("every message is handed on", st["yielded"])
        return [("as many as there are so far", run.length(ctx.frame.yields.items) == run.length(ctx.pre))]

    def call(run, a, k):
        st["calls"].append((a, k))
        st["found"] = [Seg("found", mk, loop=Loop(havoc, inv))]
        return SymList(list(st["found"]))
    stub(run, MI + ":TonnikalaExtractor.__call__", lambda run, a, k: call(run, a[1:], k))
    import lingua.extractors as LE
    run.models[LE.Extractor.__init__] = lambda run, a, k: None

    def seen(run, fr, v):
        x = st["x"]
        run.ensure("once", not st["yielded"])
        st["yielded"] = True
        c, p = st["has"]
        want = ([x.msgctxt] if c else []) + [x.msgid] + ([x.msgid_plural] if p else [])
        run.ensure("four parts", isinstance(v, tuple) and len(v) == 4)
        run.ensure("the function that takes these arguments", zs(v[1]) == SV(("n" if p else "") + ("p" if c else "") + "gettext"))
        got = run.iter_items(v[2])
        run.ensure("the message and only it", len(got) == len(want) and not any(isinstance(g, Seg) for g in got))
        run.ensure("the texts", A(*[zs(g) == zs(w) for g, w in zip(got, want)]))
        run.ensure("its line", zi(v[0]) == zi(x.location[1]))
    run.on_yield["extract_tonnikala"] = seen
    r = run.call(f, [fileobj, opaque(run, "keywords"), opaque(run, "comment tags"), opaque(run, "options")], {})
    run.ensure("one extraction", len(st["calls"]) == 1)
    run.ensure("all messages", run.length(run.iter_items(r)) == run.length(st["found"]))
    a, k = st["calls"][0]
    run.ensure("of this file", k.get("fileobj") is fileobj)
    op = k.get("options") if "options" in k else a[2]
    run.ensure("without keywords, tags or domain of other programs", A(run.getattr(op, "comment_tag") is None, run.getattr(op, "domain") is None, len(run.iter_items(run.getattr(op, "keywords"))) == 0))
