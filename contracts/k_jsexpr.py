"""tonnikala.languages.javascript: where an interpolated expression ends, given the tokens the JavaScript lexer sees."""
from .lib import *
from .k_pyexpr import call_error, lemma, T_RE, kept_as, closes
from pyvc import regexm

LJ = "tonnikala.languages.javascript"
JL = LJ + ".jslex"
T_LEX = "the tokens tile the text from the place on (unit jsexpr.Lexer.lex)"
SIZE = Fold("size", "int", lambda run, x: z3.Length(zs(x[1])))
DEPTH = Fold("depth", "int", lambda run, x: z3.If(zs(x[1]) == SV("{"), z3.IntVal(1), z3.If(zs(x[1]) == SV("}"), z3.IntVal(-1), z3.IntVal(0))))


def stub_lexer(run, text, start, spec, first=None):
    """contract of JsLexer().lex(text, start): (type, content) with the contents tiling the text from start"""
    t, n = text, z3.Length(text)

    def lex(run, a, kw):
        run.ensure("the tokens are those of this text", zs(a[0]).eq(t))
        p = zi(a[1]) if len(a) > 1 else z3.IntVal(0)
        start(p)
        seg = None

        def mk(run, nm):
            ty, c = run.str(nm + " type"), run.str(nm + " text", input=True)
            run.assume(z3.Length(c.t) > 0)
            if first:
                first(c)
            return (ty, c)
        seg = Seg("tokens", mk, loop=spec)
        seg.ghost["from"] = p
        return SymList([seg])

    def new(run, a, kw):
        return opaque(run, "lexer", getattr=lambda run, v, attr: Native(lambda run, a, kw: lex(run, a, kw), attr) if attr == "lex" else MISSING)
    stub(run, JL + ":JsLexer", new)


def tile(run, text, p, pre, x):
    """the token x behind the tokens pre is the text there"""
    q = p + run.fold_term(SIZE, pre)
    l = z3.Length(zs(x[1]))
    run.assume([q >= p, q + l <= z3.Length(text), zs(x[1]) == z3.SubString(text, q, l)])


@unit("jsexpr.parse_braced", ["C20"], LJ + ":parse_expression", trusted=[T_LEX])
def _(run):
    """a braced expression ends at the first } whose { is the opening one; an error when there is none"""
    s, p0 = run.str("text", input=True), run.int("start", input=True)
    t, n = s.t, z3.Length(s.t)
    run.assume([p0.t >= 0, p0.t + 2 <= n, z3.SubString(t, p0.t, 2) == SV("${")])
    st = dict(asked=0)

    def closes(x, pre):
        return A(zs(x[1]) == SV("}"), run.fold_term(DEPTH, pre) == 0)

    def havoc(ctx):
        st["ctx"] = ctx
        ctx.set("braces", run.int("braces"))
        ctx.set("length", run.int("length"))

    def inv(ctx):
        if len(ctx.pre) == 2:
            run.ensure("the closing brace is not passed over", NOT(closes(ctx.pre[1], ctx.pre[:1])))
        b = zi(ctx.get("braces"))
        return [("the braces open so far", A(b == run.fold_term(DEPTH, ctx.pre), b >= 0)), ("the length so far", zi(ctx.get("length")) == 2 + run.fold_term(SIZE, ctx.pre))]

    def exit(ctx):
        st["out"] = True
    spec = Loop(havoc, inv, exit, whole=True)

    def start(p):
        st["asked"] += 1
        run.ensure("from behind the opening brace", p == p0.t + 2)
    stub_lexer(run, t, start, spec)
    r, e = call_error(run, lambda: run.call(fn(LJ + ":parse_expression"), [s, p0], {}))
    if e is not None:
        run.ensure("only a parse error", isinstance(e.value, Obj) and e.value.kinds == [cls(LJ + ":ParseError")])
        run.ensure("and only when no brace closes it", bool(st.get("out")))
        return
    if st.get("out"):
        run.ensure("an expression that no brace closes is an error", False)
        return
    ctx = st["ctx"]
    x, pre = ctx.x, ctx.pre[:1]
    tile(run, t, p0.t + 2, pre, x)
    run.ensure("it ends at the closing brace", closes(x, pre))
    end = p0.t + 2 + run.fold_term(SIZE, pre) + 1
    run.ensure("the whole text of it", zs(run.getattr(r, "string")) == z3.SubString(t, p0.t, end - p0.t))
    run.ensure("the expression between the braces", zs(run.getattr(r, "expression")) == z3.SubString(t, p0.t + 2, end - p0.t - 3))
    run.ensure("a JavaScript expression", r.kinds == [cls(LJ + ":JavascriptExpression")])


@unit("jsexpr.parse_expression", ["C20"], LJ + ":parse_expression")
def _(run):
    """what does not start with a brace is a name with what follows it"""
    s, p = run.str("text", input=True), run.int("start", input=True)
    run.assume([p.t >= 0, p.t + 2 <= z3.Length(s.t), z3.SubString(s.t, p.t + 1, 1) != SV("{")])
    made = []
    stub(run, LJ + ":parse_unenclosed_expression", lambda run, a, kw: made.append((opaque(run, "expression"), a)) or made[-1][0])
    lexing = Native(lambda run, a, kw: run.ensure("no lexer is asked", False), "lex")
    stub(run, JL + ":JsLexer", lambda run, a, kw: opaque(run, "lexer", getattr=lambda run, v, attr: lexing if attr == "lex" else MISSING))
    r = run.call(fn(LJ + ":parse_expression"), [s, p], {})
    run.ensure("the name", len(made) == 1 and r is made[0][0])
    run.ensure("of this text and place", A(zs(made[0][1][0]).eq(s.t), zi(made[0][1][1]) == p.t))


TJ = z3.Function("end of the JavaScript trailers", IntS, IntS)
BJ = z3.Function("end of the JavaScript brackets", IntS, IntS)
NAMECHAR = (False, (("c", "$"), ("k", "CATEGORY_WORD")), False)
START = (True, (("k", "CATEGORY_DIGIT"), ("k", "CATEGORY_NOT_WORD")), False)


def trailer_axioms(run, t, p):
    n = z3.Length(t)
    c, d = z3.SubString(t, p, 1), z3.SubString(t, p + 1, 1)
    dotted = A(c == SV("."), p + 2 <= n, regexm.in_class(START, d))
    br = A(p < n, OR(c == SV("("), c == SV("[")))
    e = regexm.run_end(NAMECHAR)(t, p + 2)
    run.assume([z3.Implies(A(p >= 0, p <= n), A(z3.Implies(dotted, TJ(p) == TJ(e)), z3.Implies(br, A(TJ(p) == TJ(BJ(p)), BJ(p) > p, BJ(p) <= n)), z3.Implies(A(NOT(dotted), NOT(br)), TJ(p) == p)))])


@unit("jsexpr.parse_unenclosed_expression", ["C20"], LJ + ":parse_unenclosed_expression", trusted=[T_LEX, T_RE, "the first token of a text that starts with ( or [ is that bracket"], limit=90, forms=["closers"])
def _(run):
    """the name and every directly following .name, (...) or [...]; the brackets end at the one that closes the first, or
    with the text; a bracket that does not match is an error"""
    s, p0 = run.str("text", input=True), run.int("start", input=True)
    t, n = s.t, z3.Length(s.t)
    run.assume([p0.t >= 0, p0.t + 2 <= n, z3.SubString(t, p0.t, 1) == SV("$"), z3.InRe(z3.SubString(t, p0.t + 1, 1), z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Re("_")))])
    regexm.pred("digit", False), regexm.pred("word", False)
    regexm.ascii_facts(run, z3.SubString(t, p0.t + 1, 1))
    name_end = regexm.run_end(NAMECHAR)(t, p0.t + 2)
    st = {}
    opened = lambda c: OR(zs(c[1]) == SV("("), zs(c[1]) == SV("["))
    closed = lambda c: OR(zs(c[1]) == SV(")"), zs(c[1]) == SV("]"))

    def bracket(run, nm):
        b = run.str(nm)
        run.assume(OR(b.t == SV(")"), b.t == SV("]")) if FORM[0] else OR(b.t == SV("("), b.t == SV("[")))
        return b

    def havoc(ctx):
        ctx.set("pos", run.int("pos", input=True))
        st["pos"] = zi(ctx.get("pos"))
        trailer_axioms(run, t, st["pos"])
        left = Seg("left open", bracket)
        ctx.set("pars", SymList([left]))

    def inv(ctx):
        p = zi(ctx.get("pos"))
        pars = run.items_of(ctx.get("pars"))
        if ctx.phase == "kept" and "tctx" in st:
            c = st["tctx"]
            if st.get("ended"):
                # no token closes the outermost bracket: the tokens go to the end of the text
                run.assume([BJ(st["pos"]) == n, st["from"] + run.fold_term(SIZE, c.pre) == n])
            else:
                x = c.x
                tile(run, t, st["from"], c.pre[:1], x)
                run.assume(z3.Implies(A(closed(x), run.length([st["open"]]) == 1), BJ(st["pos"]) == st["from"] + run.fold_term(SIZE, c.pre[:1]) + z3.Length(zs(x[1]))))
        if ctx.phase == "kept":
            trailer_axioms(run, t, p)
        return [("inside the text", A(p >= p0.t + 2, p <= n)),
                ("the end of the trailers from here is that of the whole", TJ(p) == TJ(name_end)),
                ("no bracket is open between the parts", OR(run.length(pars) == 0, p == n))]
    run.loops[("loop", "parse_unenclosed_expression", 0)] = Loop(havoc, inv)

    def havoc_t(ctx):
        ctx.modifies(ctx.get("pars"))
        open_ = Seg("open", bracket)
        ctx.get("pars").items[:] = [open_]
        ctx.set("pos", run.int("pos in the brackets", input=True))
        st["open"], st["tctx"] = open_, ctx
        run.assume(open_.nonempty if ctx.exit else open_.nonempty == ctx.pre[0].nonempty)

    def inv_t(ctx):
        p = zi(ctx.get("pos"))
        if len(ctx.pre) == 2:
            x = ctx.pre[1]
            before, now = [st["open"]], run.items_of(ctx.get("pars"))
            J = lambda items: run.fold_term(run.JOIN, items)
            last = z3.String("the last open bracket")
            run.ensure("an opening bracket is open from then on", z3.Implies(opened(x), J(now) == concat(J(before), kept_as(zs(x[1])))))
            run.ensure("a closing bracket closes the last one and that only", z3.Implies(closed(x), z3.Exists([last], A(J(before) == z3.Concat(J(now), last), closes(last, zs(x[1]))))))
            run.ensure("some bracket stays open", z3.Implies(closed(x), run.length(now) > 0))
            run.ensure("other tokens change nothing", z3.Implies(NOT(OR(opened(x), closed(x))), J(now) == J(before)))
        return [("the tokens so far are passed", p == st["from"] + run.fold_term(SIZE, ctx.pre))]

    def exit_t(ctx):
        st["ended"] = True
        run.assume(st["from"] + run.fold_term(SIZE, ctx.pre) == n)

    def start(p):
        st["from"] = p
        run.ensure("from the bracket on", A(p == st["pos"], OR(z3.SubString(t, p, 1) == SV("("), z3.SubString(t, p, 1) == SV("["))))
    spec = Loop(havoc_t, inv_t, exit_t, whole=True)

    def first(c):
        if "open" in st:
            run.assume(z3.Implies(NOT(st["open"].nonempty), c.t == z3.SubString(t, st["from"], 1)))
    stub_lexer(run, t, start, spec, first)
    r, e = call_error(run, lambda: run.call(fn(LJ + ":parse_unenclosed_expression"), [s, p0], {}))
    if e is not None:
        x = st["tctx"].x
        run.ensure("only a template syntax error", isinstance(e.value, Obj) and e.value.kinds == [cls("tonnikala.runtime.exceptions:TemplateSyntaxError")])
        run.ensure("and only at a closing bracket", closed(x))
        return
    end = TJ(name_end)
    if "pos" in st:
        lemma(run, st["pos"] == end)
    run.ensure("the whole text of it, to the end of the trailers", zs(run.getattr(r, "string")) == z3.SubString(t, p0.t, end - p0.t))
    run.ensure("the expression is what follows the $", zs(run.getattr(r, "expression")) == z3.SubString(t, p0.t + 1, end - p0.t - 1))


CONTENT = Fold("content", "str", lambda run, x: zs(x[1]))


@unit("jsexpr.Lexer.lex", ["C20"], JL + ":Lexer.lex", trusted=["re: finditer gives the matches of the rules from the place on; some rule matches at every place, never nothing, so the matches tile the rest of the text"])
def _(run):
    """every token in order, nothing skipped and nothing twice; after a rule that names a next state the rules of that state
    are the ones tried, and no others in between"""
    text, start = run.str("text", input=True), run.int("start", input=True)
    t, n = text.t, z3.Length(text.t)
    run.assume([start.t >= 0, start.t <= n])
    first = run.str("first state")
    st = dict(state=first.t, at=start.t)

    def rule(run, key, nm):
        nxt = [None]

        def ga(run, v, attr):
            if attr == "name":
                return v.ghost.setdefault("rule name", run.str(nm + " name"))
            if attr == "next":
                if "next" not in v.ghost:
                    v.ghost["next"] = run.str(nm + " next") if run.pick(2) else None
                return v.ghost["next"]
            return MISSING
        return opaque(run, nm, getattr=ga)
    toks = dict_unknown(run, "rules", rule)
    o = Obj(cls(JL + ":Lexer"))

    def regexes(run, key, nm):
        def finditer(run, a, kw):
            run.ensure("the rules of the state the lexer is in", zs(key) == st["state"])
            run.ensure("on this text, from the end of the last token on", A(zs(a[0]).eq(t), zi(a[1]) == st["at"]))
            st["from"] = zi(a[1])

            def mk(run, nm):
                g, c = run.str(nm + " rule"), run.str(nm + " text", input=True)
                run.assume(z3.Length(c.t) > 0)

                def group(run, a, kw):
                    if not run.truth(run.eq(a[0], g)) if a else True:
                        raise Unsupported("group of a match")
                    return c
                m = opaque(run, nm, getattr=lambda run, v, attr: g if attr == "lastgroup" else Native(group, attr) if attr == "group" else MISSING)
                m.ghost["text"], m.ghost["rule"] = c, g
                found(m)
                return m
            seg = Seg("matches", mk, loop=Loop(havoc_m, inv_m, exit_m, whole=True))
            return SymTuple([seg])
        return opaque(run, nm, getattr=lambda run, v, attr: Native(finditer, attr) if attr == "finditer" else MISSING)
    o.fields.update(regexes=dict_unknown(run, "regexes", regexes), toks=toks, state=first)
    TEXTS = Fold("texts", "int", lambda run, m: z3.Length(m.ghost["text"].t))

    def found(x):
        r = models.dict_find(run, toks, x.ghost["rule"])
        if r is MISSING:
            raise PathEnd()      # a rule that matches is one of the rules
        return r

    def yields(ctx):
        y = SymList([Seg(run.name("yielded"), lambda run, nm: (run.str(nm + " type"), run.str(nm)))])
        ctx.modifies(y)
        ctx.frame.yields = y

    def done(ctx, at):
        return concat(SV(""), run.fold_term(CONTENT, ctx.frame.yields.items)) == z3.SubString(t, start.t, at - start.t)

    def havoc(ctx):
        ctx.set("eaten", run.int("eaten"))
        ctx.set("s", run.str("state"))
        st["state"], st["at"] = zs(ctx.get("s")), zi(ctx.get("eaten"))
        if models.dict_find(run, o.fields["regexes"], ctx.get("s")) is MISSING:
            raise PathEnd()      # a state a rule names is one of the states
        yields(ctx)

    def inv(ctx):
        e, s = zi(ctx.get("eaten")), zs(ctx.get("s"))
        if ctx.phase == "entry":
            run.ensure("starts in the state the lexer is in", s == first.t)
        if ctx.phase == "kept" and "mctx" in st:
            if st.get("ended"):
                run.ensure("no rule changed the state", s == st["state"])
            else:
                r = found(st["mctx"].x)
                run.ensure("the rule names the state to go on with", run.truth_term(run.getattr(r, "next")))
                run.ensure("which is the one gone on with", s == zs(run.getattr(r, "next")))
        return [("inside the text", A(e >= start.t, e <= n)), ("what is handed out is the text so far", done(ctx, e))]
    run.loops[("loop", "Lexer.lex", 0)] = Loop(havoc, inv)

    def havoc_m(ctx):
        st["mctx"] = ctx
        ctx.set("eaten", run.int("eaten in the line"))
        yields(ctx)

    def inv_m(ctx):
        e = zi(ctx.get("eaten"))
        if len(ctx.pre) == 2:
            r = found(ctx.x)
            run.ensure("rules are changed when a rule says so", NOT(run.truth_term(run.getattr(r, "next"))))
        here = st["from"] + run.fold_term(TEXTS, ctx.pre)
        return [("the matches so far are passed", e == here), ("what is handed out is the text so far", done(ctx, e))]

    def exit_m(ctx):
        st["ended"] = True
        run.assume(st["from"] + run.fold_term(TEXTS, ctx.pre) == n)

    def seen(run, fr, v):
        x, pre = st["mctx"].x, st["mctx"].pre[:1]
        c = x.ghost["text"].t
        at = st["from"] + run.fold_term(TEXTS, pre)
        run.assume([at >= st["from"], at + z3.Length(c) <= n, c == z3.SubString(t, at, z3.Length(c))])
        l = z3.Length(c)
        run.axiom(z3.Implies(A(start.t >= 0, at >= start.t, at + l <= n), z3.Concat(z3.SubString(t, start.t, at - start.t), z3.SubString(t, at, l)) == z3.SubString(t, start.t, at + l - start.t)))
        run.ensure("the text of the token", zs(v[1]) == c)
        run.ensure("with the name of its rule", run.eq(v[0], run.getattr(found(x), "name")))
    run.on_yield["Lexer.lex"] = seen
    y = run.call(fn(JL + ":Lexer.lex"), [o, text, start], {})
    run.ensure("the whole text is handed out", run.fold_term(CONTENT, run.items_of(y)) == z3.SubString(t, start.t, n - start.t))
