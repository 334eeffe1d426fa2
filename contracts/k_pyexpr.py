"""tonnikala.languages.python: where an interpolated expression ends, given the tokens Python's tokenizer sees from there."""
import token
import tokenize
from .lib import *
from pyvc import regexm

LP = "tonnikala.languages.python"
TSE = "tonnikala.runtime.exceptions:TemplateSyntaxError"
T_TOK = "tokenize.generate_tokens: the tokens of the text in order, the last line read when a token is given being the one its end column counts in; ends with ENDMARKER or an exception; a line without nulls and lone surrogates is read no further than the tokens asked for"
T_RE = "re: alternatives are tried in order, a last greedy repetition takes a maximal run (pyvc/regexm.py)"


LINE = z3.Function("line of the text at", IntS, IntS)


def located(run, s):
    """the text with its position; a slice of it has the position of its first character (unit helpers.StringWithLocation.slice)"""
    SWL = cls("tonnikala.helpers:StringWithLocation")

    def item(run, a, k):
        o, i = a
        if "at" not in o.ghost or not isinstance(i, slice):
            return models.getitem(run, o.sval, i)
        r = models.getitem(run, o.sval, i)
        n = z3.Length(s.t)
        b = z3.IntVal(0) if i.start is None else zi(i.start)
        b = z3.If(b < 0, z3.If(b + n < 0, z3.IntVal(0), b + n), z3.If(b > n, n, b))
        x = Obj(SWL, dict(position=(mki(LINE(b)), run.int("column"))), sval=r)
        return x
    stub(run, "tonnikala.helpers:StringWithLocation.__getitem__", item)
    o = Obj(SWL, dict(position=(mki(LINE(z3.IntVal(0))), run.int("column"))), sval=s)
    o.ghost["at"] = True
    return o


def at_line(run, e, lo, hi):
    """the error names the line of a place of the text between lo and hi"""
    q = z3.Int("place")
    ln = e.value.fields.get("lineno")
    if not isinstance(ln, SymInt) or ln.t.decl().name() != LINE.name():
        return False
    return A(ln.t.arg(0) >= lo, ln.t.arg(0) <= hi)


def the_error(run, e):
    v = e.value
    return isinstance(v, Obj) and v.kinds == [cls(TSE)]


def tokens(run, text, spec):
    """the token stream: an unknown number of (type, content, end)"""
    def mk(run, nm):
        ty, c, e = run.int(nm + " type", input=True), run.str(nm + " text", input=True), run.int(nm + " end", input=True)
        run.assume([e.t >= 0, e.t <= z3.Length(text)])
        # the text of an operator decides which it is; brackets are operators
        return (ty, c, e)
    return Seg("tokens", mk, loop=spec, ends=read_on)


def read_on(run):
    run.ensure("the tokens are read only as far as needed: what follows need not be Python", False)


def kept_as(b):
    """what the stack of open brackets holds for the bracket b: itself, or in the other form the one that closes it"""
    return z3.If(b == SV("("), SV(")"), SV("]")) if FORM[0] else b


def closes(last, b):
    return A(last == b, OR(b == SV(")"), b == SV("]"))) if FORM[0] else OR(A(last == SV("("), b == SV(")")), A(last == SV("["), b == SV("]")))


def is_op(x, c):
    return A(zi(x[0]) == token.OP, zs(x[1]) == SV(c))


DEPTH = Fold("depth", "int", lambda run, x: z3.If(is_op(x, "{"), z3.IntVal(1), z3.If(is_op(x, "}"), z3.IntVal(-1), z3.IntVal(0))))


def call_error(run, f):
    try:
        return f(), None
    except PyExc as e:
        return None, e


@unit("pyexpr.parse_brace_enclosed_expression", ["C04", "C03", "C13"], LP + ":parse_brace_enclosed_expression", trusted=["gen_tokens by its contract (unit pyexpr.gen_tokens)"])
def _(run):
    """the expression ends at the first } operator whose { is the opening one: as many { as } operators stand between; when
    there is none, a template syntax error at a place of the text"""
    f = fn(LP + ":parse_brace_enclosed_expression")
    s, p = run.str("text", input=True), run.int("start", input=True)
    n = z3.Length(s.t)
    run.assume([p.t >= 0, p.t + 2 <= n, z3.SubString(s.t, p.t, 1) == SV("$"), z3.SubString(s.t, p.t + 1, 1) == SV("{")])
    state = {"asked": 0, "last": None}

    def closes(x, pre):
        return A(is_op(x, "}"), run.fold_term(DEPTH, pre) == 0)

    def havoc(ctx):
        state["ctx"] = ctx
        ctx.set("n_braces", run.int("n_braces", input=True))
        if ctx.exit:
            e = run.int("end of the last token", input=True)
            run.assume([e.t >= p.t + 2, e.t <= n])
            state["end"] = e.t
            for v in ("t_type", "content"):
                ctx.frame.locals.pop(ctx.local(v), None)
            if ctx.local("end_pos"):
                ctx.frame.locals[ctx.local("end_pos")] = e

    def inv(ctx):
        if len(ctx.pre) == 2:
            run.ensure("the closing brace is not passed over", NOT(closes(ctx.pre[1], ctx.pre[:1])))
        k = zi(ctx.get("n_braces"))
        return [("the braces open so far", A(k == run.fold_term(DEPTH, ctx.pre), k >= 0))]

    def exit(ctx):
        state["out"] = True
        if run.pick(2):
            state["theirs"] = Obj(cls(TSE))
            raise PyExc(state["theirs"])
    spec = Loop(havoc, inv, exit, whole=True)

    def gen(run, a, k):
        state["asked"] += 1
        run.ensure("the tokens are those of the text behind the opening brace", A(zs(a[0]).eq(s.t), zi(a[1]) == p.t + 2))
        return SymTuple([tokens(run, s.t, spec)], kind="generator")
    stub(run, LP + ":gen_tokens", gen)
    r, e = call_error(run, lambda: run.call(f, [located(run, s), p, (0, 0)], {}))
    if e is not None:
        run.ensure("only a template syntax error", the_error(run, e))
        run.ensure("and only when no brace closes it", bool(state.get("out")))
        if e.value is not state.get("theirs"):
            for x in [v for k, v in run.memo.items() if isinstance(k, tuple) and k[0] == "rstrip"]:
                # a character of what is stripped is white space, and the brace is none
                r = z3.Function("rstrip", StrS, StrS)(x)
                brace = z3.SubString(x, p.t + 1, 1)
                run.axiom(z3.Implies(A(z3.Length(r) <= p.t + 1, p.t + 1 < z3.Length(x)), z3.InRe(brace, models.WS)))
                if "end" in state and not run.feasible(x != z3.SubString(s.t, 0, state["end"])):
                    # and what is stripped starts as the text does
                    run.axiom(z3.Implies(state["end"] >= p.t + 2, A(brace == z3.SubString(s.t, p.t + 1, 1), z3.Length(x) == state["end"])))
                lemma(run, z3.Implies(z3.Length(x) >= p.t + 2, z3.Length(r) >= p.t + 2))
            run.ensure("at a line of the text from the expression to the end of its last token", at_line(run, e, p.t, state.get("end", n)))
        return
    if state.get("out"):
        run.ensure("an expression that no brace closes is an error", False)
        return
    ctx = state["ctx"]
    x, pre = ctx.x, ctx.pre[:1]
    run.ensure("it ends at the closing brace", closes(x, pre))
    end = zi(x[2])
    run.assume([end >= p.t + 3, end <= n])
    run.ensure("the whole text of it", zs(run.getattr(r, "string")) == z3.SubString(s.t, p.t, end - p.t))
    run.ensure("the expression between the braces", zs(run.getattr(r, "expression")) == z3.SubString(s.t, p.t + 2, end - p.t - 3))


# ------------------------------------------------------------------ $name.attr[...](...)
T = z3.Function("end of the trailers", IntS, IntS)
B = z3.Function("end of the brackets", IntS, IntS)
WORD = (False, (("k", "CATEGORY_WORD"),), False)
START = (True, (("k", "CATEGORY_DIGIT"), ("k", "CATEGORY_NOT_WORD")), False)


def trailer_axioms(run, t, p):
    n = z3.Length(t)
    c, d = z3.SubString(t, p, 1), z3.SubString(t, p + 1, 1)
    dotted = A(c == SV("."), p + 2 <= n, regexm.in_class(START, d))
    br = A(p < n, OR(c == SV("("), c == SV("[")))
    e = regexm.run_end(WORD)(t, p + 2)
    run.assume([z3.Implies(A(p >= 0, p <= n), A(z3.Implies(dotted, T(p) == T(e)), z3.Implies(br, A(T(p) == T(B(p)), B(p) > p, B(p) <= n)), z3.Implies(A(NOT(dotted), NOT(br)), T(p) == p)))])
    return dotted, br


def lemma(run, c):
    """a consequence of what is known, named for the solver; left out when it is none"""
    if not run.feasible(NOT(c)):
        run.assume(c)


@unit("pyexpr.parse_unenclosed_expression", ["C04", "C03", "C13"], LP + ":parse_unenclosed_expression", trusted=["gen_tokens by its contract (unit pyexpr.gen_tokens)", T_RE, "the first token of a text that starts with ( or [ is that operator"], limit=90, forms=["closers"])
def _(run):
    """the name and every directly following .name, (...) or [...]; the brackets end at the operator that closes the first"""
    f = fn(LP + ":parse_unenclosed_expression")
    s, p0 = run.str("text", input=True), run.int("start", input=True)
    t, n = s.t, z3.Length(s.t)
    run.assume([p0.t >= 0, p0.t + 2 <= n, z3.SubString(t, p0.t, 1) == SV("$"), z3.InRe(z3.SubString(t, p0.t + 1, 1), z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Re("_")))])
    regexm.pred("digit", False), regexm.pred("word", False)
    regexm.ascii_facts(run, z3.SubString(t, p0.t + 1, 1))
    name_end = regexm.run_end(WORD)(t, p0.t + 2)
    state = {}
    run.models[token.ISEOF] = lambda run, a, k: mkb(zi(a[0]) == token.ENDMARKER)

    def havoc(ctx):
        ctx.set("pos", run.int("pos", input=True))
        state["pos"] = zi(ctx.get("pos"))
        trailer_axioms(run, t, state["pos"])
        ctx.set("pars", SymList([]))

    def inv(ctx):
        p = zi(ctx.get("pos"))
        pars = ctx.get("pars")
        if ctx.phase == "kept" and "tctx" in state:
            # what B is: the end of the token that closes the outermost bracket
            x = state["tctx"].x
            run.assume(z3.Implies(A(closed(x), run.length([state["open"]]) == 1), B(state["pos"]) == zi(x[2])))
        return [("inside the text", A(p >= p0.t + 2, p <= n)),
                ("the end of the trailers from here is that of the whole", T(p) == T(name_end)),
                ("no bracket is open between the parts", run.length(run.items_of(pars)) == 0)]
    run.loops[("loop", "parse_unenclosed_expression", 0)] = Loop(havoc, inv)

    opened = lambda c: A(zi(c[0]) == token.OP, OR(zs(c[1]) == SV("("), zs(c[1]) == SV("[")))
    closed = lambda c: A(zi(c[0]) == token.OP, OR(zs(c[1]) == SV(")"), zs(c[1]) == SV("]")))

    def havoc_t(ctx):
        ctx.modifies(ctx.get("pars"))
        open_ = Seg("open", lambda run, nm: bracket(run, nm))
        ctx.get("pars").items[:] = [open_]
        state["open"] = open_
        state["tctx"] = ctx
        # the brackets are open from the first token on
        run.assume(open_.nonempty == ctx.seg_nonempty if hasattr(ctx, "seg_nonempty") else True)
        if ctx.exit:
            run.assume(open_.nonempty)
        else:
            run.assume(open_.nonempty == ctx.pre[0].nonempty)
            run.assume(z3.Implies(NOT(ctx.pre[0].nonempty), z3.BoolVal(True)))

    def bracket(run, nm):
        b = run.str(nm)
        run.assume(OR(b.t == SV(")"), b.t == SV("]")) if FORM[0] else OR(b.t == SV("("), b.t == SV("[")))
        return b

    def inv_t(ctx):
        if len(ctx.pre) == 2:
            x = ctx.pre[1]
            before, now = [state["open"]], run.items_of(ctx.get("pars"))
            J = lambda items: run.fold_term(run.JOIN, items)
            last = z3.String("the last open bracket")
            ty = zi(x[0])
            run.ensure("an opening bracket is open from then on", z3.Implies(opened(x), J(now) == concat(J(before), kept_as(zs(x[1])))))
            run.ensure("a closing bracket closes the last one and that only", z3.Implies(closed(x), z3.Exists([last], A(J(before) == z3.Concat(J(now), last), closes(last, zs(x[1]))))))
            run.ensure("some bracket stays open", z3.Implies(closed(x), run.length(now) > 0))
            run.ensure("other tokens change nothing", z3.Implies(NOT(OR(opened(x), closed(x))), J(now) == J(before)))
            run.ensure("the end of the text is not passed over", A(ty != token.ENDMARKER, ty != token.ERRORTOKEN))
        return []

    def exit_t(ctx):
        # the stream ends with ENDMARKER, which is an error, or with an exception
        state["ended"] = True
        raise PyExc(Obj(cls(TSE)))

    def gen(run, a, k):
        p = zi(a[1])
        run.ensure("the tokens are those of the text from the bracket on", A(zs(a[0]).eq(t), p == state["pos"], OR(z3.SubString(t, p, 1) == SV("("), z3.SubString(t, p, 1) == SV("["))))
        spec = Loop(havoc_t, inv_t, exit_t, whole=True)

        def mk(run, nm):
            ty, c, e = run.int(nm + " type", input=True), run.str(nm + " text", input=True), run.int(nm + " end", input=True)
            run.assume([e.t > p, e.t <= n])
            o = state.get("open")
            if o is not None:
                # the first token is the bracket
                run.assume(z3.Implies(NOT(o.nonempty), A(ty.t == token.OP, c.t == z3.SubString(t, p, 1))))
            return (ty, c, e)
        return SymTuple([Seg("tokens", mk, loop=spec, ends=read_on)], kind="generator")
    stub(run, LP + ":gen_tokens", gen)
    r, e = call_error(run, lambda: run.call(f, [located(run, s), p0, (0, 0)], {}))
    if e is not None:
        run.ensure("only a template syntax error", the_error(run, e))
        run.ensure("and only inside brackets", "tctx" in state)
        if not state.get("ended"):
            x = state["tctx"].x
            run.ensure("at a bracket that does not match or at the end of the text", OR(closed(x), zi(x[0]) == token.ENDMARKER, zi(x[0]) == token.ERRORTOKEN))
            run.ensure("at a line of the text inside the brackets, at the latest where the token ends", at_line(run, e, p0.t, zi(x[2])))
        return
    end = T(name_end)
    lemma(run, state["pos"] == end)
    run.ensure("the whole text of it, to the end of the trailers", zs(run.getattr(r, "string")) == z3.SubString(t, p0.t, end - p0.t))
    run.ensure("the expression is what follows the $", zs(run.getattr(r, "expression")) == z3.SubString(t, p0.t + 1, end - p0.t - 1))


@unit("pyexpr.parse_expression", ["C04", "C03"], LP + ":parse_expression")
def _(run):
    """a brace after the $ makes it an enclosed expression, anything else a name"""
    f = fn(LP + ":parse_expression")
    s, p = run.str("text", input=True), run.int("start", input=True)
    run.assume([p.t >= 0, p.t + 2 <= z3.Length(s.t)])
    out = {}
    for k in ("parse_unenclosed_expression", "parse_brace_enclosed_expression"):
        def g(run, a, kw, k=k):
            out[k] = (opaque(run, k), a)
            return out[k][0]
        stub(run, LP + ":" + k, g)
    r = run.call(f, [s, p] if run.pick(2) else [s, p, (1, 2)], {})
    brace = z3.SubString(s.t, p.t + 1, 1) == SV("{")
    k = "parse_brace_enclosed_expression" if "parse_brace_enclosed_expression" in out else "parse_unenclosed_expression"
    run.ensure("one of the two", len(out) == 1 and r is out[k][0])
    run.ensure("the one for what follows the $", brace if "brace" in k else NOT(brace))
    a = out[k][1]
    run.ensure("for this text and place", A(zs(a[0]).eq(s.t), zi(a[1]) == p.t))


# ------------------------------------------------------------------ the tokens and their places
def method(f):
    return Native(f, "method")


class UserErr(Exception):
    pass


TRL = LP + ":TokenReadLine"


@unit("pyexpr.TokenReadLine", ["C04", "C03", "C13"], TRL + ".readline", trusted=["io.StringIO: iteration gives the lines from the position on, tell() the number of characters before the position"])
def _(run):
    """the lines handed out are those of the text from the place on; whenever one is handed out it is the last line, and
    what tell() gives is its end"""
    import io
    s, p = run.str("text", input=True), run.int("place", input=True)
    n = z3.Length(s.t)
    run.assume([p.t >= 0, p.t <= n])
    st = {"made": 0}

    def new(run, a, k):
        if len(a) != 1 or k:
            raise Unsupported("StringIO with more than the text")
        run.ensure("reads the text", zs(a[0]) == s.t)
        st["made"] += 1
        st["pos"] = z3.IntVal(0)
        o = opaque(run, "StringIO")
        base = o.ghost["getattr"]

        def seek(run, a, k):
            if len(a) != 1:
                raise Unsupported("seek with a base")
            st["pos"] = zi(a[0])
            return a[0]

        def ga(run, v, attr):
            if attr == "seek":
                return method(seek)
            if attr == "tell":
                return method(lambda run, a, k: mki(st["pos"]))
            return base(run, v, attr)
        o.ghost["getattr"] = ga

        def lines(run, v):
            run.ensure("from the place on", st["pos"] == p.t)

            def mk(run, nm):
                l = run.str(nm, input=True)
                b = z3.Int(run.name("start of " + nm))
                run.assume([z3.Length(l.t) > 0, b >= p.t, b + z3.Length(l.t) <= n, z3.SubString(s.t, b, z3.Length(l.t)) == l.t])
                st["line"], st["pos"] = l, b + z3.Length(l.t)
                return l
            return [Seg("lines", mk, loop=Loop(havoc, inv))]
        o.ghost["iter"] = lines
        return o
    run.models[io.StringIO] = new

    def havoc(ctx):
        o = st["o"]
        ctx.modifies(o)
        o.fields["last_line"] = run.str("last line", input=True)
        y = SymList([Seg(run.name("yielded"), lambda run, nm: run.str(nm))])
        ctx.modifies(y)
        ctx.frame.yields = y
        st["yielded"] = False

    def inv(ctx):
        if len(ctx.pre) == 2:
            run.ensure("every line is handed out", st["yielded"])
        return []

    def seen(run, fr, v):
        run.ensure("the line read is handed out", A(not st["yielded"], zs(v) == st["line"].t))
        st["yielded"] = True
        run.ensure("the last line is the one handed out", zs(run.getattr(st["o"], "last_line")) == st["line"].t)
        run.ensure("tell() gives the end of the last line", zi(run.call(run.getattr(st["o"], "tell"), [], {})) == st["pos"])
    run.on_yield["TokenReadLine.readline"] = seen
    st["o"] = run.call(cls(TRL), [s, p], {})
    run.ensure("nothing is read before the first line is asked for", A(zs(run.getattr(st["o"], "last_line")) == SV(""), zi(run.call(run.getattr(st["o"], "tell"), [], {})) == p.t))
    run.call(fn(TRL + ".readline"), [st["o"]], {})


@unit("pyexpr.TokenReadLine.get_readline", ["C04"], TRL + ".get_readline")
def _(run):
    """one generator of the lines, asked for the next one at each call"""
    o = Obj(cls(TRL))
    g = []

    def lines(run, a, k):
        run.ensure("its own lines", a[0] is o)
        nx = opaque(run, "next")
        x = opaque(run, "lines", getattr=lambda run, v, attr: nx if attr == "__next__" else MISSING)
        g.append((x, nx))
        return x
    stub(run, TRL + ".readline", lines)
    r = run.call(fn(TRL + ".get_readline"), [o], {})
    run.ensure("what gives the next line", len(g) == 1 and r is g[0][1])


READABLE = z3.Function("readable up to", StrS, z3.IntSort(), StrS)


class Readable:
    """a substitution that blanks what no Python source may hold, a null or a lone surrogate, and nothing else"""
    def inv(self, run, t, q, out):
        return [("what is copied so far is the readable text so far", A(q >= 0, q <= z3.Length(t), out == READABLE(t, q)))]

    def step(self, run, t, q, out):
        c = z3.SubString(t, q, 1)
        bad = OR(c == z3.Unit(z3.CharVal(0)), z3.InRe(c, z3.Range(chr(0xd800), chr(0xdfff))))
        run.assume([READABLE(t, q + 1) == z3.Concat(READABLE(t, q), z3.If(bad, SV(" "), c)), z3.Length(READABLE(t, q)) == q])


@unit("pyexpr.gen_tokens", ["C04", "C03", "C13"], LP + ":gen_tokens", trusted=[T_TOK])
def _(run):
    """every token of the text behind the place, in order, with the place in the text where it ends; what the tokenizer
    cannot read is a template syntax error at the end of the last token, before the white space that follows it"""
    s, p = run.str("text", input=True), run.int("place", input=True)
    n = z3.Length(s.t)
    run.assume([p.t >= 0, p.t <= n])
    st = dict(tell=p.t, last=SV(""), made=0, ended=None)
    run.assume(READABLE(s.t, 0) == SV(""))
    run.loops["re.sub"] = Readable()
    reader = opaque(run, "reader")
    io_ = opaque(run, "lines of the text", getattr=lambda run, v, attr: method(lambda run, a, k: mki(st["tell"])) if attr == "tell" else
                 mks(st["last"]) if attr == "last_line" else method(lambda run, a, k: reader) if attr == "get_readline" else MISSING)

    def new(run, a, k):
        st["made"] += 1
        run.ensure("the lines are those of the text from the place on, with blanks for what Python cannot read", A(zs(a[0]) == READABLE(s.t, n), zi(a[1]) == p.t))
        return io_
    stub(run, TRL, new)

    def mk(run, nm):
        ty, c = run.int(nm + " type", input=True), run.str(nm + " text", input=True)
        b, e = (run.int(nm + " row"), run.int(nm + " column")), (run.int(nm + " end row"), run.int(nm + " end column", input=True))
        st["last"] = z3.String(run.name("line of " + nm))
        st["tell"] = z3.Int(run.name("tell at " + nm))
        start = st["tell"] - z3.Length(st["last"])
        run.assume([start >= p.t, st["tell"] <= n, e[1].t >= 0, e[1].t <= z3.Length(st["last"])])
        st["x"], st["end"] = (ty, c), start + e[1].t
        return (ty, c, b, e, run.str(nm + " line"))

    def havoc(ctx):
        e = run.int("end of the last token", input=True)
        run.assume([e.t >= p.t, e.t <= n])
        st["ctx"], st["e"], st["yielded"] = ctx, e.t, False
        for v in ("end_pos",):
            ctx.set(v, e)
        y = SymList([Seg(run.name("yielded"), lambda run, nm: opaque(run, nm))])
        ctx.modifies(y)
        ctx.frame.yields = y

    def inv(ctx):
        if len(ctx.pre) == 2:
            run.ensure("every token is handed out", st["yielded"])
            return [("the end of the last token", zi(ctx.get("end_pos")) == st["end"])]
        if not ctx.pre:
            run.ensure("nothing is read yet", zi(ctx.get("end_pos")) == p.t)
        return []

    def exit(ctx):
        if not hasattr(ctx, "exit") or not ctx.exit:
            return
        k = run.pick(5)
        st["ended"] = k
        if k:
            E = (tokenize.TokenError, IndentationError, UnicodeEncodeError, UserErr)[k - 1]
            o = Obj(E)
            st["msg"] = opaque(run, "what is wrong")
            o.fields["args"] = (st["msg"], (run.int("line"), run.int("column")))
            if E is UnicodeEncodeError:
                o.fields.update(args=("utf-8", s, 0, 1, st["msg"]), encoding="utf-8", object=s, start=0, end=1, reason=st["msg"])
            st["exc"] = o
            raise PyExc(o)

    def gen(run, a, k):
        run.ensure("the tokens of these lines", len(a) == 1 and a[0] is reader)
        return SymTuple([Seg("tokens", mk, loop=Loop(havoc, inv, exit, whole=True), ends=read_on)], kind="generator")
    run.globals[(LP, "generate_tokens")] = method(gen)

    def seen(run, fr, v):
        run.ensure("the token with its end", A(not st["yielded"], isinstance(v, tuple) and len(v) == 3, zi(v[0]) == st["x"][0].t, zs(v[1]) == st["x"][1].t, zi(v[2]) == st["end"]))
        st["yielded"] = True
    run.on_yield["gen_tokens"] = seen
    r, e = call_error(run, lambda: run.call(fn(LP + ":gen_tokens"), [located(run, s), p], {}))
    if st["ended"] in (1, 2, 3):
        run.ensure("what the tokenizer cannot read is an error", e is not None)
        run.ensure("a template syntax error", the_error(run, e))
        run.ensure("with the tokenizer's message", run.getattr(e.value, "message") is st["msg"])
        q = e.value.fields["lineno"]
        run.ensure("of a line of the text", at_line(run, e, 0, n))
        w, head = q.t.arg(0), z3.SubString(s.t, 0, st["e"])
        run.ensure("at the end of the last token or before white space behind it", w <= st["e"])
        for x in [v for k, v in run.memo.items() if isinstance(k, tuple) and k[0] == "rstrip"]:
            # what the code has stripped is the text up to there
            r = z3.Function("rstrip", StrS, StrS)(x)
            if not run.feasible(A(head == x, w != z3.Length(r))) and not run.feasible(x != head):
                head, w = x, z3.Length(r)
        run.ensure("only white space in between", OR(models.BLANK(z3.SubString(head, w, z3.Length(head) - w)), z3.InRe(z3.SubString(head, w, z3.Length(head) - w), z3.Star(models.WS))))
    elif st["ended"] == 4:
        run.ensure("other errors are not hidden", e is not None and e.value is st["exc"])
    else:
        run.ensure("no error without one of the tokenizer", e is None)

