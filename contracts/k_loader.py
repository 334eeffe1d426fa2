"""tonnikala.loader and tonnikala.runtime.debug: contexts, rendering, exceptions, loading"""
import builtins
import codecs
import os
import sys
import time
import types
from .lib import *

LD = "tonnikala.loader"
DB = "tonnikala.runtime.debug"
EX = "tonnikala.runtime.exceptions"


class UserError(Exception):
    """any exception class that is not one of the template engine's"""


def exception(run, name="exc", template=False):
    """an arbitrary exception object"""
    if template:
        o = Obj(cls(EX + ":TemplateSyntaxError"))
        o.fields.update(message=run.str(name + ".message"), translated=False, name=None, lineno=run.int(name + ".lineno", input=True),
                        source=[None, run.str(name + ".source", input=True)][run.pick(2)], filename=[None, run.str(name + ".filename", input=True)][run.pick(2)])
    else:
        o = Obj(UserError)
    o.fields["__traceback__"] = tbobj(run, name + ".traceback")
    o.fields["args"] = (opaque(run, name + ".arg"),)
    return o


def tbobj(run, name, **k):
    """a traceback, another object than every other one"""
    return opaque(run, name, type=lambda run, v: types.TracebackType, is_=lambda run, a, b: False, **k)


def raising(run, f):
    """(result, exception) of a call"""
    try:
        return f(), None
    except PyExc as e:
        return None, e.value


# ---------------------------------------------------------------------------------------------------- contexts
@unit("make_template_context", ["C06", "C11"], LD + ":make_template_context", trusted=["loader.get_builtins by its contract: the same mapping on every call (unit get_builtins)"])
def _(run):
    bi = dict_unknown(run, "builtins")
    ctx = dict_unknown(run, "context")
    stub(run, LD + ":get_builtins", lambda run, a, k: bi)
    K = run.str("K", input=True)
    b0, c0 = models.dict_find(run, bi, K), models.dict_find(run, ctx, K)
    nb, nc = len(bi.writes), len(ctx.writes)
    r = run.call(fn(LD + ":make_template_context"), [ctx], {})
    run.ensure("the result is a new mapping", r is not ctx and r is not bi and isinstance(r, SymDict))
    got = models.dict_find(run, r, K)
    run.ensure("a name has the value of the context, else the builtin, else none", got is (b0 if c0 is MISSING else c0))
    models.setitem(run, r, K, opaque(run, "later definition"))
    run.ensure("definitions added to the result change neither the context nor the builtins",
               models.dict_find(run, ctx, K) is c0 and models.dict_find(run, bi, K) is b0 and len(bi.writes) == nb and len(ctx.writes) == nc)


@unit("get_builtins", ["C06", "C11"], LD + ":get_builtins")
def _(run):
    made = []

    def chain(run, a, k):
        made.append(dict_unknown(run, "made"))
        return made[-1]
    stub(run, LD + ":get_builtins_with_chain", chain)
    run.globals[(LD, "_builtins")] = None
    a = run.call(fn(LD + ":get_builtins"), [], {})
    b = run.call(fn(LD + ":get_builtins"), [], {})
    run.ensure("the builtins are made once and are the same for every rendering", len(made) == 1 and a is made[0] and b is a)


@unit("get_builtins_with_chain", ["C06"], LD + ":get_builtins_with_chain")
def _(run):
    m = fn(LD + ":get_builtins_with_chain").mod.py
    run.models[dir] = lambda run, a, k: list(dir(a[0]))
    r = run.call(fn(LD + ":get_builtins_with_chain"), [], {})
    run.ensure("a mapping", isinstance(r, (SymDict, dict)))
    for n in dir(builtins):
        if not n.startswith("_"):
            run.ensure("builtin %s is provided" % n, models.dict_find(run, r, n) is (getattr(m.helpers, n) if hasattr(m.helpers, n) else getattr(builtins, n)))
    for n in ("literal", "gettext", "egettext"):
        run.ensure("helper %s is provided" % n, models.dict_find(run, r, n) is getattr(m.helpers, n))


# ---------------------------------------------------------------------------------------------------- exceptions
def stub_handle(run, log):
    def f(run, a, k):
        info = a[0] if a else k["exc_info"]
        log.append((a, k, info))
        t, v, tb = run.iter_items(info)
        raise PyExc(v)
    stub(run, LD + ":handle_exception", f)


@unit("Template.render_to_buffer", ["C17", "C11"], LD + ":Template.render_to_buffer",
      trusted=["handle_exception raises the exception object it is given (unit handle_exception)"])
def _(run):
    log, ev = [], []
    stub_handle(run, log)
    ctx = dict_unknown(run, "context")
    made = []
    name = run.str("funcname", input=True)

    def mtc(run, a, k):
        run.ensure("the template context is made from the caller's context", a[0] is ctx)
        made.append(dict_unknown(run, "template context"))
        return made[-1]
    stub(run, LD + ":make_template_context", mtc)
    exc = exception(run, template=run.pick(2) == 1)
    res = opaque(run, "buffer")
    where = run.pick(4)          # nothing fails, the binder fails, the function fails, the function is missing
    main = opaque(run, "main")

    def mainf(run, a, k):
        ev.append("main")
        run.ensure("the function is called without arguments", not a and not k)
        if where == 2:
            raise PyExc(exc)
        return res
    main.ghost["call"] = mainf

    def binder(run, a, k):
        ev.append("bind")
        run.ensure("the template is bound to the new context only", len(made) == 1 and a[0] is made[0])
        if where == 1:
            raise PyExc(exc)
        run.mutate(a[0])
        if where == 3:
            made[0].base.memo.append((name, False, MISSING))
        else:
            models.setitem(run, made[0], name, main)
    t = run.used(run.call(cls(LD + ":Template"), [opaque(run, "binder", call=binder)], {}))
    n = len(ctx.writes)
    if where == 0 and run.pick(2):
        # the same mapping has been rendered before: nothing of that rendering is used again
        run.call(run.getattr(t, "render_to_buffer"), [ctx, name], {})
        run.ensure("the caller's context is not written to", len(ctx.writes) == n and ev == ["bind", "main"])
        del made[:], ev[:]
    args = [ctx] if where == 0 and run.fork(name.t == SV("__main__")) else [ctx, name]
    if len(args) == 1 and not run.feasible():
        return
    r, e = raising(run, lambda: run.call(run.getattr(t, "render_to_buffer"), args, {}))
    run.ensure("the caller's context is not written to", len(ctx.writes) == n)
    if where == 0:
        run.ensure("the result is what the function returns, called once after binding", e is None and r is res and ev == ["bind", "main"])
    elif where == 3:
        run.ensure("a missing function is a KeyError", e is not None and run.isinstance(e, KeyError))
    else:
        run.ensure("the exception object itself reaches the caller", e is exc)
        run.ensure("it is passed on with its own type and traceback, and not as an error of the template text",
                   len(log) == 1 and log[0][2][1] is exc and log[0][2][2] is exc.fields["__traceback__"] and log[0][2][0] is exc.kinds[0] and len(log[0][0]) == 1 and not log[0][1])


@unit("Template.render", ["C17", "C07"], LD + ":Template.render")
def _(run):
    ctx, name, out = dict_unknown(run, "context"), run.str("name"), run.str("out")
    seen = []

    def rtb(run, a, k):
        seen.append((a[1:], k))
        return opaque(run, "buffer", getattr=lambda run, v, at: Native(lambda run, a, k: out) if at == "join" else MISSING)
    stub(run, LD + ":Template.render_to_buffer", rtb)
    t = run.used(run.call(cls(LD + ":Template"), [opaque(run, "binder")], {}))
    r = run.call(run.getattr(t, "render"), [ctx, name], {})
    run.ensure("the text is the joined buffer of the rendering", r is out and len(seen) == 1)
    a, k = seen[0]
    run.ensure("the named function is rendered with the caller's context", a[0] is ctx and (a[1] if len(a) > 1 else k.get("funcname")) is name)


@unit("handle_exception", ["C17", "C13"], LD + ":handle_exception",
      trusted=["make_traceback keeps the exception type and object (units make_traceback, translate_exception)"])
def _(run):
    exc = exception(run, template=run.pick(2) == 1)
    T = exc.kinds[0]
    tb = exc.fields["__traceback__"] if run.pick(2) else None
    override = run.pick(2)
    otb = [None, tbobj(run, "override")][run.pick(2)]
    newtb = tbobj(run, "new traceback")
    hint = [None, run.str("hint")][run.pick(2)]
    seen = []

    def mk(run, a, k):
        seen.append((a, k))
        t, v, tb2 = run.iter_items(a[0])
        return opaque(run, "processed", getattr=lambda run, x, at: (t, v, newtb) if at in ("standard_exc_info", "exc_info") else MISSING)
    stub(run, DB + ":make_traceback", mk)
    run.globals[(LD, "_make_traceback")] = None if run.pick(2) else fn(DB + ":make_traceback")
    stub(run, "tonnikala.helpers:reraise", lambda run, a, k: reraised(run, a, k, seen))
    k = dict(tb_override=otb) if override else {}
    r, e = raising(run, lambda: run.call(fn(LD + ":handle_exception"), [(T, exc, tb)] + ([hint] if hint is not None else []), k))
    run.ensure("the exception object it was given is raised", e is exc)
    a = seen[0][0]
    got = run.iter_items(a[0])
    run.ensure("the traceback is rewritten once, for this exception, with the hint about the source",
               got[0] is T and got[1] is exc and got[2] is (otb if override else tb) and (a[1] if len(a) > 1 else seen[0][1].get("source_hint")) is hint)
    run.ensure("it is raised with the rewritten traceback", seen[1][0] == "reraise" and seen[1][1][2] is newtb and seen[1][1][0] is T)


def reraised(run, a, k, seen):
    a = list(a) + [None] * (3 - len(a))
    a[2] = k.get("tb", a[2])
    seen.append(("reraise", a))
    raise PyExc(a[1])


@unit("reraise", ["C17"], "tonnikala.helpers:reraise")
def _(run):
    exc = exception(run)
    args = exc.fields["args"]
    tb = exc.fields["__traceback__"] if run.pick(2) else [None, tbobj(run, "tb")][run.pick(2)]
    cause = opaque(run, "cause")
    exc.fields.update(__cause__=cause, __context__=opaque(run, "context"), note=opaque(run, "note"))
    before = {k: v for k, v in exc.fields.items() if k != "__traceback__"}
    r, e = raising(run, lambda: run.call(fn("tonnikala.helpers:reraise"), [exc.kinds[0], exc, tb], {}))
    run.ensure("the very same object is raised", e is exc)
    run.ensure("with the traceback asked for", exc.fields["__traceback__"] is tb)
    after = {k: v for k, v in exc.fields.items() if k != "__traceback__"}
    run.ensure("its arguments, cause, context and attributes are unchanged", set(after) == set(before) and all(after[k] is before[k] for k in before))


# ---------------------------------------------------------------------------------------------------- tracebacks
TB_OUT = z3.Function("shown", IntS, StrS)           # ghost: what a (possibly rewritten) frame shows
TB_REST = z3.Function("rest", IntS, StrS)           # ghost: what the rest of the chain must show


def chain_tb(run, name):
    """an arbitrary traceback entry, the rest of its chain unknown; ghost REST(tb) = shown frames of the chain from tb on"""
    o = Opaque(run.name(name), type=lambda run, v: types.TracebackType, is_none=False)
    o.ghost["id"] = i = z3.Int(run.name("tb"))
    template = run.pick(2)
    internal = run.pick(2)
    line = run.int(name + ".lineno", input=True)
    info = None
    if template:
        info = opaque(run, "info", getattr=lambda run, v, at: tname if at == "filename" else Native(lambda run, a, k: mki(MAPPED(i, zi(a[0])))) if at == "get_corresponding_lineno" else MISSING)
        tname = run.str(name + ".template", input=True)
    code = opaque(run, "code")
    shown = SHOW(zs(tname), MAPPED(i, line.t)) if template else TB_OUT(i)
    nxt = {}

    def next_tb(run):
        if "n" not in nxt:
            nxt["n"] = None if run.pick(2) else lazy_tb(run, name)
            run.assume(TB_REST(i) == concat(*([] if internal else [shown]), SV("") if nxt["n"] is None else rest(nxt["n"])))
        return nxt["n"]
    glob = opaque(run, "globals", getattr=lambda run, v, at: Native(lambda run, a, k: info if a[0] == "__TK_template_info__" else opaque(run, "g")) if at == "get" else MISSING)
    frame = opaque(run, "frame", getattr=lambda run, v, at: dict(f_code=code, f_globals=glob).get(at, MISSING))
    o.ghost.update(info=info, internal=internal, code=code, shown=TB_OUT(i), line=line)

    def ga(run, v, at):
        if at == "tb_next":
            return next_tb(run)
        if at == "tb_frame":
            return frame
        if at == "tb_lineno":
            return line
        return MISSING
    o.ghost["getattr"] = ga
    o.ghost["next"] = next_tb
    return o


def lazy_tb(run, name):
    """the next entry of a chain: only its identity until it is looked at"""
    o = Opaque(run.name(name), type=lambda run, v: types.TracebackType, is_none=False)
    o.ghost["id"] = z3.Int(run.name("tb"))
    return o


def rest(tb):
    return SV("") if tb is None else TB_REST(tb.ghost["id"])


MAPPED = z3.Function("corresponding_lineno", IntS, IntS, IntS)
SHOW = z3.Function("file_line", StrS, IntS, StrS)
FRAMES = Fold("frames", "str", lambda run, p: run.getattr(p, "tb").ghost["shown"] if isinstance(p, Obj) else p.ghost["shown"])


@unit("translate_exception", ["C17", "C14"], DB + ":translate_exception",
      trusted=["fake_exc_info shows the file and line it is given (unit fake_exc_info)"])
def _(run):
    """for chains of any length: the frames kept are those of the chain without the internal ones, in order, each frame
    of a template shown with the template's file name and line"""
    exc = exception(run)
    T = exc.kinds[0]
    skip = run.pick(2)
    head = None if run.pick(2) else chain_tb(run, "tb")
    first = head
    if skip and head is not None:
        first = head.ghost["next"](run)
    want = rest(first)
    done = []

    def fake(run, a, k):
        info, filename, lineno = a
        t, v, tb = run.iter_items(info)
        run.ensure("the frame is rewritten for this exception", t is T and v is exc)
        o = Opaque(run.name("fake"), type=lambda run, v: types.TracebackType, is_none=False)
        o.ghost["shown"] = SHOW(zs(filename), zi(lineno))
        return (t, v, o)
    stub(run, DB + ":fake_exc_info", fake)
    stub(run, DB + ":make_frame_proxy", lambda run, a, k: Obj(cls(DB + ":TracebackFrameProxy"), dict(tb=a[0], _tb_next=None)))

    def processed(run, a, k):
        done.append(a)
        return Obj(UserError)
    stub(run, DB + ":ProcessedTraceback", processed)
    stub(run, "tonnikala.helpers:reraise", lambda run, a, k: reraised(run, a, k, done))
    ic = fn(DB + ":translate_exception").mod.py.internal_code
    hook = run.models.get("contains!")
    state = {}

    def havoc(ctx):
        ctx.set("frames", SymList([Seg(run.name("kept"), lambda run, nm: proxy(run, nm))]))
        ctx.set("tb", None if run.pick(2) else chain_tb(run, "cur"))
        for n in ("next", "template", "lineno"):
            ctx.frame.locals.pop(ctx.local(n), None)

    def proxy(run, nm):
        o = Opaque(run.name(nm))
        o.ghost["shown"] = z3.String(run.name("shown"))
        return o

    def inv(ctx):
        tb = ctx.get("tb", False)
        if ctx.phase == "entry":
            state["first"] = tb
            run.ensure("the frames to skip are skipped", tb is first)
        return [("kept frames and the rest of the chain give the chain", concat(run.fold_term(FRAMES, ctx.get("frames").items), rest(tb)) == want)]
    run.loops[("loop", "translate_exception", 1)] = Loop(havoc, inv)
    run.memo["internal"] = ic
    # membership of a code object in the set of internal ones
    f = fn(DB + ":translate_exception")
    iset = Opaque("internal_code", contains=lambda run, c, x: x is not None and bool(owner(run, x)))
    run.globals[(f.mod.name, "internal_code")] = iset

    def owner(run, code):
        for o in tbs:
            if o.ghost.get("code") is code:
                return o.ghost["internal"]
        raise Unsupported("membership of an unknown code object")
    tbs = Tracker(run)
    r, e = raising(run, lambda: run.call(f, [(T, exc, head)] + ([skip] if skip or run.pick(2) else []), {}))
    run.ensure("nothing else is raised than the exception itself", e is None or e is exc)
    if len(done) != 1:
        run.ensure("one result", False)
        return
    if done[0][0] == "reraise":
        run.ensure("without frames the exception is raised unchanged", done[0][1][1] is exc and done[0][1][0] is T and done[0][1][2] is head)
        run.ensure("only when there is nothing to show", want == SV(""))
    else:
        a = done[0]
        run.ensure("the result is for this exception", a[0] is T and a[1] is exc)
        run.ensure("the frames are those of the chain that are not internal, in order, with the template lines", run.fold_term(FRAMES, run.iter_items(a[2])) == want)


class Tracker:
    """all traceback entries made on this path"""
    def __init__(self, run):
        self.made = []
        global chain_tb
        self.run = run
        run.memo["tbs"] = self.made

    def __iter__(self):
        return iter(self.run.memo.get("all tbs", []))


_chain_tb = chain_tb


def chain_tb(run, name):
    o = _chain_tb(run, name)
    run.memo.setdefault("all tbs", []).append(o)
    return o


@unit("make_traceback", ["C17", "C13"], DB + ":make_traceback")
def _(run):
    template = run.pick(2) == 1
    exc = exception(run, template=template)
    hint = [None, run.str("source hint", input=True)][run.pick(2)]
    tb = opaque(run, "tb")
    fake = opaque(run, "fake tb")
    seen, fk = [], []
    res = opaque(run, "processed")

    def te(run, a, k):
        seen.append((list(run.iter_items(a[0])), a[1] if len(a) > 1 else k.get("initial_skip", 0)))
        return res

    def fe(run, a, k):
        fk.append(a)
        return tuple(run.iter_items(a[0])[:2]) + (fake,)
    stub(run, DB + ":translate_exception", te)
    stub(run, DB + ":fake_exc_info", fe)
    src0 = exc.fields.get("source")
    fname = exc.fields.get("filename")
    r = run.call(fn(DB + ":make_traceback"), [(exc.kinds[0], exc, tb)] + ([hint] if hint is not None else []), {})
    run.ensure("the result is the translated exception", r is res and len(seen) == 1)
    info, skip = seen[0]
    run.ensure("type and object are kept", info[0] is exc.kinds[0] and info[1] is exc)
    if template and hint is not None:
        run.ensure("the source is the text of the template", exc.fields["source"] is hint)
        run.ensure("the traceback shows the file and line of the error", len(fk) == 1 and info[2] is fake and skip == 0)
        f = fk[0]
        run.ensure("the file is the template's", (run.eq(f[1], fname) if fname is not None else f[1] == "<unknown>"))
        run.ensure_eq("the line is the error's", f[2], exc.fields["lineno"])
    else:
        run.ensure("the traceback of an exception raised while rendering starts below the renderer", info[2] is tb and skip == 1 and not fk)
        if template:
            run.ensure("an error of another template is passed on unchanged", exc.fields["translated"] is False and exc.fields["source"] is src0)


@unit("ProcessedTraceback", ["C17"], DB + ":ProcessedTraceback.__init__")
def _(run):
    """frames are chained one to the next, the last one to nothing; the exception is kept"""
    exc = exception(run)
    n = run.pick(2)
    calls = []
    PT = cls(DB + ":ProcessedTraceback")

    def frame(run, nm):
        o = opaque(run, nm)
        tb = Opaque(run.name("tb"), type=lambda run, v: types.TracebackType, is_none=False)

        def ga(run, v, at):
            if at == "set_next":
                return Native(lambda run, a, k: calls.append((o, a[0])))
            return tb if at == "tb" else MISSING
        o.ghost["getattr"] = ga
        o.ghost["tb"] = tb
        o.ghost["type"] = lambda run, v: cls(DB + ":TracebackFrameProxy")
        return o
    first = frame(run, "first")
    seg = Seg("frames", frame)
    last = {}

    def havoc(ctx):
        run_frame = frame(run, "prev")
        last["prev"] = run_frame
        ctx.set("prev_tb", run_frame)
        calls[:] = []

    def inv(ctx):
        prev = ctx.get("prev_tb")
        out = []
        if len(ctx.pre) == 2:
            out.append(("each frame is chained to the one before it", len(calls) == 1 and calls[0][0] is last["prev"] and calls[0][1] is ctx.x))
            out.append(("the last frame visited is remembered", prev is ctx.x))
        elif not ctx.pre:
            out.append(("starts with the first frame", prev is first and not calls))
        return [(l, z3.BoolVal(bool(c))) for l, c in out]
    run.loops["frames"] = Loop(havoc, inv)
    p = run.call(PT, [exc.kinds[0], exc, SymList([first] + ([seg] if n else []))], {})
    want = first if not n else last["prev"]
    run.ensure("the last frame is chained to nothing", len(calls) == 1 and calls[0][0] is want and calls[0][1] is None)
    t, v, tb = run.iter_items(run.getattr(p, "standard_exc_info"))
    run.ensure("type and object of the exception are kept", t is exc.kinds[0] and v is exc)
    run.ensure("the traceback is that of the first frame", tb is first.ghost["tb"])


@unit("fake_exc_info", ["C17", "C13", "C14"], DB + ":fake_exc_info",
      trusted=["executing `raise x` from compiled text raises x with a traceback entry for the file given to compile and the line of the statement"])
def _(run):
    exc = exception(run)
    T = exc.kinds[0]
    fname = run.str("filename", input=True)
    has_tb = run.pick(2)
    line = run.int("lineno", input=True) if has_tb or run.pick(2) else None
    if line is not None:
        run.assume(line.t >= 0)
    func = run.str("function", input=True)
    state = {}
    locs = dict_unknown(run, "locals")
    NEW = z3.Int("new traceback")

    def mkcode(**kw):
        def ga(run, v, at):
            if at == "replace":
                return Native(lambda run, a, k: mkcode(**dict(kw, **{n: x for n, x in k.items()})))
            return kw.get(at, MISSING)
        return opaque(run, "code", getattr=ga, src=kw)

    def comp(run, a, k):
        return mkcode(source=a[0], co_filename=a[1], mode=a[2])

    def ex(run, a, k):
        kw = a[0].ghost["src"]
        helper = fn(DB + ":fake_exc_info").mod.py.raise_helper
        n = z3.IntVal(0) if line is None else line.t
        nl = z3.Function("repeat<\n>", IntS, StrS)
        run.ensure("the raising statement stands on the line asked for", zs(kw["source"]) == concat(zs(models.binop(run, ast.Mult(), "\n", mki(z3.simplify(n - 1)))), zs(helper)))
        run.ensure_eq("in the file asked for", kw["co_filename"], fname)
        from pyvc.vm import Frame
        tree = ast.parse(helper)
        fr = Frame(fn(DB + ":fake_exc_info").mod, None, {"__tonnikala_exception__"}, set(), set(), "raise_helper")
        g = a[1]
        v = models.dict_find(run, g, "__tonnikala_exception__")
        l = a[2] if len(a) > 2 else g
        lv = models.dict_find(run, l, "__tonnikala_exception__")
        fr.locals["__tonnikala_exception__"] = v if lv is MISSING else lv
        tail = opaque(run, "generated frame")
        state["tail"] = tail
        try:
            run.exec_block(tree.body, fr)
        except PyExc as e:
            # the entry of exec's caller, then that of the executed code
            e.value.fields["__traceback__"] = opaque(run, "own frame", getattr=lambda run, v, at: tail if at == "tb_next" else MISSING)
            raise
    run.models[compile] = comp
    run.models[exec] = ex
    frame = opaque(run, "frame", getattr=lambda run, v, at: dict(f_locals=locs, f_code=opaque(run, "c", getattr=lambda run, v, at: func if at == "co_name" else MISSING)).get(at, MISSING))
    tb = opaque(run, "tb", getattr=lambda run, v, at: frame if at == "tb_frame" else MISSING) if has_tb else None
    before = {k: v for k, v in exc.fields.items() if k != "__traceback__"}
    r = run.call(fn(DB + ":fake_exc_info"), [(T, exc, tb), fname, line], {})
    t, v, nt = run.iter_items(r)
    run.ensure("type and object of the exception are kept", t is T and v is exc)
    run.ensure("the traceback is the entry of the generated statement", "tail" in state and nt is state["tail"])
    after = {k: v for k, v in exc.fields.items() if k != "__traceback__"}
    run.ensure("arguments and attributes of the exception are unchanged", set(after) == set(before) and all(after[k] is before[k] for k in before))


@unit("TemplateSyntaxError.str", ["C13"], EX + ":TemplateSyntaxError.__init__")
def _(run):
    C = cls(EX + ":TemplateSyntaxError")
    msg, name, src = run.str("message"), [None, run.str("filename")][run.pick(2)], [None, run.str("source")][run.pick(2)]
    how = run.pick(3)
    line = run.int("lineno")
    node = None
    if how == 1:
        node = opaque(run, "node", getattr=lambda run, v, at: (line, run.int("col")) if at == "position" else MISSING)
    elif how == 2:
        node = run.str("node")
    k = dict(filename=name, source=src)
    if how == 0:
        k["lineno"] = line
        if run.pick(2):
            k["node"] = opaque(run, "node", getattr=lambda run, v, at: (run.int("other"), 0) if at == "position" else MISSING)
    else:
        k["node"] = node
    e = run.call(C, [msg], k)
    run.ensure("message, source and file name are kept", e.fields["message"] is msg and e.fields["source"] is src and e.fields["filename"] is name)
    if how == 2:
        run.ensure_eq("text without a position is on the first line", e.fields["lineno"], 1)
    else:
        run.ensure_eq("the line is the one given, else that of the node", e.fields["lineno"], line)


# ---------------------------------------------------------------------------------------------------- loading strings
SYNTAX = {"tonnikala": "tonnikala.syntaxes.tonnikala:parse", "js_tonnikala": "tonnikala.syntaxes.tonnikala:parse_js", "chameleon": "tonnikala.syntaxes.chameleon:parse"}


@unit("Loader.load_string", ["C13", "C14", "C15", "C06"], LD + ":Loader.load_string",
      trusted=["handle_exception raises the exception object it is given (unit handle_exception)", "compile and exec run the generated module"])
def _(run):
    tr = run.bool("translatable", input=True)
    syn = ["tonnikala", "js_tonnikala", "chameleon", "no such syntax"][run.pick(4)]
    text, fname = run.str("text", input=True), run.str("filename", input=True)
    ld = run.used(run.call(cls(LD + ":Loader"), [], dict(syntax=syn, translatable=tr)), "translatable")
    tree, code, runtime, binder = opaque(run, "tree"), opaque(run, "code"), opaque(run, "runtime"), opaque(run, "binder")
    lnotab = opaque(run, "lnotab")
    log, ev = [], []
    stub_handle(run, log)
    fail = run.pick(4)         # no failure, template error in the parser, other error in the parser, template error in the generator
    exc = exception(run, template=fail in (1, 3)) if fail else None
    f0, s0 = (exc.fields.get("filename"), exc.fields.get("source")) if exc is not None else (None, None)

    def parse(which):
        def f(run, a, k):
            ev.append(("parse", which, a, k))
            if fail in (1, 2):
                raise PyExc(exc)
            return tree
        return f
    for n, q in SYNTAX.items():
        stub(run, q, parse(n))

    def generate(run, a, k):
        ev.append(("generate",))
        if fail == 3:
            raise PyExc(exc)
        return code

    def gen(run, a, k):
        run.ensure("the code is generated from the parsed template", a[0] is tree)
        return opaque(run, "gen", getattr=lambda run, v, at: Native(generate) if at == "generate_ast" else Native(lambda run, a, k: lnotab) if at == "lnotab_info" else MISSING)
    stub(run, "tonnikala.languages.python.generator:Generator", gen)
    RT = cls(LD + ":Loader").runtime
    rt = Obj(RT)
    stub(run, "%s:%s" % (RT.__module__, RT.__qualname__), lambda run, a, k: rt)
    compiled = opaque(run, "compiled")

    def comp(run, a, k):
        ev.append(("compile",))
        run.ensure("the generated code is compiled under the template's file name", a[0] is code and a[1] is fname and a[2] == "exec")
        return compiled

    def ex(run, a, k):
        ev.append(("exec",))
        g = a[1]
        find = lambda n: models.dict_find(run, g, n)
        run.ensure("the compiled module is run", a[0] is compiled and (len(a) < 3 or a[2] is g))
        run.ensure("with the runtime, whose loader is this loader", find("__TK__runtime") is rt and rt.fields.get("loader") is ld)
        ti = find("__TK_template_info__")
        run.ensure("and the template's file name, for tracebacks", isinstance(ti, Obj) and ti.fields.get("filename") is fname and ti.fields.get("lnotab") is lnotab)
        models.setitem(run, g, "__TK__binder", binder)
    run.models[compile] = comp
    run.models[exec] = ex
    r, e = raising(run, lambda: run.call(run.getattr(ld, "load_string"), [text, fname], {}))
    if syn == "no such syntax":
        run.ensure("an unknown syntax is a ValueError", e is not None and run.isinstance(e, ValueError) and not ev)
        return
    run.ensure("the parser of the syntax is called once, with the file name, the text and the translation flag",
               len([x for x in ev if x[0] == "parse"]) == 1 and ev[0][1] == syn and ev[0][2][0] is fname and ev[0][2][1] is text and (ev[0][3].get("translatable") if len(ev[0][2]) < 3 else ev[0][2][2]) is tr)
    if not fail:
        run.ensure("the result is a template with the binder of the generated module", e is None and isinstance(r, Obj) and run.getattr(r, "binder_func") is binder)
        run.ensure("it is generated, compiled and run once", [x[0] for x in ev] == ["parse", "generate", "compile", "exec"])
    else:
        run.ensure("the error object itself reaches the caller", e is exc)
        if fail != 2:
            run.ensure("it carries the file name and the source of the template", (exc.fields["filename"] is (fname if f0 is None else f0)) and (exc.fields["source"] is (text if s0 is None else s0)))
            run.ensure("its traceback is made for this template", len(log) == 1 and (log[0][0][1] if len(log[0][0]) > 1 else log[0][1].get("source_hint")) is text)
        run.ensure("nothing is compiled or run", not any(x[0] in ("compile", "exec") for x in ev))


@unit("TemplateInfo", ["C17", "C14"], LD + ":TemplateInfo.get_corresponding_lineno")
def _(run):
    """with the empty table that the generator gives, lines are kept"""
    f = run.str("f")
    t = run.call(cls(LD + ":TemplateInfo"), [f, {}], {})
    n = run.int("line", input=True)
    run.ensure_eq("a line without an entry in the table is the line itself", run.call(run.getattr(t, "get_corresponding_lineno"), [n], {}), n)
    run.ensure_eq("the file name is kept", run.getattr(t, "filename"), f)


@unit("JSLoader.load_string", ["C20"], LD + ":JSLoader.load_string")
def _(run):
    ld = run.used(run.call(cls(LD + ":JSLoader"), [], {}))
    text, fname = run.str("text"), run.str("filename")
    tree, code = opaque(run, "tree"), run.str("code")
    ev = []

    def parse(run, a, k):
        ev.append(a)
        return tree
    stub(run, SYNTAX["js_tonnikala"], parse)
    stub(run, SYNTAX["tonnikala"], lambda run, a, k: run.ensure("the JavaScript syntax is used", False))

    def gen(run, a, k):
        run.ensure("the code is generated from the parsed template", a[0] is tree)
        return opaque(run, "gen", getattr=lambda run, v, at: Native(lambda run, a, k: code) if at == "generate_ast" else MISSING)
    stub(run, "tonnikala.languages.javascript.generator:Generator", gen)
    r = run.call(run.getattr(ld, "load_string"), [text, fname], {})
    run.ensure("the template is parsed once", len(ev) == 1 and ev[0][0] is fname and ev[0][1] is text)
    run.ensure("the result is the generated code", r is code)


# ---------------------------------------------------------------------------------------------------- files
EXISTS = z3.Function("exists", StrS, z3.BoolSort())
ISABS = z3.Function("isabs", StrS, z3.BoolSort())
ABSP = z3.Function("abspath", StrS, StrS)
JOINP = z3.Function("path_join", StrS, StrS, StrS)


def filesystem(run):
    run.models[os.path.exists] = lambda run, a, k: mkb(EXISTS(zs(a[0])))
    run.models[os.path.isfile] = lambda run, a, k: mkb(z3.Function("isfile", StrS, z3.BoolSort())(zs(a[0])))
    run.models[os.path.isabs] = lambda run, a, k: mkb(ISABS(zs(a[0])))
    run.models[os.path.abspath] = lambda run, a, k: mks(ABSP(zs(a[0])))
    run.models[os.path.join] = lambda run, a, k: mks(JOINP(zs(a[0]), zs(a[1])))


T_FS = "os.path.exists, isabs, abspath and join are functions of their arguments during one call"


def file_loader(run, C=None):
    clock = {"n": 0}

    def now(run, a, k):
        t = run.int("time", input=True)
        return t
    run.models[time.time] = now
    ld = run.call(C or cls(LD + ":FileLoader"), [], {})
    return ld


@unit("FileLoader.resolve", ["C12", "C18"], LD + ":FileLoader.resolve", trusted=[T_FS])
def _(run):
    filesystem(run)
    ld = file_loader(run)
    seg = Seg("paths", lambda run, nm: run.str(nm, input=True))
    ld.fields["paths"] = SymList([seg])
    name = run.str("name", input=True)
    cand = lambda p: ABSP(JOINP(zs(p), name.t))
    NONE = Fold("no candidate", "all", lambda run, p: NOT(EXISTS(cand(p))))
    st = {}

    def inv(ctx):
        st["ctx"] = ctx
        return [("no candidate before exists", run.fold_term(NONE, ctx.pre))]
    run.loops["paths"] = Loop(lambda ctx: None, inv)
    r = run.call(run.getattr(ld, "resolve"), [name], {})
    absolute = A(ISABS(name.t), EXISTS(name.t))
    if r is None:
        run.ensure("nothing is found only if neither the absolute name nor any candidate exists", A(NOT(absolute), run.fold_term(NONE, [seg])))
    else:
        c = st.get("ctx")
        if c is None:
            run.ensure("without looking at the paths the absolute name is returned, which exists", A(absolute, zs(r) == name.t))
        else:
            run.ensure("the first existing candidate is returned, the absolute name before all", A(NOT(absolute), zs(r) == cand(c.x), EXISTS(zs(r)), run.fold_term(NONE, c.pre)))


@unit("FileLoader.add_path", ["C12"], LD + ":FileLoader.add_path")
def _(run):
    run.models[time.time] = lambda run, a, k: run.int("time")
    first = Seg("given", lambda run, nm: run.str(nm))
    given = SymList([first])
    ld = run.call(cls(LD + ":FileLoader"), [given], {})
    p1, p2, p3 = run.str("p1"), run.str("p2"), run.str("p3")
    run.call(run.getattr(ld, "add_path"), [p1, p2], {})
    run.call(run.getattr(ld, "add_path"), [p3], {})
    run.ensure("paths are searched in the order given and added", same_items(ld.fields["paths"].items, [first, p1, p2, p3]))
    run.ensure("the list of the caller is not changed", same_items(given.items, [first]))
    run.ensure("a new loader has nothing cached and reloading off", isinstance(ld.fields["cache"], (SymDict, dict)) and not models.dict_entries(run, ld.fields["cache"]) and ld.fields["reload"] is False)


def same_items(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


@unit("FileLoader.__init__", ["C12", "C15"], LD + ":FileLoader.__init__")
def _(run):
    """whether templates are translatable, their syntax and the debug flag are those asked for"""
    run.models[time.time] = lambda run, a, k: run.int("time")
    given = {}
    for n in ("debug", "translatable"):
        if run.pick(2):
            given[n] = run.bool(n, input=True)
    if run.pick(2):
        given["syntax"] = run.str("syntax", input=True)
    C = cls(LD + ":FileLoader")
    ld = run.call(C, [SymList([])], dict(given)) if run.pick(2) else run.call(C, [], dict(given))
    for n, default in (("debug", False), ("translatable", False), ("syntax", "tonnikala")):
        run.ensure_eq("the option given, otherwise the default", run.getattr(ld, n), given.get(n, default))
    run.ensure("no paths yet, nothing cached, no reloading", not run.items_of(ld.fields["paths"]) and not models.dict_entries(run, ld.fields["cache"]) and ld.fields["reload"] is False)


@unit("FileLoader.set_reload", ["C12", "C18"], LD + ":FileLoader.set_reload")
def _(run):
    ld = file_loader(run)
    f = run.bool("flag", input=True)
    run.call(run.getattr(ld, "set_reload"), [f], {})
    run.ensure("the flag is taken over", run.truth_term(ld.fields["reload"]) == f.t)


class TemplateClass:
    pass


@unit("FileLoader._maybe_purge_cache", ["C12"], LD + ":FileLoader._maybe_purge_cache",
      trusted=["os.stat gives the modification time of the file or FileNotFoundError, the same during one call", "clock readings and file times as mathematical numbers"])
def _(run):
    """for an arbitrary cached name K: what remains of the cache"""
    ld = file_loader(run)
    T = cls(LD + ":Template")
    K = run.str("K", input=True)
    last = ld.fields["_last_reload_check"]
    exists = z3.Function("file_exists", StrS, z3.BoolSort())
    mtime = z3.Function("file_mtime", StrS, IntS)

    def stat(run, a, k):
        p = a[0]
        if not run.fork(exists(zs(p))):
            # the file is gone, or its directory has become a file
            if run.fork(z3.Function("directory_is_a_file", StrS, z3.BoolSort())(zs(p))):
                run.throw(NotADirectoryError, 20, "not a directory")
            run.throw(FileNotFoundError, 2, "no such file")
        return opaque(run, "stat", getattr=lambda run, v, at: mki(mtime(zs(p))) if at == "st_mtime" else MISSING)
    run.models[os.stat] = stat
    tK = Obj(T, dict(path=run.str("K.path", input=True), mtime=run.int("K.mtime", input=True)))

    def entry(run, nm):
        k = run.str(nm)
        if run.fork(k.t == K.t):
            return (k, tK)
        return (k, Obj(T, dict(path=run.str(nm + ".path"), mtime=run.int(nm + ".mtime"))))
    seg = Seg("cached", entry)
    HAS = Fold("hasK", "any", lambda run, p: zs(p[0]) == K.t)
    CHANGED = Fold("changed", "any", lambda run, p: A(exists(zs(p[1].fields["path"])), mtime(zs(p[1].fields["path"])) > zi(p[1].fields["mtime"])))
    cache = dict_unknown(run, "cache")
    cache.base.seg = lambda run: seg
    inK = run.fork(z3.Bool("K is cached"))
    cache.base.memo.append((K, inK, tK if inK else MISSING))
    run.assume(run.fold_term(HAS, [seg]) == inK)
    ld.fields["cache"] = cache
    gone = NOT(exists(zs(tK.fields["path"])))
    changedK = A(exists(zs(tK.fields["path"])), mtime(zs(tK.fields["path"])) > zi(tK.fields["mtime"]))
    st = {"writes": 0}

    def has():
        c = ld.fields["cache"]
        r = models.dict_find(run, c, K)
        return r is not MISSING

    def havoc(ctx):
        ctx.modifies(ld.fields["cache"])
        present = run.fork(z3.Bool(run.name("K still cached")))
        b = DictBase("cache now", lambda run, key, nm: Obj(T, dict(path=run.str(nm + ".path"), mtime=run.int(nm + ".mtime"))))
        b.memo.append((K, present, tK if present else MISSING))
        c = ld.fields["cache"]
        c.base, c.writes, c.entries = b, [], []

    def inv(ctx):
        st["ctx"] = ctx
        h = has()
        visited = run.fold_term(HAS, ctx.pre)
        out = [("a name stays unless its file is gone", z3.BoolVal(h) == A(z3.BoolVal(inK), NOT(A(visited, gone)))), ("none of the visited files has changed", NOT(run.fold_term(CHANGED, ctx.pre)))]
        if inK:
            out.append(("K changed is a change", z3.Implies(A(visited, changedK), run.fold_term(CHANGED, ctx.pre))))
        return out

    def facts(ctx):
        if ctx.exit:
            return []
        # K is arbitrary: what the invariant says about K holds for the name visited now, which is cached and was not visited before
        c = ld.fields["cache"]
        if ctx.x[1] is not tK and isinstance(c.base, DictBase) and not any(m[0] is ctx.x[0] for m in c.base.memo):
            c.base.memo.append((ctx.x[0], True, ctx.x[1]))
        return [NOT(A(run.fold_term(HAS, ctx.pre), zs(ctx.x[0]) == K.t)), z3.Implies(zs(ctx.x[0]) == K.t, z3.BoolVal(inK))]
    run.loops["cached"] = Loop(havoc, inv, facts=facts)
    times = []

    def now(run, a, k):
        t = run.int("now", input=True)
        run.assume(t.t >= (times[-1].t if times else last.t))
        times.append(t)
        return t
    run.models[time.time] = now
    run.call(run.getattr(ld, "_maybe_purge_cache"), [], {})
    due = NOT(zi(last) + z3.RealVal("0.25") > times[0].t)
    h = has()
    run.ensure("the cache object stays the same", ld.fields["cache"] is cache)
    if len(times) == 1:
        run.ensure("nothing is checked or dropped only within the check interval", A(NOT(due), z3.BoolVal(h == inK)))
        run.ensure("the time of the last check is kept", ld.fields["_last_reload_check"] is last)
        return
    run.ensure("a check is made when it is due", due)
    run.ensure("the time of the check is remembered", any(ld.fields["_last_reload_check"] is t for t in times))
    c = st.get("ctx")
    if inK:
        run.ensure("a template whose file has been modified is not cached any more", z3.Implies(changedK, z3.BoolVal(not h)))
        run.ensure("a template whose file was deleted is not cached any more", z3.Implies(gone, z3.BoolVal(not h)))
        early = c is not None and not c.exit
        seen = c.pre + ([c.x] if early else [])
        run.ensure("only its own deletion or a modified file removes an entry", z3.Or(z3.BoolVal(h), gone, run.fold_term(CHANGED, seen)))
        if not early:
            run.ensure("a modified file drops every template: others may extend it", z3.Implies(run.fold_term(CHANGED, c.pre if c is not None else [seg]), z3.BoolVal(not h)))
        elif h:
            run.ensure("a modified file drops every template: others may extend it", NOT(run.fold_term(CHANGED, seen)))
        if not early:
            run.ensure("without a modified file only deleted files lose their entry", z3.BoolVal(h) == NOT(gone))
    else:
        run.ensure("nothing is added", not h)
    if h:
        run.ensure("the cached template stays the same", models.dict_find(run, ld.fields["cache"], K) is tK)


@unit("FileLoader._maybe_purge_cache.threads", ["C12"], LD + ":FileLoader._maybe_purge_cache",
      trusted=["another thread changes the cache only while a file is looked at"])
def _(run):
    """whatever other threads do to the cache while a file is looked at, the check ends normally"""
    ld = file_loader(run)
    T = cls(LD + ":Template")
    mk = lambda run, key, nm: Obj(T, dict(path=run.str(nm + ".path"), mtime=run.int(nm + ".mtime")))
    cache = dict_unknown(run, "cache", mkval=mk)
    seg = Seg("cached", lambda run, nm: (run.str(nm), mk(run, None, nm)))
    cache.base.seg = lambda run: seg
    ld.fields["cache"] = cache

    def others(run):
        c = ld.fields["cache"]
        run.mutate(c)
        c.base, c.writes, c.entries = DictBase("cache after other threads", mk), [], []

    def stat(run, a, k):
        others(run)
        w = run.pick(3)
        if w:
            run.throw(*((FileNotFoundError, 2, "no such file") if w == 1 else (NotADirectoryError, 20, "not a directory")))
        return opaque(run, "stat", getattr=lambda run, v, at: run.int("file time") if at == "st_mtime" else MISSING)
    run.models[os.stat] = stat

    def havoc(ctx):
        ctx.modifies(ld.fields["cache"])
        others(ctx.run if hasattr(ctx, "run") else run)
    run.loops["cached"] = Loop(havoc, lambda ctx: [])
    run.models[time.time] = lambda run, a, k: run.int("now", input=True)
    r, e = raising(run, lambda: run.call(run.getattr(ld, "_maybe_purge_cache"), [], {}))
    run.ensure("no exception", e is None)


@unit("FileLoader.load", ["C12"], LD + ":FileLoader.load",
      trusted=["resolve, _maybe_purge_cache and load_string by their contracts", "codecs.open reads the file, os.fstat describes the open file"])
def _(run):
    ld = file_loader(run)
    T = cls(LD + ":Template")
    C = cls(LD + ":FileLoader")
    name, other = run.str("name", input=True), run.str("other", input=True)
    run.assume(name.t != other.t)
    cache = dict_unknown(run, "cache", mkval=lambda run, key, nm: Obj(T, dict(path=run.str(nm + ".path"), mtime=run.int(nm + ".mtime"))))
    ld.fields["cache"] = cache
    ev = []
    ld.fields["reload"] = reload = [False, True][run.pick(2)]

    def purge(run, a, k):
        ev.append("purge")
        b = DictBase("purged", cache.base.mkval)
        run.mutate(cache)
        cache.base, cache.writes = b, []
    stub(run, LD + ":FileLoader._maybe_purge_cache", purge)
    path = None if run.pick(2) else run.str("path", input=True)

    def resolve(run, a, k):
        ev.append("resolve")
        run.ensure("the name is resolved", a[1] is name)
        if path is not None:
            run.assume(zs(path) != SV(""))
        return path
    stub(run, LD + ":FileLoader.resolve", resolve)
    text, fd = run.str("contents", input=True), run.int("fd")
    closed, times = [], []

    def opened(run, a, k, universal=False):
        ev.append("open")
        nl = k.get("newline", a[5] if len(a) > 5 else None)
        run.ensure("the line ends of the file are kept", not universal or nl is not None and nl in ("", "\n"))
        enc = (a[3] if universal else a[2]) if len(a) > 2 + universal else k.get("encoding")
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if not isinstance(mode, str) or "b" in mode:
            raise Unsupported("a file read as bytes")
        run.ensure("the resolved file is read as UTF-8", a[0] is path and mode in ("r", "rt") and str(enc).lower().replace("-", "") == "utf8")
        ga = {"read": Native(lambda run, a, k: (ev.append("read"), text)[1]), "fileno": Native(lambda run, a, k: fd), "__exit__": Native(lambda run, a, k: closed.append(1)), "close": Native(lambda run, a, k: closed.append(1))}
        o = opaque(run, "file", getattr=lambda run, v, at: ga.get(at, MISSING))
        ga["__enter__"] = Native(lambda run, a, k: o)
        return o
    run.models[codecs.open] = opened
    run.models[open] = lambda run, a, k: opened(run, a, k, True)

    def stat(run, a, k):
        # each look at the file may find another time; one taken before the contents is never too late
        run.ensure("the modification time is that of the file that is read", (a[0] is fd and not closed and "open" in ev) or a[0] is path)
        mt = run.int("mtime%d" % len(times), input=True)
        times.append((mt, "read" not in ev))
        return opaque(run, "stat", getattr=lambda run, v, at: mt if at == "st_mtime" else MISSING)
    run.models[os.fstat] = run.models[os.stat] = stat
    run.models[os.path.getmtime] = lambda run, a, k: run.getattr(stat(run, a, k), "st_mtime")
    made = []
    exc = exception(run, template=True) if run.pick(2) else None

    def ls(run, a, k):
        run.ensure("the contents are compiled under the path of the file", a[1] is text and (a[2] if len(a) > 2 else k.get("filename")) is path)
        ev.append("compile")
        if exc is not None:
            raise PyExc(exc)
        made.append(Obj(T, dict(binder_func=opaque(run, "binder"))))
        return made[-1]
    stub(run, LD + ":Loader.load_string", ls)
    pre = {}

    def find(k):
        return models.dict_find(run, ld.fields["cache"], k)
    if not reload:
        o0 = find(other)
        c0 = find(name)
    r, e = raising(run, lambda: run.call(run.getattr(ld, "load"), [name], {}))
    run.ensure("the cache is checked first exactly when reloading is on", (ev[:1] == ["purge"]) == reload and ev.count("purge") == int(reload))
    ev2 = [x for x in ev if x != "purge"]
    if not ev2:
        run.ensure("a cached template is returned without looking at any file", e is None and r is find(name) and r is not MISSING)
        if not reload:
            run.ensure("it is the template cached under the name", r is c0)
    elif path is None:
        run.ensure("an unknown name is an OSError with ENOENT", e is not None and run.isinstance(e, OSError) and e.fields.get("errno") == 2)
        run.ensure("nothing is cached for it", find(name) is MISSING)
    elif exc is not None:
        run.ensure("an error reaches the caller and nothing is cached", e is exc and find(name) is MISSING)
    else:
        run.ensure("the file is found, read and compiled once", ev2 == ["resolve", "open", "read", "compile"])
        run.ensure("the new template is returned and cached under the name", e is None and r is made[0] and find(name) is r)
        run.ensure("it carries its path and modification time", r.fields.get("path") is path and any(r.fields.get("mtime") is t for t, _ in times))
        run.ensure("the modification time was taken before the contents, so that a change made meanwhile is noticed later", any(r.fields.get("mtime") is t and ok for t, ok in times))
        run.ensure("the file is closed", len(closed) == 1)
    if not reload:
        run.ensure("with reloading off no other entry changes and none is dropped", find(other) is o0 and (c0 is MISSING or find(name) is c0))


@unit("FileLoader.load.threads", ["C12"], LD + ":FileLoader.load",
      trusted=["resolve, _maybe_purge_cache and load_string by their contracts", "each operation on the cache is atomic"])
def _(run):
    """whatever other threads do to the cache between its steps, a load of an existing file ends with a template"""
    ld = file_loader(run)
    T = cls(LD + ":Template")
    found = []

    def any_template(run):
        found.append(Obj(T, dict(path=run.str("path"), mtime=run.int("mtime")), name="cached"))
        return found[-1]

    def get(run, a, k):
        return any_template(run) if run.pick(2) else (a[1] if len(a) > 1 else None)

    def getitem(run, a, k):
        if run.pick(2):
            run.throw(KeyError, a[-1])
        return any_template(run)

    def pop(run, a, k):
        return get(run, a, k) if len(a) > 1 else getitem(run, a, k)
    ops = {"get": get, "__getitem__": getitem, "pop": pop, "__contains__": lambda run, a, k: run.bool("cached"), "clear": lambda run, a, k: None,
           "setdefault": lambda run, a, k: any_template(run) if run.pick(2) else a[1], "__setitem__": lambda run, a, k: None}

    def attr(run, v, a):
        if a not in ops:
            raise Unsupported("%s of the cache" % a)
        return Native(ops[a], a)
    ld.fields["cache"] = opaque(run, "cache", getattr=attr, contains=lambda run, c, x: run.bool("cached"), getitem=lambda run, c, x: getitem(run, [x], {}), setitem=lambda run, c, x, y: None,
                                isinstance=lambda run, v, c: issubclass(dict, c) if isinstance(c, type) else False, truth=lambda run, v: run.bool("any cached"))
    ld.fields["reload"] = run.bool("reload")
    stub(run, LD + ":FileLoader._maybe_purge_cache", lambda run, a, k: None)
    path, text = run.str("path", input=True), run.str("contents", input=True)
    run.assume(zs(path) != SV(""))
    stub(run, LD + ":FileLoader.resolve", lambda run, a, k: path)

    def opened(run, a, k):
        ga = {"read": Native(lambda run, a, k: text), "fileno": Native(lambda run, a, k: run.int("fd")), "__exit__": Native(lambda run, a, k: None), "close": Native(lambda run, a, k: None)}
        o = opaque(run, "file", getattr=lambda run, v, at: ga.get(at, MISSING))
        ga["__enter__"] = Native(lambda run, a, k: o)
        return o
    run.models[codecs.open] = run.models[open] = opened
    run.models[os.fstat] = run.models[os.stat] = lambda run, a, k: opaque(run, "stat", getattr=lambda run, v, at: run.int("mtime") if at == "st_mtime" else MISSING)
    run.models[os.path.getmtime] = lambda run, a, k: run.int("mtime")
    made = []

    def ls(run, a, k):
        made.append(Obj(T, dict(binder_func=opaque(run, "binder")), name="new"))
        return made[-1]
    stub(run, LD + ":Loader.load_string", ls)
    r, e = raising(run, lambda: run.call(run.getattr(ld, "load"), [run.str("name", input=True)], {}))
    run.ensure("no exception", e is None)
    run.ensure("a template that was cached, or the new one", any(r is x for x in found + made))


@unit("TracebackFrameProxy", ["C17"], DB + ":make_frame_proxy", trusted=["assigning tb_next of a traceback object either sets it or raises"])
def _(run):
    """a proxy stands for its traceback entry; chaining it to another sets the next entry, and a failure to do so does not
    escape"""
    fails = run.pick(2)
    log = []

    def entry(nm):
        def set_(run, v, attr, x):
            if attr != "tb_next":
                raise Unsupported("assignment of %s to a traceback" % attr)
            if fails:
                run.throw(ValueError, "traceback loop detected")
            log.append((o, x))
        line = run.int(nm + ".line", input=True)
        o = Opaque(run.name(nm), type=lambda run, v: types.TracebackType, is_none=False, truth=True, setattr=set_, getattr=lambda run, v, at: line if at == "tb_lineno" else MISSING)
        o.ghost["line"] = line
        return o
    t1, t2 = entry("first"), entry("second")
    p1 = run.call(fn(DB + ":make_frame_proxy"), [t1], {})
    p2 = run.call(fn(DB + ":make_frame_proxy"), [t2], {})
    run.ensure("the proxy stands for the entry", run.getattr(p1, "tb") is t1 and run.getattr(p2, "tb") is t2)
    run.ensure("its attributes are those of the entry", run.getattr(p1, "tb_lineno") is t1.ghost["line"])
    run.ensure("it is chained to nothing yet", run.getattr(p1, "tb_next") is None)
    last = run.pick(2)
    run.call(run.getattr(p1, "set_next"), [None if last else p2], {})
    run.ensure("the next proxy is the given one", run.getattr(p1, "tb_next") is (None if last else p2))
    if not fails:
        run.ensure("the entry of the first is followed by that of the second", len(log) >= 1 and all(a is t1 and b is (None if last else t2) for a, b in log))


@unit("TonnikalaRuntime.load", ["C09", "C10"], "tonnikala.runtime.python:TonnikalaRuntime.load")
def _(run):
    """a base template is the one the loader of the extending template gives for its name"""
    href = run.str("href", input=True)
    got = []
    t = opaque(run, "template")
    ld = opaque(run, "loader", getattr=lambda run, v, at: Native(lambda run, a, k: (got.append(a), t)[1]) if at == "load" else MISSING)
    rt = run.used(run.call(cls("tonnikala.runtime.python:TonnikalaRuntime"), [], {}))
    run.setattr(rt, "loader", ld)
    r = run.call(run.getattr(rt, "load"), [href], {})
    run.ensure("the template of the loader", r is t and len(got) == 1 and len(got[0]) == 1)
    run.ensure_eq("by the name given", got[0][0], href)
