"""tonnikala/runtime/javascript.js: escaping, buffers, attributes and the template context, on the values JavaScript has"""
import os
from .lib import *
from concrete import common
from pyvc import js as J
from pyvc.js import JS, JSArr, JSFun, JSNum, JSObj, UNDEF

T_JS = "the semantics of JavaScript as pyvc/js.py has it (ES5 and common later syntax, properties of plain objects, Array.prototype, String.prototype.replace with character classes)"
T_TS = "TypeScript's parser"
SPECIALS = "&<>'\""


def runtime(run, where=None):
    js = JS(run)
    g = opaque_obj("global object")
    g.ghost["dict"] = dict_unknown(run, "globals", lambda run, key, nm: some(run, nm))
    js.G = g
    if where is None:
        where = run.pick(2)
    js.globals.vars["window" if where else "global"] = g
    js.exports = js.load(os.path.join(common.REPO, "tonnikala", "runtime", "javascript.js"))
    if not isinstance(js.exports, JSObj):
        raise Unsupported("the module is not an object")
    return js


def api(js, name):
    f = js.get(js.exports, name)
    if not isinstance(f, JSFun):
        raise Unsupported("the module has no function %s" % name)
    return f


def opaque_obj(name):
    return JSObj(kind="Object", name=" " + name)


def some(run, nm):
    """an arbitrary value, not looked into"""
    return Opaque(run.name(nm), truth=z3.Bool(run.name("truth of " + nm)))


# ------------------------------------------------------------------ the values
def new_buffer(run, js, text=None):
    """a buffer written to before: the function the module gives, and what it appends to"""
    f = js.call(api(js, "Buffer"), UNDEF, [])
    h = js.get(f, "html")
    inner = js.call(h, f, [])
    if not (isinstance(inner, JSObj) and isinstance(inner.props.get("buffer"), JSArr)):
        raise Unsupported("what a buffer holds is not an array of texts")
    inner.props["buffer"] = JSArr([Seg(run.name("written"), lambda run, nm: run.str(nm))])
    return f, inner


def content(js, inner):
    b = inner.props.get("buffer")
    if not isinstance(b, JSArr):
        raise Unsupported("what a buffer holds is not an array of texts")
    return js.run.fold_term(js.JOIN, b.items)


KINDS = ["undefined", "null", "boolean", "number", "string", "markup", "buffer", "callable buffer", "object", "object with html"]


def value(run, js, nm, kinds=KINDS):
    k = kinds[run.pick(len(kinds))]
    if k == "undefined":
        return UNDEF
    if k == "null":
        return None
    if k == "boolean":
        return run.bool(nm, input=True)
    if k == "number":
        t = z3.String(run.name(nm + " as text"))
        return JSNum(t, z3.Bool(run.name(nm + " is 0 or NaN")))
    if k == "string":
        return run.str(nm, input=True)
    if k == "markup":
        return js.call(api(js, "literal"), UNDEF, [run.str(nm + " markup", input=True)])
    if k == "buffer":
        return new_buffer(run, js)[1]
    if k == "callable buffer":
        return new_buffer(run, js)[0]
    o = opaque_obj(nm)
    o.ghost["foreign"] = {}
    o.ghost["string"] = z3.String(run.name("String(%s)" % nm))
    if k == "object with html":
        t = run.str(nm + ".html()", input=True)
        o.props["html"] = js.fun(lambda js, this, a: t, "html")
        o.ghost["html"] = t.t
    return o


def raw(run, js, v):
    """the text of a value written as it is"""
    return js.string(v)


def is_markup(js, v):
    return isinstance(v, JSObj) and isinstance(js.get(v, "html"), JSFun)


def html(run, js, v):
    """the text of a value written escaped: markup and buffers as they are, an object with html() by that, all else escaped"""
    if isinstance(v, JSObj) and "html" in v.ghost:
        return v.ghost["html"]
    if is_markup(js, v):
        return js.string(v)
    return esc(js.string(v))


def attr(run, js, name, v):
    n = zs(name)
    if v is UNDEF or v is None:
        return SV("")
    whole = lambda t: concat(SV(" "), n, SV('="'), t, SV('"'))
    if isinstance(v, (bool, SymBool)):
        return z3.If(zb(v), whole(n), SV(""))
    return whole(html(run, js, v))


def same(run, label, got, want):
    run.ensure(label, got == want)


def only_texts(run, js, inner):
    """the data invariant of a buffer: what it holds are texts"""
    run.ensure("a buffer holds texts only", all(isinstance(x, (str, SymStr)) or isinstance(x, Seg) and x.name.startswith(("written", "out")) for x in inner.props["buffer"].items) if isinstance(inner.props.get("buffer"), JSArr) else False)


# ------------------------------------------------------------------ one value
@unit("js.escape", ["C16"], "tonnikala/runtime/javascript.js:doEscape", trusted=[T_JS, T_TS])
def _(run):
    """escape gives markup of the escaped text; markup, buffers and objects with html() are not escaped again"""
    js = runtime(run)
    v = value(run, js, "value")
    want = html(run, js, v)
    r = js.call(api(js, "escape"), UNDEF, [v])
    same(run, "the text", js.string(r), want)
    if not (isinstance(v, JSObj) and "html" in v.ghost):
        run.ensure("the result is markup or a buffer", is_markup(js, r))
        again = js.call(api(js, "escape"), UNDEF, [r])
        same(run, "escaping the result changes nothing", js.string(again), want)


@unit("js.literal", ["C16"], "tonnikala/runtime/javascript.js:literal", trusted=[T_JS, T_TS])
def _(run):
    """the text of the value, never escaped"""
    js = runtime(run, 0)
    v = value(run, js, "value")
    want = raw(run, js, v)
    m = js.call(api(js, "literal"), UNDEF, [v])
    same(run, "the text of it", js.string(m), want)
    same(run, "is not escaped", js.string(js.call(api(js, "escape"), UNDEF, [m])), want)


# ------------------------------------------------------------------ buffers
def writing(run, js, inner, start, text):
    """loop over values to write: what is written so far is appended"""
    fold = Fold("written " + text.__name__, "str", lambda run, x: text(run, js, x))

    def havoc(ctx):
        ctx.modifies(inner)
        a = JSArr([Seg(run.name("written"), lambda run, nm: run.str(nm))])
        ctx.modifies(a)
        inner.props["buffer"] = a

    def inv(ctx):
        if ctx.pre:
            only_texts(run, js, inner)
        return [("the texts so far are appended", content(js, inner) == concat(start, run.fold_term(fold, ctx.pre)))]
    return fold, Loop(havoc, inv)


@unit("js.Buffer.fresh", ["C16"], "tonnikala/runtime/javascript.js:Buffer", trusted=[T_JS, T_TS])
def _(run):
    """two new buffers: what is written to one is in that one only"""
    js = runtime(run, 0)
    f, g = (js.call(api(js, "Buffer"), UNDEF, []) for i in range(2))
    t, u = run.str("text", input=True), run.str("second text", input=True)
    js.call(f, UNDEF, [t])
    same(run, "nothing is written to the other", js.string(g), SV(""))
    js.call(g, UNDEF, [u])
    same(run, "the text of the first", js.string(f), t.t)
    same(run, "the text of the second", js.string(g), u.t)


@unit("js.Buffer", ["C16"], "tonnikala/runtime/javascript.js:Buffer", trusted=[T_JS, T_TS])
def _(run):
    """a new buffer is empty, and not the one made before"""
    js = runtime(run, 0)
    f, inner = new_buffer(run, js)
    before = content(js, inner)
    g = js.call(api(js, "Buffer"), UNDEF, [])
    same(run, "a new buffer is empty", js.string(g), SV(""))
    js.call(g, UNDEF, [run.str("text", input=True)])
    same(run, "writing to it leaves the others alone", js.string(f), before)
    run.ensure("a buffer is markup", is_markup(js, g) and is_markup(js, f))


@unit("js.Buffer.output", ["C16"], "tonnikala/runtime/javascript.js:Buffer.output,doOutput", trusted=[T_JS, T_TS, "a buffer is not written into itself here (the concrete check does that)"])
def _(run):
    """writing appends the text of every value, in order"""
    js = runtime(run, 0)
    f, inner = new_buffer(run, js)
    start = content(js, inner)
    fold, loop = writing(run, js, inner, start, raw)
    args = [Seg("values", lambda run, nm: value(run, js, nm, KINDS[:-2]), loop=loop)]
    js.call(f, UNDEF, args)
    only_texts(run, js, inner)
    same(run, "the texts of all values are appended", js.string(f), concat(start, run.fold_term(fold, args)))
    same(run, "the buffer and what it holds have the same text", js.string(inner), js.string(f))


@unit("js.Buffer.escape", ["C16"], "tonnikala/runtime/javascript.js:Buffer.escape,doOutput,doEscape", trusted=[T_JS, T_TS, "a buffer is not written into itself here (the concrete check does that)"])
def _(run):
    """escaped writing appends the escaped text of every value, in order"""
    js = runtime(run, 0)
    f, inner = new_buffer(run, js)
    start = content(js, inner)
    hfold, hloop = writing(run, js, inner, start, html)

    def mapped(run, seg):
        rfold, rloop = writing(run, js, inner, start, raw)
        out = Seg(run.name("escaped values"), lambda run, nm: value(run, js, nm, ["string", "markup", "buffer", "callable buffer"]), loop=rloop)
        run.assume(run.fold_term(rfold, [out]) == run.fold_term(hfold, [seg]))
        run.assume(out.nonempty == seg.nonempty)
        run.assume(run.length([out]) == run.length([seg]))

        def check(run, x, y):
            run.ensure("each value becomes its escaped text", js.string(y) == html(run, js, x))
        return out, check
    args = [Seg("values", lambda run, nm: value(run, js, nm), loop=hloop, map=mapped)]
    js.call(js.get(f, "escape"), f, args)
    only_texts(run, js, inner)
    same(run, "the escaped texts of all values are appended", js.string(f), concat(start, run.fold_term(hfold, args)))


@unit("js.Buffer.attr", ["C16"], "tonnikala/runtime/javascript.js:Buffer.outputBooleanAttr", trusted=[T_JS, T_TS])
def _(run):
    """true gives the attribute with its name as value; false, null and undefined nothing; all else the escaped value"""
    js = runtime(run, 0)
    f, inner = new_buffer(run, js)
    start = content(js, inner)
    v, n = value(run, js, "value"), run.str("name", input=True)
    want = attr(run, js, n, v)
    js.call(js.get(f, "attr"), f, [n, v])
    only_texts(run, js, inner)
    same(run, "the attribute is appended", js.string(f), concat(start, want))


@unit("js.outputAttrs", ["C16"], "tonnikala/runtime/javascript.js:outputAttrs", trusted=[T_JS, T_TS])
def _(run):
    """every pair as an attribute, in order; nothing for no list"""
    js = runtime(run, 0)
    mine = len(js.made)
    k = run.pick(4)
    if k == 0:
        same(run, "no list, no attributes", js.string(js.call(api(js, "outputAttrs"), UNDEF, [[UNDEF, None][run.pick(2)]])), SV(""))
        return

    def text(run, js, x):
        return attr(run, js, x.items[0], x.items[1])

    def target():
        b = [o for o in js.made if isinstance(o.props.get("buffer"), JSArr) and o.ghost.get("value") is None]
        if not b:
            raise Unsupported("no buffer for the attributes")
        return b[0]
    fold = Fold("attributes", "str", lambda run, x: text(run, js, x))

    def havoc(ctx):
        inner = target()
        ctx.modifies(inner)
        a = JSArr([Seg(run.name("written"), lambda run, nm: run.str(nm))])
        ctx.modifies(a)
        inner.props["buffer"] = a

    def inv(ctx):
        return [("the attributes so far are written", content(js, target()) == run.fold_term(fold, ctx.pre))]

    def pair(run, nm):
        n = len(js.made)
        p = JSArr([run.str(nm + " name", input=True), value(run, js, nm + " value")])
        for o in js.made[n:]:
            o.ghost["value"] = True
        return p
    items = {1: [], 2: [pair(run, "pair")], 3: [Seg("pairs", pair, loop=Loop(havoc, inv))]}[k]
    want = run.fold_term(fold, items)
    r = js.call(api(js, "outputAttrs"), UNDEF, [JSArr(items)])
    same(run, "the attributes in order", js.string(r), want)
    f, inner = new_buffer(run, js)
    start = content(js, inner)
    js.call(f, UNDEF, [r])
    same(run, "written as they are", js.string(f), concat(start, want))


@unit("js.foreach", ["C16", "C20"], "tonnikala/runtime/javascript.js:foreach", trusted=[T_JS, T_TS])
def _(run):
    """the function is called with every element, in order"""
    js = runtime(run, 0)
    log = JSArr([])
    ID = z3.Function("identity", IntS, StrS)
    fold = Fold("seen", "str", lambda run, x: x.ghost["id"])

    def mk(run, nm):
        return Opaque(run.name(nm), id=z3.String(run.name("id of " + nm)))

    def havoc(ctx):
        ctx.modifies(log)
        log.items = [Seg(run.name("seen"), mk)]

    def inv(ctx):
        return [("every element so far was handed to the function", run.fold_term(fold, log.items) == run.fold_term(fold, ctx.pre))]

    def body(js, this, a):
        run.mutate(log)
        log.items.append(a[0])
        return UNDEF
    seg = Seg("elements", mk, loop=Loop(havoc, inv))
    js.call(api(js, "foreach"), UNDEF, [JSArr([seg]), js.fun(body)])
    run.ensure("every element was handed to the function, in order", run.fold_term(fold, log.items) == run.fold_term(fold, [seg]))


# ------------------------------------------------------------------ the context
def context(run):
    o = opaque_obj("context")
    o.ghost["dict"] = dict_unknown(run, "context", lambda run, key, nm: some(run, nm))
    return o


@unit("js.bindFromContext", ["C16"], "tonnikala/runtime/javascript.js:bindFromContext", trusted=[T_JS, T_TS])
def _(run):
    """the value of the context whenever it has the name, whatever it is, and otherwise that of the global object"""
    js = runtime(run)
    ctx, n = context(run), run.str("name", input=True)
    r = js.call(api(js, "bindFromContext"), UNDEF, [ctx, n])
    have = models.dict_find(run, ctx.ghost["dict"], n)
    if have is not MISSING:
        run.ensure("the value of the context", r is have)
        return
    g = models.dict_find(run, js.G.ghost["dict"], n)
    if g is not MISSING:
        run.ensure("the global", r is g)
    else:
        run.ensure("undefined, or what every object has", r is UNDEF or isinstance(r, Opaque) and r.name.startswith("inherited"))


@unit("js.addToContext", ["C16"], "tonnikala/runtime/javascript.js:addToContext", trusted=[T_JS, T_TS])
def _(run):
    """the first registration of a name is kept, others are not touched"""
    js = runtime(run, 0)
    ctx, n, other, v = context(run), run.str("name", input=True), run.str("other name", input=True), some(run, "value")
    run.assume(n.t != other.t)
    had = models.dict_find(run, ctx.ghost["dict"], n)
    had_other = models.dict_find(run, ctx.ghost["dict"], other)
    js.call(api(js, "addToContext"), UNDEF, [ctx, n, v])
    now = models.dict_find(run, ctx.ghost["dict"], n)
    run.ensure("an earlier registration is kept, else the value is registered", now is (v if had is MISSING else had))
    run.ensure("no other name changes", models.dict_find(run, ctx.ghost["dict"], other) is had_other)


@unit("js.BoundTemplate", ["C16", "C20"], "tonnikala/runtime/javascript.js:BoundTemplate", trusted=[T_JS, T_TS])
def _(run):
    """rendering is the text of what __main__ of the context gives, called once each time"""
    js = runtime(run, 0)
    f, inner = new_buffer(run, js)
    text = content(js, inner)
    calls = []
    ctx = opaque_obj("context")
    ctx.props["__main__"] = js.fun(lambda js, this, a: calls.append(1) or f, "__main__")
    t = js.construct(api(js, "BoundTemplate"), [ctx])
    how = ["render", "toString", "html"][run.pick(3)]
    r = js.call(js.get(t, how), t, [])
    run.ensure("a text", isinstance(r, (str, SymStr)))
    same(run, "the text of the template", js.string(r), text)
    run.ensure("rendered once", len(calls) == 1)


@unit("js.load", ["C20"], "tonnikala/runtime/javascript.js:load", trusted=[T_JS, T_TS])
def _(run):
    """loads the module of that name"""
    js = runtime(run, 0)
    m, n = some(run, "module"), run.str("name", input=True)
    asked = []
    js.globals.vars["require"] = js.fun(lambda js, this, a: asked.append(a) or m, "require")
    r = js.call(api(js, "load"), UNDEF, [n])
    run.ensure("the module", r is m and len(asked) == 1 and len(asked[0]) == 1 and asked[0][0] is n)
