"""tonnikala.runtime.python: buffers, attribute mappings, binding and imports"""
from .lib import *

RP = "tonnikala.runtime.python"
BUF = RP + ":_TKPythonBufferImpl"
T_ESC = "markupsafe.escape(v) is the value's own __html__ or str(v) with each of & < > \" ' replaced by its reference"


def den_elem(run, x):
    """text that writing x contributes"""
    if isinstance(x, Obj) and x.ghost.get("buffer") is not None:
        return x.ghost["buffer"]
    return zs(models.to_str(run, x))


DEN = Fold("den", "str", den_elem)


def new_buffer(run, name="buf"):
    """an arbitrary buffer: built by its real constructor, then holding arbitrary text"""
    C = cls(BUF)
    b = run.call(C, [], {})
    lst = run.getattr(b, "_buffer")
    if not isinstance(lst, SymList):
        raise Unsupported("the buffer is not a list")
    s = Seg(run.name(name + " content"), lambda run, nm: run.str(nm))
    lst.items = lst.items + [s]
    b.ghost["buffer"] = run.fold_term(run.JOIN, lst.items)
    b.ghost["list"] = lst
    return b


def written(run, name):
    """an arbitrary value handed to a buffer"""
    i = run.pick(6)
    if i == 0:
        return new_buffer(run, name)
    if i == 1:
        return run.str(name, input=True)
    if i == 2:
        return None
    if i == 3:
        return run.bool(name, input=True)
    if i == 4:
        return run.int(name, input=True)
    return other_value(run, name)


def content(run, b):
    return run.fold_term(run.JOIN, run.getattr(b, "_buffer").items)


@unit("buffer.new", ["C07"], BUF + ".__init__")
def _(run):
    b = run.call(cls(BUF), [], {})
    run.ensure_eq("a new buffer joins to the empty string", run.call(run.getattr(b, "join"), [], {}), "")
    run.ensure("a buffer is its own HTML representation", run.is_(run.call(run.getattr(b, "__html__"), [], {}), b))
    b2 = run.call(cls(BUF), [], {})
    run.call(run.getattr(b2, "output"), [run.str("x")], {})
    run.ensure_eq("buffers do not share their contents", run.call(run.getattr(b, "join"), [], {}), "")


@unit("buffer.output", ["C07", "C02"], BUF + ".__init__")
def _(run):
    """for every number of values: join() after = join() before + the texts of the values, in order"""
    b = new_buffer(run)
    lst = b.ghost["list"]
    old = content(run, b)
    objs = Seg("objs", lambda run, nm: written(run, nm))

    def havoc(ctx):
        ctx.modifies(lst)
        lst.items = [Seg(run.name("written"), lambda run, nm: run.str(nm))]

    def inv(ctx):
        return [("the buffer holds its old content and the values so far", run.fold_term(run.JOIN, lst.items) == concat(old, run.fold_term(DEN, ctx.pre)))]
    run.loops["objs"] = Loop(havoc, inv)
    how = run.pick(2)
    r = run.call(run.getattr(b, "output"), [objs], {}) if how else run.call(b, [objs], {})
    run.ensure("the list of the buffer stays the same object", run.is_(run.getattr(b, "_buffer"), lst))
    run.ensure_eq("join() gives the old content followed by the values, in order", run.call(run.getattr(b, "join"), [], {}), mks(concat(old, run.fold_term(DEN, [objs]))))
    run.ensure_eq("str() gives the same as join()", run.call(run.getattr(b, "__str__"), [], {}), run.call(run.getattr(b, "join"), [], {}))


@unit("buffer.output.values-unchanged", ["C07"], BUF + ".__init__")
def _(run):
    """writing one value: what was written is not changed and not shared"""
    b = new_buffer(run)
    old = content(run, b)
    selfwrite = run.pick(2)
    x = b if selfwrite else written(run, "x")
    d = den_elem(run, x)
    items = list(x.ghost["list"].items) if isinstance(x, Obj) and "list" in x.ghost else None
    run.call(run.getattr(b, "output"), [x], {})
    run.ensure("the value is appended", content(run, b) == concat(old, d))
    if items is not None and not selfwrite:
        run.ensure("a written buffer keeps its contents", content(run, x) == d)
        run.ensure("the buffers do not share a list", run.getattr(x, "_buffer") is not run.getattr(b, "_buffer"))
        run.call(run.getattr(x, "output"), ["later"], {})
        run.ensure("later writes to a written buffer do not show", content(run, b) == concat(old, d))


def bool_attr_spec(run, name, value):
    if value is None:
        return SV("")
    t = concat(SV(" "), name, SV('="'), html_term(run, value), SV('"'))
    if isinstance(value, SymBool):
        return z3.If(value.t, concat(SV(" "), name, SV('="'), name, SV('"')), SV(""))
    return t


@unit("buffer.output_boolean_attr", ["C08", "C01", "C07"], BUF + ".__init__", trusted=[T_ESC])
def _(run):
    model_escape(run)
    b = new_buffer(run)
    old = content(run, b)
    name = run.str("name", input=True)
    v = any_value(run)
    if isinstance(v, SymStr) and run.pick(2):
        v = Obj(__import__("markupsafe").Markup, sval=v)
        v.ghost["html"] = zs(v.sval)
    spec = bool_attr_spec(run, name.t, v)
    run.call(run.getattr(b, "output_boolean_attr"), [name, v], {})
    run.ensure("None and False write nothing, True the name, any other value name=\"escaped value\"", content(run, b) == concat(old, spec), detail=(v, content(run, b)))


def abstract_buffer(run):
    """a buffer known by its contract only (C or Python implementation)"""
    o = opaque(run, "buffer")
    o.ghost["content"] = SV("")

    def oba(run, a, k):
        run.mutate(o)
        o.ghost["content"] = concat(o.ghost["content"], ATTR.elem(run, (a[0], a[1])))

    def out(run, a, k):
        run.mutate(o)
        o.ghost["content"] = concat(o.ghost["content"], run.fold_term(DEN, a))
    o.ghost["call"] = out

    def ga(run, v, attr):
        if attr == "output_boolean_attr":
            return Native(oba, attr)
        if attr == "join":
            return Native(lambda run, a, k: mks(o.ghost["content"]), attr)
        return MISSING
    o.ghost["getattr"] = ga
    return o


def attr_elem(run, pair):
    k, v = pair
    return bool_attr_spec(run, zs(k), v)


ATTR = Fold("attrs", "str", attr_elem)


@unit("output_attrs", ["C08", "C01"], RP + ":output_attrs", trusted=["output_boolean_attr by its contract (Python buffer: unit buffer.output_boolean_attr; C buffer: unit cbuffer.*)"])
def _(run):
    f = fn(RP + ":output_attrs")
    model_escape(run)
    bufs = []

    def mk(run, a, k):
        b = abstract_buffer(run)
        bufs.append(b)
        return b
    run.models[cls(RP + ":Buffer")] = mk

    def pair(run, nm):
        return (run.str(nm + ".name"), any_value(run, nm))
    seg = Seg("pairs", pair)

    def havoc(ctx):
        for b in bufs:
            ctx.modifies(b)
            b.ghost["content"] = z3.String(run.name("content"))

    def inv(ctx):
        if len(bufs) != 1:
            raise Unsupported("not one buffer")
        return [("the attributes so far, in order", bufs[0].ghost["content"] == run.fold_term(ATTR, ctx.pre))]
    run.loops["pairs"] = Loop(havoc, inv)
    kind = run.pick(4)
    if kind == 0:
        vals = None
        expect = SV("")
    elif kind == 1:
        vals = dict_unknown(run, "mapping")
        vals.base.seg = lambda run: seg
        ne = run.truth_term(vals)
        run.assume(seg.nonempty == ne)
        expect = run.fold_term(ATTR, [seg])
    elif kind == 2:
        vals = SymList([seg])
        expect = run.fold_term(ATTR, [seg])
    else:
        # an iterator or generator of pairs
        vals = SymTuple([seg], kind="generator")
        expect = run.fold_term(ATTR, [seg])
    r = run.call(f, [vals], {})
    if isinstance(r, str):
        run.ensure("the result is markup of every attribute, once, in order", SV(r) == expect)
    else:
        run.ensure("the result is the buffer that was written", any(r is b for b in bufs))
        run.ensure("the result is markup of every attribute, once, in order", r.ghost["content"] == expect)


@unit("bind", ["C09", "C06"], RP + ":bind")
def _(run):
    f = fn(RP + ":bind")
    ctx = dict_unknown(run, "context")
    block = run.pick(2)
    name = run.str("name", input=True)
    func = opaque(run, "func")
    fname = mks(concat(SV("__TK__block__"), name.t)) if block else name
    func.ghost["getattr"] = lambda run, v, a: fname if a in ("__name__", "__qualname__") else MISSING
    if block:
        run.assume(NOT(z3.Contains(name.t, SV("__TK__block__"))))
    other = run.str("other", input=True)
    run.assume(other.t != name.t)
    before = models.dict_find(run, ctx, name)
    before_other = models.dict_find(run, ctx, other)
    deco = run.call(f, [ctx], dict(block=True) if block else {})
    r = run.call(deco, [func], {})
    after = models.dict_find(run, ctx, name)
    if before is MISSING:
        run.ensure("a name nobody defined is bound to this function", after is func and r is func)
    else:
        run.ensure("a name already defined keeps its value, which replaces the function", after is before and r is before)
    run.ensure("no other name of the context changes", models.dict_find(run, ctx, other) is before_other)
    f2 = opaque(run, "func2")
    f2.ghost["getattr"] = func.ghost["getattr"]
    run.ensure("the first definition wins", run.call(deco, [f2], {}) is after and models.dict_find(run, ctx, name) is after)


@unit("import_defs", ["C10", "C11"], RP + ":TonnikalaRuntime.import_defs", trusted=["Template.bind(context) changes nothing but the mapping it is given"])
def _(run):
    """for an arbitrary name K: the alias has K exactly when the imported template gave the copied context a value for
    K that the importing context does not have, and it is that value"""
    f = fn(RP + ":TonnikalaRuntime.import_defs")
    K = run.str("K", input=True)
    ctx = dict_unknown(run, "context")
    href = run.str("href", input=True)
    loaded, state = [], {}

    def bind(run, a, k):
        d = a[0]
        state["bound"] = d
        run.ensure("the imported template is bound to a copy, not to the importing context", d is not ctx)
        orig = models.dict_copy(run, d)
        has = run.fork(z3.Bool("imported template provides K"))
        was = models.dict_find(run, orig, K)
        if has:
            keeps = run.pick(2) if was is not MISSING else 0
            V2 = was if keeps else opaque(run, "definition")
        else:
            V2 = MISSING
        state["V2"] = V2

        def pair(run, nm):
            k = run.str(nm + ".key")
            if run.fork(k.t == K.t):
                if V2 is MISSING:
                    from pyvc.vm import Infeasible
                    raise Infeasible()
                return (k, V2)
            return (k, opaque(run, nm))
        seg = Seg("definitions", pair)
        state["seg"] = seg
        b = DictBase("modified", lambda run, key, nm: opaque(run, nm))
        b.memo.append((K, V2 is not MISSING, V2))
        b.seg = lambda run: seg
        run.mutate(d)
        d.base, d.writes = b, []
        HASK_seg = run.fold_term(HASK, [seg])
        run.assume(HASK_seg == (V2 is not MISSING))
    tmpl = opaque(run, "template", getattr=lambda run, v, a: Native(bind) if a == "bind" else MISSING)

    def load(run, a, k):
        loaded.append(a[0])
        return tmpl
    loader = opaque(run, "loader", getattr=lambda run, v, a: Native(load) if a == "load" else MISSING)
    rt = Obj(cls(RP + ":TonnikalaRuntime"), dict(loader=loader))
    HASK = Fold("hasK", "any", lambda run, p: zs(p[0]) == K.t)
    conts = []
    IT = cls(RP + ":ImportedTemplate")
    stub(run, RP + ":ImportedTemplate", lambda run, a, k: conts.append(run.init_obj(Obj(IT), a, k)) or conts[-1])

    def want(items):
        V2 = state["V2"]
        if V2 is MISSING:
            return z3.BoolVal(False)
        c = models.dict_find(run, ctx, K)
        if c is V2:
            return z3.BoolVal(False)
        same = False if c is MISSING else run.is_(c, V2)
        return A(run.fold_term(HASK, items), NOT(zb(same)))

    def has(o):
        if o.dyn is None:
            return MISSING
        return models.dict_find(run, o.dyn, K)

    def havoc(c):
        o = conts[0]
        c.modifies(o)
        present = run.fork(z3.Bool(run.name("set so far")))
        b = DictBase("attrs", lambda run, key, nm: opaque(run, nm))
        b.memo.append((K, present, state["V2"] if present else MISSING))
        o.dyn = SymDict(base=b)

    def inv(c):
        if len(conts) != 1:
            raise Unsupported("not one container")
        h = has(conts[0])
        w = want(c.pre)
        out = [("the names set so far", w if h is not MISSING else NOT(w))]
        if h is not MISSING:
            out.append(("the values set so far", h is state["V2"]))
        return out

    def facts(c):
        if c.exit:
            return []
        return [NOT(A(run.fold_term(HASK, c.pre), zs(c.x[0]) == K.t))]      # keys of a mapping are distinct
    run.loops["definitions"] = Loop(havoc, inv, facts=facts)
    before = models.dict_find(run, ctx, K)
    nw = len(ctx.writes)
    r = run.call(f, [rt, ctx, href], {})
    run.ensure_eq("the named template is loaded", loaded[0] if len(loaded) == 1 else None, href)
    run.ensure("the result is the container", len(conts) == 1 and r is conts[0])
    h, w = has(r), want([state["seg"]])
    run.ensure("K is exposed exactly when the imported template defines or changes it", w if h is not MISSING else NOT(w))
    if h is not MISSING:
        run.ensure("K is exposed with the imported definition", h is state["V2"])
    run.ensure("importing leaves the importing context unchanged", len(ctx.writes) == nw and models.dict_find(run, ctx, K) is before)


@unit("ImportedTemplate.getattr", ["C10"], RP + ":ImportedTemplate.__getattr__")
def _(run):
    name = run.str("name")
    o = run.call(cls(RP + ":ImportedTemplate"), [name], {})
    try:
        run.getattr(o, "some_other_name")
        run.ensure("a name the template does not define is an attribute error", False)
    except PyExc as e:
        run.ensure("a name the template does not define is an attribute error", run.isinstance(e.value, AttributeError))
