"""tonnikala.pyramid: lookup, rendering and settings"""
import os
import time
from .lib import *
from .k_loader import filesystem, file_loader, raising, same_items, EXISTS, ISABS, ABSP, JOINP, T_FS

PM = "tonnikala.pyramid"
RES = z3.Function("resource_filename", StrS, StrS, StrS)
RESOK = z3.Function("has resource", StrS, StrS, z3.BoolSort())
T_RES = "pkg_resources.resource_filename is a function of its arguments or raises an exception"


def resources(run):
    import pkg_resources

    def rf(run, a, k):
        m, p = zs(a[0]), zs(a[1])
        if not run.fork(RESOK(m, p)):
            run.throw(ImportError, "no module")
        return mks(RES(m, p))
    run.models[pkg_resources.resource_filename] = rf


@unit("PyramidTonnikalaLoader.resolve", ["C18"], PM + ":PyramidTonnikalaLoader.resolve", trusted=[T_FS, T_RES, "FileLoader.resolve by its contract (unit FileLoader.resolve)"])
def _(run):
    filesystem(run)
    resources(run)
    run.models[time.time] = lambda run, a, k: run.int("time")
    ld = run.used(run.call(cls(PM + ":PyramidTonnikalaLoader"), [], {}))
    name = run.str("name", input=True)

    def path(run, nm):
        m = None if run.pick(2) else run.str(nm + ".module", input=True)
        if m is not None:
            # a module that exists: otherwise the configuration is in error
            run.assume(m.t != SV(""))
        return (m, run.str(nm + ".directory", input=True))
    seg = Seg("search_paths", path)
    ld.fields["search_paths"] = SymList([seg])
    fallback = [None, run.str("fallback")][run.pick(2)]
    asked = []

    def super_resolve(run, a, k):
        asked.append(a[1])
        return fallback
    stub(run, "tonnikala.loader:FileLoader.resolve", super_resolve)
    colon = run.fork(z3.Contains(name.t, SV(":")))
    spec_m, spec_p = [zs(x) for x in models.first_split(run, name.t, ":")] if colon else (SV(""), SV(""))
    asset = A(z3.BoolVal(colon), RESOK(spec_m, spec_p))
    target = RES(spec_m, spec_p)
    # the name that the search paths see: the file of the asset specification, when there is one
    def cand(p, nm):
        j = JOINP(zs(p[1]), nm)
        return j if p[0] is None else RES(zs(p[0]), j)
    eff = z3.If(asset, target, name.t)
    NONE = Fold("no candidate", "all", lambda run, p: NOT(EXISTS(cand(p, eff))))
    st = {}

    def inv(ctx):
        st["ctx"] = ctx
        return [("no candidate before exists", run.fold_term(NONE, ctx.pre))]

    def facts(ctx):
        if ctx.exit or ctx.x[0] is None:
            return []
        return [RESOK(zs(ctx.x[0]), JOINP(zs(ctx.x[1]), eff))]
    run.loops["search_paths"] = Loop(lambda ctx: None, inv, facts=facts)
    r = run.call(run.getattr(ld, "resolve"), [name], {})
    c = st.get("ctx")
    first = A(asset, target != SV(""), EXISTS(target))
    if c is None:
        run.ensure("without looking at the search paths the file of the asset specification is returned, which exists", A(first, zs(r) == target) if r is not None else False)
    elif not c.exit:
        run.ensure("the first existing candidate of the search paths", A(NOT(first), zs(r) == cand(c.x, eff), EXISTS(zs(r)), run.fold_term(NONE, c.pre)) if r is not None else False)
    else:
        run.ensure("else what the plain lookup gives", r is fallback and len(asked) == 1)
        run.ensure("for the same name", zs(asked[0]) == eff)
        run.ensure("only when no candidate exists", A(NOT(first), run.fold_term(NONE, [seg])))


@unit("PyramidTonnikalaLoader.add_search_path", ["C18"], PM + ":PyramidTonnikalaLoader.add_search_path")
def _(run):
    run.models[time.time] = lambda run, a, k: run.int("time")
    fac = run.call(cls(PM + ":TonnikalaRendererFactory"), [], {})
    ld = run.getattr(fac, "loader")
    run.ensure("a new loader has no search path and is a file loader with the Tonnikala syntax", run.iter_items(ld.fields["search_paths"]) == [] and run.isinstance(ld, cls("tonnikala.loader:FileLoader")) and ld.fields["syntax"] == "tonnikala")
    pairs = [([None, run.str("m%d" % i)][run.pick(2)], run.str("d%d" % i)) for i in range(3)]
    for m, d in pairs:
        run.call(run.getattr(fac, "add_search_path"), [m, d], {})
    got = run.iter_items(ld.fields["search_paths"])
    run.ensure("search paths are kept in the order they were added", len(got) == 3 and all(run.iter_items(g)[0] is p[0] and run.iter_items(g)[1] is p[1] for g, p in zip(got, pairs)))


@unit("TonnikalaTemplateRenderer", ["C18"], PM + ":TonnikalaTemplateRenderer.__call__")
def _(run):
    system = dict_unknown(run, "system")
    how = run.pick(4)           # mapping, something update() rejects with TypeError / ValueError, mapping for a fragment
    frag = how == 3 or run.pick(2) == 1
    fragment_call = how == 3
    name = run.str("renderer_name", input=True)
    K = run.str("K", input=True)
    if fragment_call:
        sysname = run.str("tmpl", input=True)
    else:
        models.setitem(run, system, "renderer_name", name)
        sysname = name
    if how in (1, 2):
        value = opaque(run, "value", update=lambda run, d, o: run.throw(TypeError if how == 1 else ValueError, "no mapping"))
    else:
        value = dict_unknown(run, "value")
    s0 = models.dict_find(run, system, K) if not run.fork(K.t == SV("renderer_name")) else sysname
    v0 = models.dict_find(run, value, K) if isinstance(value, SymDict) else MISSING
    ev = []
    markup, text = opaque(run, "markup"), run.str("text")
    markup.memo["strval"] = text if hasattr(markup, "memo") else None

    def render(run, a, k):
        ev.append("render")
        ctx = a[0]
        got = models.dict_find(run, ctx, K)
        run.ensure("the view's value of a name counts, else the system's", got is (s0 if v0 is MISSING else v0))
        return markup
    tmpl = opaque(run, "template", getattr=lambda run, v, at: Native(render) if at == "render" else MISSING)

    def load(run, a, k):
        ev.append("load")
        run.ensure("the template loaded is the one named by the renderer name, whatever the view returns", a[0] is sysname)
        return tmpl
    loader = opaque(run, "loader", getattr=lambda run, v, at: Native(load) if at == "load" else MISSING)
    r = run.used(run.call(cls(PM + ":TonnikalaTemplateRenderer"), [opaque(run, "info"), loader], dict(debug=run.bool("debug"))), "loader")
    if fragment_call:
        res, e = raising(run, lambda: run.call(run.getattr(r, "fragment"), [sysname, value, system], {}))
    else:
        res, e = raising(run, lambda: run.call(r, [value, system], dict(fragment=True) if frag else {}))
    if how in (1, 2):
        run.ensure("a view result that is no mapping is rejected with a ValueError", e is not None and run.isinstance(e, ValueError) and "render" not in ev)
        return
    run.ensure("rendered once, after loading", e is None and ev == ["load", "render"])
    if frag:
        run.ensure("a fragment is the markup itself", res is markup)
    else:
        run.ensure("the result is the text of the markup", run.is_strlike(res))
        run.ensure_eq("all of it", res, models.to_str(run, markup))


@unit("TonnikalaRendererFactory", ["C18"], PM + ":TonnikalaRendererFactory.__call__")
def _(run):
    run.models[time.time] = lambda run, a, k: run.int("time")
    fac = run.call(cls(PM + ":TonnikalaRendererFactory"), [], {})
    ld = run.getattr(fac, "loader")
    f, g = run.bool("l10n", input=True), run.bool("reload", input=True)
    run.call(run.getattr(fac, "set_l10n"), [f], {})
    run.call(run.getattr(fac, "set_reload"), [g], {})
    run.ensure("translation as set", run.truth_term(ld.fields["translatable"]) == f.t)
    run.ensure("reload as set", run.truth_term(ld.fields["reload"]) == g.t)
    info = opaque(run, "info")
    r = run.call(fac, [info], {})
    run.ensure("its renderers use the configured loader", run.getattr(r, "loader") is ld and run.getattr(fac, "loader") is ld)


def registry(run, **settings):
    """config object with a recording factory"""
    log = []
    fac = opaque(run, "factory", getattr=lambda run, v, at: Native(lambda run, a, k: log.append((at, a, k))) if at in ("add_search_path", "set_reload", "set_l10n") else MISSING)
    reg = opaque(run, "registry", getattr=lambda run, v, at: fac if at == "tonnikala_renderer_factory" else MISSING)
    cfg = opaque(run, "config", getattr=lambda run, v, at: reg if at == "registry" else Native(lambda run, a, k: log.append((at, a, k))) if at == "add_renderer" else MISSING)
    return cfg, fac, log


@unit("add_tonnikala_extensions", ["C18"], PM + ":add_tonnikala_extensions")
def _(run):
    cfg, fac, log = registry(run)
    exts = [run.str("e%d" % i, input=True) for i in range(run.pick(3))]
    run.call(fn(PM + ":add_tonnikala_extensions"), [cfg] + exts, {})
    run.ensure("every extension is registered", len(log) == len(exts) and all(x[0] == "add_renderer" and x[1][1] is fac for x in log))
    for e, (n, a, k) in zip(exts, log):
        run.ensure("with one leading dot", zs(a[0]) == z3.If(z3.PrefixOf(SV("."), e.t), e.t, concat(SV("."), e.t)))


@unit("add_tonnikala_search_paths", ["C18"], PM + ":add_tonnikala_search_paths")
def _(run):
    cfg, fac, log = registry(run)
    ps = [run.str("p%d" % i, input=True) for i in range(run.pick(3))]
    run.call(fn(PM + ":add_tonnikala_search_paths"), [cfg] + ps, {})
    run.ensure("every path is added, in order", len(log) == len(ps) and all(x[0] == "add_search_path" for x in log))
    for p, (n, a, k) in zip(ps, log):
        colon = run.fork(z3.Contains(p.t, SV(":")))
        before, rest = [zs(x) for x in models.first_split(run, p.t, ":")] if colon else (p.t, SV(""))
        m, d = a[0], a[1]
        if m is None:
            run.ensure("a path without a package is a plain directory", A(rest == SV(""), zs(d) == before))
        else:
            run.ensure("package and directory are the parts around the first colon", A(rest != SV(""), zs(m) == before, zs(d) == rest))


@unit("set_tonnikala_flags", ["C18"], PM + ":set_tonnikala_reload")
def _(run):
    which, meth = [("set_tonnikala_reload", "set_reload"), ("set_tonnikala_l10n", "set_l10n")][run.pick(2)]
    cfg, fac, log = registry(run)
    f = run.bool("flag", input=True)
    run.call(fn(PM + ":" + which), [cfg, f], {})
    run.ensure("the flag reaches the factory", len(log) == 1 and log[0][0] == meth and log[0][1][0] is f)


@unit("includeme", ["C18"], PM + ":includeme", trusted=["pyramid.settings.asbool and aslist are functions of their arguments", "the directives do what their functions do (units add_tonnikala_*, set_tonnikala_*)"])
def _(run):
    import pyramid.settings
    run.models[time.time] = lambda run, a, k: run.int("time")
    made, log = {}, []
    again = run.pick(2)
    reg_fields = {}
    if again:
        reg_fields["tonnikala_renderer_factory"] = opaque(run, "factory before")
    st = SymDict(base=DictBase("settings", lambda run, key, nm: opaque(run, nm), total=True)) if False else dict_unknown(run, "settings")
    names = ["tonnikala.extensions", "tonnikala.search_paths", "tonnikala.reload", "pyramid.reload_templates", "tonnikala.l10n"]
    val = {}
    for n in names:
        kind = run.pick(4)
        if kind == 0:
            v = MISSING
        elif kind == 1:
            v = run.str(n + " setting", input=True) if n in names[:2] else run.bool(n + " setting", input=True)
        elif kind == 2:
            v = SymList([run.str(n + " 1"), run.str(n + " 2")]) if n in names[:2] else None
        else:
            v = (run.str(n + " 1"),) if n in names[:2] else run.str(n + " text", input=True)
        val[n] = v
        st.base.memo.append((n, v is not MISSING, v))
    asb = lambda v: z3.Function("asbool_str", StrS, z3.BoolSort())(zs(v)) if run.is_strlike(v) else zb(v) if isinstance(v, (bool, SymBool)) else z3.BoolVal(False)
    run.models[pyramid.settings.asbool] = lambda run, a, k: mkb(asb(a[0]))

    def aslist(run, a, k):
        run.ensure("a list setting may span lines", (a[1] if len(a) > 1 else k.get("flatten", True)) is True)
        made[id(a[0])] = l = SymList([run.str("item 1"), run.str("item 2")])
        return l
    run.models[pyramid.settings.aslist] = aslist

    class Reg:
        pass
    R = Obj(cls(PM + ":TonnikalaRendererFactory"), {}, name="registry")
    R.kinds = [Reg]
    R.fields.update(reg_fields, settings=st)
    directives = {}

    def cfg_attr(run, v, at):
        if at == "registry":
            return R
        if at == "add_directive":
            return Native(lambda run, a, k: directives.__setitem__(a[0], a[1]))
        if at in directives:
            return Native(lambda run, a, k: log.append((at, list(a), directives[at])))
        return MISSING
    cfg = opaque(run, "config", getattr=cfg_attr)
    run.call(fn(PM + ":includeme"), [cfg], {})
    if again:
        run.ensure("including twice changes nothing", not log and not directives and R.fields["tonnikala_renderer_factory"] is reg_fields["tonnikala_renderer_factory"])
        return
    fac = R.fields.get("tonnikala_renderer_factory")
    run.ensure("a factory is registered", isinstance(fac, Obj) and fac.kinds[0] is cls(PM + ":TonnikalaRendererFactory"))
    for d in ("add_tonnikala_extensions", "add_tonnikala_search_paths", "set_tonnikala_reload", "set_tonnikala_l10n"):
        f = directives.get(d)
        run.ensure("directive %s is that function" % d, getattr(f, "__name__", getattr(getattr(f, "node", None), "name", None)) == d)
    for n, d in (("tonnikala.extensions", "add_tonnikala_extensions"), ("tonnikala.search_paths", "add_tonnikala_search_paths")):
        calls = [x for x in log if x[0] == d]
        v = val[n]
        if v is MISSING:
            run.ensure("no %s without the setting" % n, not calls)
        else:
            # a list is taken as it is: the items of aslist are those of a text
            want = list(v.items) if isinstance(v, SymList) else list(v) if isinstance(v, tuple) else list(made[id(v)].items) if id(v) in made else None
            got = [y for x in calls for y in x[1]]
            run.ensure("the %s of the setting, in order" % n, want is not None and same_items(got, want))
    rl = [x for x in log if x[0] == "set_tonnikala_reload"]
    ll = [x for x in log if x[0] == "set_tonnikala_l10n"]
    tk, py = val["tonnikala.reload"], val["pyramid.reload_templates"]
    eff = tk if tk is not MISSING and tk is not None else py
    run.ensure("reload is set once", len(rl) == 1)
    run.ensure("reload as its own setting says, else Pyramid's", run.truth_term(rl[0][1][0]) == (z3.BoolVal(False) if eff is MISSING or eff is None else asb(eff)))
    l = val["tonnikala.l10n"]
    run.ensure("translation is set once", len(ll) == 1)
    run.ensure("translation as the setting says", run.truth_term(ll[0][1][0]) == (z3.BoolVal(False) if l is MISSING or l is None else asb(l)))
