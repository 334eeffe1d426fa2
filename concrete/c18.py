"""C18: the Pyramid integration."""
import os, random, shutil, sys
from . import common
from .common import Failure, attempt

N = [0]


def wd():
    N[0] += 1
    d = os.path.join(common.scratch(), "pyr%d-%d" % (os.getpid(), N[0]))
    os.makedirs(d)
    return d


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def pkg(d, name):
    put(os.path.join(d, name, "__init__.py"), "")
    if d not in sys.path:
        sys.path.append(d)
    return name


def config(settings=None):
    from pyramid import testing
    c = testing.setUp(settings=dict(settings or {}))
    c.include("tonnikala.pyramid")
    return c


def render(c, name, value, request=None):
    """through Pyramid's own renderer lookup"""
    from pyramid.renderers import render as prender
    from pyramid.testing import DummyRequest
    return prender(name, value, request=request or DummyRequest())


def lookup(t, rnd):
    """which file a renderer name denotes"""
    from pyramid import testing
    while not t.over():
        d = wd()
        pk = pkg(d, "tkpk%d_%d" % (os.getpid(), N[0]))
        pk2 = pkg(d, "tkpq%d_%d" % (os.getpid(), N[0]))
        places = {"s1": os.path.join(d, "s1"), "s2": os.path.join(d, "s2"), "p1": os.path.join(d, pk, "tpl"), "p2": os.path.join(d, pk2, "tpl"), "p3": os.path.join(d, pk, "t:x"), "p4": os.path.join(d, pk), "cwd": os.path.join(d, "cwd"), "path": os.path.join(d, "fp")}
        for p in places.values():
            os.makedirs(p, exist_ok=True)
        names = ["a.tk", "b.tk", "x/c.tk", "d.tk"]
        have = {}
        for k, p in places.items():
            for n in names:
                if rnd.random() < .45:
                    put(os.path.join(p, n), "<r>%s %s $a</r>" % (k, n))
                    have[k, n] = 1
        order = rnd.sample(["s1", "s2", "p1", "p2", "p3", "p4"], rnd.randint(0, 4))
        spec = {"s1": places["s1"], "s2": places["s2"], "p1": pk + ":tpl", "p2": pk2 + ":tpl", "p3": pk + ":t:x", "p4": pk + ":."}
        via = rnd.choice(["settings", "list", "directive", "mixed", "tuple"])
        st = {"tonnikala.extensions": rnd.choice([".tk", "tk", [".tk"], ("tk",)])}
        if via == "settings" and order:
            st["tonnikala.search_paths"] = rnd.choice(["\n", " ", "\n   "]).join(spec[o] for o in order)
        elif via == "list":
            st["tonnikala.search_paths"] = [spec[o] for o in order]
        elif via == "tuple":
            st["tonnikala.search_paths"] = tuple(spec[o] for o in order)
        elif via == "mixed" and order:
            st["tonnikala.search_paths"] = [spec[order[0]]]
        fp = rnd.random() < .4
        old = os.getcwd()
        try:
            c = config(st)
            if via == "directive":
                if rnd.random() < .5:
                    c.add_tonnikala_search_paths(*[spec[o] for o in order])
                else:
                    for o in order:
                        c.add_tonnikala_search_paths(spec[o])
            elif via == "mixed" and order:
                c.add_tonnikala_search_paths(*[spec[o] for o in order[1:]])
            if fp:
                c.registry.tonnikala_renderer_factory.loader.add_path(places["path"])
            os.chdir(places["cwd"])
            for n in rnd.sample(names, 4) + [pk + ":tpl/a.tk", pk + ":tpl/b.tk", pk2 + ":tpl/x/c.tk", os.path.join(places["s1"], "a.tk"), os.path.join(places["cwd"], "b.tk")]:
                if ":" in n:
                    k = "p1" if n.startswith(pk + ":") else "p2"
                    exp = (k, n.split("tpl/")[1]) if (k, n.split("tpl/")[1]) in have else None
                elif os.path.isabs(n):
                    k = "s1" if n.startswith(places["s1"]) else "cwd"
                    exp = (k, os.path.basename(n)) if (k, os.path.basename(n)) in have else None
                else:
                    exp = next(((o, n) for o in order if (o, n) in have), None)
                    if exp is None and fp and ("path", n) in have:
                        exp = ("path", n)
                inp = dict(name=n, search_paths=[spec[o] for o in order], given_by=via, files=sorted(have), settings=st)
                t.arm(inp)
                got = attempt(lambda: render(c, n, {"a": "<"}))
                if exp is None:
                    if got[0] == "ok":
                        raise Failure("template of a renderer name", inp, "not found", got[1])
                    if not isinstance(got[1], (OSError, ValueError)):
                        raise Failure("a template that does not exist", inp, "an error", repr(got[1]))
                else:
                    e = "<r>%s %s &lt;</r>" % exp
                    if got != ("ok", e):
                        raise Failure("template of a renderer name", inp, e, got[1] if got[0] == "ok" else repr(got[1]))
                t.add((n, tuple(order), via, exp), sample=str(inp)[:300])
        finally:
            os.chdir(old)
            testing.tearDown()
            shutil.rmtree(d)


class Pairs:
    def __init__(self, d):
        self.d = d

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        return self.d[k]


def values(t, rnd):
    """the view's values override the system values; what is not a mapping is refused"""
    from pyramid import testing
    from markupsafe import Markup
    import collections, types
    d = wd()
    try:
        c = config({"tonnikala.extensions": ".tk"})
        put(os.path.join(d, "a.tk"), "<r>$v</r>")
        put(os.path.join(d, "sys.tk"), "<r>${type(view).__name__} $renderer_name ${context.q} ${request.marker} ${req is request}</r>")
        put(os.path.join(d, "sys2.tk"), "<r>$view $renderer_name $context $request $req</r>")
        A, S, S2 = [os.path.join(d, x) for x in ("a.tk", "sys.tk", "sys2.tk")]
        from pyramid.renderers import RendererHelper
        from pyramid.testing import DummyRequest

        class Ctx:
            q = "ctx<"

        def view():
            pass

        def r(name, value):
            rq = DummyRequest()
            rq.marker = "rq&"
            rq.context = Ctx()
            h = RendererHelper(name=name, package=None, registry=c.registry)
            system = dict(view=view, renderer_name=name, renderer_info=h, context=rq.context, request=rq, req=rq)
            return h.render(value, system, request=rq)
        for v in ["<a>", 5, None, Markup("<b>"), ""]:
            for mk in (lambda v: {"v": v}, lambda v: [("v", v)], lambda v: (["v", v], ["other", 1]), lambda v: [("v", 7), ("v", v)], lambda v: Pairs({"v": v}), lambda v: collections.OrderedDict(v=v), lambda v: iter([("v", v)]), lambda v: types.MappingProxyType({"v": v})):
                from markupsafe import escape
                val = mk(v)
                got = attempt(lambda: r(A, mk(v)))
                e = "<r>%s</r>" % escape(v)
                if got != ("ok", e) or type(got[1]) is not str:
                    raise Failure("the view's values in the template", ("a.tk", repr(mk(v))), e, got[1])
                t.add((repr(v), type(val).__name__))
        e = "<r>function %s ctx&lt; rq&amp; True</r>" % S
        got = attempt(lambda: r(S, {}))
        if got != ("ok", e):
            raise Failure("the system values in the template", "sys.tk", e, got[1])
        for k in range(32):
            val = {n: "V%d<" % i for i, n in enumerate(["view", "renderer_name", "context", "request", "req"]) if k >> i & 1}
            got = attempt(lambda: r(S2, dict(val)))
            if got[0] != "ok":
                raise Failure("the view's values override the system values", (val,), "a result", repr(got[1]))
            parts = [("V%d&lt;" % i) if k >> i & 1 else None for i in range(5)]
            import re
            words = re.match(r"<r>(.*)</r>\Z", got[1], re.S).group(1)
            for i, p in enumerate(parts):
                if (p is not None) != ("V%d&lt;" % i in words):
                    raise Failure("the view's values override the system values", (val,), p, words)
            if not k & 2 and S2 not in words:
                raise Failure("the system values in the template", (val,), S2, words)
            t.add(k)
        for bad in [None, 5, "abc", "ab", ["a", "b"], [1], object(), True, 3.5, [("a",)], ["abc"], {1, 2}, (1, 2, 3), b"xy", lambda: 0]:
            got = attempt(lambda: r(A, bad))
            if got[0] == "ok" or type(got[1]) is not ValueError and not isinstance(got[1], ValueError):
                raise Failure("a view result that is not a mapping", repr(bad), "ValueError", got[1] if got[0] == "ok" else repr(got[1]))
            t.add(repr(type(bad)), sample=repr(bad)[:60])
        # the same renderer twice, and errors inside the template are not turned into ValueErrors
        put(os.path.join(d, "err.tk"), "<r>${boom()}</r>")
        for ex in (TypeError("t"), ValueError("v"), KeyError("k")):
            def boom():
                raise ex
            got = attempt(lambda: r(os.path.join(d, "err.tk"), {"boom": boom}))
            if got[0] == "ok" or got[1] is not ex:
                raise Failure("an error of the template", repr(ex), repr(ex), repr(got[1]))
        for i in range(3):
            got = attempt(lambda: r(A, {"v": i}))
            if got != ("ok", "<r>%d</r>" % i):
                raise Failure("rendered again", i, "<r>%d</r>" % i, got[1])
        # fragments
        f = c.registry.tonnikala_renderer_factory(None)
        put(os.path.join(d, "f.tk"), "<r>$v <b>x</b></r>")
        F = os.path.join(d, "f.tk")
        for value, system in (({"v": "<"}, {}), ({"v": "<"}, {"renderer_name": "other.tk", "x": 1}), ({}, {"v": "<"}), ({"v": "<"}, {"v": "sys"})):
            got = attempt(lambda: f.fragment(F, value, dict(system)))
            if got[0] != "ok" or str(got[1]) != "<r>&lt; <b>x</b></r>":
                raise Failure("a fragment", (value, system), "<r>&lt; <b>x</b></r>", got[1])
            got = attempt(lambda: f(dict(value), dict(system, renderer_name=F)))
            if got[0] != "ok" or type(got[1]) is not str or got[1] != "<r>&lt; <b>x</b></r>":
                raise Failure("a rendered template is a string", (value, system), "<r>&lt; <b>x</b></r>", got[1])
        for bad in (None, 5, "abc"):
            got = attempt(lambda: f.fragment(F, bad, {}))
            if got[0] == "ok" or not isinstance(got[1], ValueError):
                raise Failure("a view result that is not a mapping", repr(bad), "ValueError", got[1])
    finally:
        testing.tearDown()
        shutil.rmtree(d)


TRUE = ["true", "yes", "on", "1", "t", "y", True, 1, "TRUE", " true "]
FALSE = ["false", "no", "off", "0", "f", "", False, 0, None, "nope"]


def settings(t, rnd):
    """settings take effect as given"""
    from pyramid import testing
    from pyramid.interfaces import IRendererFactory
    import time
    d = wd()
    put(os.path.join(d, "a.tk"), "<r>hello <b title=\"tt\">w</b></r>")

    def tr(s):
        return "T(%s)" % s
    try:
        # extensions
        for given, exts in [(".tk", [".tk"]), ("tk", [".tk"]), (".tk .html", [".tk", ".html"]), ("tk\nhtml\n.xhtml", [".tk", ".html", ".xhtml"]), (["tk", ".q"], [".tk", ".q"]), (("pt",), [".pt"]), ("", []), ([], []), ({"tk"}, [".tk"]), (".t.k", [".t.k"]), ("t.k", [".t.k"]), ("a.b .c.d\ne.f.g", [".a.b", ".c.d", ".e.f.g"]), (iter(["a1", ".b1"]), [".a1", ".b1"]), ("tk tk", [".tk"])]:
            rep = repr(given)
            try:
                c = attempt(lambda: config({"tonnikala.extensions": given}))
                if c[0] == "exc":
                    raise Failure("extensions", rep, exts, repr(c[1]))
                c = c[1]
                fac = c.registry.tonnikala_renderer_factory
                have = sorted(n for n, u in c.registry.getUtilitiesFor(IRendererFactory) if u is fac)
                if have != sorted(exts):
                    raise Failure("extensions of the tonnikala renderer", rep, sorted(exts), have)
                t.add(rep, sample=rep)
            finally:
                testing.tearDown()
        for ext in ("zz", ".zz"):
            c = config()
            c.add_tonnikala_extensions(ext, "ww", ".vv")
            fac = c.registry.tonnikala_renderer_factory
            have = sorted(n for n, u in c.registry.getUtilitiesFor(IRendererFactory) if u is fac)
            testing.tearDown()
            if have != [".vv", ".ww", ".zz"]:
                raise Failure("extensions of the tonnikala renderer", ext, [".vv", ".ww", ".zz"], have)
        # reload and translation
        grid = []
        for v in TRUE + FALSE:
            b = v in TRUE if not isinstance(v, (int, type(None))) else bool(v)
            grid += [({"tonnikala.reload": v}, None if v is None else b, False), ({"tonnikala.l10n": v}, False, b), ({"pyramid.reload_templates": v}, b, False)]
        for a in ("true", "false", True, False):
            for b_ in ("true", "false", True, False):
                grid.append(({"tonnikala.reload": a, "pyramid.reload_templates": b_, "tonnikala.l10n": b_}, a in ("true", True), b_ in ("true", True)))
                grid.append(({"tonnikala.l10n": a, "pyramid.reload_templates": b_}, b_ in ("true", True), a in ("true", True)))
        grid.append(({}, False, False))
        for st, rl, tl in grid:
            s = dict(st, **{"tonnikala.extensions": "tk"})
            try:
                c = attempt(lambda: config(s))
                if c[0] == "exc":
                    raise Failure("settings", st, "accepted", repr(c[1]))
                c = c[1]
                A = os.path.join(d, "a.tk")
                put(A, "<r>hello <b title=\"tt\">w</b></r>")
                out = attempt(lambda: render(c, A, {"gettext": tr}))
                e = '<r>T(hello) <b title="T(tt)">T(w)</b></r>' if tl else '<r>hello <b title="tt">w</b></r>'
                if out != ("ok", e):
                    raise Failure("translation setting", st, e, out[1])
                if rl is not None:
                    put(A, "<r>changed</r>")
                    os.utime(A, (time.time() + 100, time.time() + 100))
                    lo = c.registry.tonnikala_renderer_factory.loader
                    if not hasattr(lo, "_last_reload_check"):
                        time.sleep(.3)
                    else:
                        lo._last_reload_check = 0
                    out = attempt(lambda: render(c, A, {"gettext": lambda x: x}))
                    e = "<r>changed</r>" if rl else e.replace("T(hello)", "hello").replace("T(tt)", "tt").replace("T(w)", "w")
                    if out != ("ok", e):
                        raise Failure("reload setting", st, e, out[1])
                t.add(str(st), sample=str(st))
            finally:
                testing.tearDown()
        # directives override the settings
        for flag in (True, False):
            for st in ({"tonnikala.reload": "true", "tonnikala.l10n": "true"}, {}):
                c = config(dict(st, **{"tonnikala.extensions": "tk"}))
                c.set_tonnikala_reload(flag)
                c.set_tonnikala_l10n(flag)
                A = os.path.join(d, "b.tk")
                put(A, "<r>hello</r>")
                out = attempt(lambda: render(c, A, {"gettext": tr}))
                lo = c.registry.tonnikala_renderer_factory.loader
                put(A, "<r>changed</r>")
                os.utime(A, (time.time() + 100, time.time() + 100))
                lo._last_reload_check = 0
                out2 = attempt(lambda: render(c, A, {"gettext": lambda x: x}))
                e = ("<r>T(hello)</r>", "<r>changed</r>") if flag else ("<r>hello</r>", "<r>hello</r>")
                testing.tearDown()
                if (out[1], out2[1]) != e:
                    raise Failure("directives for reload and translation", (flag, st), e, (out[1], out2[1]))
        # included twice
        c = config({"tonnikala.extensions": "tk", "tonnikala.search_paths": d, "tonnikala.l10n": "true"})
        fac = c.registry.tonnikala_renderer_factory
        from tonnikala.pyramid import includeme
        includeme(c)
        if c.registry.tonnikala_renderer_factory is not fac:
            raise Failure("included a second time", "includeme", "the same factory", "another")
        put(os.path.join(d, "a.tk"), "<r>hello</r>")
        out = attempt(lambda: render(c, "a.tk", {"gettext": tr}))
        if out != ("ok", "<r>T(hello)</r>"):
            raise Failure("included a second time", "includeme", "<r>T(hello)</r>", out[1])
        testing.tearDown()
    finally:
        testing.tearDown()
        shutil.rmtree(d)


PARTS = [("lookup", lookup, 2), ("values", values, 1), ("settings", settings, 1)]
