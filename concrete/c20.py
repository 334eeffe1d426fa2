"""C20: JavaScript templates against the Python templates they mirror."""
import json, random
from . import common, tree, gen, render
from .common import Failure, attempt
from .node import Node
from .tree import *

TEXTS = ["a", "b", "n", "m", "e", "s", "o.p", "o.q.r[1]", "o.q.r[2]['k']", "a + b", "l[1]", "d['k']", "d.k", "f(a)", "f('}')", "[a, b][1]", "\"it's\"", "'\"'", "\"}\" + '{'", "f(a + 'x')", "m + 3", "(a)", "m - 20", "f(f(s))", "l[0] + d.k", "'\\\\'", "'\\n' + a", "l3[2]", "'x if y in z'", "f(' or ') + ' for not'", "'a, b; c'", "[l3, l][0][1]"]
DOLLARS = ["a", "b", "n", "o.p", "o.q.r[1]", "o.q.r[2]['k']", "f(a)", "f('}')", "l[1]", "d['k']", "d.k", "f((a))", "f(f(a))"]
CONDS = ["n", "m", "no", "yes", "nay", "e", "a", "l", "m > 3", "m < 3", "a == 'zz'", "m == 17", "o.p", "d", "a + ' and '", "f(' or ')", "0", "1", "''", "'x'", "n + 1"]
FORS = ["i%d in l", "i%d in l3", "i%d in l0", "i%d in [a, b]", "i%d in o.l", "i%d in [1]", "i%d in lm", "i%d in [f(' if '), 'x in y', a]", "i%d in ['}', ' for , ;', '(']"]
FEATURES = {"text", "interp", "elem", "attr", "if", "for", "def", "with", "vars", "block", "content", "replace", "strip", "attrs", "comment", "script", "void"}
ATTRS = ["prs", "[['a', a], ['b', b]]", "l0", "no", "[['c', yes], ['n', no], ['f', nay], ['z', n], ['y', e]]", "[]"]


class JsGen(gen.Gen):
    def arg(self, k, sc):
        if k == "def":
            nm = self.name("fn")
            sig = self.r.choice(["", "()", "(p)", "(p, q)", "(p) ", "( p , q )", " (p)", "(p,\n q)\n"])
            self.last_def = (nm, sig)
            return nm + sig, sc + [x for x in ("p", "q") if x in sig], nm
        v, sc, nm = super().arg(k, sc)
        return v.replace("[a, b]", "a + b") if k in ("with", "vars") else v, sc, nm

    def call(self, nm, sig):
        return nm + ("(m, a)" if "q" in sig else "(b)" if "p" in sig else "()")

    def node(self, scope, depth, cdata):
        out = super().node(scope, depth, cdata)
        for n in out:
            if isinstance(n, El) and "attrs" in n.dirs:
                n.dirs["attrs"] = self.r.choice(ATTRS)
        return out


def ctx_py():
    o = gen.Obj()
    o.p = "o<p>"
    o.q = gen.Obj()
    o.q.r = ["r0", "r&1", {"k": "r'k"}]
    o.l = ["p", "'"]

    class Dd(dict):
        __getattr__ = dict.__getitem__
    return dict(a="A&<>\"'", b="plain", n=0, m=17, e="", no=None, yes=True, nay=False, l=["x", "<y>", "&"], l0=[], l3=[1, 2, 3], lm=["", 0, "x", 7, ""], d=Dd(k="v<"), o=o, s="q\"'\\\n\u2028\xe4", prs=[["x", 1], ["y", "2\""], ["z", True], ["w", None], ["v", ""], ["u", False]], f=lambda x: "F(" + str(x) + ")")


def enc(v):
    if v is None:
        return ["0"]
    if isinstance(v, bool):
        return ["b", v]
    if isinstance(v, (int, float)):
        return ["n", v]
    if isinstance(v, str):
        return ["s", v]
    if isinstance(v, list):
        return ["l", [enc(x) for x in v]]
    if isinstance(v, dict):
        return ["o", [[k, enc(x)] for k, x in v.items()]]
    if isinstance(v, gen.Obj):
        return enc(vars(v))
    return ["f", "'F(' + x + ')'"]


def js_ctx(c, extra=()):
    e = enc(c)
    return e


def strict_text(rnd):
    return gen.text(rnd)


class Env:
    def __init__(self, t):
        self.t = t
        self.node = Node()
        if self.node.loaded != {"ok": True}:
            raise Failure("the JavaScript runtime does not load", "tonnikala/runtime/javascript.js", True, self.node.loaded)

    def check(self, nodes, ctx=ctx_py, rnd=None, sample=False):
        from tonnikala.loader import JSLoader, Loader
        pys = src(nodes, None)
        jss = src(nodes, None, "js:")
        self.t.arm(jss)
        exp = render.ref_outcome(nodes, ctx())
        if exp[0] != "ok":
            return False
        code = attempt(lambda: JSLoader().load_string(jss))
        inp = dict(template=jss)
        if code[0] == "exc":
            raise Failure("the JavaScript template does not compile", inp, exp[1], repr(code[1]))
        got = self.node.ask(dict(op="template", code=code[1], ctx=js_ctx(ctx())))
        if got != {"ok": {"out": exp[1]}}:
            # the property compares with the Python template
            py = attempt(lambda: Loader().load_string(pys).render(ctx()))
            if py != ("ok", exp[1]):
                if py[0] == "ok" and got == {"ok": {"out": py[1]}}:
                    return True
            raise Failure("output of the JavaScript template", inp, py[1] if py[0] == "ok" else exp[1], got.get("ok", got))
        self.t.add(jss, len(exp[1]) > 15, jss if sample else None)
        return True


def random_templates(t, rnd):
    env = Env(t)
    k = 0
    while not t.over():
        k += 1
        g = JsGen(rnd, budget=rnd.choice([3, 6, 12, 20]), features=FEATURES, exprs=TEXTS, dexprs=DOLLARS, conds=CONDS, fors=FORS)
        env.check(g.template(), rnd=rnd, sample=k % 20 == 1)


TX = ["'", '"', "\\", "\\n", "\n", "\t", "\u2028", "\u2029", "\xe4", "\U0001f600", "</", "<!--", "//", "/*", "*/", "a'b\"c", "${", "`", "\x7f", "\\u0041", "\\\\", "]]>", "%", "{}", "\xa0", "\\'"]


NAMES = """window document global globalThis self top parent console module exports process require name location event status data context output items item key value html str print len id type input
list dict set object Object Array Math JSON Date String Number RegExp Error Buffer setTimeout escape unescape parseInt isNaN root node tk binder render template gettext load x _ _x __x a1 A $ prototype constructor
toString hasOwnProperty length call apply bind foreach output_attrs e s i j k l n def block main arg args func self_ that each fn cb text attr attrs""".split()


def names(t, rnd):
    """a variable of the context is found under whatever name it has"""
    env = Env(t)
    for nm in NAMES:
        if nm == "$":
            continue
        for nodes in ([I(nm)], [El("p", [("id", [I(nm)]), ("class", [T("x "), I(nm, False), T(" y")])], {"if": nm}, [I(nm), I("b")])], [Ctl("for", "q7 in l3", [I("q7"), I(nm)])], [Ctl("def", "f7(p)", [I("p"), I(nm)]), I("f7(a)"), I("f7(%s)" % nm)], [Ctl("block", "blk7", [I(nm)])], [Ctl("with", "w7 = %s" % nm, [I("w7"), I(nm)])], [Ctl("for", "%s in l" % nm, [I(nm)])], [Ctl("def", "f7(%s)" % nm, [I(nm)]), I("f7(a)")], [Ctl("with", "%s = b" % nm, [I(nm)])]):
            env.check([El("html", [], {}, nodes)], lambda: dict(ctx_py(), **{nm: "v<%s>" % nm}))
        if t.over():
            return


def static_text(t, rnd):
    """static text of every kind in text, attributes and scripts"""
    env = Env(t)
    for s in TX + [a + b for a in TX[:12] for b in TX[:12]]:
        txt = s.replace("${", "{$$x") if False else s
        env.check([El("html", [], {}, [T(txt)])])
        env.check([El("html", [("class", [T(txt)])], {}, [El("p", [("id", [T("x"), I("a"), T(txt)])], {}, [T(txt), I("a"), T(txt)])])])
        if "</" not in txt and "<!--" not in txt:
            env.check([El("html", [], {}, [El("script", [], {}, [T(txt), I("a"), T("q" + txt)]), El("style", [], {}, [T(txt)])])])
        if t.over():
            return


def grids(t, rnd):
    env = Env(t)
    # a loop takes every item, whatever it is (a Python template has no undefined)
    for l in ([1, "u!", 2], ["u!"], [None, "u!", 0, "u!", ""], []):
        t.arm(l)
        got = env.node.ask(dict(op="foreach", list=l))
        if got != {"ok": l}:
            raise Failure("items a JavaScript loop runs over (u! stands for undefined)", l, l, got.get("ok", got))
        t.add(str(l))
    items = []
    for e in TEXTS:
        items += [[I(e)], [T("x"), I(e), T("y")], [El("p", [("class", [I(e)])], {}, [])], [El("p", [("class", [T("<"), I(e), T("'")])], {}, [])], [El("p", [], {"content": e}, [T("z")])], [El("p", [], {"replace": e}, [T("z")])], [Ctl("replace", e)]]
    for e in DOLLARS:
        items += [[T("x "), I(e, False), T(". y")], [El("p", [("class", [T("a "), I(e, False), T(" $5")])], {}, [])]]
    for c in ["no", "yes", "nay", "n", "e", "m", "a"]:
        items += [[El("p", [("checked", [I(c)])], {}, [])]]
    for c in CONDS:
        items += [[El("p", [], {"if": c}, [T("z"), I("a")])], [Ctl("if", c, [T("z"), El("b", [], {}, [I("b")])])], [El("p", [("id", [I("a")])], {"strip": c}, [T("z"), El("b", [], {}, [])])], [El("p", [], {"if": c, "strip": "m"}, [T("q")])], [Ctl("if", c, [])]]
    items += [[El("p", [], {"strip": ""}, [T("z")])]]
    for f in FORS:
        f = f.replace("%d", "1")
        items += [[El("p", [], {"for": f}, [I("i1"), T(";")])], [Ctl("for", f, [I("i1", False), T(" "), Ctl("for", "j in l3", [I("j"), I("i1")])])], [Ctl("for", f, [])], [El("p", [("id", [I("i1")])], {"for": f, "if": "yes", "strip": "no"}, [I("a")])], [Ctl("for", f, [Ctl("def", "g(p)", [I("p"), I("i1")]), I("g(a)")])]]
    for a in ATTRS:
        items += [[El("p", [], {"attrs": a}, [])], [El("p", [("id", [T("x")]), ("class", [I("a")])], {"attrs": a}, [T("q")])]]
    items += [[Ctl("def", "f1(x)", [T("["), I("x"), T("]")]), I("f1(a)"), I("f1('<')"), I("f1(f1(b))")], [I("f1(a)"), El("p", [], {"def": "f1(x)"}, [I("x")])],
              [Ctl("def", "rec(k)", [Ctl("if", "k", [I("k"), I("rec(k - 1)")])]), I("rec(3)")], [Ctl("def", "f2", [T("<&>"), I("a")]), El("p", [("id", [I("f2()")])], {}, [I("f2()")]), El("p", [("id", [T("x"), I("f2()")])], {}, [])]]
    for e in ["literal(a)", "literal('<b>')", "literal(a + b)", "literal(f(a))"]:
        items += [[I(e)], [T("x<"), I(e), T("&")], [El("p", [("class", [T("<"), I(e), T("'")])], {}, [])], [El("p", [], {"content": e}, [T("z")])], [El("p", [], {"replace": e}, [])], [Ctl("for", "i1 in l3", [I(e), I("a")])]]
    items += [[El("p", [], {"with": "w1 = a; w2 = w1"}, [I("w1"), I("w2")]), I("a")], [Ctl("with", "w1 = l[1]", [Ctl("for", "i1 in l", [I("w1"), I("i1")])])], [El("p", [("id", [I("w1")])], {"vars": "w1 = f(a)", "if": "yes"}, [I("w1")])],
              [Ctl("block", "blk1", [I("a"), Ctl("block", "blk2", [T("<"), I("b")])]), I("blk1()"), I("blk2()")], [El("p", [("id", [I("a")])], {"block": "blk1", "for": "i1 in l3"}, [I("i1")])], [I("blk1()"), Ctl("for", "i1 in l3", [Ctl("block", "blk1", [I("a")])])]]
    for it in items:
        env.check([El("html", [], {}, it)])
        env.check([El("html", [], {}, [T("pre "), El("div", [], {}, it), T(" post")])])
        if t.over():
            return


def jsify(parts):
    """conditions are not decided when a JavaScript template is compiled: a block under a constantly false one is there"""
    out = []
    for p in parts:
        if p[0] == "if":
            p = ("if", {"0": "no", "1": "yes"}.get(p[1], p[1]), jsify(p[2]))
        elif p[0] in ("el", "block", "def"):
            p = (p[0], p[1], jsify(p[2]))
        out.append(p)
    return out


def chain(env, t, sources, ctx, order, exp, sample=False):
    from tonnikala.loader import JSLoader
    js = {n: s.replace("py:", "js:") for n, s in sources.items()}
    t.arm(js)
    codes = {}
    for n, s in js.items():
        code = attempt(lambda: JSLoader().load_string(s))
        if code[0] == "exc":
            raise Failure("the JavaScript template does not compile", dict(templates=js), exp, repr(code[1]))
        codes[n] = code[1]
    got = env.node.ask(dict(op="chain", sources=codes, order=order, ctx=["o", [[k, enc(v) if not callable(v) else ["f", json.dumps(v())]] for k, v in ctx.items()]]))
    if got != {"ok": exp}:
        raise Failure("inheritance between JavaScript templates", dict(templates=js, rendered=order, context=sorted(ctx)), exp, got.get("ok", got))
    t.add(str(js) + str(order), True, sample=js if sample else None)


def inheritance(t, rnd):
    from . import c09
    env = Env(t)
    V = dict(v="V", yes=True, no=False)
    cases = [
        ({"a": '<r><py:block name="t">A</py:block></r>', "b": '<py:extends href="a"></py:extends>', "c": '<py:extends href="b"><py:block name="t">C$v</py:block></py:extends>'}, dict(a="<r>A</r>", b="<r>A</r>", c="<r>CV</r>")),
        ({"a": '<r><py:block name="o">[<py:block name="i">A</py:block>]</py:block></r>', "b": '<py:extends href="a"> <py:block name="i">B</py:block>\n</py:extends>', "c": '<py:extends href="b"><!-- x --><py:block name="o">{<py:block name="i">C</py:block>}</py:block></py:extends>'}, dict(a="<r>[A]</r>", b="<r>[B]</r>", c="<r>{C}</r>")),
        ({"a": '<r><py:def function="f(x)">A$x</py:def>${f(1)}<py:block name="t">${f(2)}</py:block></r>', "b": '<py:extends href="a"><py:def function="f(x)">B$x</py:def></py:extends>', "c": '<py:extends href="b"><py:block name="t">C${f(3)}</py:block></py:extends>'}, dict(a="<r>A1A2</r>", b="<r>B1B2</r>", c="<r>B1CB3</r>")),
        ({"a": '<r><p py:block="t" class="k">A</p></r>', "b": '<py:extends href="a"><py:block name="t"><i id="$v">$v</i></py:block></py:extends>'}, dict(a='<r><p class="k">A</p></r>', b='<r><i id="V">V</i></r>')),
    ]
    for srcs, exp in cases:
        for order in (list(exp), list(reversed(exp))):
            chain(env, t, srcs, V, order, [exp[n] for n in order])
    while not t.over():
        g = c09.GenChain(rnd)
        ts = g.chain()
        for x in ts:
            x.main = jsify(x.main)
        sources = {"t%d" % i: c09.template_source(x, None if i == 0 else "t%d" % (i - 1), rnd) for i, x in enumerate(ts)}
        ctx = dict(V)
        if rnd.random() < .2:
            nm = rnd.choice(g.names)
            ctx[nm] = lambda nm=nm: "CTX-" + nm
        order = ["t%d" % i for i in range(len(ts))]
        rnd.shuffle(order)
        try:
            exp = [c09.expand([("el", "r", ts[0].main)], c09.winners(ts[:int(k[1:]) + 1], ctx), ctx) for k in order]
        except c09.Unknown:
            continue
        chain(env, t, sources, ctx, order, exp, sample=rnd.random() < .01)


def big_templates(t, rnd):
    env = Env(t)
    for n in (3, 11, 45, 150, 330):
        for label, nodes in render.big(n):
            env.check(nodes)
            if t.over():
                return


PARTS = [("grids", grids, 1), ("many of everything", big_templates, 2), ("static text", static_text, 2), ("names in the context", names, 1), ("random", random_templates, 4), ("inheritance", inheritance, 2)]
