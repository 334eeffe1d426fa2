"""C11: rendering leaves the context and the template untouched."""
import builtins, collections, random, threading, types
from . import common, gen, tree
from .common import Failure, attempt
from .c09 import render_chain


class Odd:
    """a mapping with keys and __getitem__ only"""
    def __init__(self, d):
        self.d = d

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        return self.d[k]


class Guard(dict):
    """a dict that reports every change"""
    def __init__(self, *a):
        super().__init__(*a)
        self.log = []

    def __setitem__(self, k, v):
        self.log.append(("set", k))
        super().__setitem__(k, v)

    def __delitem__(self, k):
        self.log.append(("del", k))
        super().__delitem__(k)

    def pop(self, *a):
        self.log.append(("pop", a))
        return super().pop(*a)

    def update(self, *a, **k):
        self.log.append(("update",))
        super().update(*a, **k)

    def setdefault(self, *a):
        self.log.append(("setdefault", a))
        return super().setdefault(*a)

    def clear(self):
        self.log.append(("clear",))
        super().clear()


def snap(m):
    return [(k, id(m[k])) for k in m.keys()]


def shape(v, depth=0):
    """a description of a value's content"""
    if depth > 4:
        return "..."
    if isinstance(v, dict):
        return {k: shape(x, depth + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [shape(x, depth + 1) for x in v]
    if hasattr(v, "__dict__") and not callable(v):
        return shape(vars(v), depth + 1)
    if callable(v):
        return "callable"
    return repr(v)


def outcome(tp, c):
    r = attempt(lambda: tp.render(c))
    return r if r[0] == "ok" else ("exc", type(r[1]).__name__, str(r[1]))


SHADOW = ["len", "str", "sorted", "max", "range", "literal", "gettext", "print", "list"]


def histories(t, rnd):
    """a random history of renderings of several templates with several contexts, each compared with a first rendering"""
    from tonnikala.loader import Loader
    while not t.over():
        k = rnd.randint(2, 4)
        srcs = []
        for _ in range(k):
            g = gen.Gen(rnd, budget=rnd.choice([4, 8, 16]))
            g.uid = rnd.choice([0, 0, 100])
            s = tree.src(g.template(), rnd)
            if rnd.random() < .7:
                s = s.replace("</html>", "<p>${len(l)} ${max(l3)} ${str(n)} ${literal('x')}</p></html>")
            srcs.append(s)
        if rnd.random() < .3:
            srcs.append('<html><py:def function="b()">B</py:def>${b()}${len(l)}</html>')
        if rnd.random() < .3:
            srcs.append('<html><a py:with="a = 1; len = f">$a ${len(2)}</a>$a ${len(l)}</html>')
        if rnd.random() < .3:
            srcs.append('<html><py:import href="x" alias="len2"/></html>'.replace("<py:import href=\"x\" alias=\"len2\"/>", '<a py:for="len in l">$len</a>'))
        ctxs = []
        for j in range(3):
            c = gen.mk_ctx()
            c["b"] = "b%d" % j
            if j and rnd.random() < .7:
                for nm in rnd.sample(SHADOW, rnd.randint(1, 3)):
                    c[nm] = (lambda nm, j: lambda *a: "%s-%d" % (nm, j))(nm, j)
            if rnd.random() < .3:
                c.pop(rnd.choice(["a", "b", "m"]), None)
            ctxs.append(c)
        t.arm(srcs)
        # the output of a first rendering
        first = {}
        for i, s in enumerate(srcs):
            for j, c in enumerate(ctxs):
                a = attempt(lambda: Loader().load_string(s))
                first[i, j] = ("exc", type(a[1]).__name__, str(a[1])) if a[0] == "exc" else outcome(a[1], dict(c))
        lo = Loader()
        tps = []
        for s in srcs:
            a = attempt(lambda: lo.load_string(s))
            tps.append(a[1] if a[0] == "ok" else None)
        hist = []
        for _ in range(rnd.randint(4, 12)):
            i, j = rnd.randrange(len(srcs)), rnd.randrange(3)
            if tps[i] is None:
                continue
            c = ctxs[j]
            kind = rnd.choice(["dict", "dict", "guard", "proxy", "ordered", "chain", "odd"])
            m = dict(dict=lambda: c, guard=lambda: Guard(c), proxy=lambda: types.MappingProxyType(c), ordered=lambda: collections.OrderedDict(c), chain=lambda: collections.ChainMap({}, c), odd=lambda: Odd(c))[kind]()
            before, sh = snap(m), shape({q: c[q] for q in c})
            fn = "__main__"
            hist.append((i, j, kind))
            got = outcome(tps[i], m)
            inp = dict(templates=srcs, history=hist, contexts=[sorted(x) for x in ctxs])
            if snap(m) != before or getattr(m, "log", None):
                raise Failure("rendering changed the mapping", inp, "no change", [x for x in snap(m) if x not in before] or getattr(m, "log", None))
            if shape({q: c[q] for q in c}) != sh:
                raise Failure("rendering changed a value of the context", inp, sh, shape(dict(c)))
            if got != first[i, j]:
                raise Failure("a later rendering differs from the first", inp, first[i, j], got)
        t.add((tuple(srcs), tuple(hist)), len(hist) > 2, sample=srcs if rnd.random() < .003 else None)


def fixed(t, rnd):
    from tonnikala.loader import Loader
    lo = Loader()
    names = [n for n in dir(builtins) if not n.startswith("_") and n not in ("print", "input", "exit", "quit", "breakpoint", "help", "copyright", "credits", "license") and n.isidentifier() and n not in ("None", "True", "False")]
    for n in names + ["literal", "gettext"]:
        s = "<r>${%s}</r>" % n
        t.arm(s)
        tp = lo.load_string(s)
        a = tp.render({})
        b = tp.render({n: "mine<"})
        c = tp.render({})
        d = Loader().load_string(s).render({})
        if b != "<r>mine&lt;</r>":
            raise Failure("a context value does not take precedence over the builtin", n, "mine&lt;", b)
        if not (a == c == d):
            raise Failure("a context value changed a builtin for another rendering", n, a, (c, d))
        t.add(n)
    # templates whose names are those of builtins or of the context
    seqs = [
        ('<r><py:def function="f()">own</py:def>${f()}</r>', [({}, "<r>own</r>"), (dict(f=lambda: "ctx"), "<r>ctx</r>"), ({}, "<r>own</r>")]),
        ('<r><py:block name="t">own</py:block></r>', [({}, "<r>own</r>"), (dict(t=lambda: "ctx"), "<r>ctx</r>"), ({}, "<r>own</r>")]),
        ('<r><py:with vars="x = x + 1">$x</py:with></r>'.replace("x = x + 1", "y = x + 1").replace("$x", "$y$x"), [(dict(x=1), "<r>21</r>")] * 3),
        ('<r><py:for each="x in l">$x</py:for></r>', [(dict(l=[1, 2]), "<r>12</r>"), (dict(l=[3], x=9), "<r>3</r>"), (dict(l=[1, 2]), "<r>12</r>")]),
        ('<r><py:def function="f(a=l)">${len(a)}</py:def>${f()}</r>', [(dict(l=[1, 2]), "<r>2</r>"), (dict(l=[]), "<r>0</r>"), (dict(l=[1]), "<r>1</r>")]),
        # what the values of defaults keep belongs to one rendering
        ('<r><py:def function="f(x=[])">${x.append(1) or len(x)}</py:def>${f()}${f()}</r>', [({}, "<r>12</r>")] * 3),
        ('<r><py:with vars="k = []"><py:def function="g()">${k.append(1) or len(k)}</py:def>${g()}${g()}</py:with></r>', [({}, "<r>12</r>")] * 3),
        ('<r><py:def function="f(x={})">${x.setdefault(y, len(x))}</py:def>${f()}</r>', [(dict(y=1), "<r>0</r>"), (dict(y=2), "<r>0</r>"), (dict(y=1), "<r>0</r>")]),
        ('<r a="$x" b="-$x"/>', [(dict(x=None), '<r b="-None"></r>'), (dict(x=True), '<r a="a" b="-True"></r>'), (dict(x="q"), '<r a="q" b="-q"></r>')]),
    ]
    for s, cs in seqs:
        tp = lo.load_string(s)
        for c, e in cs:
            m = dict(c)
            got = attempt(lambda: tp.render(m))
            if got != ("ok", e):
                raise Failure("rendering in a sequence", (s, sorted(c)), e, repr(got[1]))
            if m != c:
                raise Failure("the mapping changed", (s, c), c, m)
            for again in range(2):
                # the very same mapping again, and with other templates rendered in between
                got = attempt(lambda: tp.render(m))
                if got != ("ok", e):
                    raise Failure("rendering the same mapping again", (s, sorted(c)), e, repr(got[1]))
                lo.load_string("<r>$x</r>").render(dict(x=1))
        t.add(s)
    # a failing rendering leaves nothing behind
    for s in ('<r>a${x}b<p py:def="f()">${x}</p>${f()}</r>', '<r><py:block name="k">$x</py:block><py:for each="i in [1,2]">$i${x}</py:for></r>', '<r q="${x}">${y}</r>'):
        tp = lo.load_string(s)
        e = attempt(lambda: tp.render(dict(x=1, y=2)))
        for _ in range(3):
            c = {}
            r = attempt(lambda: tp.render(c))
            if r[0] != "exc" or c:
                raise Failure("a rendering without the needed value", s, "NameError and an unchanged mapping", (r, c))
            r = attempt(lambda: tp.render(dict(x=1, y=2)))
            if r != e:
                raise Failure("a rendering after a failed one", s, e, r)
            t.add((s, _))


def inherited(t, rnd):
    """renderings of base, derived and imported templates of one loader in any order"""
    base = '<r><py:def function="f()">bf$v</py:def><py:block name="k">bk$v${f()}</py:block>${len(l)}</r>'
    fam = {
        "base": base,
        "d1": '<py:extends href="base"><py:block name="k">d1k$v${f()}</py:block></py:extends>',
        "d2": '<py:extends href="d1"><py:def function="f()">d2f$v</py:def></py:extends>',
        "im": '<r><py:import href="base" alias="m"/><py:def function="f()">own</py:def>${m.f()}${f()}${m.k()}</r>',
        "d3": '<py:extends href="base"><py:import href="lib" alias="lb"/><py:block name="k">${lb.h()}</py:block></py:extends>',
        "lib": '<l><py:def function="h()">h$v</py:def></l>',
    }
    want = {"base": "<r>bk{v}bf{v}2</r>", "d1": "<r>d1k{v}bf{v}2</r>", "d2": "<r>d1k{v}d2f{v}2</r>", "im": "<r>bf{v}ownbk{v}bf{v}</r>", "d3": "<r>h{v}2</r>", "lib": "<l></l>"}
    n = 0
    while not t.over() and n < 3000:
        n += 1
        seq = [rnd.choice(sorted(fam)) for _ in range(rnd.randint(2, 10))]
        vals = ["%d" % rnd.randint(0, 9) for _ in seq]
        t.arm(seq)
        ctxs = [dict(v=v, l=[1, 2]) for v in vals]
        for i in range(len(seq)):
            if rnd.random() < .1:
                ctxs[i]["len"] = lambda x: "L"
        snaps = [dict(c) for c in ctxs]
        got = attempt(lambda: render_seq(fam, seq, ctxs))
        exp = [want[s].replace("{v}", v).replace("2</r>", "L</r>" if "len" in c else "2</r>") if s != "im" else want[s].replace("{v}", v) for s, v, c in zip(seq, vals, ctxs)]
        if got != ("ok", exp):
            raise Failure("a history of renderings of one loader", dict(templates=fam, sequence=list(zip(seq, vals))), exp, repr(got[1]))
        if ctxs != snaps:
            raise Failure("a context changed", dict(templates=fam, sequence=seq), snaps, ctxs)
        t.add(tuple(zip(seq, vals)), sample=seq if n == 1 else None)


def render_seq(srcs, seq, ctxs):
    from tonnikala.loader import Loader

    class L(Loader):
        def __init__(self):
            super().__init__()
            self.c = {}

        def load(self, name):
            if name not in self.c:
                self.c[name] = self.load_string(srcs[name], filename=name)
            return self.c[name]
    lo = L()
    return [lo.load(n).render(c) for n, c in zip(seq, ctxs)]


def threads(t, rnd):
    """the same template rendered by several threads at once, switching inside the expressions"""
    import time
    from tonnikala.loader import Loader
    n = 0
    while not t.over() and n < 400:
        n += 1
        g = gen.Gen(rnd, budget=12)
        s = tree.src(g.template(), rnd)
        s = s.replace("</html>", "<i py:for=\"q in l3\" a=\"$w\">${sw(q)}$b<b py:def=\"z(x)\">$x$b${sw(1)}</b>${z(q)}</i><py:block name=\"bb\">${sw(b)}</py:block></html>")
        t.arm(s)
        a = attempt(lambda: Loader().load_string(s))
        if a[0] == "exc":
            continue
        tp = a[1]
        N = 4

        def ctx(j):
            c = gen.mk_ctx()
            c.update(b="b%d" % j, w=[None, True, "w", 0][j % 4])

            def sw(x):
                time.sleep(0)
                return "%s.%d" % (x, j)
            c["sw"] = sw
            if j == 1:
                c["len"] = lambda x: "len1"
            return c
        exp = [outcome(Loader().load_string(s), ctx(j)) for j in range(N)]
        got = [None] * N
        start = threading.Barrier(N)

        def work(j):
            start.wait()
            r = []
            for _ in range(2):
                r.append(outcome(tp, ctx(j)))
            got[j] = r
        import sys
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(j,)) for j in range(N)]
            for x in ts:
                x.start()
            for x in ts:
                x.join()
        finally:
            sys.setswitchinterval(old)
        for j in range(N):
            for r in got[j] or [None]:
                if r != exp[j]:
                    raise Failure("a rendering concurrent with others of the same template", dict(template=s, thread=j), exp[j], r)
        t.add(s, sample=s if n < 2 else None)


def nested(t, rnd):
    """renderings of a template started while another rendering of it runs"""
    from tonnikala.loader import Loader
    srcs = ['<r>[$v ${again(v)} $v]</r>', '<r><a py:for="i in range(2)" b="$v">$i${again(v)}$i</a></r>', '<r><py:def function="f(x)">($x${again(v)}$x)</py:def>${f(v)}</r>', '<r><py:block name="k">$v${again(v)}$v</py:block></r>',
            '<r><py:with vars="w = v">$w${again(v)}$w</py:with></r>', '<r py:attrs="[(\'a\', v), (\'b\', again(v))]">$v</r>']
    wants = [lambda v: "<r>[%d %s %d]</r>" % (v, wants[0](v - 1) if v else "", v),
             lambda v: "<r>" + "".join('<a b="%d">%d%s%d</a>' % (v, i, wants[1](v - 1) if v else "", i) for i in range(2)) + "</r>",
             lambda v: "<r>(%d%s%d)</r>" % (v, wants[2](v - 1) if v else "", v), lambda v: "<r>%d%s%d</r>" % (v, wants[3](v - 1) if v else "", v),
             lambda v: "<r>%d%s%d</r>" % (v, wants[4](v - 1) if v else "", v),
             lambda v: '<r a="%d" b="%s">%d</r>' % (v, "".join({"<": "&lt;", ">": "&gt;", '"': "&#34;", "&": "&amp;"}.get(c, c) for c in (wants[5](v - 1) if v else "")), v)]
    for i, s in enumerate(srcs):
        from markupsafe import Markup
        tp = Loader().load_string(s)

        def again(v):
            if not v:
                return ""
            r = tp.render(dict(v=v - 1, again=again))
            return Markup(r) if i != 5 else r
        for v in (0, 1, 2, 3):
            got = attempt(lambda: tp.render(dict(v=v, again=again)))
            if got != ("ok", wants[i](v)):
                raise Failure("a rendering started inside a rendering of the same template", (s, v), wants[i](v), repr(got[1]))
            t.add((s, v), sample=s)


PARTS = [("histories", histories, 3), ("fixed", fixed, 1), ("inheritance histories", inherited, 1), ("threads", threads, 2), ("nested renderings", nested, 1)]
