"""C09: inheritance."""
import os, random
from . import common, tree
from .common import Failure, attempt


class Tpl:
    """one template of a chain"""
    def __init__(self, i):
        self.i, self.main, self.defs = i, [], {}     # defs: name -> (kind, params, body)


class GenChain:
    def __init__(self, rnd):
        self.r = rnd
        self.names = ["b%d" % i for i in range(rnd.randint(1, 4))] + ["d%d" % i for i in range(rnd.randint(0, 3))]
        self.n = 0

    def lit(self, i):
        self.n += 1
        return "%s%d" % ("ABCDEFG"[i], self.n)

    def body(self, t, idx, depth=0):
        """content of a block or definition; may use the names after idx only, so that nothing recurses"""
        r = self.r
        out = [("t", self.lit(t.i))]
        later = self.names[idx + 1:]
        for _ in range(r.randint(0, 3)):
            k = r.random()
            if k < .35:
                out.append(("t", self.lit(t.i)))
            elif k < .65 and later:
                out.append(("call", r.choice(later)))
            elif k < .75:
                out.append(("ctx", "v"))
            elif k < .85 and depth < 2:
                out.append(("el", r.choice(["i", "p"]), self.body(t, idx, depth + 1)))
            elif k < .92 and depth < 2:
                out.append(("if", r.choice(["yes", "no", "1", "0"]), self.body(t, idx, depth + 1)))
            elif later and depth < 2:
                nm = r.choice(later)
                if nm.startswith("b") and nm not in t.defs and nm not in getattr(t, "pending", ()):
                    t.pending = getattr(t, "pending", set()) | {nm}
                    b = self.body(t, self.names.index(nm), depth + 1)
                    t.defs[nm] = ("block", b)
                    out.append(("block", nm, b))
        return out

    def chain(self):
        r = self.r
        depth = r.choice([1, 1, 2, 2, 3, 4])
        ts = []
        base = Tpl(0)
        for i, nm in enumerate(self.names):
            if r.random() < .5:
                base.main.append(("t", self.lit(0)))
            if nm in base.defs:
                if r.random() < .3:
                    base.main.append(("call", nm))
                continue
            if nm.startswith("b"):
                b = self.body(base, i)
                base.defs[nm] = ("block", b)
                base.main.append(r.choice([("block", nm, b), ("el", "div", [("block", nm, b)]), ("if", "yes", [("block", nm, b)])]))
            else:
                b = self.body(base, i)
                base.defs[nm] = ("def", b)
                base.main.append(("def", nm, b))
                if r.random() < .8:
                    base.main.append(("call", nm))
        if r.random() < .4:
            base.main.append(("call", r.choice(self.names)))
        ts.append(base)
        for k in range(1, depth + 1):
            t = Tpl(k)
            names = [n for n in self.names if r.random() < .55]
            if r.random() < .3:
                names.append(self.extra(k))
            r.shuffle(names)
            for nm in names:
                if nm in t.defs:
                    continue
                i = self.names.index(nm)
                b = self.body(t, i)
                kind = "block" if nm.startswith("b") else "def"
                t.defs[nm] = (kind, b)
                t.main.append((kind, nm, b))
            ts.append(t)
        return ts

    def extra(self, k):
        nm = "x%d" % k
        if nm not in self.names:
            self.names.append(nm)
        return nm


def src(parts):
    out = []
    for p in parts:
        k = p[0]
        if k == "t":
            out.append(p[1])
        elif k == "call":
            out.append("${%s()}" % p[1])
        elif k == "ctx":
            out.append("${%s}" % p[1])
        elif k == "el":
            out.append("<%s>%s</%s>" % (p[1], src(p[2]), p[1]))
        elif k == "if":
            out.append('<py:if test="%s">%s</py:if>' % (p[1], src(p[2])))
        elif k == "block":
            out.append('<py:block name="%s">%s</py:block>' % (p[1], src(p[2])))
        elif k == "def":
            out.append('<py:def function="%s()">%s</py:def>' % (p[1], src(p[2])))
    return "".join(out)


def template_source(t, parent, rnd):
    if parent is None:
        return "<r>" + src(t.main) + "</r>"
    sep = lambda: rnd.choice(["", "\n", "  \n\t", "<!-- c ${nosuch} -->", "\n<!--! d -->\n", "<!-- <b> -->", " "])
    s = '<py:extends href="%s">' % parent + sep()
    for p in t.main:
        s += src([p]) + sep()
    return s + "</py:extends>"


def dead(parts):
    """names of blocks that stand under a constantly false condition only: they are not registered"""
    return parts


def winners(ts, ctx):
    win = {}

    def reg(parts, t, alive):
        for p in parts:
            if p[0] == "block":
                if alive:
                    win.setdefault(p[1], p[2])
                    reg(p[2], t, True)
            elif p[0] == "def":
                win.setdefault(p[1], p[2])
                reg(p[2], t, alive)
            elif p[0] == "el":
                reg(p[2], t, alive)
            elif p[0] == "if":
                reg(p[2], t, alive and p[1] != "0")
    for t in reversed(ts):
        reg(t.main, t, True)
    return win


class Unknown(Exception):
    pass


def expand(parts, win, ctx):
    out = []
    for p in parts:
        k = p[0]
        if k == "t":
            out.append(p[1])
        elif k == "ctx":
            out.append(str(ctx[p[1]]))
        elif k == "el":
            s = expand(p[2], win, ctx)
            out.append("<%s>%s</%s>" % (p[1], s, p[1]))
        elif k == "if":
            if {"yes": True, "no": False, "1": True, "0": False}[p[1]]:
                out.append(expand(p[2], win, ctx))
        elif k in ("call", "block"):
            nm = p[1]
            if nm in ctx:
                out.append(ctx[nm]())
            elif nm in win:
                out.append(expand(win[nm], win, ctx))
            else:
                raise Unknown(nm)
        elif k == "def":
            pass
    return "".join(out)


def render_chain(sources, ctx, order=None, loader=None):
    from tonnikala.loader import FileLoader
    import shutil, tempfile
    d = tempfile.mkdtemp(dir=common.scratch())
    try:
        for n, s in sources.items():
            with open(os.path.join(d, n), "w", encoding="utf-8") as f:
                f.write(s)
        fl = loader or FileLoader([d])
        return [fl.load(n).render(dict(ctx)) for n in (order or [list(sources)[-1]])]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def chains(t, rnd):
    n = 0
    while not t.over():
        n += 1
        g = GenChain(rnd)
        ts = g.chain()
        sources = {}
        for i, x in enumerate(ts):
            sources["t%d.tk" % i] = template_source(x, None if i == 0 else "t%d.tk" % (i - 1), rnd)
        ctx = dict(v="V", yes=True, no=False)
        if rnd.random() < .2:
            nm = rnd.choice(g.names)
            ctx[nm] = lambda nm=nm: "CTX-" + nm
        t.arm(sources)
        # every template of the chain, in any order, with one loader
        order = list(range(len(ts)))
        rnd.shuffle(order)
        order = order + [rnd.choice(order)]
        exp = []
        ok = True
        for k in order:
            w = winners(ts[:k + 1], ctx)
            try:
                exp.append(expand([("el", "r", ts[0].main)], w, ctx))
            except Unknown:
                ok = False
        if not ok:
            continue
        got = attempt(lambda: render_chain(sources, ctx, ["t%d.tk" % k for k in order]))
        if got != ("ok", exp):
            raise Failure("inheritance", dict(templates=sources, rendered=["t%d.tk" % k for k in order], context=sorted(ctx)), exp, got[1])
        t.add(sources.values().__repr__(), len(ts) > 1 and any(x.defs for x in ts[1:]), sample=sources if rnd.random() < .002 else None)


def fixed(t, rnd):
    cases = [
        # (templates, {name: expected})
        ({"a": "<r><py:block name=\"t\">A</py:block></r>", "b": "<py:extends href=\"a\"><py:block name=\"t\">B</py:block></py:extends>", "c": "<py:extends href=\"b\"></py:extends>", "d": "<py:extends href=\"c\"><py:block name=\"t\">D$v</py:block></py:extends>"}, dict(a="<r>A</r>", b="<r>B</r>", c="<r>B</r>", d="<r>DV</r>")),
        ({"a": "<r><py:block name=\"o\">[<py:block name=\"i\">A</py:block>]</py:block></r>", "b": "<py:extends href=\"a\"><py:block name=\"i\">B</py:block></py:extends>", "c": "<py:extends href=\"b\"><py:block name=\"o\">{<py:block name=\"i\">C</py:block>}</py:block></py:extends>", "e": "<py:extends href=\"c\"><py:block name=\"i\">E</py:block></py:extends>"}, dict(a="<r>[A]</r>", b="<r>[B]</r>", c="<r>{C}</r>", e="<r>{E}</r>")),
        ({"a": "<r><py:def function=\"f(x)\">A$x</py:def>${f(1)}<py:block name=\"t\">${f(2)}</py:block></r>", "b": "<py:extends href=\"a\"><py:def function=\"f(x)\">B$x</py:def></py:extends>", "c": "<py:extends href=\"b\"><py:block name=\"t\">C${f(3)}</py:block></py:extends>", "d": "<py:extends href=\"c\"><py:def function=\"f(x, y=5)\">D$x$y</py:def></py:extends>"}, dict(a="<r>A1A2</r>", b="<r>B1B2</r>", c="<r>B1CB3</r>", d="<r>D15D25</r>".replace("D25", "CD35"))),
        ({"a": "<r><py:block name=\"t\">A</py:block>|${t()}</r>", "b": "<py:extends href=\"a\"><py:block name=\"t\">B<py:block name=\"n\">N</py:block></py:block></py:extends>", "c": "<py:extends href=\"b\"><py:block name=\"n\">M</py:block></py:extends>"}, dict(a="<r>A|A</r>", b="<r>BN|BN</r>", c="<r>BM|BM</r>")),
        ({"a": "<r><py:if test=\"yes\"><py:block name=\"t\">A</py:block></py:if><py:for each=\"i in [1, 2]\"><py:block name=\"u\">U</py:block></py:for></r>", "b": "<py:extends href=\"a\"><py:block name=\"u\">W</py:block><py:block name=\"t\">B</py:block></py:extends>"}, dict(a="<r>AUU</r>", b="<r>BWW</r>")),
        ({"a": "<r><p py:block=\"t\" class=\"k\">A</p></r>", "b": "<py:extends href=\"a\"><py:block name=\"t\"><i>$v</i></py:block></py:extends>"}, dict(a="<r><p class=\"k\">A</p></r>", b="<r><i>V</i></r>")),
        ({"a": "<r>${f()}<py:block name=\"t\">x</py:block></r>", "b": "<py:extends href=\"a\"><py:def function=\"f()\">F${t()}</py:def></py:extends>", "c": "<py:extends href=\"b\"><py:block name=\"t\">T</py:block></py:extends>"}, dict(b="<r>Fxx</r>", c="<r>FTT</r>")),
        ({"m": "<r><py:def function=\"g(x)\">g$x</py:def></r>", "a": "<r><py:block name=\"t\">A</py:block></r>", "b": "<py:extends href=\"a\"><py:import href=\"m\" alias=\"m\"/><py:block name=\"t\">${m.g(1)}</py:block></py:extends>", "c": "<py:extends href=\"b\"><py:import href=\"m\" alias=\"m\"/></py:extends>"}, dict(b="<r>g1</r>", c="<r>g1</r>")),
        ({"a": "<r><py:block name=\"t\">a</py:block></r>", "b": "<py:extends href=\"a\"><!-- one --> <py:block name=\"t\">B</py:block> \n <!-- two $x -->\n</py:extends>"}, dict(b="<r>B</r>")),
        ({"a": "<r><title><py:block name=\"t\">a</py:block></title></r>", "b": "<py:extends href=\"a\"><py:block name=\"t\">B &amp; $v</py:block></py:extends>"}, dict(a="<r><title>a</title></r>", b="<r><title>B &amp; V</title></r>")),
        ({"a": "<r><py:block name=\"t\">a</py:block><py:block name=\"u\">b</py:block></r>", "b": "<py:extends href=\"a\"><py:block name=\"t\">B${u()}</py:block></py:extends>", "c": "<py:extends href=\"b\"><py:block name=\"u\">C</py:block></py:extends>", "d": "<py:extends href=\"a\"><py:block name=\"u\">D</py:block></py:extends>"}, dict(a="<r>ab</r>", b="<r>Bbb</r>", c="<r>BCC</r>", d="<r>aD</r>")),
    ]
    for srcs, exp in cases:
        for order in (list(exp), list(reversed(exp)), list(exp) * 2):
            t.arm(srcs)
            got = attempt(lambda: render_chain(srcs, dict(v="V", yes=1), order))
            e = [exp[n] for n in order]
            if got != ("ok", e):
                raise Failure("inheritance", dict(templates=srcs, rendered=order), e, repr(got[1]))
            t.add((str(srcs), str(order)), sample=srcs)
    # a name of the caller's context keeps its value, also when it is false
    base, der = "<r><py:block name=\"t\">A</py:block></r>", "<py:extends href=\"a\"><py:block name=\"t\">B</py:block></py:extends>"
    for n, e in (("a", "X"), ("b", "X")):
        got = attempt(lambda: render_chain({"a": base, "b": der}, dict(t=lambda: "X"), [n]))
        if got != ("ok", ["<r>X</r>"]):
            raise Failure("a context value for a block name", (base, der, n), "<r>X</r>", got[1])
    # bind keeps the first registration, whatever its value
    try:
        bind = common.internal("tonnikala.runtime.python", "bind", ["context"])
    except common.Skip:
        return
    for block in (False, True):
        for v in (None, 0, "", False, "x", []):
            def f():
                pass
            def __TK__block__f():
                pass
            c = {"f": v}
            r = bind(c, block=block)(__TK__block__f if block else f)
            if r is not v or c != {"f": v}:
                raise Failure("bind with an existing name", dict(context={"f": v}, block=block), v, (r, c))
            c = {}
            fn = __TK__block__f if block else f
            r = bind(c, block=block)(fn)
            if r is not fn or c != {"f": fn}:
                raise Failure("bind with a new name", dict(block=block), fn, (r, c))
            t.add(("bind", block, repr(v)))


def big(t, rnd):
    """many blocks and definitions, and long chains"""
    for n in (3, 12, 40, 120):
        base = "<r>%s</r>" % "".join('<py:block name="b%d">A%d</py:block><py:def function="f%d(x)">F%d$x</py:def>${f%d(1)}' % (i, i, i, i, i) for i in range(n))
        over = lambda l, k: '<py:extends href="%s">%s</py:extends>' % (l, "".join('<py:block name="b%d">%s%d</py:block>' % (i, k, i) if i % 2 else '<py:def function="f%d(x)">%s%d$x</py:def>' % (i, k, i) for i in range(n) if i % 3 == "BC".index(k)))
        srcs = {"a": base, "b": over("a", "B"), "c": over("b", "C")}

        def res(ks):
            out = ""
            for i in range(n):
                k = [k for k in ks if i % 3 == "BC".index(k)]
                out += (k[0] if k and i % 2 else "A") + str(i) + (k[0] if k and not i % 2 else "F") + str(i) + "1"
            return "<r>%s</r>" % out
        exp = dict(a=res(""), b=res("B"), c=res("BC"))
        depth = min(n, 25)
        chain = {"t0": "<r>%s</r>" % "".join('<py:block name="b%d">0</py:block>' % i for i in range(depth))}
        want = {"t0": "<r>" + "0" * depth + "</r>"}
        for k in range(1, depth):
            chain["t%d" % k] = '<py:extends href="t%d"><py:block name="b%d">%s</py:block></py:extends>' % (k - 1, k, chr(64 + k))
            want["t%d" % k] = "<r>0" + "".join(chr(64 + i) if i <= k else "0" for i in range(1, depth)) + "</r>"
        for s, e in ((srcs, exp), (chain, want)):
            order = list(e)
            got = attempt(lambda: render_chain(s, dict(v=1), order))
            if got != ("ok", [e[x] for x in order]):
                raise Failure("inheritance", dict(templates=s, rendered=order), [e[x] for x in order], repr(got[1]))
            t.add(str(s))


PARTS = [("random chains", chains, 6), ("many blocks and long chains", big, 1), ("fixed chains", fixed, 1)]
