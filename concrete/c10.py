"""C10: imports."""
import itertools, os, random, shutil, tempfile
from . import common
from .common import Failure, attempt
from .c09 import render_chain


class Probe:
    """collects what the templates hand to it"""
    def __init__(self):
        self.seen = []

    def __call__(self, x):
        self.seen.append(x)
        return ""


def exposed(o):
    return {k: v for k, v in vars(o).items() if not k.startswith("_")}


def names_part(t, rnd):
    """the attributes of the alias are the names the imported template defines"""
    while not t.over():
        n = rnd.randint(0, 5)
        defs = rnd.sample(["f", "g", "h", "len2", "helper", "x1", "q", "_p", "_", "__d"], n)
        nested = rnd.random() < .4
        blocks = rnd.sample(["bl1", "bl2"], rnd.randint(0, 2))
        base_defs = rnd.sample(["f", "p", "z"], rnd.randint(0, 2)) if rnd.random() < .4 else None
        body = []
        for d in defs:
            body.append('<py:def function="%s(x=1)">[%s $x%s]</py:def>' % (d, d, " ${cv}" if rnd.random() < .5 else ""))
        for b in blocks:
            body.append('<py:block name="%s">{%s}</py:block>' % (b, b))
        if nested and base_defs is None:
            body.append('<py:if test="yes"><py:def function="inner()">no</py:def></py:if><p><py:def function="deep()">deep</py:def></p>')
        rnd.shuffle(body)
        src = {}
        mn, alias = rnd.choice(["m", "m", "m.tk", "f.tk", "g.tk", "f", "deep.tk", "bl1.html"]), rnd.choice(["m", "m", "f", "x1", "_m"])
        own = set(defs) | set(blocks)
        if nested and base_defs is None:
            own.add("deep")
        if base_defs is None:
            src[mn] = "<lib>" + "\n".join(body) + "</lib>"
        else:
            src["base"] = "<r>" + "".join('<py:def function="%s(x=1)">base %s $x</py:def>' % (d, d) for d in base_defs) + "</r>"
            src[mn] = '<py:extends href="base">' + "\n".join(body) + "</py:extends>"
            own |= set(base_defs)
        own.add("__main__")
        probe = Probe()
        ctx = dict(probe=probe, cv="CV", yes=1, other="o")
        given = {}
        for nm in rnd.sample(sorted(own - {"__main__"}) + ["unrelated"], min(1, len(own))):
            if rnd.random() < .3 and nm != alias:
                given[nm] = lambda x=0, nm=nm: "given-" + nm
        ctx.update(given)
        place = rnd.choice(["<r><py:import href=\"m\" alias=\"m\"/>${probe(m)}%s</r>", "<r><p><py:import href=\"m\" alias=\"m\"/>${probe(m)}</p>%s</r>", "<r><py:def function=\"d0()\">${probe(m)}</py:def><py:import href=\"m\" alias=\"m\"/>${d0()}%s</r>",
                            "<r><py:if test=\"yes\"><py:import href=\"m\" alias=\"m\"/>${probe(m)}</py:if></r>", "<r><py:for each=\"i in [1]\"><py:import href=\"m\" alias=\"m\"/>${probe(m)}</py:for></r>", "<r><py:def function=\"d0()\"><py:import href=\"m\" alias=\"m\"/>${probe(m)}</py:def>${d0()}</r>", "<r><py:block name=\"b0\"><py:import href=\"m\" alias=\"m\"/>${probe(m)}</py:block></r>"])
        place = place.replace('href="m" alias="m"', 'href="%s" alias="%s"' % (mn, alias)).replace("probe(m)", "probe(%s)" % alias)
        outdef = rnd.random() < .5
        mine = "".join('<py:def function="%s(x=2)">mine</py:def>' % x for x in rnd.sample(sorted(own - {"__main__"}), min(len(own) - 1, rnd.choice([0, 0, 1, 2]))) if x != alias)
        main = place.replace("%s", '<py:def function="own()">own</py:def>${probe(own)}' if outdef else "")
        if mine:
            main = main[:3] + mine + main[3:] if rnd.random() < .5 else main[:-4] + mine + main[-4:]
        src["main"] = main
        t.arm(src)
        before = dict(ctx)
        got = attempt(lambda: render_chain(src, ctx, ["main"]))
        if got[0] == "exc":
            raise Failure("a template with an import is not rendered", dict(templates=src, context=sorted(ctx)), "output", repr(got[1]))
        m = probe.seen[0]
        want = {x for x in own if x not in given and x != "__main__"}
        have = {k for k in vars(m) if k not in ("_name", "__main__")}
        if have != want:
            raise Failure("names of the import", dict(templates=src, context=sorted(ctx)), sorted(want), sorted(have))
        for k in sorted(want):
            f = getattr(m, k)
            if k in blocks:
                e = "{%s}" % k
            elif k == "deep":
                e = "deep"
            elif k in defs:
                d = next(b for b in body if 'function="%s(' % k in b)
                e = "[%s 1%s]" % (k, " CV" if "cv" in d else "")
            else:
                e = "base %s 1" % k
            g = attempt(lambda: str(f()))
            if g != ("ok", e):
                raise Failure("function of the import", dict(templates=src, name=k), e, repr(g[1]))
        for k in ["nosuch", "cv", "other", "probe", "len", "str", "yes", "gettext", "literal"] + sorted(given):
            g = attempt(lambda: getattr(m, k))
            if not (g[0] == "exc" and isinstance(g[1], AttributeError)):
                raise Failure("a name the imported template does not define", dict(templates=src, name=k, context=sorted(ctx)), "AttributeError", repr(g[1]))
        if outdef and len(probe.seen) > 1 and str(probe.seen[-1]()) != "own":
            raise Failure("definition of the importing template", src, "own", str(probe.seen[-1]()))
        if ctx != before:
            raise Failure("the context of the importing template changed", src, before, ctx)
        t.add(str(src), bool(want), sample=src if rnd.random() < .002 else None)


def fixed(t, rnd):
    cases = [
        ({"m": "<l><py:def function=\"f(x)\">m$x</py:def></l>", "main": "<r><py:import href=\"m\" alias=\"q\"/><py:def function=\"f(x)\">own$x</py:def>${f(1)}${q.f(2)}</r>"}, {}, "<r>own1m2</r>"),
        ({"m": "<l><py:def function=\"f(x)\">m$x</py:def></l>", "n": "<l><py:def function=\"f(x)\">n$x</py:def></l>", "main": "<r><py:import href=\"m\" alias=\"q\"/><py:import href=\"n\" alias=\"w\"/>${q.f(1)}${w.f(2)}${q.f(3)}</r>"}, {}, "<r>m1n2m3</r>"),
        ({"m": "<l><py:def function=\"f(x)\">${g(x)}</py:def><py:def function=\"g(x)\">g$x</py:def></l>", "main": "<r><py:def function=\"g(x)\">own</py:def><py:import href=\"m\" alias=\"q\"/>${q.f(1)}${g(1)}</r>"}, {}, "<r>g1own</r>"),
        ({"n": "<l><py:def function=\"k()\">K</py:def></l>", "m": "<l><py:import href=\"n\" alias=\"n\"/><py:def function=\"f()\">f${n.k()}</py:def></l>", "main": "<r><py:import href=\"m\" alias=\"q\"/>${q.f()}</r>"}, {}, "<r>fK</r>"),
        ({"m": "<l><py:def function=\"f()\">$v</py:def></l>", "main": "<r><py:with vars=\"v='inner'\"><py:import href=\"m\" alias=\"q\"/>${q.f()}$v</py:with></r>"}, dict(v="V"), "<r>Vinner</r>"),
        ({"m": "<l><py:def function=\"f()\">&lt;<b/></py:def></l>", "main": "<r><py:import href=\"m\" alias=\"q\"/>${q.f()}<i a=\"${q.f()}\" b=\"-${q.f()}\"/></r>"}, {}, "<r>&lt;<b></b><i a=\"&lt;<b></b>\" b=\"-&lt;<b></b>\"></i></r>"),
        ({"m": "<l><py:def function=\"f()\">m</py:def></l>", "main": "<r><py:import href=\"m\" alias=\"q\"/><py:import href=\"m\" alias=\"w\"/>${q.f()}${w.f()}</r>"}, dict(q="ctx"), "<r>mm</r>"),
        ({"m": "<l><py:def function=\"f()\">m</py:def></l>", "b": "<r><py:block name=\"t\">A</py:block><py:import href=\"m\" alias=\"z\"/>${z.f()}</r>", "main": "<py:extends href=\"b\"><py:import href=\"m\" alias=\"q\"/><py:block name=\"t\">${q.f()}</py:block></py:extends>"}, {}, "<r>mm</r>"),
        ({"m": "<l><py:def function=\"f(x)\"><py:if test=\"x\">$x${f(x - 1)}</py:if></py:def></l>", "main": "<r><py:import href=\"m\" alias=\"q\"/>${q.f(3)}</r>"}, {}, "<r>321</r>"),
    ]
    for n in (8, 40, 120):
        cases.append(({"m": "<l>%s</l>" % "".join('<py:def function="f%d(x)">F%d$x$v</py:def>' % (i, i) for i in range(n)), "main": '<r><py:import href="m" alias="q"/>%s</r>' % "".join("${q.f%d(%d)}" % (i, i) for i in range(n))}, dict(v="V"), "<r>%s</r>" % "".join("F%d%dV" % (i, i) for i in range(n))))
        cases.append((dict({"m%d" % i: '<l><py:def function="f(x)">F%d$x</py:def></l>' % i for i in range(n)}, main="<r>%s%s</r>" % ("".join('<py:import href="m%d" alias="q%d"/>' % (i, i) for i in range(n)), "".join("${q%d.f(%d)}" % (i, i) for i in range(n)))), {}, "<r>%s</r>" % "".join("F%d%d" % (i, i) for i in range(n))))
    # an alias belongs to the definition, block or template it is written in
    homes = {"def": '<py:def function="d%d()">%s</py:def>${d%d()}', "block": '<py:block name="b%d">%s</py:block>', "with": '<py:with vars="y%d = 1">%s</py:with>', "for": '<py:def function="e%d()"><py:for each="i in [1]">%s</py:for></py:def>${e%d()}', "if": '<py:with vars="z%d = 1"><py:if test="z%d">%s</py:if></py:with>'}
    two = {k: "<l><py:def function=\"f()\">%s</py:def></l>" % k for k in "mno"}
    i1, i2 = ('<py:import href="%s" alias="q"/>${q.f()}' % x for x in "mn")
    for h1, h2 in itertools.product(homes.values(), repeat=2):
        h1, h2 = h1.replace("%d", "1"), h2.replace("%d", "2")
        cases.append((dict(two, main="<r>%s%s</r>" % (h1 % i1, h2 % i2)), {}, "<r>mn</r>"))
        cases.append((dict(two, main="<r>%s</r>" % (h1 % (i1 + h2 % i2 + "${q.f()}"))), {}, "<r>mnm</r>"))
        cases.append((dict(two, main='<r><py:import href="o" alias="q"/>%s%s${q.f()}</r>' % (h1 % i1, h2 % i2)), {}, "<r>mno</r>"))
    for src, ctx, e in cases:
        for again in (1, 2):
            t.arm(src)
            c = dict(ctx)
            got = attempt(lambda: render_chain(src, c, ["main"] * again))
            if got != ("ok", [e] * again):
                raise Failure("import", dict(templates=src, context=ctx), e, repr(got[1]))
            if c != ctx:
                raise Failure("the context changed", dict(templates=src), ctx, c)
            t.add((str(src), again), sample=src)
    # unknown names
    for expr in ("q.nosuch", "q.nosuch()", "q.v", "q.len", "q.q", "q.main", "q.render", "q.gettext", "q.f.nosuch"):
        src = {"m": "<l><py:def function=\"f()\">m</py:def></l>", "main": "<r><py:import href=\"m\" alias=\"q\"/>${%s}</r>" % expr}
        got = attempt(lambda: render_chain(src, dict(v=1), ["main"]))
        if not (got[0] == "exc" and isinstance(got[1], AttributeError)):
            raise Failure("a name the import does not have", src, "AttributeError", repr(got[1]))
        t.add(expr)


def direct(t, rnd):
    """import_defs itself: only what differs from the given context by identity or is new"""
    import_defs = common.internal("tonnikala.runtime.python", "TonnikalaRuntime.import_defs", ["self", "context", "href"])
    from tonnikala.runtime.python import TonnikalaRuntime
    for n in range(4000):
        keys = ["k%d" % i for i in range(6)]
        a, b, c = object(), [], ""
        vals = [a, b, [], c, None, False, 0, True, 1, "x"]
        ctx = {k: rnd.choice(vals) for k in keys if rnd.random() < .6}
        new = {k: rnd.choice(vals) for k in keys if rnd.random() < .5}

        class Tp:
            def bind(self, context):
                context.update(new)

        class Ld:
            def load(self, href):
                assert href == "h"
                return Tp()
        rt = TonnikalaRuntime()
        rt.loader = Ld()
        before = dict(ctx)
        t.last = (ctx, new)
        got = attempt(lambda: rt.import_defs(ctx, "h"))
        if got[0] == "exc":
            raise Failure("import_defs", (ctx, new), "an object", repr(got[1]))
        want = {k: v for k, v in new.items() if not (k in before and before[k] is v)}
        have = {k: v for k, v in vars(got[1]).items() if k != "_name"}
        if set(have) != set(want) or any(have[k] is not want[k] for k in want):
            raise Failure("names of an import", (before, new), want, have)
        if ctx != before or any(ctx[k] is not before[k] for k in before):
            raise Failure("the given context changed", (before, new), before, ctx)
        t.add((repr(before), repr(new)), bool(want))


def again(t, rnd):
    """a template with imports rendered again, with other values: what the import gives does not depend on the history"""
    from tonnikala.loader import FileLoader
    d = tempfile.mkdtemp(prefix="c10-", dir=common.scratch())
    try:
        srcs = {"i": '<l><py:def function="f()">[$x|$y]</py:def><py:def function="g()">g</py:def><py:block name="bl">b$x</py:block></l>',
                "m": '<r><py:import href="i" alias="i"/>${i.f()}${probe(i)}</r>', "n": '<r><py:def function="k()"><py:import href="i" alias="x1"/>${x1.f()}${probe(x1)}</py:def>${k()}</r>',
                "e": '<py:extends href="m"/>'}
        for n, s in srcs.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(s)
        for n in range(40):
            one, seq = FileLoader([d]), []
            for i in range(rnd.randint(2, 5)):
                ctx = {k: rnd.choice([1, True, "a", None, 1.0]) for k in ("x", "y")}
                for k in ("z", "g", "f", "bl"):
                    if rnd.random() < .25:
                        ctx[k] = lambda k=k: "given " + k
                name = rnd.choice("mmne")
                seq.append((name, {k: v if not callable(v) else "a function" for k, v in ctx.items()}))

                def outcome(lo):
                    p = Probe()
                    r = attempt(lambda: lo.load(name).render(dict(ctx, probe=p)))
                    return (r[0], r[1] if r[0] == "ok" else repr(r[1])), [sorted(vars(o)) for o in p.seen]
                got, e = outcome(one), outcome(FileLoader([d]))
                if got != e:
                    raise Failure("an import in a template rendered before with other values", dict(templates=srcs, renderings=seq), e, got)
            t.add(str(seq))
    finally:
        shutil.rmtree(d, ignore_errors=True)


PARTS = [("random imports", names_part, 4), ("renderings in a row", again, 1), ("fixed imports", fixed, 1), ("import_defs", direct, 1)]
