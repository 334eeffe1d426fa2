"""C07: output buffers."""
import random, sys, gc
from . import common, gen
from .common import Failure, attempt
from .c01 import values, esc_s, Html2, Shout, Fmt


class Note:
    def __init__(self, t):
        self.t = t

    def __call__(self, inp):
        self.t.arm(inp)
        with open(self.t.cur, "w") as f:
            f.write(repr(inp))


class Bad:
    def __str__(self):
        raise ValueError("no string")


class NotStr:
    def __str__(self):
        return 3


class Reenter:
    """writes to the buffer while its own string form is taken"""
    def __init__(self, b):
        self.b = b

    def __str__(self):
        self.b("R")
        return "r"


def lit_values():
    return ["", "a", "<&>", "\xe4\u20ac\U0001f600", " ", "x" * 1000, 0, 1, -5, 2.5, None, True, False, b"by", [1, "2"], (), {"k": 1}, Html2(), gen.Plain("p<"), gen.StrSub("sub"), Shout("<&>"), Fmt(), gen.Html("<h>"), "\x00", "\ud800", "\n", Exception("e"), "a\x00b"]


def str_of(v):
    return str(v)


def sequences(t, rnd):
    """random programs over several buffers of one implementation against plain lists"""
    from markupsafe import Markup
    note = Note(t)
    gc.disable()          # garbage of earlier programs must not change reference counts
    n = 0
    while not t.over():
        n += 1
        if n % 100 == 0:
            gc.collect()
        prog_seed = rnd.randrange(10 ** 12)
        outs = {}
        for name, cls in common.buffers().items():
            r = random.Random(prog_seed)
            vals = lit_values() + [Markup("<m>"), Markup("&amp;")]
            note(dict(buffer=name, program_seed=prog_seed))
            bufs = [cls() for _ in range(r.randint(1, 4))]
            model = [[] for _ in bufs]
            log = []
            before = [(type(v), str_of(v)) for v in vals]
            refs = [sys.getrefcount(v) for v in vals]
            for step in range(r.randint(1, 25)):
                i = r.randrange(len(bufs))
                op = r.random()
                if op < .45:
                    args = [r.choice(vals) for _ in range(r.choice([0, 1, 1, 1, 2, 3, 7, 40]))]
                    log.append(("write", i, [repr(a)[:40] for a in args]))
                    got = attempt(lambda: bufs[i](*args))
                    if got != ("ok", None):
                        raise Failure("writing to a buffer", dict(buffer=name, program=log), None, repr(got[1]))
                    model[i] += [str_of(a) for a in args]
                elif op < .65:
                    j = r.randrange(len(bufs))
                    if i == j:
                        continue
                    k = r.choice([1, 1, 2])
                    pre, post = r.choice([(), ("<",), (1, "b")]), r.choice([(), (">",)])
                    log.append(("write buffer", i, j, k, pre, post))
                    got = attempt(lambda: bufs[i](*(pre + (bufs[j],) * k + post)))
                    if got != ("ok", None):
                        raise Failure("writing a buffer to a buffer", dict(buffer=name, program=log), None, repr(got[1]))
                    model[i] += [str(a) for a in pre] + list(model[j]) * k + [str(a) for a in post]
                elif op < .85:
                    nm = r.choice(["class", "x", "data-\xe4", "a:b"])
                    v = r.choice(vals + [bufs[(i + 1) % len(bufs)]] if len(bufs) > 1 else vals)
                    log.append(("attr", i, nm, repr(v)[:40]))
                    got = attempt(lambda: bufs[i].output_boolean_attr(nm, v))
                    if got[0] == "exc":
                        raise Failure("writing an attribute", dict(buffer=name, program=log), None, repr(got[1]))
                    if v is None or v is False:
                        pass
                    elif v is True:
                        model[i].append(' %s="%s"' % (nm, nm))
                    elif isinstance(v, cls):
                        model[i].append(' %s="%s"' % (nm, "".join(model[(i + 1) % len(bufs)])))
                    elif hasattr(v, "__html__"):
                        model[i].append(' %s="%s"' % (nm, v.__html__()))
                    else:
                        model[i].append(' %s="%s"' % (nm, esc_s(str_of(v))))
                elif op < .95:
                    how = r.choice(["join", "str", "html", "format"])
                    log.append((how, i))
                    b = bufs[i]
                    got = attempt(lambda: b.join() if how == "join" else str(b) if how == "str" else b.__html__().join() if how == "html" else "%s" % (b,))
                    e = "".join(model[i])
                    if got != ("ok", e) or type(got[1]) is not str:
                        raise Failure("joining a buffer (%s)" % how, dict(buffer=name, program=log), e, got[1])
                else:
                    log.append(("html", i))
                    if bufs[i].__html__() is not bufs[i]:
                        raise Failure("__html__ of a buffer is not the buffer", dict(buffer=name, program=log))
            for b, m in zip(bufs, model):
                got = attempt(b.join)
                if got != ("ok", "".join(m)):
                    raise Failure("contents of a buffer", dict(buffer=name, program=log), "".join(m), got[1])
            outs[name] = [b.join() for b in bufs]
            if [(type(v), str_of(v)) for v in vals] != before:
                raise Failure("a written value changed", dict(buffer=name, program=log), before, [(type(v), str_of(v)) for v in vals])
            b = m = got = args = v = None
            del bufs
            after = [sys.getrefcount(v_) for v_ in vals]
            low = [repr(x)[:30] for x, p, q in zip(vals, refs, after) if q < p]
            if low and name == "c":
                raise Failure("references of a written value were dropped", dict(buffer=name, program=log), "reference counts not below %r" % refs, low)
            t.add((name, prog_seed), sum(map(len, model)) > 3, sample=log if r.random() < .001 else None)
        if len(set(map(str, outs.values()))) > 1:
            raise Failure("the two buffers differ", dict(program_seed=prog_seed), outs.get("python"), outs.get("c"))


def special(t, rnd):
    note = Note(t)
    for name, cls in common.buffers().items():
        note((name, "special"))

        def eq(what, got, exp):
            t.add((name, what, repr(exp)[:50]))
            if got != exp:
                raise Failure(what, dict(buffer=name), exp, got)
        b = cls()
        eq("an empty buffer", (b.join(), str(b)), ("", ""))
        b()
        eq("no arguments", b.join(), "")
        for n in (1, 255, 256, 257, 1000, 5000):
            b = cls()
            b(*["%d," % i for i in range(n)])
            eq("many arguments", b.join(), "".join("%d," % i for i in range(n)))
            b = cls()
            for i in range(n):
                b("%d;" % i)
            eq("many calls", b.join(), "".join("%d;" % i for i in range(n)))
        # nested rendering: writing a copy keeps the contents at that moment
        a, b = cls(), cls()
        a("1")
        b(a)
        a("2")
        eq("a buffer written before more is written to it", (a.join(), b.join()), ("12", "1"))
        b(a, a)
        b("x")
        eq("the written buffer is unchanged", (a.join(), b.join()), ("12", "11212x"))
        e = cls()
        b(e)
        eq("an empty buffer contributes nothing", b.join(), "11212x")
        eq("joining twice", (b.join(), b.join(), str(b)), ("11212x",) * 3)
        # deep nesting
        chain = cls()
        chain("o")
        for i in range(300):
            n = cls()
            n("<", chain, ">")
            chain = n
        eq("deep nesting", chain.join(), "<" * 300 + "o" + ">" * 300)
        # subclasses of str and markup are written by their string form
        from markupsafe import Markup
        b = cls()
        b(Markup("<b>"), Shout("zz<"), 3, None, True, 1.0, "e")
        eq("string forms", b.join(), "<b>STR<zz3NoneTrue1.0e")
        eq("type of the result", type(b.join()), str)
        # values whose string form fails: the exception comes out, what was written before stays
        for bad, exc in ((Bad(), ValueError), (NotStr(), TypeError)):
            b = cls()
            b("a")
            got = attempt(lambda: b("b", bad, "c"))
            eq("exception of a value", type(got[1]), exc)
            eq("contents after an exception", b.join(), "ab")
            got = attempt(lambda: b.output_boolean_attr("k", bad))
            eq("exception of an attribute value", type(got[1]), exc)
        b = cls()
        b("[", Reenter(b), "]")
        eq("a value writing to the same buffer", b.join(), "[Rr]")
        got = attempt(lambda: cls()(x=1))
        eq("keyword arguments", type(got[1]), TypeError)
        b = cls()
        for v in (None, False, True, 0, 1, "", "x<", [], "True", "None", 0.0):
            b.output_boolean_attr("n", v)
        eq("attributes", b.join(), ' n="n" n="0" n="1" n="" n="x&lt;" n="[]" n="True" n="None" n="0.0"')
        a = cls()
        a("<i>", "'")
        b = cls()
        b.output_boolean_attr("n", a)
        eq("a buffer as attribute value", (b.join(), a.join()), (' n="<i>\'"', "<i>'"))
        # the same string object written many times
        s = "".join(["sh", "ared"])
        n0 = sys.getrefcount(s)
        b = cls()
        for i in range(50):
            b(s, s)
            b.output_boolean_attr(s, s)
        eq("a shared string", (b.join().count("shared"), s), (200, "shared"))
        del b
        if sys.getrefcount(s) < n0:
            raise Failure("references of a written value were dropped", dict(buffer=name), n0, sys.getrefcount(s))
        for v in (None, True, False):
            n0 = sys.getrefcount(v)
            for i in range(2000):
                b = cls()
                b.output_boolean_attr("q", v)
                b(v)
                b.join()
            if n0 < 2 ** 30 and sys.getrefcount(v) < n0 - 500:
                raise Failure("references of a constant were dropped", dict(buffer=name, value=v), n0, sys.getrefcount(v))
        # strings of every width
        for s in ("a", "\xe4", "\u20ac", "\U0001f600"):
            for s2 in ("a", "\xe4", "\u20ac", "\U0001f600"):
                b = cls()
                b(s, s2, s)
                eq("widths", b.join(), s + s2 + s)


def rendered(t, rnd):
    """buffers of definitions and blocks inside each other, through templates"""
    from tonnikala.loader import Loader
    cases = [("<r><py:def function=\"f\">[<b>x</b>]</py:def>${f()}${f()}|${f()}</r>", "<r>[<b>x</b>][<b>x</b>]|[<b>x</b>]</r>"),
             ("<r><py:def function=\"f\">[x]</py:def><py:with vars=\"q=f()\">$q$q<i a=\"$q\" b=\"-$q\"/>${str(q)}$q</py:with></r>", "<r>[x][x]<i a=\"[x]\" b=\"-[x]\"></i>[x][x]</r>"),
             ("<r><py:def function=\"f(n)\"><py:if test=\"n\">${n}(${f(n - 1)})</py:if></py:def>${f(4)}</r>", "<r>4(3(2(1())))</r>"),
             ("<r><py:def function=\"f\">a</py:def><py:def function=\"g\">${f()}b${f()}</py:def><py:def function=\"h\">${g()}c${g()}</py:def>${h()}</r>", "<r>abacaba</r>"),
             ("<r><py:def function=\"w(b)\">&lt;$b&gt;</py:def><py:def function=\"f\"><u/></py:def>${w(w(f()))}</r>", "<r>&lt;&lt;<u></u>&gt;&gt;</r>"),
             ("<r><py:block name=\"o\">1<py:block name=\"i\">2</py:block>3${i()}</py:block>${o()}</r>", "<r>12321232</r>"),
             ("<r><py:def function=\"f\">x</py:def><py:for each=\"i in [f()] * 3\">$i,</py:for></r>", "<r>x,x,x,</r>")]
    for s, e in cases:
        for name, cls in common.buffers().items():
            t.arm(s)
            with common.use_buffer(cls):
                tpl = Loader().load_string(s)
                for i in range(3):
                    got = attempt(lambda: tpl.render({}))
                    if got != ("ok", e):
                        raise Failure("nested output", dict(template=s, buffer=name), e, got[1])
            t.add((s, name))


PARTS = [("random programs", sequences, 5), ("special cases", special, 1), ("nested output", rendered, 1)]
