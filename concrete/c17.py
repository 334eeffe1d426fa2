"""C17: exceptions raised while rendering."""
import random, traceback
from . import common, gen
from .common import Failure, attempt
from .c14 import kinds


class Req(Exception):
    """cannot be created again from its args"""
    def __init__(self, a, *, b):
        super().__init__(a)
        self.a, self.b = a, [b]

    def __reduce__(self):
        raise AssertionError("copied")

    __copy__ = __deepcopy__ = __reduce__


class Slots(Exception):
    __slots__ = ("q",)


class BadStr(Exception):
    def __str__(self):
        raise AssertionError("str of the exception")
    __repr__ = __str__


class Eq(Exception):
    def __eq__(self, o):
        raise AssertionError("comparison of the exception")
    __hash__ = None

    def __bool__(self):
        return False


class Counting(Exception):
    made = 0

    def __new__(cls, *a):
        cls.made += 1
        return super().__new__(cls, *a)


class Own(BaseException):
    pass


def make(rnd):
    from tonnikala.runtime.exceptions import TemplateSyntaxError, TemplateError
    k = rnd.randrange(19)
    if k == 0:
        return Req("x", b="y")
    if k == 1:
        e = Slots("a", 1)
        e.q = []
        return e
    if k == 2:
        return BadStr(1, 2, 3)
    if k == 3:
        return Eq()
    if k == 4:
        return Counting("c")
    if k == 5:
        return KeyError("k", 2)
    if k == 6:
        e = ValueError({"a": 1})
        e.__cause__ = TypeError("cause")
        return e
    if k == 7:
        e = ValueError("v")
        e.add_note("note") if hasattr(e, "add_note") else None
        e.extra = [1]
        return e
    if k == 8:
        return StopIteration("s")
    if k == 9:
        return ExceptionGroup("g", [ValueError(1), KeyError(2)])
    if k == 10:
        return TemplateSyntaxError("user's own", lineno=77, filename="other.tk", source="src")
    if k == 11:
        return NameError("n")
    if k == 12:
        return RecursionError("r")
    if k == 13:
        return AttributeError("a", name="nm", obj=3)
    if k == 14:
        return SyntaxError("m", ("f.py", 3, 4, "text"))
    if k == 15:
        return UnicodeDecodeError("utf8", b"x", 0, 1, "reason")
    if k == 16:
        return OSError(2, "msg", "file")
    if k == 17:
        e = RuntimeError()
        e.__suppress_context__ = True
        return e
    return TemplateError("te")


def state(e):
    return (type(e), e.args if type(e) is not OSError else (e.errno, e.strerror, e.filename), id(e.args) if False else None, {k: (id(v), repr(v) if not isinstance(v, BaseException) else 0) for k, v in vars(e).items()}, id(e.__cause__), e.__suppress_context__,
            getattr(e, "q", None), getattr(e, "lineno", None), getattr(e, "filename", None), getattr(e, "msg", None), getattr(e, "name", None), str(e) if not isinstance(e, (BadStr,)) else None)


FN = "/nonexistent/dir/t.tk"


def check(t, src, ctx, err, line, fn=FN, load=None, desc=None):
    from tonnikala.loader import Loader
    before = state(err)
    chain = err.__cause__
    cx = err.__context__
    made = Counting.made
    t.arm(src)
    tp = load() if load else Loader().load_string(src, filename=fn)
    got = attempt(lambda: tp.render(ctx))
    inp = dict(template=src, exception=type(err).__name__)
    if got[0] == "ok":
        raise Failure("a failing expression gives output", inp, "the exception", got[1])
    if got[1] is not err:
        raise Failure("the exception is replaced by another", inp, "the same %s object" % type(err).__name__, "%s: %s" % (type(got[1]).__name__, got[1]) if not isinstance(got[1], BadStr) else type(got[1]))
    after = state(err)
    if after != before:
        raise Failure("the exception is changed", inp, before, after)
    if err.__cause__ is not chain:
        raise Failure("the cause of the exception is changed", inp, repr(chain), repr(err.__cause__))
    if err.__context__ is not cx:
        raise Failure("the context of the exception is changed", inp, repr(cx), repr(err.__context__))
    if Counting.made != made:
        raise Failure("the exception is created again", inp, made, Counting.made)
    if isinstance(err, Exception) and line is not None:
        fr = [(f.filename, f.lineno) for f in traceback.extract_tb(err.__traceback__) if f.filename.endswith(".tk")]
        if not fr or fr[-1] != (fn, line):
            raise Failure("template file and line in the traceback", inp, (fn, line), fr)
    t.add((src, type(err).__name__), sample=src if len(t.samples) < 3 else None)


def grid(t, rnd):
    ks = kinds() + ["<?py @ ?>", "<?python\nx9 = 1\n\nx8 = @\n?>", "<?python   if 1 == 1:\n  @\n?>", "<?py   @?>", "<?py\n\n\n  @ ?>", "<!-- a -->\n<?python x7 = [@\n for x6 in (1,)]?>"]
    wraps = [("<html>", "</html>"), ("<html>\n<p>", "</p></html>"), ('<html py:if="x">\n', "</html>"), ('<html><py:for each="w in [1]">\n', "</py:for></html>"), ('<html>\n<div py:strip="x">', "</div></html>"), ('<html>\n<py:with vars="z=1">\n', "</py:with></html>")]
    while not t.over():
        for k in ks:
            err = make(rnd)
            deep = rnd.random() < .4

            def raiser(*a):
                raise err

            def boom(*a):
                if deep:
                    return [raiser() for _ in (1,)]
                raise err
            if isinstance(err, StopIteration) and "for" in k:
                continue
            w = rnd.choice(wraps)
            body = w[0] + k
            src = body.replace("@", "boom()") + w[1]
            check(t, src, dict(boom=boom, x=1, y=2, x2=[]), err, body[:body.index("@")].count("\n") + 1)


class Obj:
    def __init__(self, boom):
        self.__dict__["boom"] = boom

    def __str__(self):
        self.boom()

    def __html__(self):
        self.boom()

    def __bool__(self):
        self.boom()

    def __iter__(self):
        self.boom()

    def __getattr__(self, n):
        if n == "boomattr":
            self.boom()
        raise AttributeError(n)

    def __getitem__(self, i):
        self.boom()

    def __call__(self):
        self.boom()


class StrOnly:
    def __init__(self, boom):
        self.boom = boom

    def __str__(self):
        self.boom()


class Late:
    """iterates twice, then fails"""
    def __init__(self, boom):
        self.boom = boom

    def __iter__(self):
        yield 1
        yield 2
        self.boom()


def protocol(t, rnd):
    """exceptions from whatever an expression's value calls during rendering"""
    cases = [("<r>\n${o}</r>", 2), ("<r>\n$o</r>", 2), ('<r>\n<a b="$o"/></r>', 2), ('<r>\n<a\n b="x$o"/></r>', 3), ("<r>\n\n${s}</r>", 3), ('<r>\n<a b="$s"/></r>', 2), ('<r>\n<a b="x $s"/></r>', 2), ('<r>\n<a py:if="o">x</a></r>', 2), ('<r>\n<a py:for="i in o">x</a></r>', None), ('<r>\n<a py:for="i in late">$i</a></r>', None),
             ('<r>\n<a py:strip="o">x</a></r>', 2), ('<r>\n<a py:content="o">x</a></r>', 2), ('<r>\n<a py:replace="s">x</a></r>', 2), ('<r>\n<a py:attrs="o">x</a></r>', 2), ("<r>\n<a py:attrs=\"[('a', s)]\">x</a></r>", 2), ("<r>\n<a py:attrs=\"[('a', o)]\">x</a></r>", 2), ("<r>\n${o.boomattr}</r>", 2), ("<r>\n${o[1]}</r>", 2), ("<r>\n$o[1]</r>", 2), ("<r>\n\n$o()</r>", 3), ('<r>\n${literal(s)}</r>', None),
             ('<r>\n<py:def function="f(a)">\n$a\n</py:def>\n${f(s)}</r>', 3), ('<r>\n${"".join(late)}</r>'.replace('"".join(late)', "[i for i in late]"), 2), ('<r><script>\n${s}</script></r>', 2), ("<r>${len(x)}\n${'%s' % s}</r>", 2), ("<r>\n<py:block name=\"q\">\n$s</py:block></r>", 3)]
    while not t.over():
        for src, line in cases:
            for bn, b in common.buffers().items():
                err = make(rnd)

                def boom(*a):
                    raise err
                if isinstance(err, StopIteration) or (isinstance(err, AttributeError) and "o" in src):
                    continue
                if isinstance(err, (TypeError, KeyError)) and "attrs" in src:
                    pass
                with common.use_buffer(b):
                    check(t, src, dict(o=Obj(boom), s=StrOnly(boom), late=Late(boom), x=[1]), err, line)
        break


def builtin_errors(t, rnd):
    """errors of Python itself have their usual type and message"""
    import re
    for n in (127, 255, 256, 1000, 4095, 4096, 5000, 32768, 70000):
        for a, z in (("<html>%s<p>", "</p></html>"), ("<html><p%sclass='", "'/></html>"), ("<html><py:def function='fx()'>%s", "</py:def>${fx()}</html>")):
            err = ZeroDivisionError("far")

            def far():
                raise err
            check(t, a % ("\n" * n) + "${far()}" + z, dict(far=far), err, None if "class" in a else n + 1)
    for expr, typ, pat in [("1 / 0", ZeroDivisionError, "division by zero"), ("[][3]", IndexError, "list index"), ("{}['k']", KeyError, "'k'"), ("nosuch", NameError, "nosuch"), ("x.nosuch", AttributeError, "nosuch"), ("len(3)", TypeError, "has no len"), ("int('q')", ValueError, "invalid literal"), ("'a' + 1", TypeError, "concatenate|unsupported"), ("x()", TypeError, "not callable"), ("next(iter([]))", StopIteration, ""), ("f2(1)", TypeError, "missing 1 required")]:
        for k in kinds():
            if typ is StopIteration and "for" in k or "$@" in k:
                continue
            pre = "<html>\n"
            if "'" in expr and "b='" in k:
                continue
            src = pre + k.replace("@", expr) + '<py:def function="f2(a, b)">x</py:def></html>'
            line = (pre + k[:k.index("@")]).count("\n") + 1
            from tonnikala.loader import Loader
            t.arm(src)
            got = attempt(lambda: Loader().load_string(src, filename=FN).render(dict(x=1, y=2, x2=[])))
            if got[0] == "ok" or type(got[1]) is not typ and not (typ is NameError and isinstance(got[1], NameError)) or not re.search(pat, str(got[1])):
                raise Failure("an error in an expression", src, (typ.__name__, pat), repr(got[1]))
            fr = [(f.filename, f.lineno) for f in traceback.extract_tb(got[1].__traceback__) if f.filename.endswith(".tk")]
            if not fr or (line != fr[-1][1] or fr[-1][0] != FN) and typ is not TypeError:
                raise Failure("template file and line in the traceback", src, (FN, line), fr)
            t.add(src)


def several_templates(t, rnd):
    """base, derived and imported templates: each frame names its own file and line"""
    from tonnikala.loader import Loader

    class L(Loader):
        def __init__(self, srcs):
            super().__init__()
            self.c, self.srcs = {}, srcs

        def load(self, n):
            if n not in self.c:
                self.c[n] = self.load_string(self.srcs[n], filename=n)
            return self.c[n]
    B = '<r>\n<py:block name="a">\nbase</py:block>\n\n<py:def function="f(x)">\n$x\n${boom(x)}</py:def>\n<py:block name="c">${f(3)}</py:block></r>'
    cases = [
        (dict(b=B, d='<py:extends href="b">\n<py:block name="a">\n\n${boom(0)}</py:block></py:extends>'), "d", [("b", 2), ("d", 4)]),
        (dict(b=B, d='<py:extends href="b">\n<py:block name="a">x</py:block></py:extends>'), "d", [("b", 8), ("b", 8), ("b", 7)]),
        (dict(b=B, d='<py:extends href="b">\n<py:block name="a">\n${f(2)}</py:block></py:extends>'), "d", [("b", 2), ("d", 3), ("b", 7)]),
        (dict(b=B, d='<py:extends href="b">\n\n\n<py:def function="f(z)">\n${boom(2)}</py:def></py:extends>'), "d", [("b", 8), ("b", 8), ("d", 5)]),
        (dict(b=B, m='<r>\n\n<py:import href="b" alias="q"/>\n\n${q.f(1)}</r>'), "m", [("m", 5), ("b", 7)]),
        (dict(b=B, m='<r>\n<py:import href="b" alias="q"/>\n<py:for each="i in [1]">\n<py:def function="g(y)">\n\n${q.f(1)}</py:def>\n${g(1)}\n</py:for></r>'), "m", [("m", 7), ("m", 6), ("b", 7)]),
        (dict(b=B, d='<py:extends href="b"><py:block name="a">\nx</py:block></py:extends>', e='<py:extends href="d">\n<py:block name="c">\n${boom(1)}</py:block></py:extends>'), "e", [("b", 8), ("e", 3)]),
    ]
    for srcs, main, frames in cases:
        for rep in range(6):
            err = make(rnd)

            def boom(*a):
                raise err
            files = {k + ".tk": v.replace('href="', 'href="').replace('href="b"', 'href="b.tk"').replace('href="d"', 'href="d.tk"') for k, v in srcs.items()}
            lo = L(files)
            check(t, str(files), dict(boom=boom), err, frames[-1][1], fn=frames[-1][0] + ".tk", load=lambda: lo.load(main + ".tk"))
            fr = [(f.filename, f.lineno) for f in traceback.extract_tb(err.__traceback__) if f.filename.endswith(".tk")]
            if fr != [(a + ".tk", b) for a, b in frames]:
                raise Failure("template frames of the traceback", files, frames, fr)


def base_exceptions(t, rnd):
    """exceptions that are not errors, and a rendering after a failed one"""
    from tonnikala.loader import Loader
    for src in ("<r>\n${boom()}</r>", '<r a="${boom()}"/>', '<r py:attrs="boom()"/>', '<r><py:def function="f()">${boom()}</py:def>${f()}</r>'):
        for err in (Own(1), SystemExit(3), GeneratorExit(), KeyboardInterrupt("k")):
            def boom():
                raise err
            tp = Loader().load_string(src, filename=FN)
            try:
                r = tp.render(dict(boom=boom))
            except BaseException as e:
                if e is not err:
                    raise Failure("the exception is replaced by another", src, repr(err), repr(e))
            else:
                raise Failure("a failing expression gives output", src, repr(err), r)
            t.add((src, repr(err)))
    # the exception was raised before: its old traceback is kept below the caller's
    tp = Loader().load_string("<r>\n${boom()}</r>", filename=FN)
    err = ValueError("again")

    def boom():
        raise err
    for i in range(3):
        got = attempt(lambda: tp.render(dict(boom=boom)))
        if got[1] is not err:
            raise Failure("an exception raised a second time", "render %d" % i, repr(err), repr(got[1]))
        t.add(i)
    # however deep the application's own frames are
    def deep(n):
        if n:
            return deep(n - 1)
        raise err
    for n in (0, 1, 3, 30, 62, 80, 200):
        for src in ("<r>\n${deep(n)}</r>", '<r>\n<py:def function="f()">${deep(n)}</py:def>${f()}</r>'):
            t.arm((src, n))
            got = attempt(lambda: Loader().load_string(src, filename=FN).render(dict(deep=deep, n=n)))
            tb = traceback.extract_tb(got[1].__traceback__) if got[0] == "exc" else []
            fr = [f.name for f in tb if f.name == "deep"]
            tk = [f.lineno for f in tb if f.filename == FN]
            if got[1] is not err or len(fr) != n + 1 or not tk or set(tk) != {2}:
                raise Failure("the traceback of an error deep in the application", (src, n), (n + 1, 2), (len(fr), tk))
            err.__traceback__ = None
            t.add((src, n))
    # context of a chained exception
    def chained():
        try:
            {}["k"]
        except KeyError:
            raise err2
    err2 = ValueError("chained")
    got = attempt(lambda: tp.render(dict(boom=chained)))
    if got[1] is not err2 or not isinstance(err2.__context__, KeyError):
        raise Failure("context of a chained exception", "chained", "KeyError", repr(err2.__context__))
    # while another exception is handled by the caller
    err3 = ValueError("inner")

    def b3():
        raise err3
    try:
        raise TypeError("outer")
    except TypeError as o:
        got = attempt(lambda: tp.render(dict(boom=b3)))
        if got[1] is not err3 or err3.__context__ is not o:
            raise Failure("an exception while the caller handles another", "handled", repr(o), repr(err3.__context__))


PARTS = [("grid", grid, 3), ("protocols", protocol, 1), ("python errors", builtin_errors, 1), ("several templates", several_templates, 1), ("other exceptions", base_exceptions, 1)]
