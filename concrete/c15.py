"""C15: translation."""
import random, re
from . import common, gen, render, tree
from .common import Failure, attempt
from .tree import *

WSTR = re.compile(r"\A(\s*)(.*?)(\s*)\Z", re.S)
TX = ["foo", "bar baz", " a ", "\n x\n ", " ", "\n", "&", "<q>", "it's", "\xa0y\xa0", "\u2003z", "a  b", "$", "x\n\ny", "\t", "\"", "0", "q\x0b"]


def ttext(rnd, kmax=3):
    return "".join(rnd.choice(TX) for _ in range(rnd.randint(1, kmax)))


def tr(x):
    return "T<" + x + ">"


def differential(t, rnd):
    while not t.over():
        g = gen.Gen(rnd, budget=rnd.choice([4, 8, 14, 25]), textf=ttext)
        render.check(t, g.template(), gen.mk_ctx, rnd, tr, what="translated output")


def starttags(s):
    return re.sub(r"<([a-z][\w:.-]*)((?:\s+[\w:-]+(?:=\"[^\"]*\")?)+)", lambda m: "<" + m.group(1) + " " + " ".join(sorted(re.findall(r"[\w:-]+(?:=\"[^\"]*\")?", m.group(2)))), s)


RAWX = re.compile(r"literal|\bh\b|\bmk\b")


def identity(t, rnd):
    """with an identity translation the output is that of the template compiled without translation"""
    while not t.over():
        g = gen.Gen(rnd, budget=rnd.choice([4, 8, 14, 25]), textf=ttext, exprs=[x for x in gen.TEXT_EXPRS if not RAWX.search(x)], dexprs=[x for x in gen.DOLLAR_EXPRS if not RAWX.search(x)])
        s = tree.src(g.template(), rnd)
        t.arm(s)
        plain = attempt(lambda: tree.real(s, gen.mk_ctx()))
        for gt in ("given", "default"):
            c = gen.mk_ctx()
            if gt == "given":
                c["gettext"] = lambda x: x
            tl = attempt(lambda: tree.real(s, c, translatable=True))
            if plain[0] == "exc":
                if tl[0] == "ok":
                    raise Failure("identity translation", s, repr(plain[1]), tl[1])
            elif tl[0] == "exc" or (tl[1] != plain[1] and starttags(tl[1]) != starttags(plain[1])):
                raise Failure("identity translation", dict(template=s, gettext=gt), plain[1], repr(tl[1]))
        t.add(s, plain[0] == "ok", sample=s if rnd.random() < .002 else None)


class Rec:
    def __init__(self, f):
        self.calls, self.f = [], f

    def __call__(self, x):
        self.calls.append(x)
        return self.f(x)


def messages(t, rnd):
    """exactly the translatable messages are passed to the translation, in order"""
    while not t.over():
        feats = {"text", "interp", "elem", "attr", "comment", "script", "void", "strip"}
        g = gen.Gen(rnd, budget=rnd.choice([4, 8, 14]), textf=ttext, features=feats, conds=["n", "0"])
        nodes = g.template()
        want = []

        def msg(s):
            m = WSTR.match(s).group(2)
            if m:
                want.append(m)

        def go(ns, notr):
            for n in ns:
                if isinstance(n, T) and not notr:
                    msg(n.s)
                elif isinstance(n, El):
                    st = n.dirs.get("strip")
                    stripped = st is not None and not st.strip()
                    if not stripped:
                        for k, v in n.attrs:
                            if k in TR_ATTRS and v and not notr:
                                for p in v:
                                    if isinstance(p, T):
                                        msg(p.s)
                    go(n.kids, notr or n.tag in ("script", "style"))
        go(nodes, False)
        s = tree.src(nodes, rnd)
        t.arm(s)
        rec = Rec(tr)
        c = gen.mk_ctx()
        c["gettext"] = rec
        r = attempt(lambda: tree.real(s, c, translatable=True))
        if r[0] == "exc":
            continue
        if sorted(rec.calls) != sorted(want) or any(type(x) is not str and not isinstance(x, str) for x in rec.calls):
            raise Failure("messages passed to the translation", s, sorted(want), sorted(rec.calls))
        # nothing is translated in a template that is not translatable
        rec2 = Rec(tr)
        c = gen.mk_ctx()
        c["gettext"] = rec2
        r = attempt(lambda: tree.real(s, c))
        if rec2.calls:
            raise Failure("translation in a template that is not translatable", s, [], rec2.calls)
        t.add(s, bool(want), sample=s if rnd.random() < .002 else None)


def fixed(t, rnd):
    from markupsafe import Markup
    B = dict(gettext=tr, x="<v>", n=0, yes=True, l=[1, 2])
    e = "T&lt;%s&gt;"
    cases = [
        ("<r>foo</r>", "<r>" + e % "foo" + "</r>"), ("<r> foo </r>", "<r> " + e % "foo" + " </r>"), ("<r>\n\n foo bar\t</r>", "<r>\n\n " + e % "foo bar" + "\t</r>"), ("<r> </r>", "<r> </r>"), ("<r>\xa0foo\u2003</r>", "<r>\xa0" + e % "foo" + "\u2003</r>"),
        ("<r>a\n b</r>", "<r>" + e % "a\n b" + "</r>"), ("<r>a $x b</r>", "<r>" + e % "a" + " &lt;v&gt; " + e % "b" + "</r>"), ("<r>${x}a</r>", "<r>&lt;v&gt;" + e % "a" + "</r>"), ("<r>$$ a</r>", "<r>" + e % "$ a" + "</r>"), ("<r>a$$$x$$b</r>", "<r>" + e % "a$" + "&lt;v&gt;" + e % "$b" + "</r>"),
        ("<r>&lt;a&amp;</r>", "<r>" + e % "&lt;a&amp;" + "</r>"), ("<r>a<b>c</b> d</r>", "<r>" + e % "a" + "<b>" + e % "c" + "</b> " + e % "d" + "</r>"),
        ("<r><script>foo $x</script><style>bar</style>z</r>", "<r><script>foo &lt;v&gt;</script><style>bar</style>" + e % "z" + "</r>"), ("<r><script>a<b>c</b></script>d</r>", "<r><script>a<b>c</b></script>" + e % "d" + "</r>"),
        ("<r><script>foo</script>x<p>y</p></r>", "<r><script>foo</script>" + e % "x" + "<p>" + e % "y" + "</p></r>"), ("<r><p><style>a</style>b</p>c</r>", "<r><p><style>a</style>" + e % "b" + "</p>" + e % "c" + "</r>"),
        ('<r title="foo"/>', '<r title="' + e % "foo" + '"></r>'), ('<r title=" foo "/>', '<r title=" ' + e % "foo" + ' "></r>'), ('<r class="foo" id="x">a</r>', '<r class="foo" id="x">' + e % "a" + "</r>"),
        ('<r alt="a" placeholder="b" value="c" caption="d" title="e"/>', '<r alt="%s" placeholder="%s" value="%s" caption="%s" title="%s"></r>' % tuple(e % c for c in "abcde")), ('<r title="a" class="b"/>', '<r class="b" title="' + e % "a" + '"></r>'),
        ('<r title="a $x b"/>', '<r title="' + e % "a" + " &lt;v&gt; " + e % "b" + '"></r>'), ('<r title="$x"/>', '<r title="&lt;v&gt;"></r>'), ('<r title="${yes}" alt="${n}"/>', '<r title="title" alt="0"></r>'), ('<r class="a $x b"/>', '<r class="a &lt;v&gt; b"></r>'),
        ('<r title=""/>', '<r title=""></r>'), ("<r title/>", "<r title></r>"), ('<r title=" "/>', '<r title=" "></r>'), ('<r href="a" data-title="b" titles="c"/>', '<r href="a" data-title="b" titles="c"></r>'), ('<r title="&quot;&lt;"/>', '<r title="' + e % "&#34;&lt;" + '"></r>'), ('<script title="a">b</script>', '<script title="%s">b</script>' % (e % "a")), ('<r><style alt="a">b</style></r>', '<r><style alt="%s">b</style></r>' % (e % "a")),
        ("<r><!-- foo -->a</r>", "<r><!-- foo -->" + e % "a" + "</r>"), ('<r><py:if test="x">a</py:if></r>', "<r>" + e % "a" + "</r>"), ('<r><py:for each="i in l">a$i</py:for></r>', "<r>" + (e % "a" + "1") + (e % "a" + "2") + "</r>"), ('<r><py:def function="f()"> a </py:def>${f()}</r>', "<r> " + e % "a" + " </r>"),
        ('<r><py:block name="b">a</py:block></r>', "<r>" + e % "a" + "</r>"), ('<r><py:with vars="q=1">a$q</py:with></r>', "<r>" + e % "a" + "1</r>"), ('<r py:strip="">a</r>', e % "a"), ('<r py:content="x">a</r>', "<r>&lt;v&gt;</r>"), ("<r>${'a'}</r>", "<r>a</r>"), ("<r>${gettext('a')}</r>", "<r>" + e % "a" + "</r>"), ('<r a="${gettext(\'a\')}"/>', '<r a="' + e % "a" + '"></r>'),
        ('<r py:attrs="[(\'title\', \'a\')]"/>', '<r title="a"></r>'), ("<!DOCTYPE html><r>a</r>", "<!DOCTYPE html><r>" + e % "a" + "</r>"), ("<r>\x1fa\x1c</r>", "<r>\x1f" + e % "a" + "\x1c</r>"),
    ]
    for s, exp in cases:
        for bn, b in common.buffers().items():
            c = dict(B)
            with common.use_buffer(b):
                r = attempt(lambda: tree.real(s, c, translatable=True))
            if r != ("ok", exp):
                raise Failure("translated output", dict(template=s, buffer=bn), exp, repr(r[1]))
            t.add((s, bn), sample=s)
    # translations that carry markup, and one translation function per rendering
    from tonnikala.loader import Loader
    tp = Loader(translatable=True).load_string('<r title="a">b $x c</r>')
    for f, exp in [(lambda m: Markup("<b>%s</b>" % m), '<r title="<b>a</b>"><b>b</b> 1 <b>c</b></r>'), (lambda m: m.upper(), '<r title="A">B 1 C</r>'), (lambda m: "", '<r title="">' + " 1 </r>"), (lambda m: "'&", '<r title="&#39;&amp;">&#39;&amp; 1 &#39;&amp;</r>'), (None, '<r title="a">b 1 c</r>')]:
        c = dict(x=1)
        if f:
            c["gettext"] = f
        r = attempt(lambda: tp.render(c))
        if r != ("ok", exp):
            raise Failure("translation given by the context", '<r title="a">b $x c</r>', exp, repr(r[1]))
        t.add(exp)


def flag(t, rnd):
    """templates loaded by one loader follow the flag as it is set when they are loaded"""
    from tonnikala.loader import Loader
    from tonnikala.runtime.python import escape
    texts = ["<r>foo</r>", "<r>foo</r>", "<r title='foo'>bar</r>", "<r> a $x </r>", "<r><script>foo</script>b</r>"]
    for n in range(120):
        lo = Loader(translatable=rnd.random() < .5)
        seq = []
        for i in range(rnd.randint(2, 6)):
            if rnd.random() < .5:
                lo.translatable = rnd.random() < .5
            s, name = rnd.choice(texts), rnd.choice(["<string>", "a.tk", "b.tk"])
            seq.append((s, name, lo.translatable))
            ctx = dict(x=1, gettext=tr)
            got = attempt(lambda: lo.load_string(s, filename=name).render(ctx))
            e = attempt(lambda: Loader(translatable=lo.translatable).load_string(s, filename=name).render(ctx))
            if got != e:
                raise Failure("templates loaded by one loader whose translatable flag changes", list(seq), repr(e[1]), repr(got[1]))
        t.add(str(seq))


def partition(t, rnd):
    ptt = common.internal("tonnikala.expr", "partition_translatable_text", ["text"])
    chars = [" ", "\n", "a", "b", "\xa0", "\u2003", "\t", "\x1c", "\u200b", "\x85", ".", "\r"]
    n = 0
    import itertools
    for k in range(0, 5):
        for c in itertools.product(chars[:8] if k > 3 else chars, repeat=k):
            s = "".join(c)
            st = s.strip()
            if st:
                i = s.index(st)
                e = (s[:i], st, s[i + len(st):])
            else:
                e = None
            r = attempt(lambda: tuple(ptt(s)))
            if r[0] == "exc":
                raise Failure("white space around a message", s, e, repr(r[1]))
            if e is not None and r[1] != e or e is None and (r[1][1] or "".join(r[1]) != s):
                raise Failure("white space around a message", s, e, r[1])
            t.add(s, bool(st))


PARTS = [("fixed", fixed, 1), ("the flag", flag, 1), ("many texts", render.big_part(tr=True), 2), ("differential", differential, 3), ("identity translation", identity, 2), ("messages", messages, 2), ("message white space", partition, 1)]
