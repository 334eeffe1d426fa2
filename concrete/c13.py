"""C13: malformed templates give a located template syntax error."""
import random, traceback
from . import common, gen, tree
from .common import Failure, attempt

# fragment, line of the offending thing relative to the fragment's first line (a pair gives the first and last line it covers)
FRAGS = [
    ("<py:foo/>", 0), ("<py:foo>x</py:foo>", 0), ("<py:If test=\"x\"/>", None), ("<py:else/>", 0), ("<py:iff test=\"1\">a</py:iff>", 0), ("<py:strip>a</py:strip>", 0), ("<py:attrs/>", 0),
    ('<a py:foo="1"/>', 0), ('<a py:test="1"/>', 0), ('<a py:each="x in y">a</a>', 0), ('<a\n x="1"\n py:foo="1"/>', 2), ('<br py:foo="1"/>', 0), ('<a py:if="1" py:bar="1"/>', 0), ('<a\n py:if="1"\n py:bar="1"\n/>', 2), ('<py:if test="1" py:bar="2"/>', 0),
    ('<py:foo:if test="1">a</py:foo:if>', 0), ('<py:py:if test="1">a</py:py:if>', 0), ('x\n<py:if:py test="1"/>', 1), ('<a py:foo:if="1"/>', 0), ('<a py:py:if="1"/>', 0), ('<a\n py:if:py="1"/>', 1),
    ("<a py:foo>a</a>", 0), ("<a py:foo/>", 0), ('<a py:foo=""/>', 0), ("<a py:foo=''>a</a>", 0), ('<a x="1" py:foo y="2"/>', 0), ('<a\n x="1"\n py:foo=""/>', 2), ('<a\n x="1"\n py:foo/>', (0, 2)), ('<py:if test="x" py:foo/>', 0), ('<a py:foo py:bar="1"/>', 0),
    ("<py:if test>a</py:if>", 0), ("<py:for each>a</py:for>", 0), ("<py:def function>a</py:def>", 0), ("<py:with vars>a</py:with>", 0), ("<py:vars names>a</py:vars>", 0), ("<py:block name>a</py:block>", 0), ("<py:replace value>a</py:replace>", 0), ('<py:import href alias="x"/>', 0), ('<py:import href="x" alias/>', 0), ('<py:if\n test\n>a</py:if>', 0),
    ('<py:block name="">a</py:block>', 0), ('<py:block name=" ">a</py:block>', 0), ('<py:block name="1">a</py:block>', 0), ('<py:block name="a-b">a</py:block>', 0), ('<a py:block="class">a</a>', 0), ('<a\n py:block="None">a</a>', 1), ('<py:block\n\n name="for">a</py:block>', 2), ('<py:block name="a b">a</py:block>', 0), ('<py:block name="a.b">a</py:block>', 0), ('<a py:block=""/>', 0),
    ("<py:if>a</py:if>", 0), ("<py:for>a</py:for>", 0), ("<py:def>a</py:def>", 0), ("<py:with>a</py:with>", 0), ("<py:vars>a</py:vars>", 0), ("<py:block>a</py:block>", 0), ("<py:replace>a</py:replace>", 0),
    ('<py:import href="x"/>', 0), ('<py:import alias="x"/>', 0), ("<py:import/>", 0), ("<py:extends/>", 0), ("<py:extends>a</py:extends>", 0), ('<py:if each="x in y">a</py:if>', 0), ('<py:if\n tst="1"/>', 0), ('<py:if py:for="x in a">a</py:if>', 0),
    ('<py:for each="x">a</py:for>', 0), ('<a py:for="x"/>', 0), ('<a py:for="in y"/>', 0), ('<a py:for=""/>', 0), ('<a\n py:for="x of y"/>', 1), ('<py:for each="x iny">a</py:for>', 0),
    ("</zz>", 0), ("x\n</zz>", 1), ("<body></b>", 0), ("<b></body>", 0), ("<bb>\n</b>", 1), ("<b></bb>", 0), ("<ab></b>", 0), ("<b></ab>", 0), ("<py:if test=\"1\"></py:i>", 0), ("<py:if test=\"1\"></if>", 0), ("<x:b></b>", 0), ("<b></x:b>", 0), ("<b></ b>", None), ("<h1>\n\n</h2>", 2), ("<B></i>", 0), ("<b>&lt;</p>", 0), ("<b><br/></br></b>", 0), ("<p><p></p></b>", 0), ("<b></i>", 0), ("<b>\n\n</i>", 2), ("<b><i></b></i>", 0), ("<b>\n<i>\n</b>\n</i>", 2), ("<a\n\n></b>", 2), ("<py:if test=\"1\"></py:for>", 0), ("<py:if test=\"1\">\n</b></py:if>", 1), ("</br>", 0), ("<br></br>", 0), ("<br>\n</br>", 1),
    ("&foo;", 0), ("&Nbsp;", 0), ("&NBSP;", 0), ("x\n&amP;", 1), ("&nbs;", 0), ("&nbspp;", 0), ("&Lt;", None), ("&lT;", 0), ("&apos;&oslasH;", 0), ("x &nosuch; y", 0), ("x\n &foo;", 1), ("&#9999999999;", 0), ("&#x110000;", 0), ("<b>&foo;</b>", 0),
    ("<![CDATA[x]]>", 0), ("<b/><![CDATA[x]]>", 0), ("\n<![CDATA[\n]]>", 1),
    ("${'\0'}", 0), ("x\n${'\ud800'}", 1), ("$f('\ud800')", 0), ('<a py:if="\0"/>', 0), ('<a\n py:if="\'\ud800\'"/>', 1), ('<a py:for="x in \'\0\'"/>', 0), ('<a\n\n py:def="f(x=\'\0\')"/>', 2), ('<py:with\n vars="x=\'\ud800\'"/>', 1), ('<a b="${\'\0\'}"/>', 0),
    ("<!DOCTYPE html>", 0), ("\n<!doctype html>", 1), ("<b>\n<!DOCTYPE html></b>", 1),
    ("${a b}", 0), ("x\ny ${a b}", 1), ("${}", 0), ("${ }", 0), ("${a +}", 0), ("${a = 1}", 0), ("${a := 1}", 0), ("${return a}", 0), ("${if}", 0), ("${a; b}", 0), ("${*a}", 0), ("${f(x for x in y, 3)}", 0), ("${'a' 1}", 0), ("${1a}", 0), ("${a b} ${c}", 0), ("${c} ${a b}", 0), ("$x ${c}\n${a b}", 1), ("${yield}", 0),
    ("${0777}", 0), ("${a.}", 0), ("${.a}", 0), ("${f(a=1, 2)}", 0), ("${lambda}", 0), ("${a if b}", 0), ("${[x for]}", 0), ("${not}", 0), ("${import os}", 0), ("${1 +\n 2 3}", (0, 1)), ("${(1 +\n 2 3)}", (0, 1)), ("${\"abc}", (0, 0)), ("${'abc}", (0, 0)),
    ("$if", 0), ("$class.x", 0), ("x $for y", 0), ("$x.if", 0), ("$x[1 2]", 0), ("$f(a b)", 0), ("x\n$f(a b)", 1), ("$x[]", 0), ("$f(1 +)", 0), ("$lambda", 0),
    ("${a", 0), ("x ${a", 0), ("x\n${a", 1), ("${(a}", 0), ("${[a}", 0), ("${{a}", 0), ("${a[}", 0), ("x\n y ${(a}", 1), ("$a(", (0, 1)), ("$a(b", (0, 1)), ("$a[b", (0, 1)), ("$a(]", 0), ("$a[)", 0), ("$a(b]", 0), ("${a)}", 0), ("${a]}", 0), ("${(a]}", 0), ("${\"}", (0, 1)), ("${'''}", (0, 1)),
    ('<a b="${a b}"/>', 0), ('<a b="x ${a b} y"/>', 0), ('<a b="${a"/>', 0), ('<a b="x\n${"/>', 1), ('<a b="x\n${a b}"/>', 1), ('<a\n b="${a b}"/>', 1), ('<a\n c="1"\n b="x"\n d="\n$f(a b)"/>', 4), ('<a b="$a("/>', 0), ('<a c="${x}" b="${a b}"/>', 0), ('<br b="${a b}"/>', 0), ('<a b="$if"/>', 0), ('<a b="${"/>', 0), ('<a\n\n b="${(a}"/>', 2),
    ('<a py:if="a b"/>', 0), ('<a\n py:if="a b">x</a>', 1), ('<py:if test="a b">x</py:if>', 0), ('<py:if\n test="a b">x</py:if>', 1), ('<a py:if=""/>', 0), ('<a py:if="a ="/>', 0), ('<a py:if="import x"/>', 0), ('<a py:if="(a\nb)"/>', (0, 1)), ('<a py:if="(a"/>', 0), ('<a py:if="a)"/>', 0), ('<a py:if="\'a"/>', 0), ('<a py:if="a; b"/>', 0),
    ('<a py:for="x in a b"/>', 0), ('<a py:for="1 in x"/>', 0), ('<a py:for="f() in x"/>', 0), ('<a py:for="a b in x"/>', 0), ('<a py:for="x in "/>', 0), ('<py:for each="x in (a">b</py:for>', 0), ('<py:for\n\n each="x in a b"/>', 2), ('<a\n py:for="x in a b"/>', 1), ('<a py:for="x in a: pass"/>', 0), ('<a py:for="x in a:"/>', 0),
    ('<a py:def="f(x"/>', 0), ('<py:def function="f(x"/>', 0), ('<py:def function="f(">a</py:def>', 0), ('<py:def function="1f()">a</py:def>', 0), ('<py:def function="if()">a</py:def>', 0), ('<py:def function="">a</py:def>', 0), ('<a py:def="f(a b)"/>', 0), ('<a py:def="f(a=1, b)"/>', 0), ('<a py:def="f("/>', 0), ('<a py:def="f(x): pass"/>', None), ('<a\n py:def="f(a b)"/>', 1), ('<py:def\n\n function="f(a b)"/>', 2),
    ('<a py:with="a=="/>', 0), ('<py:with vars="a b"/>', 0), ('<py:with vars="a = "/>', 0), ('<py:with vars="1 = a"/>', 0), ('<py:with vars="f() = a"/>', 0), ('<a py:with="a = 1; b c"/>', 0), ('<a py:vars="a b"/>', 0), ('<py:vars names="a b"/>', 0), ('<a\n py:with="b=1\na b"/>', 2), ('<a\n py:with="\na b"/>', 2), ('<a py:with="None = 1"/>', 0),
    ('<a py:attrs="a b"/>', 0), ('<a\n py:attrs="{"/>', 1), ('<a py:strip="a b"/>', 0), ('<a\n\n py:strip="a b"/>', 2), ('<a py:content="a b"/>', 0), ('<a\n py:content="a b"/>', 1), ('<a py:replace="a b"/>', 0), ('<a py:replace=""/>', 0), ('<py:replace value="a b"/>', 0), ('<py:replace\n value="a b"/>', 1), ('<a\n py:replace="a b"/>', 1), ('<a py:content="(a"/>', 0), ('<a py:attrs="(a"/>', 0),
    ("<?py a b ?>", 0), ("<?py\nx = 1\ny = a b\n?>", 2), ("<?python x = (?>", (0, 0)), ("<?py x = (\n\n?>", (0, 2)), ("<?py   if x:\n y\n   z?>", 2), ("<?python\n\n\n'\ud800'?>", 3), ("<?py x = '\0' ?>", 0), ("<?py\nimport\n?>", 1), ("<?py\n\n  x = 1\n  y = 2\n?>", 3), ("<?python 1 = 2 ?>", 0), ("<?py 'abc ?>", 0),
]
FRAGS = [f for f in FRAGS if f[1] is not None]
# a fragment that reads to the end of its text (unterminated): its siblings behind it are part of it
OPEN = {"$a(", "$a(b", "$a[b"}


def check(t, source, lo, hi, fn, what="malformed template"):
    from tonnikala.loader import Loader
    from tonnikala.runtime.exceptions import TemplateSyntaxError
    t.arm(source)
    got = attempt(lambda: Loader().load_string(source, filename=fn))
    inp = dict(template=source, filename=fn)
    if got[0] == "ok":
        raise Failure(what + " is accepted", inp, "TemplateSyntaxError at line %s" % ((lo, hi),), "no error")
    e = got[1]
    if not isinstance(e, TemplateSyntaxError):
        raise Failure(what + " gives another exception", inp, "TemplateSyntaxError at line %s" % ((lo, hi),), repr(e))
    if e.filename != fn:
        raise Failure(what + ": file name of the error", inp, fn, e.filename)
    if e.source != source:
        raise Failure(what + ": source of the error", inp, source, e.source)
    if not isinstance(e.lineno, int) or not lo <= e.lineno <= hi:
        raise Failure(what + ": line of the error", inp, (lo, hi), (e.lineno, str(e)))
    last = traceback.extract_tb(e.__traceback__)[-1]
    if (last.filename, last.lineno) != (fn, e.lineno):
        raise Failure(what + ": end of the traceback", inp, (fn, e.lineno), (last.filename, last.lineno))
    if not str(e):
        raise Failure(what + ": message", inp, "a message", str(e))
    t.add(source, sample=source if len(t.samples) < 3 else None)


def span(off):
    return off if isinstance(off, tuple) else (off, off)


NAMES = ["/x/foo.tk", "<string>", "a b.tk", "\xe4.tk", "/tmp/q/base.html"]


def grid(t, rnd):
    """every malformed fragment in a few places"""
    pads = ["", "\n", "\n\n", "text\n", "<i>\n</i>", "${1}\n", "<!-- \n -->", "<br/>\n\n", '<b\n c="1"\n/>', "<script>\nif (a < b) {}\n</script>", '<py:if test="x">\ny</py:if>', "\xe4\n\u2028x\n", "<?python\nx = 1\n?>", "&amp;\n", '<p a="\n${x}">\n</p>']
    wraps = [("<html>", "</html>"), ("<html>\n<p>", "</p>\n</html>"), ('<!DOCTYPE html>\n<html><p py:if="x">', "</p></html>"), ('<html><py:for each="x in y">\n', "</py:for></html>"), ('<html>\n<py:def function="f(x)">', "</py:def></html>"), ('<html><py:block name="q">\n', "</py:block>\n</html>"),
             ('<html><py:with vars="x=1">', "</py:with></html>"), ('<html py:strip="x">\n<b a="$x">', "</b></html>"), ('<py:if test="x">', "</py:if>"), ("<html><title>", "</title></html>"), ('<py:extends href="b"><py:block name="q">\n', "</py:block></py:extends>"), ('<py:extends href="b">\n<py:def function="q()"><i>', "</i></py:def>\n</py:extends>"), ('<html><py:def function="q()"><py:if test="x">', '</py:if></py:def></html>'), ('\n\n<html>', "</html>"), ('<html\n lang="x"\n>', "</html>"), ('<html><a py:attrs="x"\n py:for="x in y">', "</a></html>")]
    for i, (f, off) in enumerate(FRAGS):
        for j, (a, b) in enumerate(wraps):
            if (i + j) % t.nshards != t.shard:
                continue
            if "</" in f and ("title" in a or a.startswith("<py:if")) and f.startswith("</"):
                pass
            for pad in (rnd.sample(pads, 3) if t.tier == "quick" else pads):
                if "\u2028" in pad and "str" == "x":
                    continue
                if rnd.random() < .06:
                    pad = (pad or "$$x\n") * rnd.choice([40, 150, 400])
                src = a + pad + f + ("\n" if f in OPEN else rnd.choice(["", "\n", "<i/>", "\n<b>x</b>"])) + b
                n = (a + pad).count("\n") + 1
                lo, hi = span(off)
                check(t, src, n + lo, n + hi, rnd.choice(NAMES))


def outside(t, rnd):
    cases = [("<html>\n</html>foo", 2), ("<html/>\n<!-- a -->foo", 2), ("foo<html/>", 1), ("<!-- \n -->foo<html/>", 2), ("<html>\n\n</html>x\n", 3), ("</html>", 1), ("\n\n</b>", 3), ("<html></html></html>", 1), ("<html>\n</html>\n</b>", 3), ("&amp;<html/>", 1), ("<html/>&lt;", 1), ("<html/>&foo;", 1), ("<html/>\n<!-- x -->$$", 2), ("<html>\n</html>${x}", 2), ("<!DOCTYPE html>x<html/>", 1), ("<html/><html/>", 1), ("<html>\n</html>\n<b>", 3), ("<!-- \n --><html/>\n<!DOCTYPE html>\n<b/>", 4), ("<html/>\n<py:if test=\"x\">a</py:if>", 2), ("<!DOCTYPE>\n<html/>", 1), ("\n<!DOCTYPE html PUBLIC><html/>", 2), ("<!-- x\n -->\n<!doctype html [<x]><html/>", 3), ("<!DOCTYPE html SYSTEM \"x><html/>", 1), ("\n<!DOCTYPE <html/>", 2), ("<br/>\n<br>", 2), ("<html/><br>", 1)]
    for s, line in cases:
        for fn in NAMES:
            check(t, s, line, line, fn, "text or tags outside the root element")


def extending(t, rnd):
    good = ['<py:block name="a">x</py:block>', '<py:def function="f()">y</py:def>', '<py:import href="x" alias="y"/>', "\n", "  ", "<!-- c -->", '<py:block name="b">\n${x}\n</py:block>', "\n<!--\n-->\n"]
    bad = ["foo", "&amp;", "<a/>", '<py:if test="x">a</py:if>', '<py:for each="x in y">a</py:for>', '<py:with vars="x = 1">a</py:with>', '<b py:if="x">q</b>', '<a>${x}</a>', "<br/>", '<p py:strip="">x</p>', '<i py:for="a in b"/>', '<py:replace value="x"/>', '<py:extends href="y"/>', '<py:import href="a" alias="b">text</py:import>', '<py:import href="a" alias="b" py:if="1"/>', '<py:import href="a" alias="b"><p/></py:import>', '<py:import href="a" alias="b" py:for="x in y"/>', '<py:import href="a" alias="b" py:replace="x"/>']
    for b in bad:
        for _ in range(30 if t.tier == "quick" else 200):
            pre = "".join(rnd.choice(good) for _ in range(rnd.randint(0, 4)))
            # text that follows text belongs to it: let it start a text of its own
            if b[0] != "<" or b.startswith("<py:replace"):
                if not pre.endswith(">"):
                    pre += good[rnd.choice([0, 1, 2, 5])]
            post = "".join(rnd.choice(good[:6]) for _ in range(rnd.randint(0, 3)))
            if b[0] != "<":
                post = "" if not post.startswith("<") else post
            head = rnd.choice(['<py:extends href="x">', '\n<py:extends\n href="x">', '<!-- q -->\n<py:extends href="x">'])
            s = head + pre + b + post + "</py:extends>"
            n = (head + pre).count("\n") + 1
            check(t, s, n, n, rnd.choice(NAMES), "content of an extending template")
    for n in (9, 35, 140, 300):
        for b in bad:
            s = '<py:extends href="x">' + "".join('<py:block name="b%d">x</py:block>\n' % i for i in range(n)) + "<!-- x -->" + b + "</py:extends>"
            check(t, s, n + 1, n + 1, NAMES[0], "content of an extending template behind many blocks")
    for n in (10, 31, 40, 70, 300):
        for f, off in FRAGS[::5]:
            if f in OPEN:
                continue
            s = '<py:extends href="x">' + "".join('<py:block name="b%d">x</py:block>\n' % i for i in range(n)) + '<py:block name="last">' + f + "</py:block></py:extends>"
            lo, hi = span(off)
            check(t, s, n + 1 + lo, n + 1 + hi, NAMES[0], "the last of many blocks")
    for s, lo, hi in [('<py:extends href="x">${x}</py:extends>', 1, 1), ('<py:extends href="x">\n$x\n</py:extends>', 1, 2), ('<!--\n--><py:extends href="x" py:content="x"/>', 2, 2), ('\n<html><py:import href="x" alias="y"> <!-- x -->\n$x</py:import></html>', 2, 3), ('<html>\n<py:import href="x" alias="y" py:content="x"/></html>', 2, 2), ('<py:extends href="x">\na $x\n</py:extends>', 1, 2), ('<py:extends href="x"><py:block name="a">\n${a b}</py:block></py:extends>', 2, 2), ('<py:extends href="x">\n<py:foo/></py:extends>', 2, 2), ('<py:extends href="x">\n<py:block/></py:extends>', 2, 2), ('<py:extends href="x">\n</b></py:extends>', 2, 2), ('<py:extends href="x">\n<py:def function="f(">a</py:def></py:extends>', 2, 2)]:
        check(t, s, lo, hi, NAMES[0], "content of an extending template")


def random_trees(t, rnd):
    """a malformed fragment anywhere in a random valid template"""
    MARK = "@@MARK@@"
    feats = {"text", "interp", "elem", "attr", "if", "for", "def", "with", "vars", "block", "strip", "attrs", "comment", "script", "void"}
    exprs = [e for e in gen.TEXT_EXPRS]
    while not t.over():
        g = gen.Gen(rnd, budget=rnd.choice([4, 10, 20]), features=feats, conds=["n", "m", "a", "l", "m > 3"])
        nodes = g.template()
        slots = []

        def walk(ns, cd):
            for n in ns:
                if isinstance(n, (tree.El, tree.Ctl)):
                    c = cd or (isinstance(n, tree.El) and (n.tag in ("script", "style") or n.tag in tree.VOID_PARSE))
                    if not c:
                        slots.append(n)
                    walk(n.kids, c)
        walk(nodes, False)
        if not slots:
            continue
        n = rnd.choice(slots)
        f, off = rnd.choice(FRAGS)
        k = rnd.randint(0, len(n.kids))
        n.kids.insert(k, tree.T(MARK))
        s = tree.src(nodes, rnd)
        i = s.index(MARK)
        # keep an interpolation before the fragment from swallowing it
        s = s.replace(MARK, "<u/>" + f + ("\n<u/>" if f in OPEN else "<u/>"))
        line = s[:i].count("\n") + 1
        if s[:i].count("$") and False:
            continue
        lo, hi = span(off)
        check(t, s, line + lo, line + hi, rnd.choice(NAMES))


def files(t, rnd):
    """through the file loader: the error names the file"""
    import os, shutil, tempfile
    from tonnikala.loader import FileLoader
    from tonnikala.runtime.exceptions import TemplateSyntaxError
    d = tempfile.mkdtemp(prefix="c13-", dir=common.scratch())
    try:
        for f, off in FRAGS[::7]:
            p = os.path.join(d, "t.tk")
            src = "<html>\n\n" + f + "\n</html>"
            with open(p, "w") as fh:
                fh.write(src)
            got = attempt(lambda: FileLoader([d]).load("t.tk"))
            lo, hi = span(off)
            if not (got[0] == "exc" and isinstance(got[1], TemplateSyntaxError) and got[1].filename == p and got[1].source == src and 3 + lo <= got[1].lineno <= 3 + hi):
                raise Failure("malformed template file", src, ("TemplateSyntaxError", p, 3 + lo), (repr(got[1]), getattr(got[1], "filename", None), getattr(got[1], "lineno", None)))
            t.add(src)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def message(t, rnd):
    """the error's own text, before translation, names file and line"""
    TSE = common.internal("tonnikala.runtime.exceptions", "TemplateSyntaxError", ["message", "lineno", "name", "source", "filename", "node"])
    for n in range(500):
        line = rnd.randint(1, 5)
        src = "\n".join("l%d %s" % (i, rnd.choice(["", " ", "x"])) for i in range(rnd.randint(0, 6)))
        fn = rnd.choice(NAMES + [None])
        e = TSE("msg", line, source=rnd.choice([src, None]), filename=fn)
        s = attempt(lambda: str(e))
        if s[0] != "ok" or "msg" not in s[1] or "line %d" % line not in s[1] or (fn and fn not in s[1]):
            raise Failure("text of a template syntax error", (line, fn, src), "message, file and line", s)
        t.add((line, fn, src))


PARTS = [("grid", grid, 4), ("outside the root", outside, 1), ("extending templates", extending, 1), ("random trees", random_trees, 2), ("files", files, 1), ("message", message, 1)]
