"""C14: source positions."""
import random, traceback
from . import common, gen, tree
from .common import Failure, attempt


def at(source, i, start=(1, 0)):
    """oracle: line and column of the character at index i of text that starts at the given position"""
    line, col = start
    for c in source[:i]:
        if c == "\n":
            line, col = line + 1, 0
        else:
            col += 1
    return line, col


ALPH = "ab \n\n\t\r\u2028\xe4${x}\x0b\x85"


def rtext(rnd, n):
    return "".join(rnd.choice(ALPH) for _ in range(rnd.randint(0, n)))


def slicing(t, rnd):
    S = common.internal("tonnikala.helpers", "StringWithLocation")
    cp = common.internal("tonnikala.helpers", "calculate_position", ["source", "offset"])
    n = 0
    while not t.over() and n < 60000:
        n += 1
        s = rtext(rnd, rnd.choice([4, 12, 30]))
        start = rnd.choice([(1, 0), (3, 7), (1, 5), (20, 0), (2, 1)])
        v = attempt(lambda: S(s, *start))
        t.last = (s, start)
        if v[0] != "ok" or v[1] != s or v[1].position != start:
            raise Failure("located string", (s, start), (s, start), v)
        v = v[1]
        base = 0
        cur = s
        ops = []
        for _ in range(rnd.randint(1, 4)):
            m = len(cur)
            a = rnd.choice([None, 0, rnd.randint(0, m), rnd.randint(0, m + 3), -rnd.randint(0, m + 2)])
            b = rnd.choice([None, m, rnd.randint(0, m), m + 5, -rnd.randint(0, m + 2)])
            ops.append((a, b))
            lo, hi, _s = slice(a, b).indices(m)
            r = attempt(lambda: v[a:b])
            if r[0] == "exc":
                raise Failure("slice of a located string", (s, start, ops), cur[a:b], repr(r[1]))
            v, cur = r[1], cur[a:b]
            base += lo
            e = at(s, base, start)
            if str(v) != cur or not isinstance(v, S):
                raise Failure("slice of a located string", (s, start, ops), cur, v)
            if tuple(v.position) != e:
                raise Failure("position of a slice", (s, start, ops), e, v.position)
        if cur:
            i = rnd.randrange(-len(cur), len(cur))
            if attempt(lambda: v[i]) != ("ok", cur[i]):
                raise Failure("character of a located string", (s, start, ops, i), cur[i], attempt(lambda: v[i]))
        i = rnd.randint(0, len(s))
        for st in (start, None):
            r = attempt(lambda: cp(s, i, st) if st else cp(s, i))
            if r[0] != "ok" or tuple(r[1]) != at(s, i, st or (1, 0)):
                raise Failure("calculate_position", (s, i, st), at(s, i, st or (1, 0)), r)
        t.add((s, start, tuple(ops)), "\n" in s, sample=(s, start, ops) if n < 4 else None)


WS = [" ", "  ", "\n", "\n  ", " \n", "\t", "\n\n "]


def rtag(rnd, k):
    """a start tag and the offsets of its attribute values"""
    name = rnd.choice(["a", "div", "h1", "x-y", "py:if"])
    s = "<" + name
    out = {}
    for i in range(k):
        nm = rnd.choice(["b", "data-x", "py:q", "x:y", "Cc"]) + str(i)
        s += rnd.choice(WS) + nm
        kind = rnd.random()
        if kind < .1:
            continue
        s += rnd.choice(["", "", "", " ", "\n"]) + "=" + rnd.choice(["", "", "", " ", "\n "])
        val = "".join(rnd.choice(["x", "y z", "\n", " ", "$a", "${b}", "'", "\u2028", "\xe4", ">", "/"]) for _ in range(rnd.randint(0, 4)))
        if kind < .2:
            val = rnd.choice(["x", "yy", "$a", "1"])
            out[nm.lower()] = (len(s), val)
            s += val
        else:
            q = rnd.choice('""\'')
            val = val.replace(q, "")
            out[nm.lower()] = (len(s) + 1, val)
            s += q + val + q
    s += rnd.choice(["", " ", "\n", ""])
    if s[-1] not in "\"' \n" :
        s += " "
    return s + rnd.choice([">", ">", "/>"]), out


def walk(n):
    yield n
    for c in n.childNodes:
        yield from walk(c)


def parser(t, rnd):
    """positions of elements, attribute values and text in the parsed document"""
    P = common.internal("tonnikala.syntaxes.docparser", "TonnikalaHTMLParser", ["filename", "source"])
    while not t.over():
        doc = rnd.choice(["", "\n", "<!-- a\n -->\n", "<!DOCTYPE html>\n"]) + "<html" + rnd.choice(["", "\n", " "]) + ">"
        events = []          # (kind, offset, data)
        for _ in range(rnd.randint(1, 6) if rnd.random() < .99 else rnd.randint(30, 300)):
            k = rnd.random()
            if k < .45:
                tag, attrs = rtag(rnd, rnd.randint(0, 4))
                events.append(("tag", len(doc), {a: (len(doc) + o, v) for a, (o, v) in attrs.items()}))
                doc += tag
                if not tag.endswith("/>"):
                    name = tag[1:].split()[0].rstrip("/>")
                    if rnd.random() < .5:
                        tx = rnd.choice(["x", "a\nb", " ", "\n$y\n"])
                        events.append(("text", len(doc), tx))
                        doc += tx
                    doc += "</%s%s>" % (name, rnd.choice(["", " ", "\n"]))
            elif k < .8:
                tx = "".join(rnd.choice(["foo", "\n", " ", "$a ", "${b\n}", "\xe4", "\u2028", ">", "'"]) for _ in range(rnd.randint(1, 5)))
                if events and events[-1][0] == "open":
                    events[-1] = ("open", events[-1][1], events[-1][2] + tx)
                else:
                    events.append(("open", len(doc), tx))
                doc += tx
                continue
            elif k < .9:
                doc += rnd.choice(["<!-- c\n -->", "<!-- x -->", "<!--\n\n-->"])
                events.append(("c", 0, 0))
            else:
                doc += "<br\n/>"
                events.append(("br", 0, 0))
        doc += "</html>"
        t.arm(doc)
        r = attempt(lambda: P("f.tk", doc).parse())
        if r[0] == "exc":
            raise Failure("parsing", doc, "a document", repr(r[1]))
        texts, elems = {}, {}
        for n in walk(r[1]):
            if n.nodeType == 3:
                texts[tuple(n.nodeValue.position)] = str(n.nodeValue)
            elif n.nodeType == 1:
                elems[tuple(n.position)] = n
        for kind, off, data in events:
            p = at(doc, off)
            if kind in ("text", "open"):
                if texts.get(p) != data:
                    raise Failure("position of text", doc, (p, data), texts)
            elif kind == "tag":
                n = elems.get(p)
                if n is None:
                    raise Failure("position of an element", doc, p, sorted(elems))
                for a, (o, v) in data.items():
                    got = n.getAttribute(a)
                    if str(got) != v:
                        raise Failure("attribute value", doc, (a, v), str(got))
                    if tuple(getattr(got, "position", (None,))) != at(doc, o):
                        raise Failure("position of an attribute value", (doc, a), at(doc, o), getattr(got, "position", None))
        t.add(doc, len(events) > 1, sample=doc if rnd.random() < .002 else None)


def kinds():
    """expression places: template text with @ for the expression, and what to render it with"""
    return [
        "${@}", "$@", "x ${@} y", "x\ny ${@}", "${x}${@}", "${x}\n${@}", "$x\n\n$@", "$x $y $@", "x $$ ${@}", "x\n$$\n ${@}", '<a b="${@}"/>', '<a\n b="${@}"/>', '<a b="x ${@}"/>', '<a b="x\n ${@}"/>', '<a\n c="1"\n\n b="$x\n$@"/>', '<a c="$x" b="$@"/>', "<a\n c='\n${x}'\n b='${@}'/>",
        '<a py:if="@">x</a>', '<a\n py:if="@">x</a>', '<py:if test="@">x</py:if>', '<py:if\n\n test="@">x</py:if>', '<a py:for="i in @">x</a>', '<a\n c="x"\n py:for="i in @">x</a>', '<py:for\n each="i in @">x</py:for>', '<a py:for="i in (x,\n @)">x</a>',
        '<a py:with="q = @">$q</a>', '<a\n py:with="q = @">$q</a>', '<py:with\n vars="q = 1;\nr = @">$q</py:with>', '<py:with vars="q = 1; r = @">x</py:with>', '<a py:attrs="@"/>', '<a\n py:attrs="@"/>', '<a py:strip="@">x</a>', '<a\n\n py:strip="@">x</a>', '<a py:content="@"/>', '<a\n py:content="@"/>', '<a py:replace="@"/>', '<a\n py:replace="@"/>', '<py:replace value="@"/>', '<py:replace\n value="@"/>',
        '<py:def function="f(a)">\n${@}</py:def>${f(1)}', '<py:def function="f(a)">${@}</py:def>\n\n${f(1)}', '<py:block name="bk">\n${@}</py:block>', '<py:for each="i in [1]">\n${@}</py:for>', '<py:if test="1">\n${@}</py:if>', '<py:if test="x">\n${@}</py:if>', '<py:with vars="q=1">\n${@}</py:with>', '<p\n>${@}</p>', '<p>\n<b>\n${@}</b></p>', "<script>\n a < b\n ${@}</script>", "<title>\n${@}</title>",
        '<py:def function="f(a)"><py:for each="i in [1]">\n<i py:if="x"\n c="$@"/></py:for></py:def>${f(1)}', '<a py:if="x"\n py:for="i in [1]"\n py:with="q = @">x</a>', '<a py:for="i in [1]"\n py:if="@">x</a>', '<a b="${x}"\n py:attrs="x2"\n py:content="@"/>',
    ]


class Boom(Exception):
    pass


def lines(t, rnd):
    """the line in the traceback of a failing expression"""
    pads = ["", "\n", "text\n", "\n\n ", "${x}\n", "<i>\n</i>", "<!-- \n\n -->", "<br\n/>", '<b c="\n"/>', "$x $$\n", "<script>\n//\n</script>", '<py:if test="x">\n</py:if>', "<u a='$x'\n b='\n'>\n</u>", "&amp;\n", '<py:def function="z()">\n\n</py:def>\n']
    ks = kinds()
    while not t.over():
        for i, k in enumerate(ks):
            if i % t.nshards != t.shard:
                continue
            multi = rnd.random() < .25 and "$@" not in k
            e = "boom()"
            off = 0
            if "$@" not in k:
                e, off = rnd.choice([("boom()", 0), ("\n\nboom()", 2) if '="@"' in k else ("boom()", 0), ("[1, boom()]", 0), ("(1 +\n boom())", 1), ("f0(x,\n\n boom())", 2), ("len(boom())", 0), ("x and boom()", 0), ("[boom() for q in [1]]", 0)])
                if "\n" in e and ("with" in k):
                    e, off = "boom()", 0
            wrap = rnd.choice([("<html>", "</html>"), ("<html>\n<p>", "</p></html>"), ("<!DOCTYPE html>\n<html\n>", "\n</html>"), ('<html py:if="x">\n', "</html>"), ('<html><py:for each="w in [1]">\n', "</py:for></html>"), ('<html>\n<div py:strip="x">', "</div></html>")])
            pre = wrap[0] + rnd.choice(pads) + rnd.choice(pads) * (1 if rnd.random() < .96 else rnd.choice([30, 100, 300]))
            body = pre + k
            src = body.replace("@", e) + rnd.choice(["", "\n", "<i/>", "\nx"]) + wrap[1]
            line = body[:body.index("@")].count("\n") + 1 + off
            err = Boom("b")

            def boom():
                raise err
            t.arm(src)
            fn = "/nonexistent/dir/t.tk"
            from tonnikala.loader import Loader
            r = attempt(lambda: Loader().load_string(src, filename=fn).render(dict(boom=boom, x=1, y=2, x2=[], f0=lambda *a: 1)))
            if r[0] == "ok" or r[1] is not err:
                raise Failure("a failing expression", src, "the exception", repr(r[1]))
            got = [f.lineno for f in traceback.extract_tb(err.__traceback__) if f.filename == fn]
            if not got or got[-1] != line:
                raise Failure("line of a failing expression in the traceback", dict(template=src), line, got)
            t.add(src, sample=src if rnd.random() < .002 else None)


def fragments(t, rnd):
    """AST nodes of an expression are at the place of the expression"""
    import ast
    gfa = common.internal("tonnikala.languages.python.generator", "get_fragment_ast", ["expression", "mode"])
    S = common.internal("tonnikala.helpers", "StringWithLocation")
    exprs = ["a", "a.b[1]", "f(x, y)", "(a +\n  b)", "[x\n for x in\n y]", "lambda q: q\\\n+1", "'''x\ny'''", "{1: 2,\n 3: f(\n4)}", "(a)\n", "x if y else\\\n z"]
    for e in exprs:
        for start in [(1, 0), (1, 9), (7, 0), (12, 33)]:
            r = attempt(lambda: gfa(S(e, *start)))
            if r[0] == "exc":
                raise Failure("fragment", (e, start), "an AST", repr(r[1]))
            ref = ast.parse(e + "\n", mode="eval").body
            for g, w in zip(ast.walk(r[1]), ast.walk(ref)):
                if type(g) is not type(w):
                    raise Failure("fragment", (e, start), type(w), type(g))
                if hasattr(w, "lineno"):
                    for p in ("", "end_"):
                        l, c = getattr(w, p + "lineno"), getattr(w, p + "col_offset")
                        want = (l + start[0] - 1, c + start[1] if l == 1 else c)
                        have = getattr(g, p + "lineno"), getattr(g, p + "col_offset")
                        if want != have:
                            raise Failure("position of a node of an expression", (e, start, ast.dump(w)), want, have)
            t.add((e, start), sample=e)


def textnodes(t, rnd):
    """expressions cut from text keep their position"""
    htn = common.internal("tonnikala.expr", "handle_text_node", ["text"])
    S = common.internal("tonnikala.helpers", "StringWithLocation")
    n = 0
    while not t.over() and n < 20000:
        n += 1
        s, want = "", []
        for _ in range(rnd.randint(1, 6) if rnd.random() < .99 else rnd.randint(30, 300)):
            k = rnd.random()
            if k < .5:
                s += rnd.choice(["x ", "\n", " \n ", "$$", "$ ", "\xe4\n", "\u2028 ", "}", "$$\n"])
            elif k < .75:
                e = rnd.choice(["a", "(a +\n b)", "f('}')", " b ", "[1,\n2]"])
                want.append((len(s) + 2, e))
                s += "${" + e + "}"
            else:
                e = rnd.choice(["a", "f(1,\n 2)", "a.b", "l[0]", "f( x )"])
                want.append((len(s) + 1, e))
                s += "$" + e + rnd.choice([" ", "\n", "-"])
        start = rnd.choice([(1, 0), (4, 9)])
        t.last = s
        r = attempt(lambda: htn(S(s, *start)))
        if r[0] == "exc":
            raise Failure("text node", (s, start), "nodes", repr(r[1]))
        got = []
        stack = [r[1]]
        while stack:
            x = stack.pop(0)
            if hasattr(x, "expression"):
                got.append((str(x.expression), tuple(getattr(x.expression, "position", (None,)))))
            stack = list(getattr(x, "children", [])) + stack
        exp = [(e, at(s, i, start)) for i, e in want]
        if got != exp:
            raise Failure("positions of the expressions of a text", (s, start), exp, got)
        t.add((s, start), bool(want), sample=s if n < 4 else None)


PARTS = [("slices", slicing, 2), ("parsed documents", parser, 2), ("traceback lines", lines, 3), ("fragments", fragments, 1), ("text nodes", textnodes, 1)]
