"""C03: splitting text into static pieces and interpolations."""
import itertools, random, re
from . import common, lexer
from .common import Failure, attempt, internal
from .c04 import parses, PIECES


def flat(node):
    """IR of a text -> [(kind, value)], adjacent text joined"""
    out = []

    def go(n):
        ch = getattr(n, "children", None)
        if ch is not None:
            for c in ch:
                go(c)
            return
        if hasattr(n, "expression"):
            out.append(("e", str(n.expression)))
            return
        s = str(n.text)
        if out and out[-1][0] == "t":
            out[-1] = ("t", out[-1][1] + s)
        elif s:
            out.append(("t", s))
    go(node)
    return out


def judge(h, text, TSE, kw):
    exp = lexer.split(text)
    got = attempt(lambda: flat(h(text, **kw)))
    good = exp is not None and all(k == "t" or parses(v) for k, v in exp)
    if got[0] == "exc":
        if not isinstance(got[1], TSE):
            raise Failure("splitting raises", dict(text=text, options=kw), exp, repr(got[1]))
        if good:
            raise Failure("well formed text is rejected", dict(text=text, options=kw), exp, repr(got[1]))
        return False
    if exp is None:
        if all(k == "t" or parses(v) for k, v in got[1]):
            raise Failure("unclosed interpolation is accepted", dict(text=text, options=kw), "TemplateSyntaxError", got[1])
        return False
    if good and got[1] != exp:
        raise Failure("pieces of the text", dict(text=text, options=kw), exp, got[1])
    return good


def geth():
    h = internal("tonnikala.expr", "handle_text_node", ["text"])
    from tonnikala.runtime.exceptions import TemplateSyntaxError
    return h, TemplateSyntaxError


def exhaustive(t, rnd):
    h, TSE = geth()
    from tonnikala.helpers import StringWithLocation
    n = 0
    for alpha, k in (("$a{} .", 6 if t.tier == "quick" else 8), ("$a\n(x)\xa0", 6), ("$$_1-\xe9", 6), ("$${}a'", 6)):
        for L in range(0, k + 1):
            for tup in itertools.product(alpha, repeat=L):
                n += 1
                if n % t.nshards != t.shard:
                    continue
                s = "".join(tup)
                t.last = s
                x = n // t.nshards % 4
                kw = [{}, {}, dict(translatable=True), dict(is_cdata=True)][x]
                if n % 9 == 0:
                    s = StringWithLocation(s, 5, 7)
                t.add(s, judge(h, s, TSE, kw) and "$" in s)
        t.arm()


def rand(t, rnd):
    h, TSE = geth()
    from tonnikala.helpers import StringWithLocation
    pieces = ["$a", "${b}", "$$", "$", "$.", "$1", "$ ", "${'}'}", "${{1: 2}}", "$f(a)", "$a[0].b", "text", " ", "\n", "&", "<b>", "{", "}", "\\", "%", "\xe9", "$\xe9", "\u2028", "\r\n", "\t", "  x  ", "$-", "$)", "$$$", "$$a", "$${a}", "$$$a", "a$$b", "${a}${b}", "$a$b", "#", "_", "$_", "$A", "$z9"] + PIECES[:12]
    while not t.over():
        for _ in range(100):
            s = "".join(rnd.choice(pieces) for _ in range(rnd.randint(0, 14) if rnd.random() < .97 else rnd.randint(40, 400)))
            t.last = s
            if rnd.random() < .3:
                s = StringWithLocation(s, 3, 4)
            t.add(s, judge(h, s, TSE, rnd.choice([{}, dict(translatable=True), dict(translatable=True, whole_translatable=True), dict(is_cdata=True)])), sample=s if rnd.random() < .0005 else None)
        t.arm()


def rendered(t, rnd):
    """through rendering, in every position that takes text"""
    from tonnikala.loader import Loader
    names = dict(a="A", b="B", a1="A1", ab="AB", _="U", x="X")
    E = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&#34;", "'": "&#39;"}
    pieces = ["$a", "${b}", "$$", "$", "$.", "$1", "$ ", "${'}'}", "$b", "text", " ", "\n", "&", "<i>", "{", "}", "\\", "%", "\xe9", "$-", "$$a", "$${a}", "$)", "'", "\"", "$_", "$ab", "$a1", ".", "!", "$/", "100$", "$5", "#", "\u2028", "\u00a0"]
    wraps = [("<p>%s</p>", True), ("<p>%s<b>k</b></p>", True), ("<p><b/>%s</p>", True), ("<p class=\"%s\">z</p>", True), ("<p class=\"%s\" id=\"k\"/>", True), ("<script>%s</script>", False), ("<style>%s</style>", False), ("<title>%s</title>", True), ("<py:def function=\"f\">%s</py:def>${f()}", True), ("<py:block name=\"q\">%s</py:block>", True), ("<p py:strip=\"\">%s</p>", True), ("<p alt=\"%s\"/>", True)]
    while not t.over():
        s = "".join(rnd.choice(pieces) for _ in range(rnd.randint(0, 9) if rnd.random() < .95 else rnd.randint(30, 300)))
        parts = lexer.split(s)
        if parts is None:
            continue
        try:
            vals = [(k, v if k == "t" else str(eval(v, dict(names)))) for k, v in parts]
        except Exception:
            continue
        w, markup = rnd.choice(wraps)
        attr = '="%s"' in w
        if attr and len(parts) == 1 and parts[0][0] == "e":
            vals = [("t", vals[0][1])]
        body = s
        if markup:
            body = s.replace("&", "&amp;").replace("<", "&lt;")
            if attr:
                body = body.replace('"', "&quot;")
        elif "<" in s or "&" in s:
            continue
        if not markup:
            out = "".join("".join(E.get(c, c) for c in v) if k == "e" else v for k, v in vals)
        else:
            out = "".join("".join(E.get(c, c) for c in v) for k, v in vals)
        source = "<r>" + w % body + "</r>"
        t.arm(source)
        tr = rnd.random() < .3
        got = attempt(lambda: Loader(translatable=tr).load_string(source).render(dict(names)))
        if got[0] == "exc":
            raise Failure("text with dollars is not rendered", source, out, repr(got[1]))
        m = w.replace("<py:def function=\"f\">%s</py:def>${f()}", "%s").replace("<py:block name=\"q\">%s</py:block>", "%s").replace("<p py:strip=\"\">%s</p>", "%s").replace("<b/>", "<b></b>").replace("\" id=\"k\"/>", "\" id=\"k\"></p>").replace("<p alt=\"%s\"/>", "<p alt=\"%s\"></p>")
        exp = "<r>" + m.replace("%s", out) + "</r>"
        if "id=\"k\"" in m and len([1 for k, v in parts if k == "e"]):
            exp = exp.replace("<p class=\"%s\" id=\"k\">" % out, "<p id=\"k\" class=\"%s\">" % out)
        if m == "%s" and w.startswith("<p py:strip") and not s:
            exp = "<r></r>"
        if got[1] != exp:
            raise Failure("text with dollars", source, exp, got[1])
        t.add(source, "$" in s, sample=source if rnd.random() < .002 else None)


def partition(t, rnd):
    p = internal("tonnikala.expr", "partition_translatable_text", ["text"])
    for alpha, k in ((" \na\t", 6), ("\xa0a b\u2003\r", 5), ("\x0b\x0c\x1cx", 5)):
        for L in range(0, k + 1):
            for tup in itertools.product(alpha, repeat=L):
                s = "".join(tup)
                got = attempt(lambda: tuple(p(s)))
                st = s.strip()
                i = s.find(st) if st else len(s)
                if got[0] == "exc" or "".join(got[1]) != s or got[1][1] != st:
                    raise Failure("white space around the message", s, (s[:i], st, s[i + len(st):]), got[1])
                t.add(s, bool(st) and st != s)


PARTS = [("exhaustive short texts", exhaustive, 4), ("random texts", rand, 2), ("rendered", rendered, 2), ("white space partition", partition, 1)]
