"""C04: extent of an interpolated expression."""
import ast, itertools, random
from . import common, lexer
from .common import Failure, attempt, internal


def parses(e):
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ast.parse(e + "\n", mode="eval")
        return True
    except (SyntaxError, ValueError, RecursionError, MemoryError):
        return False


def judge(pe, text, i, TSE):
    """parse_expression at text[i]"""
    exp = lexer.extent(text, i)
    got = attempt(lambda: pe(text, i))
    if got[0] == "exc":
        if not isinstance(got[1], TSE):
            raise Failure("an unclosed or unreadable interpolation is not a template syntax error", dict(text=text, start=i), "TemplateSyntaxError", repr(got[1]))
        if exp is not None and parses(exp[1]):
            raise Failure("a well formed interpolation is rejected", dict(text=text, start=i), exp, repr(got[1]))
        return False
    r = got[1]
    g = (i + len(r.string) if text[i + 1] == "{" else i + len(r.string), str(r.expression))
    if str(r.string) != text[i:g[0]]:
        raise Failure("the recorded source of the interpolation is not the text", dict(text=text, start=i), text[i:g[0]], str(r.string))
    if exp is None:
        if parses(g[1]):
            raise Failure("an unclosed interpolation is shortened", dict(text=text, start=i), "TemplateSyntaxError", g)
        return False
    if g != exp and (parses(exp[1]) or parses(g[1])):
        raise Failure("extent of the interpolation", dict(text=text, start=i), exp, g)
    return parses(exp[1])


def getpe():
    pe = internal("tonnikala.languages.python", "parse_expression", ["text", "start_pos"])
    from tonnikala.runtime.exceptions import TemplateSyntaxError
    return pe, TemplateSyntaxError


def exhaustive(t, rnd):
    pe, TSE = getpe()
    sets = [("${", "a{}'\"()#\n", 5, "}"), ("${", "a{}'f:\\,", 5, "}x"), ("${", "{}a[]\n \"", 5, "} }"), ("$a", "a.([])' ", 5, ""), ("$a", ".b(){}\"\\\n", 5, ")]"), ("$a", "[(]).,$#\n", 5, "z")]
    n = 0
    for pre, alpha, k, suf in sets:
        for L in range(0, k + 1):
            for tup in itertools.product(alpha, repeat=L):
                n += 1
                if n % t.nshards != t.shard:
                    continue
                s = "".join(tup)
                for tail in ("", suf):
                    text = pre + s + tail
                    t.last = text
                    ok = judge(pe, text, 0, TSE)
                    t.add(text, ok)
        t.arm()


PIECES = ["a", "b.c", "'}'", '"{"', "'", '"', '"""}"""', "'''\n}'''", "{", "}", "(", ")", "[", "]", ":", ",", " ", "\n", "\n  ", "1", "'\\''", "f'{a}'", 'f"{a:{b}}"', "f'{{}}'", "rb'}'", "r'\\}'", "lambda: ", "#}\n", "\\\n", "+", "x for x in y", "{'k': {1: 2}}", "f(a)", ".d", "..", ".", "$", "$$", "!", "?", "\xe4", "\u20ac", "not ", "if ", " else ", "==", "''", '""', "\"it's\"", "'say \"}\"'", "f'{\"}\"}'", "f'{a!r:>{w}}'", "\r\n", "\t", "0x1f", "1e5", "...", ":=", "*", "**", "@", "->", ";"]


def rand(t, rnd):
    pe, TSE = getpe()
    while not t.over():
        for _ in range(200):
            n = rnd.randint(1, 9) if rnd.random() < .98 else rnd.randint(20, 150)
            s = "".join(rnd.choice(PIECES) for _ in range(n))
            pre = rnd.choice(["", "", "x", "ab\ncd ", "$$ ", "\n\n", "\xe4\U0001f600 ", "a}b ", "'", '"""', "# ", "{"])
            form = rnd.random()
            if form < .6:
                text = pre + "${" + s + "}" + rnd.choice(["", "x", "}", " }", "\n}", "$b", "'}", "\"}\n", "# }"])
            else:
                text = pre + "$" + rnd.choice(["a", "ab", "_x", "a1", "A\xe4"]) + rnd.choice(["", ".", "(", "[", ".b", "(a)", "[0]", " ", "\n"]) + s + rnd.choice(["", ")", "]", ").x", ")]", "."])
            i = len(pre)
            t.last = text
            t.add(text, judge(pe, text, i, TSE), sample=text if rnd.random() < .0005 else None)
        t.arm()


GOOD = ["a", "a.b", "a['}']", "{'a': 1}['a']", "{1, 2}", "{'x': {'y': {'z': '}'}}}", "f'{a}'", "f(a, {'}': ']'})", "'}'", '"{"', "'''}'''", "[{'}'}]", "(lambda x={}: x)", "a if {} else '{'", "'\\'}'", "f\"{ {'}': 1}['}'] }\"", "(a\n  + b)", "a[\n0]", "[x for x in {1: 2}]", "f(\n'}',\n)", "a # }\n", "'#}'", "b'}'", "{**a, '}': {}}", "f'{a:{b}}'", "f'{{}}'", "'a' '}'", "f(**{'}': 1})", "a\\\n+b", "{}", "()", "''", "{'{': '}'}", "not {}", "a[{}:{}]"]
UGOOD = ["a", "a.b", "a.b.c", "a()", "a(b)", "a[0]", "a('(')", "a(')')", "a['](']", "a({'}': 1})", "a.b(c.d[e(f)])[g].h", "a(b)(c)", "a[b][c]", "a(\nb)", "a(f'{b(1)}')", "a('''\n)''')", "a(b # )\n)", "_a", "a1", "__x__", "a.__b__", "a(*b, **c)", "a([(])]) ".strip()[:0] or "a([()])", "a(r'\\d')", "a(\"it's)\")", "a.b1._c", "a(lambda x: (x))", "a[b:c]", "a({1: [2, (3)]})", "a\xe9.\xe9"]
AFTER = ["", " ", ".", "..", ". ", ",", "}", ")", "]", "x" * 0, "!", "-b", "$b", "$$", "\n", "'", '"', "\xe9" * 0, "{", "{x}", "<", "&", ".1", ".(", " .b", "\n.b", " (b)", " [0]", ":", "%", "@", "#", "\\", ";", "/", "?", "\xa0", ".$b", "...", ".-", ", ", "\u2028"]


def big(t, rnd):
    """long and deeply bracketed interpolations"""
    pe, TSE = getpe()
    for n in (5, 12, 30, 60, 90):
        for o, c in ("()", "[]", ("{0: ", "}"), ("f(", ")"), ("a[", "]"), ("'{' + (", ")"), ("{'}': [", "]}")):
            for e in (o * n + "1" + c * n, o * n + "'})'" + c * n, "[" + ", ".join([o + "1" + c] * n) + "]", o * n + "1" + c * (n - 1), "f(" + ", ".join(["'}'", "x"] * n * 4) + ")", "x" * n * 10, ".".join(["x"] * n), "x" + "[0]" * n, "x" + "('}')" * n):
                for text in ("${" + e + "} }", "a ${" + e + "\n}", "$" + e if e[0] in "fax" else "${" + e, "$f(" + e + ").x)"):
                    t.last = text
                    t.add(text, judge(pe, text, text.index("$"), TSE))
            t.arm()


def grid(t, rnd):
    """well formed expressions followed by every kind of text"""
    pe, TSE = getpe()
    for e in GOOD:
        assert parses(e), e
        for pre in ("", "z", "a\n", "$$", "{", "'"):
            for post in AFTER + ["x", "}", "}}", "\n}"]:
                text = pre + "${" + e + "}" + post
                got = attempt(lambda: pe(text, len(pre)))
                if got[0] == "exc" or (str(got[1].string), str(got[1].expression)) != ("${" + e + "}", e):
                    raise Failure("extent of ${...}", text, e, repr(got[1]) if got[0] == "exc" else (got[1].string, got[1].expression))
                t.add(text)
    for e in UGOOD:
        assert parses(e), e
        for pre in ("", "z", "a\n", "$$", "(", "'"):
            for post in AFTER:
                text = pre + "$" + e + post
                got = attempt(lambda: pe(text, len(pre)))
                if got[0] == "exc" or (str(got[1].string), str(got[1].expression)) != ("$" + e, e):
                    raise Failure("extent of $name", text, e, repr(got[1]) if got[0] == "exc" else (got[1].string, got[1].expression))
                t.add(text)
    BAD = ["${", "${a", "${a ", "${'}", "${\"}", "${{}", "${{'}'}", "${'''}", "${a # }", "${(}", "${[}", "${f(}", "${\n", "${a\n", "$a(", "$a[", "$a(b", "$a[b", "$a(b]", "$a[b)", "$a(')", "$a(b", "$a.b(", "$a(b)(", "$a[0][", "$a((b)", "$a([b)]", "$a('", "$a(# )", "$a(\n", "$a({)}", "${a b}", "${}", "${ }", "${a}}"[:0] or "${)}", "${a=}"[:0] or "${=}"]
    from tonnikala.loader import Loader
    for b in BAD:
        for pre in ("", "x", "$$ ", "x\n"):
            for post in ("", " y", "\n y"):
                for wrap in ("<p>%s</p>", "<p class=\"%s\"/>", "<p><b>%s</b>z</p>", "<script>%s</script>"):
                    body = pre + b + post
                    if wrap.startswith("<script") is False:
                        body = body.replace('"', "&quot;")
                    source = wrap % body
                    st, r = attempt(lambda: Loader().load_string(source))
                    r = "accepted" if st == "ok" else r
                    if not isinstance(r, TSE):
                        raise Failure("unclosed or empty interpolation", source, "TemplateSyntaxError", repr(r))
                    t.add(source)


def rendered(t, rnd):
    """the same through rendering: the value and the text after it"""
    from tonnikala.loader import Loader
    from markupsafe import escape

    class Any:
        def __init__(self, n):
            self.n = n

        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            return Any(self.n + "." + k)

        def __call__(self, *a, **k):
            return Any(self.n + "%r%r" % (a, sorted(k.items())))

        def __getitem__(self, k):
            return Any(self.n + "[%r]" % (k,))

        def __repr__(self):
            return self.n

        def __str__(self):
            return self.n
    names = dict(a=Any("a"), b=Any("b"), c=Any("c"))
    es = [e for e in UGOOD if not any(x in e for x in ("e(f)", "*b", "_", "a1", "\xe9", "lambda", "c.d", "b:c"))]
    es = [e for e in es]
    for e in es:
        v = str(escape(str(eval(e, dict(names)))))
        for post in AFTER:
            for wrap in ("<p>%s</p>", "<p>$b %s</p>", "<p class=\"$b %s\"></p>"):
                if ('"' in post or '"' in e) and "class" in wrap:
                    continue
                body = ("$" + e + post).replace("&", "&amp;").replace("<", "&lt;")
                if "$b" in post:
                    pe_ = post.replace("$b", "b")
                else:
                    pe_ = post.replace("$$", "$")
                source = wrap % body
                exp = wrap.replace("$b", "b") % (v + str(escape(pe_)))
                got = attempt(lambda: Loader().load_string(source).render(dict(names)))
                if got != ("ok", exp):
                    raise Failure("rendering of $name with the text after it", source, exp, got[1])
                t.add(source)


PARTS = [("exhaustive short texts", exhaustive, 6), ("random texts", rand, 3), ("well formed and unclosed forms", grid, 1), ("long and deep", big, 1), ("rendered", rendered, 1)]
