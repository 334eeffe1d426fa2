"""C02: static content complete, once, in order."""
import itertools, random
from . import common, gen, tree, render
from .common import Failure, attempt, internal
from .tree import *


def ctx():
    return dict(gen.mk_ctx(), v="V&", k=3)


def frag(i, kind, rnd):
    """one fragment of a long sibling list"""
    u = "%04d" % i
    if kind == "t":
        return [T("t" + u)]
    if kind == "i":
        return [I("v")]
    if kind == "x":
        return [I("'e%s' + v" % u)]
    if kind == "e":
        return [El("b", [("id", [T("e" + u)])], {}, [T("in" + u)])]
    if kind == "d":
        return [El("i", [("id", [I("'d%s'" % u)])], {}, [])]
    if kind == "m":
        return [El("i", [("id", [T("m%s-" % u), I("v")])], {}, [I("v")])]
    if kind == "c":
        return [Cm("c" + u)]
    if kind == "C":
        return [Cm("!c" + u)]
    if kind == "f":
        return [Ctl("if", "yes", [T("f" + u)])]
    if kind == "F":
        return [Ctl("if", "1", [T("f" + u)])]
    if kind == "z":
        return [Ctl("if", "0", [T("z" + u)])]
    if kind == "r":
        return [Ctl("for", "q in l3", [T("r" + u), I("q")])]
    if kind == "v":
        return [El("br", [], {})]
    if kind == "l":
        return [I("literal('L%s')" % u)]
    if kind == "w":
        return [T(" \n ")]
    raise AssertionError(kind)


def norm(ns):
    out = []
    for n in ns:
        if isinstance(n, T) and out and isinstance(out[-1], T):
            out[-1] = T(out[-1].s + n.s)
        else:
            out.append(n)
    return out


WRAPS = ["plain", "elem", "if", "for", "def", "block", "with"]


def wrap(ns, kind):
    if kind == "plain":
        return ns
    if kind == "elem":
        return [El("div", [("class", [T("w")])], {}, ns)]
    if kind == "if":
        return [Ctl("if", "yes", ns), T("after")]
    if kind == "for":
        return [Ctl("for", "o1 in l", ns), T("after")]
    if kind == "def":
        return [Ctl("def", "fz()", ns), T("between"), I("fz()")]
    if kind == "block":
        return [Ctl("block", "bz", ns), T("after")]
    if kind == "with":
        return [Ctl("with", "o2 = v", ns), T("after")]


def long_lists(t, rnd):
    """sibling lists around the argument limit of one output call"""
    sizes = [1, 2, 3, 83, 124, 125, 126, 127, 248, 249, 250, 251, 252, 253, 374, 375, 499, 500, 501, 502, 503, 749, 750, 751, 1001]
    pats = ["i", "ti", "it", "te", "tie", "id", "dt", "im", "tic", "iC", "tCt", "ix", "lt", "tif", "tiF", "iz", "ir", "iv", "wi", "tmd", "e", "d", "tixlmdecCfFzrvw"]
    jobs = [(n, p, w) for n in sizes for p in pats for w in WRAPS]
    rnd.shuffle(jobs)
    jobs = jobs[:len(jobs) // (2 if t.tier == "quick" else 1)]
    # the most telling ones always
    jobs = [(n, p, "plain") for n in (249, 250, 251, 252, 500, 501, 502) for p in ("i", "ti", "it", "id", "iz", "tCt")] + jobs
    for k, (n, p, w) in enumerate(jobs):
        if k % t.nshards != t.shard:
            continue
        if t.over() and k > 60:
            break
        ns = []
        for i in range(n):
            ns.extend(frag(i, p[i % len(p)], rnd))
        render.check(t, [El("r", [], {}, wrap(norm(ns), w))], ctx, rnd, what="long sibling list")


def long_attr(t, rnd):
    for n in (1, 2, 3, 50, 124, 125, 126, 130, 249, 250, 251, 252, 300, 501):
        for p in ("ti", "it", "iit"):
            parts = []
            for i in range(n):
                parts.append(T("t%d" % i) if p[i % len(p)] == "t" else I("v"))
            if len(parts) == 1 and isinstance(parts[0], I):
                parts.append(T("z"))
            for extra in ([], [("id", [T("k")])], [("id", [I("v")])]):
                render.check(t, [El("r", [], {}, [T("a"), El("b", extra + [("class", norm(parts))], {}, [T("q")]), T("z"), I("v")])], ctx, rnd, what="long attribute value")
    # many attributes
    for n in (1, 5, 60, 130, 260):
        for kinds in ("c", "s", "m", "cs", "csm", "smc"):
            at = []
            for i in range(n):
                k = kinds[i % len(kinds)]
                at.append(("a%d" % i, {"c": [T("c%d" % i)], "s": [I("v")], "m": [T("m"), I("v")]}[k]))
            render.check(t, [El("r", at, {}, [T("x"), I("v")])], ctx, rnd, what="many attributes")


def attr_names(t, rnd):
    """names with and without prefixes, next to each other and to control attributes of the same name"""
    names = ["lang", "xml:lang", "x:lang", "xmlns:pyx", "xmlns", "xmlns:p", "xmlns:js", "py", "pyx:if", "pyx:lang", ":lang", "@lang", "v-on:lang", "a.b", "data-x", "_x", "x:py:if", "js:if", "py-if", "if", "for", "strip", "content", "\xe4", "x:y:lang", "lang:", "[x]", "#x"]
    kinds = {"c": lambda i: [T("c%d" % i)], "s": lambda i: [I("v")], "m": lambda i: [T("m"), I("v")]}
    for a in names:
        for k in kinds:
            render.check(t, [El("r", [(a, kinds[k](0))], {}, [T("x")])], ctx, rnd, what="attribute name")
    for a, b in itertools.permutations(names, 2):
        render.check(t, [El("r", [(a, [T("1")]), (b, [T("2")])], {}, [T("x"), El("s", [(a, [I("v")]), (b, [T("2")])], {}, [])])], ctx, rnd, what="attribute names")
    for a, v in (("if", "v"), ("strip", "0"), ("content", "v"), ("for", "i in [1, 2]"), ("with", "k = v"), ("attrs", "[('q', v)]"), ("block", "blk"), ("def", "fn"), ("replace", "v")):
        for n in (a, "x:" + a, ":" + a, "pyx:" + a):
            for k in kinds:
                render.check(t, [El("r", [], {}, [El("e", [(n, kinds[k](0)), ("z", [T("1")])], {a: v}, [I("v")])])], ctx, rnd, what="an attribute named like a control attribute")


def nesting(t, rnd):
    """all small nestings of fragments, and deep ones"""
    kinds = "tieCcfFzrdm"
    for n in (1, 2, 3):
        for combo in itertools.product(kinds, repeat=n):
            ns = []
            for i, k in enumerate(combo):
                ns.extend(frag(i, k, rnd))
            if n == 3 and rnd.random() < (.6 if t.tier == "quick" else 0):
                continue
            render.check(t, [El("r", [], {}, [T("["), El("p", [], {}, norm(ns)), T("]")])], ctx, rnd, what="fragments")
    for w in WRAPS[1:]:
        for w2 in WRAPS[1:]:
            if w == w2 == "block" or w == w2 == "def":
                continue
            for combo in ("t", "ti", "it", "tet", "tCt", "c", "e", "ie", "z", "F", "tFt", ""):
                ns = []
                for i, k in enumerate(combo):
                    ns.extend(frag(i, k, rnd))
                inner = wrap(norm(ns), w2)
                render.check(t, [El("r", [], {}, norm([T("<a>")] + wrap(inner, w) + [T("z"), El("hr", [], {})]))], ctx, rnd, what="nested fragments")
    for depth in (5, 20, 60):
        n = [T("x"), I("v")]
        for i in range(depth):
            n = [T("a%d" % i), El("d%d" % i, [("i", [T(str(i))])] if i % 3 else [], {"if": "yes"} if i % 7 == 3 else {}, n), T("z%d" % i)]
        render.check(t, [El("r", [], {}, n)], ctx, rnd, what="deep nesting")


def characters(t, rnd):
    """every character is output as it is written, wherever it stands"""
    special = "<&$>\"'"
    single = list(range(0x20)) + [0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xad, 0x130, 0x131, 0x1e9e, 0x200b, 0x200d, 0x2028, 0x2029, 0xd800, 0xdfff, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff]
    runs = [chr(c) for c in single] + ["".join(chr(c) for c in range(s, s + 128) if chr(c) not in special) for s in list(range(0, 0x800, 128)) + [rnd.randrange(0x800, 0x10ff00) for _ in range(20)]]
    for s in runs:
        for nodes in ([T(s)], [T("a" + s + "b")], [I("a"), T(s + "b")], [El("p", [("title", [T("a" + s + "b")])], {}, [T("c" + s), El("br", [], {}, []), T(s + s)])], [El("p", [("title", [T("a" + s), I("a"), T(s)])], {"if": "a"}, [T(s), I("b"), T("z" + s)])], [El("script", [], {}, [T("a" + s + "b")])]):
            render.check(t, [El("r", [], {}, nodes)], ctx, None, what="character")
        if t.over():
            return


def comments(t, rnd):
    bodies = ["", " ", "!", " !", "\n!x", "! -- x", "x!", " x ! y", "a", "$a", "${a}", "${", "$$", "$", "&amp;", "&", "<b>", "</r>", "a - b", "\"'", "\xe4", "\n\n", "[if IE]", "py:if", "<py:if test=\"x\">", "!$a", "--!", "#", "\xa0!nbsp", "<!", "a--b", "a---b--c", " -- ", "--x", "----", "?!", "! drop ${"]
    for b in bodies:
        if "-->" in b or b == "--!" or b.startswith((">", "->")):
            continue
        for pre in ([], [T("a")], [I("a")], [El("b", [], {}, [])], [Cm("p")], [Cm("!p")]):
            for post in ([], [T("z")], [I("b")], [El("i", [], {}, [T("q")])], [Cm("q")]):
                render.check(t, [El("r", [], {}, pre + [Cm(b)] + post)], ctx, None, what="comment")
        for w in WRAPS[1:]:
            render.check(t, [El("r", [], {}, wrap([Cm(b)], w))], ctx, None, what="comment")
            render.check(t, [El("r", [], {}, wrap([T("q"), Cm(b), T("r")], w))], ctx, None, what="comment")
        render.check(t, [Cm(b), El("r", [], {}, [T("q")])], ctx, None, what="comment before the root")
        render.check(t, [El("r", [], {}, [T("q")]), Cm(b)], ctx, None, what="comment after the root")


DOCTYPES = ["<!DOCTYPE html>", "<!doctype html>", "<!DocType html>", '<!DOCTYPE html PUBLIC "-//W3C//DTD XHTML 1.0 Strict//EN" "http://www.w3.org/TR/xhtml1/DTD/xhtml1-strict.dtd">', '<!DOCTYPE html SYSTEM "about:legacy-compat">']


def doctype(t, rnd):
    from tonnikala.loader import Loader
    for d in DOCTYPES:
        for pre in ("", "\n", "<!-- c -->"):
            for post in ("", "\n", " <!-- d -->\n"):
                s = pre + d + post + "<html><b>x</b>$v</html>"
                got = attempt(lambda: Loader().load_string(s).render(dict(v="V")))
                t.add(s)
                if got[0] != "ok":
                    raise Failure("doctype", s, "a rendering", repr(got[1]))
                g = got[1]
                low = re.match(r"<!doctype", d, re.I).end()
                parts = [x for x in ("<!-- c -->" if pre.startswith("<!--") else "", "<!DOCTYPE" + d[low:], "<!-- d -->" if "d -->" in post else "", "<html><b>x</b>V</html>") if x]
                # the XML library may write the quotes of the doctype differently
                if re.sub(r"\s+", "", g).replace("'", '"') != re.sub(r"\s+", "", "".join(parts)):
                    raise Failure("doctype", s, "".join(parts), g)


def coalesce(t, rnd):
    """coalesce_strings keeps the concatenation"""
    import ast
    cs = internal("tonnikala.languages.python.generator", "coalesce_strings", ["args"])
    gm = __import__("tonnikala.languages.python.generator", fromlist=["x"])
    for n in range(0, 7):
        for pat in itertools.product("sn", repeat=n):
            args = [gm.Str(s="<%d>" % i) if p == "s" else ast.Name(id="n%d" % i, ctx=ast.Load()) for i, p in enumerate(pat)]
            args = [gm.Str(s="") if isinstance(a, ast.Constant) and rnd.random() < .15 else a for a in args]

            def den(xs):
                out = []
                for x in xs:
                    if isinstance(x, ast.Name):
                        out.append(x.id)
                    elif out and out[-1].startswith("'"):
                        out[-1] += x.value
                    else:
                        out.append("'" + x.value)
                return [o for o in out if o != "'"]
            e = den(args)
            # an adjacent pair separated by an empty string only
            got = attempt(lambda: den(cs(list(args))))
            if got[0] == "exc":
                raise Failure("coalesce_strings", pat, e, repr(got[1]))
            if "".join(x.lstrip("'") + "|" * (not x.startswith("'")) for x in got[1]) != "".join(x.lstrip("'") + "|" * (not x.startswith("'")) for x in e):
                raise Failure("coalesce_strings", (pat, e), e, got[1])
            t.add(pat, n > 1)


PARTS = [
    ("long sibling lists", long_lists, 6),
    ("long attributes", long_attr, 1),
    ("attribute names", attr_names, 1),
    ("nesting", nesting, 1),
    ("comments", comments, 1),
    ("characters", characters, 1),
    ("doctype", doctype, 1),
    ("coalesce_strings", coalesce, 1),
    ("many of everything", render.big_part(), 2),
    ("random templates", render.random_part(budgets=(8, 14, 25, 60, 120), what="order and completeness of the output"), 5),
]
