"""C06: name resolution."""
import itertools, random, re
from . import common, gen, tree, render
from .common import Failure, attempt, internal
from .tree import *

POOL = ["a", "b", "u", "len", "str", "w"]


FUNC = re.compile(r"&lt;(class &#39;[^&]*&#39;|(bound |built-in )?(function|method)( (&lt;|&gt;|[^&])*)?)&gt;")


def norm(s):
    """functions print alike in both"""
    return FUNC.sub("FN", s)


def ctx():
    return dict(a="ca", b="cb", l=["l0", "l1"], f=lambda x="df": "F(%s)" % (x,), str="cstr", yes=True, no=False, g2=lambda fn: fn("g2"))


class Scoped:
    """random templates binding and using a few names again and again"""
    def __init__(self, rnd, budget):
        self.r, self.left, self.uid = rnd, budget, 0

    def nm(self):
        return self.r.choice(POOL)

    def expr(self):
        r = self.r
        n, m = self.nm(), self.nm()
        # list, set and dict comprehensions use names of their own here: CPython 3.12 itself mixes up a name that is a
        # comprehension variable and a free variable of a function nested next to it (inlined comprehensions)
        return r.choice([n, n, n, n, "f(%s)" % n, "(lambda %s: %s)(%s)" % (n, m, self.nm()), "(lambda %s, %s='dv': (%s, %s))('p')" % (n, "k1", n, m), "(lambda *%s: %s)(1)" % (n, m), "(lambda z=%s: (z, %s))()" % (n, m), "list(%s for %s in l)" % (m, n), "list((%s, %s) for %s in l for %s in %s)" % (n, m, n, m, n),
                         "sorted(%s for %s in l if %s)" % (n, n, m), "''.join(%s for %s in l)" % (n, n), "list(%s for %s in [%s])" % (n, n, m), "list(list(%s for %s in l) for %s in l)" % (m, n, m), "g2(lambda %s: [%s for q1 in l])" % (n, n), "(lambda: %s)()" % n, "(lambda **%s: sorted(%s))(t=1)" % (n, m), "(lambda %s: (lambda %s: (%s, %s))(1))(2)" % (n, m, n, m), "list((lambda: %s)() for %s in l)" % (n, n), "callable(len)", "callable(%s)" % n, "'%s'" % n, "list(%s for (%s, q2) in [('t', 1)])" % (m, n),
                         "[%s for q3 in l]" % n, "[%s for q7 in l for q8 in l for q9 in l]" % n, "list(%s for %s in l for q1 in l for q2 in l)" % (n, n), "list(%s for q1 in l for %s in l for q2 in l)" % (m, n), "list(%s for q1 in l for q2 in l for %s in l if q1)" % (m, n), "[q1 for q0 in l for q1 in l for q2 in [%s]]" % n, "{q1: %s for q0 in l for q1 in l for q2 in l}" % n, "{q4: %s for q4 in l}" % n, "sorted({q5 for q5 in l if %s})" % n, "[(q6, %s) for q6 in [%s]]" % (n, m)])

    def nodes(self, depth):
        out = []
        for _ in range(self.r.randint(1, 4)):
            if self.left <= 0:
                break
            self.left -= 1
            out.extend(self.node(depth))
        return out

    def node(self, depth):
        r = self.r
        k = r.choice(["i", "i", "i", "t", "with", "for", "def", "block", "if", "el", "vars"] if depth < 5 else ["i", "t"])
        if k == "i":
            return [T(";"), I(self.expr())]
        if k == "t":
            return [T(r.choice("xyz"))]
        if k == "el":
            return [El("p", [("id", [T("v"), I(self.expr())])], {}, self.nodes(depth + 1))]
        if k == "if":
            return [Ctl("if", r.choice(["yes", "no", "1", self.nm() + " or 1"]), self.nodes(depth + 1))]
        if k in ("with", "vars"):
            n, m = self.nm(), self.nm()
            v = "%s = %s" % (n, r.choice(["'w%d'" % r.randint(0, 9), "'w' + %s(%s)" % ("repr", m), self.expr()]))
            if r.random() < .3:
                v += "; %s = %s" % (m, r.choice(["'v'", n, self.nm()]))
            return [Ctl(k, v, self.nodes(depth + 1)), T("/"), I(self.nm())]
        if k == "for":
            n, m = self.nm(), self.nm()
            v = r.choice(["%s in l" % n, "%s in ['k', %s]" % (n, m), "%s, %s in [(1, 2)]" % (n, m) if n != m else "%s in l" % n, "%s in list(%s for %s in l)" % (n, n, n)])
            return [Ctl("for", v, self.nodes(depth + 1)), T("/")] + ([I(self.nm())] if r.random() < .4 else [])
        if k == "block":
            self.uid += 1
            return [Ctl("block", "blk%d" % self.uid, self.nodes(depth + 1))]
        if k == "def":
            self.uid += 1
            fn = r.choice(["fn%d" % self.uid] * 6 + ["u", "w"])
            m = r.choice(["a", "b", "len", "str", "l"])
            n, m = self.nm(), self.nm()
            sig, call = r.choice([("()", "()"), ("(%s)" % n, "('A')"), ("(%s, k9='D')" % n, "('A')"), ("(*%s)" % n, "(1, 2)"), ("(**%s)" % n, "(z=1)"), ("(%s='dd')" % n, "()"), ("(k8=%s)" % m, "()"), ("(*, %s=1)" % n, "(%s=2)" % n), ("(*, k7=%s)" % m, "()")])
            body = self.nodes(depth + 1) + [T("."), I(n)]
            use = [T(","), I(fn + call)] if r.random() < .85 else []
            return [Ctl("def", fn + sig, body)] + use + ([T("/"), I(self.nm())] if r.random() < .4 else [])

    def template(self):
        return [El("r", [], {}, self.nodes(0))]


def scoped(t, rnd):
    while not t.over():
        g = Scoped(rnd, rnd.choice((3, 6, 10, 18)))
        render.check(t, g.template(), ctx, rnd, strict_exc=True, norm=norm, what="name resolution")


def grid(t, rnd):
    """two bindings of the same name around one use, in every combination"""
    layers = {
        "with": lambda n, v, b: [Ctl("with", "%s = %r" % (n, v), b)],
        "vars": lambda n, v, b: [Ctl("vars", "%s = %r" % (n, v), b)],
        "for": lambda n, v, b: [Ctl("for", "%s in [%r]" % (n, v), b)],
        "def": lambda n, v, b: [Ctl("def", "fd_%s(%s)" % (v, n), b), I("fd_%s(%r)" % (v, v))],
        "defdefault": lambda n, v, b: [Ctl("def", "fe_%s(%s=%r)" % (v, n, v), b), I("fe_%s()" % v)],
        "defstar": lambda n, v, b: [Ctl("def", "fs_%s(*%s)" % (v, n), b), I("fs_%s(%r)" % (v, v))],
        "defkw": lambda n, v, b: [Ctl("def", "fk_%s(*, %s)" % (v, n), b), I("fk_%s(%s=%r)" % (v, n, v))],
        "block": lambda n, v, b: [Ctl("block", "bl_%s" % v, b)],
        "elem": lambda n, v, b: [El("p", [("c", [T("x"), I(n)])], {}, b)],
        "if": lambda n, v, b: [Ctl("if", "yes or %s" % n, b)],
        "elemfor": lambda n, v, b: [El("p", [("c", [T("x"), I(n)])], {"for": "%s in [%r]" % (n, v)}, b)],
        "elemwith": lambda n, v, b: [El("p", [("c", [T("x"), I(n)])], {"with": "%s = %r" % (n, v)}, b)],
        "elemdef": lambda n, v, b: [El("p", [("c", [T("x"), I(n)])], {"def": "fq_%s(%s)" % (v, n)}, b), I("fq_%s(%r)" % (v, v))],
        "lambda": lambda n, v, b: [I("(lambda %s: %s)(%r)" % (n, n, v))] + b,
        "listcomp": lambda n, v, b: [I("[%s for %s in [%r]]" % (n, n, v))] + b,
        "gencomp": lambda n, v, b: [I("list(%s for %s in [%r])" % (n, n, v))] + b,
        "setcomp": lambda n, v, b: [I("{%s for %s in [%r]}" % (n, n, v))] + b,
        "dictcomp": lambda n, v, b: [I("{%s: 1 for %s in [%r]}" % (n, n, v))] + b,
        "pair": lambda n, v, b: [Ctl("for", "%s, q_%s in [(%r, 1)]" % (n, v, v), b)],
    }
    for n in ("a", "u", "len", "str", "_", "l"):
        for k1, k2 in itertools.product(layers, repeat=2):
            for before, after in ((0, 1), (1, 0), (0, 0)):
                inner = layers[k2](n, "v2", [T("("), I(n), T(")")])
                body = ([I(n)] if before else []) + inner + ([T("~"), I(n)] if after else [])
                nodes = [El("r", [], {}, ([I(n)] if before else []) + layers[k1](n, "v1", body) + ([T("!"), I(n)] if after else []))]
                render.check(t, nodes, ctx, None, strict_exc=True, norm=norm, what="binding of a name")
    # a name found nowhere fails only when it is evaluated
    for use in ([I("nosuch")], [El("p", [("c", [I("nosuch")])], {}, [])], [El("p", [("c", [T("a"), I("nosuch")])], {}, [])], [El("p", [], {"if": "nosuch"}, [])], [El("p", [], {"for": "i in nosuch"}, [])], [El("p", [], {"with": "q = nosuch"}, [])], [El("p", [], {"content": "nosuch"}, [])], [El("p", [], {"attrs": "nosuch"}, [])], [El("p", [], {"strip": "nosuch"}, [T("x")])], [El("p", [], {"replace": "nosuch"}, [])], [I("(lambda: nosuch)()")], [I("[nosuch for i in l]")], [Ctl("block", "bq", [I("nosuch")])], [Ctl("def", "fq", [I("nosuch")]), I("fq()")], [I("nosuch.a.b(c)")], [I("f(nosuch)")]):
        for guard, runs in (("yes", True), ("no", False), ("0", False), ("1", True)):
            nodes = [El("r", [], {}, [T("a"), Ctl("if", guard, use), T("z")])]
            if any(isinstance(x, Ctl) and x.kind == "block" for x in use) and not runs:
                pass
            render.check(t, nodes, ctx, None, strict_exc=True, norm=norm, what="undefined name")
            nodes = [El("r", [], {}, [T("a"), Ctl("def", "never()", use), T("z")])]
            render.check(t, nodes, ctx, None, strict_exc=True, norm=norm, what="undefined name")


def closures(t, rnd):
    """what a function made in an outer scope sees does not change by the same name being bound in an inner scope"""
    from tonnikala.loader import Loader
    outer = {
        "with": "<py:with vars=\"N = 'o'; g = lambda: N\">%s</py:with>",
        "with2": "<py:with vars=\"N = 'o'\"><py:with vars=\"g = lambda: N\">%s</py:with></py:with>",
        "element": "<p py:strip=\"1\" py:with=\"N = 'o'; g = lambda: N\">%s</p>",
        "def": "<py:def function=\"fo(N)\"><py:with vars=\"g = lambda: N\">%s</py:with></py:def>${fo('o')}",
        "for": "<py:for each=\"N in ['o']\"><py:with vars=\"g = lambda: N\">%s</py:with></py:for>",
        "own": "<py:with vars=\"N = 'o'\"><py:def function=\"g()\">$N</py:def>%s</py:with>",
        "forown": "<py:for each=\"N in ['o']\"><py:def function=\"g()\">$N</py:def>%s</py:for>",
    }
    inner = {
        "with": "<py:with vars=\"N = 'i'\">%s</py:with>",
        "element": "<p py:strip=\"1\" py:vars=\"N = 'i'\">%s</p>",
        "def": "<py:def function=\"fi(N)\">%s</py:def>${fi('i')}",
        "default": "<py:def function=\"fi(N='i')\">%s</py:def>${fi()}",
        "forin": "<py:with vars=\"k = 1\"><py:for each=\"N in ['i']\">%s</py:for></py:with>",
        "withwith": "<py:with vars=\"k = 1\"><py:with vars=\"N = 'i'\">%s</py:with></py:with>",
        "ifwith": "<py:if test=\"yes\"><py:with vars=\"N = 'i'\">%s</py:with></py:if>",
    }
    frames = ["<r>%s</r>", "<r><py:if test=\"yes\">%s</py:if></r>", "<r><py:block name=\"bb\">%s</py:block></r>", "<r><py:def function=\"ff()\">%s</py:def>${ff()}</r>", "<r><py:with vars=\"y = 1\">%s</py:with></r>"]
    for name in ("n1", "len"):
        for (ko, o), (ki, i), fr in itertools.product(outer.items(), inner.items(), frames):
            for pre, post, e in (("", "", ""), ("", "$N", "o"), ("-$N", "", "-o")):
                if ki == "forin" and post:
                    # the target of a loop belongs to the function around it
                    continue
                source = re.sub(r"\bN\b", name, fr % (o % (pre + i % "$N${g()}" + post)))
                t.arm(source)
                got = attempt(lambda: Loader().load_string(source).render({"yes": True, "n1": "ctx"}))
                want = "<r>%sio%s</r>" % ((e, "") if pre else ("", e))
                if got != ("ok", want):
                    raise Failure("what a function of an outer scope sees", source, want, repr(got[1]))
                t.add(source)


def context_values(t, rnd):
    """context values of every kind win over builtins and over the template's own definitions"""
    from tonnikala.loader import Loader
    import builtins
    for name in ["len", "str", "max", "print", "type", "id", "gettext", "literal2", "a", "b1", "True2", "None_", "_", "__x", "x__", "\xe4", "context", "self", "output", "escape", "buffer", "name", "render", "__main", "load", "bind", "runtime", "egettext2"]:
        for v, e in (("V", "V"), (None, "None"), (False, "False"), (0, "0"), ("", ""), ([], "[]")):
            for tpl, exp in (("<r>${%s}</r>", "<r>%s</r>"), ("<r><py:def function=\"q()\">${%s}</py:def>${q()}</r>", "<r>%s</r>"), ("<r><py:block name=\"q\">${%s}</py:block></r>", "<r>%s</r>"), ("<r>${[%s for i in [1]][0]}</r>", "<r>%s</r>"), ("<r>${(lambda: %s)()}</r>", "<r>%s</r>"), ("<r a=\"-${%s}\"></r>", "<r a=\"-%s\"></r>"), ("<r><py:with vars=\"z=%s\">$z</py:with></r>", "<r>%s</r>"), ("<r><py:for each=\"z in [%s]\">$z</py:for></r>", "<r>%s</r>"), ("<r><py:def function=\"q(p=%s)\">$p</py:def>${q()}</r>", "<r>%s</r>"), ("<r><p py:content=\"%s\"></p></r>", "<r><p>%s</p></r>"), ("<r><p py:if=\"1 or 2\">${%s}</p></r>", "<r><p>%s</p></r>"), ("<r><py:def function=\"%s()\">own</py:def>${%s}</r>", "<r>%s</r>"), ("<r><py:with vars=\"%s='in'\">${%s}</py:with>${%s}</r>", "<r>in%s</r>")):
                if name == "gettext" and "function=\"%s()" in tpl:
                    continue
                source = tpl.replace("%s", name)
                t.arm(source)
                got = attempt(lambda: Loader().load_string(source).render({name: v}))
                if got != ("ok", exp.replace("%s", e)):
                    raise Failure("a context value is used for its name", dict(template=source, context={name: v}), exp.replace("%s", e), got[1])
                t.add((source, e))
        # without a context value: the builtin, or the template's own definition
    for name in ["len", "str", "max", "min", "sum", "abs", "int", "dict", "list", "set", "range", "zip", "map", "sorted", "repr", "isinstance", "getattr", "ValueError", "iter", "any", "all", "enumerate", "bool", "tuple", "chr", "ord", "hex", "round", "reversed", "filter", "object", "Ellipsis", "callable", "format", "hash", "divmod"]:
        for tpl in ("<r>${%s is B.%s}</r>", "<r><py:def function=\"q()\">${%s is B.%s}</py:def>${q()}</r>", "<r>${[%s is B.%s for i in [1]][0]}</r>", "<r><py:block name=\"q\">${%s is B.%s}</py:block></r>", "<r><py:for each=\"i in [1]\">${%s is B.%s}</py:for></r>", "<r><py:with vars=\"i=1\">${%s is B.%s}</py:with></r>", "<r><py:with vars=\"%s=1\">x</py:with>${%s is B.%s}</r>", "<r>${(lambda %s: 1)(2)}${%s is B.%s}</r>"):
            source = tpl.replace("%s", name)
            got = attempt(lambda: Loader().load_string(source).render({"B": builtins}))
            e = tpl[:0] + ("<r>xTrue</r>" if "=1\">x" in tpl else "<r>1True</r>" if "lambda" in tpl else "<r>True</r>")
            if got != ("ok", e):
                raise Failure("a builtin is used for its name", source, e, got[1])
            t.add(source)


def free_variables(t, rnd):
    """the free variables of an expression, compared with what Python's symbol table says"""
    import dis
    FV = internal("tonnikala.languages.python.astalyzer", "FreeVarFinder")
    exprs = [Scoped(rnd, 1).expr() for _ in range(3000)]
    for e in exprs:
        def free(code):
            out = set()
            for ins in dis.get_instructions(code):
                if ins.opname in ("LOAD_GLOBAL", "LOAD_NAME"):
                    out.add(ins.argval)
            for c in code.co_consts:
                if hasattr(c, "co_code"):
                    out |= free(c)
            return out
        want = free(compile("lambda: (%s)" % e, "<x>", "eval"))
        got = attempt(lambda: set(FV.for_expression(e).get_free_variables()))
        if got[0] == "exc" or not want <= got[1]:
            raise Failure("free variables of an expression", e, sorted(want), got[1])
        t.add(e, len(want) > 0)


def statements(t, rnd):
    """names bound inside nested statements of a code instruction, and names used where a definition is created, do not
    hide or miss the context"""
    from tonnikala.loader import Loader
    bodies = [("class K:\n    N = 1", "N", "V"), ("class K:\n    N = 1\n    def m(self):\n        return N\nr = K().m()", "r", "V"), ("class K:\n    q = N", "K.q", "V"),
              ("async def g():\n    N = 1", "N", "V"), ("def g():\n    N = 1", "N", "V"), ("def g():\n    N = 1\n    return N", "g()", "1"), ("def g():\n    return N", "g()", "V"),
              ("def g(a, k=N):\n    return k", "g(1)", "V"), ("def g(a: N):\n    return a", "g(1)", "1"), ("def g(a, *b: N, c: N = 2, **d: N):\n    return a", "g(1)", "1"), ("def g(N, a: N):\n    return (N, a)", "g(1, 2)", "(1, 2)"),
              ("def dec(f):\n    return f\n@(lambda f: (lambda *a: (N, f(*a))))\ndef g(N):\n    return N", "g(1)", "(&#39;V&#39;, 1)"), ("g = lambda N: N", "(g(1), N)", "(1, &#39;V&#39;)"), ("g = lambda a, k=N: (a, k)", "g(1)", "(1, &#39;V&#39;)"),
              ("g = [1 for N in [2]]", "N", "V"), ("g = [N for i in [2]]", "g", "[&#39;V&#39;]"), ("class A:\n    def m(self, k=N):\n        N = 2\n        return k", "A().m()", "V"), ("class A:\n    for N in [1]:\n        pass", "N", "V"),
              ("def g():\n    class N:\n        pass\n    return 3", "(g(), N)", "(3, &#39;V&#39;)"), ("class A(type(N)):\n    pass", "A('x')", "x"), ("def g():\n    def N():\n        return 1\n    return N()", "(g(), N)", "(1, &#39;V&#39;)")]
    wraps = ["<r><?python %s ?>${%s}</r>", "<r><py:def function=\"zz()\"><?python %s ?>${%s}</py:def>${zz()}</r>", "<r><py:block name=\"zz\"><?python %s ?>${%s}</py:block></r>", "<r><py:for each=\"zz in [1]\"><?python %s ?>${%s}</py:for></r>", "<r><py:with vars=\"zz = 1\"><?python %s ?>${%s}</py:with></r>"]
    for name in ["n1", "len", "u1", "\xe4"]:
        for body, use, want in bodies:
            for w in wraps:
                source = w % ("\n" + re.sub(r"\bN\b", name, body) + "\n", re.sub(r"\bN\b", name, use))
                got = attempt(lambda: Loader().load_string(source).render({name: "V"}))
                if got[0] == "exc" or "<r>%s</r>" % want != got[1]:
                    raise Failure("a context value is used for its name next to nested statements", dict(template=source, context={name: "V"}), "<r>%s</r>" % want, got[1])
                t.add((name, body, w))
        for sig, call, want in [("f(a9: N)", "f(1)", "1"), ("f(*a9: N)", "f(1)", "(1,)"), ("f(a9=N)", "f()", "V"), ("f(*, a9=N)", "f()", "V"), ("f(a9) -> N", "f(1)", "1"), ("f(a9: N = N)", "f()", "V"), ("f(a9, b9: [N for i in [1]] = 2)", "f(1)", "1"), ("f(a9=lambda N: N)", "f()(4)", None)]:
            for w in ["<r><py:def function=\"%s\">$a9</py:def>${%s}</r>", "<r><py:if test=\"1 or 2\"><py:def function=\"%s\">$a9</py:def>${%s}</py:if></r>", "<r><py:block name=\"zz\"><py:def function=\"%s\">$a9</py:def>${%s}</py:block></r>"]:
                if want is None:
                    continue
                source = w % (re.sub(r"\bN\b", name, sig), re.sub(r"\bN\b", name, call))
                got = attempt(lambda: Loader().load_string(source).render({name: "V"}))
                if got[0] == "exc" or "<r>%s</r>" % want != got[1]:
                    raise Failure("a context value is used in the signature of a definition", dict(template=source, context={name: "V"}), "<r>%s</r>" % want, got[1])
                t.add((name, sig, w))


PARTS = [("closures", closures, 1), ("nested statements and signatures", statements, 1), ("binding pairs", grid, 1), ("scoped random templates", scoped, 5), ("context values and builtins", context_values, 2), ("free variables", free_variables, 1), ("random templates", render.random_part(what="name resolution"), 2)]
