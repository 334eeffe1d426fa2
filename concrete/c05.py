"""C05: control directives behave like the Python statements they stand for."""
import itertools, random
from . import common, gen, tree, render
from .common import Failure, attempt, internal
from .tree import *

STATE = {}


def ctx():
    log = STATE["log"] = []

    def L(k, v=None):
        log.append(k)
        return v
    c = gen.mk_ctx()
    c["L"] = L
    return c


def trace():
    return STATE["log"]


CONDV = ["L('c', 1)", "L('c', 0)", "L('c', '')", "L('c', 'x')", "L('c', None)", "L('c', [])", "L('c', [0])"] + CONST_CONDS
FORV = ["i1 in L('f', [1, 2, 3])", "i1 in L('f', [])", "i1 in L('f', ['<'])", "i1, j1 in L('f', [(1, 2), (3, 4)])", "(i1, j1) in L('f', {1: 2}.items())", "i1 in (1, 2)", "i1 in ()", "i1 in range(L('f', 3))", "i1 in [L('g', q) for q in l]"]


def one_layer(kind, rnd, n):
    """directive argument, bound names, what to write to call it"""
    if kind == "if":
        return rnd.choice(CONDV).replace("'c'", "'c%d'" % n), [], None
    if kind == "for":
        f = rnd.choice(FORV).replace("i1", "i%d" % n).replace("j1", "j%d" % n)
        return f, ["i%d" % n], None
    if kind == "def":
        return rnd.choice([("fn%d" % n, [], "fn%d()" % n), ("fn%d()" % n, [], "fn%d()" % n), ("fn%d(p%d)" % (n, n), ["p%d" % n], "fn%d(L('arg', a))" % n), ("fn%d(p%d=L('dflt', b))" % (n, n), ["p%d" % n], "fn%d()" % n)])
    if kind in ("with", "vars"):
        return "w%d = L('w%d', a)" % (n, n), ["w%d" % n], None
    if kind == "block":
        return "blk%d" % n, None, None


def elements(t, rnd):
    """every subset of the directives on one element, in every kind of writing order"""
    kinds = ("block", "if", "for", "def", "with", "vars")
    subsets = [s for k in range(0, 7) for s in itertools.combinations(kinds, k)]
    jobs = [(s, inner, form, rep) for s in subsets for inner in ("kids", "content", "replace", "strip", "strip0", "stripE", "empty", "attrs", "content0") for form in ("el", "ctl") for rep in range(2 if t.tier == "quick" else 12)]
    rnd.shuffle(jobs)
    for k, (sub, inner, form, rep) in enumerate(jobs):
        if k % t.nshards != t.shard:
            continue
        if t.over():
            break
        n = 0
        scope = ["a"]
        dirs = {}
        call = None
        order = [x for x in kinds if x in sub]
        names = []
        for x in order:
            n += 1
            a, sc, c = one_layer(x, rnd, n)
            dirs[x] = a
            if x == "def":
                call = c
            names.append((x, sc))
        for x, sc in names:
            scope = ["a"] if sc is None else scope + sc
        uses = [T("["), I("L('u', %s)" % scope[-1]), I(scope[0]), T("]")]
        ctl = None
        if form == "ctl" and order:
            # the outermost one as an element of its own
            x = rnd.choice(order)
            rest = {k2: v for k2, v in dirs.items() if k2 != x}
            # directives on a control element lie inside it
            if any(kinds.index(y) < kinds.index(x) for y in rest):
                x = order[0]
                rest = {k2: v for k2, v in dirs.items() if k2 != x}
            if x == "with" and "vars" in rest:
                continue          # py:vars on a py:with element is its own argument
            items = list(rest.items())
            rnd.shuffle(items)
            kids = [] if inner == "empty" else uses
            node = Ctl(x, dirs[x], kids, dict(items))
            if inner == "replace":
                node.dirs["replace"] = "L('rep', a)"
            elif inner.startswith("content"):
                node.dirs["content"] = "L('cont', a)"
        else:
            d = dict(dirs)
            kids = [] if inner == "empty" else uses
            attrs = [("id", [T("k")]), ("class", [I("L('at', %s)" % scope[-1])])]
            if inner == "content":
                d["content"] = "L('cont', a)"
            elif inner == "content0":
                d["content"] = "L('cont', '')"
                kids = []
            elif inner == "replace":
                d["replace"] = "L('rep', %s)" % scope[-1]
            elif inner == "strip":
                d["strip"] = rnd.choice(["yes", "m", "a", "1", "True"])
            elif inner == "strip0":
                d["strip"] = rnd.choice(["no", "n", "e", "0", "False", "None"])
            elif inner == "stripE":
                d["strip"] = ""
            elif inner == "attrs":
                d["attrs"] = "L('pa', {'z': %s, 'y': None, 'x': True})" % scope[-1]
            if rnd.random() < .2:
                attrs = []
            items = list(d.items())
            rnd.shuffle(items)
            node = El("p", attrs, dict(items), kids)
        if form == "ctl" and order and node.kind == "def" and "def" in dirs and node.dirs.get("def"):
            continue
        after = [T("|")]
        if call:
            outer = order[:order.index("def")]
            if not outer or rnd.random() < .3:
                after += [I(call), T("|"), I(call)]
        nodes = [El("r", [], {}, [T("<")] + [node] + after + [T(">")])]
        # calling a definition that is not visible there is an error in both
        render.check(t, nodes, ctx, rnd, trace=trace, strict_exc=True, what="directives on one element")


def constant_conditions(t, rnd):
    """if and strip with constant conditions agree with the same conditions computed"""
    from tonnikala.loader import Loader
    vals = CONST_CONDS + ["-0", "+1", "1 + 0", "0 or ''", "'' or 'x'", "[0]", "{0}", "set()", "(0,)", "not []", "not not ''", "1 if 0 else 0", "0 == 0", "1 > 2", "...", "'a' 'b'", "'' ''", "b'x'", "1j", "0j", "not None", "not 'a'", "not (1, 2)", "not {}", "{1: 2}", "~0", "- - 1", "not -0", "1 - 1", "f''", "f'x'", "None or 0", "not not not 1", "1 and 0", "lambda: 0", "len([])", "int()", "1_000", "0x0", "''.join([])", "(0)", "(((1)))", "[[]]", "not [[]]", "{**{}}", "[*[]]", "(*[],)", "not 0.0", "'False'", "'0'", "False == 0"]
    for v in vals:
        b = bool(eval(v))
        q = v.replace('"', "&quot;").replace("&", "&amp;").replace("<", "&lt;")
        cases = [("<r>a<py:if test=\"%s\">b</py:if>c</r>", "<r>abc</r>", "<r>ac</r>"), ("<r>a<p py:if=\"%s\">b</p>c</r>", "<r>a<p>b</p>c</r>", "<r>ac</r>"), ("<r>a<p py:strip=\"%s\">b</p>c</r>", "<r>abc</r>", "<r>a<p>b</p>c</r>"), ("<r>a<p py:strip=\"%s\" x=\"1\" y=\"$z\">b</p>c</r>", "<r>abc</r>", "<r>a<p x=\"1\" y=\"Z\">b</p>c</r>"), ("<r><py:if test=\"%s\"></py:if></r>", "<r></r>", "<r></r>"), ("<r><p py:strip=\"%s\"/></r>", "<r></r>", "<r><p></p></r>"), ("<r><py:if test=\"%s\"><py:def function=\"f\">d</py:def></py:if>${f() if f else 0}</r>", "<r>d</r>", None), ("<r><py:if test=\"%s\"><py:if test=\"%s\">x</py:if></py:if>y</r>", "<r>xy</r>", "<r>y</r>"), ("<r><p py:if=\"%s\" py:strip=\"%s\">q</p>y</r>", "<r>qy</r>", "<r>y</r>"),
                 ("<r><py:def function=\"f\">a<py:if test=\"%s\">b</py:if></py:def>${f()}</r>", "<r>ab</r>", "<r>a</r>"), ("<r><py:for each=\"i in [1,2]\">a<py:if test=\"%s\">b</py:if></py:for></r>", "<r>abab</r>", "<r>aa</r>"), ("<r><br py:strip=\"%s\"/></r>", "<r></r>", "<r><br /></r>")]
        for tpl, yes, no in cases:
            e = yes if b else no
            if e is None:
                continue
            source = tpl.replace("%s", q)
            t.arm(source)
            got = attempt(lambda: Loader().load_string(source).render(dict(z="Z")))
            if got != ("ok", e):
                raise Failure("constant condition", source, e, got[1])
            t.add(source)
    # conditions of constants that fail to evaluate do so when the template is rendered, and only then
    for v, exc in [("{[]: 1}", TypeError), ("{{}}", TypeError), ("{[], 1}", TypeError), ("1 / 0", ZeroDivisionError), ("[][0]", IndexError), ("1 + 'a'", TypeError), ("-'a'", TypeError), ("{}['k']", KeyError), ("{{}: 1} and 0", TypeError), ("not {[]}", TypeError)]:
        for tpl in ("<r>a<py:if test=\"%s\">b</py:if>c</r>", "<r>a<p py:if=\"%s\">b</p>c</r>", "<r>a<p py:strip=\"%s\">b</p>c</r>", "<r><py:def function=\"f\">a<py:if test=\"%s\">b</py:if></py:def>${f()}</r>"):
            source = tpl.replace("%s", v)
            t.arm(source)
            tp = attempt(lambda: Loader().load_string(source))
            got = tp if tp[0] == "exc" else attempt(lambda: tp[1].render({}))
            if tp[0] == "exc" or got[0] == "ok" or type(got[1]) is not exc:
                raise Failure("a constant condition that fails", source, exc.__name__, repr(got[1]))
            source = "<r>$z<py:if test=\"0\">%s</py:if></r>" % source
            got = attempt(lambda: Loader().load_string(source).render({"z": 1}))
            if got != ("ok", "<r>1</r>"):
                raise Failure("a constant condition that fails, never evaluated", source, "<r>1</r>", repr(got[1]))
            t.add(source)
    gm = __import__("tonnikala.languages.python.generator", fromlist=["x"])
    try:
        f = internal("tonnikala.languages.python.generator", "static_expr_to_bool", ["expr"])
    except common.Skip:
        return
    import ast
    for v in vals + ["a", "a.b", "f()", "not a", "a or 1", "[a]", "(a,)", "not [a]"]:
        r = f(ast.parse(v, mode="eval").body)
        if r is not None and r is not bool(eval(v, {"a": None, "f": None}) if "a" not in v or v in vals else not r):
            raise Failure("static_expr_to_bool", v, "None or the value", r)
        t.add(("static", v))


def empties(t, rnd):
    """empty content in every directive, with and without text around it"""
    kinds = [("if", "yes"), ("if", "no"), ("if", "1"), ("if", "0"), ("for", "q1 in l"), ("for", "q1 in l0"), ("def", "fe()"), ("with", "w1 = a"), ("vars", "w1 = a"), ("block", "be"), ("if", "a == b")]
    for k1, a1 in kinds:
        for body in ([], [T("")], [Cm("!x")], [Ctl("if", "0", [T("q")])], [Ctl("def", "g1()", [T("g")])], [Ctl("if", "yes", [])], [Ctl("for", "q2 in l", [])], [Ctl("with", "z = 1", [])], [T(" ")]):
            for around in (True, False):
                kids = ([T("a")] if around else []) + [Ctl(k1, a1, body)] + ([T("z")] if around else []) + ([I("fe()")] if k1 == "def" else [])
                render.check(t, [El("r", [], {}, kids)], ctx, rnd, what="empty content")
                kids = ([T("a")] if around else []) + [El("p", [], {k1: a1}, body)] + ([T("z")] if around else []) + ([I("fe()")] if k1 == "def" else [])
                render.check(t, [El("r", [], {}, kids)], ctx, rnd, what="empty content")
                for k2, a2 in kinds:
                    if k2 == k1 and k1 in ("def", "block"):
                        continue
                    a2 = a2.replace("q1", "q9").replace("w1", "w9")
                    kids = [Ctl(k1, a1, [Ctl(k2, a2, body)]), T("z")] + ([I("fe()")] if k1 == "def" else [])
                    render.check(t, [El("r", [], {}, kids)], ctx, rnd, what="empty content")


EX = ["L('x%d', a)" % i for i in range(6)] + ["a", "b", "n", "L('y')", "L('lit', mk)", "literal(L('raw', a))", "f(L('z', b))"]
rand = render.random_part(exprs=EX, dexprs=["a", "b", "f(a)", "L('d', a)"], conds=["L('p', 1)", "L('q', 0)", "L('r', e)", "L('s', l)"] + CONST_CONDS + ["n", "yes"], fors=["i%d in L('F', l)", "i%d in L('G', l0)", "i%d, j%d in L('H', d.items())", "i%d in range(2)"], ctx=None, what="directives")


def random_traced(t, rnd):
    n = 0
    while not t.over():
        n += 1
        g = gen.Gen(rnd, budget=rnd.choice((6, 12, 25, 40)), features={"text", "interp", "elem", "attr", "if", "for", "def", "with", "vars", "block", "content", "replace", "attrs", "comment"}, exprs=EX, dexprs=["a", "b", "f(a)", "L('d', a)"],
                    conds=["L('p', 1)", "L('q', 0)", "L('r', e)", "L('s', l)"] + CONST_CONDS + ["n", "yes"], fors=["i%d in L('F', l)", "i%d in L('G', l0)", "i%d, j%d in L('H', d.items())", "i%d in range(2)"])
        nodes = g.template()
        render.check(t, nodes, ctx, rnd, trace=trace, what="directives")


PARTS = [("directives on one element", elements, 4), ("constant conditions", constant_conditions, 1), ("empty content", empties, 1), ("many directives", render.big_part(labels=("conditions", "condition", "loop", "content", "strip", "computed")), 2), ("random templates", render.random_part(what="directives"), 3), ("random templates with evaluation trace", random_traced, 3)]
