"""Comparison of the real rendering of a template tree with the reference."""
import random
from . import common, tree, gen
from .common import Failure, attempt
from .tree import *


def ref_outcome(nodes, ctx, tr=None):
    try:
        return "ok", tree.reference(nodes, ctx, tr)
    except RecursionError:
        return "skip", None
    except Exception as e:
        return "exc", e


def check(t, nodes, ctxf, rnd=None, tr=None, buffers=None, what="rendered output", strict_exc=False, trace=None, norm=None):
    """ctxf() gives a fresh context. Raises Failure when the real rendering differs."""
    source = src(nodes, rnd)
    t.arm(source)
    c = ctxf()
    exp = ref_outcome(nodes, c, tr)
    rtrace = list(trace()) if trace else None
    if exp[0] == "skip":
        return
    bs = buffers or list(common.buffers().items())
    if len(bs) > 1 and rnd is not None and rnd.random() < .7:
        bs = [bs[-1]]
    for bn, b in bs:
        c = ctxf()
        if tr is not None:
            c["gettext"] = tr
        with common.use_buffer(b):
            got = attempt(lambda: tree.real(source, c, translatable=tr is not None))
        inp = dict(template=source, buffer=bn, context=sorted(k for k in c if not k.startswith("_"))[:60])
        if exp[0] == "ok":
            if got[0] == "exc":
                raise Failure(what + ": the template is not rendered", inp, exp[1], repr(got[1]))
            if got[1] != exp[1] and (norm is None or type(got[1]) is not str or norm(got[1]) != norm(exp[1])):
                raise Failure(what, inp, exp[1], got[1])
            if type(got[1]) is not str:
                raise Failure(what + ": result is not a string", inp, "str", type(got[1]))
        elif strict_exc and got[0] == "ok":
            raise Failure(what + ": an error is expected", inp, repr(exp[1]), got[1])
        if trace:
            g = list(trace())
            if exp[0] == "ok" and g != rtrace:
                raise Failure(what + ": sequence of evaluated expressions", inp, rtrace, g)
    t.add(source, nontrivial=exp[0] == "ok" and len(exp[1]) > 12, sample=source if rnd is None or rnd.random() < .02 else None)


def random_part(features=None, tr=False, exprs=None, dexprs=None, conds=None, fors=None, textf=None, ctx=None, budgets=(4, 8, 14, 25, 45), cap=None, what="rendered output"):
    """A part rendering random template trees until the time is over."""
    def part(t, rnd):
        n = 0
        while not t.over() and (cap is None or n < cap * (20 if t.tier == "thorough" else 1)):
            n += 1
            g = gen.Gen(rnd, budget=rnd.choice(budgets), features=features, exprs=exprs, dexprs=dexprs, conds=conds, fors=fors, textf=textf)
            nodes = g.template()
            trf = (lambda x: "T<" + x + ">") if tr else None
            check(t, nodes, ctx or gen.mk_ctx, rnd, trf, what=what)
    return part


def big(n, js=False):
    """templates with n of everything, one kind at a time"""
    vs = ["a", "b", "m", "s", "n", "e"]
    v = lambda i: vs[i % len(vs)]
    u = lambda i: "%04d" % i
    mixed = []
    for i in range(n):
        mixed += [T("<%s\"" % u(i)), I(v(i))]
    yield "attribute of many parts", [El("p", [("class", mixed), ("id", [I("a")])], {}, [T("x")])]
    yield "attribute of many expressions", [El("p", [("class", [I(v(i)) for i in range(n)] + [T("z")])], {}, [I("a")])]
    yield "many attributes", [El("p", [("a" + u(i), [[I(v(i))], [T("c" + u(i))], [T("<"), I(v(i))], [I("yes")], [I("no")]][i % 5]) for i in range(n)], {}, [T("x")])]
    yield "many interpolations", [El("p", [], {}, [I(v(i)) for i in range(n)])]
    yield "many texts and interpolations", [El("p", [], {}, mixed)]
    yield "many elements", [El("ul", [], {}, [El("li", [("id", [T("i" + u(i)), I(v(i))])], {}, [T("<" + u(i)), I(v(i + 1))]) for i in range(n)])]
    yield "many conditions", [El("ul", [], {}, [El("li", [], {"if": ["yes", "no", "n", "a"][i % 4]}, [T("<" + u(i)), I(v(i))]) for i in range(n)])]
    yield "many condition elements", [El("ul", [], {}, [Ctl("if", ["yes", "no", "n", "a"][i % 4], [T("<" + u(i)), I(v(i))]) for i in range(n)])]
    yield "many loops", [El("ul", [], {}, [El("li", [], {"for": "i1 in l3"}, [I("i1"), I(v(i))]) for i in range(n)])]
    yield "many content directives", [El("ul", [], {}, [El("li", [("id", [T(u(i))])], {["content", "replace"][i % 2]: v(i)}, [T("gone" + u(i))]) for i in range(n)])]
    yield "many strips", [El("ul", [], {}, [El("li", [("id", [I(v(i))])], {"strip": ["yes", "no", ""][i % 3]}, [T(u(i))]) for i in range(n)])]
    yield "many definitions", [El("ul", [], {}, [Ctl("def", "f%d(p)" % i, [T("<" + u(i)), I("p"), I(v(i))]) for i in range(n)] + [I("f%d(%s)" % (i, v(i))) for i in range(n)])]
    yield "many blocks", [El("ul", [], {}, [Ctl("block", "blk%d" % i, [T("<" + u(i)), I(v(i))]) for i in range(n)])]
    yield "many assignments", [El("ul", [], {}, [Ctl("with", "w%d = %s" % (i, v(i)), [I("w%d" % i), I("a")]) for i in range(n)])]
    yield "many assignments in one element", [El("ul", [], {}, [Ctl("with", "; ".join("w%d = %s" % (i, v(i)) for i in range(n)), [I("w%d" % i) for i in range(n)])])]
    yield "many parameters", [El("ul", [], {}, [Ctl("def", "f(%s)" % ", ".join("p%d" % i for i in range(min(n, 120)))
, [I("p%d" % i) for i in range(min(n, 120))]), I("f(%s)" % ", ".join(v(i) for i in range(min(n, 120))))])]
    yield "many comments", [El("ul", [], {}, [x for i in range(n) for x in (T("t" + u(i)), Cm("!" * (i % 2) + "c" + u(i)))])]
    yield "many computed attributes", [El("ul", [], {"attrs": "[%s]" % ", ".join("['k%s', %s]" % (u(i), v(i)) for i in range(n))}, [T("x")])]
    yield "a long text", [El("p", [], {}, [T("".join("%s<&\n\n  \"" % u(i) for i in range(n)))])]
    yield "a long loop", [El("p", [], {}, [Ctl("for", "i1 in [%s]" % ", ".join(str(i) for i in range(n)), [T("<"), I("i1"), I("a")])])]
    d = min(n, 40)
    k = [I("a"), T("<")]
    for i in range(d):
        k = [T("a" + u(i)), El("p%d" % i, [("id", [T(u(i)), I(v(i))])], {}, k), T("z" + u(i))]
    yield "deep elements", k[1:2]
    k = [I("a"), T("<")]
    for i in range(min(n, 15)):
        k = [T("a" + u(i)), Ctl("if", ["yes", "a", "m"][i % 3], k), T("z" + u(i))]
    yield "deep conditions", [El("p", [], {}, k)]
    k = [I("a"), T("<")]
    for i in range(d):
        k = [T("a" + u(i)), El("p", [("id", [I(v(i))])], {"strip": ["yes", "no"][i % 2]}, k), T("z" + u(i))]
    yield "deep stripped elements", [El("p", [], {}, k)] if n < 15 else [El("p", [], {}, [T("x")])]
    k = [I("a"), T("<")]
    for i in range(min(n, 12)):
        k = [I("a"), Ctl("with", "w%d = %s" % (i, v(i)), k), T("z" + u(i))]
    yield "deep assignments", [El("p", [], {}, k)]
    k = [I("a"), T("<")]
    for i in range(min(n, 12)):
        k = [I("a"), Ctl("block", "blk%d" % i, k), T("z" + u(i))]
    yield "deep blocks", [El("p", [], {}, k)]


def big_part(tr=False, labels=None, ctx=None, what="many of everything"):
    def part(t, rnd):
        for n in (3, 11, 45, 150, 330) + ((1100,) if t.tier == "thorough" else ()):
            for label, nodes in big(n):
                if labels is None or any(x in label for x in labels):
                    check(t, nodes, ctx or gen.mk_ctx, rnd, (lambda x: "T<" + x + ">") if tr else None, what="%s: %s (%d)" % (what, label, n))
                if t.over():
                    return
    return part
