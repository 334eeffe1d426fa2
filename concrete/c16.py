"""C16: the JavaScript runtime."""
import random
from . import common, tree, gen
from .common import Failure
from .node import Node

SP = ["&", "<", ">", '"', "'", "&amp;", "<b>x</b>", "it's", "", "a", "\u2028", "\xe4", "\U0001f600", "$&", "$1", "\n", "0", "null", "`", "\\", "&&<<>>''\"\"", "toString", "__proto__"]


# reference: text of tagged values
def esc(s):
    return tree.esc_raw(s)


def num(n):
    return str(n)


def raw(v):
    """String(v) for what is written unescaped"""
    k = v[0]
    if k in "smS":
        return v[1]
    if k == "w":
        return v[2]
    if k == "n":
        return num(v[1])
    if k == "b":
        return "true" if v[1] else "false"
    if k == "0":
        return "null"
    if k == "u":
        return "undefined"
    if k == "B" or k == "t":
        return build(v[1])
    if k == "e":
        return escaped(v[1])
    if k == "A":
        return attrs(v[1])
    raise AssertionError(v)


def escaped(v):
    if v[0] in "mBet":
        return raw(v)
    if v[0] == "A":
        # an empty list of attributes is the empty string
        return raw(v)
    if v[0] == "h":
        return v[1]
    return esc(raw(v))


def attr(name, v):
    if v[0] in "0u" or v[0] == "b" and not v[1]:
        return ""
    if v[0] == "b":
        return ' %s="%s"' % (name, name)
    return ' %s="%s"' % (name, escaped(v))


def attrs(v):
    if v[0] != "l":
        return ""
    return "".join(attr(p[1][0][1], p[1][1]) for p in v[1])


def build(ops):
    out = ""
    for op in ops:
        if op[0] == "out":
            out += "".join(map(raw, op[1]))
        elif op[0] == "esc":
            out += "".join(map(escaped, op[1]))
        elif op[0] == "attr":
            out += attr(op[1], op[2])
        elif op[0] == "self":
            out += out
    return out


def rtext(r):
    return "".join(r.choice(SP) for _ in range(r.randint(0, 3)))


def scalar(r, depth=0):
    k = r.choice("sssnmbe0uhtSw" if depth else "sssnmbe0uhSw")
    if k == "w":
        return [k, r.randrange(5), rtext(r)]
    if k in "smS":
        return [k, rtext(r)]
    if k == "n":
        return [k, r.choice([0, 1, -3, 17, 2.5, 123456789])]
    if k == "b":
        return [k, r.random() < .5]
    if k in "0u":
        return [k]
    if k == "h":
        return [k, rtext(r)]
    if k == "t":
        return [k, ops(r, depth - 1)]
    return ["e", r.choice([["s", rtext(r)], ["m", rtext(r)], ["n", 3]])]


def value(r, depth, escd):
    k = r.random()
    if depth and k < .3:
        return ["B", ops(r, depth - 1)]
    if depth and k < .4:
        return ["A", pairs(r, depth - 1)]
    v = scalar(r, depth)
    if not escd and v[0] == "h":
        v = ["e", v]
    return v


def pairs(r, depth):
    if r.random() < .2:
        return r.choice([["0"], ["u"], ["l", []]])
    return ["l", [["l", [["s", r.choice(["id", "class", "x:y", "data-a", "checked"])], value(r, depth, True)]] for _ in range(r.randint(1, 5))]]


def ops(r, depth, n=None):
    out = []
    for _ in range(n if n is not None else r.randint(0, 5)):
        k = r.random()
        if k < .35:
            out.append(["out", [value(r, depth, False) for _ in range(r.randint(0, 4))]])
        elif k < .7:
            out.append(["esc", [value(r, depth, True) for _ in range(r.randint(0, 4))]])
        elif k < .93:
            out.append(["attr", r.choice(["id", "checked", "a:b"]), value(r, depth, True)])
        elif k < .96:
            out.append(["read"])
        else:
            out.append(["self"])
    return out


def expect(node, q, exp, what):
    got = node.ask(q)
    if got != {"ok": exp}:
        raise Failure(what, q, exp, got.get("ok", got))


def start(t):
    n = Node()
    if n.loaded != {"ok": True}:
        raise Failure("the JavaScript runtime does not load", "tonnikala/runtime/javascript.js", True, n.loaded)
    return n


def single(t, rnd):
    """every value through every way of writing it"""
    with start(t) as n:
        vals = [["s", s] for s in SP] + [["n", 0], ["n", 5], ["n", -1], ["n", 1.5], ["b", True], ["b", False], ["0"], ["u"], ["m", "<&>"], ["m", ""], ["S", "<o>"], *[["w", i, "<o>"] for i in range(7)], ["h", "<i>"], ["h", ""]]
        vals += [["e", v] for v in vals[:8]] + [["B", []], ["B", [["out", [["s", "<"]]]]], ["B", [["esc", [["s", "<"]]]]], ["t", [["esc", [["s", "<"]]]]], ["t", []], ["A", ["l", []]], ["A", ["0"]], ["A", ["l", [["l", [["s", "k"], ["s", "<"]]]]]]]
        for v in vals:
            t.arm(v)
            expect(n, dict(op="build", ops=[["esc", [v]]]), escaped(v), "an escaped value")
            expect(n, dict(op="build", ops=[["out", [["e", v]]]]), escaped(v), "an escaped value")
            if v[0] not in "ht" and not (v[0] == "e" and v[1][0] in "ht"):
                expect(n, dict(op="build", ops=[["out", [["e", ["e", v]]]]]), escaped(v), "a value escaped before")
            if v[0] != "h":
                expect(n, dict(op="build", ops=[["out", [v]]]), raw(v), "a value written as it is")
                expect(n, dict(op="build", ops=[["out", [["s", "x"], v, ["s", "y"]]]]), "x" + raw(v) + "y", "a value between others")
            expect(n, dict(op="build", ops=[["attr", "nm", v]]), attr("nm", v), "a boolean attribute")
            expect(n, dict(op="str", value=["A", ["l", [["l", [["s", "nm"], v]]]]]), attr("nm", v), "an attribute list")
            expect(n, dict(op="str", value=["A", ["l", [["l", [["s", "a"], ["n", 1]]], ["l", [["s", "nm"], v]], ["l", [["s", "z"], ["0"]]], ["l", [["s", "y"], ["b", True]]]]]]), ' a="1"' + attr("nm", v) + ' y="y"', "an attribute list")
            t.add(str(v), sample=str(v))
        for c in range(0x20, 0x400):
            expect(n, dict(op="build", ops=[["esc", [["s", "a%sb" % chr(c)]]]]), esc("a%sb" % chr(c)), "an escaped character")
            t.add(c)


def sequences(t, rnd):
    with start(t) as n:
        while not t.over():
            o = ops(rnd, rnd.randint(0, 3), rnd.randint(1, 8))
            t.arm(o)
            try:
                e = build(o)
            except RecursionError:
                continue
            if len(e) > 100000:
                continue
            expect(n, dict(op="build", ops=o), e, "a sequence of writes")
            t.add(str(o), len(o) > 1, str(o) if len(str(o)) < 300 else None)


def shared(t, rnd):
    """buffers written into each other while all of them are still written to"""
    with start(t) as n:
        while not t.over():
            nb = rnd.randint(2, 4)
            texts = [""] * nb
            vals = [scalar(rnd) for _ in range(3)]
            vals = [v if v[0] != "h" else ["s", "h"] for v in vals]
            steps = []
            for _ in range(rnd.randint(2, 12)):
                b = rnd.randrange(nb)
                k = rnd.random()
                if k < .8:
                    esc_ = rnd.random() < .5
                    args = []
                    txt = texts[b]
                    cur = list(texts)
                    for _ in range(rnd.randint(0, 4)):
                        x = rnd.random()
                        if x < .45:
                            j = rnd.randrange(nb)
                            if j == b:
                                continue
                            args.append(["#", j])
                            txt += cur[j]
                        elif x < .7:
                            j = rnd.randrange(3)
                            args.append(["%", j])
                            txt += escaped(vals[j]) if esc_ else raw(vals[j])
                        else:
                            v = ["s", rtext(rnd)]
                            args.append(v)
                            txt += escaped(v) if esc_ else raw(v)
                    steps.append([b, "esc" if esc_ else "out", args])
                    texts[b] = txt
                else:
                    j = rnd.randrange(nb)
                    if j == b:
                        continue
                    steps.append([b, "attr", "q", ["#", j]])
                    texts[b] += ' q="%s"' % texts[j]
                if sum(map(len, texts)) > 50000:
                    break
            q = dict(op="buffers", names=list(range(nb)), vals=vals, ops=steps)
            t.arm(q)
            expect(n, q, texts, "buffers written into each other")
            t.add(str(q), sample=str(steps) if len(str(steps)) < 300 else None)


def binding(t, rnd):
    names = ["a", "b", "Math", "undefinedName", "toString", "constructor", "valueOf", "hasOwnProperty", "__main__", "zz", "parseInt"]
    vs = [["s", ""], ["s", "x"], ["n", 0], ["n", 3], ["b", False], ["b", True], ["0"]]
    plain = lambda v: None if v[0] == "0" else v[1]
    with start(t) as n:
        while not t.over() and t.evaluations < 4000:
            gl = {k: rnd.choice(vs) for k in rnd.sample(["a", "b", "zz"], rnd.randint(0, 3))}
            ctx, steps, out = {}, [], []
            for _ in range(rnd.randint(1, 10)):
                k = rnd.choice(names)
                if rnd.random() < .5:
                    v = rnd.choice(vs)
                    steps.append(["add", k, v])
                    ctx.setdefault(k, plain(v))
                elif k in ctx or k in gl or k in ("a", "b", "zz", "undefinedName", "__main__"):
                    steps.append(["get", k])
                    out.append(ctx[k] if k in ctx else plain(gl[k]) if k in gl else "#undefined")
            q = dict(op="bind", globals=gl, steps=steps, bare=rnd.random() < .3)
            t.arm(q)
            expect(n, q, [out, ctx], "names of the template context")
            t.add(str(q), sample=str(q) if len(str(q)) < 300 else None)
        for l in ([], [1], [1, 2, 3], list(range(50)), [None, False, 0, ""], [1, None, "u!", 2, "u!"]):
            expect(n, dict(op="foreach", list=l), l, "iteration over a list")
        for k in (1, 1000, 300000):
            expect(n, dict(op="many", n=k), [k, k, k + 7, 6 * k], "a buffer of very many pieces, and one that holds it")


def against_python(t, rnd):
    """the same writes to the Python buffers"""
    from markupsafe import Markup, escape
    import tonnikala.runtime.python as rp

    def pv(v, B):
        k = v[0]
        if k in "sn":
            return v[1]
        if k == "b":
            return bool(v[1])
        if k in "0u":
            return None
        if k == "m":
            return Markup(v[1])
        if k == "B":
            return pb(v[1], B)
        if k == "e":
            return escape(pv(v[1], B))
        if k == "A":
            return rp.output_attrs(pv(v[1], B)) if v[1][0] == "l" else ""
        if k == "l":
            return [pv(x, B) for x in v[1]]
        raise AssertionError(v)

    def pb(o, B):
        b = B()
        for op in o:
            if op[0] == "out":
                b(*[pv(v, B) for v in op[1]])
            elif op[0] == "esc":
                b(*[escape(pv(v, B)) for v in op[1]])
            elif op[0] == "attr":
                b.output_boolean_attr(op[1], pv(op[2], B))
        return b

    def ok(v, text=True):
        k = v[0]
        if k == "B":
            return all(okop(o) for o in v[1])
        if k == "A":
            return v[1][0] != "l" or all(ok(p[1][1], False) for p in v[1][1])
        if k == "e":
            return ok(v[1])
        if text and k in "b0u":
            return False
        return k in "snmb0u" and not (k == "n" and v[1] == 1.0)

    def okop(o):
        return o[0] in ("out", "esc") and all(ok(v) for v in o[1]) or o[0] == "attr" and ok(o[2], False)
    with start(t) as n:
        while not t.over():
            o = [x for x in ops(rnd, rnd.randint(0, 2), rnd.randint(1, 6)) if okop(x)]
            if not o:
                continue
            t.arm(o)
            for bn, b in common.buffers().items():
                with common.use_buffer(b):
                    e = pb(o, b).join()
                expect(n, dict(op="build", ops=o), e, "the same writes in Python (%s buffer)" % bn)
            t.add(str(o), sample=str(o) if len(str(o)) < 300 else None)


PARTS = [("single", single, 1), ("sequences", sequences, 2), ("shared buffers", shared, 2), ("binding", binding, 1), ("as Python", against_python, 2)]
