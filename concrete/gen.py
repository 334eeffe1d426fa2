"""Generators of template trees (deterministic from the seed)."""
from .tree import *

SPECIALS = ["&", "<", ">", '"', "'", "$", "&amp;", "<b>", "a & b", "it's", 'say "hi"', "\xe4", "\u20ac", "\u2028", "\U0001f600", "\n", "  ", " x ", "{", "}", "{x}", "%s", "%", "\\", "\\n", "-->", "\t", "0", "None", "]]>", "{{", "&#34;", "\xa0", "a\nb", "#", "`"]


class Html:
    def __init__(self, s):
        self.s = s

    def __html__(self):
        return self.s

    def __str__(self):
        return "STR<" + self.s

    def __repr__(self):
        return "Html(%r)" % self.s


class Plain:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __repr__(self):
        return "Plain(%r)" % self.s


class StrSub(str):
    pass


class Obj:
    pass


def _operators():
    class Op:
        def __hash__(self):
            return 1

        def __bool__(self):
            return True
    names = "lt le gt ge eq ne add sub mul matmul truediv floordiv mod pow lshift rshift and xor or radd rsub rmul neg pos invert getitem call getattr".split()
    for n in names:
        setattr(Op, "__%s__" % n, (lambda n: lambda self, *a: "<%s&%s>" % (n, ",".join(map(repr, a))))(n))

    def ga(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        return "<attr&%s>" % k
    Op.__getattr__ = ga
    Op.__str__ = lambda self: "op<&>"
    return Op


# every operator gives a string that needs escaping
Operators = _operators()
CM_EXPRS = ["cm < 1", "cm <= 1", "cm > 1", "cm == 1", "cm != a", "1 < cm", "cm < 1 < 2", "cm + 1", "1 + cm", "cm - 1", "cm * 2", "cm @ 2", "cm / 2", "cm // 2", "cm % 2", "cm ** 2", "cm << 1", "cm >> 1", "cm & 1", "cm | 1", "cm ^ 1", "-cm", "+cm", "~cm", "not cm", "cm and a", "no or cm", "cm[1]", "cm[1:2]", "cm['k', 2]", "cm(1)", "cm.zz",
            "cm.literal", "cm.literal(a)", "o.literal(a)", "{a}", "{a: h}", "[a]", "(a,)", "a if cm else b", "cm in [1, cm]", "a is b", "f'{a}'", "f'{n}'", "f'<{m}>'", "lambda: a", "(lambda: a)()", "...", "b'<'", "1j", "None", "True", "'<'", "'<' '>'", "1.5", "-1", "list(c for c in s)", "{c for c in 'a'}", "[*l]", "{**d}", "f(*l[1:2])", "max(s, key=lambda z: 0)", "f(x=s)"]


def mk_ctx(rnd=None, markup=True):
    from markupsafe import Markup
    o = Obj()
    o.p = "o<p>"
    o.q = Obj()
    o.q.r = ["r0", "r&1", {"k": "r'k"}]
    o.literal = lambda z: "ol<" + str(z)
    o.f = lambda *a, **k: "f%r%r" % (a, sorted(k.items()))
    c = dict(a="A&<>\"'", b="plain", n=0, m=17, e="", no=None, yes=True, nay=False, fl=1.5, l=["x", "<y>", "&"], l0=[], l3=[1, 2, 3],
             d={"k": "v<", "j": 5}, t=("t1", "t2"), o=o, pl=Plain("p<&>"), ss=StrSub("s<"), by=b"b<",
             prs=[("x", 1), ("y", "2\"")], cm=Operators(), f=lambda x="df": "F(%s)" % x, s="q\"'")
    if markup:
        c.update(h=Html("<i>&amp;</i>"), mk=Markup("<u>\"</u>"))
    return c


TEXT_EXPRS = ["a", "b", "n", "m", "e", "no", "yes", "nay", "fl", "l", "d", "pl", "ss", "by", "h", "mk", "s", "o.p", "o.q.r[1]", "o.q.r[2]['k']",
              "a + b", "l[1]", "d['k']", "f(a)", "f('}')", "{1: a}[1]", "{'x': {'y': a}}['x']['y']", "literal(a)", "literal('<b>')", "len(l)", "[x for x in l]",
              "(lambda z: z + a)(b)", "a if n else s", "'%s' % a", "\"it's\"", "str(mk)", "a.lower()", "f'{a}{b}'", "not n", "m > 3 and a", "sorted(d)", "a[0:2]",
              "''.join(c for c in a)", "{k: v for k, v in d.items()}", "max(l3)", "(a, b)", "\"}\" + '{'", "o.f(a, k=b)", "literal(a) + b", "literal(h)", "f(literal(a))"]
DOLLAR_EXPRS = ["a", "b", "n", "o.p", "o.q.r[1]", "o.q.r[2]['k']", "f(a)", "f('}')", "l[1]", "d['k']", "f((a))", "o.f(a, k=b)", "h", "mk", "a.lower()", "literal(a)", "f(a)[0]", "o.f([1, 2], {'a': 3})", "yes", "no"]
CONDS = ["n", "m", "no", "yes", "nay", "e", "a", "l", "l0", "m > 3", "not n", "n or a", "a == 'zz'", "len(l) == 3"] + CONST_CONDS
FORS = ["i%d in l", "i%d in l3", "i%d in l0", "i%d in range(2)", "i%d, j%d in d.items()", "i%d in [a, b]", "i%d in sorted(d)", "(i%d, j%d) in prs", "i%d in 'ab'"]
TAGS = ["p", "div", "span", "b", "a", "ul", "li", "title", "textarea", "h1", "x:img", "svg:br", "my-tag", "h-1", "colgroup", "image", "brr", "a.b"]
ATTRN = ["class", "id", "data-x", "href", "title", "alt", "checked", "value", "style", "x:y", "placeholder"]


def text(rnd, kmax=4):
    if rnd.random() < .12:
        return "".join(rnd.choice(["\n", "\n\n", " ", "\t", "\n  "]) for _ in range(rnd.randint(1, 3)))
    return "".join(rnd.choice(SPECIALS + ["foo", "bar baz", "x", " "]) for _ in range(rnd.randint(1, kmax)))


class Gen:
    def __init__(self, rnd, budget=14, features=None, exprs=None, dexprs=None, conds=None, fors=None, textf=None, translate=False):
        self.r = rnd
        self.left = budget
        self.uid = 0
        self.f = features or {"text", "interp", "elem", "attr", "if", "for", "def", "with", "vars", "block", "content", "replace", "strip", "attrs", "comment", "script", "void"}
        self.exprs = exprs or TEXT_EXPRS
        self.dexprs = dexprs or DOLLAR_EXPRS
        self.conds = conds or CONDS
        self.fors = fors or FORS
        self.textf = textf or text
        self.in_fn = 0

    def name(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def expr(self, scope):
        if scope and self.r.random() < .35:
            return self.r.choice(scope)
        return self.r.choice(self.exprs)

    def interp(self, scope):
        if self.r.random() < .4:
            return I(self.r.choice(self.dexprs + [s for s in scope if s.isidentifier()]), False)
        return I(self.expr(scope))

    def norm(self, nodes):
        out = []
        for n in nodes:
            if isinstance(n, T) and out and isinstance(out[-1], T):
                out[-1] = T(out[-1].s + n.s)
            elif isinstance(n, T) and not n.s:
                continue
            else:
                out.append(n)
        return out

    def attrs(self, scope):
        out = []
        names = self.r.sample(ATTRN, self.r.randint(0, 3))
        for n in names:
            k = self.r.random()
            if k < .1:
                out.append((n, None))
            elif k < .4:
                s = self.textf(self.r)
                out.append((n, [T(s)]))
            elif k < .7:
                out.append((n, [self.interp(scope)]))
            elif k < .75:
                out.append((n, []))
            else:
                parts = [self.interp(scope) if self.r.random() < .5 else T(self.textf(self.r)) for _ in range(self.r.randint(2, 4))]
                parts = self.norm(parts)
                out.append((n, parts))
        return out

    def dirs(self, scope, kinds, p):
        d = {}
        sc = list(scope)
        for k in ("block", "if", "for", "def", "with", "vars"):
            if k not in self.f or k not in kinds or self.r.random() > p:
                continue
            v, sc, pre = self.arg(k, sc)
            d[k] = v
        return d, sc

    def arg(self, k, sc):
        if k == "if":
            return self.r.choice(self.conds + [s for s in sc if s.isidentifier()]), sc, None
        if k == "for":
            self.uid += 1
            f = self.r.choice(self.fors)
            v = f.replace("%d", str(self.uid))
            new = ["i%d" % self.uid] + (["j%d" % self.uid] if "j%d" in f else [])
            return v, sc + new, None
        if k == "def":
            nm = self.name("fn")
            sig = self.r.choice(["", "()", "(p)", "(p, q=a)", "(*p)", "(p=1, **q)"])
            ps = [x for x in ("p", "q") if x in sig]
            self.last_def = (nm, sig)
            return nm + sig, sc + ps, nm
        if k in ("with", "vars"):
            w = self.name("w")
            e = self.r.choice(["a", "m + 1", "l[0]", "f(b)", "[a, b]"] + [s for s in sc if s.isidentifier()])
            if self.r.random() < .3:
                w2 = self.name("w")
                return "%s = %s; %s = %s" % (w, e, w2, w), sc + [w, w2], None
            return "%s = %s" % (w, e), sc + [w], None
        if k == "block":
            return self.name("blk"), [], None
        raise AssertionError(k)

    def call(self, nm, sig):
        return nm + {"": "()", "()": "()", "(p)": "(b)", "(p, q=a)": "(m)", "(*p)": "(1, a)", "(p=1, **q)": "(z=3)"}[sig]

    def nodes(self, scope, depth, cdata=False):
        out = []
        for _ in range(self.r.randint(0 if depth else 1, 4)):
            if self.left <= 0:
                break
            self.left -= 1
            out.extend(self.node(scope, depth, cdata))
        return self.norm(out)

    def node(self, scope, depth, cdata):
        r = self.r
        kinds = ["text", "interp"]
        if not cdata:
            kinds += ["elem"] * 3 + [k for k in ("comment", "script", "void") if k in self.f]
            kinds += [k for k in ("if", "for", "def", "with", "vars", "block", "replace") if k in self.f]
        k = r.choice(kinds)
        if k == "text":
            s = self.textf(r)
            if cdata:
                s = s.replace("</", "<").replace("<!--", "")
            return [T(s)]
        if k == "interp":
            n = self.interp(scope)
            if cdata and "<" in n.expr:
                n = I("a")
            return [n]
        if k == "comment":
            return [Cm(r.choice([" c $a ${b} ", "!drop", " ! drop ${a}", " <b> & ", "", "$$", "[if IE]> x <![endif]"]))]
        if k == "script":
            return [El(r.choice(["script", "style"]), [], {}, self.nodes(scope, depth + 1, True))]
        if k == "void":
            return [El(r.choice(sorted(VOID_PARSE)), self.attrs(scope) if "attr" in self.f else [], {})]
        if k == "elem":
            d, sc = self.dirs(scope, ("block", "if", "for", "def", "with", "vars"), .12)
            tag = r.choice(TAGS)
            defcall = self.call(*self.last_def) if "def" in d else None
            x = r.random()
            if x < .08 and "content" in self.f:
                d["content"] = self.expr(sc)
            elif x < .14 and "replace" in self.f:
                d["replace"] = self.expr(sc)
            if r.random() < .12 and "strip" in self.f:
                d["strip"] = r.choice(self.conds + [""])
            if r.random() < .1 and "attrs" in self.f:
                d["attrs"] = r.choice(["d", "prs", "{'c': yes, 'n': no}", "l0", "no", "[('a', a), ('b', h)]", "{'z': n, 'y': e, 'x': nay}"])
            items = list(d.items())
            r.shuffle(items)
            kids = self.nodes(sc if "block" not in d else [s for s in sc if s not in scope], depth + 1) if depth < 5 else []
            el = El(tag, self.attrs(sc) if "attr" in self.f else [], dict(items), kids, r.random() < .2)
            return self.after(el, d, defcall)
        if k == "replace":
            return [Ctl("replace", self.expr(scope))]
        v, sc, nm = self.arg(k, scope)
        defcall = self.call(*self.last_def) if k == "def" else None
        d, sc2 = self.dirs(sc, ("if", "for", "with"), .08)
        kids = self.nodes(sc2, depth + 1) if depth < 5 else []
        return self.after(Ctl(k, v, kids, d), {k: v}, defcall)

    def after(self, node, d, defcall):
        if defcall and self.r.random() < .8 and "if" not in d and "for" not in d and "block" not in d:
            return [node, T("|"), I(defcall), I(defcall, False)]
        return [node]

    def template(self):
        kids = self.nodes([], 1)
        root = El("html", self.attrs([]) if "attr" in self.f else [], {}, kids)
        pre = [Raw("<!DOCTYPE html>", "<!DOCTYPE html>")] if self.r.random() < .2 else []
        return pre + [root]
