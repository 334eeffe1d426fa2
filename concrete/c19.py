"""C19: message extraction."""
import ast, io, random, re
from collections import Counter
from . import common, tree, gen
from .common import Failure, attempt
from .tree import *

MSGS = ["foo", "bar baz", "a & b", "it's", 'say "hi"', "<b>", "\xe4\u20ac", "x\n y", "{x}", "%s", "100%", "50 $ only", "\\n", "z", "q.", "a\xa0b", "None", "0"]
WSP = ["", " ", "\n", "  \n ", "\t"]
CALLS = ["gettext('c one')", 'gettext("it\'s")', "gettext('dup')", "f(gettext('in ner'))", "gettext('l') + gettext('r')", "gettext('a' 'b')", "gettext('''tri\nple''')", "[gettext('x') for i in l]", "gettext(\"\\xe4\")", "{'k': gettext('dict')}['k']", "gettext('%s <b>') % a", "(lambda z: gettext('lam'))(1)", "gettext('foo')", "a if n else gettext('else')", "gettext('br}')", "gettext(' ')", "gettext('\\n')", "gettext('  pad ')", "gettext('.')", "gettext('0')", "gettext('<p>x</p>')", "gettext('a') if gettext('b') else 0", "(gettext('t1'), gettext('t2'))[0]", "gettext('$x ${y}')", "gettext('#no comment')", "gettext( 'spaced' )", "ngettext('one car', 'many cars', n)", "pgettext('menu', 'open')", "f(ngettext('a', 'b', 2))", "ngettext('same', 'same', n)", "ugettext('u')"]
FUNCS = {"gettext": 1, "ugettext": 1, "ngettext": 2, "pgettext": 2}
PLAIN = ["a", "n", "f(a)", "a + 'gettext'", "l[0]", "'foo'", "f('bar')"]


def key(func, args):
    """a message with context or plural form, as one text"""
    return func + "\0" + "\0".join(args)


def literal_calls(expr):
    out = []
    for n in ast.walk(ast.parse(expr.strip(), mode="eval")):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in FUNCS:
            k = FUNCS[n.func.id]
            if len(n.args) >= k and all(isinstance(a, ast.Constant) and isinstance(a.value, str) for a in n.args[:k]):
                out.append(key(n.func.id.lstrip("u"), [a.value for a in n.args[:k]]) if k > 1 else n.args[0].value)
    return out


def text_msg(s):
    m = WS.match(s).group(2)
    return [m] if m else []


def messages(nodes, cdata=False):
    """the messages of a template, from the property"""
    out = []
    for n in nodes:
        if isinstance(n, T):
            if not cdata:
                out += text_msg(n.s)
        elif isinstance(n, I):
            out += literal_calls(n.expr)
        elif isinstance(n, (El, Ctl)):
            gone = "replace" in n.dirs or isinstance(n, Ctl) and n.kind == "replace"
            if isinstance(n, El) and "replace" not in n.dirs:
                cd0 = cdata or n.tag in ("script", "style")
                for k, v in n.attrs:
                    for p in v or ():
                        if isinstance(p, I):
                            out += literal_calls(p.expr)
                        elif k in TR_ATTRS and not cd0:
                            out += text_msg(p.s)
            if isinstance(n, Ctl) and n.kind == "replace":
                out += literal_calls(n.arg)
                continue
            if "replace" in n.dirs:
                out += literal_calls(n.dirs["replace"])
                continue
            if n.dirs.get("content"):
                out += literal_calls(n.dirs["content"])
                continue
            out += messages(n.kids, cdata or isinstance(n, El) and n.tag in ("script", "style"))
    return out


def extract(source, how):
    from tonnikala.i18n import extract_tonnikala, TonnikalaExtractor
    if how == "str":
        r = list(extract_tonnikala(io.StringIO(source), None, None, {}))
    elif how == "bytes":
        r = list(extract_tonnikala(io.BytesIO(source.encode("utf-8")), None, None, {}))
    else:
        class Opt:
            keywords = {}
            comment_tag = None
            domain = None
        return [m.msgid if not m.msgctxt and not m.msgid_plural else key("pgettext" if m.msgctxt else "ngettext", [x for x in (m.msgctxt, m.msgid, m.msgid_plural) if x is not None]) for m in TonnikalaExtractor()("t.tk", Opt(), fileobj=io.StringIO(source))]
    out = []
    for m in r:
        if m[1] not in FUNCS or len(m[2]) != FUNCS[m[1]]:
            raise Failure("form of an extracted message", source, "a gettext function and its messages", m)
        out.append(m[2][0] if len(m[2]) == 1 else key(m[1], m[2]))
    return out


def check(t, nodes, rnd=None, how=None):
    source = src(nodes, rnd)
    t.arm(source)
    exp = Counter(messages(nodes))
    how = how or (rnd.choice(["str", "bytes", "lingua"]) if rnd else "str")
    got = attempt(lambda: Counter(extract(source, how)))
    inp = dict(template=source, via=how)
    if got[0] == "exc":
        raise Failure("extraction fails", inp, sorted(exp.elements()), repr(got[1]))
    if got[1] != exp:
        raise Failure("extracted messages", inp, dict(missing=sorted((exp - got[1]).elements()), surplus=[]), dict(missing=[], surplus=sorted((got[1] - exp).elements()), all=sorted(got[1].elements())))
    # what rendering hands to the translation function
    seen = []

    def gt(m):
        seen.append(m)
        return m
    c = gen.mk_ctx()
    c["gettext"] = c["ugettext"] = gt
    c["ngettext"], c["pgettext"] = lambda a, b, n: a, lambda a, b: b
    r = attempt(lambda: tree.real(source, c, translatable=True))
    if r[0] == "ok":
        extra = set(seen) - set(exp)
        if extra:
            raise Failure("rendering translates a text that is not extracted", inp, sorted(exp), sorted(extra))
    t.add(source, len(exp) > 1, source if rnd is not None and rnd.random() < .01 else None)


def mtext(rnd):
    return rnd.choice(WSP) + rnd.choice(MSGS + [" ", "\n"]) + rnd.choice(WSP)


def randoms(t, rnd):
    conds = [c for c in gen.CONDS if c not in gen.CONST_CONDS and is_static(c) is None]
    while not t.over():
        g = gen.Gen(rnd, budget=rnd.choice([3, 6, 12, 25]), exprs=CALLS + PLAIN, dexprs=["a", "n", "gettext('dollar')", "f(gettext('paren'))", "l[0]", "gettext(\"d'\")"], conds=conds, textf=mtext)
        check(t, g.template(), rnd)


def fixed(t, rnd):
    for m in MSGS:
        for a in WSP[:3]:
            for z in WSP[:3]:
                s = a + m + z
                check(t, [El("html", [], {}, [T(s)])])
                check(t, [El("html", [], {}, [El("p", [("title", [T(s)]), ("class", [T(s)])], {}, [T(s), I("a"), T(s)])])])
                check(t, [El("html", [], {}, [El("script", [("title", [T("x")])] if False else [], {}, [T(m.replace("<", ""))]), El("style", [], {}, [T("q")]), T(s)])])
    for at in sorted(TR_ATTRS) + ["class", "data-title", "TITLE2", "href", "name", "label", "xml:title"]:
        check(t, [El("html", [], {}, [El("p", [(at, [T("msg")])], {}, [])])])
        check(t, [El("html", [], {}, [El("p", [(at, [T(" m1 "), I("a"), T(" m2 ")])], {}, [])])])
        check(t, [El("html", [], {}, [El("p", [(at, [T("")])], {}, [])])])
        check(t, [El("html", [(at, None)], {}, [T("x")])])
        check(t, [El("html", [], {}, [El("p", [(at, [I("gettext('in attr')")])], {}, [])])])
        check(t, [El("html", [], {}, [El("p", [(at, [T(" "), I("gettext('in attr')"), T(" ")])], {"if": "a"}, [El("i", [(at, [T("inner")])])])])])
    for e in CALLS + PLAIN:
        for w in ([I(e)], [T("x"), I(e), T("y")], [El("p", [("class", [I(e)])], {}, [])], [El("p", [], {"content": e}, [T("gone")])], [El("p", [("title", [T("gone too")])], {"replace": e}, [T("gone")])], [Ctl("replace", e)], [Ctl("if", "a", [I(e), T("q")])], [Ctl("for", "i in l", [I(e), T("q")])], [El("p", [], {"strip": "a"}, [I(e), T("q")])], [Ctl("def", "d1(x)", [I(e), T("in def")])], [Ctl("block", "b1", [I(e), T("in block")])], [Ctl("with", "w=1", [I(e), T("in with")])], [El("script", [], {}, [T("s "), I(e)])] if "<" not in e else []):
            check(t, [El("html", [], {}, w)])
    for d in ({"if": "a"}, {"for": "i in l"}, {"strip": "a"}, {"strip": ""}, {"with": "w=1"}, {"def": "q()"}, {"block": "q"}, {"if": "a", "for": "i in l", "strip": "n", "with": "w=2"}):
        check(t, [El("html", [], {}, [El("p", [("title", [T("tt")]), ("alt", [T("x"), I("gettext('y')")])], d, [T("kid"), El("b", [], {}, [T("deep")]), T("tail")])])])
    # comments, doctype, nested translation exemptions
    check(t, [Raw("<!DOCTYPE html>", "<!DOCTYPE html>"), El("html", [], {}, [Cm(" c "), T("a"), Cm("!d"), T("b")])])
    check(t, [El("html", [], {}, [T("dup"), El("b", [], {}, [T("dup")]), I("gettext('dup')"), T(" dup ")])])


def big(t, rnd):
    """many messages of every kind"""
    from .render import big as templates
    for n in (3, 11, 45, 150, 330):
        for label, nodes in templates(n):
            check(t, nodes, rnd)
            if t.over():
                return
        check(t, [El("html", [], {}, [El("p", [("title", [T("tt%d" % i)])], {}, [T("kid%d" % i), I(["gettext('g%d')", "f(gettext('g%d'))", "ngettext('g%d', 'p', m)"][i % 3] % i)]) for i in range(n)])], rnd)
        check(t, [El("html", [], {}, [I("[%s]" % ", ".join("gettext('g%d')" % i for i in range(n)))])], rnd)


PARTS = [("fixed", fixed, 1), ("many messages", big, 1), ("random", randoms, 4)]
