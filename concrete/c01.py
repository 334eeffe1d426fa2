"""C01: escaping, exactly once."""
import decimal, enum, fractions, random
from . import common, gen, tree, render
from .common import Failure, attempt, internal
from .tree import *

CH = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&#34;", "'": "&#39;"}


def esc_s(s):
    return "".join(CH.get(c, c) for c in s)


class Html2:
    """own representation, returned as a markup object"""
    def __html__(self):
        from markupsafe import Markup
        return Markup("<i title=\"'\">&</i>")

    def __str__(self):
        return "never <shown>"


class StrHtml(str):
    def __html__(self):
        return "<own>" + "x</own>"


class Shout(str):
    def __str__(self):
        return "STR<" + str.__str__(self)[:2]


class IntSub(int):
    def __str__(self):
        return "<int&>"


class Fmt:
    def __str__(self):
        return "<fmt>&'\""

    def __format__(self, s):
        return "WRONG"

    def __repr__(self):
        return "WRONG"


class Deleg:
    def __str__(self):
        return Shout("a<b")


class EqAll:
    """equal to everything"""
    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    __hash__ = None

    def __str__(self):
        return "<eq>"


class Falsy:
    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __str__(self):
        return "falsy&"


class Color(enum.Enum):
    RED = "<red>"


def values():
    from markupsafe import Markup
    vs = ["&", "<", ">", '"', "'", "&amp;", "&lt;b&gt;", "&#34;", "a<b>c&d\"e'f", "", " ", "\n", "x", "&&&", "<<>>", "''\"\"", "\u2028<", "\U0001f600&", "\xa0", "\x00<", "\x7f", "&amp;amp;", "<" * 50, ("a&" * 300),
          "</script>", "-->", "${a}", "$$", "%s%%", "{0}", "\\", 0, 1, -3, 1.5, 10 ** 30, True, False, None, b"a<b", bytearray(b"<"), ["<", "&", "'"], ("<",), {"<": "&"}, {"'<"}, decimal.Decimal("1.20"), fractions.Fraction(1, 3),
          Html2(), StrHtml("a<b"), Shout("<&>"), IntSub(4), Fmt(), Deleg(), gen.Html("<b>&amp;</b>"), gen.Plain("p<&>'\""), gen.StrSub("<sub>'&"), Markup("<m>&amp;\"'</m>"), Markup(""), complex(1, 2), range(3), Exception("<e>"), object,
          0.0, -0.0, 0j, float("nan"), float("inf"), decimal.Decimal(0), fractions.Fraction(0), (), [], {}, set(), b"", range(0), IntSub(0), IntSub(1), gen.StrSub(""), EqAll(), Falsy(), Ellipsis, NotImplemented, bool, type(None), Color.RED, ("\"", 1), (1,), (None,), "None", "False", "True"]
    return vs


def expect(v):
    h = getattr(type(v), "__html__", None) or getattr(v, "__html__", None)
    if h is not None and not isinstance(v, type):
        return str(v.__html__())
    return esc_s(str(v))


# template around the value, and which kind of position it is
POS = [
    ("${v}", "text"), ("$v", "text"), ("a${v}b", "text"), ("${v}${v}", "text2"), ("$v.", "text"), ("<b>${v}</b>", "text"), ("<script>${v}</script>", "text"), ("<script>var a = '$v';</script>", "text"), ("<style>${v}</style>", "text"),
    ("<p class=\"a ${v}\">x</p>", "text"), ("<p class=\"${v} b\">x</p>", "text"), ("<p class=\"$v$v\">x</p>", "text2"), ("<p title='$v ${v}'/>", "text2"), ("<script src=\"x$v\"></script>", "text"),
    ("<p py:content=\"v\">x</p>", "text"), ("<p py:replace=\"v\">x</p>", "text"), ("<py:replace value=\"v\"/>", "text"), ("<p py:if=\"1\">$v</p>", "text"), ("<p py:if=\"one\">$v</p>", "text"), ("<p py:for=\"i in [1, 2]\">$v</p>", "text2"),
    ("<p py:for=\"w in [v]\">$w</p>", "text"), ("<py:with vars=\"w=v\">$w</py:with>", "text"), ("<py:with vars=\"w=v\"><i x=\"q$w\"/></py:with>", "text"), ("<py:def function=\"f(p)\">$p</py:def>${f(v)}", "text"),
    ("<py:def function=\"f(p)\">$p</py:def><i q=\"a${f(v)}\"/>", "text"), ("<py:def function=\"f(p)\">$p</py:def><i q=\"${f(v)}\"/>", "text"), ("<py:def function=\"f(p)\">$p</py:def><py:def function=\"g(p)\">${f(p)}</py:def>${g(v)}", "text"),
    ("<py:def function=\"f(p)\">$p</py:def><script>${f(v)}</script>", "text"), ("<py:def function=\"f(p)\">$p</py:def><py:replace value=\"f(v)\"/>", "text"), ("<py:def function=\"f(p)\">$p</py:def><i py:content=\"f(v)\"/>", "text"),
    ("<py:def function=\"f(p)\">$p</py:def><i py:attrs=\"{'q': f(v)}\"/>", "text"), ("<py:block name=\"b1\">$v</py:block>", "text"), ("<py:block name=\"b1\"><i q=\"-$v\"/></py:block>", "text"), ("<p py:strip=\"1\">$v</p>", "text"), ("<p py:strip=\"one\">${v}</p>", "text"),
    ("<title>$v</title>", "text"), ("<textarea>$v</textarea>", "text"), ("${v if one else 0}", "text"), ("${(v)}", "text"), ("${[v][0]}", "text"), ("${(lambda literal: v)(1)}", "text"), ("${ident(v)}", "text"), ("$ident(v)", "text"), ("${ident(literal(v))}", "text"), ("${literal(v) if one else 0}", "text"), ("${[literal(v)][0]}", "text"), ("${ident.lit(v)}", "text"), ("$ident.lit(v)", "text"), ("${ident.literal(v)}", "text"), ("$ident.literal(v)", "text"), ("<p class=\"a ${ident.literal(v)}\">x</p>", "text"), ("<p py:content=\"ident.literal(v)\">x</p>", "text"), ("${[literal][0](v)}", "text"), ("${{'literal': ident}['literal'](v)}", "text"), ("${(literal or ident)(v)}", "text"),
    ("<p class=\"$v\">x</p>", "attr"), ("<p class=\"${v}\"/>", "attr"), ("<input value=\"$v\"/>", "attr"), ("<p py:attrs=\"{'class': v}\">x</p>", "attr"), ("<p py:attrs=\"[('class', v)]\"/>", "attr"), ("<p py:attrs=\"(('class', v),)\" py:content=\"one\"/>", "attr"), ("<script type=\"$v\">x</script>", "attr"), ("<p class=\"${literal(v)}\"/>", "attr"),
    ("${literal(v)}", "raw"), ("$literal(v)", "raw"), ("a${literal(v)}b", "raw"), ("<p class=\"a ${literal(v)}\"/>", "raw"), ("<p py:content=\"literal(v)\"/>", "raw"), ("<p py:replace=\"literal(v)\"/>", "raw"), ("<script>${literal(v)}</script>", "raw"), ("<py:def function=\"f(p)\">${literal(p)}</py:def>${f(v)}", "raw"), ("<py:def function=\"f(p)\">${literal(p)}</py:def>${f(v)}|<i q=\"x ${f(v)}\"/>", "raw2"),
]


def boolattr(name, v, text):
    if v is None or v is False:
        return ""
    if v is True:
        return ' %s="%s"' % (name, name)
    return ' %s="%s"' % (name, text)


def matrix(t, rnd):
    from tonnikala.loader import Loader
    import re
    probes = {}

    class Ident:
        def __call__(self, x):
            return x

        def literal(self, x):
            return x

        def lit(self, x):
            return x
    mark = gen.Html("\x01")
    vs = values()
    for k, (tpl, kind) in enumerate(POS):
        if k % t.nshards != t.shard:
            continue
        source = "<html>" + tpl + "</html>"
        t.arm(source)
        for bn, b in common.buffers().items():
            with common.use_buffer(b):
                st, template = attempt(lambda: Loader().load_string(source))
                if st == "exc":
                    raise Failure("template does not compile", source, "a template", repr(template))
                base = template.render(dict(v=mark, one=1, ident=Ident()))
                if kind == "attr":
                    m = re.search(r' ([\w]+)="\x01"', base)
                    if not m:
                        raise Failure("attribute value", source, ' name="..."', base)
                elif base.count("\x01") != (2 if kind.endswith("2") else 1):
                    raise Failure("number of occurrences of the value", source, 2 if kind.endswith("2") else 1, base)
                for v in vs:
                    if kind == "attr":
                        e = base[:m.start()] + boolattr(m.group(1), v, expect(v)) + base[m.end():]
                    elif kind.startswith("raw"):
                        e = base.replace("\x01", str(v.__html__()) if 0 else str(v))
                        if tpl.startswith("<py:def"):
                            e = base.replace("\x01", str(v))
                    else:
                        e = base.replace("\x01", expect(v))
                    if kind.startswith("raw"):
                        e = base_raw(template, base, v, mark)
                    got = attempt(lambda: template.render(dict(v=v, one=1, ident=Ident())))
                    if got != ("ok", e):
                        raise Failure("escaping of an interpolated value", dict(template=source, value=repr(v), buffer=bn), e, got[1])
                    t.add((source, bn, repr(v)), nontrivial=esc_s(str(v)) != str(v), sample=(source, repr(v)) if rnd.random() < .005 else None)


def base_raw(template, base, v, mark):
    # literal() inserts the string form of its argument; the probe inserted its own string form
    return base.replace("STR<\x01", str(v)) if "STR<\x01" in base else base.replace("\x01", str(v))


def static_text(t, rnd):
    """every character, in text, attribute and cdata"""
    from tonnikala.loader import Loader
    chars = [chr(c) for c in list(range(0x20, 0x180)) + [9, 10, 0x2028, 0x2029, 0xfeff, 0xfffd, 0x1f600, 0x10ffff, 0x3c0, 0x4e2d] if chr(c) not in "$\r"]
    for c in chars[t.shard::t.nshards]:
        enc = {"&": "&amp;", "<": "&lt;"}.get(c, c)
        for body, out in (("a%sb" % enc, "a%sb" % esc_s(c)), ("&#%d;" % ord(c), esc_s(c)), ("&#x%x;" % ord(c), esc_s(c)), (enc * 3, esc_s(c) * 3)):
            for pre, suf in (("<p>", "</p>"), ("<p>$v", "</p>"), ("<p>", "${v}</p>"), ("<title>", "</title>")):
                if body == "&#%d;" % ord(c) and ord(c) < 32:
                    continue
                e = (pre + out + suf).replace("${v}", "V").replace("$v", "V")
                source = pre + body + suf
                if pre == "<p>$v" and re_word(c if body.startswith("&#") else body):
                    continue
                t.arm(source)
                got = attempt(lambda: Loader().load_string(source).render(dict(v="V")))
                if got != ("ok", e):
                    raise Failure("static text", source, e, got[1])
                t.add(source, nontrivial=out != body)
            if '"' in body or "&#" in body:
                continue
            source = '<p class="%s" id="$v%s"></p>' % (body, "-" + body)
            e = '<p class="%s" id="V-%s"></p>' % (out, out)
            got = attempt(lambda: Loader().load_string(source).render(dict(v="V")))
            if got != ("ok", e):
                raise Failure("static attribute text", source, e, got[1])
            t.add(source)
        if c not in "<&" or True:
            for el in ("script", "style"):
                for body in (c, "a%sb" % c, c * 2):
                    if "</" in body:
                        continue
                    source = "<r><%s>%s</%s></r>" % (el, body, el)
                    got = attempt(lambda: Loader().load_string(source).render({}))
                    if got != ("ok", source):
                        raise Failure("static text in %s" % el, source, source, got[1])
                    t.add(source)


def re_word(b):
    return bool(b[:1]) and (b[0].isalnum() or b[0] in "_.([")


def helpers_escape(t, rnd):
    esc = internal("tonnikala.helpers", "escape", ["string"])
    alphabet = "&<>\"';#a3 "
    import itertools
    for n in range(0, 5):
        for tup in itertools.product(alphabet, repeat=n):
            s = "".join(tup)
            got = attempt(lambda: esc(s))
            if got != ("ok", esc_s(s)):
                raise Failure("helpers.escape", s, esc_s(s), got[1])
            t.add(s, nontrivial=esc_s(s) != s)
    for c in range(0, 0x3000):
        s = "x" + chr(c) + "y"
        if esc(s) != esc_s(s):
            raise Failure("helpers.escape", s, esc_s(s), esc(s))


def expressions(t, rnd):
    """every kind of expression in every place its value is written to"""
    for e in gen.TEXT_EXPRS + gen.CM_EXPRS:
        places = [[I(e)], [T("x"), I(e), T("y")], [I("a"), I(e)], [El("p", [("class", [I(e)])], {}, [])], [El("p", [("class", [T("x"), I(e), I("b")])], {}, [])], [El("p", [], {"content": e}, [T("z")])], [El("p", [], {"replace": e}, [T("z")])],
                  [Ctl("replace", e)], [El("p", [], {"attrs": "[('k', %s)]" % e})], [Ctl("with", "w1 = (%s)" % e, [I("w1")])], [Ctl("def", "fn1(p)", [I("p"), I(e)]), I("fn1(%s)" % e)], [Ctl("block", "bl", [I(e)])], [Ctl("for", "i1 in [%s]" % e, [I("i1"), El("b", [("id", [I("i1")])], {}, [])])], [El("title", [], {}, [I(e)])]]
        if "<" not in e:
            places.append([El("script", [], {}, [I(e)])])
        for nodes in places:
            render.check(t, [El("r", [], {}, nodes)], gen.mk_ctx, rnd, what="the escaped value of an expression", strict_exc=True, norm=ADDR)
            render.check(t, [El("r", [], {}, nodes)], gen.mk_ctx, rnd, (lambda x: "T<" + x + ">"), what="the escaped value of an expression in a translated template", strict_exc=True, norm=ADDR)


def ADDR(s):
    import re
    return re.sub(r"&lt;(function|bound method|generator object) .*? at 0x[0-9a-f]+(&gt;)*", "FN", s)


PARTS = [
    ("every kind of expression", expressions, 2),
    ("position x value matrix", matrix, 4),
    ("static text and entities", static_text, 4),
    ("helpers.escape", helpers_escape, 1),
    ("many of everything", render.big_part(), 2),
    ("random templates", render.random_part(what="escaped output"), 4),
    ("random translated templates", render.random_part(tr=True, what="escaped translated output"), 1),
]
