"""C08: attribute values None, False and True control the attribute."""
import collections, itertools, random, types
from . import common, gen, tree, render
from .common import Failure, attempt, internal
from .c01 import values, expect, boolattr, esc_s
from .tree import *

NAMES = ["class", "data-x", "checked", "x:y", "A", "title", "value", "_", "href"]


class MyMap(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class FalsyMap(MyMap):
    def __bool__(self):
        return False


class DictSub(dict):
    def items(self):
        return [("sub", "items")]


class Pairs:
    def __init__(self, p):
        self.p = p

    def __iter__(self):
        return iter(self.p)


class GetItemPairs:
    def __init__(self, p):
        self.p = p

    def __getitem__(self, i):
        return self.p[i]


def val_expect(v):
    return expect(v)


def line(pairs):
    return "".join(boolattr(k, v, None if v is None or isinstance(v, bool) else val_expect(v)) for k, v in pairs)


def single(t, rnd):
    """one interpolation as the whole value, in every spelling"""
    from tonnikala.loader import Loader
    vs = [v for v in values()]
    forms = ["<p %s=\"$v\">x</p>", "<p %s=\"${v}\">x</p>", "<p %s='${v}'></p>", "<p %s=$v>x</p>", "<p %s=\"${ident(v)}\"/>", "<p %s=\"$ident(v)\"/>", "<input %s=\"$v\"/>", "<p a1=\"k\" %s=\"$v\" z1=\"m\">x</p>", "<p a1=\"$one\" %s=\"$v\" z1=\"$one\"/>", "<p %s=\"$v\" py:if=\"one\">y</p>", "<p %s=\"$v\" py:strip=\"0\">y</p>", "<p py:for=\"i in [1, 2]\" %s=\"$v\"/>", "<script %s=\"$v\">z</script>", "<p a1=\"x$one\" %s=\"$v\" py:attrs=\"{'q': one}\"/>", "<p %s=\"${v if one else 0}\"/>", "<py:def function=\"f(v)\"><p %s=\"$v\"/></py:def>${f(v)}"]
    k = 0
    for name in NAMES:
        for form in forms:
            k += 1
            if k % t.nshards != t.shard:
                continue
            source = "<r>" + form % name + "</r>"
            t.arm(source)
            for tr in (False, True):
                for bn, b in common.buffers().items():
                    with common.use_buffer(b):
                        st, tpl = attempt(lambda: Loader(translatable=tr).load_string(source))
                        if st == "exc":
                            raise Failure("template does not compile", source, "a template", repr(tpl))
                        ident = lambda x: x
                        base = tpl.render(dict(v=gen.Html("\x01"), one=1, ident=ident))
                        lname = name.lower()
                        if base.count(' %s="\x01"' % lname) == 0:
                            raise Failure("attribute", source, ' %s="..."' % lname, base)
                        for v in vs:
                            e = base.replace(' %s="\x01"' % lname, boolattr(lname, v, expect(v)))
                            got = attempt(lambda: tpl.render(dict(v=v, one=1, ident=ident)))
                            if got != ("ok", e):
                                raise Failure("value of a single interpolation", dict(template=source, value=repr(v), buffer=bn), e, got[1])
                            t.add((source, repr(v), bn, tr), True, sample=(source, repr(v)) if rnd.random() < .001 else None)


def mixed(t, rnd):
    """values mixed with text are always written, and constant attributes always"""
    from tonnikala.loader import Loader
    for v, s in ((None, "None"), (False, "False"), (True, "True"), (0, "0"), ("", ""), ("x", "x")):
        for body, out in (("a$v", "a" + s), ("${v}a", s + "a"), ("$v ", s + " "), (" $v", " " + s), ("$v$v", s + s), ("$v-$one", s + "-1"), ("$$$v", "$" + s)):
            for name in NAMES:
                source = "<r %s=\"%s\"></r>" % (name, body)
                got = attempt(lambda: Loader().load_string(source).render(dict(v=v, one=1)))
                e = "<r %s=\"%s\"></r>" % (name.lower(), out)
                if got != ("ok", e):
                    raise Failure("value mixed with text", dict(template=source, value=v), e, got[1])
                t.add((source, s))
    for body in ("", "x", "None", "False", "True", "0", " "):
        for name in NAMES:
            source = "<r %s=\"%s\"></r>" % (name, body)
            got = attempt(lambda: Loader().load_string(source).render({}))
            e = "<r %s=\"%s\"></r>" % (name.lower(), body)
            if got != ("ok", e):
                raise Failure("constant attribute", source, e, got[1])
            t.add(source)


def containers(pairs):
    d = dict(pairs)
    out = [("list", lambda: list(pairs)), ("tuple", lambda: tuple(pairs)), ("generator", lambda: (p for p in pairs)), ("iter", lambda: iter(list(pairs))), ("lists", lambda: [list(p) for p in pairs]), ("Pairs", lambda: Pairs(pairs)), ("getitem", lambda: GetItemPairs(pairs)), ("zip", lambda: zip([p[0] for p in pairs], [p[1] for p in pairs]))]
    if len(d) == len(pairs):
        out += [("dict", lambda: dict(d)), ("OrderedDict", lambda: collections.OrderedDict(pairs)), ("items", lambda: dict(d).items()), ("MyMap", lambda: MyMap(dict(d))), ("proxy", lambda: types.MappingProxyType(dict(d))), ("UserDict", lambda: collections.UserDict(d)), ("ChainMap", lambda: collections.ChainMap(dict(d))), ("defaultdict", lambda: collections.defaultdict(int, d))]
    return out


def mappings(t, rnd):
    import decimal
    from tonnikala.loader import Loader
    oa = None
    try:
        oa = internal("tonnikala.runtime.python", "output_attrs", ["values"])
    except common.Skip:
        pass
    tpls = {}
    forms = [("<p py:attrs=\"m\">x</p>", "<p%s>x</p>"), ("<p a=\"1\" b=\"$one\" py:attrs=\"m\"/>", "<p a=\"1\" b=\"1\"%s></p>"), ("<input py:attrs=\"m\" q=\"x$one\"/>", "<input q=\"x1\"%s />"), ("<p py:attrs=\"m\" py:content=\"one\"/>", "<p%s>1</p>"), ("<p py:attrs=\"m\" py:if=\"one\" py:strip=\"0\">$one</p>", "<p%s>1</p>")]
    n = 0
    while not t.over() and n < (400 if t.tier == "quick" else 8000):
        n += 1
        vs = values()
        k = rnd.choice([0, 1, 1, 2, 3, 6])
        names = [rnd.choice(NAMES + ["n%d" % i for i in range(5)]) for _ in range(k)]
        if rnd.random() < .7:
            names = list(dict.fromkeys(names))
        pairs = [(nm, rnd.choice(vs if rnd.random() < .5 else [None, False, True, 0, "", "x", 1, "True", [], "a<b"])) for nm in names]
        e = line(pairs)
        for cname, mk in containers(pairs):
            t.arm((cname, repr(pairs)))
            for bn, b in common.buffers().items():
                with common.use_buffer(b):
                    if oa is not None:
                        got = attempt(lambda: str(oa(mk())))
                        if got != ("ok", e):
                            raise Failure("output_attrs", dict(container=cname, pairs=repr(pairs), buffer=bn), e, got[1])
                    f, o = rnd.choice(forms)
                    if f not in tpls:
                        tpls[f] = Loader().load_string(f)
                    tpl = Loader().load_string(f) if rnd.random() < .1 else None
                    with_b = Loader().load_string(f)
                    got = attempt(lambda: with_b.render(dict(m=mk(), one=1)))
                    if got != ("ok", o % e if "%" not in e else o.replace("%s", e)):
                        raise Failure("attrs", dict(template=f, container=cname, pairs=repr(pairs), buffer=bn), o.replace("%s", e), got[1])
            t.add((cname, repr(pairs)), bool(pairs), sample=(cname, repr(pairs)) if rnd.random() < .002 else None)
    for empty in (None, {}, [], (), "", 0, False, collections.OrderedDict(), FalsyMap({"a": 1}), MyMap({}), iter([]), (x for x in [])):
        for f, o in forms:
            got = attempt(lambda: Loader().load_string(f).render(dict(m=empty, one=1)))
            if got != ("ok", o.replace("%s", "")):
                raise Failure("empty attrs", dict(template=f, value=repr(empty)), o.replace("%s", ""), got[1])
            t.add((f, repr(empty)[:20]))
    # the mapping given is not changed and its items() is what counts
    d = DictSub(a=1)
    got = attempt(lambda: Loader().load_string(forms[0][0]).render(dict(m=d)))
    if got != ("ok", '<p sub="items">x</p>'):
        raise Failure("items of a mapping", "DictSub", '<p sub="items">x</p>', got[1])
    for bad in (5, object()):
        got = attempt(lambda: Loader().load_string(forms[0][0]).render(dict(m=bad)))
        if got[0] == "ok":
            raise Failure("attrs of something else", repr(bad), "an error", got[1])


rnd_part = render.random_part(features={"text", "elem", "attr", "if", "attrs", "for", "void"}, exprs=["no", "yes", "nay", "n", "e", "a", "b", "h", "mk", "l", "fl", "s", "None", "True", "False", "0", "''", "a or None", "f(a)", "[]"], dexprs=["no", "yes", "nay", "n", "e", "a", "h"], what="attributes")

PARTS = [("single interpolation", single, 3), ("mixed and constant values", mixed, 1), ("mappings", mappings, 3), ("many attributes", render.big_part(labels=("attribute",)), 2), ("random templates", rnd_part, 2)]
