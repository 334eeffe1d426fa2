"""Shared by the contracts: access to the functions under contract, spec functions, symbolic inputs."""
import ast
import types
import z3
from pyvc import source
from pyvc.sym import *
from pyvc.vm import Fold, Loop, Run, Return_, PathEnd
from pyvc import models
from pyvc.prove import unit, FORM

A = z3.And
OR = z3.Or
NOT = z3.Not
SV = z3.StringVal


def fn(spec):
    """the function "module:qualname" of the current source"""
    mod, q = spec.split(":")
    try:
        m = source.module(mod)
    except (ImportError, OSError) as e:
        raise Unsupported("module %s: %s" % (mod, e))
    d = m.defs.get(q)
    if not isinstance(d, ast.FunctionDef):
        raise Unsupported("%s is not defined in %s" % (q, mod))
    o = m.py
    for p in q.split("."):
        o = o.__dict__.get(p, MISSING) if isinstance(o, type) else getattr(o, p, MISSING)
        if o is MISSING:
            raise Unsupported("%s is not defined in %s" % (q, mod))
    o = getattr(o, "__func__", o)
    if isinstance(o, property):
        o = o.fget
    if not isinstance(o, types.FunctionType):
        raise Unsupported("%s is not a function" % spec)
    f = source.find_def(o)
    if f is None:
        raise Unsupported("source of %s not found" % spec)
    return Closure(f[1], f[0], None, f[2], pyfn=o)


def cls(spec):
    mod, q = spec.split(":")
    try:
        o = source.module(mod).py
        for p in q.split("."):
            o = getattr(o, p)
        return o
    except (ImportError, OSError, AttributeError) as e:
        raise Unsupported("%s: %s" % (spec, e))


def concrete_classes(base):
    return [c for c in vars(ast).values() if isinstance(c, type) and c.__base__ is base and c.__module__ in ("ast", "_ast")]


# every class of expressions and of statements there is
EXPR_KINDS = concrete_classes(ast.expr)
STMT_KINDS = concrete_classes(ast.stmt)


def no_fields(run, o, name):
    """schema of syntax of which only its contract is known"""
    if any(name in k._fields for k in o.kinds):
        raise Unsupported("the field %s of arbitrary syntax" % name)
    return MISSING


def node_classes():
    """the names of all classes of template nodes in tonnikala.ir.nodes"""
    try:
        base = cls("tonnikala.ir.nodes:BaseNode")
        return [n for n, c in vars(source.module("tonnikala.ir.nodes").py).items() if isinstance(c, type) and issubclass(c, base) and n not in ("BaseNode", "ContainerNode")]
    except Exception:
        return ["Comment", "Text", "Expression", "MutableAttribute", "Element", "If", "TranslatableText", "InterpolatedExpression", "Code", "DynamicText"]


def stub(run, spec, f):
    """contract of a callee: f(run, args, kwargs)"""
    mod, q = spec.split(":")
    run.stubs[(mod, q)] = f


class Schema:
    """fields of the instances of each class, as the class invariant states them: {class: {attr: maker(run, obj)}}"""
    def __init__(self, table):
        self.table = table

    def __call__(self, run, o, attr):
        k = o.kinds[0]
        for c in (k.mro() if isinstance(k, LocalClass) else k.__mro__):
            t = self.table.get(c)
            if t and attr in t:
                if getattr(o, "probe", False):
                    return None
                if len(o.kinds) > 1:
                    # the same maker for every possible class, else decide the class
                    mk = t[attr]
                    same = all(self.find(kk, attr) is mk for kk in o.kinds)
                    if not same:
                        groups = {}
                        for kk in o.kinds:
                            groups.setdefault(id(self.find(kk, attr)), []).append(kk)
                        run.narrow(o, list(groups.values()))
                        return self(run, o, attr)
                return t[attr](run, o)
        if len(o.kinds) > 1:
            have = [kk for kk in o.kinds if self.find(kk, attr)]
            if have:
                run.narrow(o, [have, [kk for kk in o.kinds if kk not in have]])
                return self(run, o, attr)
        return MISSING

    def find(self, k, attr):
        for c in (k.mro() if isinstance(k, LocalClass) else k.__mro__):
            t = self.table.get(c)
            if t and attr in t:
                return t[attr]
        return None


def field_str(name):
    return lambda run, o: run.str("%s.%s" % (o.name or "o%d" % o.oid, name), input=True)


def field_bool(name):
    return lambda run, o: run.bool("%s.%s" % (o.name or "o", name), input=True)


def const(v):
    return lambda run, o: v


def esc(t):
    return hom(ESC, t)


class Other:
    """a class the code under contract knows nothing about"""


def opaque(run, name, **ghost):
    """arbitrary value of a type that is none of the types the code asks about"""
    ghost.setdefault("type", lambda run, v: Other)
    ghost.setdefault("isinstance", lambda run, v, c: issubclass(Other, c) if isinstance(c, type) else False)
    ghost.setdefault("is_none", False)
    base = ghost.get("getattr")

    def ga(run, v, attr):
        if attr == "__class__":
            return Other
        return base(run, v, attr) if base else MISSING
    ghost["getattr"] = ga
    return Opaque(run.name(name), **ghost)


def html_term(run, v):
    """z3 term of the text that markupsafe.escape gives for a value"""
    if isinstance(v, (str, SymStr)):
        return esc(zs(v))
    if isinstance(v, (int, SymInt, SymBool, float)) or v is None:
        return esc(zs(models.to_str(run, v)))
    if isinstance(v, Obj) and "html" in v.ghost:
        return v.ghost["html"]
    if isinstance(v, Obj) and v.sval is not None:
        return esc(zs(v.sval))
    if isinstance(v, Opaque):
        if "html" not in v.ghost:
            v.ghost["html"] = z3.String(run.name("escaped(%s)" % v.name))
        return v.ghost["html"]
    raise Unsupported("escape of %r" % (v,))


def model_escape(run):
    """markupsafe.escape: assumed contract. The result is markup with the escaped text (or the value's own HTML)."""
    import markupsafe

    def f(run, a, k):
        t = html_term(run, a[0])
        o = Obj(markupsafe.Markup, sval=mks(t))
        o.ghost["html"] = t
        return o
    run.models[markupsafe.escape] = f

    def markup(run, a, k):
        # Markup(text): the text itself is the HTML
        if len(a) != 1 or k or not isinstance(a[0], (str, SymStr)):
            raise Unsupported("Markup of %r" % (a,))
        o = Obj(markupsafe.Markup, sval=a[0])
        o.ghost["html"] = zs(a[0])
        return o
    run.models[markupsafe.Markup] = markup


def any_value(run, name="value", kinds=("none", "bool", "int", "str", "other")):
    """an arbitrary interpolated value"""
    k = kinds[run.pick(len(kinds))]
    if k == "none":
        return None
    if k == "bool":
        return run.bool(name, input=True)
    if k == "int":
        return run.int(name, input=True)
    if k == "str":
        return run.str(name, input=True)
    return other_value(run, name)


def other_value(run, name):
    """an arbitrary value that is none of None, booleans, numbers of type int and strings, and no buffer or markup"""
    def isinst(run, v, c):
        if c is object:
            return True
        if not isinstance(c, type) or issubclass(c, (str, int, type(None))) or c.__module__.startswith(("tonnikala", "markupsafe")):
            return False
        if c.__module__ == "collections.abc" and c.__name__ == "Hashable":
            raise Unsupported("isinstance of an abstract class")
        return run.memo_bool(("isinstance", v, c), "isinstance_%s_%s" % (v.name, c.__name__))
    o = opaque(run, name, isinstance=isinst)
    o.ghost["is_none"] = False
    return o


def dict_unknown(run, name, mkval=None, **kw):
    b = DictBase(name, mkval or (lambda run, key, nm: opaque(run, nm)))
    b.seg = kw.get("seg")
    return SymDict(base=b)


def same_value(run, a, b):
    if a is MISSING or b is MISSING:
        return a is b
    return mkb(run.is_(a, b)) if not (isinstance(a, (SymStr, SymInt, SymBool, str, int)) or isinstance(b, (SymStr, SymInt, SymBool, str, int))) else run.eq(a, b)
