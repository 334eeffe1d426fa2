"""Models of the builtins and library functions the verified code calls (trusted base)."""
import ast
import builtins
import collections
import collections.abc
import re
import sys
import types
import functools
import z3
from .sym import *
from .sym import _enc

JOIN = None       # set in install: fold of string concatenation


def N(name):
    def deco(f):
        f.mname = name
        return f
    return deco


def concrete(v, depth=0):
    if depth > 6:
        return True
    if isinstance(v, Sym) or v is POISON:
        return False
    if isinstance(v, (tuple, list, set, frozenset)):
        return all(concrete(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return all(concrete(x, depth + 1) for x in v.values())
    if isinstance(v, slice):
        return all(concrete(x, depth + 1) for x in (v.start, v.stop, v.step))
    return True


# --------------------------------------------------------------------------- conversions
_repr_fn = z3.Function("repr", StrS, StrS)


def to_str(run, v):
    if isinstance(v, str) or isinstance(v, SymStr):
        return v
    if isinstance(v, SymInt):
        return mks(z3.If(v.t >= 0, z3.IntToStr(v.t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-v.t))))
    if isinstance(v, SymBool):
        return mks(z3.If(v.t, z3.StringVal("True"), z3.StringVal("False")))
    if isinstance(v, Obj):
        if v.sval is not None and not isinstance(run.class_attr(v, "__str__"), types.FunctionType):
            return v.sval
        f = run.class_attr(v, "__str__")
        if isinstance(f, (types.FunctionType, Closure)):
            return run.call(Bound(v, f), [], {})
        if "str" in v.ghost:
            return v.ghost["str"](run, v)
        if all(isinstance(k, type) and issubclass(k, BaseException) for k in v.kinds):
            if "strval" not in v.ghost:
                v.ghost["strval"] = run.str("message of the exception")
            return v.ghost["strval"]
        raise Unsupported("str of %r" % (v,))
    if isinstance(v, Opaque):
        if "str" in v.ghost:
            return v.ghost["str"](run, v)
        if "strval" not in v.memo:
            v.memo["strval"] = run.str("str(%s)" % v.name)
        return v.memo["strval"]
    if isinstance(v, Sym):
        raise Unsupported("str of %r" % (v,))
    if isinstance(v, tuple) and not concrete(v):
        raise Unsupported("str of %r" % (v,))
    try:
        return str(v)
    except Exception as e:
        raise PyExc(e)


def to_repr(run, v):
    if concrete(v):
        return repr(v)
    if isinstance(v, SymStr) or (isinstance(v, Obj) and v.sval is not None):
        return mks(_repr_fn(zs(v)))
    if isinstance(v, SymInt):
        return to_str(run, v)
    return run.str("repr")


# --------------------------------------------------------------------------- operators
def binop(run, op, a, b, inplace=False):
    if concrete(a) and concrete(b) and not isinstance(a, (list, dict, set)):
        f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.FloorDiv: lambda x, y: x // y,
             ast.Mod: lambda x, y: x % y, ast.BitOr: lambda x, y: x | y, ast.BitAnd: lambda x, y: x & y, ast.Div: lambda x, y: x / y, ast.BitXor: lambda x, y: x ^ y}.get(type(op))
        if f:
            try:
                return f(a, b)
            except Exception as e:
                raise PyExc(e)
    if isinstance(op, ast.Add):
        if isinstance(a, Obj) and a.sval is not None and not run.is_strlike(b):
            run.throw(TypeError, "can only concatenate str")
        if run.is_strlike(a) and run.is_strlike(b):
            return mks(concat(zs(a), zs(b)))
        num = (int, SymInt, SymBool)
        if isinstance(a, num) and isinstance(b, num):
            return mki(z3.simplify(zi(a) + zi(b)))
        if isinstance(a, num + (float,)) and isinstance(b, num + (float,)):
            return mki(z3.simplify(zi(a) + zi(b)))      # real arithmetic: rounding is not modelled
        if isinstance(a, SymList) and isinstance(b, (SymList, list)):
            if inplace:
                run.mutate(a)
                a.items = a.items + list(run.items_of(b))
                return a
            return SymList(a.items + list(run.items_of(b)))
        if isinstance(a, SymList) and inplace:
            run.mutate(a)
            a.items = a.items + list(run.iter_items(b))
            return a
        if isinstance(a, list) and isinstance(b, SymList):
            return SymList(list(a) + b.items)
        if isinstance(a, (tuple, SymTuple)) and isinstance(b, (tuple, SymTuple)):
            it = list(run.items_of(a)) + list(run.items_of(b))
            return SymTuple(it) if any(isinstance(x, Seg) for x in it) else tuple(it)
        if isinstance(a, Opaque) and "add" in a.ghost:
            return a.ghost["add"](run, a, b)
        if isinstance(b, Opaque) and "radd" in b.ghost:
            return b.ghost["radd"](run, b, a)
        if run.is_strlike(a) or run.is_strlike(b):
            for x in (a, b):
                if isinstance(x, (int, SymInt, SymBool, SymList, SymDict, tuple)) or x is None:
                    run.throw(TypeError, "can only concatenate str")
    if isinstance(op, ast.Sub):
        num = (int, SymInt, SymBool)
        if isinstance(a, num) and isinstance(b, num):
            return mki(z3.simplify(zi(a) - zi(b)))
    if isinstance(op, ast.Mult):
        num = (int, SymInt, SymBool)
        if isinstance(a, num) and isinstance(b, num):
            return mki(z3.simplify(zi(a) * zi(b)))
        if isinstance(a, str) and isinstance(b, SymInt):
            f = z3.Function("repeat<%s>" % a, IntS, StrS)
            run.axiom(z3.Implies(b.t <= 0, f(b.t) == z3.StringVal("")))
            return mks(f(b.t))
    if isinstance(op, ast.Mod) and isinstance(a, str):
        return percent(run, a, b)
    if isinstance(a, (SymSet, set, frozenset)) and isinstance(b, (SymSet, set, frozenset)) and isinstance(op, (ast.Sub, ast.BitOr, ast.BitAnd)):
        r = set_op(run, {ast.Sub: "diff", ast.BitOr: "union", ast.BitAnd: "inter"}[type(op)], a, b)
        if inplace and isinstance(a, SymSet):
            run.mutate(a)
            a.mem = r.mem
            return a
        return r
    if isinstance(op, ast.BitOr) and isinstance(a, (SymDict, dict)) and isinstance(b, (SymDict, dict)):
        d = a if inplace and isinstance(a, SymDict) else dict_copy(run, a)
        dict_update(run, d, b)
        return d
    if isinstance(a, (Opaque,)) and "binop" in a.ghost:
        return a.ghost["binop"](run, op, a, b)
    if isinstance(b, (Opaque,)) and "rbinop" in b.ghost:
        return b.ghost["rbinop"](run, op, a, b)
    if (a is None or b is None) and all(x is None or isinstance(x, (bool, int, str, SymInt, SymStr, SymBool)) for x in (a, b)):
        run.throw(TypeError, "unsupported operand type(s)")
    raise Unsupported("%s of %r and %r" % (type(op).__name__, a, b))


def percent(run, fmt, arg):
    args = list(arg) if isinstance(arg, tuple) else list(arg.items) if isinstance(arg, SymTuple) else [arg]
    if any(isinstance(x, Seg) for x in args):
        raise Unsupported("% with unknown number of arguments")
    out = []
    pos = 0
    for m in re.finditer(r"%(.)", fmt, re.S):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        c = m.group(1)
        if c == "%":
            out.append("%")
            continue
        if c not in "srd":
            raise Unsupported("format %" + c)
        if not args:
            run.throw(TypeError, "not enough arguments for format string")
        x = args.pop(0)
        out.append(to_repr(run, x) if c == "r" else to_str(run, x))
    out.append(fmt[pos:])
    if args:
        run.throw(TypeError, "not all arguments converted during string formatting")
    return mks(concat(*[zs(x) for x in out]))


def compare(run, op, a, b):
    if isinstance(op, ast.Is):
        return mkb(run.is_(a, b))
    if isinstance(op, ast.IsNot):
        r = run.is_(a, b)
        return (not r) if isinstance(r, bool) else mkb(z3.Not(r))
    if isinstance(op, ast.Eq):
        return run.eq(a, b)
    if isinstance(op, ast.NotEq):
        r = run.eq(a, b)
        return (not r) if isinstance(r, bool) else mkb(z3.simplify(z3.Not(zb(r))))
    if isinstance(op, ast.In):
        return contains(run, b, a)
    if isinstance(op, ast.NotIn):
        r = contains(run, b, a)
        return (not r) if isinstance(r, bool) else mkb(z3.simplify(z3.Not(zb(r))))
    f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)]
    if concrete(a) and concrete(b):
        try:
            return f(a, b)
        except Exception as e:
            raise PyExc(e)
    num = (int, SymInt, SymBool)
    if isinstance(a, num + (float,)) and isinstance(b, num + (float,)):
        return mkb(z3.simplify(f(zi(a), zi(b))))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Opaque) and "cmp" in x.ghost:
            return x.ghost["cmp"](run, op, a, b)
    raise Unsupported("comparison of %r and %r" % (a, b))


def contains(run, c, x):
    if run.is_strlike(c):
        if concrete(c) and concrete(x):
            return x in c
        if not run.is_strlike(x):
            run.throw(TypeError, "in <string> requires string")
        return mkb(z3.simplify(z3.Contains(zs(c), zs(x))))
    if isinstance(c, SymDict):
        return dict_find(run, c, x) is not MISSING
    if isinstance(c, SymSet):
        return mkb(z3.simplify(c.mem(zs(x))))
    if isinstance(c, Obj):
        m = run.class_attr(c, "__contains__")
        if m is not MISSING:
            return run.call(Bound(c, m), [x], {})
    if isinstance(c, Opaque) and "contains" in c.ghost:
        return c.ghost["contains"](run, c, x)
    if isinstance(c, (type({}.keys()), type({}.values()))):
        c = list(c)
    if isinstance(c, (SymList, SymTuple, tuple, list, set, frozenset, dict)):
        if concrete(c) and concrete(x):
            try:
                return x in c
            except Exception as e:
                raise PyExc(e)
        rs = []
        for y in (c.items if isinstance(c, (SymList, SymTuple)) else c):
            if isinstance(y, Seg):
                if "contains" in y.ghost:
                    r = y.ghost["contains"](run, y, x)
                else:
                    raise Unsupported("membership in a sequence of unknown content")
            else:
                r = mkb(run.is_(x, y)) if isinstance(x, HeapObj) and isinstance(y, HeapObj) else run.eq(x, y)
            if r is True:
                return True
            if r is not False:
                rs.append(zb(r))
        return mkb(z3.simplify(z3.Or(rs))) if rs else False
    raise Unsupported("membership in %r" % (c,))


# --------------------------------------------------------------------------- sets
def make_set(run, items, base=None):
    s = SymSet()
    elems = []
    if all(isinstance(x, (str, SymStr)) or run.is_strlike(x) for x in items if not isinstance(x, Seg)) and not any(isinstance(x, Seg) and "mem" not in x.ghost for x in items):
        mems = [x.ghost["mem"] for x in items if isinstance(x, Seg)]
        elems = [zs(x) for x in items if not isinstance(x, Seg)]
        s.mem = lambda k, elems=elems, mems=mems: z3.Or([k == e for e in elems] + [m(k) for m in mems]) if elems or mems else z3.BoolVal(False)
        s.elems = list(items)
        return s
    if concrete(items):
        return set(items)
    raise Unsupported("set of %r" % (items,))


def set_mem(run, v):
    if isinstance(v, SymSet):
        return v.mem
    if isinstance(v, (set, frozenset, list, tuple)) and all(isinstance(x, str) for x in v):
        return lambda k, v=tuple(v): z3.Or([k == zs(x) for x in v]) if v else z3.BoolVal(False)
    if isinstance(v, (SymList, SymTuple, tuple, list)):
        return make_set(run, run.items_of(v)).mem
    if isinstance(v, SymDict):
        return make_set(run, run.iter_items(v)).mem
    raise Unsupported("set operation with %r" % (v,))


def set_op(run, kind, a, b):
    m, n = set_mem(run, a), set_mem(run, b)
    s = SymSet()
    s.elems = None
    s.mem = {"diff": lambda k: z3.And(m(k), z3.Not(n(k))), "union": lambda k: z3.Or(m(k), n(k)), "inter": lambda k: z3.And(m(k), n(k))}[kind]
    return s


def set_method(run, v, name):
    if name in ("union", "difference", "intersection"):
        def f(run, a, k):
            r = v
            for x in a:
                r = set_op(run, {"union": "union", "difference": "diff", "intersection": "inter"}[name], r, x)
            return r
        return Native(f, "set." + name)
    if name == "copy":
        def f(run, a, k):
            s = SymSet()
            s.mem, s.elems = v.mem, getattr(v, "elems", None)
            return s
        return Native(f, "set.copy")
    if name in ("add", "discard", "remove", "update", "difference_update", "intersection_update", "clear"):
        def f(run, a, k):
            run.mutate(v)
            m = v.mem
            if name in ("add", "discard", "remove"):
                e = zs(a[0])
                if name == "remove" and not run.truth(mkb(z3.simplify(m(e)))):
                    run.throw(KeyError, a[0])
                v.mem = (lambda k: z3.Or(k == e, m(k))) if name == "add" else (lambda k: z3.And(k != e, m(k)))
                el = getattr(v, "elems", None)
                v.elems = el + [a[0]] if el is not None and name == "add" else None
            elif name == "clear":
                v.mem = lambda k: z3.BoolVal(False)
            else:
                r = v
                for x in a:
                    r = set_op(run, {"update": "union", "difference_update": "diff", "intersection_update": "inter"}[name], r, x)
                v.mem = r.mem
                v.elems = None
        return Native(f, "set." + name)
    return None


# --------------------------------------------------------------------------- dicts
def base_lookup(run, base, key):
    for ent in base.memo:
        if run.truth(run.eq(ent[0], key)):
            return ent[2] if ent[1] else MISSING
    present = run.fork(z3.Bool(run.name("%s has key" % base.name)))
    val = base.mkval(run, key, run.name("%s[...]" % base.name)) if present else MISSING
    base.memo.append((key, present, val))
    return val


def dict_find(run, d, key):
    """value or MISSING"""
    if isinstance(d, dict):
        if concrete(key):
            try:
                return run.lift(d[key]) if key in d else MISSING
            except TypeError as e:
                raise PyExc(e)
        for k, v in d.items():
            if run.truth(run.eq(k, key)):
                return v
        return MISSING
    for k, v in reversed(d.writes):
        if run.truth(run.eq(k, key)):
            return MISSING if v is DELETED else v
    if d.base is None:
        return MISSING
    return base_lookup(run, d.base, key)


def dict_copy(run, d):
    if isinstance(d, dict):
        return SymDict(entries=list(d.items()))
    n = SymDict(d.base, d.writes, d.cls)
    return n


def dict_entries(run, d):
    """live (key, value) pairs in insertion order, for dicts without an unknown base"""
    if isinstance(d, dict):
        return [(k, run.lift(v)) for k, v in d.items()]
    if d.base is not None:
        if d.writes:
            raise Unsupported("iteration over a changed unknown dict")
        return [d.base.seg(run)]
    out = []
    for k, v in d.writes:
        for i, (k2, v2) in enumerate(out):
            if run.truth(run.eq(k2, k)):
                if v is DELETED:
                    del out[i]
                else:
                    out[i] = (k2, v)
                break
        else:
            if v is not DELETED:
                out.append((k, v))
    return out


def dict_items(run, d, kind):
    out = []
    for e in dict_entries(run, d):
        if isinstance(e, Seg):
            if kind == "items":
                out.append(e)
            else:
                k = 0 if kind == "keys" else 1
                s = Seg(e.name + "." + kind, lambda run, nm, e=e, k=k: e.mk(run, nm)[k], **{g: v for g, v in e.ghost.items() if g == "mem" and kind == "keys"})
                s.nonempty = e.nonempty
                out.append(s)
        else:
            out.append(e if kind == "items" else e[0 if kind == "keys" else 1])
    return out


def dict_update(run, d, other):
    run.mutate(d)
    if isinstance(other, (SymDict, dict)):
        if isinstance(other, SymDict) and other.base is not None:
            if other.writes:
                raise Unsupported("update with a changed unknown dict")
            if d.base is None and not d.writes:
                d.base = other.base
                return
            d.base, d.writes = LayeredBase(d.base, list(d.writes), other.base), []
            return
        for k, v in dict_entries(run, other):
            d.writes.append((k, v))
        return
    if isinstance(other, Opaque) and "update" in other.ghost:
        other.ghost["update"](run, d, other)
        return
    for pair in run.iter_items(other):
        if isinstance(pair, Seg):
            raise Unsupported("update with unknown pairs")
        kv = run.iter_items(pair)
        d.writes.append((kv[0], kv[1]))


class LayeredBase:
    """content of a dict after update with an unknown dict: the upper one first, then the lower"""
    def __init__(self, low, writes, up):
        self.low, self.lwrites, self.up = low, writes, up
        self.name = "%s+%s" % (getattr(low, "name", "{}"), up.name)

    @property
    def memo(self):
        return []

    def mkval(self, run, key, name):
        raise AssertionError


_orig_base_lookup = base_lookup


def base_lookup(run, base, key):
    if isinstance(base, LayeredBase):
        v = base_lookup(run, base.up, key)
        if v is not MISSING:
            return v
        for k, v in reversed(base.lwrites):
            if run.truth(run.eq(k, key)):
                return MISSING if v is DELETED else v
        return base_lookup(run, base.low, key) if base.low is not None else MISSING
    if hasattr(base, "lookup"):
        return base.lookup(run, key)
    return _orig_base_lookup(run, base, key)


def dict_method(run, v, name):
    if name == "get":
        def f(run, a, k):
            r = dict_find(run, v, a[0])
            return r if r is not MISSING else (a[1] if len(a) > 1 else k.get("default"))
        return Native(f, "dict.get")
    if name in ("items", "keys", "values"):
        def f(run, a, k):
            return SymTuple(dict_items(run, v, name), kind="dict_" + name)
        return Native(f, "dict." + name)
    if name == "copy":
        return Native(lambda run, a, k: dict_copy(run, v), "dict.copy")
    if isinstance(v, dict):
        return None
    if name == "update":
        def f(run, a, k):
            for x in a:
                dict_update(run, v, x)
            run.mutate(v)
            for kk, vv in k.items():
                v.writes.append((kk, vv))
        return Native(f, "dict.update")
    if name == "pop":
        def f(run, a, k):
            r = dict_find(run, v, a[0])
            if r is MISSING:
                if len(a) > 1:
                    return a[1]
                run.throw(KeyError, a[0])
            run.mutate(v)
            v.writes.append((a[0], DELETED))
            return r
        return Native(f, "dict.pop")
    if name == "setdefault":
        def f(run, a, k):
            r = dict_find(run, v, a[0])
            if r is not MISSING:
                return r
            val = a[1] if len(a) > 1 else None
            run.mutate(v)
            v.writes.append((a[0], val))
            return val
        return Native(f, "dict.setdefault")
    if name == "clear":
        def f(run, a, k):
            run.mutate(v)
            v.writes, v.base = [], None
        return Native(f, "dict.clear")
    if name in ("__contains__",):
        return Native(lambda run, a, k: contains(run, v, a[0]), "dict.__contains__")
    if name == "__getitem__":
        return Native(lambda run, a, k: getitem(run, v, a[0]))
    if name == "__setitem__":
        return Native(lambda run, a, k: setitem(run, v, a[0], a[1]))
    return None


# --------------------------------------------------------------------------- lists
def list_method(run, v, name):
    def need_mut():
        run.mutate(v)
    if name == "append":
        def f(run, a, k):
            need_mut()
            v.items = v.items + [a[0]]
        return Native(f, "list.append")
    if name in ("extend", "extendleft"):
        def f(run, a, k):
            need_mut()
            it = list(run.iter_items(a[0]))
            if name == "extendleft":
                v.items = [run.reverse_item(x) for x in reversed(it)] + v.items
            else:
                v.items = v.items + it
        return Native(f, "list.extend")
    if name in ("pop", "popleft"):
        def f(run, a, k):
            need_mut()
            i = 0 if name == "popleft" else (a[0] if a else -1)
            if not v.items:
                run.throw(IndexError, "pop from empty list")
            if not isinstance(i, int) or i not in (0, -1):
                if any(isinstance(x, Seg) for x in v.items) or not isinstance(i, int):
                    raise Unsupported("list.pop(%r)" % (i,))
            v.items = run.expand(v.items, i == -1)
            if not v.items:
                run.throw(IndexError, "pop from empty list")
            x = v.items[i]
            v.items = list(v.items)
            del v.items[i]
            return x
        return Native(f, "list.pop")
    if name == "insert":
        def f(run, a, k):
            need_mut()
            if a[0] == 0:
                v.items = [a[1]] + v.items
                return
            if any(isinstance(x, Seg) for x in v.items) or not isinstance(a[0], int):
                raise Unsupported("list.insert")
            v.items = list(v.items)
            v.items.insert(a[0], a[1])
        return Native(f, "list.insert")
    if name == "appendleft":
        def f(run, a, k):
            need_mut()
            v.items = [a[0]] + v.items
        return Native(f, "deque.appendleft")
    if name == "clear":
        def f(run, a, k):
            need_mut()
            v.items = []
        return Native(f, "list.clear")
    if name == "copy":
        return Native(lambda run, a, k: SymList(v.items), "list.copy")
    if name == "reverse":
        def f(run, a, k):
            need_mut()
            v.items = [run.reverse_item(x) for x in v.items[::-1]]
        return Native(f, "list.reverse")
    if name == "index":
        def f(run, a, k):
            for i, x in enumerate(v.items):
                if isinstance(x, Seg):
                    raise Unsupported("index in an unknown sequence")
                if run.truth(run.eq(x, a[0])):
                    return i
            run.throw(ValueError, "not in list")
        return Native(f, "list.index")
    return None


def seq_cut(run, items, i):
    """number of items before position i, when i provably falls between two of them"""
    for k in range(len(items) + 1):
        n = run.length(items[:k])
        d = z3.simplify(zi(i) == n)
        if z3.is_true(d) or (not z3.is_false(d) and run.solver.check(z3.Not(d)) == z3.unsat):
            return k
    return None


def m_enumerate(run, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    items = list(run.iter_items(a[0]))
    if not any(isinstance(x, Seg) for x in items):
        return SymTuple([(mki(z3.simplify(zi(start) + n)), x) for n, x in enumerate(items)], kind="generator")
    t = SymTuple(items, kind="enumerate")
    t.start = start
    return t


def seq_index(run, items, i):
    segs = [k for k, x in enumerate(items) if isinstance(x, Seg)]
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int):
        if not segs:
            if -len(items) <= i < len(items):
                return items[i]
            run.throw(IndexError, "index out of range")
        if i >= 0 and i < segs[0]:
            return items[i]
        if i < 0 and -i <= len(items) - 1 - segs[-1]:
            return items[i]
        if i in (0, -1):
            it = run.expand(items, i == -1)
            if not it:
                run.throw(IndexError, "index out of range")
            return it[i]
        if -4 <= i <= 3:
            it = run.expand(items, i < 0)
            if not it:
                run.throw(IndexError, "index out of range")
            return seq_index(run, it[1:], i - 1) if i > 0 else seq_index(run, it[:-1], i + 1)
    raise Unsupported("index %r into a sequence of unknown length" % (i,))


# --------------------------------------------------------------------------- subscripts
def norm_index(run, i, n, default):
    """clamped slice bound as z3 Int"""
    if i is None:
        return default
    if isinstance(i, int) and not isinstance(i, bool):
        if i >= 0:
            return z3.If(z3.IntVal(i) > n, n, z3.IntVal(i)) if i else z3.IntVal(0)
        return z3.If(n + i < 0, z3.IntVal(0), n + i)
    t = zi(i)
    if run.solver.check(z3.Not(z3.And(t >= 0, t <= n))) == z3.unsat:
        return t
    return z3.If(t < 0, z3.If(n + t < 0, z3.IntVal(0), n + t), z3.If(t > n, n, t))


def sub(run, t, a, b):
    """t[a:b] for 0 <= a, b <= len(t): parts of the concatenation where the bounds fall between parts"""
    parts = parts_of(t)
    if len(parts) <= 6:
        cuts = [z3.IntVal(0)]
        for p in parts:
            cuts.append(cuts[-1] + z3.Length(p))

        def cut(x):
            for k, c in enumerate(cuts):
                if z3.is_true(z3.simplify(x == c)):
                    return k
            if len(parts) > 1 or not z3.is_int_value(x):
                for k, c in enumerate(cuts):
                    if run.solver.check(x != c) == z3.unsat:
                        return k
            return None
        i = cut(a)
        if i is not None:
            j = cut(b)
            if j is not None:
                return concat(*parts[i:j]) if j > i else z3.StringVal("")
    return z3.simplify(z3.SubString(t, a, z3.If(b - a < 0, z3.IntVal(0), b - a)))


def getitem(run, o, i):
    if isinstance(o, Obj):
        m = run.class_attr(o, "__getitem__")
        if isinstance(m, (types.FunctionType, Closure, Native)):
            return run.call(Bound(o, m), [i], {})
        if o.sval is not None:
            return getitem(run, o.sval, i)
        raise Unsupported("subscript of %r" % (o,))
    if isinstance(o, Opaque):
        if "getitem" in o.ghost:
            return o.ghost["getitem"](run, o, i)
        raise Unsupported("subscript of %r" % (o,))
    if isinstance(o, (SymDict, dict)):
        r = dict_find(run, o, i)
        if r is MISSING:
            run.throw(KeyError, i)
        return r
    if isinstance(o, (SymList, SymTuple)) or (isinstance(o, (tuple, list)) and not (concrete(o) and concrete(i))):
        items = run.items_of(o)
        if isinstance(i, slice):
            if i.step not in (None, 1, -1):
                raise Unsupported("slice step")
            if i.start is None and i.stop is None:
                if i.step == -1:
                    r = [run.reverse_item(x) for x in list(items)[::-1]]
                else:
                    r = list(items)
            elif not any(isinstance(x, Seg) for x in items) and concrete(i):
                r = list(items)[i]
            elif isinstance(i.start, int) and i.start >= 0 and i.stop is None and not any(isinstance(x, Seg) for x in items[:i.start]) and len(items) >= i.start:
                r = list(items)[i.start:]
            elif isinstance(i.stop, int) and i.stop == 0 and not isinstance(i.start, SymInt):
                r = []
            elif max(abs(b) for b in (i.start, i.stop) if isinstance(b, int)) > 40 if any(isinstance(b, int) for b in (i.start, i.stop)) else False:
                raise Unsupported("long slice of a sequence of unknown length")
            elif isinstance(i.start, int) and i.start > 0 and i.stop is None:
                r = items
                for _ in range(i.start):
                    r = run.expand(r)[1:]
            elif i.start in (None, 0) and isinstance(i.stop, int) and i.stop > 0:
                r, rest = [], items
                for _ in range(i.stop):
                    rest = run.expand(rest)
                    r, rest = r + rest[:1], rest[1:]
            elif i.start in (None, 0) and isinstance(i.stop, int) and i.stop < 0:
                r = items
                for _ in range(-i.stop):
                    r = run.expand(r, True)[:-1]
            elif i.start is None and isinstance(i.stop, int) and i.stop < 0 and not any(isinstance(x, Seg) for x in items[i.stop:]):
                r = list(items)[:i.stop]
            elif isinstance(i.start, int) and i.start < 0 and i.stop is None:
                r, rest = [], items
                for _ in range(-i.start):
                    rest = run.expand(rest, True)
                    r, rest = rest[-1:] + r, rest[:-1]
            elif isinstance(i.start, int) and isinstance(i.stop, int) and (i.start >= 0 or i.stop < 0):
                r = run.items_of(getitem(run, SymList(items), slice(i.start, None) if i.start >= 0 else slice(None, i.stop)))
                r = run.items_of(getitem(run, SymList(r), slice(None, i.stop - i.start if i.stop >= 0 else i.stop) if i.start >= 0 else slice(i.start - i.stop, None))) if i.stop < 0 or i.stop > i.start else []
            else:
                raise Unsupported("slice of a sequence of unknown length")
            if isinstance(o, (SymList, list)):
                return SymList(r)
            return SymTuple(r) if any(isinstance(x, Seg) for x in r) else tuple(r)
        if isinstance(i, (SymInt,)):
            if not any(isinstance(x, Seg) for x in items):
                for k in range(len(items)):
                    if run.truth(mkb(z3.Or(zi(i) == k, zi(i) == k - len(items)))):
                        return items[k]
                run.throw(IndexError, "index")
        return seq_index(run, items, i)
    if isinstance(o, (str, SymStr)):
        if concrete(o) and concrete(i):
            try:
                return o[i]
            except Exception as e:
                raise PyExc(e)
        t = zs(o)
        n = z3.Length(t)
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("string slice with a step")
            a = norm_index(run, i.start, n, z3.IntVal(0))
            b = norm_index(run, i.stop, n, n)
            return mks(sub(run, t, a, b))
        j = zi(i)
        j2 = z3.If(j < 0, n + j, j)
        if not run.truth(mkb(z3.simplify(z3.And(j2 >= 0, j2 < n)))):
            run.throw(IndexError, "string index out of range")
        return mks(z3.simplify(z3.SubString(t, j2, 1)))
    if concrete(o) and concrete(i):
        try:
            return run.lift(o[i])
        except Exception as e:
            raise PyExc(e)
    raise Unsupported("subscript of %r" % (o,))


def setitem(run, o, i, v):
    if isinstance(o, SymDict):
        run.mutate(o)
        o.writes.append((i, v))
        return
    if isinstance(o, SymList):
        run.mutate(o)
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                o.items = list(run.iter_items(v))
                return
            if not any(isinstance(x, Seg) for x in o.items) and concrete(i):
                items = list(o.items)
                items[i] = run.iter_items(v)
                o.items = items
                return
            # l[i:j] = v with positions found by enumerate(): they must fall between items
            if i.step is not None:
                raise Unsupported("slice step")
            items = list(o.items)
            a = 0 if i.start is None else seq_cut(run, items, i.start)
            b = len(items) if i.stop is None else seq_cut(run, items, i.stop)
            if a is None or b is None:
                raise Unsupported("slice assignment on a sequence of unknown length")
            o.items = items[:a] + list(run.iter_items(v)) + items[max(a, b):]
            return
        seq_index(run, o.items, i)
        o.items = list(o.items)
        o.items[i] = v
        return
    if isinstance(o, Obj):
        m = run.class_attr(o, "__setitem__")
        if isinstance(m, (types.FunctionType, Closure, Native)):
            return run.call(Bound(o, m), [i, v], {})
    if isinstance(o, Opaque) and "setitem" in o.ghost:
        run.mutate(o)
        return o.ghost["setitem"](run, o, i, v)
    raise Unsupported("item assignment on %r" % (o,))


def delitem(run, o, i):
    if isinstance(o, SymDict):
        if dict_find(run, o, i) is MISSING:
            run.throw(KeyError, i)
        run.mutate(o)
        o.writes.append((i, DELETED))
        return
    if isinstance(o, SymList) and isinstance(i, int):
        run.mutate(o)
        seq_index(run, o.items, i)
        o.items = list(o.items)
        del o.items[i]
        return
    raise Unsupported("del item of %r" % (o,))


# --------------------------------------------------------------------------- strings
WS = z3.Union(z3.Re(" "), z3.Range("\t", "\r"), z3.Range("\\u{1c}", "\\u{1f}"), z3.Re("\\u{85}"), z3.Re("\\u{a0}"), z3.Re("\\u{1680}"),
              z3.Range("\\u{2000}", "\\u{200a}"), z3.Re("\\u{2028}"), z3.Re("\\u{2029}"), z3.Re("\\u{202f}"), z3.Re("\\u{205f}"), z3.Re("\\u{3000}"))
_strip = z3.Function("strip", StrS, StrS)


def char_class(run, a):
    """the characters that strip removes"""
    if not a or a[0] is None:
        return WS, ""
    if not isinstance(a[0], str):
        raise Unsupported("strip with unknown characters")
    cs = sorted(set(a[0]))
    rs = [z3.Re(z3.StringVal(_enc(c))) for c in cs]
    return (rs[0] if len(rs) == 1 else z3.Union(*rs)) if rs else z3.Empty(z3.ReSort(StrS)), "<%s>" % "".join(cs)
_nl = {}
BLANK = z3.Function("only white space", z3.StringSort(), z3.BoolSort())     # known to be in WS*


def count_fn(ch):
    k = ord(ch)
    if ("count", k) not in _nl:
        _nl["count", k] = z3.Function("count!%d" % k, StrS, IntS)
        _nl["rfind", k] = z3.Function("rfind!%d" % k, StrS, IntS)
    return _nl["count", k], _nl["rfind", k]


def char_count(run, ch, t):
    """number of occurrences of ch in t and the index of the last one: laws of single characters over concatenation"""
    cf, rf = count_fn(ch)
    parts = parts_of(t)
    total, last, offset = z3.IntVal(0), z3.IntVal(-1), z3.IntVal(0)
    for p in parts:
        if z3.is_string_value(p):
            s = dec(p)
            c, r, ln = z3.IntVal(s.count(ch)), z3.IntVal(s.rfind(ch)), z3.IntVal(len(s))
        else:
            c, r, ln = cf(p), rf(p), z3.Length(p)
            run.axiom(z3.And(c >= 0, r >= -1, r < ln, (c == 0) == (r == -1), c <= ln))
        total = total + c
        last = z3.If(c > 0, offset + r, last)
        offset = offset + ln
    return z3.simplify(total), z3.simplify(last)


STR_PREDICATES = {"isidentifier", "isalnum", "isalpha", "isascii", "isdecimal", "isdigit", "islower", "isnumeric", "isprintable", "istitle", "isupper"}


def str_method(run, v, name):
    t = zs(v)
    if name == "replace":
        def f(run, a, k):
            old, new = a[0], a[1]
            count = a[2] if len(a) > 2 else k.get("count", -1)
            if isinstance(old, str) and len(old) == 1 and isinstance(new, str) and count == -1:
                return mks(hom({old: new}, t))
            if count == 1:
                # a leading occurrence is the first one: what follows is the rest (a fact of str.replace, stated for the solver)
                r, o = z3.simplify(z3.Replace(t, zs(old), zs(new))), zs(old)
                if not concrete(old):
                    rest = z3.String(run.name("rest"))
                    run.axiom(z3.Implies(z3.PrefixOf(o, t), z3.And(t == z3.Concat(o, rest), r == z3.Concat(zs(new), rest))))
                return mks(r)
            if count == -1 and isinstance(old, str) and isinstance(new, str) and old:
                fn = z3.Function("replace_all<%s,%s>" % (old, new), StrS, StrS)
                ps = parts_of(t)
                if z3.is_string_value(ps[0]) and dec(ps[0]).startswith(old):
                    # scanning from the left: a leading occurrence is replaced, the rest follows
                    rest = concat(z3.StringVal(_enc(dec(ps[0])[len(old):])), *ps[1:])
                    if z3.is_string_value(rest):
                        return mks(concat(zs(new), zs(dec(rest).replace(old, new))))
                    return mks(concat(zs(new), zs(str_method(run, SymStr(rest), "replace").f(run, [old, new], {}))))
                run.axiom(z3.Implies(z3.Not(z3.Contains(t, zs(old))), fn(t) == t))
                if old not in new and not any(new.endswith(old[:i]) or new.startswith(old[i:]) for i in range(1, len(old))):
                    run.axiom(z3.Not(z3.Contains(fn(t), zs(old))))
                return mks(fn(t))
            raise Unsupported("str.replace")
        return Native(f, "str.replace")
    if name in STR_PREDICATES:
        # what characters a text is made of: decided for known text, otherwise a predicate of the text
        def f(run, a, k):
            return getattr(dec(t), name)() if z3.is_string_value(t) else mkb(z3.Function("str." + name, StrS, BoolS)(t))
        return Native(f, "str." + name)
    if name in ("startswith", "endswith"):
        def f(run, a, k):
            opts = a[0] if isinstance(a[0], tuple) else (a[0],)
            if len(a) == 2 and name == "startswith" and all(isinstance(x, str) and x for x in opts):
                # what is not empty starts nowhere outside the text, and a position below zero counts from the end
                p = zi(a[1])
                n = z3.Length(t)
                p = z3.If(p >= 0, p, z3.If(p + n > 0, p + n, z3.IntVal(0)))
                return mkb(z3.simplify(z3.Or([z3.SubString(t, p, len(x)) == zs(x) for x in opts])))
            if len(a) > 1:
                raise Unsupported("startswith with a position")
            rs = [z3.PrefixOf(zs(x), t) if name == "startswith" else z3.SuffixOf(zs(x), t) for x in opts]
            return mkb(z3.simplify(z3.Or(rs)))
        return Native(f, "str." + name)
    if name == "strip":
        def f(run, a, k):
            WS, cs = char_class(run, a)
            r = z3.Function("strip" + cs, StrS, StrS)(t) if cs else _strip(t)
            key = ("strip" + cs, t.get_id())
            if key not in run.memo:
                run.memo[key] = t
                l, rr = z3.String(run.name("lead")), z3.String(run.name("trail"))
                run.axiom(z3.And(t == z3.Concat(l, r, rr), z3.InRe(l, z3.Star(WS)), z3.InRe(rr, z3.Star(WS)),
                                 (r == z3.StringVal("")) == z3.InRe(t, z3.Star(WS)),
                                 z3.Not(z3.InRe(z3.SubString(r, 0, 1), WS)), z3.Not(z3.InRe(z3.SubString(r, z3.Length(r) - 1, 1), WS))))
            return mks(r)
        return Native(f, "str.strip")
    if name in ("rstrip", "lstrip"):
        def f(run, a, k):
            WS, cs = char_class(run, a)
            r = z3.Function(name + cs, StrS, StrS)(t)
            key = (name + cs, t.get_id())
            if key not in run.memo:
                run.memo[key] = t
                w = z3.SubString(t, z3.Length(r), z3.Length(t) - z3.Length(r)) if name == "rstrip" else z3.SubString(t, 0, z3.Length(t) - z3.Length(r))
                run.axiom(z3.And(t == (z3.Concat(r, w) if name == "rstrip" else z3.Concat(w, r)), z3.InRe(w, z3.Star(WS)), *([] if cs else [BLANK(w)]),
                                 z3.Not(z3.InRe(z3.SubString(r, z3.Length(r) - 1 if name == "rstrip" else 0, 1), WS))))
            return mks(r)
        return Native(f, "str." + name)
    if name == "join":
        def f(run, a, k):
            items = list(run.iter_items(a[0]))
            if isinstance(v, str) and (v == "" or len(items) <= 1 and not any(isinstance(x, Seg) for x in items)):
                for x in items:
                    if not isinstance(x, Seg) and not run.is_strlike(x):
                        if isinstance(x, Opaque) and "strval" in x.ghost:
                            continue
                        run.throw(TypeError, "sequence item: expected str instance")
                return mks(run.fold_term(run.JOIN, items))
            if any(isinstance(x, Seg) for x in items):
                if getattr(run, "on_join", None) is not None:
                    return run.on_join(run, v, items)
                raise Unsupported("join of an unknown sequence with a separator")
            out = []
            for i, x in enumerate(items):
                if i:
                    out.append(t)
                out.append(zs(x))
            return mks(concat(*out))
        return Native(f, "str.join")
    if name == "count":
        def f(run, a, k):
            if not (isinstance(a[0], str) and len(a[0]) == 1 and len(a) == 1):
                raise Unsupported("str.count")
            return mki(char_count(run, a[0], t)[0])
        return Native(f, "str.count")
    if name == "rfind":
        def f(run, a, k):
            if not (isinstance(a[0], str) and len(a[0]) == 1 and len(a) == 1):
                raise Unsupported("str.rfind")
            return mki(char_count(run, a[0], t)[1])
        return Native(f, "str.rfind")
    if name in ("find", "index"):
        def f(run, a, k):
            start = zi(a[1]) if len(a) > 1 else z3.IntVal(0)
            if len(a) > 2:
                raise Unsupported("str.find with an end")
            r = z3.simplify(z3.IndexOf(t, zs(a[0]), start))
            if name == "index":
                if run.truth(mkb(z3.simplify(r < 0))):
                    run.throw(ValueError, "substring not found")
            return mki(r)
        return Native(f, "str.find")
    if name == "partition":
        def f(run, a, k):
            s = zs(a[0])
            if run.truth(mkb(z3.simplify(z3.Contains(t, s)))):
                pre, post = first_split(run, t, a[0])
                return (pre, a[0], post)
            return (v, "", "")
        return Native(f, "str.partition")
    if name == "rpartition":
        def f(run, a, k):
            s = zs(a[0])
            if not (isinstance(a[0], str) and len(a[0]) == 1):
                raise Unsupported("str.rpartition")
            if run.truth(mkb(z3.simplify(z3.Contains(t, s)))):
                pre, post = z3.String(run.name("before the last")), z3.String(run.name("after the last"))
                run.assume([t == z3.Concat(pre, s, post), z3.Not(z3.Contains(post, s))])
                return (mks(pre), a[0], mks(post))
            return ("", "", v)
        return Native(f, "str.rpartition")
    if name in ("lower", "upper", "title"):
        fn = z3.Function("str_" + name, StrS, StrS)
        return Native(lambda run, a, k: mks(fn(t)), "str." + name)
    if name == "format":
        def f(run, a, k):
            if not isinstance(v, str):
                raise Unsupported("format of a symbolic string")
            out, pos, n = [], 0, 0
            for m in re.finditer(r"\{\{|\}\}|\{(\w*)(!r)?\}", v):
                out.append(v[pos:m.start()])
                pos = m.end()
                if m.group(0) in ("{{", "}}"):
                    out.append(m.group(0)[0])
                    continue
                g = m.group(1)
                if g == "":
                    x = a[n]
                    n += 1
                elif g.isdigit():
                    x = a[int(g)]
                else:
                    x = k[g]
                out.append(to_repr(run, x) if m.group(2) else to_str(run, x))
            out.append(v[pos:])
            return mks(concat(*[zs(x) for x in out]))
        return Native(f, "str.format")
    if name == "split":
        def f(run, a, k):
            if len(a) == 2 and isinstance(a[1], int):
                k, a = dict(k, maxsplit=a[1]), a[:1]
            if a == [None] and k.get("maxsplit") == 1:
                known = run.split1(run, t) if run.split1 is not None else None
                if known is not None:
                    return SymList(known)
                # the first word and what follows the white space after it
                key = ("split1", t.get_id())
                if key not in run.memo:
                    run.memo[key] = (t, [z3.String(run.name(n)) for n in ("lead", "word", "gap", "after")])
                l, w, g, r = run.memo[key][1]
                if run.fork(z3.InRe(t, z3.Star(WS))):
                    return SymList([])
                run.axiom(z3.And(t == z3.Concat(l, w, g, r), z3.InRe(l, z3.Star(WS)), z3.InRe(w, z3.Plus(z3.Intersect(z3.AllChar(z3.ReSort(z3.StringSort())), z3.Complement(WS)))), z3.InRe(g, z3.Star(WS)),
                                 z3.Not(z3.InRe(z3.SubString(r, 0, 1), WS)), z3.Implies(g == z3.StringVal(""), r == z3.StringVal(""))))
                if run.fork(r == z3.StringVal("")):
                    return SymList([mks(w)])
                return SymList([mks(w), mks(r)])
            if len(a) != 1 or not isinstance(a[0], str) or not a[0] or k.get("maxsplit", -1) not in (-1, 1):
                raise Unsupported("str.split")
            s = zs(a[0])
            if k.get("maxsplit") == 1:
                if not run.truth(mkb(z3.simplify(z3.Contains(t, s)))):
                    return SymList([v])
                return SymList(list(first_split(run, t, a[0])))
            if not run.truth(mkb(z3.simplify(z3.Contains(t, s)))):
                return SymList([v])
            return SymList([mks(z3.simplify(z3.SubString(t, 0, z3.IndexOf(t, s, 0)))), Seg(run.name("further parts"), lambda run, nm: run.str(nm))])
        return Native(f, "str.split")
    if name == "splitlines":
        raise Unsupported("str." + name)
    if name == "__getitem__":
        return Native(lambda run, a, k: getitem(run, v, a[0]), "str.__getitem__")
    if name == "__str__":
        return Native(lambda run, a, k: v)
    return None


def method(run, v, name):
    if isinstance(v, slice) and name == "indices" and not concrete(v):
        def f(run, a, k):
            n = zi(a[0])
            if v.step not in (None, 1):
                raise Unsupported("slice step")
            return (mki(z3.simplify(norm_index(run, v.start, n, z3.IntVal(0)))), mki(z3.simplify(norm_index(run, v.stop, n, n))), 1)
        return Native(f, "slice.indices")
    if isinstance(v, slice) and name == "indices":
        def f(run, a, k):
            if concrete(a[0]):
                return v.indices(a[0])
            n = zi(a[0])
            if v.step not in (None, 1):
                raise Unsupported("slice step")
            return (mki(z3.simplify(norm_index(run, v.start, n, z3.IntVal(0)))), mki(z3.simplify(norm_index(run, v.stop, n, n))), 1)
        return Native(f, "slice.indices")
    if isinstance(v, str):
        def f(run, a, k):
            if all(concrete(x) for x in a) and all(concrete(x) for x in k.values()):
                try:
                    return getattr(v, name)(*a, **k)
                except Exception as e:
                    raise PyExc(e)
            m = str_method(run, v, name)
            if m is None:
                raise Unsupported("str.%s" % name)
            return m.f(run, a, k)
        if hasattr(str, name) and callable(getattr(str, name)):
            return Native(f, "str." + name)
        return None
    if isinstance(v, SymStr):
        return str_method(run, v, name)
    if isinstance(v, SymList):
        return list_method(run, v, name)
    if isinstance(v, SymDict):
        return dict_method(run, v, name)
    if isinstance(v, SymSet):
        return set_method(run, v, name)
    if isinstance(v, SymTuple) and name == "__iter__":
        return Native(lambda run, a, k: v)
    return None


# --------------------------------------------------------------------------- native calls
PURE_MODULES = {"builtins", "re", "_operator", "operator", "string", "keyword", "errno", "itertools", "unicodedata", "html", "_sre"}


def call_native(run, f, args, kwargs):
    slf = getattr(f, "__self__", None)
    name = getattr(f, "__name__", None)
    if isinstance(f, types.BuiltinFunctionType) and slf is not None and not isinstance(slf, types.ModuleType):
        if all(concrete(x) for x in args) and all(concrete(x) for x in kwargs.values()) and isinstance(slf, (str, bytes, tuple, frozenset, int, float, re.Pattern, re.Match, dict, list, set)):
            if isinstance(slf, (dict, list, set)) and name not in ("get", "items", "keys", "values", "copy", "index", "count", "__contains__", "__getitem__"):
                return MISSING
            try:
                r = f(*args, **kwargs)
            except Exception as e:
                raise PyExc(e)
            return r
        if isinstance(slf, dict):
            m = dict_method(run, slf, name)
            if m is not None:
                return m.f(run, args, kwargs)
        if isinstance(slf, (frozenset, tuple)) and name == "__contains__" and len(args) == 1:
            return contains(run, slf, args[0])
        if isinstance(slf, str):
            m = str_method(run, slf, name)
            if m is not None:
                return m.f(run, args, kwargs)
        if isinstance(slf, re.Pattern):
            from . import regexm
            return regexm.call(run, slf, name, args, kwargs)
        return MISSING
    if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)) and args:
        # str.join(x, y), str.__getitem__(s, i) ...
        o = args[0]
        if isinstance(o, Obj) and o.sval is not None and f.__objclass__ is str:
            o = o.sval
        m = method(run, o, name)
        if m is not None:
            return m.f(run, args[1:], kwargs)
    if all(concrete(x) for x in args) and all(concrete(x) for x in kwargs.values()):
        if getattr(f, "__module__", None) in PURE_MODULES:
            try:
                return f(*args, **kwargs)
            except Exception as e:
                raise PyExc(e)
    return MISSING


def m_len(run, a, k):
    v = a[0]
    if isinstance(v, SymStr):
        return mki(z3.simplify(z3.Length(v.t)))
    if isinstance(v, (SymList, SymTuple)):
        if any(isinstance(x, Seg) for x in v.items):
            return mki(run.length(v.items))
        return len(v.items)
    if isinstance(v, SymDict):
        if v.base is None:
            return len(dict_entries(run, v))
        raise Unsupported("len of an unknown dict")
    if isinstance(v, Obj):
        f = run.class_attr(v, "__len__")
        if isinstance(f, (types.FunctionType, Closure)):
            return run.call(Bound(v, f), [], {})
        if v.sval is not None:
            return m_len(run, [v.sval], {})
    if isinstance(v, Opaque) and "len" in v.ghost:
        return v.ghost["len"](run, v)
    if isinstance(v, Sym):
        raise Unsupported("len of %r" % (v,))
    try:
        return len(v)
    except Exception as e:
        raise PyExc(e)


def m_isinstance(run, a, k):
    return mkb(run.isinstance(a[0], a[1]))


def m_issubclass(run, a, k):
    cls = a[1] if isinstance(a[1], tuple) else (a[1],)
    return any(run.issub(a[0], c) for c in cls)


def m_hasattr(run, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("hasattr with a computed name")
    return mkb(run.hasattr(a[0], a[1]))


def m_getattr(run, a, k):
    if not isinstance(a[1], str):
        if isinstance(a[0], Obj) and a[0].dyn is not None:
            r = dict_find(run, a[0].dyn, a[1])
            if r is not MISSING:
                return r
        raise Unsupported("getattr with a computed name")
    if len(a) > 2:
        if isinstance(a[0], Obj):
            h = run.hasattr(a[0], a[1])
            if not run.truth(mkb(h)):
                return a[2]
            return run.getattr(a[0], a[1])
        if isinstance(a[0], (SymStr, SymInt, SymBool, SymList)):
            try:
                return run.getattr(a[0], a[1], default=a[2])
            except PyExc:
                return a[2]
        return run.getattr(a[0], a[1], default=a[2])
    return run.getattr(a[0], a[1])


def m_setattr(run, a, k):
    if isinstance(a[1], str):
        return run.setattr(a[0], a[1], a[2])
    o = a[0]
    if isinstance(o, Obj):
        run.mutate(o)
        if o.dyn is None:
            o.dyn = SymDict()
        o.dyn.writes.append((a[1], a[2]))
        return None
    raise Unsupported("setattr with a computed name")


def m_type(run, a, k):
    if len(a) != 1:
        raise Unsupported("type() with three arguments")
    return run.type_of(a[0])


def m_str(run, a, k):
    if not a:
        return ""
    return to_str(run, a[0])


def m_bool(run, a, k):
    t = run.truth_term(a[0]) if a else False
    return mkb(t)


def m_int(run, a, k):
    if isinstance(a[0], SymInt):
        return a[0]
    if isinstance(a[0], SymBool):
        return mki(zi(a[0]))
    if concrete(a[0]):
        try:
            return int(*a)
        except Exception as e:
            raise PyExc(e)
    raise Unsupported("int()")


def all_items(run, v):
    """the items of v, read to the end; reading a stream to its end may fail"""
    items = list(run.iter_items(v))
    for x in items:
        if isinstance(x, Seg) and "ends" in x.ghost:
            x.ghost["ends"](run)
    return items


def m_list(run, a, k):
    return SymList(all_items(run, a[0]) if a else [])


def m_tuple(run, a, k):
    items = all_items(run, a[0]) if a else []
    return SymTuple(items) if any(isinstance(x, Seg) for x in items) else tuple(items)


def m_dict(run, a, k):
    d = SymDict()
    if a:
        if isinstance(a[0], SymDict):
            d = dict_copy(run, a[0])
            d.cls = dict
        else:
            dict_update(run, d, a[0])
    for kk, v in k.items():
        d.writes.append((kk, v))
    return d


def m_odict(run, a, k):
    d = m_dict(run, a, k)
    d.cls = collections.OrderedDict
    return d


def m_set(run, a, k):
    if not a:
        return make_set(run, [])
    if isinstance(a[0], SymSet):
        s = SymSet()
        s.mem, s.elems = a[0].mem, getattr(a[0], "elems", None)
        return s
    if isinstance(a[0], (set, frozenset)):
        return make_set(run, sorted(a[0])) if all(isinstance(x, str) for x in a[0]) else set(a[0])
    if isinstance(a[0], Opaque) and "set" in a[0].ghost:
        return a[0].ghost["set"](run, a[0])
    return make_set(run, list(run.iter_items(a[0])))


def m_iter(run, a, k):
    v = a[0]
    if isinstance(v, Opaque) and "iter" not in v.ghost:
        raise Unsupported("iter of %r" % (v,))
    return SymTuple(list(run.iter_items(v)), kind="iterator")


def m_zip(run, a, k):
    ls = [run.iter_items(x) for x in a]
    if any(isinstance(x, Seg) for l in ls for x in l):
        raise Unsupported("zip over an unknown sequence")
    return SymTuple([tuple(x) for x in zip(*ls)], kind="iterator")


def m_range(run, a, k):
    if concrete(a):
        return range(*a)
    raise Unsupported("range with an unknown bound")


def m_reversed(run, a, k):
    items = run.iter_items(a[0])
    return SymTuple([run.reverse_item(x) for x in list(items)[::-1]], kind="iterator")


def m_anyall(kind):
    def f(run, a, k):
        for x in run.iter_items(a[0]):
            if isinstance(x, Seg):
                raise Unsupported("any/all over an unknown sequence")
            t = run.truth(x)
            if t and kind == "any":
                return True
            if not t and kind == "all":
                return False
        return kind == "all"
    return f


def m_print(run, a, k):
    return None


def m_partial(run, a, k):
    f, pre, kw = a[0], list(a[1:]), dict(k)
    return Native(lambda run, a2, k2: run.call(f, pre + list(a2), {**kw, **k2}), "partial")


def m_callable(run, a, k):
    v = a[0]
    if isinstance(v, (Closure, Bound, Native, LocalClass)):
        return True
    if isinstance(v, Sym):
        raise Unsupported("callable(%r)" % (v,))
    return callable(v)


def m_strnew(run, a, k):
    cls = a[0]
    val = to_str(run, a[1]) if len(a) > 1 else ""
    if cls is str:
        return val
    return Obj(cls, sval=val)


def m_maxmin(kind):
    def f(run, a, k):
        xs = list(a) if len(a) > 1 else list(run.iter_items(a[0]))
        if concrete(xs):
            return (max if kind == "max" else min)(xs)
        r = zi(xs[0])
        for x in xs[1:]:
            t = zi(x)
            r = z3.If(t > r, t, r) if kind == "max" else z3.If(t < r, t, r)
        return mki(z3.simplify(r))
    return f


def m_object_new(run, a, k):
    return Obj(a[0])


def m_deque(run, a, k):
    return SymList(list(run.iter_items(a[0])) if a else [])


def m_next(run, a, k):
    it = a[0]
    if isinstance(it, SymTuple) and it.kind in ("iterator", "generator"):
        if not it.items:
            if len(a) > 1:
                return a[1]
            run.throw(StopIteration)
        if isinstance(it.items[0], Seg) and it.items[0].name in run.loops:
            raise Unsupported("next() over a sequence whose loop has a contract")
        it.items = run.expand(it.items)
        if not it.items:
            if len(a) > 1:
                return a[1]
            run.throw(StopIteration)
        return it.items.pop(0)
    raise Unsupported("next(%r)" % (it,))


def m_sorted(run, a, k):
    items = all_items(run, a[0])
    if concrete(items) and not k:
        return SymList(sorted(items))
    raise Unsupported("sorted of symbolic values")


def m_repr(run, a, k):
    return to_repr(run, a[0])


def m_id(run, a, k):
    raise Unsupported("id()")


def m_copy_location(run, a, k):
    """ast.copy_location(new, old): the four position attributes, where old has them"""
    new, old = a
    if not isinstance(new, Obj):
        raise Unsupported("copy_location")
    run.mutate(new)
    for at in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
        if isinstance(old, Obj):
            if at in old.fields:
                new.fields[at] = old.fields[at]
            elif old.schema is not None:
                x = old.schema(run, old, at)
                if x is not MISSING:
                    old.fields[at] = x
                    new.fields[at] = x
        elif isinstance(old, Opaque) and "pos" in old.ghost:
            new.fields[at] = (old.ghost["pos"], at)
    return new


def m_exc_info(run, a, k):
    if not run.exc_stack:
        return (None, None, None)
    e = run.exc_stack[-1]
    return (run.type_of(e), e, run.getattr(e, "__traceback__", None))


def m_with_traceback(run, a, k):
    run.setattr(a[0], "__traceback__", a[1])
    return a[0]


def first_split(run, t, sep):
    """what stands before and after the first occurrence of a separator that occurs"""
    if z3.is_string_value(z3.simplify(t)):
        x, _, y = dec(z3.simplify(t)).partition(sep)
        return x, y
    key = ("first split", t.get_id(), sep)
    if key not in run.memo:
        pre, post = z3.String(run.name("before")), z3.String(run.name("after"))
        run.assume([t == z3.Concat(pre, zs(sep), post), z3.Not(z3.Contains(concat(pre, zs(sep[:-1])), zs(sep)))])
        run.memo[key] = (mks(pre), mks(post), t)
    return run.memo[key][:2]


def m_exc_init(run, a, k):
    if isinstance(a[0], Obj):
        run.setattr(a[0], "args", tuple(a[1:]))
        return None
    raise Unsupported("initialization of an exception %r" % (a[0],))


def install(run):
    from .vm import Fold
    global JOIN
    if JOIN is None:
        JOIN = Fold("join", "str", lambda run, x: zs(x) if not isinstance(x, Opaque) else x.ghost["strval"])
    run.JOIN = JOIN
    m = run.models
    for f, g in {len: m_len, isinstance: m_isinstance, issubclass: m_issubclass, hasattr: m_hasattr, getattr: m_getattr, setattr: m_setattr,
                 type: m_type, str: m_str, bool: m_bool, int: m_int, list: m_list, tuple: m_tuple, dict: m_dict, set: m_set, frozenset: m_set,
                 iter: m_iter, enumerate: m_enumerate, zip: m_zip, range: m_range, reversed: m_reversed, any: m_anyall("any"), all: m_anyall("all"),
                 print: m_print, functools.partial: m_partial, callable: m_callable, max: m_maxmin("max"), min: m_maxmin("min"),
                 collections.OrderedDict: m_odict, collections.deque: m_deque, next: m_next, sorted: m_sorted, repr: m_repr, id: m_id,
                 ast.copy_location: m_copy_location, str.__new__: m_strnew, object.__new__: m_object_new,
                 sys.exc_info: m_exc_info, Exception.__init__: m_exc_init, BaseException.__init__: m_exc_init, BaseException.with_traceback: m_with_traceback,
                 collections.OrderedDict.items: lambda run, a, k: dict_method(run, a[0], "items").f(run, [], {})}.items():
        m[f] = g
    m[slice] = lambda run, a, k: slice(*([None] * (1 if len(a) == 1 else 0) + list(a)))
