"""Symbolic values of the executor.

A value is either a plain Python object (a literal, class, function or module of the real program) or one of the classes below.
Heap objects live on the Python side: two symbolic objects are the same object only if the contract says so (ownership
is a stated precondition of every unit). Strings, integers and booleans are z3 terms."""
import z3

StrS, IntS, BoolS = z3.StringSort(), z3.IntSort(), z3.BoolSort()


class Unsupported(Exception):
    """The construct is outside the verifier's subset: a limit of the tool, never a verdict."""


class Sym:
    pass


class SymStr(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SymStr(%s)" % self.t


class SymInt(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SymInt(%s)" % self.t


class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SymBool(%s)" % self.t


_ids = [0]


def new_id():
    _ids[0] += 1
    return _ids[0]


class HeapObj(Sym):
    """Mutable; `oid` orders creation."""
    def __init__(self):
        self.oid = new_id()


class Obj(HeapObj):
    """Instance. `kinds`: the exact classes it may have (one when known). Missing fields of a symbolic object are
    created on first use by `schema(run, obj, attr)` (MISSING when there is no such attribute)."""
    def __init__(self, kinds, fields=None, schema=None, name=None, sval=None):
        super().__init__()
        self.kinds = [kinds] if not isinstance(kinds, list) else list(kinds)
        self.fields = dict(fields or {})
        self.schema = schema
        self.name = name
        self.sval = sval          # value of an instance of a str subclass
        self.ghost = {}
        self.dyn = None           # attributes set under symbolic names

    @property
    def cls(self):
        return self.kinds[0] if len(self.kinds) == 1 else None

    def __repr__(self):
        return "<%s %s #%d>" % ("|".join(getattr(k, "__name__", str(k)) for k in self.kinds[:4]), self.name or "", self.oid)


class Opaque(HeapObj):
    """A value nothing is known about; `ghost` carries what the contract says about it."""
    def __init__(self, name, **ghost):
        super().__init__()
        self.name = name
        self.ghost = ghost
        self.memo = {}

    def __repr__(self):
        return "<opaque %s>" % self.name


class Seg:
    """A run of unknown length inside a sequence. mk(run, name) makes an arbitrary element."""
    def __init__(self, name, mk, **ghost):
        self.name, self.mk, self.ghost = name, mk, ghost
        self.folds = {}
        self.fobj = {}
        self.parts = None        # once split: the items it consists of
        self.rev = None
        self.part = False
        self.uid = new_id()
        self.nonempty = z3.Bool("nonempty!%s#%d" % (name, self.uid))

    def __repr__(self):
        return "Seg(%s)" % self.name


class SymList(HeapObj):
    def __init__(self, items=()):
        super().__init__()
        self.items = list(items)

    def __repr__(self):
        return "SymList(%r)" % (self.items,)


class SymTuple(Sym):
    """Immutable sequence with unknown parts (also results of items(), iterators)."""
    def __init__(self, items, kind="tuple"):
        self.items = list(items)
        self.kind = kind

    def __repr__(self):
        return "SymTuple(%r)" % (self.items,)


class DictBase:
    """The unknown initial content of a map: reads are memoised per key."""
    def __init__(self, name, mkval, keysort="str"):
        self.name, self.mkval = name, mkval
        self.memo = []           # [key, present (bool or z3), value or None]


class SymDict(HeapObj):
    def __init__(self, base=None, entries=(), cls=dict):
        super().__init__()
        self.base = base
        self.writes = list(entries)      # (key, value) or (key, DELETED), oldest first
        self.cls = cls
        self.ghost = {}

    def __repr__(self):
        return "SymDict(%s, %r)" % (self.base and self.base.name, self.writes)


class SymSet(HeapObj):
    """A set: map from elements to membership."""
    def __init__(self, base=None, entries=()):
        super().__init__()
        self.base = base
        self.writes = list(entries)      # (elem, True/False)
        self.ghost = {}


class _Deleted:
    def __repr__(self):
        return "DELETED"


class _Missing:
    def __repr__(self):
        return "MISSING"


class _Poison:
    def __repr__(self):
        return "POISON"


DELETED, MISSING, POISON = _Deleted(), _Missing(), _Poison()


class Closure(Sym):
    def __init__(self, node, mod, frame, qual, defaults=None, kwdefaults=None, pyfn=None, defcls=None):
        self.node, self.mod, self.frame, self.qual = node, mod, frame, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.pyfn, self.defcls = pyfn, defcls
        self.attrs = {}

    def __repr__(self):
        return "Closure(%s)" % self.qual


class Bound(Sym):
    def __init__(self, self_v, fn):
        self.self_v, self.fn = self_v, fn

    def __repr__(self):
        return "Bound(%r, %r)" % (self.self_v, self.fn)


class Native(Sym):
    """A function of the verifier: model of a library function or contract of a callee. f(run, args, kwargs)"""
    def __init__(self, f, name="native"):
        self.f, self.name = f, name

    def __repr__(self):
        return "Native(%s)" % self.name


class LocalClass(Sym):
    def __init__(self, name, bases, ns, frame, qual):
        self.name, self.bases, self.ns, self.frame, self.qual = name, bases, ns, frame, qual
        self.__name__ = name

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, LocalClass) else list(b.__mro__)):
                if c not in out:
                    out.append(c)
        return out


class SuperV(Sym):
    def __init__(self, cls, self_v):
        self.cls, self.self_v = cls, self_v


class PyExc(Exception):
    """An exception raised by the program under verification."""
    def __init__(self, value):
        Exception.__init__(self, repr(value))
        self.value = value


# --------------------------------------------------------------------------- z3 helpers
def is_sym(v):
    return isinstance(v, Sym)


def zs(v):
    """z3 string term of a string value"""
    if isinstance(v, SymStr):
        return v.t
    if isinstance(v, str):
        return z3.StringVal(_enc(v))
    if isinstance(v, Obj) and v.sval is not None:
        return zs(v.sval)
    raise Unsupported("string expected: %r" % (v,))


def _enc(s):
    return "".join(c if " " <= c <= "~" and c != "\\" else "\\u{%x}" % ord(c) for c in s)


def dec(z):
    """Python string of a z3 string value"""
    import re
    s = z.as_string()
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def zi(v):
    if isinstance(v, SymInt):
        return v.t
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        return z3.RealVal(repr(v))
    if isinstance(v, SymBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported("integer expected: %r" % (v,))


def zb(v):
    if isinstance(v, SymBool):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if z3.is_bool(v):
        return v
    raise Unsupported("boolean expected: %r" % (v,))


def mks(t):
    if z3.is_string_value(t):
        return dec(t)
    return SymStr(t)


def mki(t):
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def mkb(t):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def parts_of(t):
    """flattens a concatenation"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in t.children():
            out += parts_of(c)
        return out
    return [t]


def concat(*ts):
    """normalised concatenation of z3 string terms"""
    out = []
    for t in ts:
        for p in parts_of(t):
            if z3.is_string_value(p):
                s = dec(p)
                if s == "":
                    continue
                if out and z3.is_string_value(out[-1]):
                    out[-1] = z3.StringVal(_enc(dec(out[-1]) + s))
                    continue
            out.append(p)
    if not out:
        return z3.StringVal("")
    if len(out) == 1:
        return out[0]
    return z3.Concat(*out)


# --------------------------------------------------------------------------- character maps (homomorphisms on strings)
_homs = {}
_hom_of = {}


def hom_fn(table):
    """uninterpreted function for the character-wise substitution `table` (characters not in it stay)"""
    key = tuple(sorted(table.items()))
    if key not in _homs:
        f = z3.Function("charmap!%d" % len(_homs), StrS, StrS)
        _homs[key] = (f, dict(table))
        _hom_of[f.get_id()] = dict(table)
    return _homs[key][0]


def apply_table(table, s):
    return "".join(table.get(c, c) for c in s)


def compose(first, then):
    out = {c: apply_table(then, r) for c, r in first.items()}
    for c, r in then.items():
        if c not in out:
            out[c] = r
    return {c: r for c, r in out.items() if r != c}


def hom(table, t):
    """table applied to the z3 term t, distributing over concatenation, constants and other character maps"""
    table = {c: r for c, r in table.items() if r != c}
    if not table:
        return t
    out = []
    for p in parts_of(t):
        if z3.is_string_value(p):
            out.append(z3.StringVal(_enc(apply_table(table, dec(p)))))
        elif z3.is_app(p) and p.num_args() == 1 and p.decl().get_id() in _hom_of:
            c = compose(_hom_of[p.decl().get_id()], table)
            out.append(hom(c, p.arg(0)))
        elif z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE:
            out.append(z3.If(p.arg(0), hom(table, p.arg(1)), hom(table, p.arg(2))))
        else:
            out.append(hom_fn(table)(p))
    return concat(*out)


ESC = {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&#34;", "'": "&#39;"}
