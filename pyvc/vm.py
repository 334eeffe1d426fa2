"""Symbolic executor over the repository's own AST: explores every path of a function, loops over unknown sequences by
invariants, contracted callees by contract, and discharges the obligations each path raises."""
import ast
import builtins
import errno
import time
import types
import z3
from . import source
from .sym import *

MAX_STEPS = 400000
MAX_PATHS = 4000


class Return_(Exception):
    def __init__(self, v):
        self.v = v


class Break_(Exception):
    pass


class Continue_(Exception):
    pass


class PathEnd(Exception):
    """this path needs no further exploration"""


class Infeasible(Exception):
    pass


# --------------------------------------------------------------------------- scopes
_locals_cache = {}


def _scan(node):
    """names assigned, declared global, declared nonlocal in a function body (not in nested scopes)"""
    if node in _locals_cache:
        return _locals_cache[node]
    names, glob, nonl = set(), set(), set()
    has_yield = [False]
    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            names.add(x.arg)

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                    visit(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                visit(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            visit(n.generators[0].iter)
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    names.add(m.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            has_yield[0] = True
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for b in body:
        visit(b)
    r = (names - glob - nonl, glob, nonl, has_yield[0])
    _locals_cache[node] = r
    return r


def assigned_in(stmts):
    """names a statement list may assign, including through nonlocal in nested functions"""
    f = ast.Module(body=list(stmts), type_ignores=[])
    names = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split(".")[0])
    return names


def carried(stmts):
    """names a loop body may assign on a path that goes on to the next iteration: an assignment in a block that ends with
    break or return, and has no continue, is not on such a path"""
    class Prune(ast.NodeTransformer):
        def block(self, b):
            b = [self.visit(x) for x in b]
            if b and isinstance(b[-1], (ast.Break, ast.Return)) and not any(isinstance(n, (ast.Continue, ast.FunctionDef, ast.Try)) for x in b for n in ast.walk(x)):
                # what the block evaluates by itself (walrus, nonlocal) is kept
                return [ast.Expr(value=n) for x in b for n in ast.walk(x) if isinstance(n, ast.NamedExpr)] + [b[-1]]
            return b

        def visit_If(self, n):
            return ast.If(test=n.test, body=self.block(n.body), orelse=self.block(n.orelse))

        def visit_With(self, n):
            return ast.With(items=n.items, body=self.block(n.body))

        def generic_visit(self, n):
            return n
    return assigned_in(Prune().block(list(stmts)))


class Frame:
    def __init__(self, mod, parent, names, glob, nonl, qual="", defcls=None, kind="function"):
        self.mod, self.parent = mod, parent
        self.names, self.glob, self.nonl = names, glob, nonl
        self.locals = {}
        self.qual, self.defcls, self.kind = qual, defcls, kind
        self.oid = new_id()
        self.yields = None
        self.loopno = {}
        self.cells = {}

    def __repr__(self):
        return "Frame(%s)" % self.qual


class Fold:
    """A homomorphic function of a sequence. sort: 'str' (concatenation), 'int' (sum), 'all' (conjunction), 'any'."""
    def __init__(self, name, sort, elem):
        self.name, self.sort, self.elem = name, sort, elem


def part_ghost(seg):
    """what is known of any part of a run"""
    return {g: v for g, v in seg.ghost.items() if g not in ("mem", "contains")}


LEN = Fold("len!", "int", lambda run, x: z3.IntVal(1))


class Loop:
    """Invariant of a loop over a segment.
    havoc(ctx): give fresh values to what the loop changes (ctx.set(name, v), ctx.modifies(obj));
    inv(ctx) -> list of (label, condition), over ctx.pre (the items already visited)"""
    def __init__(self, havoc, inv, exit=None, name=None, facts=None, whole=False):
        self.havoc, self.inv, self.exit, self.name, self.facts = havoc, inv, exit, name, facts
        self.whole = whole          # speaks of the sequence from its beginning to its end: not of a part or the reverse of it


class LoopCtx:
    def __init__(self, run, frame, node, seg):
        self.run, self.frame, self.node, self.seg = run, frame, node, seg
        self.pre = []
        self.mod = set()
        self.entry = dict(frame.locals)
        self.entry_items = {}
        self.alias = {}
        self.data = {}

    def resolve(self, name, is_list=True):
        """the variable the contract calls `name`; when the code calls it differently, the only list the function has
        made and the contract does not name otherwise"""
        f = self.frame
        while f is not None:
            if name in f.locals or name in f.names:
                return name
            f = f.parent
        if name not in self.alias:
            c = source.renamed(self.frame, name)
            if c is not None:
                self.alias[name] = c
        if name not in self.alias and is_list:
            c = [n for n, v in self.entry.items() if isinstance(v, SymList) and v.oid > self.frame.oid and v is not getattr(self, "src", None) and n not in self.alias.values()]
            if len(c) == 1:
                self.alias[name] = c[0]
        if name not in self.alias:
            raise Unsupported("loop contract: no variable %r in %s" % (name, self.frame.qual))
        return self.alias[name]

    def local(self, name):
        """the frame's own variable the contract calls `name`, None when there is none"""
        if name in self.frame.names:
            return name
        return source.renamed(self.frame, name)

    def get(self, name, is_list=True):
        name = self.resolve(name, is_list)
        f = self.frame
        while f is not None:
            if name in f.locals:
                return f.locals[name]
            f = f.parent
        raise Unsupported("loop contract: no variable %r in %s" % (name, self.frame.qual))

    def set(self, name, v):
        name = self.resolve(name, isinstance(v, SymList))
        if isinstance(v, HeapObj):
            old = self.entry.get(name)
            if isinstance(old, HeapObj) and not isinstance(old, Opaque) and any(x is old for n, x in self.entry.items() if n != name):
                raise Unsupported("loop contract: %r is not the only name of its object" % name)
            self.mod.add(v.oid)
        f = self.frame
        while f is not None:
            if name in f.locals or name in f.names:
                f.locals[name] = v
                self.assigned.add(name)
                return
            f = f.parent
        raise Unsupported("loop contract: no variable %r" % name)

    def modifies(self, obj):
        self.mod.add(obj.oid)


class Run:
    def __init__(self, unit, prefix, sink):
        self.unit = unit
        self.prefix = prefix
        self.trace = []
        self.sink = sink
        self.solver = z3.Solver()
        self.solver.set("timeout", 4000)
        self.pc = []
        self.globals = {}
        self.on_yield = {}
        self.steps = 0
        self.barriers = []
        self.exc_stack = []
        self.counter = {}
        self.stubs = {}
        self.models = {}
        self.loops = {}
        self.folds = {}
        self.memo = {}
        self.depth = 0
        self.inputs = []
        self.class_schema = {}
        self.log = []
        self.iface = {}
        self.active = []            # the functions being executed
        self.split1 = None          # known first words: f(run, term) gives the pieces of s.split(None, 1), or None
        self.recursion = None       # contract of a recursive call: f(run, closure, args, kwargs)
        from . import models
        models.install(self)

    # ------------------------------------------------------------------ names, fresh values
    def name(self, base):
        base = base.split("~")[0]
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else "%s~%d" % (base, n)

    def str(self, base="s", input=False):
        t = z3.String(self.name(base))
        if input:
            self.inputs.append((str(t), t))
        return SymStr(t)

    def int(self, base="i", input=False):
        t = z3.Int(self.name(base))
        if input:
            self.inputs.append((str(t), t))
        return SymInt(t)

    def bool(self, base="b", input=False):
        t = z3.Bool(self.name(base))
        if input:
            self.inputs.append((str(t), t))
        return SymBool(t)

    # ------------------------------------------------------------------ path condition
    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.t
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        if isinstance(cond, (list, tuple)):
            for c in cond:
                self.assume(c)
            return
        self.pc.append(cond)
        self.solver.add(cond)

    def axiom(self, cond):
        self.assume(cond)

    def feasible(self, *extra):
        r = self.solver.check(*extra)
        return r != z3.unsat

    def _decide(self, options):
        """options: list of indices still possible; records the choice"""
        k = len(self.trace)
        if k < len(self.prefix):
            c = self.prefix[k]
        else:
            c = options[0]
            for o in options[1:]:
                self.sink.push(self.trace + [o])
        self.trace.append(c)
        return c

    def fork(self, cond):
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, SymBool):
            cond = cond.t
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = len(self.trace)
        if k < len(self.prefix):
            c = self._decide([])
        else:
            t, f = self.feasible(cond), self.feasible(z3.Not(cond))
            if not t and not f:
                raise Infeasible()
            c = self._decide([x for x, ok in ((1, t), (0, f)) if ok])
        self.assume(cond if c else z3.Not(cond))
        return bool(c)

    def pick(self, n):
        """non-deterministic choice, all explored"""
        if n == 1:
            return 0
        return self._decide(list(range(n)))

    # ------------------------------------------------------------------ obligations
    def ensure(self, label, cond, detail=None):
        if isinstance(cond, SymBool):
            cond = cond.t
        if self.sink.obligation(self, label, cond, detail) == "refuted":
            raise PathEnd()
        if not isinstance(cond, bool):
            self.assume(cond)
        elif cond is False:
            raise PathEnd()

    def ensure_eq(self, label, a, b):
        self.ensure(label, self.eq(a, b), detail=(a, b))

    def reach(self, label="end"):
        self.sink.reached(self, label)

    # ------------------------------------------------------------------ folds
    def fold_term(self, fold, items):
        ts = []
        for x in items:
            if isinstance(x, Seg):
                ts.append(self.seg_fold(fold, x))
            else:
                t = fold.elem(self, x)
                ts.append(t if z3.is_expr(t) else (zs(t) if fold.sort == "str" else zi(t) if fold.sort == "int" else zb(t)))
        if fold.sort == "str":
            return concat(*ts)
        if fold.sort == "int":
            return z3.simplify(z3.Sum([z3.IntVal(0)] + ts))
        if fold.sort == "all":
            return z3.simplify(z3.And([z3.BoolVal(True)] + ts))
        return z3.simplify(z3.Or([z3.BoolVal(False)] + ts))

    def seg_fold(self, fold, seg):
        if fold.name in seg.folds:
            return seg.folds[fold.name]
        nm = "%s[%s#%d]" % (fold.name, seg.name, seg.uid)
        if fold.sort == "str":
            t = z3.String(nm)
            unit = t == z3.StringVal("")
        elif fold.sort == "int":
            t = z3.Int(nm)
            unit = t == 0
        else:
            t = z3.Bool(nm)
            unit = t if fold.sort == "all" else z3.Not(t)
        if seg.rev is not None and fold.sort != "str":
            t = self.seg_fold(fold, seg.rev)
            seg.folds[fold.name] = t
            return t
        seg.folds[fold.name] = t
        seg.fobj[fold.name] = fold
        self.axiom(z3.Implies(z3.Not(seg.nonempty), unit))
        if seg.parts is not None:
            self.axiom(t == self.fold_term(fold, seg.parts))
        return t

    def length(self, items):
        """z3 term of the length of a sequence"""
        for x in items:
            if isinstance(x, Seg) and "len!" not in x.folds:
                t = self.seg_fold(LEN, x)
                self.axiom(z3.And(t >= 0, (t > 0) == x.nonempty))
        return self.fold_term(LEN, items)

    def split(self, seg, last=False):
        """a run known to be non-empty as its first (last) element and the rest"""
        if seg.parts is None:
            if seg.rev is not None:
                self.split(seg.rev, not last)
                seg.parts = [self.reverse_item(x) for x in reversed(seg.rev.parts)]
                return seg.parts
            self.assume(seg.nonempty)
            if not self.feasible():
                raise Infeasible()
            x = seg.mk(self, self.name("elem of " + seg.name))
            rest = Seg(self.name(seg.name), seg.mk, **part_ghost(seg))
            rest.part = True
            seg.parts = [rest, x] if last else [x, rest]
            if "len!" in seg.folds:
                self.length([rest])
            for nm, t in list(seg.folds.items()):
                if nm in seg.fobj:
                    self.axiom(t == self.fold_term(seg.fobj[nm], seg.parts))
        return seg.parts

    def reverse_item(self, x):
        if not isinstance(x, Seg):
            return x
        if x.rev is None:
            r = Seg(x.name + ".reversed", x.mk, **x.ghost)
            r.nonempty = x.nonempty
            r.rev = x
            r.part = True
            x.rev_view = r
            return r
        return x.rev

    def expand(self, items, last=False):
        """items with a leading (trailing) run decided empty or split, so that the end, if any, is an element"""
        items = list(items)
        while items:
            e = items[-1 if last else 0]
            if not isinstance(e, Seg):
                break
            if self.fork(e.nonempty):
                parts = self.split(e, last)
                items = items[:-1] + parts if last else parts + items[1:]
            else:
                del items[-1 if last else 0]
        return items

    def items_of(self, v):
        if isinstance(v, SymList):
            return v.items
        if isinstance(v, SymTuple):
            return v.items
        if isinstance(v, (list, tuple)):
            return list(v)
        raise Unsupported("sequence expected: %r" % (v,))

    # ------------------------------------------------------------------ truth, equality
    def truth(self, v):
        t = self.truth_term(v)
        return t if isinstance(t, bool) else self.fork(t)

    def truth_term(self, v):
        if isinstance(v, SymBool):
            return v.t
        if isinstance(v, SymStr):
            return v.t != z3.StringVal("")
        if isinstance(v, SymInt):
            return v.t != 0
        if isinstance(v, (SymList, SymTuple)):
            if isinstance(v, SymTuple) and v.kind in ("generator", "iterator"):
                return True
            if any(not isinstance(x, Seg) for x in v.items):
                return True
            if not v.items:
                return False
            return z3.Or([x.nonempty for x in v.items])
        if isinstance(v, SymDict):
            if any(val is not DELETED for k, val in v.writes):
                if not any(val is DELETED for k, val in v.writes):
                    return True
                raise Unsupported("truth of a dict with deletions")
            if v.base is None:
                return False
            if v.writes:
                raise Unsupported("truth of a dict with deletions")
            return self.memo_bool(("nonempty", v.base), "nonempty_" + v.base.name)
        if isinstance(v, SymSet):
            ks = self.memo.get("members to know")
            if ks is None:
                raise Unsupported("truth of a set")
            b = z3.Bool(self.name("nonempty set"))
            for k in ks:
                self.axiom(z3.Implies(z3.Not(b), z3.Not(v.mem(k))))
            return b
        if isinstance(v, Obj):
            if v.sval is not None:
                return self.truth_term(v.sval)
            f = self.class_attr(v, "__bool__")
            if f is not MISSING and isinstance(f, (types.FunctionType, Closure)):
                return self.truth_term(self.call(Bound(v, f), [], {}))
            f = self.class_attr(v, "__len__")
            if f is not MISSING:
                if "truth" in v.ghost:
                    return v.ghost["truth"]
                return self.truth_term(self.call(self.getattr(v, "__len__"), [], {}))
            return True
        if isinstance(v, Opaque):
            if "truth" in v.ghost:
                return v.ghost["truth"]
            if self.is_none_term(v) is True:
                return False
            t = self.memo_bool(("truth", v), "truthy_" + v.name)
            return t
        if isinstance(v, Sym):
            return True
        if v is POISON:
            raise Unsupported("use of a variable the loop contract does not describe")
        if isinstance(v, tuple):
            return len(v) > 0
        return bool(v)

    def memo_bool(self, key, name):
        if key not in self.memo:
            self.memo[key] = z3.Bool(self.name(name))
        return self.memo[key]

    def is_none_term(self, v):
        if v is None:
            return True
        if isinstance(v, Opaque):
            if "is_none" in v.ghost:
                return v.ghost["is_none"]
            return self.memo_bool(("none", v), "isnone_" + v.name)
        return False

    def is_(self, a, b):
        """identity as bool or z3 Bool"""
        if a is POISON or b is POISON:
            raise Unsupported("use of a variable the loop contract does not describe")
        if a is b:
            return True
        if a is None or b is None:
            return self.is_none_term(b if a is None else a)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, bool):
                if isinstance(y, SymBool):
                    return y.t if x else z3.Not(y.t)
                if isinstance(y, Opaque):
                    if "is_" in y.ghost:
                        return y.ghost["is_"](self, y, x)
                    if "isinstance" in y.ghost and y.ghost["isinstance"](self, y, bool) is False:
                        return False
                    return self.memo_bool(("is", y, x), "is_%s_%s" % (x, y.name))
                return False
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            # a sentinel, object(), of the code is none of the values it is given
            if any(type(x) is object or isinstance(x, Obj) and x.kinds == [object] for x in (a, b)):
                return False
            if isinstance(a, Opaque) and "is_" in a.ghost:
                return a.ghost["is_"](self, a, b)
            if isinstance(b, Opaque) and "is_" in b.ghost:
                return b.ghost["is_"](self, b, a)
            key = ("same",) + tuple(sorted((id(a), id(b))))
            self.memo.setdefault("keep", []).append((a, b))
            return self.memo_bool(key, "same_%s" % getattr(a, "name", "") or getattr(b, "name", ""))
        if isinstance(a, HeapObj) or isinstance(b, HeapObj):
            return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, (SymStr, SymInt)) and type(a) is type(b):
                raise Unsupported("identity of strings or numbers")
            if isinstance(a, Closure) and isinstance(b, Closure):
                return a is b
            return False
        return a is b

    def is_strlike(self, v):
        return isinstance(v, (str, SymStr)) or (isinstance(v, Obj) and v.sval is not None)

    def eq(self, a, b):
        if a is POISON or b is POISON:
            raise Unsupported("use of a variable the loop contract does not describe")
        if a is b:
            return True
        if self.is_strlike(a) and self.is_strlike(b):
            x, y = zs(a), zs(b)
            return mkb(z3.simplify(x == y)) if not x.eq(y) else True
        num = (int, SymInt, SymBool)
        if isinstance(a, num) and isinstance(b, num):
            return mkb(z3.simplify(zi(a) == zi(b)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = [self.eq(x, y) for x, y in zip(a, b)]
            if any(x is False for x in r):
                return False
            return mkb(z3.And([zb(x) for x in r])) if r and not all(x is True for x in r) else True
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            o, other = (a, b) if isinstance(a, Opaque) else (b, a)
            if other is None:
                return mkb(self.is_none_term(o))
            if "eq" in o.ghost:
                return o.ghost["eq"](self, o, other)
            key = ("eq", id(o), id(other) if not isinstance(other, (str, int)) else other)
            self.memo.setdefault("keep", []).append((a, b))
            return SymBool(self.memo_bool(key, "eq_%s" % o.name))
        if isinstance(a, (SymList, SymTuple, SymDict, SymSet)) or isinstance(b, (SymList, SymTuple, SymDict, SymSet)):
            if type(a) is type(b) and isinstance(a, SymList) and not any(isinstance(x, Seg) for x in a.items + b.items):
                return self.eq(tuple(a.items), tuple(b.items))
            if type(a) is type(b) and isinstance(a, SymList):
                xs, ys = a.items, b.items
                if any(isinstance(x, Seg) for x in ys):
                    xs, ys = ys, xs
                if len(ys) <= 8 and not any(isinstance(x, Seg) for x in ys):
                    # an unknown list and a known one: element by element
                    rest, cs = list(xs), []
                    for y in ys:
                        rest = self.expand(rest)
                        c = self.eq(rest[0], y) if rest else False
                        if c is False:
                            return False
                        cs.append(zb(c))
                        rest = rest[1:]
                    return False if self.expand(rest) else mkb(z3.simplify(z3.And(cs))) if cs else True
            if type(a) is not type(b) and not isinstance(a, Sym) | isinstance(b, Sym):
                return False
            raise Unsupported("equality of %r and %r" % (a, b))
        if isinstance(a, Obj) or isinstance(b, Obj):
            for o, other in ((a, b), (b, a)):
                if isinstance(o, Obj):
                    f = self.class_attr(o, "__eq__")
                    if isinstance(f, (types.FunctionType, Closure)):
                        return self.call(Bound(o, f), [other], {})
            return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            return False
        return a == b

    # ------------------------------------------------------------------ classes
    def mro(self, k):
        return k.mro() if isinstance(k, LocalClass) else list(k.__mro__)

    def class_lookup(self, k, name):
        for c in self.mro(k):
            ns = c.ns if isinstance(c, LocalClass) else c.__dict__
            if name in ns:
                if not isinstance(c, LocalClass) and source.class_changes(c, name, ns[name]):
                    raise Unsupported("the state of %s.%s after an unknown history" % (c.__name__, name))
                return ns[name], c
        return MISSING, None

    def class_attr(self, o, name):
        """attribute of the class of an object, the same for all its possible classes (else the class is decided)"""
        if len(o.kinds) > 1:
            vals = [self.class_lookup(k, name)[0] for k in o.kinds]
            if any(v is not vals[0] for v in vals):
                groups = []
                for k, v in zip(o.kinds, vals):
                    for g in groups:
                        if g[0] is v:
                            g[1].append(k)
                            break
                    else:
                        groups.append((v, [k]))
                self.narrow(o, [g[1] for g in groups])
            return self.class_lookup(o.kinds[0], name)[0]
        return self.class_lookup(o.kinds[0], name)[0]

    def narrow(self, o, groups):
        groups = [g for g in groups if g]
        if len(groups) == 1:
            o.kinds = list(groups[0])
            return 0
        i = self.pick(len(groups))
        o.kinds = list(groups[i])
        return i

    def exact_class(self, o):
        if len(o.kinds) > 1:
            self.narrow(o, [[k] for k in o.kinds])
        return o.kinds[0]

    def issub(self, k, cls):
        if isinstance(k, LocalClass):
            return cls in k.mro() or any(isinstance(c, type) and isinstance(cls, type) and issubclass(c, cls) for c in k.mro() if isinstance(c, type))
        if isinstance(cls, LocalClass):
            return False
        try:
            return issubclass(k, cls)
        except TypeError:
            return cls in k.__mro__

    def isinstance(self, v, cls):
        """bool or z3 Bool"""
        if isinstance(cls, tuple):
            rs = []
            if isinstance(v, Obj) and len(v.kinds) > 1 and not any(c in (ast.Str, ast.Num) for c in cls):
                yes = [k for k in v.kinds if any(self.issub(k, c) for c in cls)]
                no = [k for k in v.kinds if k not in yes]
                if not yes or not no:
                    return bool(yes)
                return self.narrow(v, [yes, no]) == 0
            for c in cls:
                r = self.isinstance(v, c)
                if r is True:
                    return True
                rs.append(r)
            rs = [r for r in rs if r is not False]
            return z3.Or(rs) if rs else False
        if isinstance(cls, types.UnionType):
            return self.isinstance(v, cls.__args__)
        if v is POISON:
            raise Unsupported("use of a variable the loop contract does not describe")
        if isinstance(v, Obj):
            if cls is ast.Str:
                if self.isinstance(v, ast.Constant) is not True:
                    return False
                return self.isinstance(self.getattr(v, "value"), str)
            yes = [k for k in v.kinds if self.issub(k, cls)]
            no = [k for k in v.kinds if not self.issub(k, cls)]
            if not yes or not no:
                return bool(yes)
            return self.narrow(v, [yes, no]) == 0
        if isinstance(v, Opaque):
            if "isinstance" in v.ghost:
                return v.ghost["isinstance"](self, v, cls)
            return self.memo_bool(("isinstance", v, cls), "isinstance_%s_%s" % (v.name, getattr(cls, "__name__", cls)))
        t = self.type_of(v)
        if isinstance(t, LocalClass) or isinstance(cls, LocalClass):
            return self.issub(t, cls)
        if isinstance(v, Sym):
            return issubclass(t, cls)
        return isinstance(v, cls)

    def type_of(self, v):
        if isinstance(v, Obj):
            return self.exact_class(v)
        m = {SymStr: str, SymInt: int, SymBool: bool, SymList: list, SymSet: set, Closure: types.FunctionType, Bound: types.MethodType, Native: types.BuiltinFunctionType}
        for k, t in m.items():
            if isinstance(v, k):
                return t
        if isinstance(v, SymDict):
            return v.cls
        if isinstance(v, SymTuple):
            return tuple if v.kind == "tuple" else types.GeneratorType
        if isinstance(v, LocalClass):
            return type
        if isinstance(v, Opaque):
            if "type" in v.ghost:
                return v.ghost["type"](self, v)
            raise Unsupported("type of %r" % (v,))
        return type(v)

    # ------------------------------------------------------------------ attributes
    def mutate(self, obj):
        for limit, allowed, _ in self.barriers:
            if obj.oid < limit and obj.oid not in allowed:
                raise Unsupported("the loop changes %r, outside the frame of its contract" % (obj,))

    def unwrap(self, f, obj, owner):
        """binds a class attribute found for instance obj"""
        if isinstance(f, staticmethod):
            return f.__func__
        if isinstance(f, classmethod):
            return Bound(self.exact_class(obj), f.__func__)
        if isinstance(f, property):
            return self.call(Bound(obj, f.fget), [], {})
        if isinstance(f, (types.FunctionType, Closure)):
            if isinstance(f, Closure) and f.attrs.get("static"):
                return f
            return Bound(obj, f)
        if isinstance(f, Native):
            return Bound(obj, f)
        return f

    def getattr(self, v, name, default=MISSING):
        if isinstance(v, Obj):
            if name == "__class__":
                return self.exact_class(v)
            if name in ("s", "n") and v.kinds == [ast.Constant]:
                name = "value"
            if name == "__dict__":
                raise Unsupported("__dict__")
            if name in v.fields:
                x = v.fields[name]
                if x is POISON:
                    raise Unsupported("the state of .%s after an unknown history" % name)
                if x is not DELETED:
                    return x
            elif v.schema is not None:
                x = v.schema(self, v, name)
                if x is not MISSING:
                    v.fields[name] = x
                    return x
            f = self.class_attr(v, name)
            if f is not MISSING:
                if isinstance(f, types.MemberDescriptorType) or isinstance(f, types.GetSetDescriptorType):
                    f = MISSING
            if f is not MISSING:
                if isinstance(f, (types.WrapperDescriptorType, types.MethodDescriptorType, types.ClassMethodDescriptorType, types.BuiltinFunctionType)):
                    if v.sval is not None:
                        return self.getattr(v.sval, name)
                    m = self.models.get(f)
                    if m:
                        return Bound(v, Native(m, name))
                    raise Unsupported("%r of %r" % (name, v))
                return self.unwrap(f, v, None)
            if v.sval is not None:
                return self.getattr(v.sval, name)
            if name not in v.fields and not v.ghost.get("constructed") and isinstance(v.kinds[0], type) and name in source.init_fields(v.kinds[0]):
                raise Unsupported("the attribute %s that the constructor of %s gives" % (name, v.kinds[0].__name__))
            if default is not MISSING:
                return default
            g = self.class_attr(v, "__getattr__")
            if g is not MISSING:
                return self.call(Bound(v, g), [name], {})
            self.throw(AttributeError, "%r object has no attribute %r" % (getattr(v.kinds[0], "__name__", "?"), name))
        if isinstance(v, SuperV):
            ks = self.mro(self.exact_class(v.self_v) if isinstance(v.self_v, Obj) else v.self_v)
            ks = ks[ks.index(v.cls) + 1:]
            for c in ks:
                ns = c.ns if isinstance(c, LocalClass) else c.__dict__
                if name in ns:
                    f = ns[name]
                    if c is object:
                        return Native(lambda run, a, k: None, "object." + name)
                    if name == "__new__":
                        return f.__func__ if isinstance(f, staticmethod) else f
                    if isinstance(f, (types.FunctionType, Closure, property, staticmethod, classmethod)):
                        return self.unwrap(f, v.self_v, c)
                    m = self.models.get(f) or self.models.get(getattr(c, name))
                    if m:
                        return Bound(v.self_v, Native(m, name))
                    raise Unsupported("super().%s of %r" % (name, c))
            if default is not MISSING:
                return default
            self.throw(AttributeError, name)
        if isinstance(v, Opaque):
            if "getattr" in v.ghost:
                r = v.ghost["getattr"](self, v, name)
                if r is not MISSING:
                    return r
                if default is not MISSING:
                    return default
            raise Unsupported("attribute %r of %r" % (name, v))
        if isinstance(v, LocalClass):
            if name in ("__name__", "__qualname__"):
                return v.name
            f, c = self.class_lookup(v, name)
            if f is not MISSING:
                return f.__func__ if isinstance(f, staticmethod) else f
            if default is not MISSING:
                return default
            self.throw(AttributeError, name)
        if isinstance(v, Closure):
            if name == "__name__":
                return v.attrs.get("__name__", getattr(v.node, "name", "<lambda>"))
            if name in v.attrs:
                return v.attrs[name]
            if default is not MISSING:
                return default
            raise Unsupported("attribute %r of a function" % name)
        if isinstance(v, Bound) and name == "__self__":
            return v.self_v
        if isinstance(v, tuple) and name in getattr(type(v), "_fields", ()):
            return tuple.__getitem__(v, type(v)._fields.index(name))
        if isinstance(v, Sym) or isinstance(v, tuple):
            from . import models
            if name == "__class__":
                return self.type_of(v)
            m = models.method(self, v, name)
            if m is not None:
                return m
            t = self.type_of(v)
            if not hasattr(t, name):
                if default is not MISSING:
                    return default
                self.throw(AttributeError, "%r object has no attribute %r" % (t.__name__, name))
            raise Unsupported("method %r of %r" % (name, v))
        if v is POISON:
            raise Unsupported("use of a variable the loop contract does not describe")
        if v is None or isinstance(v, (str, bytes, int, float, slice)):
            from . import models
            m = models.method(self, v, name)
            if m is not None:
                return m
        # a real object: class, module, function, regular expression ...
        hook = self.models.get(("getattr", id(v), name))
        if hook:
            return hook(self)
        if isinstance(v, type):
            for c in v.__mro__:
                if name in c.__dict__:
                    f = c.__dict__[name]
                    if isinstance(f, classmethod) and source.is_repo_module(c.__module__):
                        return Bound(v, f.__func__)
                    break
        try:
            return self.lift(getattr(v, name))
        except AttributeError as e:
            if default is not MISSING:
                return default
            raise PyExc(e)

    def used(self, o, *known):
        """an object that has been used before: of its fields only the known ones, and those that nothing changes, still
        have the values the constructor gave them"""
        for n, x in o.fields.items():
            if n not in known and source.field_changes(n, isinstance(x, (SymList, SymDict, SymSet, dict, list, set))):
                o.fields[n] = POISON
        return o

    def lift(self, o):
        return o

    def hasattr(self, v, name):
        if isinstance(v, Obj):
            if len(v.kinds) > 1 and name not in v.fields:
                yes = [k for k in v.kinds if self.kind_has(v, k, name)]
                no = [k for k in v.kinds if k not in yes]
                if yes and no:
                    return self.narrow(v, [yes, no]) == 0
                return bool(yes)
            if name in v.fields:
                return v.fields[name] is not DELETED
            return self.kind_has(v, v.kinds[0], name)
        if isinstance(v, Opaque):
            if "hasattr" in v.ghost:
                return v.ghost["hasattr"](self, v, name)
            return self.memo_bool(("hasattr", v, name), "hasattr_%s_%s" % (v.name, name))
        if isinstance(v, Sym):
            try:
                return self.getattr(v, name, default=MISSING) is not MISSING
            except PyExc:
                return False
            except Unsupported:
                return hasattr(self.type_of(v), name)
        return hasattr(v, name)

    def kind_has(self, v, k, name):
        if v.schema is not None:
            t = Obj([k])
            t.schema = v.schema
            t.ghost = v.ghost
            t.probe = True
            if v.schema(self, t, name) is not MISSING:
                return True
        f = self.class_lookup(k, name)[0]
        return f is not MISSING and not isinstance(f, (types.MemberDescriptorType,))

    def setattr(self, v, name, val):
        if isinstance(v, Obj):
            self.mutate(v)
            if name in ("s", "n") and v.kinds == [ast.Constant]:
                name = "value"
            f = self.class_attr(v, name) if not (name in v.fields) else MISSING
            if isinstance(f, property):
                if f.fset is None:
                    self.throw(AttributeError, name)
                self.call(Bound(v, f.fset), [val], {})
                return
            v.fields[name] = val
            return
        if isinstance(v, Closure):
            v.attrs[name] = val
            return
        if isinstance(v, Opaque) and "setattr" in v.ghost:
            self.mutate(v)
            v.ghost["setattr"](self, v, name, val)
            return
        if isinstance(v, LocalClass):
            v.ns[name] = val
            return
        if v is None:
            self.throw(AttributeError, "'NoneType' object has no attribute '%s'" % name)
        raise Unsupported("attribute assignment on %r" % (v,))

    def throw(self, cls, *args):
        raise PyExc(self.make_exc(cls, args))

    def make_exc(self, cls, args):
        o = Obj(cls)
        o.fields["args"] = tuple(args)
        if isinstance(cls, type) and issubclass(cls, OSError):
            # FileNotFoundError and its like always come with their number
            num = [n for n, c in self.OS_ERRORS if issubclass(cls, c)]
            e, s = (args[0], args[1]) if len(args) >= 2 else (None, None)
            o.fields["errno"], o.fields["strerror"], o.fields["filename"] = num[0] if num and isinstance(e, int) else e, s, args[2] if len(args) > 2 else None
        return o

    OS_ERRORS = [(errno.ENOENT, FileNotFoundError), (errno.ENOTDIR, NotADirectoryError), (errno.EISDIR, IsADirectoryError), (errno.EEXIST, FileExistsError)]

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        self.depth += 1
        if self.depth > 120:
            raise Unsupported("recursion without a contract")
        try:
            return self._call(f, list(args), kwargs)
        finally:
            self.depth -= 1

    def _call(self, f, args, kwargs):
        if isinstance(f, Native):
            return f.f(self, args, kwargs)
        if isinstance(f, Bound):
            return self._call(f.fn, [f.self_v] + args, kwargs)
        if isinstance(f, Closure):
            key = (f.mod.name, f.qual)
            if key in self.stubs:
                return self.stubs[key](self, args, kwargs)
            if self.recursion is not None and f.node in self.active:
                return self.recursion(self, f, args, kwargs)
            return self.call_closure(f, args, kwargs)
        if isinstance(f, LocalClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Obj):
            m = self.class_attr(f, "__call__")
            if m is MISSING:
                self.throw(TypeError, "not callable")
            return self._call(Bound(f, m), args, kwargs)
        if isinstance(f, Opaque):
            if "call" in f.ghost:
                return f.ghost["call"](self, args, kwargs)
            raise Unsupported("call of %r" % (f,))
        if isinstance(f, Sym):
            self.throw(TypeError, "not callable")
        if f is POISON:
            raise Unsupported("use of a variable the loop contract does not describe")
        # real objects
        try:
            m = self.models.get(f)
        except TypeError:
            m = None
        if m is not None:
            return m(self, args, kwargs)
        if isinstance(f, types.MethodType):
            slf = f.__self__
            return self._call(f.__func__, [slf] + args, kwargs)
        if isinstance(f, types.FunctionType):
            key = (f.__module__, f.__qualname__)
            if key in self.stubs:
                return self.stubs[key](self, args, kwargs)
            d = source.find_def(f)
            if d is not None:
                mod, node, q = d
                c = Closure(node, mod, None, q, pyfn=f)
                if self.recursion is not None and node in self.active:
                    return self.recursion(self, c, args, kwargs)
                return self.call_closure(c, args, kwargs)
            raise Unsupported("call of library function %s.%s" % key)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        from . import models
        r = models.call_native(self, f, args, kwargs)
        if r is not MISSING:
            return r
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, cls, args, kwargs):
        key = (getattr(cls, "__module__", None), getattr(cls, "__qualname__", None))
        if key in self.stubs:
            return self.stubs[key](self, args, kwargs)
        if isinstance(cls, LocalClass):
            return self.init_obj(Obj(cls), args, kwargs)
        if issubclass(cls, ast.AST):
            return self.make_ast(cls, args, kwargs)
        new, owner = self.class_lookup(cls, "__new__")
        if isinstance(new, staticmethod):
            new = new.__func__
        if isinstance(new, types.FunctionType) and source.find_def(new):
            o = self.call(new, [cls] + args, kwargs)
            if not isinstance(o, Obj):
                return o
        elif issubclass(cls, BaseException):
            o = Obj(cls)
            o.fields["args"] = tuple(args)
            if issubclass(cls, SyntaxError) and args:
                o.fields["msg"] = args[0]
            if issubclass(cls, OSError) and len(args) >= 2:
                o.fields["errno"], o.fields["strerror"], o.fields["filename"] = args[0], args[1], args[2] if len(args) > 2 else None
                o.fields["filename2"] = None
                if cls is OSError and isinstance(args[0], int):
                    # the constructor makes the class of the number
                    o.kinds = [dict((n, c) for n, c in self.OS_ERRORS).get(args[0], OSError)]
        elif source.is_repo_module(cls.__module__) or cls is object:
            o = Obj(cls)
        else:
            raise Unsupported("instantiation of %r" % (cls,))
        return self.init_obj(o, args, kwargs)

    def init_obj(self, o, args, kwargs):
        init, owner = self.class_lookup(o.kinds[0], "__init__")
        o.ghost["constructed"] = True
        if isinstance(init, (types.FunctionType, Closure)):
            if isinstance(init, types.FunctionType) and not source.find_def(init):
                m = self.models.get(init)
                if m is None:
                    raise Unsupported("library constructor %r" % (init,))
                m(self, [o] + args, kwargs)
            else:
                self.call(init, [o] + args, kwargs)
        elif owner is object and (args or kwargs):
            new = self.class_lookup(o.kinds[0], "__new__")[1]
            if new is object:
                self.throw(TypeError, "takes no arguments")
        return o

    def make_ast(self, cls, args, kwargs):
        if cls is ast.Str:
            v = kwargs.get("s", args[0] if args else MISSING)
            return Obj(ast.Constant, dict(value=v, kind=None))
        o = Obj(cls)
        fields = cls._fields
        for k, a in zip(fields, args):
            o.fields[k] = a
        for k, a in kwargs.items():
            o.fields[k] = a
        return o

    def bind_args(self, node, args, kwargs, defaults, kwdefaults, qual):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kwargs = dict(kwargs)
        extra = []
        if any(isinstance(x, Seg) for x in args):
            k = next(i for i, x in enumerate(args) if isinstance(x, Seg))
            if k < len(pos):
                raise Unsupported("unknown number of positional arguments")
        for i, v in enumerate(args):
            if i < len(pos):
                out[pos[i]] = v
            else:
                extra.append(v)
        if extra and not a.vararg:
            self.throw(TypeError, "%s() takes %d positional arguments" % (qual, len(pos)))
        if a.vararg:
            out[a.vararg.arg] = SymTuple(extra) if any(isinstance(x, Seg) for x in extra) else tuple(extra)
        for k in list(kwargs):
            if k in pos[len(a.posonlyargs):] or k in [x.arg for x in a.kwonlyargs]:
                if k in out:
                    self.throw(TypeError, "%s() got multiple values for argument %r" % (qual, k))
                out[k] = kwargs.pop(k)
        if kwargs and not a.kwarg:
            self.throw(TypeError, "%s() got an unexpected keyword argument %r" % (qual, sorted(kwargs)[0]))
        if a.kwarg:
            out[a.kwarg.arg] = SymDict(entries=[(k, v) for k, v in kwargs.items()])
        for name, d in zip(pos[len(pos) - len(defaults):], defaults):
            if name not in out:
                out[name] = d
        for x in a.kwonlyargs:
            if x.arg not in out:
                if x.arg in kwdefaults:
                    out[x.arg] = kwdefaults[x.arg]
                else:
                    self.throw(TypeError, "%s() missing keyword argument %r" % (qual, x.arg))
        for name in pos:
            if name not in out:
                self.throw(TypeError, "%s() missing argument %r" % (qual, name))
        return out

    def call_closure(self, c, args, kwargs):
        node = c.node
        self.sink.touched.add((c.mod.name, c.qual))
        names, glob, nonl, gen = _scan(node)
        if c.pyfn is not None:
            defaults = list(c.pyfn.__defaults__ or ())
            kwd = dict(c.pyfn.__kwdefaults__ or {})
        else:
            defaults, kwd = c.defaults or [], c.kwdefaults or {}
        fr = Frame(c.mod, c.frame, names, glob, nonl, c.qual, defcls=c.defcls)
        if c.pyfn is not None and c.pyfn.__closure__:
            for nm, cell in zip(c.pyfn.__code__.co_freevars, c.pyfn.__closure__):
                try:
                    fr.cells[nm] = cell.cell_contents
                except ValueError:
                    pass
        fr.locals.update(self.bind_args(node, args, kwargs, defaults, kwd, c.qual))
        fr.self_closure = c
        fr.args = args
        if isinstance(node, ast.Lambda):
            return self.eval(node.body, fr)
        if gen:
            fr.yields = SymList()
        self.active.append(node)
        try:
            self.exec_block(node.body, fr)
        except Return_ as r:
            if not gen:
                return r.v
        finally:
            self.active.pop()
        if gen:
            return SymTuple(fr.yields.items, kind="generator")
        return None

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Unsupported("too many steps on one path")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Yield):
            v = self.eval(s.value.value, fr) if s.value.value else None
            self.mutate(fr.yields)
            fr.yields.items.append(v)
            if fr.qual in self.on_yield:
                # the state in which the caller sees the value
                self.on_yield[fr.qual](self, fr, v)
            return
        if isinstance(s.value, ast.YieldFrom):
            v = self.iter_items(self.eval(s.value.value, fr))
            self.mutate(fr.yields)
            fr.yields.items.extend(v)
            return
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise Return_(self.eval(s.value, fr) if s.value else None)

    def s_Break(self, s, fr):
        raise Break_()

    def s_Continue(self, s, fr):
        raise Continue_()

    def s_Global(self, s, fr):
        pass

    s_Nonlocal = s_Global

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, fr)
            self.store(t.id, self.binop(s.op, old, self.eval(s.value, fr), inplace=True), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.binop(s.op, old, self.eval(s.value, fr), inplace=True))
        else:
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            from . import models
            old = models.getitem(self, o, i)
            models.setitem(self, o, i, self.binop(s.op, old, self.eval(s.value, fr), inplace=True))

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            from . import models
            o = self.eval(t.value, fr)
            models.setitem(self, o, self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iter_items(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if any(isinstance(x, Seg) for x in items):
                raise Unsupported("unpacking a sequence of unknown length")
            if star:
                k = star[0]
                n = len(t.elts) - 1
                if len(items) < n:
                    self.throw(ValueError, "not enough values to unpack")
                mid = len(items) - n
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, SymList(items[k:k + mid]), fr)
                for e, x in zip(t.elts[k + 1:], items[k + mid:]):
                    self.assign(e, x, fr)
                return
            if len(items) != len(t.elts):
                self.throw(ValueError, "unpack")
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        else:
            raise Unsupported("assignment target")

    def store(self, name, v, fr):
        if name in fr.glob:
            self.globals[(fr.mod.name, name)] = v
            return
        if name in fr.nonl:
            f = fr.parent
            while f is not None:
                if name in f.names and f.kind != "class":
                    self.frame_write(f, name)
                    f.locals[name] = v
                    return
                f = f.parent
            raise Unsupported("nonlocal %s" % name)
        if fr.kind == "comp" and name not in fr.names:
            return self.store(name, v, fr.parent)
        self.frame_write(fr, name)
        fr.locals[name] = v

    def frame_write(self, fr, name):
        for b in self.barriers:
            if fr.oid < b[0] and name not in b[2]:
                raise Unsupported("the loop changes variable %r, which its contract does not describe" % name)

    def lookup(self, name, fr):
        f = fr
        first = True
        while f is not None:
            if name in f.glob:
                break
            if (first or f.kind != "class") and name in f.names and not (f.kind == "class" and name not in f.locals):
                if name in f.locals:
                    v = f.locals[name]
                    if v is POISON:
                        raise Unsupported("variable %r is not described by the loop contract" % name)
                    if v is DELETED:
                        self.throw(UnboundLocalError, name)
                    return v
                if name not in f.nonl:
                    self.throw(UnboundLocalError if f is fr else NameError, name)
            if name in f.cells:
                return self.lift(f.cells[name])
            first = f.kind == "comp" and first
            f = f.parent
        k = (fr.mod.name, name)
        if k in self.globals:
            return self.globals[k]
        d = fr.mod.py.__dict__
        if name in d:
            if source.changes(fr.mod.name, name, d[name]):
                raise Unsupported("the state of %s.%s after an unknown history" % k)
            return self.lift(d[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.throw(NameError, name)

    def s_Delete(self, s, fr):
        from . import models
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals[t.id] = DELETED
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if not isinstance(o, Obj):
                    raise Unsupported("del attribute")
                if not self.truth(mkb(self.hasattr(o, t.attr))):
                    self.throw(AttributeError, t.attr)
                self.mutate(o)
                o.fields[t.attr] = DELETED
            else:
                models.delitem(self, self.eval(t.value, fr), self.eval_index(t.slice, fr))

    def s_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            self.throw(AssertionError)

    def s_Import(self, s, fr):
        import importlib
        for al in s.names:
            try:
                m = importlib.import_module(al.name)
            except ImportError as e:
                raise PyExc(e)
            self.store((al.asname or al.name.split(".")[0]), m if al.asname else __import__(al.name), fr)

    def s_ImportFrom(self, s, fr):
        import importlib
        name = s.module or ""
        if s.level:
            pkg = fr.mod.py.__package__ or fr.mod.name
            base = pkg.split(".")
            base = base[:len(base) - (s.level - 1)]
            name = ".".join(base + ([s.module] if s.module else []))
        m = importlib.import_module(name)
        for al in s.names:
            self.store(al.asname or al.name, self.lift(getattr(m, al.name)), fr)

    def s_FunctionDef(self, s, fr):
        c = self.make_closure(s, fr)
        v = c
        for d in reversed(s.decorator_list):
            dv = self.eval(d, fr)
            if dv is staticmethod:
                c.attrs["static"] = True
            elif dv is property:
                v = Obj(property, dict(fget=v))
                raise Unsupported("property in a local class")
            else:
                v = self.call(dv, [v], {})
        self.store(s.name, v, fr)

    def make_closure(self, s, fr):
        defaults = [self.eval(d, fr) for d in s.args.defaults]
        kwd = {a.arg: self.eval(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        parent = fr
        if fr.kind == "class":
            parent = fr.parent
        q = (fr.qual + "." if fr.kind == "class" else fr.qual + ".<locals>." if fr.qual else "") + getattr(s, "name", "<lambda>")
        return Closure(s, fr.mod, parent, q, defaults, kwd, defcls=fr.defcls if fr.kind == "class" else None)

    def s_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        q = fr.qual + ".<locals>." + s.name
        cls = LocalClass(s.name, bases or [object], {}, fr, q)
        cf = Frame(fr.mod, fr, set(_scan_class(s)), set(), set(), q, defcls=cls, kind="class")
        self.exec_block(s.body, cf)
        cls.ns.update(cf.locals)
        self.store(s.name, cls, fr)

    def s_Raise(self, s, fr):
        if s.exc is None:
            if not self.exc_stack:
                self.throw(RuntimeError, "no active exception")
            raise PyExc(self.exc_stack[-1])
        v = self.eval(s.exc, fr)
        if isinstance(v, (type, LocalClass)):
            v = self.call(v, [], {})
        if s.cause is not None:
            c = self.eval(s.cause, fr)
            if isinstance(c, (type, LocalClass)):
                c = self.call(c, [], {})
            if isinstance(v, (Obj, Opaque)):
                if isinstance(v, Opaque):
                    raise Unsupported("raise from of %r" % (v,))
                v.fields["__cause__"] = c
                v.fields["__suppress_context__"] = True
        if not (isinstance(v, (Obj, Opaque)) or isinstance(v, BaseException)):
            self.throw(TypeError, "exceptions must derive from BaseException")
        raise PyExc(v)

    def s_Try(self, s, fr):
        def run_body():
            try:
                self.exec_block(s.body, fr)
            except PyExc as e:
                self.exc_stack.append(e.value)
                try:
                    for h in s.handlers:
                        if h.type is None:
                            ok = True
                        else:
                            ok = self.truth(mkb(self.exc_matches(e.value, self.eval(h.type, fr))))
                        if ok:
                            if h.name:
                                self.store(h.name, e.value, fr)
                            self.exec_block(h.body, fr)
                            if h.name:
                                fr.locals[h.name] = DELETED
                            return
                finally:
                    self.exc_stack.pop()
                raise
            else:
                self.exec_block(s.orelse, fr)
        if not s.finalbody:
            return run_body()
        try:
            run_body()
        except (PyExc, Return_, Break_, Continue_) as sig:
            if isinstance(sig, PyExc):
                self.exc_stack.append(sig.value)
            try:
                self.exec_block(s.finalbody, fr)
            finally:
                if isinstance(sig, PyExc):
                    self.exc_stack.pop()
            raise
        else:
            self.exec_block(s.finalbody, fr)

    def exc_matches(self, v, t):
        if isinstance(t, tuple):
            r = [self.exc_matches(v, x) for x in t]
            if any(x is True for x in r):
                return True
            r = [x for x in r if x is not False]
            return z3.Or(r) if r else False
        return self.isinstance(v, t)

    def s_With(self, s, fr):
        if len(s.items) != 1:
            raise Unsupported("with several items")
        it = s.items[0]
        cm = self.eval(it.context_expr, fr)
        enter = self.getattr(cm, "__enter__")
        ex = self.getattr(cm, "__exit__")
        v = self.call(enter, [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            self.exec_block(s.body, fr)
        except PyExc as e:
            r = self.call(ex, [self.type_of(e.value) if not isinstance(e.value, Opaque) else None, e.value, None], {})
            if self.truth(r):
                return
            raise
        except (Return_, Break_, Continue_):
            self.call(ex, [None, None, None], {})
            raise
        self.call(ex, [None, None, None], {})

    # ------------------------------------------------------------------ loops
    def iter_items(self, v):
        if isinstance(v, SymList):
            return v.items
        if isinstance(v, SymTuple):
            if v.kind == "enumerate":
                raise Unsupported("enumerate of an unknown sequence outside of a for statement")
            return list(v.items)
        if isinstance(v, SymSet) and "iter" not in v.ghost:
            mem = v.mem

            def mk(run, nm):
                s = run.str(nm)
                run.assume(mem(s.t))
                return s
            return [Seg(v.ghost.get("name", "elements"), mk, mem=mem)]
        if isinstance(v, (tuple, list, range, frozenset, set)):
            return list(v)
        if isinstance(v, (dict, type({}.keys()), type({}.values()), type({}.items()))):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SymDict):
            from . import models
            return models.dict_items(self, v, "keys")
        if isinstance(v, Obj):
            m = self.class_attr(v, "__iter__")
            if m is not MISSING and not isinstance(m, types.WrapperDescriptorType):
                return self.iter_items(self.call(Bound(v, m), [], {}))
            if v.sval is not None:
                return self.iter_items(v.sval)
        if isinstance(v, (Opaque, SymSet)) and "iter" in v.ghost:
            return v.ghost["iter"](self, v)
        if v is None or isinstance(v, (int, SymInt, SymBool)):
            self.throw(TypeError, "not iterable")
        raise Unsupported("iteration over %r" % (v,))

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        src = it if isinstance(it, SymList) else None
        enum = it if isinstance(it, SymTuple) and it.kind == "enumerate" else None
        items = enum.items if enum is not None else self.iter_items(it)
        i = 0

        def wrap(x, before):
            if enum is None:
                return x
            from .sym import zi, mki
            return (mki(z3.simplify(zi(enum.start) + self.length(before))), x)
        try:
            while i < len(items):
                x = items[i]
                i += 1
                if isinstance(x, Seg):
                    self.seg_loop(s, fr, x, src, lambda y, pre, n=i - 1: wrap(y, items[:n] + pre))
                else:
                    self.assign(s.target, wrap(x, items[:i - 1]), fr)
                    try:
                        self.exec_block(s.body, fr)
                    except Continue_:
                        pass
                self.steps += 1
                if self.steps > MAX_STEPS:
                    raise Unsupported("too many steps on one path")
        except Break_:
            return
        self.exec_block(s.orelse, fr)

    def loop_spec(self, s, fr, seg):
        for key in (seg.name.split("~")[0] if seg else None, ("loop", fr.qual, self.ordinal(s, fr))):
            if key in self.loops:
                return self.loops[key]
        if seg is not None and "loop" in seg.ghost:
            return seg.ghost["loop"]
        raise Unsupported("no invariant for the loop over %s in %s" % (seg.name if seg else "?", fr.qual))

    def ordinal(self, s, fr):
        c = getattr(fr, "self_closure", None)
        if c is None:
            return None
        n = 0
        for x in ast.walk(c.node):
            if isinstance(x, (ast.For, ast.While)):
                if x is s:
                    return n
                n += 1
        return None

    def seg_loop(self, s, fr, seg, src=None, wrap=lambda x, pre: x):
        spec = self.loop_spec(s, fr, seg)
        if isinstance(spec, list):
            spec = spec[min(self.counter.setdefault("loop!" + seg.name, 0), len(spec) - 1)]
            self.counter["loop!" + seg.name] += 1
        if spec.whole and seg.part:
            raise Unsupported("loop over a part of a sequence or backwards, its contract is about the whole")
        ctx = LoopCtx(self, fr, s, seg)
        nm = spec.name or seg.name
        assigned = assigned_in(s.body) | assigned_in([ast.Assign(targets=[s.target], value=ast.Constant(value=None))])
        ctx.assigned = set(assigned)
        if src is not None:
            ctx.src = src
        ctx.pre = []
        for label, cond in spec.inv(ctx):
            self.ensure("invariant of the loop over %s on entry: %s" % (nm, label), cond)
        exiting = self.pick(2)
        for n in carried(s.body) | assigned_in([ast.Assign(targets=[s.target], value=ast.Constant(value=None))]):
            if n in fr.locals:
                fr.locals[n] = POISON
        if exiting:
            ctx.pre = [seg]
            ctx.exit = True
            spec.havoc(ctx)
            for label, cond in spec.inv(ctx):
                self.assume(cond)
            if spec.facts:
                self.assume(list(spec.facts(ctx)))
            if spec.exit:
                spec.exit(ctx)
            if not self.feasible():
                raise Infeasible()
            return
        ctx.exit = False
        self.assume(seg.nonempty)
        P = Seg(self.name(seg.name + "!pre"), seg.mk, **part_ghost(seg))
        ctx.pre = [P]
        spec.havoc(ctx)
        x = seg.mk(self, self.name("elem of " + seg.name))
        ctx.x = x
        for label, cond in spec.inv(ctx):
            self.assume(cond)
        if spec.facts:
            self.assume(list(spec.facts(ctx)))
        if not self.feasible():
            raise Infeasible()
        bar = (new_id(), ctx.mod | getattr(self, "always_mutable", set()), ctx.assigned)
        depth = len(self.barriers)
        # the element itself and objects made for it may be changed; they were created before the barrier id
        bar = (bar[0], bar[1] | {getattr(x, "oid", -1)} | {getattr(y, "oid", -1) for y in (x if isinstance(x, tuple) else ())}, bar[2])
        self.barriers.append(bar)
        try:
            self.assign(s.target, wrap(x, [P]), fr)
            try:
                self.exec_block(s.body, fr)
            except Continue_:
                pass
        finally:
            del self.barriers[depth:]
        ctx.pre = [P, x]
        for label, cond in spec.inv(ctx):
            self.ensure("invariant of the loop over %s is kept: %s" % (nm, label), cond)
        self.reach("loop")
        raise PathEnd()

    def s_While(self, s, fr):
        key = ("loop", fr.qual, self.ordinal(s, fr))
        spec = self.loops.get(key)
        if spec is None:
            n = 0
            try:
                while self.truth(self.eval(s.test, fr)):
                    n += 1
                    if n > 300:
                        raise Unsupported("while loop without invariant in %s" % fr.qual)
                    try:
                        self.exec_block(s.body, fr)
                    except Continue_:
                        pass
            except Break_:
                return
            self.exec_block(s.orelse, fr)
            return
        ctx = LoopCtx(self, fr, s, None)
        assigned = assigned_in(s.body)
        ctx.assigned = set(assigned)
        ctx.phase = "entry"
        for label, cond in spec.inv(ctx):
            self.ensure("invariant of the while loop in %s on entry: %s" % (fr.qual, label), cond)
        for n in carried(s.body):
            if n in fr.locals:
                fr.locals[n] = POISON
        ctx.phase = "havoc"
        spec.havoc(ctx)
        for label, cond in spec.inv(ctx):
            self.assume(cond)
        if not self.feasible():
            raise Infeasible()
        depth = len(self.barriers)
        if not self.truth(self.eval(s.test, fr)):
            if spec.exit:
                spec.exit(ctx)
            self.exec_block(s.orelse, fr)
            return
        self.barriers.append((new_id(), ctx.mod, ctx.assigned))
        try:
            try:
                self.exec_block(s.body, fr)
            except Continue_:
                pass
            except Break_:
                del self.barriers[depth:]
                return
        finally:
            del self.barriers[depth:]
        ctx.phase = "kept"
        for label, cond in spec.inv(ctx):
            self.ensure("invariant of the while loop in %s is kept: %s" % (fr.qual, label), cond)
        self.reach("loop")
        raise PathEnd()

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        items = self.elts(e.elts, fr)
        return SymTuple(items) if any(isinstance(x, Seg) for x in items) else tuple(items)

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_items(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        return SymList(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        from . import models
        items = self.elts(e.elts, fr)
        return models.make_set(self, items)

    def e_Dict(self, e, fr):
        d = SymDict()
        from . import models
        for k, v in zip(e.keys, e.values):
            if k is None:
                models.dict_update(self, d, self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                models.setitem(self, d, kk, self.eval(v, fr))
        return d

    def e_JoinedStr(self, e, fr):
        from . import models
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(x.value)
            else:
                v = self.eval(x.value, fr)
                if x.conversion == ord("r"):
                    v = models.to_repr(self, v)
                else:
                    v = models.to_str(self, v)
                if x.format_spec is not None:
                    raise Unsupported("format specification")
                out.append(v)
        return mks(concat(*[zs(x) for x in out])) if out else ""

    def e_BoolOp(self, e, fr):
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return False if isinstance(v, SymBool) else v
            if isinstance(e.op, ast.Or) and t:
                return True if isinstance(v, SymBool) else v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else mkb(z3.simplify(z3.Not(t)))
        if isinstance(e.op, ast.USub):
            return mki(z3.simplify(-zi(v)))
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        return self.binop(e.op, a, self.eval(e.right, fr))

    def binop(self, op, a, b, inplace=False):
        from . import models
        return models.binop(self, op, a, b, inplace)

    def e_Compare(self, e, fr):
        from . import models
        left = self.eval(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = models.compare(self, op, left, right)
            if res is None:
                res = c
            else:
                res = c if res is True else mkb(z3.And(zb(res), zb(c)))
            if len(e.ops) > 1:
                if not self.truth(res):
                    return False
                res = True
            left = right
        return res

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.make_closure(e, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.store(e.target.id, v, fr)
        return v

    def e_Subscript(self, e, fr):
        from . import models
        return models.getitem(self, self.eval(e.value, fr), self.eval_index(e.slice, fr))

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.eval(s, fr)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and not hasattr(f, "self_closure"):
                f = f.parent
            c = f.self_closure
            cls = c.defcls
            if cls is None:
                o = c.mod.py
                for p in c.qual.split(".")[:-1]:
                    o = getattr(o, p)
                cls = o
            return SuperV(cls, f.args[0])
        f = self.eval(e.func, fr)
        args = self.elts(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                if isinstance(v, SymDict) and v.base is None and all(isinstance(kk, str) for kk, vv in v.writes):
                    from . import models
                    for kk, vv in models.dict_entries(self, v):
                        kwargs[kk] = vv
                elif isinstance(v, dict):
                    kwargs.update(v)
                elif isinstance(v, (SymDict, Opaque)):
                    kwargs["**"] = v
                else:
                    raise Unsupported("** argument")
            else:
                kwargs[k.arg] = v
        if f is super:
            return SuperV(args[0], args[1])
        if f is globals or f is locals:
            raise Unsupported("globals()/locals()")
        return self.call(f, args, kwargs)

    def e_ListComp(self, e, fr):
        return SymList(self.comp(e, fr, lambda f: self.eval(e.elt, f)))

    def e_GeneratorExp(self, e, fr):
        return SymTuple(self.comp(e, fr, lambda f: self.eval(e.elt, f)), kind="generator")

    def e_SetComp(self, e, fr):
        from . import models
        return models.make_set(self, self.comp(e, fr, lambda f: self.eval(e.elt, f)))

    def e_DictComp(self, e, fr):
        from . import models
        d = SymDict()
        for k, v in self.comp(e, fr, lambda f: (self.eval(e.key, f), self.eval(e.value, f))):
            models.setitem(self, d, k, v)
        return d

    def comp(self, e, fr, elt):
        names = set()
        for g in e.generators:
            names |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        out = []
        cf = Frame(fr.mod, fr, names, set(), set(), fr.qual, kind="comp")

        def gen(k, f):
            if k == len(e.generators):
                out.append(elt(f))
                return
            g = e.generators[k]
            items = self.iter_items(self.eval(g.iter, fr if k == 0 else f))
            for x in list(items):
                if isinstance(x, Seg):
                    if k != 0 or len(e.generators) != 1:
                        raise Unsupported("nested comprehension over an unknown sequence")
                    out.append(self.map_seg(e, g, cf, x, elt))
                    continue
                self.assign(g.target, x, f)
                if all(self.truth(self.eval(c, f)) for c in g.ifs):
                    gen(k + 1, f)
        gen(0, cf)
        return out

    def map_seg(self, e, g, cf, seg, elt):
        """comprehension over an unknown run: contract ghost['map'] = (name, mk, [(fold of the result, term)], check(run, x, y))"""
        spec = self.loops.get("map " + seg.name.split("~")[0])
        if spec is None:
            raise Unsupported("no contract for the comprehension over %s" % seg.name)
        out_seg, check, ifs = spec(self, seg)
        if g.ifs and not ifs:
            raise Unsupported("filtered comprehension")
        if self.pick(2) == 0:
            self.assume(seg.nonempty)
            x = seg.mk(self, self.name("elem of " + seg.name))
            bar = (new_id(), {getattr(x, "oid", -1)}, set(cf.names))
            depth = len(self.barriers)
            self.barriers.append(bar)
            try:
                self.assign(g.target, x, cf)
                keep = True
                for c in g.ifs:
                    if not self.truth(self.eval(c, cf)):
                        keep = False
                        break
                y = elt(cf) if keep else MISSING
            finally:
                del self.barriers[depth:]
            for label, cond in check(self, x, y):
                self.ensure("element of the comprehension over %s: %s" % (seg.name, label), cond)
            self.reach("loop")
            raise PathEnd()
        return out_seg

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def e_Yield(self, e, fr):
        raise Unsupported("yield expression")


def _scan_class(s):
    names = set()
    for b in s.body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
        if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
            names.add(b.name)
    return names
