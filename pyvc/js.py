"""Symbolic execution of JavaScript functions, over the syntax tree TypeScript's parser gives of the current source.
Same method as vm.py: values are z3 terms or objects, every feasible path is explored, loops over runs of unknown length
go by their invariant, what is not known raises Unsupported."""
import json
import os
import re
import shutil
import subprocess
import z3
from .sym import *
from .vm import Fold, Loop, PathEnd, Infeasible

HERE = os.path.dirname(os.path.abspath(__file__))
NODE = shutil.which("node") or "/usr/local/bin/node"
_trees = {}


def parse(path):
    if path not in _trees:
        try:
            p = subprocess.run([NODE, os.path.join(HERE, "jsast.js"), path], capture_output=True, text=True, timeout=60)
            t = json.loads(p.stdout)
        except (OSError, ValueError, subprocess.SubprocessError) as e:
            raise Unsupported("no syntax tree of %s: %s" % (path, e))
        if "error" in t:
            raise Unsupported("%s: %s" % (path, t["error"]))
        _trees[path] = t
    return _trees[path]


class _Undef:
    def __repr__(self):
        return "undefined"

    def __bool__(self):
        return False


UNDEF = _Undef()


class JSNum(Sym):
    """a number of which only the text is known"""
    def __init__(self, text, zero):
        self.text, self.zero = text, zero


class JSObj(HeapObj):
    def __init__(self, props=None, proto=None, kind="Object", **ghost):
        super().__init__()
        self.props, self.proto, self.kind, self.ghost = dict(props or {}), proto, kind, ghost

    def __repr__(self):
        return "%s%s" % (self.kind, self.ghost.get("name", ""))


class JSArr(JSObj):
    def __init__(self, items=(), **ghost):
        super().__init__(kind="Array", **ghost)
        self.items = list(items)

    def __repr__(self):
        return "Array(%r)" % (self.items,)


class JSFun(JSObj):
    """node+env, or native(js, this, args)"""
    def __init__(self, node=None, env=None, native=None, this=None, name=""):
        super().__init__(kind="Function")
        self.node, self.env, self.native, self.this, self.name = node, env, native, this, name

    def __repr__(self):
        return "function %s" % self.name


class Env:
    def __init__(self, parent=None, function=False):
        self.vars, self.parent, self.function = {}, parent, function
        self.oid = new_id()

    def find(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e
            e = e.parent
        return None


class JSReturn(Exception):
    def __init__(self, v):
        self.v = v


class JSBreak(Exception):
    pass


class JSContinue(Exception):
    pass


_POISON = POISON


class LoopCtx:
    def __init__(self, js, seg):
        self.js, self.seg, self.pre, self.mod, self.exit = js, seg, [], set(), False
        self.data = {}

    def modifies(self, o):
        self.mod.add(o.oid)


def num_text(v):
    if isinstance(v, bool):
        raise Unsupported("boolean as number")
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        if v == int(v) and abs(v) < 1e21:
            return str(int(v))
        raise Unsupported("text of a float")
    raise Unsupported("text of %r" % (v,))


class JS:
    def __init__(self, run):
        self.run = run
        self.objproto = JSObj(kind="ObjectPrototype")
        self.made = []                     # objects made by `new`
        self.var_barriers = []
        self.globals = Env(function=True)
        self.depth = 0
        g = self.globals.vars
        g["undefined"] = UNDEF
        g["String"] = JSFun(native=lambda js, this, a: mks(js.string(a[0])) if a else "", name="String")
        g["Array"] = self.array_ctor()
        g["Object"] = self.object_ctor()
        for n in ("Number", "Date", "RegExp", "Error", "Promise", "Map", "Set"):
            g[n] = JSFun(native=lambda js, this, a, n=n: js.unsupported(n), name=n)
        g["Boolean"] = JSFun(native=lambda js, this, a: js.truth_value(a[0]) if a else False, name="Boolean")

    def unsupported(self, name):
        raise Unsupported(name + "()")

    def fun(self, f, name="native"):
        return JSFun(native=f, name=name)

    def array_ctor(self):
        def no(js, this, a):
            raise Unsupported("Array()")
        c = self.fun(no, "Array")
        c.props["isArray"] = self.fun(lambda js, this, a: mkb(js.foreign_class(a[0], "Array")) if isinstance(a[0], JSObj) and "foreign" in a[0].ghost else isinstance(a[0], JSArr), "isArray")
        c.props["from"] = self.fun(lambda js, this, a: js.array_map(a[0], a[1]) if len(a) > 1 else js.copy(a[0]), "from")
        pr = JSObj(kind="ArrayPrototype")
        c.props["prototype"] = pr
        return c

    def object_ctor(self):
        def no(js, this, a):
            raise Unsupported("Object()")
        c = self.fun(no, "Object")
        c.props["prototype"] = self.objproto
        c.props["hasOwn"] = self.fun(lambda js, this, a: js.has_own(a[0], a[1]), "hasOwn")
        c.props["create"] = self.fun(lambda js, this, a: JSObj(proto=a[0]), "create")
        c.props["freeze"] = self.fun(lambda js, this, a: a[0], "freeze")
        return c

    # ------------------------------------------------------------------ conversions
    def throw(self, kind, msg=""):
        o = JSObj(kind=kind, name=" " + msg)
        raise PyExc(o)

    def prim(self, v):
        """ToPrimitive, hint default: the text of an object"""
        if isinstance(v, (JSObj, Opaque)):
            return mks(self.string(v))
        return v

    def string(self, v):
        """String(v) as z3 term"""
        if v is POISON:
            raise Unsupported("use of a variable the loop contract does not describe")
        if isinstance(v, (str, SymStr)):
            return zs(v)
        if v is UNDEF:
            return z3.StringVal("undefined")
        if v is None:
            return z3.StringVal("null")
        if isinstance(v, bool):
            return z3.StringVal("true" if v else "false")
        if isinstance(v, SymBool):
            return z3.If(v.t, z3.StringVal("true"), z3.StringVal("false"))
        if isinstance(v, (int, float)):
            return z3.StringVal(num_text(v))
        if isinstance(v, JSNum):
            return v.text
        if isinstance(v, SymInt):
            t = v.t
            return z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal("-"), z3.IntToStr(-t)))
        if isinstance(v, JSObj):
            f = self.get(v, "toString")
            if isinstance(f, JSFun):
                r = self.call(f, v, [])
                if isinstance(r, (JSObj, Opaque)):
                    self.throw("TypeError", "Cannot convert object to primitive value")
                return self.string(r)
            if "string" in v.ghost:
                return v.ghost["string"]
            self.throw("TypeError", "Cannot convert object to primitive value")
        raise Unsupported("text of %r" % (v,))

    def truth(self, v):
        t = self.truth_term(v)
        return t if isinstance(t, bool) else self.run.fork(t)

    def truth_value(self, v):
        t = self.truth_term(v)
        return t if isinstance(t, bool) else mkb(t)

    def truth_term(self, v):
        if v is POISON:
            raise Unsupported("use of a variable the loop contract does not describe")
        if v is UNDEF or v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, str):
            return v != ""
        if isinstance(v, SymBool):
            return v.t
        if isinstance(v, SymStr):
            return z3.Length(v.t) > 0
        if isinstance(v, SymInt):
            return v.t != 0
        if isinstance(v, JSNum):
            return z3.Not(v.zero)
        if isinstance(v, JSObj):
            return True
        if isinstance(v, Opaque) and "truth" in v.ghost:
            return v.ghost["truth"]
        raise Unsupported("truth of %r" % (v,))

    def typeof(self, v):
        if v is UNDEF:
            return "undefined"
        if v is None:
            return "object"
        if isinstance(v, (bool, SymBool)):
            return "boolean"
        if isinstance(v, (str, SymStr)):
            return "string"
        if isinstance(v, (int, float, SymInt, JSNum)):
            return "number"
        if isinstance(v, JSFun):
            return "function"
        if isinstance(v, JSObj):
            return v.ghost.get("typeof", "object")
        if isinstance(v, Opaque) and "typeof" in v.ghost:
            return v.ghost["typeof"]
        raise Unsupported("typeof %r" % (v,))

    def strict_eq(self, a, b):
        ta, tb = (None if isinstance(x, Opaque) and "typeof" not in x.ghost else self.typeof(x) for x in (a, b))
        if isinstance(a, (JSObj, Opaque)) or isinstance(b, (JSObj, Opaque)):
            return a is b
        if a is UNDEF or b is UNDEF or a is None or b is None:
            return a is b
        if ta != tb:
            return False
        if ta == "string":
            return mkb(zs(a) == zs(b))
        if ta == "boolean":
            return mkb(zb(a) == zb(b))
        if isinstance(a, JSNum) or isinstance(b, JSNum) or isinstance(a, float) or isinstance(b, float):
            if not isinstance(a, JSNum) and not isinstance(b, JSNum):
                return a == b
            raise Unsupported("comparison of numbers")
        return mkb(zi(a) == zi(b))

    def loose_eq(self, a, b):
        nul = lambda x: x is UNDEF or x is None
        if nul(a) or nul(b):
            return nul(a) and nul(b)
        if isinstance(a, JSObj) and isinstance(b, JSObj) or self.typeof(a) == self.typeof(b):
            return self.strict_eq(a, b)
        raise Unsupported("== of values of different types")

    # ------------------------------------------------------------------ properties
    def key(self, k):
        if isinstance(k, (str, SymStr, int, SymInt)) and not isinstance(k, bool):
            return k
        return mks(self.string(k))

    def own(self, o, k):
        """own property value or MISSING"""
        if isinstance(o, JSArr):
            if k == "length":
                return mki(z3.simplify(self.run.length(o.items)))
            if isinstance(k, (int, SymInt)):
                return self.item(o, k)
        if not isinstance(k, str):
            if "dict" in o.ghost:
                found, v = self.dict_get(o, k)
                return v if found else MISSING
            if isinstance(k, SymStr):
                for p in o.props:
                    if self.run.fork(zs(k) == z3.StringVal(p)):
                        return o.props[p]
                return MISSING
            raise Unsupported("property %r of %r" % (k, o))
        if k in o.props:
            return o.props[k]
        if "dict" in o.ghost and k in o.ghost.get("lacks", ()):
            return MISSING
        if "dict" in o.ghost:
            found, v = self.dict_get(o, k)
            return v if found else MISSING
        if isinstance(o, JSFun) and k == "prototype" and o.node is not None:
            o.props[k] = JSObj({"constructor": o})
            return o.props[k]
        if "own" in o.ghost:
            return o.ghost["own"](self, o, k)
        return MISSING

    def dict_get(self, o, k):
        from . import models
        v = models.dict_find(self.run, o.ghost["dict"], k)
        return (v is not MISSING, v)

    def item(self, o, k):
        run = self.run
        n = 0
        for i, x in enumerate(o.items):
            before = run.length(o.items[:i])
            if isinstance(x, Seg):
                if not run.feasible(z3.Not(z3.And(zi(k) >= before, zi(k) < run.length(o.items[:i + 1])))):
                    raise Unsupported("element %r of a run of unknown length" % (k,))
                continue
            d = z3.simplify(zi(k) == before)
            if z3.is_true(d) or not z3.is_false(d) and not run.feasible(z3.Not(d)):
                return x
        total = run.length(o.items)
        if not run.feasible(z3.And(zi(k) >= 0, zi(k) < total)):
            return MISSING
        raise Unsupported("element %r of %r" % (k, o))

    def proto_of(self, o):
        return o.proto

    def get(self, v, k):
        if v is POISON:
            raise Unsupported("use of a variable the loop contract does not describe")
        if v is UNDEF or v is None:
            self.throw("TypeError", "Cannot read properties of %r" % (v,))
        if isinstance(v, JSObj):
            o = v
            while o is not None:
                r = self.own(o, k)
                if r is not MISSING:
                    return r
                o = o.proto
            if isinstance(k, SymStr):
                if "dict" in v.ghost:
                    return Opaque(self.run.name("inherited property"), truth=z3.Bool(self.run.name("inherited is true")))
                raise Unsupported("unknown property of %r" % (v,))
            b = self.builtin(v, k)
            if b is not None:
                return b
            if "foreign" in v.ghost and k not in ("html", "buffer"):
                # an object of the application: nothing is known about its other properties
                f = v.ghost["foreign"]
                if k not in f:
                    f[k] = UNDEF if self.run.fork(z3.Bool(self.run.name("no property %s" % k))) else Opaque(self.run.name("property %s" % k), truth=z3.Bool(self.run.name("property %s is true" % k)))
                return f[k]
            return UNDEF
        if isinstance(v, (str, SymStr)):
            b = self.string_method(v, k)
            if b is not None:
                return b
            if k in ("html", "buffer", "s", "templateContext"):
                return UNDEF
            raise Unsupported("property %r of a text" % (k,))
        if isinstance(v, (bool, SymBool, int, float, SymInt, JSNum)):
            if k == "toString":
                return self.fun(lambda js, this, a: mks(js.string(this)), "toString")
            if k in ("html", "buffer", "s", "length"):
                return UNDEF
            raise Unsupported("property %r of a number or boolean" % (k,))
        if isinstance(v, Opaque) and "get" in v.ghost:
            return v.ghost["get"](self, v, k)
        raise Unsupported("property %r of %r" % (k, v))

    def foreign_class(self, o, name):
        return self.run.memo_bool(("foreign", o, name), "is a %s" % name)

    def put(self, o, k, v):
        if o is UNDEF or o is None:
            self.throw("TypeError", "Cannot set properties of %r" % (o,))
        if not isinstance(o, JSObj):
            raise Unsupported("property of %r set" % (o,))
        self.run.mutate(o)
        if isinstance(o, JSArr) and not (isinstance(k, str) and k != "length"):
            raise Unsupported("element or length of an array set")
        if "dict" in o.ghost:
            from . import models
            models.setitem(self.run, o.ghost["dict"], k, v)
            return
        if not isinstance(k, str):
            raise Unsupported("property %r set" % (k,))
        o.props[k] = v

    def has_own(self, o, k):
        if not isinstance(o, JSObj):
            raise Unsupported("hasOwnProperty of %r" % (o,))
        if "dict" in o.ghost:
            from . import models
            return models.contains(self.run, o.ghost["dict"], k)
        return self.own(o, k) is not MISSING

    # ------------------------------------------------------------------ library
    def builtin(self, v, k):
        f = lambda g: self.fun(g, k)
        if isinstance(v, JSArr):
            r = self.array_method(v, k)
            if r is not None:
                return r
        if v.kind == "ArrayPrototype":
            probe = self.array_method(None, k)
            if probe is not None:
                return probe
        if isinstance(v, JSFun):
            if k == "apply":
                return f(lambda js, this, a: js.call(this, a[0] if a else UNDEF, js.items(a[1]) if len(a) > 1 and a[1] is not UNDEF and a[1] is not None else []))
            if k == "call":
                return f(lambda js, this, a: js.call(this, a[0] if a else UNDEF, a[1:]))
            if k == "bind":
                def bind(js, this, a):
                    g, t, pre = this, a[0] if a else UNDEF, list(a[1:])
                    return JSFun(native=lambda js, th, b: js.call(g, t, pre + list(b)), name="bound " + g.name)
                return f(bind)
            if k == "toString":
                return f(lambda js, this, a: mks(z3.String(js.run.name("source of a function"))))
        if k == "hasOwnProperty":
            return f(lambda js, this, a: js.has_own(this, js.key(a[0])))
        if k == "toString":
            def ts(js, this, a):
                if isinstance(this, JSArr):
                    return js.join(this, ",")
                if isinstance(this, JSObj) and "string" in this.ghost:
                    return mks(this.ghost["string"])
                return "[object Object]"
            return f(ts)
        if k == "valueOf":
            return f(lambda js, this, a: this)
        return None

    def items(self, v):
        if isinstance(v, JSArr):
            return v.items
        raise Unsupported("elements of %r" % (v,))

    def copy(self, v):
        return JSArr(self.items(v))

    def join(self, arr, sep):
        if sep != "" and len(arr.items) > 1 or any(isinstance(x, Seg) for x in arr.items) and sep != "":
            raise Unsupported("join with a separator")
        return mks(self.run.fold_term(self.JOIN, arr.items))

    @property
    def JOIN(self):
        if not hasattr(self, "_join"):
            self._join = Fold("js join", "str", lambda run, x: z3.StringVal("") if x is UNDEF or x is None else self.string(x))
        return self._join

    def array_method(self, v, k):
        """v None: the method of Array.prototype, for whatever array it is called on"""
        f = lambda g: self.fun(g, k)
        if k == "push":
            def push(js, this, a):
                js.run.mutate(this)
                js.items(this).extend(a)
                return mki(js.run.length(this.items))
            return f(push)
        if k == "concat":
            def cc(js, this, a):
                out = list(js.items(this))
                for x in a:
                    if isinstance(x, JSArr):
                        out += x.items
                    elif isinstance(x, (Seg, Opaque)):
                        raise Unsupported("concat of %r" % (x,))
                    else:
                        out.append(x)
                return JSArr(out)
            return f(cc)
        if k == "join":
            return f(lambda js, this, a: js.join(this, a[0] if a else ","))
        if k == "slice":
            def sl(js, this, a):
                if not a or a == [0]:
                    return JSArr(js.items(this))
                raise Unsupported("slice")
            return f(sl)
        if k == "map":
            return f(lambda js, this, a: js.array_map(this, a[0]))
        if k == "forEach":
            def fe(js, this, a):
                g = a[0]
                ass = js.assigned(g.node["body"], g.env) if isinstance(g, JSFun) and g.node else ()
                js.each(this, lambda x, i: js.call(g, UNDEF, [x, i, this]), ass)
                return UNDEF
            return f(fe)
        return None

    def string_method(self, v, k):
        f = lambda g: self.fun(g, k)
        if k == "length":
            return mki(z3.Length(zs(v)))
        if k == "toString" or k == "valueOf":
            return f(lambda js, this, a: this)
        if k in ("replace", "replaceAll"):
            return f(lambda js, this, a: js.replace(this, a[0], a[1], k == "replaceAll"))
        if k == "concat":
            return f(lambda js, this, a: mks(concat(zs(this), *[js.string(x) for x in a])))
        return None

    def replace(self, s, what, by, every):
        if isinstance(what, str):
            if len(what) != 1 or not every:
                raise Unsupported("replace of a text")
            chars = {what}
        elif isinstance(what, JSObj) and what.kind == "RegExp":
            chars, flags = what.ghost["chars"], what.ghost["flags"]
            if chars is None or set(flags) - set("gums"):
                raise Unsupported("regular expression /%s/%s" % (what.ghost["source"], flags))
            every = "g" in flags
        else:
            raise Unsupported("replace of %r" % (what,))
        table = {}
        for c in sorted(chars):
            if isinstance(by, JSFun):
                r = self.call(by, UNDEF, [c] * (1 + (what.ghost["groups"] if isinstance(what, JSObj) else 0)))
                r = z3.simplify(self.string(r))
                if not z3.is_string_value(r):
                    raise Unsupported("replacement %s" % r)
                table[c] = dec(r)
            elif isinstance(by, str):
                table[c] = re.sub(r"\$([$&1])", lambda m: "$" if m.group(1) == "$" else c, by)
            else:
                raise Unsupported("replacement %r" % (by,))
        if every:
            return mks(hom(table, zs(s)))
        key = "first of " + "".join(sorted("%s>%s " % x for x in table.items()))
        return mks(z3.Function(key, z3.StringSort(), z3.StringSort())(zs(s)))

    def regexp(self, text):
        m = re.match(r"(?s)/(.*)/([a-z]*)$", text)
        src, flags = m.group(1), m.group(2)
        body, groups = src, 0
        mm = re.match(r"(?s)\((?!\?)(.*)\)$", body)
        if mm and "(" not in mm.group(1) and ")" not in mm.group(1):
            body, groups = mm.group(1), 1
        chars = None
        esc = lambda x: re.sub(r"\\(.)", r"\1", x)
        plain = lambda x: not re.search(r"\\[a-zA-Z0-9]", x)
        cm = re.match(r"(?s)\[(?!\^)((?:[^\]\\]|\\.)*)\]$", body)
        if cm and plain(cm.group(1)) and "-" not in cm.group(1)[1:-1]:
            chars = set(esc(cm.group(1)))
        elif re.match(r"(?s)(?:[^\\()\[\]{}.*+?^$|]|\\[^a-zA-Z0-9])(?:\|(?:[^\\()\[\]{}.*+?^$|]|\\[^a-zA-Z0-9]))*$", body):
            chars = {esc(x) for x in body.split("|")}
        return JSObj(kind="RegExp", chars=chars, flags=flags, source=src, groups=groups)

    # ------------------------------------------------------------------ iteration
    def each(self, arr, body, assigned=()):
        items = self.items(arr)
        for n, x in enumerate(list(items)):
            if isinstance(x, Seg):
                self.seg_loop(x, lambda ctx, y, n=n: body(y, mki(self.run.length(items[:n] + ctx.pre[:1]))), assigned=assigned)
            else:
                body(x, mki(self.run.length(items[:n])))

    def array_map(self, arr, fn):
        out = []
        for x in self.items(arr):
            if isinstance(x, Seg):
                out.append(self.map_seg(x, fn, arr))
            else:
                out.append(self.call(fn, UNDEF, [x, 0, arr]))
        return JSArr(out)

    def map_seg(self, seg, fn, arr):
        spec = seg.ghost.get("map")
        if spec is None:
            raise Unsupported("no contract for mapping over %s" % seg.name)
        run = self.run
        out, check = spec(run, seg)
        if run.pick(2):
            run.assume(seg.nonempty)
            x = seg.mk(run, run.name("elem of " + seg.name))
            if not run.feasible():
                raise Infeasible()
            run.barriers.append((new_id(), set(), set()))
            self.var_barriers.append((new_id(), []))
            try:
                y = self.call(fn, UNDEF, [x, mki(z3.Int(run.name("index"))), arr])
            finally:
                run.barriers.pop()
                self.var_barriers.pop()
            check(run, x, y)
            run.reach("loop")
            raise PathEnd()
        return out

    def spec(self, seg):
        s = seg.ghost.get("loop")
        if s is None:
            raise Unsupported("no invariant for the loop over %s" % seg.name)
        return s

    def seg_loop(self, seg, body, before=None, assigned=(), done=None):
        """body(ctx, x) for every element of the run"""
        run = self.run
        spec = self.spec(seg)
        ctx = LoopCtx(self, seg)
        for label, cond in spec.inv(ctx):
            run.ensure("invariant of the loop over %s on entry: %s" % (seg.name, label), cond)
        exiting = run.pick(2)
        for env, n in assigned:
            env.vars[n] = POISON
        if exiting:
            ctx.pre, ctx.exit = [seg], True
            spec.havoc(ctx)
            for label, cond in spec.inv(ctx):
                run.assume(cond)
            if done:
                done(ctx)
            if not run.feasible():
                raise Infeasible()
            return
        run.assume(seg.nonempty)
        P = Seg(run.name(seg.name + "!pre"), seg.mk, **{g: v for g, v in seg.ghost.items() if g not in ("mem", "contains")})
        ctx.pre = [P]
        spec.havoc(ctx)
        x = seg.mk(run, run.name("elem of " + seg.name))
        for label, cond in spec.inv(ctx):
            run.assume(cond)
        if not run.feasible():
            raise Infeasible()
        depth = len(run.barriers)
        run.barriers.append((new_id(), ctx.mod | {getattr(x, "oid", -1)}, set()))
        vdepth = len(self.var_barriers)
        self.var_barriers.append((new_id(), list(assigned)))
        try:
            if before:
                before(ctx, x)
            try:
                body(ctx, x)
            except JSContinue:
                pass
            if done:
                ctx.pre = [P, x]
                done(ctx)
        finally:
            del run.barriers[depth:]
            del self.var_barriers[vdepth:]
        ctx.pre = [P, x]
        for label, cond in spec.inv(ctx):
            run.ensure("invariant of the loop over %s is kept: %s" % (seg.name, label), cond)
        run.reach("loop")
        raise PathEnd()

    # ------------------------------------------------------------------ calls
    def call(self, f, this, args):
        if not isinstance(f, JSFun):
            if isinstance(f, Opaque) and "call" in f.ghost:
                return f.ghost["call"](self, this, args)
            if f is POISON:
                raise Unsupported("use of a variable the loop contract does not describe")
            self.throw("TypeError", "not a function")
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported("recursion of JavaScript functions")
        try:
            if f.native:
                return f.native(self, this, list(args))
            node, env = f.node, Env(f.env, True)
            arrow = node["k"] == "ArrowFunction"
            if not arrow:
                env.vars["this"] = this
                env.vars["arguments"] = JSArr(args)
            ps = node.get("parameters", [])
            rest = list(args)
            for p in ps:
                if p.get("dotDotDotToken"):
                    env.vars[p["name"]["text"]] = JSArr(rest)
                    rest = []
                    continue
                if rest and isinstance(rest[0], Seg):
                    raise Unsupported("an unknown number of arguments for named parameters")
                v = rest.pop(0) if rest else UNDEF
                if v is UNDEF and "initializer" in p:
                    v = self.eval(p["initializer"], env)
                if p["name"]["k"] != "Identifier":
                    raise Unsupported("destructuring parameter")
                env.vars[p["name"]["text"]] = v
            if f.name and node["k"] == "FunctionExpression" and f.name not in env.vars and node.get("name"):
                env.vars.setdefault(f.name, f)
            if node["body"]["k"] != "Block":
                return self.eval(node["body"], env)
            try:
                self.hoist(node["body"]["statements"], env)
                self.block(node["body"]["statements"], env)
            except JSReturn as r:
                return r.v
            return UNDEF
        finally:
            self.depth -= 1

    def hoist(self, stmts, env):
        for s in self.walk_vars(stmts):
            env.vars.setdefault(s, UNDEF)
        for s in stmts:
            if s["k"] == "FunctionDeclaration":
                env.vars[s["name"]["text"]] = JSFun(s, env, name=s["name"]["text"])

    def walk_vars(self, n):
        if isinstance(n, list):
            for x in n:
                yield from self.walk_vars(x)
        elif isinstance(n, dict):
            if n["k"] in ("FunctionDeclaration", "FunctionExpression", "ArrowFunction", "MethodDeclaration"):
                return
            if n["k"] == "VariableDeclarationList" and "decl" not in n:
                for d in n["declarations"]:
                    if d["name"]["k"] != "Identifier":
                        raise Unsupported("destructuring")
                    yield d["name"]["text"]
            for k, v in n.items():
                if isinstance(v, (dict, list)):
                    yield from self.walk_vars(v)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        self.run.steps += 1
        if self.run.steps > 200000:
            raise Unsupported("too many steps on one path")
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise Unsupported("JavaScript statement %s" % s["k"])
        m(s, env)

    def s_ExpressionStatement(self, s, env):
        self.eval(s["expression"], env)

    def s_EmptyStatement(self, s, env):
        pass

    def s_FunctionDeclaration(self, s, env):
        if s["name"]["text"] not in env.vars:
            env.vars[s["name"]["text"]] = JSFun(s, env, name=s["name"]["text"])

    def s_VariableStatement(self, s, env):
        self.declare(s["declarationList"], env)

    def declare(self, dl, env):
        for d in dl["declarations"]:
            if d["name"]["k"] != "Identifier":
                raise Unsupported("destructuring")
            n = d["name"]["text"]
            if "decl" in dl:
                env.vars[n] = self.eval(d["initializer"], env, n) if "initializer" in d else UNDEF
            elif "initializer" in d:
                self.assign_name(n, self.eval(d["initializer"], env, n), env)

    def s_Block(self, s, env):
        e = Env(env)
        for x in s["statements"]:
            if x["k"] == "FunctionDeclaration":
                e.vars[x["name"]["text"]] = JSFun(x, e, name=x["name"]["text"])
        self.block(s["statements"], e)

    def s_ReturnStatement(self, s, env):
        raise JSReturn(self.eval(s["expression"], env) if "expression" in s else UNDEF)

    def s_IfStatement(self, s, env):
        if self.truth(self.eval(s["expression"], env)):
            self.exec(s["thenStatement"], env)
        elif "elseStatement" in s:
            self.exec(s["elseStatement"], env)

    def s_ThrowStatement(self, s, env):
        raise PyExc(self.eval(s["expression"], env))

    def s_BreakStatement(self, s, env):
        raise JSBreak()

    def s_ContinueStatement(self, s, env):
        raise JSContinue()

    def assigned(self, n, env, out=None):
        """variables of enclosing scopes assigned in a loop"""
        out = [] if out is None else out
        if isinstance(n, list):
            for x in n:
                self.assigned(x, env, out)
        elif isinstance(n, dict):
            nm = None
            if n["k"] == "BinaryExpression" and n["operatorToken"].get("tok", "").endswith("=") and n["operatorToken"].get("tok") not in ("==", "===", "!=", "!==", "<=", ">=") and n["left"]["k"] == "Identifier":
                nm = n["left"]["text"]
            elif n["k"] in ("PrefixUnaryExpression", "PostfixUnaryExpression") and n.get("operator") in ("++", "--") and n["operand"]["k"] == "Identifier":
                nm = n["operand"]["text"]
            elif n["k"] == "VariableDeclaration" and n["name"]["k"] == "Identifier":
                nm = n["name"]["text"]
            if nm is not None:
                e = env.find(nm)
                if e is not None and (e, nm) not in out:
                    out.append((e, nm))
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self.assigned(v, env, out)
        return out

    def s_ForStatement(self, s, env):
        env = Env(env)
        if "initializer" in s:
            if s["initializer"]["k"] == "VariableDeclarationList":
                self.declare(s["initializer"], env)
            else:
                self.eval(s["initializer"], env)
        self.cond_loop(s.get("condition"), s.get("incrementor"), s["statement"], env)

    def s_WhileStatement(self, s, env):
        self.cond_loop(s["expression"], None, s["statement"], env)

    def index_loop(self, cond, inc, body, env):
        """(name of the index, array with a run) when the loop goes over a run by index"""
        found = []

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
            elif isinstance(n, dict):
                if n["k"] == "ElementAccessExpression" and n["argumentExpression"]["k"] in ("Identifier", "PostfixUnaryExpression") and n["expression"]["k"] == "Identifier":
                    a = n["argumentExpression"]
                    found.append((n["expression"]["text"], a["text"] if a["k"] == "Identifier" else a["operand"].get("text")))
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        walk(v)
        walk(body)
        changed = {n for _, n in self.assigned([cond or [], inc or [], body], env)}
        for arr, i in found:
            e = env.find(arr)
            if e is None or i not in changed:
                continue
            a = e.vars[arr]
            if isinstance(a, JSArr) and any(isinstance(x, Seg) for x in a.items):
                return i, a
        return None

    def cond_loop(self, cond, inc, body, env):
        run = self.run
        w = self.index_loop(cond, inc, body, env)
        test = lambda: self.truth_term(self.eval(cond, env)) if cond is not None else True
        if w is None:
            for _ in range(200):
                t = test()
                t = t if isinstance(t, bool) else z3.simplify(t)
                if not isinstance(t, bool):
                    if z3.is_true(t) or z3.is_false(t):
                        t = z3.is_true(t)
                    elif not run.feasible(t):
                        t = False
                    elif not run.feasible(z3.Not(t)):
                        t = True
                    else:
                        raise Unsupported("no invariant for the loop on line %s" % body.get("line"))
                if not t:
                    return
                try:
                    self.exec(body, env)
                except JSBreak:
                    return
                except JSContinue:
                    pass
                if inc is not None:
                    self.eval(inc, env)
            raise Unsupported("too many iterations")
        i, arr = w
        if len(arr.items) != 1:
            raise Unsupported("a loop over more than one run")
        seg = arr.items[0]
        ienv = env.find(i)
        start = zi(ienv.vars[i]) if isinstance(ienv.vars[i], (int, SymInt)) and not isinstance(ienv.vars[i], bool) else None
        if start is None:
            raise Unsupported("index of the loop")
        run.ensure("the loop starts with the first element", start == 0)
        total = run.length([seg])
        state = {}

        def bd(ctx, x):
            n = run.length(ctx.pre)
            run.assume(n + 1 <= total)
            ienv.vars[i] = mki(n)
            arr.items = [ctx.pre[0], x, Seg(run.name("rest"), seg.mk)]
            state["n"] = n
            t = test()
            run.ensure("the loop goes on while there are elements", t)
            try:
                self.exec(body, env)
            except JSContinue:
                pass
            except JSBreak:
                raise Unsupported("break out of a loop over a run")
            if inc is not None:
                self.eval(inc, env)

        def done(ctx):
            if ctx.exit:
                ienv.vars[i] = mki(total)
                t = test()
                run.ensure("the loop ends after the last element", z3.Not(t) if not isinstance(t, bool) else not t)
            else:
                v = ienv.vars[i]
                run.ensure("the loop goes to the next element", zi(v) == state["n"] + 1 if isinstance(v, (int, SymInt)) else False)
        self.seg_loop(seg, bd, assigned=self.assigned([cond or [], inc or [], body], env), done=done)

    def s_ForOfStatement(self, s, env):
        arr = self.eval(s["expression"], env)
        if s["initializer"]["k"] != "VariableDeclarationList":
            raise Unsupported("for of without declaration")
        d = s["initializer"]["declarations"][0]
        if d["name"]["k"] not in ("Identifier", "ArrayBindingPattern"):
            raise Unsupported("destructuring")
        items = self.items(arr)

        def body(x):
            e = Env(env)
            if d["name"]["k"] == "Identifier":
                e.vars[d["name"]["text"]] = x
            else:
                for j, el in enumerate(d["name"]["elements"]):
                    e.vars[el["name"]["text"]] = self.items(x)[j] if j < len(self.items(x)) else UNDEF
            try:
                self.exec(s["statement"], e)
            except JSContinue:
                pass
        ass = self.assigned(s["statement"], env)
        try:
            for x in list(items):
                if isinstance(x, Seg):
                    self.seg_loop(x, lambda ctx, y: body(y), assigned=ass)
                else:
                    body(x)
        except JSBreak:
            pass

    # ------------------------------------------------------------------ expressions
    def eval(self, n, env, name=""):
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            raise Unsupported("JavaScript expression %s" % n["k"])
        if n["k"] in ("FunctionExpression", "ArrowFunction"):
            return m(n, env, name)
        return m(n, env)

    def e_Identifier(self, n, env):
        e = env.find(n["text"])
        if e is None:
            e = self.globals if n["text"] in self.globals.vars else None
        if e is None:
            self.throw("ReferenceError", n["text"])
        v = e.vars[n["text"]]
        if v is POISON:
            raise Unsupported("use of a variable the loop contract does not describe: %s" % n["text"])
        return v

    def e_ThisKeyword(self, n, env):
        e = env.find("this")
        return e.vars["this"] if e else UNDEF

    def e_NullKeyword(self, n, env):
        return None

    def e_TrueKeyword(self, n, env):
        return True

    def e_FalseKeyword(self, n, env):
        return False

    def e_StringLiteral(self, n, env):
        return n["text"]
    e_NoSubstitutionTemplateLiteral = e_StringLiteral

    def e_NumericLiteral(self, n, env):
        f = float(n["text"])
        return int(f) if f == int(f) else f

    def e_RegularExpressionLiteral(self, n, env):
        return self.regexp(n["text"])

    def e_TemplateExpression(self, n, env):
        out = [zs(n["head"]["text"])]
        for sp in n["templateSpans"]:
            out.append(self.string(self.eval(sp["expression"], env)))
            out.append(zs(sp["literal"]["text"]))
        return mks(concat(*out))

    def e_ParenthesizedExpression(self, n, env):
        return self.eval(n["expression"], env)

    def e_FunctionExpression(self, n, env, name=""):
        return JSFun(n, env, name=n["name"]["text"] if n.get("name") else name)
    e_ArrowFunction = e_FunctionExpression

    def e_ArrayLiteralExpression(self, n, env):
        return JSArr(self.args(n["elements"], env))

    def args(self, nodes, env):
        out = []
        for x in nodes:
            if x["k"] == "SpreadElement":
                out += self.items(self.eval(x["expression"], env))
            else:
                out.append(self.eval(x, env))
        return out

    def e_ObjectLiteralExpression(self, n, env):
        o = JSObj()
        for p in n["properties"]:
            nm = p.get("name")
            if nm is None or nm["k"] not in ("Identifier", "StringLiteral", "NumericLiteral"):
                raise Unsupported("property of an object literal")
            k = nm["text"]
            if p["k"] == "PropertyAssignment":
                if k == "__proto__":
                    raise Unsupported("__proto__")
                o.props[k] = self.eval(p["initializer"], env, k)
            elif p["k"] == "ShorthandPropertyAssignment":
                o.props[k] = self.eval(nm, env)
            elif p["k"] == "MethodDeclaration":
                o.props[k] = JSFun(dict(p, k="FunctionExpression", name=None), env, name=k)
            else:
                raise Unsupported("property of an object literal")
        return o

    def ref(self, n, env):
        """(object, key) of a property expression"""
        o = self.eval(n["expression"], env)
        if n["k"] == "PropertyAccessExpression":
            return o, n["name"]["text"]
        return o, self.key(self.eval(n["argumentExpression"], env))

    def e_PropertyAccessExpression(self, n, env):
        o, k = self.ref(n, env)
        if n.get("questionDotToken") and (o is UNDEF or o is None):
            return UNDEF
        return self.get(o, k)
    e_ElementAccessExpression = e_PropertyAccessExpression

    def e_CallExpression(self, n, env):
        f = n["expression"]
        while f["k"] == "ParenthesizedExpression":
            f = f["expression"]
        if f["k"] in ("PropertyAccessExpression", "ElementAccessExpression"):
            o, k = self.ref(f, env)
            if f.get("questionDotToken") and (o is UNDEF or o is None):
                return UNDEF
            fn = self.get(o, k)
            if n.get("questionDotToken") and (fn is UNDEF or fn is None):
                return UNDEF
            return self.call(fn, o, self.args(n["arguments"], env))
        fn = self.eval(f, env)
        return self.call(fn, UNDEF, self.args(n["arguments"], env))

    def construct(self, f, args):
        if not isinstance(f, JSFun) or f.node is None or f.node["k"] == "ArrowFunction":
            raise Unsupported("new %r" % (f,))
        p = self.get(f, "prototype")
        o = JSObj(proto=p if isinstance(p, JSObj) else None, ctor=f)
        self.made.append(o)
        r = self.call(f, o, args)
        return r if isinstance(r, JSObj) else o

    def e_NewExpression(self, n, env):
        return self.construct(self.eval(n["expression"], env), self.args(n.get("arguments", []), env))

    def e_TypeOfExpression(self, n, env):
        x = n["expression"]
        while x["k"] == "ParenthesizedExpression":
            x = x["expression"]
        if x["k"] == "Identifier" and env.find(x["text"]) is None and x["text"] not in self.globals.vars:
            return "undefined"
        return self.typeof(self.eval(x, env))

    def e_VoidExpression(self, n, env):
        self.eval(n["expression"], env)
        return UNDEF

    def e_ConditionalExpression(self, n, env):
        return self.eval(n["whenTrue"] if self.truth(self.eval(n["condition"], env)) else n["whenFalse"], env)

    def negate(self, v):
        return not v if isinstance(v, bool) else mkb(z3.Not(zb(v)))

    def e_PrefixUnaryExpression(self, n, env):
        op = n["operator"]
        if op == "!":
            t = self.truth_term(self.eval(n["operand"], env))
            return not t if isinstance(t, bool) else mkb(z3.simplify(z3.Not(t)))
        if op in ("++", "--"):
            return self.bump(n["operand"], 1 if op == "++" else -1, env)[1]
        if op == "-":
            v = self.eval(n["operand"], env)
            if isinstance(v, (int, SymInt)) and not isinstance(v, bool):
                return mki(z3.simplify(-zi(v)))
        raise Unsupported("operator %s" % op)

    def e_PostfixUnaryExpression(self, n, env):
        return self.bump(n["operand"], 1 if n["operator"] == "++" else -1, env)[0]

    def bump(self, t, d, env):
        v = self.eval(t, env)
        if not isinstance(v, (int, SymInt)) or isinstance(v, bool):
            raise Unsupported("++ of %r" % (v,))
        r = mki(z3.simplify(zi(v) + d))
        self.assign(t, r, env)
        return v, r

    def assign_name(self, n, v, env):
        e = env.find(n)
        if e is None:
            raise Unsupported("assignment to an undeclared variable")
        for limit, allowed in self.var_barriers:
            if e.oid < limit and (e, n) not in allowed:
                raise Unsupported("the loop assigns %s, outside the frame of its contract" % n)
        e.vars[n] = v

    def assign(self, t, v, env):
        while t["k"] == "ParenthesizedExpression":
            t = t["expression"]
        if t["k"] == "Identifier":
            self.assign_name(t["text"], v, env)
        elif t["k"] in ("PropertyAccessExpression", "ElementAccessExpression"):
            o, k = self.ref(t, env)
            self.put(o, k, v)
        else:
            raise Unsupported("assignment to %s" % t["k"])

    def plus(self, a, b):
        a, b = self.prim(a), self.prim(b)
        if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
            return mks(concat(self.string(a), self.string(b)))
        isnum = lambda x: isinstance(x, (int, SymInt)) and not isinstance(x, bool)
        if isnum(a) and isnum(b):
            return mki(z3.simplify(zi(a) + zi(b)))
        raise Unsupported("+ of %r and %r" % (a, b))

    def e_BinaryExpression(self, n, env):
        op = n["operatorToken"].get("tok")
        if op in ("&&", "||", "??"):
            a = self.eval(n["left"], env)
            if op == "??":
                return self.eval(n["right"], env) if a is UNDEF or a is None else a
            t = self.truth(a)
            return self.eval(n["right"], env) if t == (op == "&&") else a
        if op == "=":
            nm = n["left"].get("text", "") if n["left"]["k"] == "Identifier" else ""
            if n["left"]["k"] in ("PropertyAccessExpression", "ElementAccessExpression"):
                o, k = self.ref(n["left"], env)
                v = self.eval(n["right"], env, k if isinstance(k, str) else "")
                self.put(o, k, v)
                return v
            v = self.eval(n["right"], env, nm)
            self.assign(n["left"], v, env)
            return v
        if op == "+=":
            v = self.plus(self.eval(n["left"], env), self.eval(n["right"], env))
            self.assign(n["left"], v, env)
            return v
        if op == ",":
            self.eval(n["left"], env)
            return self.eval(n["right"], env)
        a, b = self.eval(n["left"], env), self.eval(n["right"], env)
        if op == "+":
            return self.plus(a, b)
        if op == "===":
            return self.strict_eq(a, b)
        if op == "!==":
            return self.negate(self.strict_eq(a, b))
        if op == "==":
            return self.loose_eq(a, b)
        if op == "!=":
            return self.negate(self.loose_eq(a, b))
        isnum = lambda x: isinstance(x, (int, SymInt)) and not isinstance(x, bool)
        if op in ("<", ">", "<=", ">=") and isnum(a) and isnum(b):
            x, y = zi(a), zi(b)
            return mkb(z3.simplify({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]))
        if op == "-" and isnum(a) and isnum(b):
            return mki(z3.simplify(zi(a) - zi(b)))
        if op == "instanceof":
            if not isinstance(b, JSFun):
                raise Unsupported("instanceof")
            if isinstance(a, JSObj) and "foreign" in a.ghost and b.native is not None:
                # an object of the application: a String, a Date, an array, anything
                return mkb(self.foreign_class(a, b.name))
            if b is self.globals.vars["Array"]:
                return isinstance(a, JSArr)
            if not isinstance(a, JSObj):
                return False
            p, o = self.get(b, "prototype"), a.proto
            while o is not None:
                if o is p:
                    return True
                o = o.proto
            return False
        if op == "in":
            o = b
            if isinstance(o, JSObj):
                if "dict" in o.ghost:
                    if self.truth(self.has_own(o, self.key(a))):
                        return True
                    return self.run.bool("inherited")
                k = self.key(a)
                return self.get(o, k) is not UNDEF if not isinstance(k, SymStr) else self.own(o, k) is not MISSING
        raise Unsupported("operator %s" % op)

    # ------------------------------------------------------------------ modules
    def load(self, path):
        """the value of an AMD module without dependencies"""
        out = []

        def define(js, this, a):
            f = [x for x in a if isinstance(x, JSFun)]
            if len(f) != 1 or out:
                raise Unsupported("define()")
            out.append(js.call(f[0], UNDEF, []))
            return UNDEF
        self.globals.vars["define"] = self.fun(define, "define")
        t = parse(path)
        self.hoist(t["statements"], self.globals)
        self.block(t["statements"], self.globals)
        if not out:
            raise Unsupported("no module is defined")
        return out[0]
