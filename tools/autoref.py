#!/opt/venv/bin/python
"""autoref.py STAGE: systematic behaviour-preserving rewrites of the package's functions (scratch copies only); the
checks have to stay quiet on every one of them.
  prove [substr]   each rewrite of each function that a unit executes: the package's tests, then the units that execute it
  show WHAT        lists results that start with WHAT (refuted = a false alarm of the contracts, undecided = quiet but lost)
Rewrites: see REWRITES. Results in /tmp/w/ar/results.json; can be stopped and resumed."""
import ast, copy, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import automut as A
OUT = A.OUT = "/tmp/w/ar"
RW = {}


def rw(f):
    RW[f.__name__] = f
    return f


def fresh(fn, base):
    used = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    i = 1
    while base + str(i) in used:
        i += 1
    return base + str(i)


def own(body):
    """statements' nodes of this function, without nested functions and classes"""
    for s in body:
        yield from _own(s)


def _own(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
        return
    for c in ast.iter_child_nodes(n):
        yield from _own(c)


def blocks(fn):
    for n in own(fn.body):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                yield n, f, b
    yield fn, "body", fn.body


def locals_(fn):
    st = {n.id for n in own(fn.body) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    gl = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
    return st - gl


@rw
def rename_locals(fn):
    ls = locals_(fn)
    inner = {a.arg for n in ast.walk(fn) if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)) for a in ast.walk(n.args) if isinstance(a, ast.arg)}
    ls -= inner | {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
    if not ls or any(isinstance(n, ast.Name) and n.id in ("locals", "exec", "eval") for n in ast.walk(fn)):
        return False
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in ls:
            n.id = n.id + "_x"
        if isinstance(n, ast.ExceptHandler) and n.name in ls:
            n.name += "_x"
    return True


@rw
def invert_ifs(fn):
    ok = False
    for n in own(fn.body):
        if isinstance(n, ast.If) and n.orelse:
            n.test = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
            ok = True
        if isinstance(n, ast.IfExp):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
            ok = True
    return ok


@rw
def early_return_to_else(fn):
    ok = False
    for n, f, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and i + 1 < len(b) and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                ok = True
                break
    return ok


@rw
def else_to_early_return(fn):
    ok = False
    for n, f, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                b[i + 1:i + 1] = s.orelse
                s.orelse = []
                ok = True
            i += 1
    return ok


@rw
def comprehension_to_loop(fn):
    """assignment or return of a list comprehension / generator in join, tuple, list"""
    ok = False
    for n, f, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None:
                v = s.value
                c = v if isinstance(v, ast.ListComp) else v.args[0] if isinstance(v, ast.Call) and len(v.args) == 1 and not v.keywords and isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)) \
                    and (isinstance(v.func, ast.Attribute) and v.func.attr in ("join", "extend") and isinstance(v.func.value, (ast.Constant, ast.Name)) or isinstance(v.func, ast.Name) and v.func.id in ("list", "tuple", "dict", "set")) else None
                if c is not None and len(c.generators) == 1 and not any(isinstance(x, (ast.Yield,)) for x in ast.walk(c)):
                    g = c.generators[0]
                    # the comprehension's variable must not clash with a local
                    names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                    rest = {x.id for x in own(fn.body) if isinstance(x, ast.Name)} | {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
                    cin = {id(x) for x in ast.walk(c)}
                    rest = {x.id for x in own(fn.body) if isinstance(x, ast.Name) and id(x) not in cin} | {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
                    if names & rest or any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp)) for x in ast.walk(c.elt)):
                        i += 1
                        continue
                    t = fresh(fn, "items_")
                    add = ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [c.elt], []))
                    body = [add]
                    for cond in reversed(g.ifs):
                        body = [ast.If(cond, body, [])]
                    loop = ast.For(g.target, g.iter, body, [], lineno=s.lineno)
                    ini = ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load()), lineno=s.lineno)
                    if v is c:
                        s.value = ast.Name(t, ast.Load())
                    else:
                        v.args[0] = ast.Name(t, ast.Load())
                    b[i:i] = [ini, loop]
                    i += 2
                    ok = True
            i += 1
    return ok


@rw
def loop_to_comprehension(fn):
    ok = False
    for n, f, b in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            s, l = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(l, ast.For) and len(l.body) == 1 and not l.orelse:
                x = l.body[0]
                cond = []
                while isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
                    cond.append(x.test)
                    x = x.body[0]
                t = s.targets[0].id
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "append" and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == t \
                        and not any(isinstance(z, ast.Name) and z.id == t for z in ast.walk(x.value.args[0])):
                    s.value = ast.ListComp(x.value.args[0], [ast.comprehension(l.target, l.iter, cond, 0)])
                    del b[i + 1]
                    ok = True
            i += 1
    return ok


@rw
def for_to_while(fn):
    ok = False
    for n, f, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and not s.orelse and not any(isinstance(x, ast.Continue) for x in own(s.body)) :
                it, nx = fresh(fn, "it_"), fresh(fn, "end_")
                get = ast.parse("%s = next(%s, %s)" % ("zz_" + it, it, nx)).body[0]
                w = ast.parse("%s = iter(X)\n%s = object()\nzz_%s = next(%s, %s)\nwhile zz_%s is not %s:\n    pass" % (it, nx, it, it, nx, it, nx)).body
                w[0].value.args[0] = s.iter
                w[3].body = [ast.Assign([s.target], ast.Name("zz_" + it, ast.Load()), lineno=s.lineno)] + s.body + [get]
                b[i:i + 1] = w
                ok = True
                break
    return ok


@rw
def for_enumerate(fn):
    ok = False
    for n in own(fn.body):
        if isinstance(n, ast.For):
            n.target = ast.Tuple([ast.Name(fresh(fn, "pos_"), ast.Store()), n.target], ast.Store())
            n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [n.iter], [])
            ok = True
    return ok


@rw
def for_list(fn):
    """the iterated value through list() first: same when the body does not change it"""
    ok = False
    for n in own(fn.body):
        if isinstance(n, ast.For) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(fn.body)):
            n.iter = ast.Call(ast.Name("list", ast.Load()), [n.iter], [])
            ok = True
    return ok


@rw
def and_to_nested_if(fn):
    ok = False
    for n in own(fn.body):
        if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            inner = ast.If(n.test.values[-1], n.body, [])
            n.test = n.test.values[0] if len(n.test.values) == 2 else ast.BoolOp(ast.And(), n.test.values[:-1])
            n.body = [inner]
            ok = True
    return ok


@rw
def tests_in_locals(fn):
    ok = False
    for n, f, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If) and not (n.__class__ is ast.If and f == "orelse" and i == 0 and len(b) == 1 and False):
                t = fresh(fn, "cond_")
                b.insert(i, ast.Assign([ast.Name(t, ast.Store())], s.test, lineno=s.lineno))
                s.test = ast.Name(t, ast.Load())
                ok = True
                i += 1
            i += 1
    return ok


@rw
def returns_in_locals(fn):
    ok = False
    for n, f, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                t = fresh(fn, "res_")
                b.insert(i, ast.Assign([ast.Name(t, ast.Store())], s.value, lineno=s.lineno))
                s.value = ast.Name(t, ast.Load())
                ok = True
                i += 1
            i += 1
    return ok


@rw
def args_in_locals(fn):
    """call statements' arguments evaluated into locals first"""
    ok = False
    for n, f, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            v = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) else None
            if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and v.args and not any(isinstance(a, ast.Starred) for a in v.args) and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(v)):
                if isinstance(v.func, ast.Attribute) and not isinstance(v.func.value, ast.Name):
                    i += 1
                    continue
                for k, a in enumerate(v.args):
                    if isinstance(a, (ast.Name, ast.Constant)):
                        continue
                    t = fresh(fn, "arg_")
                    b.insert(i, ast.Assign([ast.Name(t, ast.Store())], a, lineno=s.lineno))
                    v.args[k] = ast.Name(t, ast.Load())
                    ok = True
                    i += 1
            i += 1
    return ok


@rw
def format_strings(fn):
    """'...%s...' % x -> '...{}...'.format(x); .format -> f-string-like concatenation"""
    ok = False

    class T(ast.NodeTransformer):
        def visit_BinOp(self, n):
            nonlocal ok
            self.generic_visit(n)
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and n.left.value.replace("%s", "").count("%") == 0 and "{" not in n.left.value and "}" not in n.left.value:
                args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
                if len(args) == n.left.value.count("%s"):
                    ok = True
                    return ast.Call(ast.Attribute(ast.Constant(n.left.value.replace("%s", "{}")), "format", ast.Load()), args, [])
            return n

        def visit_Call(self, n):
            nonlocal ok
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == "format" and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str) and not n.keywords and "%" not in n.func.value.value:
                parts = n.func.value.value.split("{}")
                if len(parts) == len(n.args) + 1 and not any("{" in p or "}" in p for p in parts):
                    ok = True
                    vals = []
                    for p, a in zip(parts, n.args + [None]):
                        if p:
                            vals.append(ast.Constant(p))
                        if a is not None:
                            vals.append(ast.FormattedValue(a, -1, None))
                    return ast.JoinedStr(vals)
            return n
    T().visit(fn)
    return ok


@rw
def nothing(fn):
    fn.body.insert(1 if ast.get_docstring(fn) else 0, ast.Pass())
    return True


@rw
def try_wrap(fn):
    """body wrapped in try/finally with a no-op"""
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(fn.body)):
        return False
    k = 1 if ast.get_docstring(fn) else 0
    fn.body[k:] = [ast.Try(fn.body[k:], [], [], [ast.Pass()])]
    return True


@rw
def swap_independent(fn):
    """neighbouring assignments of plain values to different locals swapped"""
    ok = False

    def simple(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not any(isinstance(x, (ast.Call, ast.Subscript, ast.Attribute, ast.Yield)) for x in ast.walk(s.value))

    def names(s):
        return {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
    for n, f, b in list(blocks(fn)):
        for i in range(len(b) - 1):
            if simple(b[i]) and simple(b[i + 1]) and b[i].targets[0].id not in names(b[i + 1]) and b[i + 1].targets[0].id not in names(b[i]):
                b[i], b[i + 1] = b[i + 1], b[i]
                ok = True
    return ok


@rw
def augassign(fn):
    ok = False

    class T(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            nonlocal ok
            if isinstance(n.target, ast.Name) and isinstance(n.value, (ast.Constant, ast.JoinedStr)) or isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "len":
                ok = True
                return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value), lineno=n.lineno)
            return n

        def visit_FunctionDef(self, n):
            if n is fn:
                self.generic_visit(n)
            return n
    T().visit(fn)
    return ok


def extract(kind):
    def f(fn, k=None):
        """the tail of the function, or the body of its first block, moved into a helper"""
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global, ast.FunctionDef, ast.ClassDef)) or isinstance(x, ast.Name) and x.id in ("super", "locals", "__class__") for s in fn.body for x in ast.walk(s)):
            return False
        d = 1 if ast.get_docstring(fn) else 0
        body = fn.body[d:]
        if len(body) < 2:
            return False
        cut = d + (len(body) + 1) // 2
        head, tail = fn.body[:cut], fn.body[cut:]
        params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs] + ([fn.args.vararg.arg] if fn.args.vararg else []) + ([fn.args.kwarg.arg] if fn.args.kwarg else [])
        known = set(params)
        sure = set(params)
        for s in head:      # names surely bound by the head
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    sure |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        every = {x.id for s in head for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        need = {x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del))}
        need |= {x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name)} & (every | known)
        maybe = need & (every - sure)
        if maybe:
            return False
        use = sorted(need & sure)
        h = ast.FunctionDef("_helper_of_" + fn.name.strip("_"), ast.arguments([], [ast.arg(u) for u in use], None, [], [], None, []), tail, [], lineno=fn.lineno)
        call = ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(u, ast.Load()) for u in use], [])
        fn.body = head + [ast.Return(call)]
        return ("module", h)
    f.__name__ = kind
    return f


RW["extract_tail"] = extract("extract_tail")


def targets():
    T = A.touched()
    return sorted({(t[0], t[1]) for ts in T.values() for t in ts})


def find(tree, q):
    def go(body, q):
        for s in body:
            if isinstance(s, (ast.ClassDef, ast.FunctionDef)) and s.name == q[0]:
                if len(q) == 1:
                    return s
                return go(s.body, q[1:])
            if isinstance(s, (ast.Try, ast.If)):
                for b in (s.body, s.orelse, [x for h in getattr(s, "handlers", []) for x in h.body]):
                    r = go(b, q)
                    if r is not None:
                        return r
    return go(tree.body, [x for x in q.split(".") if x != "<locals>"])


def gen():
    out = []
    for mod, q in targets():
        if not mod.startswith("tonnikala"):
            continue
        f = mod.replace(".", "/") + ".py"
        if not os.path.exists(os.path.join(A.REPO, f)):
            f = mod.replace(".", "/") + "/__init__.py"
        src = open(os.path.join(A.REPO, f)).read()
        for name, r in RW.items():
            tree = ast.parse(src)
            fn = find(tree, q)
            if not isinstance(fn, ast.FunctionDef):
                break
            try:
                v = r(fn)
            except Exception as e:
                print("!!", q, name, repr(e))
                continue
            if not v:
                continue
            if isinstance(v, tuple):
                tree.body.append(v[1])
            new = ast.unparse(ast.fix_missing_locations(tree))
            try:
                compile(new, f, "exec")
            except SyntaxError as e:
                print("!!", q, name, e)
                continue
            out.append(dict(id="%s:%s:%s" % (mod, q, name), mod=mod, q=q, f=f, new=new, rw=name))
    return out


def run(c, m):
    p = os.path.join(c.r, m["f"])
    open(p, "w").write(m["new"])
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=c.r)
        rc, o = A.sh("cd %s && /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --no-cov -W ignore 2>&1 | tail -4" % c.r, 90, env=env)
        last = (o.strip().splitlines() or ["?"])[-1]
        if not ("passed" in last and "failed" not in last and "error" not in last):
            return "not equivalent " + o[-300:]
        us = sorted(u for u, ts in A.touched().items() if any(t[0] == m["mod"] and (t[1] == m["q"] or t[1].startswith(m["q"] + ".")) for t in ts))
        rc, o = A.sh("/opt/venv/bin/python %s/bin/prove.py %s" % (A.ROOT, " ".join("=" + u for u in us)), 400, env=dict(os.environ, TK_REPO=c.r))
        ref = [l.split()[1] for l in o.splitlines() if l.startswith("refuted")]
        oth = [l[:200] for l in o.splitlines() if l.split()[:1] and l.split()[0] in ("unsupported", "unknown", "error")]
        return ("refuted " + " ".join(ref)) if ref else ("undecided " + " | ".join(oth)) if oth else "proved %d" % len(us)
    finally:
        __import__("shutil").copy(os.path.join(A.REPO, m["f"]), p)


class M(dict):
    pass


if __name__ == "__main__":
    if sys.argv[1] == "prove":
        A.Copy.put = lambda self, m: None
        A.Copy.undo = lambda self, m: None
        ms = [m for m in gen() if len(sys.argv) < 3 or sys.argv[2] in m["id"]]
        A.stage("r", ms, run)
    else:
        from collections import Counter
        res = A.load()
        print(Counter(v["r"].split()[0] for v in res.values()))
        for k, v in sorted(res.items()):
            if v["r"].startswith(sys.argv[2] if len(sys.argv) > 2 else "refuted"):
                print(k, "=>", v["r"][:300])
