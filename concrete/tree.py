"""Template trees with an independent reference semantics.

A tree is built by a generator, written out as template source for the real compiler, and evaluated here directly from
the property statements (no code of the repository is used by the reference)."""
import ast as _ast
import builtins as _b
import re

CONST_CONDS = ["1", "0", "True", "False", "None", "not 0", "not 1", "''", "'x'", "[]", "not []", "()", "-1", "not not 1", "0.0", "{}", "'0'", "b''", "not 'a'"]
VOID_PARSE = {"area", "base", "br", "col", "embed", "hr", "img", "input", "keygen", "link", "meta", "param", "source", "track", "wbr"}
SELF_CLOSED = set("br hr input area base col img link meta param command keygen source".split())
TR_ATTRS = {"title", "alt", "placeholder", "value", "caption"}


class T:
    def __init__(self, s):
        self.s = s


class I:
    def __init__(self, expr, brace=True):
        self.expr, self.brace = expr, brace


class Cm:
    """comment"""
    def __init__(self, s):
        self.s = s


class Raw:
    """markup copied through: doctype"""
    def __init__(self, src, out):
        self.src, self.out = src, out


class El:
    def __init__(self, tag, attrs=(), dirs=None, kids=(), selfclose=False):
        self.tag, self.attrs, self.dirs, self.kids = tag, list(attrs), dict(dirs or {}), list(kids)
        self.selfclose = selfclose


class Ctl:
    """control element: kind in if/for/def/with/vars/block/replace"""
    ATTR = {"if": "test", "for": "each", "def": "function", "with": "vars", "vars": "names", "block": "name", "replace": "value"}

    def __init__(self, kind, arg, kids=(), dirs=None):
        self.kind, self.arg, self.kids, self.dirs = kind, arg, list(kids), dict(dirs or {})


# ------------------------------------------------------------------------------------------------- source
def enc_text(s, rnd=None):
    out = []
    for c in s:
        if c == "&":
            out.append("&amp;")
        elif c == "<":
            out.append("&lt;")
        elif c == ">" and (rnd is None or rnd.random() < .5):
            out.append("&gt;")
        elif c == '"' and rnd is not None and rnd.random() < .3:
            out.append("&quot;")
        elif c == "\xe4" and rnd is not None and rnd.random() < .3:
            out.append(rnd.choice(["&auml;", "&#228;", "&#xe4;", "&#XE4;"]))
        else:
            out.append(c)
    return "".join(out)


def enc_attr(s):
    return s.replace("&", "&amp;").replace('"', "&quot;").replace("<", "&lt;")


def dollars(s, rnd=None):
    """template spelling of literal text"""
    out = []
    for i, c in enumerate(s):
        if c != "$":
            out.append(c)
            continue
        nxt = s[i + 1] if i + 1 < len(s) else ""
        if nxt and not re.match(r"[a-zA-Z_{$]", nxt) and (rnd is None or rnd.random() < .6):
            out.append("$")
        else:
            out.append("$$")
    return "".join(out)


def interp_src(n, nxt):
    if n.brace or (nxt and re.match(r"[\w.(\[]", nxt)):
        return "${" + n.expr + "}"
    return "$" + n.expr


def parts_src(parts, rnd, enc):
    out = ""
    for i, p in enumerate(parts):
        if isinstance(p, T):
            out += enc(dollars(p.s, rnd))
        else:
            nx = parts[i + 1] if i + 1 < len(parts) else None
            nxt = nx.s[:1] if isinstance(nx, T) else ""
            out += enc(interp_src(p, nxt))
    return out


def src(nodes, rnd=None, prefix="py:", raw=False):
    out = []
    nodes = list(nodes)
    for i, n in enumerate(nodes):
        nx = nodes[i + 1] if i + 1 < len(nodes) else None
        if isinstance(n, T):
            t = dollars(n.s, rnd)
            out.append(t if raw else enc_text(t, rnd))
        elif isinstance(n, I):
            t = interp_src(n, nx.s[:1] if isinstance(nx, T) else "")
            out.append(t if raw else enc_text(t))
        elif isinstance(n, Cm):
            out.append("<!--" + n.s + "-->")
        elif isinstance(n, Raw):
            out.append(n.src)
        elif isinstance(n, Ctl):
            a = ' %s="%s"' % (Ctl.ATTR[n.kind], enc_attr(n.arg))
            for k, v in n.dirs.items():
                a += ' %s%s="%s"' % (prefix, k, enc_attr(v))
            out.append("<%s%s%s>" % (prefix, n.kind, a) + src(n.kids, rnd, prefix) + "</%s%s>" % (prefix, n.kind))
        elif isinstance(n, El):
            items = []
            for k, v in n.attrs:
                if v is None:
                    items.append(" " + k)
                else:
                    items.append(' %s="%s"' % (k, parts_src(v, rnd, enc_attr)))
            ds = [' %s%s="%s"' % (prefix, k, enc_attr(v)) for k, v in n.dirs.items()]
            if rnd is not None and rnd.random() < .5:
                items = ds + items
            else:
                items = items + ds
            a = "".join(items)
            if n.tag in VOID_PARSE:
                out.append("<%s%s%s>" % (n.tag, a, rnd.choice(["", "/", " /"]) if rnd else "/"))
            elif n.selfclose and not n.kids:
                out.append("<%s%s/>" % (n.tag, a))
            else:
                cd = n.tag in ("script", "style")
                out.append("<%s%s>" % (n.tag, a) + src(n.kids, rnd, prefix, cd) + "</%s>" % n.tag)
    return "".join(out)


# ------------------------------------------------------------------------------------------------- reference
class RefMarkup(str):
    def __html__(self):
        return self


def esc(v):
    h = getattr(v, "__html__", None)
    if h is not None:
        return str.__str__(h()) if isinstance(h(), str) else str(h())
    return "".join({"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&#34;", "'": "&#39;"}.get(c, c) for c in str(v))


def esc_raw(s):
    return "".join({"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&#34;", "'": "&#39;"}.get(c, c) for c in s)


def assigned(code):
    """names stored by code (not inside nested functions or comprehensions)"""
    out = set()

    def go(n):
        if isinstance(n, _ast.Name) and isinstance(n.ctx, _ast.Store):
            out.add(n.id)
        if isinstance(n, (_ast.Lambda, _ast.FunctionDef, _ast.ListComp, _ast.SetComp, _ast.DictComp, _ast.GeneratorExp)):
            return
        for c in _ast.iter_child_nodes(n):
            go(c)
    go(_ast.parse(code))
    return out


class Frame(dict):
    """A function-level scope. `declared` are the names that are local to it, whether bound yet or not."""
    def __init__(self, parent=None, declared=()):
        super().__init__()
        self.parent = parent
        self.declared = set(declared)


def is_static(expr):
    try:
        t = _ast.parse(expr.strip(), mode="eval").body
    except SyntaxError:
        return None

    def ev(n):
        if isinstance(n, _ast.UnaryOp) and isinstance(n.op, _ast.Not):
            return not ev(n.operand)
        return _ast.literal_eval(n)
    try:
        return bool(ev(t))
    except Exception:
        return None


WS = re.compile(r"\A(\s*)(.*?)(\s*)\Z", re.S)


class Ref:
    def __init__(self, nodes, ctx, tr=None, empty_tags=SELF_CLOSED):
        self.nodes, self.ctx, self.tr = nodes, ctx, tr
        self.top = {}
        self.blocks = {}
        self.empty_tags = empty_tags
        self.base = {k: getattr(_b, k) for k in dir(_b) if not k.startswith("__")}
        self.base["literal"] = lambda x: x
        self.base["gettext"] = lambda x: x
        if tr is not None:
            self.base["gettext"] = tr

    # names
    def names(self, frame):
        g = dict(self.top)
        g.update(self.base)
        g.update(self.ctx)
        chain = []
        while frame is not None:
            chain.append(frame)
            frame = frame.parent
        for f in reversed(chain):
            for k in f.declared:
                g.pop(k, None)
            g.update(f)
        g["__builtins__"] = {"__import__": __import__}
        return g

    def ev(self, expr, frame):
        return eval(compile(expr, "<ref>", "eval"), self.names(frame))

    # what a text position writes for an expression
    def out_expr(self, expr, frame):
        t = _ast.parse(expr, mode="eval").body
        if isinstance(t, _ast.Call) and isinstance(t.func, _ast.Name) and t.func.id == "literal" and len(t.args) == 1:
            return str(self.ev(_ast.unparse(t.args[0]), frame))
        return esc(self.ev(expr, frame))

    def text(self, s, cdata, notr=False):
        if self.tr is None or notr or cdata:
            return s if cdata else esc_raw(s)
        a, m, z = WS.match(s).groups()
        return esc_raw(a) + (esc(self.tr(m)) if m else "") + esc_raw(z)

    def attr(self, name, value, notr):
        """(is constant, thunk)"""
        tr = self.tr is not None and name in TR_ATTRS and not notr
        if value is None:
            return True, lambda f: " " + name
        if not any(isinstance(p, I) for p in value):
            s = "".join(p.s for p in value)
            const = not tr or (s != "" and not s.strip())
            if WS.match(s).group(2) == "" and s != "":
                const = True
            return const, lambda f: ' %s="%s"' % (name, self.text(s, False, not tr))
        if len(value) == 1:
            def one(f):
                return self.boolattr(name, self.ev(value[0].expr, f))
            return False, one

        def mixed(f):
            return ' %s="%s"' % (name, "".join(self.text(p.s, False, not tr) if isinstance(p, T) else self.out_expr(p.expr, f) for p in value))
        return False, mixed

    def boolattr(self, name, v):
        if v is None or v is False:
            return ""
        if v is True:
            return ' %s="%s"' % (name, name)
        return ' %s="%s"' % (name, esc(v))

    def wrap(self, layers, body, frame, top, node=None):
        """layers: [(kind, arg)] outermost first"""
        if not layers:
            return body(frame, top)
        (kind, arg), rest = layers[0], layers[1:]

        def inner(fr, tp=False):
            return self.wrap(rest, body, fr, tp, node)
        if kind == "if":
            st = is_static(arg)
            if st is None:
                return inner(frame) if self.ev(arg, frame) else ""
            return inner(frame, top) if st else ""
        if kind == "for":
            target, it = re.split(r"\s+in\s+", arg, maxsplit=1)
            out = []
            for x in self.ev(it, frame):
                ns = {}
                exec("%s = __it" % target, {"__it": x, "__builtins__": {}}, ns)
                frame.update(ns)
                out.append(inner(frame))
            return "".join(out)
        if kind in ("with", "vars"):
            fr = Frame(frame, assigned(arg) | self.declared_in(rest, node))
            for stmt in _ast.parse(arg.lstrip()).body:
                ns = {}
                exec(compile(_ast.Module([stmt], []), "<ref>", "exec"), self.names(fr), ns)
                fr.update(ns)
            return inner(fr)
        if kind == "def":
            if not top:
                name, fn = self.mkdef(arg, inner, frame, self.declared_in(rest, node))
                frame[name] = fn
            return ""
        if kind == "block":
            f = self.ctx.get(arg, self.base.get(arg, self.blocks.get(arg)))
            return str(f())
        raise AssertionError(kind)

    def declared_in(self, layers, node):
        """names made local to the function-level scope whose body is `layers` around `node`"""
        out = set()
        if node is None:
            return out
        for kind, arg in layers:
            if kind == "for":
                out |= assigned("for %s: pass" % arg)
            elif kind == "if" and is_static(arg) is False:
                return out
            elif kind == "def":
                out.add(arg.partition("(")[0].strip())
                return out
            elif kind in ("with", "vars", "block"):
                return out
        if not isinstance(node, (El, Ctl)) or "replace" in node.dirs or node.dirs.get("content"):
            return out
        for k in node.kids:
            if isinstance(k, (El, Ctl)):
                out |= self.declared_in(self.layers(k), k)
        return out

    def mkdef(self, spec, inner, frame, declared=()):
        name = spec.partition("(")[0].strip()
        sig = spec if "(" in spec else spec + "()"
        g = self.names(frame)
        ns = {}

        def body(loc):
            fr = Frame(frame, declared)
            fr.update(loc)
            return RefMarkup(inner(fr))
        g["__body"] = body
        exec("def %s: return __body(dict(locals()))" % sig, g, ns)
        return name, ns[name]

    def layers(self, n):
        ls = []
        if isinstance(n, Ctl) and n.kind != "replace":
            ls.append((n.kind, n.arg))
        for k in ("block", "if", "for", "def", "with", "vars"):
            if k in n.dirs:
                ls.append((k, n.dirs[k]))
        return ls

    def collect(self, nodes, top, cdata, notr):
        """register blocks everywhere and definitions at top level before anything is rendered"""
        for n in nodes:
            if not isinstance(n, (El, Ctl)):
                continue
            ls = self.layers(n)
            cd = cdata or (isinstance(n, El) and n.tag in ("script", "style"))
            nt = notr or cd
            t = top
            dead = False
            for i, (kind, arg) in enumerate(ls):
                if kind == "if":
                    st = is_static(arg)
                    if st is False:
                        dead = True
                        break
                    if st is None:
                        t = False
                elif kind == "block":
                    def mk(i=i, n=n, cdata=cdata, notr=notr):
                        rest = ls[i + 1:]
                        return lambda: RefMarkup(self.wrap(rest, lambda fr, tp: self.body(n, fr, tp, cdata, notr), Frame(None, self.declared_in(rest, n)), False, n))
                    self.blocks[arg] = mk()
                    self.top.setdefault(arg, self.blocks[arg])
                    t = False
                elif kind == "def":
                    if t:
                        rest = ls[i + 1:]
                        nm, fn = self.mkdef(arg, lambda fr, tp=False, rest=rest, n=n, cdata=cdata, notr=notr: self.wrap(rest, lambda f2, t2: self.body(n, f2, t2, cdata, notr), fr, False, n), None, self.declared_in(rest, n))
                        self.top.setdefault(nm, fn)
                    t = False
                else:
                    t = False
            if not dead and "replace" not in n.dirs and not n.dirs.get("content"):
                self.collect(n.kids, t, cd, nt)

    def body(self, n, frame, top, cdata, notr):
        """the element itself, inside its directives"""
        if isinstance(n, Ctl):
            if n.kind == "replace":
                return self.out_expr(n.arg, frame)
            if "replace" in n.dirs:
                return self.out_expr(n.dirs["replace"], frame)
            if n.dirs.get("content"):
                return self.out_expr(n.dirs["content"], frame)
            return self.run(n.kids, frame, top, cdata, notr)
        if "replace" in n.dirs:
            return self.out_expr(n.dirs["replace"], frame)
        cd = cdata or n.tag in ("script", "style")
        nt = notr or n.tag in ("script", "style")
        strip = n.dirs.get("strip")
        start = ""

        def tags():
            consts, comps = [], []
            for k, v in n.attrs:
                c, th = self.attr(k, v, notr)
                (consts if c else comps).append(th)
            s = "<" + n.tag + "".join(t(frame) for t in consts) + "".join(t(frame) for t in comps)
            if n.dirs.get("attrs"):
                v = self.ev(n.dirs["attrs"], frame)
                if v:
                    for k, x in (v.items() if hasattr(v, "items") else v):
                        s += self.boolattr(k, x)
            return s
        has_kids = bool(n.dirs.get("content")) or any(not (isinstance(k, Cm) and k.s.strip().startswith("!")) for k in n.kids)
        stripped = False
        if strip is not None:
            stripped = True if not strip.strip() else bool(self.ev(strip, frame))
        if not stripped:
            start = tags()
        if not has_kids:
            if stripped:
                return ""
            return start + (" />" if n.tag in self.empty_tags else "></%s>" % n.tag)
        if n.dirs.get("content"):
            inner = self.out_expr(n.dirs["content"], frame)
        else:
            inner = self.run(n.kids, frame, top, cd, nt)
        if stripped:
            return inner
        return start + ">" + inner + "</%s>" % n.tag

    def run(self, nodes, frame, top, cdata=False, notr=False):
        out = []
        for n in nodes:
            if isinstance(n, T):
                out.append(self.text(n.s, cdata, notr))
            elif isinstance(n, I):
                out.append(self.out_expr(n.expr, frame))
            elif isinstance(n, Cm):
                if not n.s.strip().startswith("!"):
                    out.append("<!--" + n.s + "-->")
            elif isinstance(n, Raw):
                out.append(n.out)
            else:
                out.append(self.wrap(self.layers(n), lambda f, t, n=n: self.body(n, f, t, cdata, notr), frame, top, n))
        return "".join(out)

    def render(self):
        self.collect(self.nodes, True, False, False)
        root = Frame()
        for n in self.nodes:
            if isinstance(n, (El, Ctl)):
                root.declared |= self.main_declared(n)
        return self.run(self.nodes, root, True)

    def main_declared(self, n, top=True):
        """as declared_in, but definitions at top level are not local"""
        out = set()
        for kind, arg in self.layers(n):
            if kind == "for":
                out |= assigned("for %s: pass" % arg)
                top = False
            elif kind == "if":
                st = is_static(arg)
                if st is False:
                    return out
                if st is None:
                    top = False
            elif kind == "def":
                if not top:
                    out.add(arg.partition("(")[0].strip())
                return out
            else:
                return out
        if "replace" in n.dirs or n.dirs.get("content"):
            return out
        for k in n.kids:
            if isinstance(k, (El, Ctl)):
                out |= self.main_declared(k, top)
        return out


def reference(nodes, ctx, tr=None):
    return Ref(nodes, ctx, tr).render()


def real(source, ctx, translatable=False, filename="<string>"):
    from tonnikala.loader import Loader
    return Loader(translatable=translatable).load_string(source, filename=filename).render(ctx)
