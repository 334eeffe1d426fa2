#!/opt/venv/bin/python
"""automut.py STAGE [args]: systematic mutation of the package (scratch copies only).
  gen           list of mutants -> /tmp/w/am/mutants.json
  tests         runs the package's tests on each; keeps the survivors
  prove         runs the contract units that execute the changed function on each survivor
  conc          runs the bounded parts (all properties) on what no unit refutes
Results in /tmp/w/am/results.json. Every stage can be stopped and resumed."""
import ast, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
OUT = "/tmp/w/am"
REPO = os.environ.get("AM_REPO", "/repo")
JOBS = int(os.environ.get("JOBS", "6"))
FILES = ["expr.py", "helpers/__init__.py", "i18n/__init__.py", "ir/generate.py", "ir/nodes.py", "languages/base.py", "languages/python/__init__.py",
         "languages/python/astalyzer.py", "languages/python/generator.py", "languages/javascript/__init__.py", "languages/javascript/generator.py", "languages/javascript/jslex.py",
         "loader.py", "pyramid/__init__.py", "runtime/debug.py", "runtime/exceptions.py", "runtime/python.py", "syntaxes/docparser.py", "syntaxes/tonnikala.py"]
SKIPQ = {"TonnikalaXMLParser", "render_as_text", "render_as_html", "__repr__", "_init_ugly_crap", "LocationMapper", "ast_equals"}


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.stack = src, [], []
        self.lines = [0]
        b = src.encode()
        self.b = b
        for l in b.splitlines(True):
            self.lines.append(self.lines[-1] + len(l))

    def span(self, n):
        return self.lines[n.lineno - 1] + n.col_offset, self.lines[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, z = self.span(n)
        return self.b[a:z].decode()

    def add(self, n, new, what):
        a, z = self.span(n)
        if self.b[a:z].decode() != new:
            self.out.append(dict(start=a, end=z, new=new, what=what, line=n.lineno, q=".".join(self.stack), old=self.b[a:z].decode()[:200]))

    def visit_FunctionDef(self, n):
        if n.name in SKIPQ or (n.name == "__str__" and "Template" not in "".join(self.stack)):
            return
        self.stack.append(n.name)
        for x in n.args.defaults:
            self.visit(x)
        for x in n.body:
            self.visit(x)
        self.stack.pop()

    def visit_ClassDef(self, n):
        if n.name in SKIPQ:
            return
        self.stack.append(n.name)
        for x in n.body:
            self.visit(x)
        self.stack.pop()

    def generic_visit(self, n):
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.Import, ast.ImportFrom, ast.Pass)):
            doc = isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)
            if doc:
                return
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
                self.add(n, "pass", "delete statement")
            if isinstance(n, (ast.If, ast.For, ast.While)) and self.stack:
                if not isinstance(n, ast.If) or n.orelse:
                    self.add(n, "pass", "delete block")
            if isinstance(n, (ast.If, ast.While)):
                if isinstance(n, ast.If):
                    self.add(n.test, "True", "condition true")
                    self.add(n.test, "False", "condition false")
            if isinstance(n, ast.For) and self.stack:
                self.add(n.iter, "list(%s)[1:]" % self.text(n.iter), "first item left out")
                self.add(n.iter, "list(%s)[:-1]" % self.text(n.iter), "last item left out")
                self.add(n.iter, "list(%s)[::-1]" % self.text(n.iter), "reversed")
            if isinstance(n, ast.Return) and n.value is not None:
                self.add(n.value, "None", "return None")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
            self.add(n, "%s %s %s" % (self.text(n.left), sw[type(n.ops[0])], self.text(n.comparators[0])), "comparison")
        if isinstance(n, ast.BoolOp):
            op = "or" if isinstance(n.op, ast.And) else "and"
            self.add(n, "(" + (" %s " % op).join(self.text(v) for v in n.values) + ")", "and/or")
            for i in range(len(n.values)):
                self.add(n, "(" + (" or " if op == "and" else " and ").join(self.text(v) for j, v in enumerate(n.values) if j != i) + ")", "operand left out")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.add(n, "(%s)" % self.text(n.operand), "not left out")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            self.add(n, "%s %s %s" % (self.text(n.left), "-" if isinstance(n.op, ast.Add) else "+", self.text(n.right)), "+/-")
            self.add(n, "(%s)" % self.text(n.left), "left operand")
            self.add(n, "(%s)" % self.text(n.right), "right operand")
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                self.add(n, repr(not v), "constant")
            elif isinstance(v, int):
                self.add(n, repr(v + 1), "constant")
                if v:
                    self.add(n, repr(v - 1), "constant")
            elif isinstance(v, str) and self.stack:
                self.add(n, repr(v[:-1]) if len(v) > 1 else repr(v + "x"), "constant")
        if isinstance(n, ast.Call) and self.stack:
            if isinstance(n.func, ast.Attribute) and not isinstance(n.func.value, ast.Call):
                self.add(n, "(%s)" % self.text(n.func.value), "call replaced by its object")
            if len(n.args) >= 1 and not any(isinstance(a, ast.Starred) for a in n.args) and isinstance(n.func, ast.Name):
                self.add(n, "(%s)" % self.text(n.args[0]), "call replaced by its argument")
            for k in n.keywords:
                if k.arg:
                    args = [self.text(a) for a in n.args] + [self.text(x) for x in n.keywords if x is not k]
                    self.add(n, "%s(%s)" % (self.text(n.func), ", ".join(args)), "keyword left out")
            if len(n.args) == 2:
                self.add(n, "%s(%s)" % (self.text(n.func), ", ".join([self.text(n.args[1]), self.text(n.args[0])] + [self.text(x) for x in n.keywords])), "arguments swapped")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            self.add(n, "(%s)" % self.text(n.value), "slice left out")
        if isinstance(n, ast.IfExp):
            self.add(n, "(%s)" % self.text(n.body), "if branch")
            self.add(n, "(%s)" % self.text(n.orelse), "else branch")
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            self.add(n.type, "ZeroDivisionError", "exception not caught")
        super().generic_visit(n)


def gen():
    res = []
    for f in FILES:
        src = open(os.path.join(REPO, "tonnikala", f)).read()
        g = Gen(src)
        g.visit(ast.parse(src))
        for m in g.out:
            new = (g.b[:m["start"]] + m["new"].encode() + g.b[m["end"]:]).decode()
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            m["file"] = f
            m["id"] = "%s:%d:%d-%d:%s" % (f, m["line"], m["start"], m["end"], m["new"][:60])
            res.append(m)
    seen, out = set(), []
    for m in res:
        if m["id"] not in seen:
            seen.add(m["id"])
            out.append(m)
    json.dump(out, open(OUT + "/mutants.json", "w"), indent=0)
    print(len(out), "mutants")


def load():
    try:
        return json.load(open(OUT + "/results.json"))
    except OSError:
        return {}


def save(r):
    json.dump(r, open(OUT + "/results.tmp", "w"), indent=0)
    os.replace(OUT + "/results.tmp", OUT + "/results.json")


def sh(cmd, timeout, **k):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **k)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, "timeout"


class Copy:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="tkam-")
        self.r = os.path.join(self.d, "repo")
        shutil.copytree(REPO, self.r, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))

    def put(self, m):
        p = os.path.join(self.r, "tonnikala", m["file"])
        b = open(os.path.join(REPO, "tonnikala", m["file"]), "rb").read()
        open(p, "wb").write(b[:m["start"]] + m["new"].encode() + b[m["end"]:])
        return p

    def undo(self, m):
        shutil.copy(os.path.join(REPO, "tonnikala", m["file"]), os.path.join(self.r, "tonnikala", m["file"]))


def stage(name, todo, fn):
    res = load()
    todo = [m for m in todo if name not in res.get(m["id"], {})]
    __import__("random").Random(3).shuffle(todo)
    print(len(todo), "to do", flush=True)
    import queue, threading
    q, lock, n = queue.Queue(), threading.Lock(), [0]
    for m in todo:
        q.put(m)

    def work():
        c = Copy()
        try:
            while True:
                try:
                    m = q.get_nowait()
                except queue.Empty:
                    return
                c.put(m)
                try:
                    v = fn(c, m)
                except Exception as e:
                    v = "error %r" % e
                c.undo(m)
                with lock:
                    res.setdefault(m["id"], {})[name] = v
                    n[0] += 1
                    if n[0] % 20 == 0:
                        save(res)
                        print(n[0], flush=True)
        finally:
            shutil.rmtree(c.d, ignore_errors=True)
    ts = [threading.Thread(target=work) for _ in range(JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    save(res)


def t_tests(c, m):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=c.r)
    rc, o = sh("cd %s && /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --no-cov -W ignore 2>&1 | tail -4" % c.r, 60, env=env)
    last = (o.strip().splitlines() or ["?"])[-1]
    return "survives" if "passed" in last and "failed" not in last and "error" not in last else "killed"


def touched():
    p = OUT + "/touched.json"
    if not os.path.exists(p):
        code = ("import sys,json;sys.path.insert(0,%r)\nfrom pyvc import prove, source\nfrom concrete import common\ncommon.setup();source.setup_path();prove.load_contracts()\n"
                "m={r['name']:[list(t) for t in r.get('touched',())] for r in prove.run_units(prove.REGISTRY,'quick',900)}\njson.dump(m,open(%r,'w'))" % (ROOT, p))
        subprocess.run([sys.executable, "-c", code], check=True)
    return json.load(open(p))


def t_prove(c, m):
    T = touched()
    mod = "tonnikala." + m["file"][:-3].replace("/", ".")
    mod = mod[:-9] if mod.endswith(".__init__") else mod
    q = m["q"]
    us = sorted(u for u, ts in T.items() if any(t[0] == mod and (t[1] == q or q.startswith(t[1] + ".") or not q or "." not in q and q[:1].isupper() and t[1].startswith(q)) for t in ts))
    if not us:
        return "no unit"
    rc, o = sh("/opt/venv/bin/python %s/bin/prove.py %s" % (ROOT, " ".join("=" + u for u in us)), 300, env=dict(os.environ, TK_REPO=c.r))
    ref = [l.split()[1] for l in o.splitlines() if l.startswith("refuted")]
    oth = [l[:200] for l in o.splitlines() if l.split()[:1] and l.split()[0] in ("unsupported", "unknown", "error")]
    return ("refuted " + " ".join(ref)) if ref else ("undecided " + " | ".join(oth)) if oth else "proved " + " ".join(us)


PARTS = {"expr.py": (3, 4, 1, 14), "helpers/__init__.py": (14, 17, 1, 11), "i18n/__init__.py": (19, 15, 18), "ir/generate.py": (2, 13, 15, 1, 8, 14), "ir/nodes.py": (2, 13, 5, 15, 1, 20),
         "languages/base.py": (5, 20, 2), "languages/python/__init__.py": (4, 13, 14), "languages/python/astalyzer.py": (6,), "languages/python/generator.py": (5, 17, 9, 2, 13, 1, 11, 6),
         "languages/javascript/__init__.py": (20,), "languages/javascript/generator.py": (20, 16), "languages/javascript/jslex.py": (20,), "loader.py": (12, 18, 11, 13, 15),
         "pyramid/__init__.py": (18,), "runtime/debug.py": (17, 13, 14), "runtime/exceptions.py": (13, 14), "runtime/python.py": (7, 8, 10, 11, 9, 1, 6, 15), "syntaxes/docparser.py": (13, 14, 2, 1),
         "syntaxes/tonnikala.py": (13, 5, 2, 15, 8, 14)}


def trivial(m):
    return "super(" in m["old"][:6] or m["what"] == "constant" and " " in m["old"].strip() or m["old"].endswith("= unimplemented")


def t_conc(c, m):
    env = dict(os.environ, TK_REPO=c.r)
    if trivial(m):
        return "trivial"
    for i in PARTS[m["file"]]:
        rc, o = sh("/opt/venv/bin/python %s/bin/conc.py c%02d 3" % (ROOT, i), 200, env=env)
        if "FAILURE" in o:
            return "caught C%02d %s" % (i, o[o.index("FAILURE"):][:200])
    return "missed"


if __name__ == "__main__":
    s = sys.argv[1]
    if s == "gen":
        gen()
    else:
        ms, res = json.load(open(OUT + "/mutants.json")), load()
        if s == "tests":
            stage("tests", ms, t_tests)
        elif s == "prove":
            touched()
            stage("prove", [m for m in ms if res.get(m["id"], {}).get("tests") == "survives"], t_prove)
        elif s == "conc":
            stage("conc", [m for m in ms if res.get(m["id"], {}).get("tests") == "survives" and res[m["id"]].get("prove", "").startswith(tuple(sys.argv[2:] or ["undecided", "no unit"]))], t_conc)
        elif s == "show":
            from collections import Counter
            print(Counter(r.get("tests") for r in res.values()), Counter((r.get("prove") or "").split()[0] for r in res.values() if r.get("prove")), Counter((r.get("conc") or "").split()[0] for r in res.values() if r.get("conc")))
            want = sys.argv[2] if len(sys.argv) > 2 else "missed"
            for m in ms:
                r = res.get(m["id"], {})
                if any(str(v).startswith(want) for v in r.values()):
                    print("%s:%d %s [%s] %r -> %r  {%s}" % (m["file"], m["line"], m["q"], m["what"], m["old"][:90], m["new"][:90], r.get("prove", "")[:150]))
