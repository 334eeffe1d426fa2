"""Reads the functions to verify from the repository's current source text."""
import ast
import importlib
import json
import os
import sys

REPO = os.environ.get("TK_REPO", "/repo")


class Module:
    def __init__(self, name):
        self.name = name
        path = os.path.join(REPO, *name.split("."))
        if os.path.isdir(path):
            path = os.path.join(path, "__init__.py")
        else:
            path += ".py"
        if name in LIBRARY:
            path = importlib.import_module(name).__file__
        self.path = path
        with open(path, encoding="utf-8") as f:
            self.text = f.read()
        self.tree = ast.parse(self.text, path)
        self.py = importlib.import_module(name)
        self.defs = {}
        self._index(self.tree.body, "")

    def _index(self, body, prefix):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                q = prefix + n.name
                self.defs[q] = n      # the last definition wins, as at run time
                if isinstance(n, ast.ClassDef):
                    self._index(n.body, q + ".")
            elif isinstance(n, (ast.If, ast.Try)):
                # conditional definitions: decided at run time by which one the imported module holds
                for blk in (n.body, getattr(n, "orelse", []), *[h.body for h in getattr(n, "handlers", [])]):
                    for d in blk:
                        if isinstance(d, (ast.FunctionDef, ast.ClassDef)):
                            q = prefix + d.name
                            if q not in self.defs or self._is_live(q, d):
                                self.defs[q] = d
                                if isinstance(d, ast.ClassDef):
                                    self._index(d.body, q + ".")

    def _is_live(self, q, d):
        o = self.py
        for p in q.split("."):
            o = getattr(o, p, None)
        code = getattr(o, "__code__", None)
        return code is not None and abs(code.co_firstlineno - d.lineno) <= len(d.decorator_list) + 1


_mods = {}


def module(name):
    if name not in _mods:
        _mods[name] = Module(name)
    return _mods[name]


# installed modules executed from their source like the repository's own
LIBRARY = ("slimit.ast", "slimit.visitors.nodevisitor")


def is_repo_module(name):
    return isinstance(name, str) and (name == "tonnikala" or name.startswith("tonnikala.") or name in LIBRARY)


def find_def(fn):
    """AST of a real function object of the repository -> (Module, FunctionDef, qualname) or None."""
    mod = getattr(fn, "__module__", None)
    if not is_repo_module(mod):
        return None
    m = module(mod)
    q = getattr(fn, "__qualname__", "")
    d = m.defs.get(q)
    code = getattr(fn, "__code__", None)
    if isinstance(d, ast.FunctionDef) and code is not None:
        first = min([d.lineno] + [x.lineno for x in d.decorator_list])
        if code.co_firstlineno == first:
            return m, d, q
    # lambdas / conditionally defined functions / aliases: locate by line number
    if code is not None:
        cands = []
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef):
                first = min([n.lineno] + [x.lineno for x in n.decorator_list])
                if first == code.co_firstlineno and n.name == code.co_name:
                    cands.append(n)
            elif isinstance(n, ast.Lambda) and n.lineno == code.co_firstlineno and code.co_name == "<lambda>":
                cands.append(n)
        if len(cands) == 1:
            return m, cands[0], q
    return None


def setup_path():
    """Import the repository's own working tree, never an installed copy."""
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)


# ------------------------------------------------------------------ names of local variables
def local_names(node):
    """parameters and local names of a function, in the order they first appear"""
    a = node.args
    out = [x.arg for x in a.posonlyargs + a.args + ([a.vararg] if a.vararg else []) + a.kwonlyargs + ([a.kwarg] if a.kwarg else [])]
    found = []

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                found.append((c.lineno, c.col_offset, c.name))
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                found.append((c.lineno, c.col_offset, c.id))
            if isinstance(c, ast.ExceptHandler) and c.name:
                found.append((c.lineno, c.col_offset, c.name))
            go(c)
    for s in node.body:
        go(ast.Module(body=[s], type_ignores=[]))
    for _, _, n in sorted(found):
        if n not in out:
            out.append(n)
    return out


_known = None


def renamed(frame, name):
    """the local variable of this function that was called `name` when its contract was written, when the function's
    variables are the same but for their names (locals.json, written by tools/mklocals.py)"""
    global _known
    if _known is None:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "locals.json")
        _known = json.load(open(p)) if os.path.exists(p) else {}
    f = frame
    while f is not None and not hasattr(f, "self_closure"):
        f = f.parent
    if f is None:
        return None
    then, now = _known.get(f.mod.name + ":" + f.qual), local_names(f.self_closure.node)
    if then is None or name not in then or len(then) != len(now):
        return None
    old, new = set(then), set(now)
    if any(a != b and (a in new or b in old) for a, b in zip(then, now)):
        return None
    return now[then.index(name)]


# --------------------------------------------------------------------------- state that outlives a call
MUTATORS = set("add append appendleft extend extendleft insert update setdefault pop popitem popleft remove discard clear sort reverse __setitem__ "
               "difference_update intersection_update symmetric_difference_update".split())
CONTAINERS = (dict, list, set, bytearray)
_state = None


def _package():
    out = []
    base = os.path.join(REPO, "tonnikala")
    for d, _, files in sorted(os.walk(base)):
        if "tests" in d.split(os.sep):
            continue
        for f in sorted(files):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), REPO)[:-3].split(os.sep)
                out.append(".".join(rel[:-1] if rel[-1] == "__init__" else rel))
    return out


def _resolve(py, e):
    """the object a name or a dotted name of a module stands for, None when it is none"""
    if isinstance(e, ast.Name):
        return py.__dict__.get(e.id)
    if isinstance(e, ast.Attribute):
        o = _resolve(py, e.value)
        return getattr(o, e.attr, None) if o is not None and (isinstance(o, type) or type(o).__name__ == "module") else None
    return None


def state():
    """(ids of module-level containers that some function changes, {(module or class, name) rebound by a function}, attribute
    names whose container some function changes, attribute names rebound outside of constructors)"""
    global _state
    if _state is None:
        ids, names, attrs, fields = {}, set(), set(), set()
        _state = (ids, names, attrs, fields)
        for name in _package():
            try:
                m = module(name)
            except Exception:
                continue

            def changed(e):
                if isinstance(e, ast.Attribute):
                    attrs.add(e.attr)
                o = _resolve(m.py, e)
                if isinstance(o, CONTAINERS):
                    ids[id(o)] = o
            for f in ast.walk(m.tree):
                if not isinstance(f, ast.FunctionDef):
                    continue
                own = set()
                for n in ast.walk(f):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        own.add(n.id)
                    elif isinstance(n, ast.arg):
                        own.add(n.arg)
                for n in ast.walk(f):
                    if isinstance(n, ast.Global):
                        names.update((name, x) for x in n.names)
                        own.difference_update(n.names)
                for n in ast.walk(f):
                    e = None
                    if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        e = n.value
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                        e = n.func.value
                    elif isinstance(n, ast.AugAssign) and isinstance(n.target, (ast.Name, ast.Attribute)):
                        e = n.target
                    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        o = _resolve(m.py, n.value)
                        if type(o).__name__ == "module" or isinstance(o, type):
                            names.add((getattr(o, "__name__", None) if type(o).__name__ == "module" else o, n.attr))
                        elif f.name != "__init__" or not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                            fields.add(n.attr)
                    if e is not None and not (isinstance(e, ast.Name) and e.id in own):
                        changed(e)
    return _state


def changes(modname, name, value):
    """the value of this name of a module may differ from the one it was given when the module was loaded"""
    ids, names = state()[:2]
    return (modname, name) in names or isinstance(value, CONTAINERS) and id(value) in ids


def class_changes(cls, name, value):
    """the value of an attribute of a class may differ from the one the class was defined with"""
    if not is_repo_module(getattr(cls, "__module__", None)):
        return False
    names, attrs = state()[1:3]
    return (cls, name) in names or isinstance(value, CONTAINERS) and name in attrs


def field_changes(name, container):
    """some function other than a constructor rebinds this attribute, or changes the container in it"""
    attrs, fields = state()[2:]
    return name in fields or container and name in attrs


_init = {}


def init_fields(cls):
    """the attributes that the constructor of a class (or of one of its bases) gives to its objects"""
    if cls not in _init:
        out = _init[cls] = set()
        for c in cls.__mro__:
            f = c.__dict__.get("__init__")
            d = find_def(f) if f is not None and is_repo_module(getattr(c, "__module__", None)) else None
            if d:
                out.update(n.attr for n in ast.walk(d[1]) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self")
    return _init[cls]
