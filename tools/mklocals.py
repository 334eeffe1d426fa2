#!/opt/venv/bin/python
"""writes contracts/locals.json: the local variables of the functions with loops, as the contracts name them"""
import ast, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from pyvc import source
out = {}


def go(mod, body, q, infn):
    for n in body:
        if isinstance(n, ast.ClassDef):
            go(mod, n.body, (q + (".<locals>." if infn else ".") if q else "") + n.name, False)
        elif isinstance(n, ast.FunctionDef):
            qq = (q + (".<locals>." if infn else ".") if q else "") + n.name
            if any(isinstance(x, (ast.For, ast.While, ast.comprehension)) for x in ast.walk(n)):
                out[mod + ":" + qq] = source.local_names(n)
            go(mod, n.body, qq, True)
        else:
            for f in ("body", "orelse", "finalbody"):
                b = getattr(n, f, None)
                if isinstance(b, list):
                    go(mod, b, q, infn)
            for h in getattr(n, "handlers", []):
                go(mod, h.body, q, infn)


for d, ds, fs in sorted(os.walk(os.path.join(source.REPO, "tonnikala"))):
    if "tests" in d:
        continue
    for f in sorted(fs):
        if f.endswith(".py"):
            p = os.path.join(d, f)
            m = os.path.relpath(p, source.REPO)[:-3].replace("/", ".")
            m = m[:-9] if m.endswith(".__init__") else m
            go(m, ast.parse(open(p, encoding="utf-8").read()).body, "", False)
json.dump(out, open(os.path.join(ROOT, "contracts", "locals.json"), "w"), indent=0, sort_keys=True)
print(len(out))
