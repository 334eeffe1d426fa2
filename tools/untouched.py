#!/opt/venv/bin/python
"""lists the functions of the package that no contract unit executes symbolically (inline or as the function under contract)"""
import ast, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from pyvc import prove, source
from concrete import common
common.setup()
source.setup_path()
prove.load_contracts()
seen = {tuple(t) for r in prove.run_units(prove.REGISTRY, "quick", 900) for t in r.get("touched", ())}
base = os.path.join(source.REPO if hasattr(source, "REPO") else "/repo", "tonnikala")
for d, _, fs in sorted(os.walk(base)):
    for f in sorted(fs):
        if f.endswith(".py") and "tests" not in d:
            mod = "tonnikala" + os.path.join(d, f)[len(base):-3].replace("/", ".")
            mod = mod[:-9] if mod.endswith(".__init__") else mod
            try:
                m = source.module(mod)
            except Exception as e:
                print(mod, "not importable:", e)
                continue
            miss = [q for q, x in m.defs.items() if isinstance(x, ast.FunctionDef) and (mod, q) not in seen]
            n = sum(isinstance(x, ast.FunctionDef) for x in m.defs.values())
            print("%-45s %3d functions, not reached: %s" % (mod, n, ", ".join(miss)))
