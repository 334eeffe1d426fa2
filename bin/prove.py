"""prove.py [name-substring|Cxx ...]: runs contract units by hand"""
import os, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from pyvc import prove, source
from concrete import common
common.setup()
source.setup_path()
prove.load_contracts()
us = [u for u in prove.REGISTRY if len(sys.argv) == 1 or any((a[1:] == u.name if a[0] == "=" else a in u.name) or a in u.props for a in sys.argv[1:])]
bad = 0
for r in prove.run_units(us, os.environ.get("VERIF_TIER", "quick")):
    n = len(r["obligations"])
    ok = sum(o["status"] == "proved" for o in r["obligations"])
    print("%-11s %-42s %d/%d obligations, %d paths, %.1fs %s" % (r["status"], r["name"], ok, n, r["paths"], r["wall"], r["error"][-1200:]))
    if r["status"] != "proved":
        bad += 1
    seen = set()
    for o in r["obligations"]:
        if o["status"] != "proved" and o["label"] not in seen:
            seen.add(o["label"])
            print("      %s: %s\n         %s %s" % (o["status"], o["label"], str(o.get("detail"))[:700], str(o.get("model"))[:600]))
print(len(us), "units,", bad, "not proved")
