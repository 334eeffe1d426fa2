import sys, os, importlib, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concrete import run
m = importlib.import_module("concrete." + sys.argv[1].lower())
t0 = time.time()
rs = run.run(m.PARTS, int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick"), float(sys.argv[2]) if len(sys.argv) > 2 else 15, only=sys.argv[3:] or None)
bad = 0
for r in rs:
    print(r["part"], r["evaluations"], len(r["distinct"]), "SKIP " + r["skip"] if r["skip"] else "")
    if r["failure"]:
        bad = 1
        print("   FAILURE", *["\n      %s: %s" % (k, v[:1500]) for k, v in r["failure"].items()])
    if r["error"]:
        bad = 1
        print("   ERROR", r["error"], r.get("last"))
print("%.1fs" % (time.time() - t0), "BAD" if bad else "OK")
sys.exit(bad)
