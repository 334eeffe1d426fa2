import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from contracts import info
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    i = info.get(p["id"])
    checks.append(dict(property=p["id"], quick_cmd="/opt/venv/bin/python bin/check %s" % p["id"],
                       thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python bin/check %s" % p["id"],
                       technique=i.get("technique", "contract-based deductive verification (pyvc: VCs from the real AST, z3/cvc5) with bounded executable-contract stand-in"),
                       level=i["level"], level_note=i["note"] or "bounded executable contracts only so far"))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
