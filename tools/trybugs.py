"""trybugs.py [ids] : applies each planted bug to /repo, runs the check of its property, undoes the change, reports."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, "seeded")


def sh(cmd):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True)


for b in sorted(os.listdir(S)):
    if sys.argv[1:] and b not in sys.argv[1:]:
        continue
    m = json.load(open(os.path.join(S, b, "meta.json")))
    assert sh("git -C /repo status --short").stdout == ""
    try:
        a = sh("git -C /repo apply %s" % os.path.join(S, b, "patch.diff"))
        if a.returncode:
            print(b, "DOES NOT APPLY", a.stderr[:200], flush=True)
            continue
        r = sh("VERIF_SEED=1 VERIF_TIER=quick timeout 900 %s/bin/check %s" % (ROOT, m["property"]))
        e = json.load(open(os.path.join(ROOT, "evidence", m["property"] + ".json")))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        how = "MISSED" if not v else ("caught (no input)" if v[0].endswith("found") else "caught")
        from_units = [u for u in json.dumps(e).split('"') if u.startswith("refuted")]
        print("%-28s %s rc=%d %s" % (b, how, r.returncode, v[0][-60:] if v else ""), flush=True)
    finally:
        sh("git -C /repo checkout -- .")
