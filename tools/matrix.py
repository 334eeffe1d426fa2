#!/opt/venv/bin/python
"""matrix.py [ids]: applies every planted bug to a scratch copy of /repo, runs the check of its property there, and writes a
table (markdown, to stdout): caught or not, the failed obligations' units, the bounded part that found an input."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, "seeded")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def one(b):
    d = tempfile.mkdtemp(prefix="tkmx-")
    try:
        meta = json.load(open(os.path.join(S, b, "meta.json")))
        p = meta["property"]
        r, ev = os.path.join(d, "repo"), os.path.join(d, "ev")
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        os.mkdir(ev)
        a = sh("cd %s && git init -q . && git apply %s" % (r, os.path.join(S, b, "patch.diff")))
        if a.returncode:
            return "| %s | %s | DOES NOT APPLY %s | | |" % (b, p, a.stderr[:80])
        x = sh("timeout 900 %s/bin/check %s" % (ROOT, p), env=dict(os.environ, TK_REPO=r, TK_EVID=ev, VERIF_SEED="1", VERIF_TIER="quick"))
        v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
        how = "MISSED (rc %d)" % x.returncode if not v else "no input" if v[0].endswith("found") else "caught"
        e = json.load(open(os.path.join(ev, p + ".json")))
        units = sorted(u["name"] for u in e["coverage"]["units"] if u["status"] == "refuted")
        part = ""
        if v:
            m = json.load(open(re.search(r"replay=(\S+)", v[0]).group(1)))
            part = m.get("part") or m.get("unit") or ""
        return "| %s | %s | %s | %s | %s |" % (b, p, how, ", ".join(units) or "-", part or "-")
    finally:
        shutil.rmtree(d, ignore_errors=True)


ids = [b for b in sorted(os.listdir(S)) if not sys.argv[1:] or b in sys.argv[1:]]
print("| planted bug | property | result | refuted units | found by |\n|---|---|---|---|---|")
with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
    for s in ex.map(one, ids):
        print(s, flush=True)
