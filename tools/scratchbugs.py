#!/opt/venv/bin/python
"""scratchbugs.py SPEC.py [ids]: tries each bug of a SPEC (see plant.py) in a scratch copy of /repo: tests, demonstration and the
check of the property. Never touches /repo."""
import os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("TK_BASE", "/repo")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def one(b):
    d = tempfile.mkdtemp(prefix="tksb-")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree(BASE, r, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        for f, old, new in b["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return "%s: %d occurrences of %r" % (b["id"], t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        msg = []
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=r)
        if any(f.endswith(".c") for f, _, _ in b["edits"]):
            x = sh("cd %s && /opt/venv/bin/python setup.py build_ext --inplace" % r, env=env)
            if x.returncode:
                msg.append("BUILD FAILS " + x.stderr[-200:])
        x = sh("cd %s && /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --no-cov -W ignore 2>&1 | tail -4" % r, env=env)
        last = x.stdout.strip().splitlines()[-1:] or ["?"]
        if "failed" in last[0] or "error" in last[0] or "passed" not in last[0]:
            msg.append("TESTS: " + x.stdout[-200:].replace("\n", " | "))
        if b.get("demo"):
            open(d + "/demo.py", "w").write("import sys\nsys.path.insert(0, '.')\nsys.dont_write_bytecode = True\n" + b["demo"].lstrip("\n"))
            x = sh("/opt/venv/bin/python %s/demo.py" % d, cwd=r)
            if x.returncode == 0:
                msg.append("DEMO PASSES WITH THE BUG")
            else:
                msg.append("demo: " + (x.stdout + x.stderr).strip()[-100:].replace("\n", " | "))
            x = sh("/opt/venv/bin/python %s/demo.py" % d, cwd=BASE)
            if x.returncode:
                msg.append("DEMO FAILS ON /repo " + (x.stdout + x.stderr)[-200:])
        ev = os.path.join(d, "ev")
        os.mkdir(ev)
        out = []
        for p in b.get("properties", [b["property"]]):
            x = sh("timeout 900 %s/bin/check %s" % (ROOT, p), env=dict(os.environ, TK_REPO=r, TK_EVID=ev, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
            how = ("MISSED" if x.returncode == 0 else "NO ANSWER rc=%d %s" % (x.returncode, x.stderr[-200:])) if not v else ("caught(no input)" if v[0].endswith("found") else "caught")
            why = ""
            if v:
                m = re.search(r"replay=(\S+)", v[0])
                try:
                    why = re.sub(r"\s+", " ", open(m.group(1)).read())[:300] if os.environ.get("VERBOSE") else ""
                except OSError:
                    pass
            out.append("%s %s %s" % (p, how, why))
        return "%-30s %s   [%s]" % (b["id"], "; ".join(out), "; ".join(msg))
    finally:
        shutil.rmtree(d, ignore_errors=True)


bugs = [b for b in runpy.run_path(sys.argv[1])["BUGS"] if not sys.argv[2:] or b["id"] in sys.argv[2:]]
with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
    for s in ex.map(one, bugs):
        print(s, flush=True)
