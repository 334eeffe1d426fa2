"""plant.py SPEC.py : plants a bug in /repo, confirms it (builds, tests pass, demo fails with it and passes without),
keeps it as /verif/seeded/<id>/ and undoes the change.
SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]"""
import json, os, runpy, subprocess, sys
REPO = "/repo"
SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def demo(d):
    p = sh("timeout 300 bash %s/demo.sh" % d, cwd=REPO)
    return p.returncode, (p.stdout + p.stderr)[-400:]


only = sys.argv[2:]
for b in runpy.run_path(sys.argv[1])["BUGS"]:
    if only and b["id"] not in only:
        continue
    assert sh("git -C /repo status --short").stdout == ""
    d = os.path.join(SEED, b["id"])
    ok = True
    msg = []
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(REPO, f)
            t = open(p).read()
            if t.count(old) != 1:
                raise SystemExit("%s: %d occurrences of %r" % (b["id"], t.count(old), old))
            open(p, "w").write(t.replace(old, new))
        os.makedirs(d, exist_ok=True)
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write("import sys\nsys.path.insert(0, '.')\nsys.dont_write_bytecode = True\n" + b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            ok = False
            msg.append("build: " + r.stderr[-300:])
        sh("bash /opt/vp/test.sh /tmp/plant_out.json")
        a = json.load(open("/tmp/plant_out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        missing = [x for x in base["stable"] if x not in a["passed"]]
        if missing:
            ok = False
            msg.append("tests fail: %s" % missing[:4])
        rc, out = demo(d)
        if rc == 0:
            ok = False
            msg.append("demo passes with the bug")
        else:
            msg.append("with bug: " + out[-150:].replace("\n", " | "))
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    rc, out = demo(d)
    if rc:
        ok = False
        msg.append("demo fails without the bug: " + out)
    print(b["id"], "OK" if ok else "REJECTED", *msg, flush=True)
    if not ok:
        sh("rm -rf %s" % d)
