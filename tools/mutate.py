#!/opt/venv/bin/python
"""Self-test of the verifier: applies small changes to a scratch copy of the package and checks that the named unit no
longer proves. usage: mutate.py [unit-substring]"""
import os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
REPO = os.environ.get("TK_REPO", "/repo")


def main():
    from tools.mutants import MUTANTS
    want = sys.argv[1] if len(sys.argv) > 1 else ""
    from concurrent.futures import ThreadPoolExecutor

    def one(m):
        unit, path, old, new = m
        d = tempfile.mkdtemp(prefix="tkmut-")
        try:
            shutil.copytree(os.path.join(REPO, "tonnikala"), os.path.join(d, "tonnikala"), ignore=shutil.ignore_patterns("__pycache__", "tests"))
            p = os.path.join(d, "tonnikala", path)
            s = open(p).read()
            if old not in s:
                return 1, "NOT FOUND  %-45s %r" % (unit, old)
            open(p, "w").write(s.replace(old, new, 1))
            r = subprocess.run([sys.executable, os.path.join(ROOT, "bin", "prove.py"), "=" + unit], env=dict(os.environ, TK_REPO=d), capture_output=True, text=True)
            first = [l for l in r.stdout.splitlines() if unit in l]
            st = first[0].split()[0] if first else "?"
            return st != "refuted", ("%-11s %-45s %s" % (st, unit, "" if st == "refuted" else (first[0][-100:] if first else r.stdout[-300:] + r.stderr[-300:]) + " :: " + new.strip()[:60]))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    bad = n = 0
    with ThreadPoolExecutor(4) as ex:
        for b, s in ex.map(one, [m for m in MUTANTS if want in m[0]]):
            bad += bool(b)
            n += 1
            print(s, flush=True)
    print("%d mutants, %d not refuted" % (n, bad))


if __name__ == "__main__":
    main()
