"""A node process running the repository's JavaScript runtime."""
import json, os, shutil, subprocess
from . import common


class Node:
    def __init__(self):
        exe = shutil.which("node") or "/usr/local/bin/node"
        self.p = subprocess.Popen([exe, os.path.join(os.path.dirname(__file__), "node.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, encoding="utf-8")
        r = self.ask(dict(op="load", path=os.path.join(common.REPO, "tonnikala", "runtime", "javascript.js")))
        self.loaded = r

    def ask(self, q):
        self.p.stdin.write(json.dumps(q) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {"exc": "node ended with status %r" % self.p.poll()}
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait(10)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.p.kill()
        self.p.wait()
