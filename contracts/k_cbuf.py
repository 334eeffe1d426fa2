"""tonnikala/runtime/_buffer.c, decided by CBMC: the file as it is, with a contract put in front of the body of its one
loop (any number of values), against assumed contracts of the part of the CPython API it uses (cbuf/include/Python.h).
The functions and what is asserted of them are in cbuf/harness.c. A failed loop contract alone is no violation: the
failure must show in a finite run of the function (at most three values, the loop unwound); when the loop is written
in a way the contract cannot be put on, only that finite run remains, and the unit counts as not proved."""
import os
import re
import shutil
import subprocess
import tempfile
import time
from .lib import *

HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "cbuf")
CB = "tonnikala/runtime/_buffer.c:"
T_API = "the CPython C API as in cbuf/include/Python.h (reference counts, PyList_Append, _PyList_Extend, PyObject_Str, tuples, PyUnicode_Join, module state); a one-element and a five-element tuple can be allocated"
LOOP = re.compile(r"\bfor\s*\(\s*(?:Py_ssize_t\s+)?(\w+)\s*=\s*0\s*;\s*(\w+)\s*<\s*([^;{}]+?)\s*;\s*(?:(\w+)\s*\+\+|\+\+\s*(\w+)|(\w+)\s*\+=\s*1)\s*\)\s*(?=\{)")


def strip_comments(s):
    """comments blanked out, so that braces and loops in them do not count"""
    return re.sub(r"/\*.*?\*/|//[^\n]*", lambda m: re.sub(r"[^\n]", " ", m.group()), s, flags=re.S)


def with_contract(text):
    """the source with the contract on its loop, or None"""
    plain = strip_comments(text)
    ms = [m for m in LOOP.finditer(plain) if m.group(1) == m.group(2) == (m.group(4) or m.group(5) or m.group(6))]
    if len(ms) != 1 or len(re.findall(r"\b(?:for|while|do)\b\s*[({]", plain)) != 1:
        return None
    m = ms[0]
    i, n = m.group(1), m.group(3)
    c = ("\n__CPROVER_assigns(%s, LOOP_ASSIGNS)\n__CPROVER_loop_invariant(0 <= %s && %s <= (%s) && LOOP_INVARIANT(%s))\n__CPROVER_decreases((%s) - %s)\n" % (i, i, i, n, i, n, i))
    return text[:m.end()] + c.replace("\n", " ") + text[m.end():]


def tool(args, limit=120):
    try:
        r = subprocess.run(args, capture_output=True, text=True, timeout=limit, env=dict(os.environ, LC_ALL="C"))
    except subprocess.TimeoutExpired:
        raise Unsupported("%s: no answer in %d s" % (args[0], limit))
    except OSError as e:
        raise Unsupported("%s: %s" % (args[0], e))
    return r.returncode, r.stdout + r.stderr


LINE = re.compile(r"^\[([\w.$]+)\] line (\d+) (.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", re.M)


def decide(d, src, entry, bound, contract, unwind, reach=False, trace=False):
    """[(obligation, description, status)] and the output"""
    gb = os.path.join(d, "%s%d%d%d.gb" % (entry, contract, reach, unwind))
    rc, out = tool(["goto-cc", "-I", os.path.join(HERE, "include"), '-DSOURCE="%s"' % src, "-DSIZE_BOUND=%s" % bound, "-DREACH=%d" % reach, os.path.join(HERE, "harness.c"), "-o", gb, "--function", entry])
    if rc or not os.path.exists(gb):
        raise Unsupported("goto-cc does not take the source: " + out[-400:])
    if contract:
        g1, g2 = gb + "1", gb + "2"
        # functions that are not called from here, and would only be candidates for calls through pointers
        rc, out = tool(["goto-instrument", "--remove-function-body", "Buffer_output_boolean_attr", gb, g1])
        rc, out = tool(["goto-instrument", "--apply-loop-contracts", g1, g2])
        if rc or not os.path.exists(g2):
            raise Unsupported("goto-instrument: " + out[-400:])
        gb = g2
    rc, out = tool(["cbmc", gb, "--drop-unused-functions", "--no-standard-checks", "--pointer-check", "--unwinding-assertions", "--unwind", str(unwind)] + (["--trace"] if trace else []))
    if rc not in (0, 10):
        raise Unsupported("cbmc ended with %d: %s" % (rc, out[-400:]))
    miss = set(re.findall(r"no body for (?:function|callee) '?(\w+)", out)) - {"nondet_int", "nondet_long", "nondet_bool", "Buffer_output_boolean_attr"}
    if miss:
        raise Unsupported("the source calls what has no contract here: " + ", ".join(sorted(miss)))
    return [(a, c, s) for a, l, c, s in LINE.findall(out)], out


def real(name, desc):
    """a failed obligation that speaks of the code, not of the loop contract, the unwinding or the model's limits"""
    return ".assertion." in name and desc != "tuples as expected" or ".pointer_dereference." in name


def cbmc(run, entry, loop=False, unwind=6, ends=("success",)):
    path = os.path.join(source.REPO, "tonnikala", "runtime", "_buffer.c")
    try:
        with open(path, encoding="utf-8") as f:
            text = f.read()
    except OSError as e:
        raise Unsupported(str(e))
    d = tempfile.mkdtemp(prefix="tkcb-")
    try:
        src = os.path.join(d, "_buffer.c")
        annotated = with_contract(text) if loop else None
        with open(src, "w", encoding="utf-8") as f:
            f.write(annotated or text)
        t0 = time.time()
        if loop and annotated is None:
            res, out, why = [], "", "the contract of the loop cannot be put on the source"
        else:
            res, out = decide(d, src, entry, "", loop, unwind)
            why = None
        failed = [(n, c) for n, c, s in res if s != "SUCCESS"]
        if failed or why:
            # a finite run decides whether the code is at fault
            with open(src, "w", encoding="utf-8") as f:
                f.write(text)
            fin, out = decide(d, src, entry, "&& g_args.size <= 3" if loop else "", False, unwind, trace=True)
            bad = [(n, c) for n, c, s in fin if s == "FAILURE" and real(n, c)]
            if bad:
                tr = out[out.find("Trace for"):] if "Trace for" in out else out
                for n, c in bad:
                    run.sink.obls.append(dict(label=c, backend="cbmc", status="refuted", time=time.time() - t0, path=[], detail="%s: %s\n%s" % (n, c, tr[:6000])))
                run.sink.failures += len(bad)
                run.sink.reached(run, "end")
                return
            raise Unsupported("%s; a finite run (at most three values) finds no fault" % (why or "not proved: " + "; ".join(c for n, c in failed[:4])))
        reach, _ = decide(d, src, entry, "", loop, unwind, reach=True)
        for e in ends:
            if not any(c == "reached: " + e and st == "FAILURE" for n, c, st in reach):
                raise Unsupported("an end of the function is not reached: " + e)
        dt = (time.time() - t0) / max(1, len(res))
        for n, c, s in res:
            run.sink.obls.append(dict(label="%s: %s" % (n, c), backend="cbmc", status="proved", time=dt, path=[]))
        run.sink.reached(run, "end")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c_unit(name, props, function, entry, **kw):
    @unit(name, props, CB + function, limit=90, trusted=[T_API])
    def _(run):
        cbmc(run, entry, **kw)


c_unit("cbuf._do_append", ["C07", "C01"], "_do_append", "do_append", loop=True, ends=("success", "failure", "several values"))
c_unit("cbuf.call", ["C07", "C01"], "Buffer_call", "buffer_call", loop=True, ends=("success", "failure", "several values"))
c_unit("cbuf.call(keywords)", "C07", "Buffer_call", "buffer_call_keywords")
for k in ("none", "false", "true", "value", "arguments"):
    c_unit("cbuf.output_boolean_attr(%s)" % k, ["C08", "C07", "C01"], "Buffer_output_boolean_attr", "attribute_" + k,
           ends=("failure",) if k == "arguments" else ("success",) if k in ("none", "false") else ("success", "failure"))
c_unit("cbuf.join,str,html", ["C07", "C01"], "Buffer_join", "join_str_html")
c_unit("cbuf.new", ["C07", "C01", "C08"], "Buffer_new", "buffer_new", ends=("success", "failure"))
c_unit("cbuf.module", ["C07", "C08"], "PyInit__buffer", "module_init", unwind=26, ends=("success", "failure"))
c_unit("cbuf.tables", ["C07", "C01", "C08"], "buffer_BufferType", "tables", unwind=26)
c_unit("cbuf.set-escape", ["C07", "C01", "C08"], "_set_escape_method", "set_escape_method", ends=("success", "failure"))
