"""Runs the contract units of a property: explores all paths, discharges every obligation, collects the results."""
import importlib
import os
import pickle
import pkgutil
import signal
import sys
import tempfile
import time
import traceback

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)


class Unit:
    def __init__(self, name, props, function, body, limit=60, replay=None, trusted=(), tier="quick", forms=()):
        # forms: other forms the loop invariants may take, tried where the first is not accepted (the contract is the same)
        self.forms = tuple(forms)
        self.name, self.props, self.function, self.body = name, props, function, body
        self.limit, self.replay, self.trusted, self.tier = limit, replay, tuple(trusted), tier


REGISTRY = []
FORM = [None]


def unit(name, props, function, **kw):
    """decorator: registers a contract. `function` is "module:qualname" of the function under contract."""
    def deco(body):
        REGISTRY.append(Unit(name, props if isinstance(props, (list, tuple)) else [props], function, body, **kw))
        return body
    return deco


class Sink:
    def __init__(self, unit, timeout, cross=False):
        self.unit, self.timeout, self.cross = unit, timeout, cross
        self.work = [[]]
        self.obls = []
        self.paths = 0
        self.ends = {}
        self.failures = 0
        self.touched = set()        # functions whose body was executed symbolically

    def push(self, prefix):
        self.work.append(prefix)

    def reached(self, run, label):
        self.ends[label] = self.ends.get(label, 0) + 1

    def obligation(self, run, label, cond, detail):
        import z3
        from .sym import dec
        t0 = time.time()
        rec = dict(label=label, backend="z3", path=list(run.trace))
        neg = None
        if cond is True:
            rec.update(status="proved", backend="evaluation")
        else:
            if cond is False:
                r = run.solver.check()
            else:
                neg = z3.simplify(z3.Not(cond))
                if z3.is_false(neg):
                    r = z3.unsat
                    rec["backend"] = "z3-simplify"
                else:
                    s = run.solver
                    s.set("timeout", int(self.timeout * 1000))
                    s.push()
                    s.add(neg)
                    self.guessed = None
                    r = self.guess(run, s)
                    if r != z3.sat:
                        r = s.check()
                    if r == z3.sat:
                        rec["model"] = self.model(run, self.guessed if self.guessed is not None else s.model())
                    elif r == z3.unknown or self.cross:
                        s2 = cvc5_check(s, self.timeout)
                        if r == z3.unknown:
                            if s2 is not None:
                                r = z3.unsat if s2 == "unsat" else z3.sat if s2 == "sat" else r
                                rec["backend"] = "cvc5"
                        elif s2 == "sat":
                            r = z3.unknown        # the two solvers disagree: nothing is claimed
                            rec["disagreement"] = True
                        elif s2 == "unsat":
                            rec["backend"] = "z3+cvc5"
                    s.pop()
                    s.set("timeout", 4000)
            if cond is False and r == z3.sat:
                rec["model"] = self.model(run, run.solver.model())
            rec["status"] = "proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown"
        rec["time"] = time.time() - t0
        if rec["status"] == "refuted":
            rec["detail"] = repr(detail)[:1500] if detail is not None else str(cond)[:1500]
            self.failures += 1
        self.obls.append(rec)
        return rec["status"]

    def guess(self, run, s):
        """a counterexample with distinct short texts as inputs, which is often easier to find"""
        import z3
        texts = [t for n, t in run.inputs if z3.is_string(t)]
        if len(texts) < 2:
            return z3.unknown
        s.push()
        s.set("timeout", 1000)
        for i, t in enumerate(texts):
            s.add(t == z3.StringVal("v%d" % i))
        r = s.check()
        if r == z3.sat:
            self.guessed = s.model()
        s.pop()
        s.set("timeout", int(self.timeout * 1000))
        return r if r == z3.sat else z3.unknown

    def model(self, run, m):
        from .sym import dec
        import z3
        out = {}
        for n, t in run.inputs:
            v = m.eval(t, model_completion=True)
            if z3.is_string_value(v):
                out[n] = dec(v)
            elif z3.is_int_value(v):
                out[n] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                out[n] = z3.is_true(v)
            else:
                out[n] = str(v)
        out["!path"] = list(run.log)[-12:]
        return out


def cvc5_check(solver, timeout):
    """the current obligation decided by cvc5 through SMT-LIB; 'sat', 'unsat', 'unknown' or None"""
    try:
        import cvc5
        text = "(set-logic ALL)\n" + solver.sexpr() + "\n(check-sat)\n"
        s = cvc5.Solver()
        s.setOption("strings-exp", "true")
        s.setOption("tlimit-per", str(int(timeout * 1000)))
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "vc")
        sm = p.getSymbolManager()
        res = None
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(s, sm)
            if out:
                res = str(out).strip()
        return res if res in ("sat", "unsat", "unknown") else None
    except Exception:
        return None


def explore(u, timeout, deadline, cross=False):
    """all paths of a unit; returns (status, sink, error)"""
    import z3
    from . import vm
    from .sym import Unsupported, PyExc
    sink = Sink(u, timeout, cross)
    while sink.work:
        if time.time() > deadline:
            return "timeout", sink, "time limit of the unit (%d paths explored)" % sink.paths
        if sink.paths > vm.MAX_PATHS:
            return "timeout", sink, "too many paths"
        prefix = sink.work.pop()
        run = vm.Run(u, prefix, sink)
        sink.paths += 1
        try:
            u.body(run)
            sink.reached(run, "end")
        except (vm.PathEnd, vm.Infeasible):
            pass
        except PyExc as e:
            # an exception the contract does not allow
            sink.obligation(run, "no unexpected exception (%s)" % describe(e.value), False, e.value)
            sink.reached(run, "exception")
        except Unsupported as e:
            return "unsupported", sink, str(e)
        except RecursionError:
            return "unsupported", sink, "recursion"
        if sink.failures >= 6:
            break
    sts = {o["status"] for o in sink.obls}
    if "refuted" in sts:
        return "refuted", sink, ""
    if "unknown" in sts:
        return "unknown", sink, ", ".join(sorted({o["label"] for o in sink.obls if o["status"] == "unknown"}))
    if not sink.obls or not sink.ends:
        return "error", sink, "no obligation was generated on a feasible path"
    return "proved", sink, ""


def describe(v):
    from .sym import Obj
    if isinstance(v, Obj):
        return "%s%r" % ("|".join(getattr(k, "__name__", "?") for k in v.kinds), v.fields.get("args", ""))
    return repr(v)


def run_unit(u, timeout, limit, cross=False):
    t0 = time.time()
    res = dict(name=u.name, function=u.function, obligations=[], paths=0, status="error", error="")
    try:
        st, sink, err = explore(u, timeout, t0 + limit, cross)
        for form in u.forms if st != "proved" else ():
            FORM[0] = form
            other = explore(u, timeout, t0 + limit, cross)
            FORM[0] = None
            if other[0] == "proved":
                st, sink, err = other
                break
        res.update(status=st, error=err, obligations=sink.obls, paths=sink.paths, ends=sink.ends, touched=sorted(sink.touched))
        if st == "refuted" and u.replay:
            for o in sink.obls:
                if o["status"] == "refuted" and o.get("model"):
                    try:
                        r = u.replay(o["model"])
                    except Exception:
                        r = None
                        o["replay_error"] = traceback.format_exc()[-500:]
                    if r:
                        o["replayed"] = r
    except Exception:
        res["error"] = traceback.format_exc()[-1500:]
    res["wall"] = time.time() - t0
    return res


def load_contracts():
    if REGISTRY:
        return
    import contracts
    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        if m.startswith("k_"):
            importlib.import_module("contracts." + m)


def run_property(prop, tier, seed, limit):
    from . import source
    from concrete import common
    common.setup()
    source.setup_path()
    load_contracts()
    units = [u for u in REGISTRY if prop in u.props and (tier == "thorough" or u.tier == "quick")]
    return run_units(units, tier, limit), dict(trusted=sorted({t for u in units for t in u.trusted}))


def run_units(units, tier="quick", limit=150, jobs=8):
    d = tempfile.mkdtemp(prefix="tkvp-")
    results, running, todo = [], {}, list(units)
    timeout = 8 if tier == "quick" else 30
    end = time.time() + limit
    try:
        while todo or running:
            while todo and len(running) < jobs:
                u = todo.pop(0)
                out = os.path.join(d, "u%d" % len(results + list(running)) + "_%d" % len(todo))
                lim = min(u.limit * (1 if tier == "quick" else 4), max(5, end - time.time()))
                pid = os.fork()
                if pid == 0:
                    try:
                        sys.setrecursionlimit(20000)
                        signal.signal(signal.SIGALRM, signal.SIG_DFL)
                        signal.alarm(int(lim + 30))
                        dn = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(dn, 1)
                        if not os.environ.get("TK_DEBUG"):
                            os.dup2(dn, 2)
                        r = run_unit(u, timeout, lim, cross=tier == "thorough")
                        with open(out + ".tmp", "wb") as f:
                            pickle.dump(r, f)
                        os.rename(out + ".tmp", out)
                    finally:
                        os._exit(0)
                running[pid] = (u, out)
            pid, st = os.wait()
            if pid not in running:
                continue
            u, out = running.pop(pid)
            if os.path.exists(out):
                with open(out, "rb") as f:
                    results.append(pickle.load(f))
            else:
                results.append(dict(name=u.name, function=u.function, obligations=[], paths=0, status="error", error="the prover process ended with status %d" % st, wall=0))
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    results.sort(key=lambda r: r["name"])
    return results
