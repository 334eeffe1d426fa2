"""Runs the parts of a concrete check in parallel processes."""
import json, os, pickle, random, signal, sys, time, traceback
from . import common
from .common import Failure, Hang, Skip, Tally

CASE_LIMIT = 60


class Task:
    def __init__(self, name, fn, shard, nshards):
        self.name, self.fn, self.shard, self.nshards = name, fn, shard, nshards


def _child(task, seed, tier, deadline, out, cur):
    t = Tally(deadline)
    t.tier, t.shard, t.nshards, t.seed = tier, task.shard, task.nshards, seed
    t.cur = cur
    t.last = None

    def alarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, alarm)

    def arm(inp=None):
        t.last = inp
        signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    t.arm = arm
    res = dict(part=task.name, failure=None, error=None, skip=None)
    try:
        arm()
        common.setup()
        rnd = random.Random("%s/%s/%s" % (seed, task.name, task.shard))
        task.fn(t, rnd)
    except Failure as f:
        res["failure"] = f.as_dict()
    except Hang:
        res["failure"] = dict(what="no result within %d s" % CASE_LIMIT, input=repr(t.last)[:20000], expected="a result", got="still running")
    except Skip as e:
        res["skip"] = str(e)
    except BaseException as e:
        res["error"] = traceback.format_exc()[-3000:]
        res["last"] = repr(t.last)[:2000]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res.update(evaluations=t.evaluations, distinct=t.distinct, samples=t.samples)
    with open(out, "wb") as f:
        pickle.dump(res, f)


def run(parts, seed, tier, budget, jobs=8, only=None):
    """parts: [(name, fn, shards)]. Returns list of result dicts."""
    common.setup()
    tasks = []
    for name, fn, shards in parts:
        if only and name not in only:
            continue
        for s in range(shards):
            tasks.append(Task(name, fn, s, shards))
    random.Random(seed).shuffle(tasks)
    deadline = time.time() + budget
    hard = deadline + 3 * CASE_LIMIT
    running, results = {}, []
    sd = common.scratch()
    idx = 0
    while tasks or running:
        while tasks and len(running) < jobs:
            task = tasks.pop(0)
            out = os.path.join(sd, "res%d" % idx)
            cur = os.path.join(sd, "cur%d" % idx)
            idx += 1
            sys.stdout.flush()
            # tasks started late still get their share of time
            dl = max(deadline, time.time() + budget * .25)
            pid = os.fork()
            if pid == 0:
                try:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                    _child(task, seed, tier, dl, out, cur)
                finally:
                    os._exit(0)
            running[pid] = (task, out, cur)
        pid, status = os.wait()
        if pid not in running:
            continue
        task, out, cur = running.pop(pid)
        if os.path.exists(out):
            with open(out, "rb") as f:
                results.append(pickle.load(f))
        else:
            last = ""
            if os.path.exists(cur):
                last = open(cur, errors="replace").read()
            r = dict(part=task.name, failure=None, error="process ended with status %d" % status, skip=None, evaluations=0, distinct=set(), samples=[])
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
                r["failure"] = dict(what="the process crashed with signal %d" % os.WTERMSIG(status), input=last, expected="a result", got="crash")
            results.append(r)
    return results
