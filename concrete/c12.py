"""C12: the file loader."""
import errno, os, random, shutil, sys, tempfile
from . import common
from .common import Failure, attempt


class Clock:
    """stands for the time module inside tonnikala.loader"""
    def __init__(self):
        self.now = 1000.0

    def time(self):
        return self.now

    def monotonic(self):
        return self.now

    def __getattr__(self, n):
        import time
        return getattr(time, n)


class fake_time:
    def __init__(self):
        self.clock = Clock()

    def __enter__(self):
        import time
        import tonnikala.loader as L
        self.old = time.time, time.monotonic
        time.time, time.monotonic = self.clock.time, self.clock.time
        self.L = L
        self.oldmod = {}
        for k, v in list(vars(L).items()):
            if v in (self.old[0], self.old[1]):
                self.oldmod[k] = v
                setattr(L, k, self.clock.time)
        return self.clock

    def __exit__(self, *a):
        import time
        time.time, time.monotonic = self.old
        for k, v in self.oldmod.items():
            setattr(self.L, k, v)


class Reads:
    """counts the files opened by the loader"""
    def __enter__(self):
        import builtins, codecs, io
        self.files = []
        self.old = builtins.open, codecs.open, io.open

        def wrap(f):
            def g(file, *a, **k):
                self.files.append(file)
                return f(file, *a, **k)
            return g
        builtins.open, codecs.open, io.open = wrap(self.old[0]), wrap(self.old[1]), wrap(self.old[2])
        return self

    def __exit__(self, *a):
        import builtins, codecs, io
        builtins.open, codecs.open, io.open = self.old


def at_step(k, action, call):
    """the call, with an action performed before its k-th instruction in the loader's module; False if the call has fewer"""
    n = [0]

    def step(frame, event, arg):
        if event == "opcode":
            if n[0] == k:
                n[0] += 1
                action()
            else:
                n[0] += 1
        return step

    def enter(frame, event, arg):
        if frame.f_code.co_filename.endswith(os.path.join("tonnikala", "loader.py")):
            frame.f_trace_opcodes = True
            return step
    old = sys.gettrace()
    sys.settrace(enter)
    try:
        call()
    finally:
        sys.settrace(old)
    return n[0] > k


class World:
    """files with their versions and modification times"""
    def __init__(self, root):
        self.root = root
        self.files = {}
        self.n = 0

    def write(self, path, mtime, bad=False):
        self.n += 1
        os.makedirs(os.path.dirname(path), exist_ok=True)
        text = "<r>v%d</r>" % self.n
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
        os.utime(path, (mtime, mtime))
        self.files[path] = (text, mtime)

    def delete(self, path):
        os.remove(path)
        del self.files[path]

    def find(self, name, paths):
        if os.path.isabs(name):
            return name if name in self.files else None
        for p in paths:
            q = os.path.normpath(os.path.join(os.getcwd(), p, name))
            if q in self.files:
                return q
        return None


def histories(t, rnd):
    """random histories of loads, changes, deletions and passing time, against a model"""
    from tonnikala.loader import FileLoader
    import tonnikala.loader as L
    while not t.over():
        root = os.path.realpath(tempfile.mkdtemp(prefix="c12-", dir=common.scratch()))
        here = os.getcwd()
        try:
            with fake_time() as clock:
                one_history(t, rnd, root, clock, FileLoader, L)
        finally:
            os.chdir(here)
            shutil.rmtree(root, ignore_errors=True)


def one_history(t, rnd, root, clock, FileLoader, L):
    dirs = [os.path.join(root, d) for d in rnd.choice([("p1", "p2", "p3"), ("zz", "b", "a.long.directory"), ("x/y", "x", "w w")])]
    for d in dirs:
        os.makedirs(os.path.join(d, "sub"), exist_ok=True)
    w = World(root)
    names = ["a.tk", "b.tk", "sub/a.tk", "\xe4.tk", os.path.join(dirs[0], "a.tk"), os.path.join(dirs[2], "b.tk")]
    allfiles = [os.path.join(d, n) for d in dirs for n in ("a.tk", "b.tk", "sub/a.tk", "\xe4.tk")]
    mtime = 1000.0
    for f in allfiles:
        if rnd.random() < .55:
            mtime += rnd.choice([0, 0, 1, .5])
            w.write(f, mtime)
    relative = rnd.random() < .3
    if relative:
        # search paths relative to the working directory
        os.chdir(root)
        absdirs, dirs = dirs, [rnd.choice([d, os.path.relpath(d, root)]) for d in dirs]
    if rnd.random() < .5:
        paths = rnd.sample(dirs, rnd.randint(0, 3))
        lo = FileLoader(paths=rnd.choice([tuple, list, iter])(paths))
        paths = list(paths)
    else:
        paths = []
        lo = FileLoader()
    log = ["loader with paths %s" % [os.path.basename(p) for p in paths]]
    reload = False
    cache = {}          # name -> [path, text, mtime, template]
    dropped = []
    last = clock.now
    interval = L.MIN_CHECK_INTERVAL if isinstance(getattr(L, "MIN_CHECK_INTERVAL", None), (int, float)) else .25
    for step in range(rnd.randint(6, 25)):
        op = rnd.random()
        t.arm(log)
        if relative and rnd.random() < .15:
            d = rnd.choice([root] + absdirs)
            os.chdir(d)
            log.append("change to directory %s" % d.replace(root, "/"))
        if op < .5:
            name = rnd.choice(names)
            if abs(clock.now - last - interval) < .01:
                clock.now += .02
            log.append("load %s at %.2f" % (name.replace(root, ""), clock.now))
            with Reads() as rd:
                got = attempt(lambda: lo.load(name))
            inp = list(log)
            if reload and clock.now > last + interval:
                stale = any(c[0] in w.files and w.files[c[0]][1] > c[2] for c in cache.values())
                for n in [n for n in cache if cache[n][0] not in w.files]:
                    del cache[n]
                if stale:
                    # every template goes: others may extend the modified one
                    for e in cache.values():
                        dropped.append(e[3])
                    cache.clear()
                last = clock.now
            ent = cache.get(name)
            if got[0] == "ok" and any(d is got[1] for d in dropped):
                raise Failure("a template is kept although a check found a modified file", inp, "a new template", repr(got[1]))
            if ent is not None:
                if got != ("ok", ent[3]) or got[1] is not ent[3]:
                    raise Failure("loading a loaded name again", inp, "the same template", repr(got[1]))
                if rd.files:
                    raise Failure("loading a loaded name again reads files", inp, [], rd.files)
                if got[1].render({}) != ent[1]:
                    raise Failure("a loaded template changed", inp, ent[1], got[1].render({}))
                continue
            p = w.find(name, paths)
            if p is None:
                if not (got[0] == "exc" and isinstance(got[1], OSError) and got[1].errno == errno.ENOENT):
                    raise Failure("loading a name that has no file", inp, "OSError ENOENT", repr(got[1]))
                continue
            if got[0] != "ok":
                raise Failure("loading an existing template", inp, p.replace(root, ""), repr(got[1]))
            out = attempt(lambda: got[1].render({}))
            if out != ("ok", w.files[p][0]):
                raise Failure("the loaded template is not the current first file", inp + ["files: %s" % {k.replace(root, ""): v for k, v in w.files.items()}], (p.replace(root, ""), w.files[p][0]), out)
            for c in cache.values():
                if c[3] is got[1]:
                    raise Failure("two names share one template object", inp, None, None)
            cache[name] = [p, w.files[p][0], w.files[p][1], got[1]]
        elif op < .68:
            f = rnd.choice(allfiles)
            mtime += rnd.choice([1, .5, 2])
            w.write(f, mtime)
            log.append("write %s mtime %.1f: %s" % (f.replace(root, ""), mtime, w.files[f][0]))
        elif op < .78 and w.files:
            f = rnd.choice(sorted(w.files))
            w.delete(f)
            log.append("delete %s" % f.replace(root, ""))
        elif op < .92:
            d = rnd.choice([0, .05, .1, .2, .3, .5, 1, 10, 1000])
            clock.now += d
            log.append("%.2f s pass" % d)
        elif op < .96:
            reload = rnd.random() < .75
            lo.set_reload(reload)
            log.append("reload %s" % reload)
        else:
            ds = [rnd.choice(dirs) for _ in range(rnd.choice([0, 1, 1, 2, 3]))]
            lo.add_path(*ds)
            paths += ds
            log.append("add paths %s" % [os.path.basename(d) for d in ds])
    t.add(tuple(log), sample=log if rnd.random() < .003 else None)


def fixed(t, rnd):
    from tonnikala.loader import FileLoader
    root = tempfile.mkdtemp(prefix="c12-", dir=common.scratch())
    old = os.getcwd()
    try:
        w = World(root)
        for d in ("p1", "p2"):
            os.makedirs(os.path.join(root, d))
        P1, P2 = os.path.join(root, "p1"), os.path.join(root, "p2")
        A1, A2, B1, B2 = P1 + "/a.tk", P2 + "/a.tk", P1 + "/b.tk", P2 + "/b.tk"

        def fresh(files, paths=(P1, P2), reload=True):
            for f in list(w.files):
                w.delete(f)
            for f, m in files:
                w.write(f, m)
            lo = FileLoader(paths=paths)
            lo.set_reload(reload)
            return lo

        def expect(what, got, e):
            t.add(what, sample=what)
            if got != e:
                raise Failure(what, what, e, got)
        with fake_time() as clock:
            # modification is seen after the interval, in whatever order the cache holds the templates
            for order in (("a.tk", "b.tk"), ("b.tk", "a.tk")):
                for changed in ("a.tk", "b.tk"):
                    lo = fresh([(A1, 10), (B1, 20)])
                    tps = {n: lo.load(n) for n in order}
                    w.write(P1 + "/" + changed, 30)
                    clock.now += 5
                    expect("modified %s after loading %s" % (changed, order), lo.load(changed).render({}), w.files[P1 + "/" + changed][0])
            # modification and deletion together, both orders
            for order in (("a.tk", "b.tk"), ("b.tk", "a.tk")):
                for gone, mod in (("a.tk", "b.tk"), ("b.tk", "a.tk")):
                    lo = fresh([(A1, 10), (B1, 20)])
                    for n in order:
                        lo.load(n)
                    w.delete(P1 + "/" + gone)
                    w.write(P1 + "/" + mod, 40)
                    clock.now += 5
                    expect("deleted %s, modified %s, loaded %s" % (gone, mod, order), lo.load(mod).render({}), w.files[P1 + "/" + mod][0])
                    r = attempt(lambda: lo.load(gone))
                    expect("deleted %s" % gone, (r[0], getattr(r[1], "errno", None)), ("exc", errno.ENOENT))
            # a template keeps what it extends: a modified one drops all of them
            for order in (("a.tk", "b.tk"), ("b.tk",), ("b.tk", "c.tk"), ("c.tk", "b.tk", "a.tk")):
                lo = fresh([(A1, 10), (B1, 20), (P1 + "/c.tk", 5)])

                def put(f, s, m):
                    with open(f, "w") as o:
                        o.write(s)
                    os.utime(f, (m, m))
                put(A1, '<a><py:block name="x">1</py:block></a>', 10)
                put(B1, '<py:extends href="a.tk"><py:block name="y">b</py:block></py:extends>', 20)
                for n in order:
                    lo.load(n).render({})
                put(A1, '<a><py:block name="x">2</py:block></a>', 40)
                clock.now += 5
                expect("a modified template extended by another, loaded %s" % (order,), lo.load("b.tk").render({}), "<a>2</a>")
            # a deleted file only removes its own entry
            lo = fresh([(A1, 10), (B1, 20)])
            ta, tb = lo.load("a.tk"), lo.load("b.tk")
            w.delete(A1)
            clock.now += 5
            expect("b stays after a is deleted", lo.load("b.tk") is tb, True)
            r = attempt(lambda: lo.load("a.tk"))
            expect("a is gone", (r[0], getattr(r[1], "errno", None)), ("exc", errno.ENOENT))
            # a template that is a symbolic link: the file it leads to counts
            for deep in (False, True):
                lo = fresh([(B1, 20)])
                for f in os.listdir(P1):
                    if os.path.islink(os.path.join(P1, f)):
                        os.remove(os.path.join(P1, f))
                put(P2 + "/real.tk", "<r>old</r>", 10)
                if deep:
                    os.symlink("/".join([P2, "real.tk"]), P1 + "/link0.tk")
                    os.symlink("link0.tk", P1 + "/link.tk")
                else:
                    os.symlink("../p2/real.tk", P1 + "/link.tk")
                for f in os.listdir(P1):
                    if os.path.islink(os.path.join(P1, f)):
                        os.utime(os.path.join(P1, f), (5, 5), follow_symlinks=False)
                expect("a symbolic link", lo.load("link.tk").render({}), "<r>old</r>")
                clock.now += 5
                put(P2 + "/real.tk", "<r>new</r>", 30)
                expect("a symbolic link to a file that was modified", lo.load("link.tk").render({}), "<r>new</r>")
                os.remove(P2 + "/real.tk")
                clock.now += 5
                r = attempt(lambda: lo.load("link.tk"))
                expect("a symbolic link to a file that was deleted", (r[0], getattr(r[1], "errno", None)), ("exc", errno.ENOENT))
            # two names of one file, and other files of the same directory
            lo = fresh([(A1, 10), (A2, 10), (B1, 20)])
            for n in ("a.tk", A1, "./a.tk", "b.tk"):
                lo.load(n)
            w.delete(A1)
            clock.now += 5
            r = attempt(lambda: lo.load("b.tk").render({}))
            expect("b stays after a is deleted", r, ("ok", w.files[B1][0]))
            for n in ("a.tk", "./a.tk"):
                expect("%s after the first file of that name is deleted" % n, attempt(lambda: lo.load(n).render({})), ("ok", w.files[A2][0]))
            r = attempt(lambda: lo.load(A1))
            expect("the absolute name of a deleted file", (r[0], getattr(r[1], "errno", None)), ("exc", errno.ENOENT))
            # its whole directory is gone, or has become a file
            for isfile in (False, True):
                S = P1 + "/s%d" % isfile
                os.makedirs(S)
                lo = fresh([(S + "/a.tk", 10), (B1, 20)])
                lo.load("s%d/a.tk" % isfile), lo.load("b.tk")
                w.delete(S + "/a.tk")
                os.rmdir(S)
                if isfile:
                    open(S, "w").close()
                clock.now += 5
                r = attempt(lambda: lo.load("b.tk").render({}))
                expect("b stays after the directory of another template is gone", r, ("ok", w.files[B1][0]))
            # other threads load, too, at every step of a check
            for k in range(0, 1000):
                lo = fresh([(A1, 10), (B1, 20)])
                lo.load("a.tk"), lo.load("b.tk")
                w.delete(A1)
                clock.now += 5

                def other():
                    attempt(lambda: lo.load("a.tk"))
                out = []
                more = at_step(k, other, lambda: out.append(attempt(lambda: lo.load("b.tk").render({}))))
                expect("another thread's load at step %d of a check that finds a deleted file" % k, out[0], ("ok", w.files[B1][0]))
                if not more:
                    break
            for k in range(0, 1000):
                lo = fresh([(A1, 10), (B1, 20)])
                lo.load("a.tk"), lo.load("b.tk")

                def other():
                    w.write(A1, 50)
                    clock.now += 5
                    attempt(lambda: lo.load("a.tk"))
                out = []
                more = at_step(k, other, lambda: out.append(attempt(lambda: lo.load("b.tk").render({}))))
                expect("another thread drops everything at step %d of a load" % k, out[0], ("ok", w.files[B1][0]))
                if not more:
                    break
            # the file is taken as it is
            for data in (b"<r>a\r\nb\rc\n</r>", "<r>\u00e4\u2028\U0001f600</r>".encode("utf-8"), b"<r>" + b"x" * 200000 + b"</r>\n", b"<r>\x0c\x1a\x85</r>".replace(b"\x85", b"\xc2\x85")):
                lo = fresh([(A1, 10)])
                with open(A1, "wb") as f:
                    f.write(data)
                expect("the contents %.30r" % data, lo.load("a.tk").render({}), data.decode("utf-8").strip())
            # a deleted file is replaced by the next path's
            lo = fresh([(A1, 10), (A2, 5)])
            lo.load("a.tk")
            w.delete(A1)
            clock.now += 5
            expect("next search path after deletion", lo.load("a.tk").render({}), w.files[A2][0])
            # reload off: nothing is dropped
            lo = fresh([(A1, 10)], reload=False)
            ta = lo.load("a.tk")
            w.write(A1, 99)
            clock.now += 500
            expect("reload off, modified", lo.load("a.tk") is ta, True)
            w.delete(A1)
            clock.now += 500
            expect("reload off, deleted", lo.load("a.tk") is ta, True)
            # every modification is seen, not only the first
            lo = fresh([(A1, 10)])
            for m in range(20, 90, 7):
                lo.load("a.tk")
                w.write(A1, m)
                clock.now += .3
                expect("modification at %d" % m, lo.load("a.tk").render({}), w.files[A1][0])
            # loads within the interval do not postpone the check
            lo = fresh([(A1, 10)])
            clock.now += 1
            lo.load("a.tk")
            w.write(A1, 20)
            t_end = clock.now + .6
            while clock.now < t_end:
                clock.now += .05
                x = lo.load("a.tk")
            expect("check is not postponed by loads", lo.load("a.tk").render({}), w.files[A1][0])
            # a modification seen through another template's load
            lo = fresh([(A1, 10), (B1, 10)])
            lo.load("a.tk"), lo.load("b.tk")
            w.write(A1, 20)
            clock.now += 5
            lo.load("b.tk")
            expect("modified template after the check was made by another load", lo.load("a.tk").render({}), w.files[A1][0])
            lo = fresh([(A1, 10), (B1, 10)])
            lo.load("a.tk"), lo.load("b.tk")
            clock.now += 5
            lo.load("b.tk")
            w.write(A1, 20)
            clock.now += 5
            lo.load("b.tk")
            expect("second check", lo.load("a.tk").render({}), w.files[A1][0])
            # many templates: the first, one in the middle and the last of them
            many = [(P1 + "/n%d.tk" % i, 10) for i in range(300)]
            for j in (0, 1, 150, 298, 299):
                lo = fresh(many) if j == 0 else lo
                for i in range(300):
                    lo.load("n%d.tk" % i)
                w.write(many[j][0], 20 + j)
                clock.now += 5
                expect("template %d of 300 modified" % j, lo.load("n%d.tk" % j).render({}), w.files[many[j][0]][0])
            # mtime of sub-second precision
            lo = fresh([(A1, 10.25)])
            lo.load("a.tk")
            w.write(A1, 10.5)
            clock.now += 5
            expect("sub-second modification", lo.load("a.tk").render({}), w.files[A1][0])
            # a file that changes while it is being loaded, at every step of the load: the change is seen later
            for replace in (False, True):
                k = 0
                while True:
                    lo = fresh([(A1, 10)])

                    def change():
                        if replace:
                            w.write(A1 + ".new", 50)
                            os.replace(A1 + ".new", A1)
                            w.files[A1] = w.files.pop(A1 + ".new")
                        else:
                            w.write(A1, 50)
                    done = at_step(k, change, lambda: lo.load("a.tk"))
                    if not done:
                        break
                    clock.now += 5
                    what = "file %s at step %d of its load" % ("replaced" if replace else "modified", k)
                    expect(what, lo.load("a.tk").render({}), w.files[A1][0])
                    k += 1
            # encoding
            lo = fresh([])
            with open(A1, "w", encoding="utf-8") as f:
                f.write("<r>\xe4\u20ac\U0001f600</r>")
            w.files[A1] = ("", 1)
            expect("UTF-8 file", lo.load("a.tk").render({}), "<r>\xe4\u20ac\U0001f600</r>")
            # relative search path, dots in names
            os.chdir(root)
            lo = fresh([(A1, 10), (A2, 10)], paths=["p2", "p1"])
            expect("relative paths in order", lo.load("a.tk").render({}), w.files[A2][0])
            expect("dotted name", lo.load("../p1/a.tk").render({}), w.files[A1][0])
            expect("absolute name", lo.load(A1).render({}), w.files[A1][0])
            r = attempt(lambda: lo.load(os.path.join(root, "p1", "nosuch.tk")))
            expect("absolute name without file", (r[0], getattr(r[1], "errno", None)), ("exc", errno.ENOENT))
            r = attempt(lambda: FileLoader().load("a.tk"))
            expect("no search path", (r[0], getattr(r[1], "errno", None)), ("exc", errno.ENOENT))
            # the file name is part of errors
            lo = fresh([])
            with open(A1, "w") as f:
                f.write("<r>\n${x}</r>")
            w.files[A1] = ("", 1)
            import traceback
            r = attempt(lambda: lo.load("a.tk").render({}))
            expect("file in traceback", [(f.filename, f.lineno) for f in traceback.extract_tb(r[1].__traceback__)][-1], (A1, 2))
            # failing templates are not cached
            with open(A1, "w") as f:
                f.write("<r></b></r>")
            lo = FileLoader([P1])
            r = attempt(lambda: lo.load("a.tk"))
            with open(A1, "w") as f:
                f.write("<r>ok</r>")
            expect("after a failed load", attempt(lambda: lo.load("a.tk").render({})), ("ok", "<r>ok</r>"))
            # options
            lo = FileLoader([P1], translatable=True)
            expect("translatable", lo.load("a.tk").render(dict(gettext=lambda s: "T" + s)), "<r>Tok</r>")
            # inheritance goes through the loader
            with open(B1, "w") as f:
                f.write('<py:extends href="a.tk"/>')
            lo = FileLoader([P1])
            expect("extends by name", lo.load("b.tk").render({}), "<r>ok</r>")
            expect("base is cached", lo.load("a.tk") is lo.load("a.tk"), True)
    finally:
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)


PARTS = [("random histories", histories, 6), ("fixed histories", fixed, 1)]
