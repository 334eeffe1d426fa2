import importlib, importlib.util, os, subprocess, sys, sysconfig, tempfile, atexit, shutil, warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
REPO = os.environ.get("TK_REPO", "/repo")
SCRATCH = None
CBUF_ERROR = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="tkv-")
        owner = os.getpid()

        def clean():
            if os.getpid() == owner:
                shutil.rmtree(SCRATCH, ignore_errors=True)
        atexit.register(clean)
    return SCRATCH


def build_c_buffer():
    """Compile the current _buffer.c into the scratch directory and load it as tonnikala.runtime._buffer.
    Returns the module, or None with CBUF_ERROR set when it does not compile."""
    global CBUF_ERROR
    src = os.path.join(REPO, "tonnikala", "runtime", "_buffer.c")
    out = os.path.join(scratch(), "_buffer" + sysconfig.get_config_var("EXT_SUFFIX"))
    cmd = ["gcc", "-shared", "-fPIC", "-O1", "-w", "-I", sysconfig.get_paths()["include"], src, "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        CBUF_ERROR = p.stderr[-2000:]
        return None
    spec = importlib.util.spec_from_file_location("tonnikala.runtime._buffer", out)
    try:
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        m.Buffer
    except BaseException as e:        # import error: the package falls back to its Python buffer
        CBUF_ERROR = repr(e)
        return None
    return m


class _Block:
    """Prevents a stale .so in the working tree from being imported."""
    def find_spec(self, name, path=None, target=None):
        if name == "tonnikala.runtime._buffer":
            raise ImportError("not the build of the current source")
        return None


_done = False


def setup(c_buffer=True):
    """Make `import tonnikala` give the working tree of REPO, with a freshly compiled C buffer."""
    global _done
    if _done:
        return
    _done = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    m = build_c_buffer() if c_buffer else None
    if m is not None:
        import tonnikala.runtime
        sys.modules["tonnikala.runtime._buffer"] = m
        tonnikala.runtime._buffer = m
    else:
        sys.meta_path.insert(0, _Block())


def buffers():
    """The buffer implementations under test: name -> class."""
    setup()
    import tonnikala.runtime.python as rp
    d = {"python": rp._TKPythonBufferImpl}
    if rp.Buffer is not rp._TKPythonBufferImpl:
        d["c"] = rp.Buffer
    return d


class use_buffer:
    """Render with the given buffer implementation."""
    def __init__(self, cls):
        self.cls = cls

    def __enter__(self):
        import tonnikala.runtime.python as rp
        self.old = rp.Buffer, rp.TonnikalaRuntime.__dict__["Buffer"]
        rp.Buffer = self.cls
        rp.TonnikalaRuntime.Buffer = staticmethod(self.cls)

    def __exit__(self, *a):
        import tonnikala.runtime.python as rp
        rp.Buffer, rp.TonnikalaRuntime.Buffer = self.old[0], self.old[1]


class Failure(Exception):
    """A concrete input on which the real code breaks the property."""
    def __init__(self, what, inp, expected=None, got=None):
        super().__init__(what)
        self.what, self.inp, self.expected, self.got = what, inp, expected, got

    def as_dict(self):
        return dict(what=self.what, input=repr(self.inp)[:20000], expected=repr(self.expected)[:20000], got=repr(self.got)[:20000])


class Tally:
    def __init__(self, deadline=None):
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.deadline = deadline

    def add(self, key, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hash(key))
        if sample is not None and len(self.samples) < 4:
            self.samples.append(str(sample)[:600])

    def over(self):
        import time
        return self.deadline is not None and time.time() > self.deadline


def attempt(fn):
    """Outcome of a call of the real code: ('ok', value) or ('exc', exception)."""
    try:
        return "ok", fn()
    except Failure:
        raise
    except Hang:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        return "exc", e


class Hang(BaseException):
    """The code under test did not return in time."""


class Skip(Exception):
    """The internal interface this part looks at is no longer there."""


def internal(modname, attr, params=None):
    """An internal function under direct contract; Skip when a change renamed it or altered its signature."""
    import inspect
    try:
        o = importlib.import_module(modname)
        for p in attr.split("."):
            o = getattr(o, p)
    except (ImportError, AttributeError) as e:
        raise Skip("%s.%s: %s" % (modname, attr, e))
    if params is not None:
        try:
            have = list(inspect.signature(o).parameters)
        except (TypeError, ValueError):
            have = None
        if have is None or have[:len(params)] != list(params):
            raise Skip("%s.%s: parameters %r" % (modname, attr, have))
    return o
