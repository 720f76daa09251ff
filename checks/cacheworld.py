"""World for tn.cache and Processor.build_fst: everything the cache touches
outside the process (files, locks, clock, random names, pynini) is a model."""
import errno
import math
import sys as _sys
import types

from vf import fakefs, stubs, sx
from vf.loader import World


class Graph:
    """A compiled transducer; its identity is its serialized bytes."""

    def __init__(self, vf, data):
        self.vf, self.data = vf, data

    def optimize(self):
        return self

    def write(self, path):
        fd = self.vf.fs.open(path, self.vf.os.O_WRONLY | self.vf.os.O_CREAT | self.vf.os.O_TRUNC, 0o644)
        half = len(self.data) // 2
        try:
            self.vf.fs.write(fd, self.data[:half])
            self.vf.fs.write(fd, self.data[half:])
        finally:
            if not self.vf.fs.dead:
                self.vf.fs.close(fd)

    def write_to_string(self):
        return self.data

    def copy(self):
        return self


def _fst_class(vf):

    class Fst:

        @staticmethod
        def read_from_string(data):
            data = data.sym() if isinstance(data, fakefs.SxBuf) else data
            if isinstance(data, (bytearray, memoryview)):
                data = bytes(data)
            if vf.fst_ok is not None and not vf.fst_ok(data):
                raise ValueError("Read failed")
            return Graph(vf, data)

        @staticmethod
        def read(path):
            f = vf.fs.builtin_open(path, "rb")
            d = f.read()
            f.close()
            return Fst.read_from_string(d)

    return Fst


class VF:
    """Handle the harnesses use."""

    def __init__(self):
        self.fs = fakefs.FS()
        self.environ = {}
        self.os = None
        self.reset()

    def reset(self):
        self.fs.__init__()
        self.environ.clear()
        self.environ["HOME"] = "/home/u"
        self.fst_ok = None
        self.now = lambda: self.fs.clock
        self.sleeps = []
        self.on_sleep = None
        self.uuid_n = 0
        if hasattr(self, "hashlib"):
            self.hashlib.reset()
        self.Graph = lambda data: Graph(self, data)


def world(instrument):
    vf = VF()
    st = stubs.wfst_stubs(stubs.Holder())
    om = fakefs.os_module(vf.fs, vf.environ)
    vf.os = om
    vf.hashlib = fakefs.hashlib_module()
    st["os"] = om
    st["posix"] = None
    st["json"] = fakefs.json_module()
    st["hashlib"] = vf.hashlib
    st["fcntl"] = fakefs.fcntl_module(vf.fs)
    st["tempfile"] = fakefs.tempfile_module(vf.fs)
    st["shutil"] = fakefs.shutil_module(vf.fs)
    st["io"] = fakefs.io_module(vf.fs)

    t = fakefs.FakeModule("time")
    t.monotonic = t.perf_counter = lambda: vf.now()
    t.time = lambda: 1.5e9

    def sleep(s):
        vf.sleeps.append(s)
        if vf.on_sleep is not None:
            vf.on_sleep(s)
        else:
            vf.fs.clock += s

    t.sleep = sleep
    st["time"] = t

    u = fakefs.FakeModule("uuid")

    class U:

        def __init__(self):
            vf.uuid_n += 1
            self.hex = "%032x" % vf.uuid_n

        def __str__(self):
            return self.hex

    u.uuid4 = u.uuid1 = U
    st["uuid"] = u
    pl = fakefs.FakeModule("platform")
    pl.node = lambda: "host"
    pl.python_implementation = lambda: vf.impl if hasattr(vf, "impl") else "CPython"
    pl.machine = lambda: "x86_64"
    pl.system = lambda: "Linux"
    pl.platform = lambda: "Linux-x86_64"
    pl.python_version = lambda: "3.12.3"
    st["platform"] = pl
    sysm = fakefs.FakeModule("sys")
    for k in ("maxsize", "byteorder", "version_info", "platform", "implementation", "getfilesystemencoding", "audit",
              "getfilesystemencodeerrors", "exc_info", "modules", "stdout", "stderr", "stdin", "version", "flags"):
        setattr(sysm, k, getattr(_sys, k))
    sysm.intern = lambda s: s
    sysm.audit = lambda *a: None
    st["sys"] = sysm
    vf.sys, vf.platform = sysm, pl
    mathm = fakefs.FakeModule("math")
    for k in dir(math):
        if not k.startswith("__"):
            setattr(mathm, k, getattr(math, k))
    mathm.isfinite = lambda x: True if isinstance(x, (sx.SymInt, sx.SymReal)) else math.isfinite(x)
    mathm.isnan = lambda x: False if isinstance(x, (sx.SymInt, sx.SymReal)) else math.isnan(x)
    mathm.isinf = lambda x: False if isinstance(x, (sx.SymInt, sx.SymReal)) else math.isinf(x)
    st["math"] = mathm
    pyn = st["pynini"]
    pyn.Fst = _fst_class(vf)
    pyn.__version__ = "2.1.7"
    pyn.vf = vf
    vf.pynini = pyn
    vf.Crash = fakefs.Crash
    vf.JsonDoc = fakefs.JsonDoc
    vf.err = fakefs.err
    vf.errno = errno
    builtins = {"open": vf.fs.builtin_open}
    builtins["bytearray"] = fakefs.SxBuf
    builtins["memoryview"] = fakefs.SxView
    w = World(stubs=st, instrument=instrument, builtins=builtins, stdlib=("pathlib", "posixpath", "genericpath"))
    om.path = w.load("posixpath")
    return w
