"""World for tn.cli: the real standard-library argparse, stand-in processors."""
import sys as _sys
import types

from vf import fakefs, stubs, sx
from vf.loader import World

CLASSES = {
    ("tn", "zh"): ("tn.chinese.normalizer", "Normalizer"),
    ("tn", "en"): ("tn.english.normalizer", "Normalizer"),
    ("tn", "ja"): ("tn.japanese.normalizer", "Normalizer"),
    ("itn", "zh"): ("itn.chinese.inverse_normalizer", "InverseNormalizer"),
    ("itn", "en"): ("itn.english.inverse_normalizer", "InverseNormalizer"),
    ("itn", "ja"): ("itn.japanese.inverse_normalizer", "InverseNormalizer"),
}


class Out:
    """Records written text as a list of (possibly symbolic) pieces."""

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        pass

    def text(self):
        return sx.sx_concat(self.parts)


class Lines:
    """A text stream: iteration, readline, read."""

    def __init__(self, lines):
        self.lines = list(lines)
        self.pos = 0
        self.closed = False

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= len(self.lines):
            raise StopIteration
        self.pos += 1
        return self.lines[self.pos - 1]

    def readline(self):
        return next(self, "")

    def readlines(self):
        return list(self)

    def read(self):
        return sx.sx_concat(list(self))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self):
        self.closed = True


class VF:

    def __init__(self):
        self.reset()

    def reset(self):
        self.made = []
        self.files = {}
        self.opened = []
        self.Out, self.Lines, self.CLASSES = Out, Lines, CLASSES
        self.process = None


def world(instrument):
    vf = VF()
    st = stubs.wfst_stubs(stubs.Holder())
    st["pynini"].vf = vf
    for (direction, lang), (mod, cls) in CLASSES.items():
        m = types.ModuleType(mod)

        def make(direction=direction, lang=lang):

            def __init__(self, *a, **k):
                self.args, self.kw = a, dict(k)
                self.calls = []
                vf.made.append((direction, lang, self))

            def tag(self, text, *a):
                self.calls.append(("tag", text))
                return sx.sx_concat(["T<", text, ">"])

            def verbalize(self, tagged, *a):
                self.calls.append(("verbalize", tagged))
                return sx.sx_concat(["V<", tagged, ">"])

            return type(cls, (), dict(__init__=__init__, tag=tag, verbalize=verbalize))

        setattr(m, cls, make())
        st[mod] = m
    sysm = fakefs.FakeModule("sys")
    for k in ("maxsize", "byteorder", "version_info", "platform", "implementation", "exc_info", "modules", "flags", "version"):
        setattr(sysm, k, getattr(_sys, k))
    sysm.argv = ["prog"]

    class Exit(Exception):
        pass

    vf.Exit = Exit

    def exit_(code=0):
        raise Exit(code)

    sysm.exit = exit_
    sysm.stdin, sysm.stdout, sysm.stderr = Lines([]), Out(), Out()
    vf.sys = sysm
    st["sys"] = sysm

    def open_(path, *a, **k):
        vf.opened.append((path, a, k))
        p = path.concrete() if isinstance(path, sx.SymStr) else path
        if p not in vf.files:
            raise FileNotFoundError(2, "No such file or directory", p)
        return Lines(vf.files[p])

    class Path:

        def __init__(self, p):
            self.p = p.p if isinstance(p, Path) else p

        def open(self, *a, **k):
            return open_(self.p, *a, **k)

        def read_text(self, *a, **k):
            return open_(self.p).read()

        def exists(self):
            return self.p in vf.files

        is_file = exists

        def __str__(self):
            return self.p

        __fspath__ = __str__

    for name in ("pathlib", "io", "codecs"):
        st[name] = fakefs.FakeModule(name)
    st["pathlib"].Path = Path
    st["io"].open = st["codecs"].open = open_

    def print_(*args, sep=" ", end="\n", file=None, flush=False):
        f = sysm.stdout if file is None else file
        out = []
        for i, a in enumerate(args):
            if i:
                out.append(sep)
            out.append(sx.sx_str(a))
        out.append(end)
        f.write(sx.sx_concat(out))

    return World(stubs=st, instrument=instrument, builtins={"open": open_, "print": print_}, stdlib=("argparse", ))
