"""Stand-ins for pynini used when only the Python code around it is executed.

The weighted-transducer operations are replaced by objects that hand back a
path (or a set of weighted paths) chosen by the harness; the path itself is
symbolic, so the code under test must be right for every path pynini could
return.
"""
import types


class Arc:

    def __init__(self, ilabel, olabel, nextstate):
        self.ilabel = ilabel
        self.olabel = olabel
        self.nextstate = nextstate
        self.weight = 0


class Path:
    """A shortest path as pynini returns it."""

    def __init__(self, arcs, start, text):
        self._arcs = arcs  # state -> list of arcs
        self._start = start
        self._text = text

    def start(self):
        return self._start

    def arcs(self, state):
        return iter(self._arcs.get(state, []))

    def num_arcs(self, state):
        return len(self._arcs.get(state, []))

    def num_states(self):
        return len(self._arcs)

    def states(self):
        return iter(sorted(self._arcs))

    def final(self, state):
        return 0 if not self._arcs.get(state) else float("inf")

    def string(self, *a):
        return self._text


class Lattice:
    """Anything composed: records its operands."""

    def __init__(self, *parts):
        self.parts = parts

    def __matmul__(self, o):
        return Lattice(*(self.parts + (o.parts if isinstance(o, Lattice) else (o, ))))

    def __rmatmul__(self, o):
        return Lattice(*((o.parts if isinstance(o, Lattice) else (o, )) + self.parts))

    def copy(self):
        return self

    def optimize(self):
        return self

    def project(self, side):
        return self

    def rmepsilon(self):
        return self


def path_pynini(holder):
    """pynini whose shortestpath returns holder.path for the last operands."""
    m = types.ModuleType("pynini")
    m.escape = lambda s: s
    m.accep = lambda s: Lattice(s)

    def shortestpath(lat, nshortest=1, unique=False, **k):
        holder.asked.append((lat.parts, nshortest))
        return holder.path

    m.shortestpath = shortestpath
    m.compose = lambda a, b, **k: Lattice(a) @ b if not isinstance(a, Lattice) else a @ b
    m.Fst = object
    return m


class Holder:

    def __init__(self):
        self.asked = []
        self.path = None


class Any:
    """An opaque graph: every operation gives another opaque graph."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return self

    def _op(self, *a, **k):
        return self

    __call__ = _op

    __matmul__ = __rmatmul__ = __add__ = __radd__ = __or__ = __ror__ = __sub__ = __rsub__ = __pow__ = __getitem__ = _op
    star = plus = ques = property(lambda self: self)


class AnyModule(types.ModuleType):

    def __init__(self, name, **kw):
        super().__init__(name)
        self.__path__ = []
        for k, v in kw.items():
            setattr(self, k, v)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Any()


class Graph(Lattice):
    """A named transducer (the tagger or the verbalizer)."""

    def __init__(self, name):
        Lattice.__init__(self, self)
        self.name = name

    def __repr__(self):
        return "<%s>" % self.name


class Shortest:
    """Result of shortestpath: a linear path and/or an ordered list of outputs."""

    def __init__(self, path=None, outputs=()):
        self._path = path
        self._outputs = list(outputs)

    def start(self):
        if self._path is None:
            return -1 if not self._outputs else 0
        return self._path.start()

    def num_states(self):
        return 0 if self.start() == -1 else 1

    def arcs(self, s):
        return self._path.arcs(s)

    def final(self, s):
        return self._path.final(s)

    def states(self):
        return self._path.states()

    def string(self, *a):
        if self._path is not None:
            return self._path.string()
        if not self._outputs:
            raise RuntimeError("FST is not a string")
        return self._outputs[0][0]

    def paths(self, *a, **k):
        return PathIter(self._outputs)

    def copy(self):
        return self

    def project(self, *a):
        return self

    def rmepsilon(self):
        return self

    def optimize(self):
        return self


class PathIter:

    def __init__(self, outputs):
        self._o = outputs
        self._i = 0

    def done(self):
        return self._i >= len(self._o)

    def next(self):
        self._i += 1

    def ostring(self):
        return self._o[self._i][0]

    def istring(self):
        return self._o[self._i][0]

    def weight(self):
        return self._o[self._i][1]

    def reset(self):
        self._i = 0

    def items(self):
        return iter([(o, o, w) for o, w in self._o])

    def ostrings(self):
        return iter([o for o, _ in self._o])

    def weights(self):
        return iter([w for _, w in self._o])


def wfst_stubs(holder):
    """Module stubs for code that reaches pynini through Processor."""

    def shortestpath(lat, nshortest=1, unique=False, **k):
        parts = lat.parts if isinstance(lat, Lattice) else (lat, )
        return holder.lookup(tuple(p.name if isinstance(p, Graph) else p for p in parts), nshortest)

    def compose(a, b, **k):
        a = a if isinstance(a, Lattice) else Lattice(a)
        return a @ b

    py = AnyModule("pynini",
                   escape=lambda s: s,
                   accep=lambda s, **k: Lattice(s),
                   compose=compose,
                   shortestpath=shortestpath,
                   Fst=Any,
                   __version__="2.1.7")
    lib = AnyModule("pynini.lib", byte=Any(), utf8=Any(), pynutil=AnyModule("pynini.lib.pynutil"))
    return {
        "pynini": py,
        "pynini.lib": lib,
        "pynini.lib.pynutil": AnyModule("pynini.lib.pynutil"),
        "pynini.lib.byte": AnyModule("pynini.lib.byte"),
        "pynini.lib.utf8": AnyModule("pynini.lib.utf8"),
    }
