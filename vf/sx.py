"""A dynamic symbolic executor for the repository's Python code.

The functions under test are loaded from /repo's current source, their AST is
rewritten so that operations which CPython performs inside C (``in``, string
methods, formatting, displays used as hash tables, builtins) go through this
module, and they are then *executed* on proxy values whose content is a z3
term.  Every branch on a proxy is decided by z3: if both outcomes are possible
under the path condition the executor explores both (depth-first, by
re-execution).  A harness states the property with ``sx.check(cond)``: z3 is
asked for a model of  path-condition /\\ not cond.  ``unsat`` on every path of
an exhausted exploration means the property holds for all values of the
symbolic inputs within the harness's stated bounds.

Models are turned back into ordinary Python values and the same harness is run
again, un-instrumented, on the real code ("replay").
"""
import re as _re
import builtins as _bi
import collections.abc as _cabc
import os
import string as _string
import sys
import time
import types

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)
import z3  # noqa: E402

REPO = os.environ.get("VF_REPO", "/repo")

MAXCP = 0x10FFFF


# --------------------------------------------------------------------------
# control flow
class SxControl(BaseException):
    """Base of executor control exceptions; never an Exception."""


class Infeasible(SxControl):
    pass


class Unsupported(SxControl):
    pass


class StepLimit(SxControl):
    pass


class SplitPoint(SxControl):
    pass


class PathAbort(SxControl):
    pass


# --------------------------------------------------------------------------
# character classes as code point ranges
_RANGES = {}


def ranges_of(pred_name):
    r = _RANGES.get(pred_name)
    if r is None:
        f = getattr(str, pred_name)
        r = []
        start = None
        for c in range(MAXCP + 2):
            v = c <= MAXCP and f(chr(c))
            if v and start is None:
                start = c
            elif not v and start is not None:
                r.append((start, c - 1))
                start = None
        _RANGES[pred_name] = r
    return r


def ranges_of_set(cps):
    r = []
    for c in sorted(set(cps)):
        if r and r[-1][1] == c - 1:
            r[-1] = (r[-1][0], c)
        else:
            r.append((c, c))
    return r


def in_ranges(e, ranges):
    """z3 (or Python) truth of  e in ranges."""
    if isinstance(e, int):
        return any(a <= e <= b for a, b in ranges)
    parts = []
    for a, b in ranges:
        parts.append(e == a if a == b else z3.And(e >= a, e <= b))
    if not parts:
        return False
    return z3.Or(*parts) if len(parts) > 1 else parts[0]


# --------------------------------------------------------------------------
class Engine:
    """State of one exploration (a process explores one harness at a time)."""

    def __init__(self, max_steps=20000, max_depth=4000, query_ms=20000):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.decisions = []  # [expr, value, other_side_open]
        self.pushed = 0
        self.depth = 0
        self.steps = 0
        self.max_steps = max_steps
        self.max_depth = max_depth
        self.queries = 0
        self.sat_time = 0.0
        self.unknown = 0
        self.model = None
        self.split_depth = None
        self.dead = False
        self.inputs = {}
        self.var_names = {}

    # -- solver
    def _check(self, *extra):
        t = time.perf_counter()
        self.queries += 1
        r = self.solver.check(*extra)
        self.sat_time += time.perf_counter() - t
        if r == z3.unknown:
            self.unknown += 1
        return r

    def start(self):
        self.depth = 0
        self.steps = 0
        self.dead = False
        self.inputs = {}
        self.var_names = {}

    def _sync(self):
        """Current path condition is exactly decisions[:depth] (pushed)."""

    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.e
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        self._decide(cond, forced=True)

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        return self._decide(cond)

    def _decide(self, cond, forced=False):
        if self.dead:
            raise PathAbort()
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            if forced:
                raise Infeasible()
            return False
        d = self.depth
        if d < len(self.decisions):
            ent = self.decisions[d]
            val = ent[1]
            if ent[0] is None:
                ent[0] = cond
            if d >= self.pushed:
                self.solver.push()
                self.solver.add(ent[0] if val else z3.Not(ent[0]))
                self.pushed = d + 1
                self.model = None
            self.depth += 1
            return val
        if d >= self.max_depth:
            self.dead = True
            raise StepLimit()
        if self.split_depth is not None and d >= self.split_depth and not forced:
            self.dead = "split"
            raise SplitPoint()
        m = self.get_model()
        side = z3.is_true(m.eval(cond, model_completion=True))
        if forced:
            other = False
            if not side:
                r = self._check(cond)
                if r != z3.sat:
                    self.dead = "infeasible"
                    raise Infeasible()
                self.model = self.solver.model()
                side = True
        else:
            r = self._check(z3.Not(cond) if side else cond)
            other = r != z3.unsat
        self.decisions.append([cond, side, other])
        self.solver.push()
        self.solver.add(cond if side else z3.Not(cond))
        self.pushed = d + 1
        self.depth += 1
        return side

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r != z3.sat:
                self.dead = "infeasible"
                raise Infeasible()
            self.model = self.solver.model()
        return self.model

    def backtrack(self, floor=0):
        """Moves to the next unexplored path; False when none is left."""
        while len(self.decisions) > floor:
            ent = self.decisions[-1]
            if self.pushed >= len(self.decisions):
                self.solver.pop()
                self.pushed = len(self.decisions) - 1
            if ent[2]:
                ent[1] = not ent[1]
                ent[2] = False
                self.model = None
                return True
            self.decisions.pop()
        self.model = None
        return False

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            self.dead = True
            raise StepLimit()

    def concretize(self, e):
        """All values of a term, one per path."""
        for _ in range(4096):
            v = self.get_model().eval(e, model_completion=True)
            if self.branch(e == v):
                return v
        self.dead = True
        raise StepLimit()


ENG = None


def eng():
    return ENG


def tick():
    if ENG is not None:
        ENG.tick()


# --------------------------------------------------------------------------
# booleans and numbers
def _b(x):
    if isinstance(x, SymBool):
        return x.e
    return bool(x)


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.branch(self.e)

    def __and__(self, o):
        return mkbool(zand(self.e, _b(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(zor(self.e, _b(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(znot(self.e))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else ~self
        if isinstance(o, (int, SymInt)):
            return mkint(z3.If(self.e, 1, 0)) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return 1 if self else 0

    def __index__(self):
        return 1 if self else 0

    def __add__(self, o):
        return mkint(z3.If(self.e, 1, 0)) + o

    __radd__ = __add__

    def __repr__(self):
        return "SymBool"


def zand(*a):
    out = []
    for x in a:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def zor(*a):
    out = []
    for x in a:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def znot(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def mkbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def is_sym(x):
    return isinstance(x, (SymBool, SymInt, SymReal, SymStr, SymBytes))


class SymNum:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @staticmethod
    def _lift(o):
        if isinstance(o, SymNum):
            return o.e
        if isinstance(o, SymBool):
            return z3.If(o.e, 1, 0)
        if isinstance(o, bool):
            return int(o)
        if isinstance(o, int):
            return o
        if isinstance(o, float):
            if o != o or o in (float("inf"), float("-inf")):
                return o
            n, d = o.as_integer_ratio()
            return z3.RealVal(n) / z3.RealVal(d) if d != 1 else z3.RealVal(n)
        return None

    def _cmp(self, o, op):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            pos = o > 0
            return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]
        v = self._lift(o)
        if v is None:
            return NotImplemented
        if op == "<":
            r = self.e < v
        elif op == "<=":
            r = self.e <= v
        elif op == ">":
            r = self.e > v
        elif op == ">=":
            r = self.e >= v
        elif op == "==":
            r = self.e == v
        else:
            r = self.e != v
        return mkbool(r)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    def _bin(self, o, f):
        v = self._lift(o)
        if v is None:
            return NotImplemented
        return mknum(f(self.e, v))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (str, SymStr, list, tuple, bytes)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mknum(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mknum(z3.If(self.e < 0, -self.e, self.e))

    def __bool__(self):
        return ENG.branch(self.e != 0)

    def __repr__(self):
        return "<sym>"


class SymInt(SymNum):
    __slots__ = ()

    def _concrete(self):
        return ENG.concretize(self.e).as_long()

    def __index__(self):
        return self._concrete()

    def __int__(self):
        return self._concrete()

    def __hash__(self):
        return hash(self._concrete())

    def __float__(self):
        return float(self._concrete())

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mknum(self.e / o)
        return self._concrete() // int(o)

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mknum(self.e % o)
        return self._concrete() % int(o)

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.e)) / o

    def to_bytes(self, n, order):
        e = self.e
        out = [mkint((e / (256 ** i)) % 256) for i in range(n)]
        if not ENG.branch(z3.And(e >= 0, e < 256 ** n)):
            raise OverflowError("int too big to convert")
        if order == "big":
            out.reverse()
        return SymBytes([x.e if isinstance(x, SymInt) else x for x in out])

    def __lshift__(self, n):
        return self * (1 << int(n))

    def __rshift__(self, n):
        return self // (1 << int(n))

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return self._concrete() & int(o)

    __rand__ = __and__

    def __or__(self, o):
        return self._concrete() | int(o)

    def __ror__(self, o):
        return int(o) | self._concrete()

    def __format__(self, spec):
        return "<sym>"

    def __str__(self):
        return str(self._concrete())


class SymReal(SymNum):
    __slots__ = ()

    def __truediv__(self, o):
        v = self._lift(o)
        return mknum(self.e / v)

    def __float__(self):
        raise Unsupported("float() of a symbolic real in C code")

    def __hash__(self):
        raise Unsupported("hash of a symbolic real")

    def __format__(self, spec):
        return "<sym>"


def mknum(e):
    if isinstance(e, (int, float)):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    if e.sort() == z3.RealSort():
        return SymReal(e)
    return SymInt(e)


def mkint(e):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


# --------------------------------------------------------------------------
# sequences of code points / bytes
def ceq(a, b):
    """Equality of two characters (ints or z3 Int terms)."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return a == b


class SymSeq:
    __slots__ = ("c",)

    def __init__(self, chars):
        self.c = tuple(chars)

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return bool(self.c)

    @classmethod
    def lift(cls, o):
        raise NotImplementedError

    def _mk(self, chars):
        return type(self)(chars)

    def simp(self):
        """A plain str/bytes when every character is concrete."""
        raise NotImplementedError

    def eqexpr(self, o):
        o = self.lift(o)
        if o is None or len(o.c) != len(self.c):
            return False
        parts = []
        for a, b in zip(self.c, o.c):
            if isinstance(a, int) and isinstance(b, int):
                if a != b:
                    return False
            elif a is b or (not isinstance(a, int) and not isinstance(b, int) and a.eq(b)):
                continue
            else:
                parts.append(a == b)
        return zand(*parts)

    def __eq__(self, o):
        return mkbool(self.eqexpr(o))

    def __ne__(self, o):
        return mkbool(znot(self.eqexpr(o)))

    def _ltexpr(self, o, orequal):
        a, b = self.c, o.c
        n = min(len(a), len(b))
        r = (len(a) <= len(b)) if orequal else (len(a) < len(b))
        for i in range(n - 1, -1, -1):
            x, y = a[i], b[i]
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    r = x < y
            else:
                r = zor(x < y, zand(x == y, r))
        return r

    def __lt__(self, o):
        return mkbool(self._ltexpr(self.lift(o), False))

    def __le__(self, o):
        return mkbool(self._ltexpr(self.lift(o), True))

    def __gt__(self, o):
        return mkbool(znot(self._ltexpr(self.lift(o), True)))

    def __ge__(self, o):
        return mkbool(znot(self._ltexpr(self.lift(o), False)))

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        """Forks until every character is a constant."""
        out = []
        for x in self.c:
            if not isinstance(x, int):
                x = ENG.concretize(x).as_long()
            out.append(x)
        return self._plain(out)

    def __add__(self, o):
        l = self.lift(o)
        if l is None:
            if isinstance(o, (int, float, list, tuple, dict, type(None))):
                raise TypeError("can only concatenate str (not {}) to str".format(type(o).__name__))
            return NotImplemented
        return self._mk(self.c + l.c)

    def __radd__(self, o):
        l = self.lift(o)
        if l is None:
            raise TypeError("can only concatenate str to str")
        return self._mk(l.c + self.c)

    def __mul__(self, n):
        return self._mk(self.c * _idx(n))

    __rmul__ = __mul__

    def _slice(self, k):
        return slice(_idx(k.start), _idx(k.stop), _idx(k.step))

    # -- searching
    def _match_at(self, i, needle):
        if i < 0 or i + len(needle.c) > len(self.c):
            return False
        return self._mk(self.c[i:i + len(needle.c)]).eqexpr(needle)

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        n = self.lift(o)
        if n is None:
            raise TypeError("'in <string>' requires string as left operand")
        return mkbool(zor(*[self._match_at(i, n) for i in range(len(self.c) - len(n.c) + 1)]))

    def _bounds(self, start, end):
        s, e, _ = slice(_idx(start), _idx(end)).indices(len(self.c))
        return s, e

    def find(self, sub, start=None, end=None):
        n = self.lift(sub)
        s, e = self._bounds(start, end)
        for i in range(s, e - len(n.c) + 1):
            if ENG.branch(self._match_at(i, n)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        n = self.lift(sub)
        s, e = self._bounds(start, end)
        for i in range(e - len(n.c), s - 1, -1):
            if ENG.branch(self._match_at(i, n)):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        n = self.lift(sub)
        s, e = self._bounds(start, end)
        k = 0
        i = s
        while i + len(n.c) <= e:
            if ENG.branch(self._match_at(i, n)):
                k += 1
                i += max(1, len(n.c))
            else:
                i += 1
        return k

    def startswith(self, p, start=None, end=None):
        s, e = self._bounds(start, end)
        seg = self._mk(self.c[s:e])
        if isinstance(p, tuple):
            return mkbool(zor(*[_b(seg.startswith(x)) for x in p]))
        n = self.lift(p)
        return mkbool(seg._match_at(0, n))

    def endswith(self, p, start=None, end=None):
        s, e = self._bounds(start, end)
        seg = self._mk(self.c[s:e])
        if isinstance(p, tuple):
            return mkbool(zor(*[_b(seg.endswith(x)) for x in p]))
        n = self.lift(p)
        return mkbool(seg._match_at(len(seg.c) - len(n.c), n))

    def removeprefix(self, p):
        n = self.lift(p)
        return self._mk(self.c[len(n.c):]) if self.startswith(p) else self

    def removesuffix(self, p):
        n = self.lift(p)
        if len(n.c) and self.endswith(p):
            return self._mk(self.c[:len(self.c) - len(n.c)])
        return self

    def replace(self, old, new, count=-1):
        o, n = self.lift(old), self.lift(new)
        out = []
        i = 0
        count = _idx(count)
        if not o.c:
            for j, x in enumerate(self.c):
                if count == 0:
                    out.extend(self.c[j:])
                    return self._mk(out)
                out.extend(n.c)
                out.append(x)
                count -= 1
            if count != 0:
                out.extend(n.c)
            return self._mk(out)
        while i < len(self.c):
            if count != 0 and i + len(o.c) <= len(self.c) and ENG.branch(self._match_at(i, o)):
                out.extend(n.c)
                i += len(o.c)
                count -= 1
            else:
                out.append(self.c[i])
                i += 1
        return self._mk(out)

    def _split_at(self, sep, maxsplit):
        n = self.lift(sep)
        if not n.c:
            raise ValueError("empty separator")
        out = []
        i = last = 0
        while i + len(n.c) <= len(self.c):
            if maxsplit != 0 and ENG.branch(self._match_at(i, n)):
                out.append(self._mk(self.c[last:i]))
                i += len(n.c)
                last = i
                maxsplit -= 1
            else:
                i += 1
        out.append(self._mk(self.c[last:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        n = self.lift(sep)
        if i < 0:
            return self, self._mk(()), self._mk(())
        return self._mk(self.c[:i]), n, self._mk(self.c[i + len(n.c):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        n = self.lift(sep)
        if i < 0:
            return self._mk(()), self._mk(()), self
        return self._mk(self.c[:i]), n, self._mk(self.c[i + len(n.c):])

    def join(self, items):
        out = []
        first = True
        for it in items:
            l = self.lift(it)
            if l is None:
                raise TypeError("sequence item: expected str instance")
            if not first:
                out.extend(self.c)
            first = False
            out.extend(l.c)
        return self._mk(out)

    def __repr__(self):
        return "<sym%d>" % len(self.c)


def _idx(k):
    if k is None or isinstance(k, int):
        return k
    return k.__index__()


class SymStr(SymSeq):
    __slots__ = ()

    @classmethod
    def lift(cls, o):
        if isinstance(o, SymStr):
            return o
        if isinstance(o, str):
            return SymStr([ord(ch) for ch in o])
        return None

    @staticmethod
    def _plain(cps):
        return "".join(map(chr, cps))

    def simp(self):
        if all(isinstance(x, int) for x in self.c):
            return self._plain(self.c)
        return self

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymStr(self.c[self._slice(k)])
        return SymStr((self.c[_idx(k)],))

    def __iter__(self):
        for x in self.c:
            yield SymStr((x,)) if not isinstance(x, int) else chr(x)

    def _all(self, pred):
        r = ranges_of(pred)
        if not self.c:
            return False
        return mkbool(zand(*[in_ranges(x, r) for x in self.c]))

    def isspace(self):
        return self._all("isspace")

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isprintable(self):
        if not self.c:
            return True
        return self._all("isprintable")

    def isascii(self):
        return mkbool(zand(*[in_ranges(x, [(0, 127)]) for x in self.c]))

    def isidentifier(self):
        return self.concrete().isidentifier()

    def _ws(self, chars):
        if chars is None:
            return ranges_of("isspace")
        l = self.lift(chars)
        if any(not isinstance(x, int) for x in l.c):
            raise Unsupported("strip of symbolic chars")
        return ranges_of_set(l.c)

    def lstrip(self, chars=None):
        r = self._ws(chars)
        i = 0
        while i < len(self.c) and ENG.branch(in_ranges(self.c[i], r)):
            i += 1
        return SymStr(self.c[i:])

    def rstrip(self, chars=None):
        r = self._ws(chars)
        i = len(self.c)
        while i > 0 and ENG.branch(in_ranges(self.c[i - 1], r)):
            i -= 1
        return SymStr(self.c[:i])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        if sep is not None:
            return self._split_at(sep, maxsplit)
        r = ranges_of("isspace")
        out = []
        cur = None
        i = 0
        while i < len(self.c):
            sp = ENG.branch(in_ranges(self.c[i], r))
            if sp:
                if cur is not None:
                    out.append(SymStr(self.c[cur:i]))
                    cur = None
            elif cur is None:
                if maxsplit == len(out) and maxsplit >= 0:
                    out.append(SymStr(self.c[i:]).rstrip())
                    return out
                cur = i
            i += 1
        if cur is not None:
            out.append(SymStr(self.c[cur:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported("rsplit")
        out = []
        rest = self
        while maxsplit > 0:
            a, m, b = rest.rpartition(sep)
            if len(m) == 0:
                break
            out.append(b)
            rest = a
            maxsplit -= 1
        out.append(rest)
        out.reverse()
        return out

    def splitlines(self, keepends=False):
        lb = ranges_of_set([10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x85, 0x2028, 0x2029])
        out = []
        i = last = 0
        while i < len(self.c):
            if ENG.branch(in_ranges(self.c[i], lb)):
                j = i + 1
                if j < len(self.c) and ENG.branch(zand(ceq(self.c[i], 13), ceq(self.c[j], 10))):
                    j += 1
                out.append(SymStr(self.c[last:j if keepends else i]))
                last = i = j
            else:
                i += 1
        if last < len(self.c):
            out.append(SymStr(self.c[last:]))
        return out

    def _case(self, meth):
        out = []
        for x in self.c:
            if isinstance(x, int):
                out.extend(map(ord, getattr(chr(x), meth)()))
                continue
            if ENG.branch(in_ranges(x, [(65, 90)])):
                out.append(x + 32 if meth in ("lower", "casefold", "swapcase") else x)
            elif ENG.branch(in_ranges(x, [(97, 122)])):
                out.append(x - 32 if meth in ("upper", "swapcase") else x)
            elif ENG.branch(in_ranges(x, [(0, 127)])):
                out.append(x)
            else:
                r = _changed_by(meth)
                if ENG.branch(in_ranges(x, r)):
                    out.extend(map(ord, getattr(chr(ENG.concretize(x).as_long()), meth)()))
                else:
                    out.append(x)
        return SymStr(out)

    def lower(self):
        return self._case("lower")

    def upper(self):
        return self._case("upper")

    def casefold(self):
        return self._case("casefold")

    def swapcase(self):
        return self._case("swapcase")

    def capitalize(self):
        return SymStr(self[:1].upper().c + self[1:].lower().c)

    def encode(self, encoding="utf-8", errors="strict"):
        name = encoding.lower().replace("_", "-")
        if name not in ("utf-8", "utf8"):
            raise Unsupported("encode " + encoding)
        out = []
        for x in self.c:
            if isinstance(x, int):
                out.extend(chr(x).encode("utf-8", errors))
            elif ENG.branch(x < 0x80):
                out.append(x)
            elif ENG.branch(x < 0x800):
                out.extend((0xC0 + x / 64, 0x80 + x % 64))
            elif ENG.branch(x < 0x10000):
                if ENG.branch(z3.And(x >= 0xD800, x <= 0xDFFF)):
                    if errors == "strict":
                        raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
                    raise Unsupported("encode errors")
                out.extend((0xE0 + x / 4096, 0x80 + (x / 64) % 64, 0x80 + x % 64))
            else:
                out.extend((0xF0 + x / 262144, 0x80 + (x / 4096) % 64, 0x80 + (x / 64) % 64, 0x80 + x % 64))
        return SymBytes(out)

    def translate(self, table):
        out = []
        for x in self.c:
            if isinstance(x, int):
                out.extend(map(ord, chr(x).translate(table)))
                continue
            for k in sorted(table):
                if ENG.branch(x == k):
                    v = table[k]
                    if v is not None:
                        out.extend([v] if isinstance(v, int) else self.lift(v).c)
                    break
            else:
                out.append(x)
        return SymStr(out)

    def ljust(self, w, fill=" "):
        return SymStr(self.c + tuple([ord(fill)] * max(0, w - len(self.c))))

    def rjust(self, w, fill=" "):
        return SymStr(tuple([ord(fill)] * max(0, w - len(self.c))) + self.c)

    def zfill(self, w):
        return self.rjust(w, "0")

    def format(self, *a, **k):
        return SymStr.lift(self.concrete().format(*a, **k))

    def __format__(self, spec):
        raise Unsupported("format() of symbolic str in C")

    def __str__(self):
        # reached only from C code
        return self.concrete()


_CHANGED = {}


def _changed_by(meth):
    r = _CHANGED.get(meth)
    if r is None:
        r = ranges_of_set(c for c in range(128, MAXCP + 1) if getattr(chr(c), meth)() != chr(c))
        _CHANGED[meth] = r
    return r


class SymBytes(SymSeq):
    __slots__ = ()

    @classmethod
    def lift(cls, o):
        if isinstance(o, SymBytes):
            return o
        if isinstance(o, (bytes, bytearray, memoryview)):
            return SymBytes(bytes(o))
        return None

    @staticmethod
    def _plain(v):
        return bytes(v)

    def simp(self):
        if all(isinstance(x, int) for x in self.c):
            return bytes(self.c)
        return self

    def __getitem__(self, k):
        if isinstance(k, slice):
            return SymBytes(self.c[self._slice(k)])
        return mkint(self.c[_idx(k)])

    def __iter__(self):
        for x in self.c:
            yield mkint(x)

    def contains(self, o):
        if isinstance(o, (int, SymInt)):
            v = o if isinstance(o, int) else o.e
            return mkbool(zor(*[ceq(x, v) for x in self.c]))
        return SymSeq.contains(self, o)

    def split(self, sep, maxsplit=-1):
        return self._split_at(sep, maxsplit)

    def hex(self):
        return self.concrete().hex()

    def decode(self, encoding="utf-8", errors="strict"):
        return SymStr.lift(self.concrete().decode(encoding, errors))

    def __buffer__(self, flags):
        raise Unsupported("buffer of symbolic bytes in C")


# --------------------------------------------------------------------------
# hash tables that may hold symbolic keys
class SxDict(_cabc.MutableMapping):
    """Insertion-ordered mapping compared by ==, not by hash."""

    def __init__(self, *a, **k):
        self._e = []
        self.update(*a, **k)

    def _find(self, key):
        if not is_sym(key) and not isinstance(key, tuple):
            # quick path: concrete key among concrete keys
            for ent in self._e:
                k = ent[0]
                if k is key:
                    return ent
        for ent in self._e:
            k = ent[0]
            if (isinstance(k, (str, SymStr)) != isinstance(key, (str, SymStr))):
                continue
            if k == key:
                return ent
        return None

    def __getitem__(self, key):
        if isinstance(key, (list, dict, set)):
            raise TypeError("unhashable type")
        e = self._find(key)
        if e is None:
            raise KeyError(key)
        return e[1]

    def __setitem__(self, key, v):
        if isinstance(key, (list, dict, set)):
            raise TypeError("unhashable type")
        e = self._find(key)
        if e is None:
            self._e.append([key, v])
        else:
            e[1] = v

    def __delitem__(self, key):
        e = self._find(key)
        if e is None:
            raise KeyError(key)
        self._e = [x for x in self._e if x is not e]

    def __contains__(self, key):
        return self._find(key) is not None

    def __iter__(self):
        return iter([e[0] for e in self._e])

    def __len__(self):
        return len(self._e)

    def copy(self):
        d = SxDict()
        d._e = [list(e) for e in self._e]
        return d

    def keys(self):
        return _SxKeys(self)

    def values(self):
        return [e[1] for e in self._e]

    def items(self):
        return [(e[0], e[1]) for e in self._e]

    @classmethod
    def fromkeys(cls, it, v=None):
        d = cls()
        for k in it:
            d[k] = v
        return d

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __eq__(self, o):
        if not isinstance(o, (dict, SxDict)) or len(o) != len(self):
            return False
        for k, v in self._e:
            if k not in o or not o[k] == v:
                return False
        return True

    def __hash__(self):
        raise TypeError("unhashable type: 'dict'")

    def __repr__(self):
        return "{" + ", ".join("{!r}: {!r}".format(k, v) for k, v in self._e) + "}"


class _SxKeys(_cabc.KeysView):

    def __contains__(self, k):
        return k in self._mapping


class SxSet(_cabc.MutableSet):

    def __init__(self, it=()):
        self._i = []
        for x in it:
            self.add(x)

    @classmethod
    def _from_iterable(cls, it):
        return cls(it)

    def __contains__(self, x):
        for y in self._i:
            if isinstance(y, (str, SymStr)) != isinstance(x, (str, SymStr)):
                continue
            if y is x or y == x:
                return True
        return False

    def __iter__(self):
        return iter(list(self._i))

    def __len__(self):
        return len(self._i)

    def add(self, x):
        if x not in self:
            self._i.append(x)

    def discard(self, x):
        self._i = [y for y in self._i if not (y is x or y == x)]

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        s = SxSet(self._i)
        s.update(*its)
        return s

    def copy(self):
        return SxSet(self._i)

    def difference(self, *its):
        s = SxSet()
        for x in self._i:
            if not any(x in SxSet(it) for it in its):
                s._i.append(x)
        return s

    def intersection(self, *its):
        s = SxSet()
        for x in self._i:
            if all(x in SxSet(it) for it in its):
                s._i.append(x)
        return s

    def issubset(self, o):
        return all(x in o for x in self._i)

    def issuperset(self, o):
        return all(x in self for x in o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, SxSet)) or len(o) != len(self):
            return False
        return all(x in self for x in o)

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")


# --------------------------------------------------------------------------
# run-time support called by rewritten code
_STRLIKE = (str, bytes, bytearray)


def _has_sym(args, kw):
    for a in args:
        if is_sym(a):
            return True
        if isinstance(a, (list, tuple)) and any(is_sym(x) for x in a):
            return True
    for a in kw.values():
        if is_sym(a):
            return True
    return False


def rt_contains(container, item):
    if isinstance(container, (SymStr, SymBytes)):
        return container.contains(item)
    if isinstance(container, str) and is_sym(item):
        if isinstance(item, SymStr):
            if len(item.c) == 1:
                return mkbool(in_ranges(item.c[0], ranges_of_set(map(ord, container))))
            return SymStr.lift(container).contains(item)
        raise TypeError("'in <string>' requires string as left operand")
    if isinstance(container, (bytes, bytearray)) and is_sym(item):
        return SymBytes.lift(container).contains(item)
    if is_sym(item) and isinstance(container, (dict, set, frozenset, _cabc.KeysView)):
        for k in container:
            if isinstance(k, (str, SymStr)) == isinstance(item, SymStr) and bool(item == k):
                return True
        return False
    if is_sym(item) and isinstance(container, range):
        if isinstance(item, SymInt) and container.step == 1:
            return mkbool(z3.And(item.e >= container.start, item.e < container.stop))
    return item in container


def rt_getitem(obj, key):
    if isinstance(obj, dict) and is_sym(key):
        for k, v in obj.items():
            if isinstance(k, str) == isinstance(key, SymStr) and bool(key == k):
                return v
        return obj[key.concrete() if isinstance(key, SymSeq) else key]
    return obj[key]


_fmt = _string.Formatter()


def sx_format_value(v, spec="", conv=None):
    if conv == "r":
        if isinstance(v, SymSeq):
            return sx_repr(v)
        return _bi.repr(v)
    if conv == "s":
        v = sx_str(v)
    if isinstance(v, SymStr):
        if spec in ("", "s"):
            return v
        raise Unsupported("format spec on symbolic str")
    if isinstance(v, SymNum):
        return sx_str(v) if isinstance(v, SymInt) and spec in ("", "d") else "<sym>"
    if isinstance(v, SymBool):
        return str(bool(v))
    return _bi.format(v, spec)


def sx_str_format(fmt, args, kw):
    if isinstance(fmt, SymStr):
        raise Unsupported("symbolic format string")
    out = []
    auto = 0
    for lit, field, spec, conv in _fmt.parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            field = str(auto)
            auto += 1
        first, rest = _string._string.formatter_field_name_split(field)
        obj = args[first] if isinstance(first, int) else kw[first]
        for is_attr, nm in rest:
            obj = getattr(obj, nm) if is_attr else obj[nm]
        if spec and "{" in spec:
            spec = sx_str_format(spec, args, kw)
        out.append(sx_format_value(obj, spec, conv))
    return sx_concat(out)


def sx_concat(parts):
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    c = []
    for p in parts:
        c.extend(SymStr.lift(p).c)
    return SymStr(c)


def rt_fstring(*parts):
    return sx_concat([p if isinstance(p, (str, SymStr)) else p for p in parts])


def rt_callm(obj, name, args, kw):
    if isinstance(obj, _STRLIKE) and _has_sym(args, kw) or (isinstance(obj, _STRLIKE) and name == "join"):
        if name == "format":
            return sx_str_format(obj, args, kw)
        if name == "join":
            items = list(args[0])
            if not any(is_sym(x) for x in items):
                return obj.join(items)
            return (SymStr if isinstance(obj, str) else SymBytes).lift(obj).join(items)
        lifted = (SymStr if isinstance(obj, str) else SymBytes).lift(obj)
        return getattr(lifted, name)(*args, **kw)
    if isinstance(obj, _re.Pattern) and _has_sym(args, kw):
        from . import sxre
        return sxre.call(obj, name, args, kw)
    if obj is _re and _has_sym(args[1:], kw) and name in ("match", "fullmatch", "search", "sub", "subn", "split", "findall", "finditer"):
        from . import sxre
        return sxre.call(_re.compile(args[0], kw.pop("flags", 0)), name, args[1:], kw)
    if name == "maketrans" and args and isinstance(args[0], SxDict):
        args = (dict(args[0].items()), ) + tuple(args[1:])
    if obj is _TYPE_SHIMS.get("str") and args and isinstance(args[0], (str, SymStr)) and name not in ("maketrans",):
        return rt_callm(args[0], name, args[1:], kw)
    if isinstance(obj, (dict, )) and _has_sym(args[:1], {}):
        if name == "get":
            return rt_getitem(obj, args[0]) if rt_contains(obj, args[0]) else (args[1] if len(args) > 1 else kw.get("default"))
    if isinstance(obj, list) and name in ("index", "count", "remove") and _has_sym(args, kw):
        return getattr(obj, name)(*args, **kw)
    return getattr(obj, name)(*args, **kw)


def rt_mod(a, b):
    if isinstance(a, (str, SymStr)) and not isinstance(a, SymStr):
        args = b if isinstance(b, tuple) else (b, )
        if any(is_sym(x) for x in args):
            import re as _re
            parts = _re.split(r"(%[sdr%])", a)
            out = []
            it = iter(args)
            for p in parts:
                if p == "%%":
                    out.append("%")
                elif p in ("%s", "%d"):
                    out.append(sx_str(next(it)))
                elif p == "%r":
                    out.append(sx_format_value(next(it), "", "r"))
                elif "%" in p:
                    raise Unsupported("%-format")
                else:
                    out.append(p)
            return sx_concat(out)
    return a % b


def rt_dict(pairs):
    d = SxDict()
    for k, v in pairs:
        if k is _STAR:
            d.update(v)
        else:
            d[k] = v
    return d


_STAR = object()


def rt_set(items):
    return SxSet(items)


# -- builtins
def sx_str(x="", *a):
    if a:
        if isinstance(x, SymBytes):
            return x.decode(*a)
        return str(x, *a)
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return str(x._concrete())
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, SymReal):
        return "<sym>"
    f = getattr(type(x), "__str__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return str(x)


def sx_int(x=0, *a):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return mkint(z3.If(x.e, 1, 0))
    if isinstance(x, SymReal):
        return mkint(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    if isinstance(x, SymStr):
        if not a and x.c and len(x.c) <= 18:
            digits = zand(*[in_ranges(y, [(48, 57)]) for y in x.c])
            if ENG.branch(digits):
                v = 0
                for y in x.c:
                    v = v * 10 + (y - 48)
                return mkint(v)
        return int(x.concrete(), *a)
    return int(x, *a)


def sx_float(x=0.0):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.e))
    if isinstance(x, SymBool):
        return SymReal(z3.ToReal(z3.If(x.e, 1, 0)))
    if isinstance(x, SymStr):
        return float(x.concrete())
    return float(x)


def sx_bytes(x=b"", *a):
    if isinstance(x, SymStr):
        return x.encode(*a)
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, list) and any(is_sym(v) for v in x):
        return SymBytes([v.e if isinstance(v, SymInt) else v for v in x])
    return bytes(x, *a)


def sx_list(x=()):
    return list(x)


def sx_repr(x):
    if isinstance(x, SymSeq):
        return "<sym-repr>"
    return repr(x)


def sx_ord(x):
    if isinstance(x, (SymStr, SymBytes)):
        if len(x.c) != 1:
            raise TypeError("ord() expected a character")
        return mkint(x.c[0])
    return ord(x)


def sx_chr(x):
    if isinstance(x, SymInt):
        return SymStr((x.e, ))
    return chr(x)


def sx_len(x):
    return len(x)


def sx_hash(x):
    return hash(x)


def sx_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


def sx_any(it):
    for x in it:
        if x:
            return True
    return False


def sx_all(it):
    for x in it:
        if not x:
            return False
    return True


def sx_round(x, n=None):
    if is_sym(x):
        raise Unsupported("round")
    return round(x) if n is None else round(x, n)


_SYM_AS = {}


def real_types(cls):
    """The proxy classes accepted where the real class is expected."""
    if isinstance(cls, tuple):
        out = ()
        for c in cls:
            out += real_types(c)
        return out
    cls = _UNSHIM.get(id(cls), cls)
    extra = ()
    if cls is str:
        extra = (SymStr, )
    elif cls is bytes:
        extra = (SymBytes, )
    elif cls is int:
        extra = (SymInt, SymBool)
    elif cls is bool:
        extra = (SymBool, )
    elif cls is float:
        extra = (SymReal, )
    elif cls is dict:
        extra = (SxDict, )
    elif cls is set:
        extra = (SxSet, )
    elif cls in (_cabc.Sequence, _cabc.Collection):
        extra = (SymStr, SymBytes)
    elif cls is _cabc.Hashable or cls is _cabc.Iterable:
        extra = ()
    else:
        import numbers
        if cls is numbers.Number or cls is numbers.Real:
            extra = (SymInt, SymReal)
        elif cls is numbers.Integral:
            extra = (SymInt, )
    if isinstance(cls, types.UnionType):
        out = ()
        for c in cls.__args__:
            out += real_types(c)
        return out
    return (cls, ) + extra


def sx_isinstance(x, cls):
    return isinstance(x, real_types(cls))


def sx_issubclass(x, cls):
    x = _UNSHIM.get(id(x), x)
    x = {SymStr: str, SymBytes: bytes, SymInt: int, SymBool: bool, SymReal: float, SxDict: dict, SxSet: set}.get(x, x)
    if isinstance(cls, tuple):
        cls = tuple(_UNSHIM.get(id(c), c) for c in cls)
    else:
        cls = _UNSHIM.get(id(cls), cls)
    return issubclass(x, cls)


def sx_type(x, *a):
    if a:
        return type(x, *a)
    t = type(x)
    t = {SymStr: str, SymBytes: bytes, SymInt: int, SymBool: bool, SymReal: float, SxDict: dict, SxSet: set}.get(t, t)
    return _TYPE_SHIMS.get(t.__name__, t) if t in _SHIMMED else t


class _ShimMeta(type):

    def __call__(cls, *a, **k):
        return cls._sx_call(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, real_types(cls._sx_real))

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._sx_real)

    def __getattr__(cls, name):
        real = getattr(cls._sx_real, name)
        if cls._sx_real is str and callable(real) and name not in ("maketrans", "__name__"):

            def method(obj, *a, **k):
                return rt_callm(obj, name, a, k)

            return method
        return real

    def __eq__(cls, o):
        return o is cls or o is cls._sx_real

    def __hash__(cls):
        return hash(cls._sx_real)

    def __repr__(cls):
        return repr(cls._sx_real)

    def __or__(cls, o):
        return cls._sx_real | _UNSHIM.get(id(o), o)

    def __getitem__(cls, k):
        return cls._sx_real[k]


_UNSHIM = {}
_TYPE_SHIMS = {}
_SHIMMED = set()


def _shim(real, call):
    cls = _ShimMeta("Sx_" + real.__name__, (), {"_sx_real": real, "_sx_call": staticmethod(call)})
    _UNSHIM[id(cls)] = real
    _TYPE_SHIMS[real.__name__] = cls
    _SHIMMED.add(real)
    return cls


class _BoolShimHelper:
    pass


def sx_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymNum):
        return mkbool(x.e != 0)
    return bool(x)


def sx_min(*a, **k):
    return min(*a, **k)


def sx_set(it=()):
    return SxSet(it)


def sx_dict(*a, **k):
    return SxDict(*a, **k)


BUILTINS = dict(vars(_bi))
BUILTINS.update(
    str=_shim(str, sx_str),
    int=_shim(int, sx_int),
    float=_shim(float, sx_float),
    bytes=_shim(bytes, sx_bytes),
    bool=_shim(bool, sx_bool),
    dict=_shim(dict, sx_dict),
    set=_shim(set, sx_set),
    isinstance=sx_isinstance,
    issubclass=sx_issubclass,
    type=sx_type,
    repr=sx_repr,
    ord=sx_ord,
    chr=sx_chr,
    len=sx_len,
    format=sx_format_value,
    any=sx_any,
    all=sx_all,
    round=sx_round,
)
_UNSHIM[id(sx_type)] = type
