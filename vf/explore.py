"""Exhaustive exploration of a harness, and its concrete replay."""
import json
import multiprocessing as mp
import os
import signal
import time
import traceback

from . import sx
from .loader import World

z3 = sx.z3
ALLCP = [(0, 0xD7FF), (0xE000, 0x10FFFF)]


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


class ReplayTimeout(BaseException):
    pass


class SymCtx:
    symbolic = True

    def __init__(self, engine, world, params):
        self.e = engine
        self.world = world
        self.params = params
        self.viol = []
        self.obs = []
        self.covered = set()

    # -- inputs
    def _reg(self, name, kind, val):
        assert name not in self.e.inputs, name
        self.e.inputs[name] = (kind, val)
        return val

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return self._reg(name, "int", lo)
        v = z3.Int(name)
        c = []
        if lo is not None:
            c.append(v >= lo)
        if hi is not None:
            c.append(v <= hi)
        self._reg(name, "int", v)
        if c:
            self.e.assume(z3.And(*c))
        return sx.SymInt(v)

    def bool(self, name):
        v = z3.Bool(name)
        self._reg(name, "bool", v)
        return sx.SymBool(v)

    def real(self, name, lo=None, hi=None):
        v = z3.Real(name)
        self._reg(name, "real", v)
        c = []
        if lo is not None:
            c.append(v >= lo)
        if hi is not None:
            c.append(v <= hi)
        if c:
            self.e.assume(z3.And(*c))
        return sx.SymReal(v)

    def choice(self, name, options):
        """A concrete element of options, every one explored."""
        options = list(options)
        if len(options) == 1:
            self._reg(name, "int", 0)
            return options[0]
        v = z3.Int(name)
        self._reg(name, "int", v)
        self.e.assume(z3.And(v >= 0, v < len(options)))
        for i in range(len(options) - 1):
            if self.e.branch(v == i):
                return options[i]
        return options[-1]

    def str(self, name, n, ranges=None):
        vs = [z3.Int("{}[{}]".format(name, i)) for i in range(n)]
        self._reg(name, "str", vs)
        if n:
            self.e.assume(z3.And(*[sx.in_ranges(v, ranges or ALLCP) for v in vs]))
        return sx.SymStr(vs) if n else ""

    def bytes(self, name, n):
        vs = [z3.Int("{}[{}]".format(name, i)) for i in range(n)]
        self._reg(name, "bytes", vs)
        if n:
            self.e.assume(z3.And(*[z3.And(v >= 0, v <= 255) for v in vs]))
        return sx.SymBytes(vs) if n else b""

    # -- property
    def assume(self, cond):
        self.e.assume(cond)

    def check(self, cond, msg):
        if isinstance(cond, sx.SymBool):
            c = cond.e
        else:
            c = bool(cond)
        self.covered.add(msg)
        if c is True:
            return
        if c is False:
            self.viol.append((msg, self.model_inputs(self.e.get_model())))
            raise sx.Infeasible()
        r = self.e._check(z3.Not(c))
        if r == z3.sat:
            self.viol.append((msg, self.model_inputs(self.e.solver.model())))
        elif r == z3.unknown:
            self.viol.append((msg, None))
        if r != z3.unsat:
            self.e.assume(c)

    def fail(self, msg):
        self.check(False, msg)

    def observe(self, label, val):
        self.obs.append((label, val))

    def implies(self, a, b):
        return sx.mkbool(sx.zor(sx.znot(sx._b(a)), sx._b(b)))

    def eq(self, a, b):
        """Deep equality as one condition, without forking."""
        return sx.mkbool(_deep_eq(a, b))

    def all(self, conds):
        return sx.mkbool(sx.zand(*[sx._b(c) for c in conds]))

    def any(self, conds):
        return sx.mkbool(sx.zor(*[sx._b(c) for c in conds]))

    def load(self, name):
        return self.world.load(name)

    # -- models
    def model_inputs(self, m):
        out = {}
        for name, (kind, v) in self.e.inputs.items():
            out[name] = [kind, _model_val(m, kind, v)]
        return out


def _deep_eq(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return sx.zand(*[_deep_eq(x, y) for x, y in zip(a, b)])
    if isinstance(b, sx.SymSeq) and not isinstance(a, sx.SymSeq):
        a, b = b, a
    if isinstance(a, sx.SymSeq):
        return a.eqexpr(b)
    r = a == b
    return r.e if isinstance(r, sx.SymBool) else bool(r)


def _model_val(m, kind, v):
    if kind == "int":
        return v if isinstance(v, int) else m.eval(v, model_completion=True).as_long()
    if kind == "bool":
        return z3.is_true(m.eval(v, model_completion=True))
    if kind == "real":
        r = m.eval(v, model_completion=True)
        if z3.is_algebraic_value(r):
            r = r.approx(20)
        return [r.numerator_as_long(), r.denominator_as_long()]
    return [m.eval(x, model_completion=True).as_long() for x in v]


def concretize_value(m, v):
    """Value of an observed structure under a model."""
    if isinstance(v, sx.SymBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, sx.SymInt):
        return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, sx.SymReal):
        r = m.eval(v.e, model_completion=True)
        return r.numerator_as_long() / r.denominator_as_long()
    if isinstance(v, sx.SymSeq):
        return v._plain([x if isinstance(x, int) else m.eval(x, model_completion=True).as_long() for x in v.c])
    if isinstance(v, sx.SxDict):
        return {concretize_value(m, k): concretize_value(m, x) for k, x in v.items()}
    if isinstance(v, sx.SxSet):
        return {concretize_value(m, k) for k in v}
    if isinstance(v, tuple):
        return tuple(concretize_value(m, x) for x in v)
    if isinstance(v, list):
        return [concretize_value(m, x) for x in v]
    if isinstance(v, dict):
        return {concretize_value(m, k): concretize_value(m, x) for k, x in v.items()}
    return v


class ConcCtx:
    """The same harness interface over concrete values."""
    symbolic = False

    def __init__(self, world, params, inputs):
        self.world = world
        self.params = params
        self.inputs = inputs
        self.failures = []
        self.obs = []

    def _get(self, name):
        if name not in self.inputs:
            raise AssumeFailed("no value for input " + name)
        return self.inputs[name][1]

    def int(self, name, lo=None, hi=None):
        return self._get(name)

    def bool(self, name):
        return bool(self._get(name))

    def real(self, name, lo=None, hi=None):
        n, d = self._get(name)
        return n / d

    def choice(self, name, options):
        return list(options)[self._get(name)]

    def str(self, name, n, ranges=None):
        return "".join(map(chr, self._get(name)))

    def bytes(self, name, n):
        return bytes(self._get(name))

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def check(self, cond, msg):
        if not cond:
            self.failures.append(msg)
            raise CheckFailed(msg)

    def fail(self, msg):
        self.check(False, msg)

    def observe(self, label, val):
        self.obs.append((label, val))

    def implies(self, a, b):
        return (not a) or bool(b)

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        return a == b

    def all(self, conds):
        return all(bool(c) for c in conds)

    def any(self, conds):
        return any(bool(c) for c in conds)

    def load(self, name):
        return self.world.load(name)


def _alarm(signum, frame):
    raise ReplayTimeout()


def run_concrete(harness, world, params, inputs, timeout=20):
    """(failure message or None, observations, error) on un-instrumented code."""
    ctx = ConcCtx(world, params, inputs)
    saved = sx.ENG
    sx.ENG = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        harness(ctx, **params)
        return None, ctx.obs
    except CheckFailed as e:
        return str(e), ctx.obs
    except AssumeFailed:
        return None, None
    except ReplayTimeout:
        return "does not terminate (more than {} s)".format(timeout), ctx.obs
    except RecursionError:
        return "recursion without end", ctx.obs
    except sx.SxControl:
        return None, None
    except Exception as e:
        if isinstance(e, (TypeError, AttributeError, NotImplementedError)) and _in_stub(e):
            return None, None  # a stand-in is too small for this code: no verdict
        return "unexpected {}: {}".format(type(e).__name__, e), ctx.obs
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        sx.ENG = saved


def _in_stub(e):
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame.f_code.co_filename
    here = os.path.dirname(os.path.abspath(__file__))
    if f.startswith(here + os.sep) or f.endswith("world.py") or "_pynini" in f or "_pywrapfst" in f:
        return True
    return any(n in str(e) for n in ("vf.", "cacheworld", "cliworld", "Sym", "Sx"))


class Result:

    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.branches = 0
        self.queries = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.replayed = 0
        self.mismatch = []
        self.viol = {}  # msg -> (harness, params, inputs)
        self.unsupported = {}
        self.incomplete = 0
        self.unreproduced = {}
        self.covered = {}
        self.samples = []
        self.prefixes = []
        self.functions = set()

    def merge(self, o):
        for k in ("paths", "infeasible", "branches", "queries", "unknown", "solver_s", "replayed", "incomplete"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.mismatch += o.mismatch[:5]
        for k, v in o.viol.items():
            self.viol.setdefault(k, v)
        for d in ("unsupported", "unreproduced", "covered"):
            mine = getattr(self, d)
            for k, v in getattr(o, d).items():
                mine[k] = mine.get(k, 0) + v
        self.samples += o.samples[:2]
        self.functions |= o.functions
        return self


def harness_of(world, hfile, hname):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    m = world.load_file(hfile, os.path.join(here, *hfile.split(".")) + ".py")
    return getattr(m, hname)


def explore(hfile, hname, params, world_factory, prefix=None, split=None, deadline=None, max_steps=20000, name="",
            replay_every=1, max_viol=3):
    """Explores harness(ctx, **params) below an optional decision prefix."""
    res = Result()
    world = world_factory(True)
    real = world_factory(False)
    e = sx.Engine(max_steps=max_steps)
    harness = harness_of(world, hfile, hname)
    rharness = harness_of(real, hfile, hname)
    sx.ENG = e
    if prefix:
        e.decisions = [[None, v, False] for v in prefix]
    floor = len(e.decisions)
    e.split_depth = split
    npaths = 0
    try:
        while True:
            if deadline is not None and time.time() > deadline:
                res.incomplete += 1
                res.unsupported["time budget"] = res.unsupported.get("time budget", 0) + 1
                break
            e.start()
            ctx = SymCtx(e, world, params)
            ok = False
            candidate = None
            try:
                harness(ctx, **params)
                ok = True
            except sx.Infeasible:
                res.infeasible += 1
            except sx.SplitPoint:
                res.prefixes.append([d[1] for d in e.decisions[:split]])
            except sx.PathAbort if e.dead in ("split", "infeasible") else ():
                # a handler of the code under test ran on after the path had ended
                if e.dead == "split":
                    res.prefixes.append([d[1] for d in e.decisions[:split]])
                else:
                    res.infeasible += 1
            except (sx.StepLimit, sx.PathAbort):
                candidate = "does not terminate within the step bound"
            except RecursionError:
                candidate = "recursion without end"
            except sx.Unsupported as ex:
                candidate = "unsupported: " + str(ex)
            except Exception as ex:
                candidate = "unexpected {}: {}".format(type(ex).__name__, str(ex)[:200])
                if os.environ.get("VF_DEBUG"):
                    traceback.print_exc()
            if e.dead in ("split", "infeasible") and (ok or candidate is not None and "step bound" not in candidate):
                ok, candidate = False, None
                if e.dead == "split":
                    res.prefixes.append([d[1] for d in e.decisions[:split]])
            for k in ctx.covered:
                res.covered[k] = res.covered.get(k, 0) + 1
            for msg, inputs in ctx.viol:
                if inputs is None:
                    res.incomplete += 1
                    res.unsupported["solver unknown"] = res.unsupported.get("solver unknown", 0) + 1
                    continue
                if len(res.viol) >= max_viol:
                    continue
                got, _ = run_concrete(rharness, real, params, inputs)
                res.replayed += 1
                if got is not None:
                    res.viol.setdefault(got, (name, params, inputs))
                else:
                    res.incomplete += 1
                    res.unreproduced[msg] = res.unreproduced.get(msg, 0) + 1
            if candidate is not None:
                m = None
                try:
                    dead = e.dead
                    e.dead = False
                    m = e.get_model()
                    e.dead = dead
                except sx.SxControl:
                    pass
                if m is not None:
                    inputs = ctx.model_inputs(m)
                    got, _ = run_concrete(rharness, real, params, inputs)
                    res.replayed += 1
                    if got is not None:
                        res.viol.setdefault(got, (name, params, inputs))
                    else:
                        res.incomplete += 1
                        key = candidate
                        res.unsupported[key] = res.unsupported.get(key, 0) + 1
            if ok:
                res.paths += 1
                npaths += 1
                res.branches += e.depth
                if npaths % replay_every == 0 or npaths < 20:
                    m = e.get_model()
                    inputs = ctx.model_inputs(m)
                    got, obs = run_concrete(rharness, real, params, inputs)
                    res.replayed += 1
                    if got is not None:
                        if len(res.viol) < max_viol:
                            res.viol.setdefault(got, (name, params, inputs))
                    else:
                        want = [(k, concretize_value(m, v)) for k, v in ctx.obs]
                        if obs != want:
                            res.mismatch.append(repr((params, inputs, obs, want))[:1000])
                    if len(res.samples) < 2:
                        res.samples.append({"harness": name, "params": repr(params), "inputs": inputs})
            if len(res.viol) >= max_viol:
                break
            if not e.backtrack(floor):
                break
    finally:
        sx.ENG = None
    res.queries = e.queries
    res.unknown = e.unknown
    res.solver_s = e.sat_time
    res.functions = set(world.functions)
    return res


# --------------------------------------------------------------------------
def _worker(args):
    (modname, hname, params, prefix, split, deadline, max_steps, replay_every) = args
    import importlib
    mod = importlib.import_module(modname)
    factory = getattr(mod, "world", default_world)
    try:
        r = explore(mod.HARNESS, hname, params, factory, prefix=prefix, split=split, deadline=deadline, max_steps=max_steps,
                    name=hname, replay_every=replay_every)
        return (hname, params, r, None)
    except BaseException as e:
        return (hname, params, None, "{}: {}\n{}".format(type(e).__name__, e, traceback.format_exc()))


def default_world(instrument):
    return World(instrument=instrument)


def run_tasks(modname, tasks, budget_s, nproc=None):
    """tasks: dicts with harness, params, and optional split, max_steps, replay_every."""
    nproc = nproc or int(os.environ.get("VF_JOBS", "8"))
    deadline = time.time() + budget_s
    total = Result()
    errors = []
    per = {}
    ctx = mp.get_context("fork")
    with ctx.Pool(nproc, maxtasksperchild=200) as pool:
        pending = []

        def submit(t, prefix=None, split=None):
            a = (modname, t["harness"], t.get("params", {}), prefix, split, deadline, t.get("max_steps", 20000),
                 t.get("replay_every", 1))
            pending.append((t, pool.apply_async(_worker, (a, ))))

        for t in tasks:
            submit(t, None, t.get("split"))
        while pending:
            t, fut = pending.pop(0)
            hname, params, r, err = fut.get()
            if err:
                errors.append(err)
                continue
            total.merge(r)
            k = t["harness"] + (" " + json.dumps(params, sort_keys=True, default=repr) if params else "")
            per.setdefault(k, [0, 0])
            per[k][0] += r.paths
            per[k][1] += r.queries
            for p in r.prefixes:
                submit(t, p, None)
    return total, errors, per
