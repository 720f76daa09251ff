"""Boolean circuits over slot variables, Tseitin CNF, and the SAT solver."""
import os
import shutil
import subprocess
import tempfile
import time

LIMIT = int(os.environ.get("VF_SAT_LIMIT", "300"))
T, F = "T", "F"  # constant guards


def g_and(*xs):
    out = []
    for x in xs:
        if x == F:
            return F
        if x == T:
            continue
        if x[0] == "and":
            out.extend(x[1:])
        else:
            out.append(x)
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    if not seen:
        return T
    if len(seen) == 1:
        return seen[0]
    return ("and", ) + tuple(seen)


def g_or(*xs):
    out = []
    for x in xs:
        if x == T:
            return T
        if x == F:
            continue
        if x[0] == "or":
            out.extend(x[1:])
        else:
            out.append(x)
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    if not seen:
        return F
    if len(seen) == 1:
        return seen[0]
    return ("or", ) + tuple(seen)


def g_not(x):
    if x == T:
        return F
    if x == F:
        return T
    if x[0] == "not":
        return x[1]
    return ("not", x)


def g_in(slot, values):
    values = frozenset(values)
    return ("in", slot, values) if values else F


class Cnf:

    def __init__(self, slots):
        self.slots = slots
        self.n = 0
        self.clauses = []
        self.memo = {}
        self.vars = []
        for s in slots:
            self.vars.append(s.declare(self))

    def new(self):
        self.n += 1
        return self.n

    def add(self, *c):
        self.clauses.append(c)

    def exactly_one(self, lits):
        self.add(*lits)
        self.at_most_one(lits)

    def at_most_one(self, lits):
        if len(lits) <= 6:
            for i, a in enumerate(lits):
                for b in lits[:i]:
                    self.add(-a, -b)
            return
        # sequential counter
        prev = None
        for i, a in enumerate(lits):
            if i == len(lits) - 1:
                self.add(-a, -prev)
                break
            s = self.new()
            self.add(-a, s)
            if prev is not None:
                self.add(-prev, s)
                self.add(-a, -prev)
            prev = s

    # literals: int, or T / F
    def land(self, *ls):
        out = []
        for x in ls:
            if x == F:
                return F
            if x == T or x in out:
                continue
            if -x in out:
                return F
            out.append(x)
        if not out:
            return T
        if len(out) == 1:
            return out[0]
        key = ("&", ) + tuple(sorted(out))
        v = self.memo.get(key)
        if v is None:
            v = self.memo[key] = self.new()
            for x in out:
                self.add(-v, x)
            self.add(v, *[-x for x in out])
        return v

    def neg(self, x):
        return F if x == T else T if x == F else -x

    def lor(self, *ls):
        return self.neg(self.land(*[self.neg(x) for x in ls]))

    def guard(self, g):
        if g == T or g == F:
            return g
        v = self.memo.get(g)
        if v is not None:
            return v
        k = g[0]
        if k == "in":
            v = self.slots[g[1]].member(self, self.vars[g[1]], g[2])
        elif k == "byte":
            v = self.slots[g[1]].byte(self, self.vars[g[1]], g[2], g[3])
        elif k == "and":
            v = self.land(*[self.guard(x) for x in g[1:]])
        elif k == "or":
            v = self.lor(*[self.guard(x) for x in g[1:]])
        else:
            v = self.neg(self.guard(g[1]))
        self.memo[g] = v
        return v

    def solve(self, stats, extra=()):
        """Returns None (unsat), a list of slot values, or 'unknown'."""
        t0 = time.time()
        clauses = self.clauses + list(extra)
        try:
            model = run_sat(self.n, clauses)
        finally:
            stats["solver_s"] = stats.get("solver_s", 0.0) + time.time() - t0
            stats["queries"] = stats.get("queries", 0) + 1
        if model is None or model == "unknown":
            return model
        return [s.decode(v, model) for s, v in zip(self.slots, self.vars)]


def run_sat(n, clauses):
    for c in clauses:
        if not c:
            return None
    d = tempfile.mkdtemp(prefix="vfsat")
    try:
        path = os.path.join(d, "q.cnf")
        with open(path, "w") as f:
            f.write("p cnf %d %d\n" % (n, len(clauses)))
            f.write("\n".join(" ".join(map(str, c)) + " 0" for c in clauses))
            f.write("\n")
        k = shutil.which("kissat")
        if k:
            r = subprocess.run([k, "-q", "--time=%d" % LIMIT, path], capture_output=True, text=True)
            if r.returncode == 20:
                return None
            if r.returncode == 10:
                return {int(x) for line in r.stdout.splitlines() if line.startswith("v") for x in line.split()[1:]}
            return "unknown"
        k = shutil.which("minisat")
        if k:
            out = os.path.join(d, "out")
            r = subprocess.run([k, "-verb=0", "-cpu-lim=%d" % LIMIT, path, out], capture_output=True, text=True)
            if r.returncode == 20:
                return None
            if r.returncode == 10:
                return {int(x) for x in open(out).read().split()[1:]}
            return "unknown"
        from . import sx
        z3 = sx.z3
        s = z3.Solver()
        s.set("timeout", LIMIT * 1000)
        s.from_file(path)
        r = s.check()
        if r == z3.unsat:
            return None
        if r == z3.sat:
            m = s.model()
            return {int(str(v)[2:]) for v in m.decls() if z3.is_true(m[v])}
        return "unknown"
    finally:
        shutil.rmtree(d, ignore_errors=True)
