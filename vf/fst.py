"""Compiled transducers as programs: symbolic execution over slot variables, decided by SAT.

A *family* is an input template (constants and slots, each slot ranging over a finite set of strings or over code points) and
the output template expected for it.  The tagger and the verbalizer, read back arc by arc from the graphs the current
source compiles to, are unrolled over the symbolic input; every (input position, graph state, cost, output position) node is a
Boolean circuit node "some path reaches this for the chosen input", so that cost comparison between all paths is exact.
"""
import heapq
import struct
import sys

from .cnf import Cnf, F, T, g_and, g_in, g_not, g_or

SCALE = 1000000
EPS = 200  # 2e-4: weights are float32 sums


def w2i(w):
    return int(round(w * SCALE))


# ----------------------------------------------------------------- transducers
class Fst:

    def __init__(self, start, finals, states):
        self.start = start
        self.finals = finals  # state -> cost
        self.eps = []  # state -> [(ol, w, ns)]
        self.lab = []  # state -> {il: [(ol, w, ns)]}
        for arcs in states:
            e = []
            d = {}
            for il, ol, w, ns in arcs:
                if il == 0:
                    e.append((ol, w, ns))
                else:
                    d.setdefault(il, []).append((ol, w, ns))
            self.eps.append(e)
            self.lab.append(d)
        self.narcs = sum(len(a) for a in states)


def read_fst(data):
    """Parses OpenFst's binary VectorFst<StdArc>."""
    pos = 0

    def take(fmt):
        nonlocal pos
        v = struct.unpack_from("<" + fmt, data, pos)
        pos += struct.calcsize("<" + fmt)
        return v[0] if len(v) == 1 else v

    def take_str():
        nonlocal pos
        n = take("i")
        s = data[pos:pos + n]
        pos += n
        return s

    magic = take("i")
    assert magic == 2125659606, "not an FST"
    ftype, atype = take_str(), take_str()
    assert ftype == b"vector" and atype == b"standard", (ftype, atype)
    take("i")
    flags = take("i")
    take("q")
    start, nstates, _ = take("qqq")
    assert flags & 3 == 0, "symbol tables are not expected"
    finals = {}
    states = []
    inf = float("inf")
    for q in range(nstates):
        w = take("f")
        if w != inf:
            finals[q] = w2i(w)
        n = take("q")
        arcs = []
        for il, ol, w, ns in struct.iter_unpack("<iifi", data[pos:pos + 16 * n]):
            arcs.append((il, ol, w2i(w), ns))
        pos += 16 * n
        states.append(arcs)
    return Fst(start, finals, states)


# ----------------------------------------------------------------- slots
class Enum:
    """A slot over a finite list of values; named maps give a value's spelling in each place."""

    def __init__(self, values, name="", **maps):
        self.values = list(values)
        self.name = name
        self.maps = {"id": [str(v) for v in self.values]}
        for k, m in maps.items():
            self.maps[k] = list(m) if isinstance(m, (list, tuple, str)) else [m[v] if isinstance(m, dict) else m(v) for v in self.values]

    def map(self, name):
        if name not in self.maps:
            if name == "esc":
                self.maps["esc"] = [v.replace("\\", "\\\\").replace('"', '\\"') for v in self.maps["id"]]
            elif isinstance(name, tuple):
                self.maps[name] = list(name)
        return self.maps[name]

    def __len__(self):
        return len(self.values)

    def count(self):
        return len(self.values)

    def declare(self, cnf):
        vs = [cnf.new() for _ in self.values]
        cnf.exactly_one(vs)
        return vs

    def member(self, cnf, vs, values):
        n = len(vs)
        if len(values) == n:
            return T
        if len(values) * 2 <= n:
            return cnf.lor(*[vs[v] for v in values])
        return cnf.neg(cnf.lor(*[vs[v] for v in range(n) if v not in values]))

    def decode(self, vs, model):
        return next(i for i, v in enumerate(vs) if v in model)

    def string(self, value, m="id"):
        return self.map(m)[value]

    def samples(self):
        n = len(self.values)
        return [0, n - 1, n // 2, n // 3]


class Char:
    """A slot over arbitrary code points of the given ranges, encoded byte by byte."""

    def __init__(self, ranges, name="", picks=()):
        self.ranges = sorted(ranges)
        self.name = name
        self.seqs = []
        for lo, hi in self.ranges:
            self.seqs.extend(utf8_ranges(lo, hi))
        self.feasible = [set(), set(), set(), set()]
        for s in self.seqs:
            for j, (a, b) in enumerate(s):
                self.feasible[j].update(range(a, b + 1))
        self.picks = list(picks)

    def count(self):
        return sum(hi - lo + 1 for lo, hi in self.ranges)

    def declare(self, cnf):
        lens = sorted({len(s) for s in self.seqs})
        vs = []
        for j in range(max(lens)):
            d = {b: cnf.new() for b in sorted(self.feasible[j])}
            vs.append(d)
            if j == 0:
                cnf.exactly_one(list(d.values()))
            else:
                cnf.at_most_one(list(d.values()))
        alts = []
        for s in self.seqs:
            alts.append(cnf.land(*([cnf.lor(*[vs[j][b] for b in range(a, z + 1)]) for j, (a, z) in enumerate(s)]
                                   + [-v for j in range(len(s), len(vs)) for v in vs[j].values()])))
        r = cnf.lor(*alts)
        if r != T:
            cnf.add(*([] if r == F else [r]))
        return vs

    def byte(self, cnf, vs, j, b):
        return vs[j].get(b, F) if j < len(vs) else F

    def decode(self, vs, model):
        out = []
        for d in vs:
            for b, v in d.items():
                if v in model:
                    out.append(b)
        return bytes(out).decode("utf-8")

    def string(self, value, m="id"):
        return value

    def samples(self):
        out = [chr(self.ranges[0][0]), chr(self.ranges[-1][1]), chr((self.ranges[len(self.ranges) // 2][0] + self.ranges[len(self.ranges) // 2][1]) // 2)]
        return self.picks + out


def utf8_ranges(lo, hi):
    """Splits a code point range into sequences of byte ranges."""
    out = []
    for a, b in ((0, 0x7F), (0x80, 0x7FF), (0x800, 0xFFFF), (0x10000, 0x10FFFF)):
        x, y = max(lo, a), min(hi, b)
        if x <= y:
            _split(x, y, out)
    return out


def _split(lo, hi, out):
    n = len(chr(lo).encode("utf-8", "surrogatepass"))
    for i in range(1, n):
        m = (1 << (6 * i)) - 1
        if (lo & ~m) != (hi & ~m):
            if lo & m:
                _split(lo, lo | m, out)
                _split((lo | m) + 1, hi, out)
                return
            if (hi & m) != m:
                _split(lo, (hi & ~m) - 1, out)
                _split(hi & ~m, hi, out)
                return
    a, b = chr(lo).encode("utf-8", "surrogatepass"), chr(hi).encode("utf-8", "surrogatepass")
    out.append([(x, y) for x, y in zip(a, b)])


# ----------------------------------------------------------------- templates
class Ref:

    def __init__(self, slot, m="id"):
        self.slot = slot
        self.m = m

    def __repr__(self):
        return "<%d:%s>" % (self.slot, self.m if isinstance(self.m, str) else "map")


class Alt:
    """Guarded alternatives: exactly one guard holds for each choice of slot values."""

    def __init__(self, *cases):
        self.cases = cases  # (guard, items)


class Group:
    """A part of a template that tags usually copy as a whole."""

    def __init__(self, *items):
        self.items = seq(*items)


def seq(*items):
    out = []
    for i in items:
        if isinstance(i, (list, tuple)):
            out.extend(seq(*i))
        elif i != "":
            out.append(i)
    return out


class Auto:
    """A template as a position automaton with guarded moves."""

    def __init__(self, slots, items):
        self.slots = slots
        self.eps = []
        self.edges = []
        self.end = self._node()
        self.start = self._build(items, self.end)
        self._step = {}
        self._fin = {}

    def _node(self):
        self.eps.append([])
        self.edges.append({})
        return len(self.eps) - 1

    def _build(self, items, end):
        for it in reversed(items):
            end = self._item(it, end)
        return end

    def _item(self, it, end):
        if isinstance(it, str):
            for b in reversed(it.encode("utf-8", "surrogatepass")):
                n = self._node()
                self.edges[n][b] = [(T, end)]
                end = n
            return end
        if isinstance(it, Alt):
            n = self._node()
            for g, sub in it.cases:
                self.eps[n].append((g, self._build(seq(sub), end)))
            return n
        if isinstance(it, (list, tuple)):
            return self._build(it, end)
        if isinstance(it, Group):
            return self._build(it.items, end)
        slot = self.slots[it.slot]
        if isinstance(slot, Char):
            start = self._node()
            memo = {}

            def chain(j, left):
                if left == 0:
                    return end
                if (j, left) not in memo:
                    n = self._node()
                    memo[(j, left)] = n
                    nxt = chain(j + 1, left - 1)
                    for b in slot.feasible[j]:
                        if 0x80 <= b < 0xC0:
                            self.edges[n][b] = [(("byte", it.slot, j, b), nxt)]
                return memo[(j, left)]

            for b in slot.feasible[0]:
                ln = 1 if b < 0x80 else 2 if b < 0xE0 else 3 if b < 0xF0 else 4
                self.edges[start][b] = [(("byte", it.slot, 0, b), chain(1, ln - 1))]
            return start
        root = self._node()
        trie = {}
        for v, s in enumerate(slot.map(it.m)):
            trie.setdefault(s.encode("utf-8"), set()).add(v)
        below = {}
        for s, vs in trie.items():
            for k in range(len(s) + 1):
                below.setdefault(s[:k], set()).update(vs)
        nodes = {p: (root if p == b"" else self._node()) for p in below}
        n = len(slot.values)
        for p, vs in below.items():
            if p != b"":
                self.edges[nodes[p[:-1]]][p[-1]] = [(T if len(vs) == n else g_in(it.slot, vs), nodes[p])]
            if p in trie:
                self.eps[nodes[p]].append((T if len(trie[p]) == n else g_in(it.slot, trie[p]), end))
        return root

    def closure(self, node):
        out = [(T, node)]
        todo = [(T, node)]
        while todo:
            g, n = todo.pop()
            for g2, m in self.eps[n]:
                x = (g_and(g, g2), m)
                if x[0] != F:
                    out.append(x)
                    todo.append(x)
        return out

    def step(self, node):
        """byte -> [(guard, next)]"""
        if node not in self._step:
            d = {}
            for g, n in self.closure(node):
                for b, es in self.edges[n].items():
                    for g2, m in es:
                        x = g_and(g, g2)
                        if x != F:
                            d.setdefault(b, []).append((x, m))
            self._step[node] = d
        return self._step[node]

    def final(self, node):
        if node not in self._fin:
            self._fin[node] = g_or(*[g for g, n in self.closure(node) if n == self.end])
        return self._fin[node]


def render(slots, items, values):
    """The string a template denotes for concrete slot values."""
    out = []
    for it in items:
        if isinstance(it, str):
            out.append(it)
        elif isinstance(it, Alt):
            hit = [sub for g, sub in it.cases if holds(slots, g, values)]
            assert len(hit) == 1, "alternatives are not exclusive: %d hold" % len(hit)
            out.append(render(slots, seq(hit[0]), values))
        elif isinstance(it, (list, tuple)):
            out.append(render(slots, it, values))
        elif isinstance(it, Group):
            out.append(render(slots, it.items, values))
        else:
            out.append(slots[it.slot].string(values[it.slot], it.m))
    return "".join(out)


def holds(slots, g, values):
    if g == T or g == F:
        return g == T
    if g[0] == "in":
        return values[g[1]] in g[2]
    if g[0] == "byte":
        s = values[g[1]].encode("utf-8")
        return g[2] < len(s) and s[g[2]] == g[3]
    if g[0] == "and":
        return all(holds(slots, x, values) for x in g[1:])
    if g[0] == "or":
        return any(holds(slots, x, values) for x in g[1:])
    return not holds(slots, g[1], values)


# ----------------------------------------------------------------- concrete runs
def best_path(fst, text):
    """Cost and arcs [(il, ol)] of a cheapest path over a concrete byte string, or None."""
    data = text.encode("utf-8") if isinstance(text, str) else text
    h = lattice_concrete(fst, data)
    if (0, fst.start) not in h:
        return None
    out = []
    pos, q = 0, fst.start
    total = h[(0, q)]
    seen = set()
    while True:
        here = h[(pos, q)]
        if pos == len(data) and q in fst.finals and fst.finals[q] == here:
            return total, out
        seen.add((pos, q))
        for ol, w, ns in fst.eps[q]:
            if (pos, ns) in h and (pos, ns) not in seen and h[(pos, ns)] + w == here:
                out.append((0, ol))
                q = ns
                break
        else:
            for ol, w, ns in fst.lab[q].get(data[pos], ()) if pos < len(data) else ():
                if (pos + 1, ns) in h and h[(pos + 1, ns)] + w == here:
                    out.append((data[pos], ol))
                    pos, q = pos + 1, ns
                    break
            else:
                raise AssertionError("lost the best path")


def lattice_concrete(fst, data):
    """Backward minimum costs over the reachable (position, state) pairs."""
    reach = [set() for _ in range(len(data) + 1)]
    reach[0].add(fst.start)
    for pos in range(len(data) + 1):
        todo = list(reach[pos])
        while todo:
            q = todo.pop()
            for _, _, ns in fst.eps[q]:
                if ns not in reach[pos]:
                    reach[pos].add(ns)
                    todo.append(ns)
        if pos < len(data):
            for q in reach[pos]:
                for _, _, ns in fst.lab[q].get(data[pos], ()):
                    reach[pos + 1].add(ns)
    h = {}
    for pos in range(len(data), -1, -1):
        cur = {}
        for q in reach[pos]:
            best = None
            if pos == len(data):
                best = fst.finals.get(q)
            else:
                for _, w, ns in fst.lab[q].get(data[pos], ()):
                    x = h.get((pos + 1, ns))
                    if x is not None and (best is None or x + w < best):
                        best = x + w
            if best is not None:
                cur[q] = best
        # relax epsilon arcs backwards
        back = {}
        for q in reach[pos]:
            for _, w, ns in fst.eps[q]:
                if ns in reach[pos]:
                    back.setdefault(ns, []).append((q, w))
        todo = list(cur)
        n = 0
        while todo:
            q = todo.pop()
            n += 1
            if n > 200000:
                raise AssertionError("epsilon cycle of negative weight")
            for p, w in back.get(q, ()):
                if p not in cur or cur[q] + w < cur[p]:
                    cur[p] = cur[q] + w
                    todo.append(p)
        for q, v in cur.items():
            h[(pos, q)] = v
    return h


# ----------------------------------------------------------------- symbolic runs
class TooBig(Exception):
    pass


MIS = -1


class Unroll:
    """All paths of one transducer over an input template with total cost <= bound, tracked against output templates."""

    def __init__(self, fst, inp, bound, outs, limit=1500000):
        self.fst = fst
        self.inp = inp  # Auto
        self.outs = outs  # [Auto]
        self.bound = bound
        self.limit = limit
        self._lattice()
        self._expand()

    def _moves(self, ip, q):
        for ol, w, ns in self.fst.eps[q]:
            yield T, 0, ol, w, ip, ns
        lab = self.fst.lab[q]
        if lab:
            st = self.inp.step(ip)
            if len(st) <= len(lab):
                for b, es in st.items():
                    for ol, w, ns in lab.get(b, ()):
                        for g, ip2 in es:
                            yield g, b, ol, w, ip2, ns
            else:
                for b, arcs in lab.items():
                    for g, ip2 in st.get(b, ()):
                        for ol, w, ns in arcs:
                            yield g, b, ol, w, ip2, ns

    def _lattice(self):
        start = (self.inp.start, self.fst.start)
        seen = {start}
        todo = [start]
        back = {}
        h = {}
        while todo:
            x = todo.pop()
            ip, q = x
            if q in self.fst.finals and self.inp.final(ip) != F:
                h[x] = self.fst.finals[q]
            for g, b, ol, w, ip2, ns in self._moves(ip, q):
                y = (ip2, ns)
                back.setdefault(y, []).append((x, w))
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
            if len(seen) > self.limit:
                raise TooBig("lattice")
        # backward costs (weights may be negative: label correcting with a heap)
        heap = [(c, x) for x, c in h.items()]
        heapq.heapify(heap)
        n = 0
        while heap:
            c, x = heapq.heappop(heap)
            if h.get(x) != c:
                continue
            n += 1
            if n > 20 * self.limit:
                raise TooBig("negative cycle")
            for y, w in back.get(x, ()):
                if y not in h or c + w < h[y]:
                    h[y] = c + w
                    heapq.heappush(heap, (c + w, y))
        self.h = h
        self.start = start
        self.size = len(seen)

    def _expand(self):
        h = self.h
        self.order = []
        self.preds = {}
        self.final_nodes = []
        if self.start not in h or h[self.start] > self.bound:
            self.nodes = {}
            self.edges = 0
            return
        outs = self.outs
        root = (self.start[0], self.start[1], 0, tuple(o.start for o in outs))
        nodes = {root: 0}
        todo = [root]
        succ = []
        preds = [[]]
        edges = 0
        allmis = tuple(MIS for _ in outs)
        bound = self.bound
        mis_memo = {}
        while todo:
            x = todo.pop()
            ip, q, c, op = x
            i = nodes[x]
            for g, b, ol, w, ip2, ns in self._moves(ip, q):
                hh = h.get((ip2, ns))
                if hh is None or c + w + hh > bound:
                    continue
                if ol == 0 or op == allmis:
                    moves = ((T, op), )
                else:
                    k = (op, ol)
                    moves = mis_memo.get(k)
                    if moves is None:
                        moves = mis_memo[k] = self._advance(op, ol)
                for g2, op2 in moves:
                    y = (ip2, ns, c + w, op2)
                    gg = g_and(g, g2)
                    if gg == F:
                        continue
                    j = nodes.get(y)
                    if j is None:
                        j = nodes[y] = len(nodes)
                        preds.append([])
                        todo.append(y)
                    preds[j].append((i, gg))
                    edges += 1
            if edges > self.limit:
                raise TooBig("expansion")
        self.nodes = nodes
        self.preds = preds
        self.edges = edges
        for (ip, q, c, op), i in nodes.items():
            if q in self.fst.finals:
                f = self.inp.final(ip)
                if f != F and c + self.fst.finals[q] <= bound:
                    self.final_nodes.append((i, c + self.fst.finals[q], op, f))

    def _advance(self, op, ol):
        res = [(T, ())]
        for o, n in zip(self.outs, op):
            if n == MIS:
                ch = [(T, MIS)]
            else:
                es = o.step(n).get(ol, [])
                ch = list(es)
                miss = g_not(g_or(*[g for g, _ in es])) if es else T
                if miss != F:
                    ch.append((miss, MIS))
            res = [(g_and(g, g2), t + (n2, )) for g, t in res for g2, n2 in ch]
        return [(g, t) for g, t in res if g != F]

    def circuit(self, cnf):
        """Returns (match, other): per template {cost: literal}, and {cost: literal} for paths matching no template."""
        lit = [None] * len(self.nodes)
        for comp in sccs(self.preds, [i for i, _, _, _ in self.final_nodes]):
            inside = set(comp)
            terms = []
            for i in comp:
                if i == 0:
                    terms.append(T)
                for j, g in self.preds[i]:
                    if j in inside:
                        if g != T:
                            raise TooBig("guarded cycle")
                        continue
                    terms.append(cnf.land(lit[j], cnf.guard(g)))
            v = cnf.lor(*terms) if terms else F
            for i in comp:
                lit[i] = v
        match = [dict() for _ in self.outs]
        other = {}
        for i, c, op, f in self.final_nodes:
            base = cnf.land(lit[i], cnf.guard(f))
            none = base
            for k, (o, n) in enumerate(zip(self.outs, op)):
                if n == MIS:
                    continue
                fin = cnf.guard(o.final(n))
                match[k].setdefault(c, []).append(cnf.land(base, fin))
                none = cnf.land(none, cnf.neg(fin))
            other.setdefault(c, []).append(none)
        return ([{c: cnf.lor(*ls) for c, ls in m.items()} for m in match], {c: cnf.lor(*ls) for c, ls in other.items()})


class Product:
    """Paths of the tagger over an input template whose tag the verbalizer reads unreordered.

    Runs of blanks outside quotes reach the verbalizer as one blank, as the token parser writes them.
    Without h costs are ignored; with h (the tagger's cost to go) tagging costs up to the bound are told apart.
    """

    def __init__(self, tagger, verbalizer, inp, h=None, bound=0, limit=3000000):
        root = (inp.start, tagger.start, verbalizer.start, 0, 0)
        self.ids = ids = {root: 0}
        self.preds = preds = [[]]
        self.final = final = []
        todo = [root]
        edges = 0
        while todo:
            x = todo.pop()
            ip, q, v, m, c = x
            i = ids[x]
            nxt = [(T, ip, q, ns, m, c) for _, _, ns in verbalizer.eps[v]]
            moves = [(T, ol, w, ip, ns) for ol, w, ns in tagger.eps[q]]
            lab = tagger.lab[q]
            if lab:
                for b, es in inp.step(ip).items():
                    for ol, w, ns in lab.get(b, ()):
                        moves.extend((g, ol, w, ip2, ns) for g, ip2 in es)
            for g, ol, w, ip2, ns in moves:
                c2 = 0
                if h is not None:
                    c2 = c + w
                    togo = h.get((ip2, ns))
                    if togo is None or c2 + togo > bound:
                        continue
                if ol == 0 or m == 1 and ol == 32:
                    nxt.append((g, ip2, ns, v, m, c2))
                else:  # 0 outside quotes, 1 after a blank outside, 2 in quotes, 3 after a backslash in quotes
                    m2 = (2 if ol == 34 else 1 if ol == 32 else 0) if m < 2 else 2 if m == 3 else 3 if ol == 92 else 0 if ol == 34 else 2
                    nxt.extend((g, ip2, ns, vs, m2, c2) for _, _, vs in verbalizer.lab[v].get(ol, ()))
            for g, *y in nxt:
                y = tuple(y)
                j = ids.get(y)
                if j is None:
                    j = ids[y] = len(ids)
                    preds.append([])
                    todo.append(y)
                preds[j].append((i, g))
                edges += 1
            if q in tagger.finals and v in verbalizer.finals:
                f = inp.final(ip)
                if f != F:
                    final.append((i, c + (tagger.finals[q] if h is not None else 0), f))
            if edges > limit:
                raise TooBig("product")

    def circuit(self, cnf):
        """{cost: literal}: the chosen input has such a path."""
        lit = [F] * len(self.preds)
        for comp in sccs(self.preds, [i for i, _, _ in self.final]):
            inside = set(comp)
            terms = []
            for i in comp:
                if i == 0:
                    terms.append(T)
                for j, g in self.preds[i]:
                    if j in inside:
                        if g != T:
                            raise TooBig("guarded cycle")
                        continue
                    terms.append(cnf.land(lit[j], cnf.guard(g)))
            v = cnf.lor(*terms) if terms else F
            for i in comp:
                lit[i] = v
        out = {}
        for i, c, f in self.final:
            out.setdefault(c, []).append(cnf.land(lit[i], cnf.guard(f)))
        return {c: cnf.lor(*ls) for c, ls in out.items()}


def sccs(preds, roots):
    """Strongly connected components reachable backwards from the roots, predecessors first."""
    index = {}
    low = {}
    on = set()
    stack = []
    out = []
    for r in roots:
        if r in index:
            continue
        work = [(r, iter(preds[r]))]
        index[r] = low[r] = len(index)
        stack.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for u, _ in it:
                if u not in index:
                    index[u] = low[u] = len(index)
                    stack.append(u)
                    on.add(u)
                    work.append((u, iter(preds[u])))
                    break
                if u in on and index[u] < low[v]:
                    low[v] = index[u]
            else:
                work.pop()
                if work:
                    p = work[-1][0]
                    if low[v] < low[p]:
                        low[p] = low[v]
                if low[v] == index[v]:
                    comp = []
                    while True:
                        u = stack.pop()
                        on.discard(u)
                        comp.append(u)
                        if u == v:
                            break
                    out.append(comp)
    return out


def le(costs, c, cnf):
    """Literal: some listed path costs at most c."""
    return cnf.lor(*[l for k, l in costs.items() if k <= c])


sys.setrecursionlimit(100000)
