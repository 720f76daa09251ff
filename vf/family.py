"""Decides input families over a whole pipeline: tagger, token reordering, verbalizer."""
import importlib

import multiprocessing as mp
import multiprocessing.connection  # noqa: F401
import os
import random
import re
import sys
import time
import traceback

from . import fst as F
from .cnf import Cnf, T as GT, F as GF, g_and, g_in, g_not, g_or  # noqa: F401
from .fst import Alt, Auto, Char, Enum, Group, Ref, Unroll, best_path, render, seq  # noqa: F401

CLASSES = {
    "zh_tn": ("tn.chinese.normalizer", "Normalizer"),
    "ja_tn": ("tn.japanese.normalizer", "Normalizer"),
    "en_tn": ("tn.english.normalizer", "Normalizer"),
    "zh_itn": ("itn.chinese.inverse_normalizer", "InverseNormalizer"),
    "ja_itn": ("itn.japanese.inverse_normalizer", "InverseNormalizer"),
    "en_itn": ("itn.english.inverse_normalizer", "InverseNormalizer"),
}
PH = 0xF0000


def repo():
    return os.environ.get("VF_REPO", "/repo")


def quiet_import():
    import logging
    sys.dont_write_bytecode = True
    if repo() not in sys.path:
        sys.path.insert(0, repo())
    logging.getLogger("wetext").setLevel(logging.ERROR)


class Pipeline:

    def __init__(self, kind, **options):
        quiet_import()
        mod, cls = CLASSES[kind]
        m = importlib.import_module(mod)
        assert os.path.realpath(m.__file__).startswith(os.path.realpath(repo()) + os.sep), m.__file__
        import logging
        logging.getLogger("wetext").setLevel(logging.ERROR)
        t0 = time.time()
        self.kind = kind
        self.options = options
        self.n = getattr(m, cls)(cache_dir=False, **options)
        self.tagger = F.read_fst(self.n.tagger.write_to_string())
        self.verbalizer = F.read_fst(self.n.verbalizer.write_to_string())
        self._readable = None
        self.build_s = time.time() - t0

    @property
    def readable(self):
        """The tags the verbalizer reads, as a deterministic automaton."""
        if self._readable is None:
            import pynini
            v = pynini.arcmap(self.n.verbalizer.copy().project("input"), map_type="rmweight").rmepsilon()
            self._readable = F.read_fst(pynini.determinize(v).minimize().write_to_string())
        return self._readable

    def normalize(self, text):
        try:
            return self.n.normalize(text)
        except Exception as e:
            return ("raises", type(e).__name__)

    def candidate(self, text):
        return self.n._normalization_candidates(text, 1)[0]

    def reorder(self, tagged):
        return self.n.token_parser().reorder(tagged)

    def tag_arcs(self, text, tagged):
        import pynini
        lat = pynini.accep(pynini.escape(text)) @ self.n.tagger @ pynini.accep(pynini.escape(tagged))
        p = pynini.shortestpath(lat)
        out = []
        q = p.start()
        while True:
            arcs = list(p.arcs(q))
            if not arcs:
                return out
            out.append((arcs[0].ilabel, arcs[0].olabel))
            q = arcs[0].nextstate


_PIPES = {}


def pipeline(kind, options=()):
    key = (kind, tuple(sorted(dict(options).items())))
    if key not in _PIPES:
        _PIPES[key] = Pipeline(kind, **dict(options))
    return _PIPES[key]


class Fam:
    """slots, input items, expected output items."""

    def __init__(self, name, slots, inp, out, samples=(), where=GT, costs=False, eps=None):
        self.name = name
        self.eps = eps  # smallest differences of tagging and verbalization costs that count
        self.costs = costs  # without expected text: see Total
        self.slots = slots
        self.inp = seq(inp)
        self.out = seq(out) if out is not None else None
        self.samples = list(samples)
        self.where = where  # side condition on the slots

    def size(self):
        n = 1
        for s in self.slots:
            n *= s.count()
        return n


class Violation(Exception):

    def __init__(self, text, want, got):
        self.text, self.want, self.got = text, want, got


class Inconclusive(Exception):
    pass


class Decider:

    def __init__(self, pipe, fam, stats, max_templates=60):
        self.p = pipe
        self.f = fam
        self.stats = stats
        self.templates = []  # (items, reordered items)
        self.bound1 = None
        self.bound2 = []
        self.strict1 = self.strict2 = False
        self.eps1, self.eps2 = fam.eps or (F.EPS, F.EPS)
        self.max_templates = max_templates
        self.raised = 0

    def want(self, values):
        return render(self.f.slots, self.f.out, values)

    def check(self, values):
        text = render(self.f.slots, self.f.inp, values)
        got = self.p.normalize(text)
        want = self.want(values)
        self.stats["replays"] = self.stats.get("replays", 0) + 1
        if got != want:
            raise Violation(text, want, got)
        return text

    def learn(self, values):
        """Runs the real pipeline on one member; returns True if something new was learned."""
        text = self.check(values)
        cand = self.p.candidate(text)
        new = False
        items = self.template(values, text, cand.tagged)
        key = repr(items)
        if all(repr(t[0]) != key for t in self.templates):
            self.templates.append((items, self.reordered(items, values)))
            self.bound2.append(None)
            new = True
            if len(self.templates) > self.max_templates:
                raise Inconclusive("more than %d tag shapes" % self.max_templates)
        b1 = best_path(self.p.tagger, text)
        if self.bound1 is None or b1[0] + F.EPS > self.bound1:
            self.bound1 = b1[0] + F.EPS
            new = True
        b2 = best_path(self.p.verbalizer, self.p.reorder(cand.tagged))
        for j, t in enumerate(self.templates):
            if (self.bound2[j] is None or b2[0] + F.EPS > self.bound2[j]) and render(self.f.slots, t[0], values) == cand.tagged:
                self.bound2[j] = b2[0] + F.EPS
                new = True
        return new

    def template(self, values, text, tagged):
        """The tag with the copies of slot text replaced by references."""
        parts = []  # (start, length, item), outermost first
        self.parts(self.f.inp, values, 0, parts)
        data = text.encode()
        start = {}
        for a, n, it in parts:
            if n:
                start.setdefault(a, []).append((n, it))
        out = []  # (byte, source index or None)
        pos = 0
        for il, ol in self.p.tag_arcs(text, tagged):
            src = None
            if il:
                src = pos
                pos += 1
            if ol:
                out.append((ol, src if il == ol else None))
        items = []
        buf = bytearray()
        i = 0
        quoted = escaped = False
        while i < len(out):
            b, src = out[i]
            hit = None
            for n, it in start.get(src, ()) if src is not None and quoted else ():
                part = data[src:src + n]
                if b'"' not in part and b"\\" not in part and all(i + d < len(out) and out[i + d][1] == src + d for d in range(n)):
                    hit = (n, it)
                    break
            if hit:
                if buf:
                    items.append(bytes(buf).decode("utf-8", "surrogateescape"))
                    buf = bytearray()
                items.append(hit[1])
                i += hit[0]
                continue
            buf.append(b)
            quoted ^= b == 0x22 and not escaped
            escaped = b == 0x5C and not escaped
            i += 1
        if buf:
            items.append(bytes(buf).decode("utf-8", "surrogateescape"))
        return items

    def parts(self, items, values, pos, out):
        """Where each group and slot copy of the input starts; returns the end."""
        for it in items:
            if isinstance(it, str):
                pos += len(it.encode())
            elif isinstance(it, Alt):
                sub = [s for g, s in it.cases if F.holds(self.f.slots, g, values)]
                pos = self.parts(seq(sub[0]), values, pos, out)
            elif isinstance(it, Group):
                i = len(out)
                out.append(None)
                end = self.parts(it.items, values, pos, out)
                out[i] = (pos, end - pos, it)
                pos = end
            elif isinstance(it, (list, tuple)):
                pos = self.parts(it, values, pos, out)
            else:
                n = len(self.f.slots[it.slot].string(values[it.slot], it.m).encode())
                out.append((pos, n, it))
                pos += n
        return pos

    def reordered(self, items, values):
        refs = [it for it in items if not isinstance(it, str)]
        text = ""
        k = 0
        for it in items:
            if isinstance(it, str):
                text += it
            else:
                text += chr(PH + k)
                k += 1
        out = []
        buf = ""
        for ch in self.p.reorder(text):
            if PH <= ord(ch) < PH + k:
                if buf:
                    out.append(buf)
                    buf = ""
                out.append(refs[ord(ch) - PH])
            else:
                buf += ch
        if buf:
            out.append(buf)
        return out

    def run(self):
        slots = self.f.slots
        inp = Auto(slots, self.f.inp)
        out = Auto(slots, self.f.out)
        for v in self.sample_values():
            self.learn(v)
        for _ in range(400):
            cnf = Cnf(slots)
            w = cnf.guard(self.f.where)
            if w == GF:
                return
            if w != GT:
                cnf.add(w)
            u1 = Unroll(self.p.tagger, inp, self.bound1, [Auto(slots, t[0]) for t in self.templates])
            match, other = u1.circuit(cnf)
            nodes = len(u1.nodes)
            every = {}
            for m in match:
                for c, l in m.items():
                    every[c] = cnf.lor(every.get(c, GF), l)
            nomatch = cnf.neg(F.le(every, 10**15, cnf))
            mis = self.beaten(cnf, other, every, self.strict1, self.eps1)
            parts = [("no tagging", nomatch), ("other tagging", mis)]
            for j, (m, t) in enumerate(zip(match, self.templates)):
                win = GF
                for c, l in m.items():
                    better = cnf.lor(*[x for k, mm in enumerate(match) if k != j for cc, x in mm.items() if cc < c - self.eps1])
                    win = cnf.lor(win, cnf.land(l, cnf.neg(better)))
                if win == GF:
                    continue
                u2 = Unroll(self.p.verbalizer, Auto(slots, t[1]), self.bound2[j], [out])
                (m2, ), o2 = u2.circuit(cnf)
                nodes += len(u2.nodes)
                nm2 = cnf.neg(F.le(m2, 10**15, cnf))
                mis2 = self.beaten(cnf, o2, m2, self.strict2, self.eps2)
                parts.append(("no verbalization %d" % j, cnf.land(win, nm2)))
                parts.append(("other verbalization %d" % j, cnf.land(win, mis2)))
            bad = cnf.lor(*[l for _, l in parts])
            self.stats["nodes"] = max(self.stats.get("nodes", 0), nodes)
            self.stats["total_nodes"] = self.stats.get("total_nodes", 0) + nodes
            self.stats["clauses"] = max(self.stats.get("clauses", 0), len(cnf.clauses))
            self.stats["templates"] = max(self.stats.get("templates", 0), len(self.templates))
            if bad == GF:
                self.stats["queries"] = self.stats.get("queries", 0) + 1
                return
            values = cnf.solve(self.stats, [] if bad == GT else [(bad, )])
            if values is None:
                return
            if values == "unknown":
                raise Inconclusive("solver limit")
            self.stats["cegis"] = self.stats.get("cegis", 0) + 1
            if self.learn(values):
                continue
            # the real run agrees and nothing new: a tie broken by the library
            self.stats["ties"] = self.stats.get("ties", 0) + 1
            if not self.strict2 and not self.strict1:
                self.strict1 = True
            elif not self.strict2:
                self.strict2 = True
            else:
                text = render(slots, self.f.inp, values)
                raise Inconclusive("no progress at %r" % text)
        raise Inconclusive("refinement limit")

    @staticmethod
    def beaten(cnf, other, match, strict, eps):
        """Some other path costs no more (strict: less) than every matching path."""
        out = []
        for c, l in other.items():
            if strict:
                better = [x for k, x in match.items() if k <= c + eps]
            else:
                better = [x for k, x in match.items() if k < c - eps]
            out.append(cnf.land(l, cnf.neg(cnf.lor(*better))))
        return cnf.lor(*out)

    def sample_values(self):
        rng = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
        out = []
        for k in range(4):
            out.append([s.samples()[k % len(s.samples())] for s in self.f.slots])
        for _ in range(2):
            out.append([rng.choice(s.samples()) if isinstance(s, Char) else rng.randrange(len(s)) for s in self.f.slots])
        out = list(self.f.samples) + out
        return [v for v in out if F.holds(self.f.slots, self.f.where, v)][:6] or self.any_value()

    def any_value(self):
        cnf = Cnf(self.f.slots)
        w = cnf.guard(self.f.where)
        if w == GF:
            return []
        v = cnf.solve(self.stats, [] if w == GT else [(w, )])
        return [v] if v and v != "unknown" else []


BLANKS = re.compile(r'"(?:\\.|[^"\\])*"| +', re.S)
TOTAL = "any text"


class Total(Decider):
    """Families with no expected text: every member must have a normalization at all.

    fam.costs: its cheapest tagging must have a verbalization (ties: one of the cheapest); otherwise some tagging must.
    """

    def check(self, values):
        text = render(self.f.slots, self.f.inp, values)
        got = self.p.normalize(text)
        self.stats["replays"] = self.stats.get("replays", 0) + 1
        if isinstance(got, tuple):
            raise Violation(text, TOTAL, got)
        return text

    def run(self):
        if self.f.costs:
            return self.cheapest()
        slots = self.f.slots
        prod = F.Product(self.p.tagger, self.p.readable, Auto(slots, self.f.inp))
        self.stats["nodes"] = self.stats["total_nodes"] = len(prod.ids)
        cnf = Cnf(slots)
        some = prod.circuit(cnf).get(0, GF)
        w = cnf.guard(self.f.where)
        extra = [(l, ) for l in (cnf.neg(some), w) if l != GT]
        self.stats["clauses"] = len(cnf.clauses)
        if (GF, ) in extra:
            self.stats["queries"] = 1
            return
        v = cnf.solve(self.stats, extra)
        if v is None:
            return
        if v == "unknown":
            raise Inconclusive("solver limit")
        raise Inconclusive("%r is only accepted after reordering" % self.check(v))

    def cheapest(self):
        self.max_templates = 300
        slots = self.f.slots
        inp = Auto(slots, self.f.inp)
        for v in self.sample_values():
            self.raise_bound(v)
        rng = random.Random(int(os.environ.get("VERIF_SEED", "1") or 1))
        enums = not any(isinstance(s, Char) for s in slots)
        if enums:  # the shapes that need reordering, as far as a few members show them
            for _ in range(400):
                self.shape([rng.randrange(len(s)) for s in slots])
        for _ in range(400):
            cnf = Cnf(slots)
            w = cnf.guard(self.f.where)
            if w == GF:
                return
            if w != GT:
                cnf.add(w)
            u1 = Unroll(self.p.tagger, inp, self.bound1, [Auto(slots, t[0]) for t in self.templates])
            match, every = u1.circuit(cnf)
            good = {}
            for m, t, b in zip(match, self.templates, self.bound2):
                u2 = Unroll(self.p.verbalizer, Auto(slots, t[1]), b, [])
                read = F.le(u2.circuit(cnf)[1], 10**15, cnf)
                for c, l in m.items():
                    every[c] = cnf.lor(every.get(c, GF), l)
                    good[c] = cnf.lor(good.get(c, GF), cnf.land(l, read))
            prod = F.Product(self.p.tagger, self.p.readable, inp, u1.h, self.bound1)
            for c, l in prod.circuit(cnf).items():
                good[c] = cnf.lor(good.get(c, GF), l)
            bad = cnf.neg(F.le(every, 10**15, cnf))
            for c, l in every.items():
                bad = cnf.lor(bad, cnf.land(l, cnf.neg(F.le(good, c + F.EPS, cnf))))
            self.stats["nodes"] = max(self.stats.get("nodes", 0), len(prod.ids) + len(u1.nodes))
            self.stats["total_nodes"] = self.stats.get("total_nodes", 0) + len(prod.ids) + len(u1.nodes)
            self.stats["clauses"] = max(self.stats.get("clauses", 0), len(cnf.clauses))
            if bad == GF:
                self.stats["queries"] = self.stats.get("queries", 0) + 1
                return
            v = cnf.solve(self.stats, [] if bad == GT else [(bad, )])
            if v is None:
                return
            if v == "unknown":
                raise Inconclusive("solver limit")
            self.stats["cegis"] = self.stats.get("cegis", 0) + 1
            if not self.raise_bound(v) and not self.learn(v):
                raise Inconclusive("no progress at %r" % render(slots, self.f.inp, v))
            if enums:
                for i, s in enumerate(slots):
                    for _ in range(40):
                        self.shape(v[:i] + [rng.randrange(len(s))] + v[i + 1:])
        raise Inconclusive("refinement limit")

    def shape(self, v):
        if F.holds(self.f.slots, self.f.where, v):
            self.raise_bound(v)
            tagged = self.p.candidate(render(self.f.slots, self.f.inp, v)).tagged
            if self.p.reorder(tagged) != BLANKS.sub(lambda m: m[0] if m[0][0] == '"' else " ", tagged).strip():
                self.learn(v)

    def raise_bound(self, values):
        b1 = best_path(self.p.tagger, self.check(values))
        if self.bound1 is None or b1[0] + F.EPS > self.bound1:
            self.bound1 = b1[0] + F.EPS
            return True
        return False


def decide(pipe, fam):
    stats = {}
    t0 = time.time()
    res = dict(name=fam.name, members=fam.size(), status="holds", stats=stats, kind=pipe.kind, options=pipe.options)
    try:
        (Decider if fam.out is not None else Total)(pipe, fam, stats).run()
    except Violation as v:
        res.update(status="violation", text=v.text, want=v.want, got=v.got)
    except Inconclusive as e:
        res.update(status="inconclusive", why=str(e))
    except F.TooBig as e:
        res.update(status="inconclusive", why="too big: %s" % e)
    except Exception as e:
        if os.environ.get("VF_DEBUG") == "2":
            traceback.print_exc()
        res.update(status="inconclusive", why="%s: %s" % (type(e).__name__, str(e)[:200]))
    res["wall"] = time.time() - t0
    return res


# ----------------------------------------------------------------- running many families
_FAMS = None


def _work(i):
    kind, options, fam = _FAMS[i]
    return i, decide(pipeline(kind, options), fam)


def run_families(fams, budget, jobs=None):
    """fams: [(kind, options dict, Fam)].  Graphs are built first (in parallel when several), families decided in a pool."""
    global _FAMS
    _FAMS = fams
    kinds = []
    for kind, options, _ in fams:
        k = (kind, tuple(sorted(options.items())))
        if k not in kinds:
            kinds.append(k)
    jobs = jobs or int(os.environ.get("VF_JOBS", "8"))
    results = []
    t0 = time.time()
    if len(kinds) == 1:
        p = pipeline(kinds[0][0], kinds[0][1])
        if any(f.out is None for _, _, f in fams):
            p.readable
        ctx = mp.get_context("fork")
        with ctx.Pool(jobs) as pool:
            pend = [pool.apply_async(_work, (i, )) for i in range(len(fams))]
            for i, fut in enumerate(pend):
                results.append(_get(fut, fams[i], t0, budget))
        return results
    # one process per pipeline builds it and decides its families in workers of its own
    groups = [[i for i, f in enumerate(fams) if (f[0], tuple(sorted(f[1].items()))) == k] for k in kinds]
    groups.sort(key=lambda g: -len(g))
    ctx = mp.get_context("fork")
    waiting = list(groups)
    running = []
    inner = 1 if len(groups) > jobs else max(2, jobs // 2)
    failed = []
    while waiting or running:
        while waiting and len(running) < jobs:
            g = waiting.pop(0)
            rd, wr = ctx.Pipe(False)
            proc = ctx.Process(target=_sub, args=(wr, [fams[i] for i in g], budget - (time.time() - t0), inner))
            proc.start()
            wr.close()
            running.append((g, rd, proc))
        ready = mp.connection.wait([r for _, r, _ in running], timeout=1)
        for item in list(running):
            g, rd, proc = item
            if rd in ready:
                try:
                    results.extend(rd.recv())
                except EOFError:
                    failed.extend((i, "worker ended") for i in g)
                proc.join(10)
            elif time.time() - t0 > budget + 30:
                proc.kill()
                failed.extend((i, "time budget") for i in g)
            else:
                continue
            running.remove(item)
    results.extend(dict(name=fams[i][2].name, members=fams[i][2].size(), status="inconclusive", why=why, stats={}, kind=fams[i][0],
                        options=fams[i][1], wall=0) for i, why in failed)
    return results


def _sub(wr, fams, budget, jobs):
    wr.send(run_families(fams, budget, jobs))
    wr.close()


def _get(fut, fam, t0, budget):
    try:
        return fut.get(timeout=max(1, budget - (time.time() - t0)))[1]
    except mp.TimeoutError:
        return dict(name=fam[2].name, members=fam[2].size(), status="inconclusive", why="time budget", stats={}, kind=fam[0],
                    options=fam[1], wall=0)


def run_check(fams, budget, bounds, functions, assumptions=(), sensitive_keys=None):
    """The dictionary vf.main expects."""
    t0 = time.time()
    res = run_families(fams, budget)
    viol = []
    inc = {}
    errors = []
    tot = {}
    for r in res:
        for k, v in r["stats"].items():
            if k in ("nodes", "clauses", "templates"):
                tot[k] = max(tot.get(k, 0), v)
            else:
                tot[k] = tot.get(k, 0) + v
        if r["status"] == "violation":
            opts = ", ".join("%s=%s" % kv for kv in sorted(r["options"].items()))
            viol.append(dict(msg="%s%s: %r gives %r, expected %r (%s)" % (r["kind"], "(" + opts + ")" if opts else "", r["text"], r["got"],
                                                                    r["want"], r["name"]),
                             key="%s|%s|%s" % (r["kind"], opts, r["text"]), kind=r["kind"], options=r["options"], text=r["text"],
                             want=r["want"]))
        elif r["status"] == "inconclusive":
            inc[r["why"]] = inc.get(r["why"], 0) + 1
            if os.environ.get("VF_DEBUG"):
                print("INCONCLUSIVE", r["kind"], r["name"], r["why"])
    holds = [r for r in res if r["status"] == "holds"]
    if not holds and not viol:
        errors.append("no family was decided: %s" % inc)
    if os.environ.get("VF_DEBUG"):
        for r in sorted(res, key=lambda r: -r["wall"])[:8]:
            print("SLOW", r["kind"], r["name"], r["status"], round(r["wall"], 2), r["stats"])
    cov = {
        "states": tot.get("total_nodes", 0),
        "transitions": tot.get("queries", 0),
        "traces_validated_against_impl": tot.get("replays", 0),
        "families": len(res),
        "families_decided": len(holds),
        "members_of_decided_families": sum(r["members"] for r in holds),
        "solver_queries": tot.get("queries", 0),
        "solver_seconds": round(tot.get("solver_s", 0), 2),
        "largest_unrolling_nodes": tot.get("nodes", 0),
        "largest_cnf_clauses": tot.get("clauses", 0),
        "counterexample_refinements": tot.get("cegis", 0),
        "ties_broken_by_library": tot.get("ties", 0),
        "exhaustive": len(holds) == len(res),
        "inconclusive": inc,
        "samples": [dict(family=r["name"], pipeline=r["kind"], members=r["members"]) for r in res[:6]] or ["none"],
        "functions_encoded": functions,
        "bounds": bounds,
        "explanation": "each family is every string its input template denotes; the compiled tagger and verbalizer of the current source "
                       "are unrolled over the symbolic slots into a circuit of (input position, graph state, cost, output position) "
                       "nodes and a SAT solver looks for slot values whose cheapest tagging, reordered and verbalized, is not the expected text",
    }
    return dict(level="model_checking", coverage=cov, assumptions=list(assumptions), violations=viol, errors=errors)


def replay(item):
    p = Pipeline(item["kind"], **item["options"])
    got = p.normalize(item["text"])
    if isinstance(got, tuple) if item["want"] == TOTAL else got != item["want"]:
        return "%r gives %r, expected %r" % (item["text"], got, item["want"])
    return None




# ----------------------------------------------------------------- helpers for families
def char_is(slot, chars):
    """Guard: the Char slot holds one of the given characters."""
    tree = {}
    for c in chars:
        d = tree
        for b in c.encode("utf-8"):
            d = d.setdefault(b, {})

    def build(d, j):
        by = {}
        for b, sub in d.items():
            key = repr(sorted(sub)) if not any(sub.values()) else id(sub)
            by.setdefault(key, []).append((b, sub))
        out = []
        for grp in by.values():
            g = g_or(*[("byte", slot, j, b) for b, _ in grp])
            sub = grp[0][1]
            out.append(g_and(g, build(sub, j + 1)) if sub else g)
        return g_or(*out)

    return build(tree, 0)
