from vf import pycheck, stubs
from vf.loader import World

HARNESS = "checks.h_align"
S = dict


def world(instrument):
    holder = stubs.Holder()
    py = stubs.path_pynini(holder)
    py.vf = type("VF", (), dict(holder=holder, Arc=stubs.Arc, Path=stubs.Path, FST=stubs.Lattice("fst")))
    return World(stubs={"pynini": py}, instrument=instrument)


def comps(total, sizes=(1, 2, 3)):
    if total == 0:
        yield []
        return
    for s in sizes:
        if s <= total:
            for r in comps(total - s, sizes):
                yield [s] + r


def tasks(tier):
    t = []
    big = tier == "thorough"

    def add(h, split=None, **p):
        t.append(S(harness=h, params=p, split=split, replay_every=11))

    for h in ("emitted", "consumed"):
        shapes = []
        lim = 5 if not big else 6
        for a in range(1, 5):
            for b in range(0 if h == "emitted" else 1, 5):
                if a + b > lim + 1:
                    continue
                for x in comps(a):
                    for y in comps(b):
                        shapes.append((x, y))
        for x, y in shapes:
            small = sum(x) + sum(y) <= lim
            n = len(x) if h == "emitted" else len(y)
            for ntok in (1, 2, 3):
                if ntok > n or (ntok == 3 and not small):
                    continue
                add(h, isizes=x, osizes=y, ntok=ntok, split=5 if sum(x) + sum(y) >= 5 else None)
        add(h, isizes=[1, 1], osizes=[1, 1], ntok=1, neps=1)
        add(h, isizes=[1, 1], osizes=[1, 1], ntok=2, neps=1)
        add(h, isizes=[4, 1], osizes=[1], ntok=1)
        add(h, isizes=[1], osizes=[4, 1], ntok=1)
        add(h, isizes=[1, 1], osizes=[1, 1], ntok=0)
    add("emitted", isizes=[1, 1], osizes=[1, 1], ntok=2, given=True)
    add("consumed", isizes=[1, 1], osizes=[1, 1, 1], ntok=2, least=0)
    for side in ("verbalizer", "tagger"):
        for n in (0, 1, 2, 3):
            for k in (1, 2, 3):
                add("badspans", n=n, k=k, side=side, split=4)
        for kind in ("none", "branch", "cycle", "short"):
            for n in (1, 2, 3):
                add("badpath", n=n, kind=kind, side=side)
    return t


def run(tier):
    return pycheck.run(
        "checks.c04", tasks(tier), 800 if tier == "thorough" else 400,
        bounds="every interleaving of consuming up to 4 input bytes with emitting up to 4 output bytes (total up to 6), as "
               "1-, 2- and 3-byte (two cases 4-byte) arbitrary code points other than NUL; up to 3 token spans at every "
               "position; up to one epsilon arc; up to 3 arbitrary spans over up to 3 characters for argument checking",
        stubs=["pynini.accep/escape/shortestpath: return an arbitrary linear path over the given texts (or none, a "
               "branching or a cyclic one)"],
        scope=("tn.alignment", ))


replay = pycheck.replay
