from vf import pycheck, stubs
from vf.loader import World

HARNESS = "checks.h_nbest"
S = dict


def world(instrument):
    holder = stubs.Holder()
    st = stubs.wfst_stubs(holder)
    st["pynini"].vf = type("VF", (), dict(holder=holder, Arc=stubs.Arc, Path=stubs.Path, Graph=stubs.Graph,
                                          Shortest=stubs.Shortest))
    return World(stubs=st, instrument=instrument)


def tasks(tier):
    t = []
    big = tier == "thorough"

    def add(split=None, **p):
        t.append(S(harness="nbest", params=p, split=split, replay_every=7))

    for nv in ([], [0], [1], [2], [1, 1], [0, 1], [1, 0, 1]):
        for n in (1, 2, 3):
            add(nverbs=nv, n=n, split=6 if len(nv) > 1 else None)
    for nv, ns in (([3], (2, 3, 4)), ([2, 1], (1, 2, 3, 4)), ([1, 2], (1, 2, 3)), ([2, 2], (1, 2, 3, 5)), ([1, 1, 1], (1, 2, 3)),
                   ([5], (4, 6))):
        for n in ns:
            add(nverbs=nv, n=n, split=6)
    add(nverbs=[2, 1, 2], n=2, split=8)
    add(nverbs=[1, 1], n=2, extra_space=True)
    for nv, n in (([3, 2], 4), ([2, 2, 1], 3), ([1, 1, 1, 1], 4), ([2, 2, 2], 3), ([9], 10)):
        add(nverbs=nv, n=n, split=9)
    for sizes, n, sh in (([70], 75, 0), ([20, 20], 45, 0), ([20, 20], 30, 1), ([9, 9, 3], 12, 2), ([2, 40], 20, 1)):
        t.append(S(harness="deep", params=dict(sizes=sizes, n=n, shared=sh), split=5, replay_every=3, max_steps=200000))
    if big:
        for nv, n in (([3, 3], 6), ([2, 2, 2], 6), ([1, 1, 1, 1, 1], 5), ([3, 2, 1], 4)):
            add(nverbs=nv, n=n, split=9)
    for k in ("int", "bool", "none", "float", "str", "list", "half"):
        t.append(S(harness="nbest_argument", params=dict(kind=k)))
    for nv, n in (([2], 1), ([1, 1], 1), ([2, 1], 2), ([2, 2], 2), ([1, 1, 1], 2), ([2, 2], 3)):
        t.append(S(harness="prefix_consistent", params=dict(nverbs=nv, n=n), split=6, replay_every=7))
    return t


def run(tier):
    return pycheck.run(
        "checks.c05", tasks(tier), 800 if tier == "thorough" else 300,
        bounds="up to 3 taggings with up to 2 verbalizations each (one with up to 9; two with 3 and 2), all weights arbitrary reals in "
               "[-100,100] including every tie, every coincidence pattern of one-letter outputs, nbest from 1 to 10; "
               "up to 70 candidates in weight ladders of one to three taggings whose tagging weights are arbitrary; nbest "
               "argument: integers -3..4, booleans, None, floats, strings, lists",
        stubs=["pynini.shortestpath(lattice, n, unique): the n best distinct outputs of the composed lattice in weight order, "
               "ties in a fixed order"],
        assumptions=["weights are mathematical reals, not float32"],
        scope=("tn.processor", "tn.token_parser", "tn.alignment"))


replay = pycheck.replay
