from vf import pycheck
from .c05 import world  # noqa: F401

HARNESS = "checks.h_nbest"
S = dict


def tasks(tier):
    t = []
    big = tier == "thorough"

    def add(i, o, ident, split=None, **k):
        names = ["cardinal", "char", "date"][:len(i)]
        t.append(S(harness="mapping", params=dict(tokens=names, isizes=i, osizes=o, include_identity=ident, **k), split=split,
                   replay_every=7))

    for ident in (False, True):
        for i in ([1], [3], [1, 1], [3, 1]):
            for o in ([], [1], [3], [1, 3]):
                add([i], [o], ident)
        for i, o in (([[1], [1]], [[1], [1]]), ([[3], [1]], [[], [3]]), ([[1], [3]], [[3], []]), ([[1], [1]], [[], []]),
                     ([[1, 1], [3]], [[1, 1], [3]]), ([[3], [3], [1]], [[3], [1], [1]]), ([[1], [1], [1]], [[1], [], [1]])):
            add(i, o, ident, split=6)
            add(i, o, ident, split=6, gaps=1)
        add([[1]], [[1]], ident, nb=2)
        add([[1], [3]], [[1], [3]], ident, nb=2, split=6)
        if big:
            add([[1, 1], [1, 1]], [[1, 1], [1, 1]], ident, split=8)
            add([[1], [1], [1]], [[1], [1], [1]], ident, split=8, gaps=1)
    return t


def run(tier):
    return pycheck.run(
        "checks.c06", tasks(tier), 800 if tier == "thorough" else 300,
        bounds="up to 3 tokens consuming up to 2 and emitting up to 2 arbitrary 1- or 3-byte code points each (no whitespace, "
               "quote or backslash in the input), with and without an unowned space between tokens, with and without identity "
               "mappings, one or two candidates",
        stubs=["pynini: the tagger path copies each token's characters between its wire text, the verbalizer path replaces "
               "them; both paths are linear and their ownership is known by construction (arbitrary paths are C04)"],
        scope=("tn.processor", "tn.token_parser", "tn.alignment"))


replay = pycheck.replay
