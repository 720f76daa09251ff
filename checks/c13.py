from vf import pycheck
from ._cachecommon import STUBS
from .cacheworld import world  # noqa: F401

HARNESS = "checks.h_cache"
S = dict


def tasks(tier):
    t = []
    big = tier == "thorough"

    def add(harness, split=None, every=7, **p):
        t.append(S(harness=harness, params=p, split=split, replay_every=every, max_steps=100000))

    def fp(a, sa, b, sb, **k):
        add("fingerprint", trees=(a, b), sizes=(sa, sb), split=None)

    A, B, T = "tn/a.py", "tn/b.py", "itn/x/data/c.tsv"
    for s in ([0, 0, 0], [1, 0, 2], [2, 2, 2], [3, 1, 0]):
        for s2 in ([0, 0, 0], [1, 0, 2], [2, 2, 2], [0, 1, 3]):
            fp([A, B, T], s, [A, B, T], s2)
    for n in range(0, 40 if big else 34):
        fp([A], [n], [A, B], [0, min(n, 2)])
        fp([A, T], [n, 1], [A, B, T], [1, 1, 1])
        fp([B, T], [n, 2], [B, T], [2, n])
    fp([A, B], [2, 2], [B, A], [2, 2])
    for x in ("tn/notes.txt", "tn/test/t.py", "tn/__pycache__/a.py", "tn/_version.py", "runtime/x.py", "setup.py", "itn/x/test/data.tsv"):
        fp([A, x], [2, 2], [A], [2])
        fp([A, x], [2, 2], [A, x], [2, 3])
    for x in ("tn/data/d.tsv", "itn/m.far", "tn/deep/er/q.py", "itn/__init__.py", "tn/testing/a.py", "tn/mytest.py"):
        fp([A, x], [2, 2], [A], [2])
        fp([A, x], [2, 2], [A, x], [2, 3])
        fp([A, x], [2, 2], [A, "itn/other.tsv"], [2, 2])
    fp([A], [2], [B], [2])
    fp(["tn/ab/c.py"], [2], ["tn/a/bc.py"], [2])
    return t


def run(tier):
    return pycheck.run("checks.c13", tasks(tier), 800 if tier == "thorough" else 240,
        bounds="pairs of source trees of up to 3 files with arbitrary byte contents (up to 3 bytes each, and one file of any size up to 33 bytes against further files)",
        stubs=STUBS, assumptions=["SHA-256 has no collisions"], scope=("tn.cache", "tn.processor"))


replay = pycheck.replay
