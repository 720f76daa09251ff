from vf import pycheck
from ._cachecommon import STUBS
from .cacheworld import world  # noqa: F401

HARNESS = "checks.h_cache"
S = dict


def tasks(tier):
    t = []
    big = tier == "thorough"

    def add(harness, split=None, every=7, **p):
        t.append(S(harness=harness, params=p, split=split, replay_every=every, max_steps=100000))

    for old in (False, True, "previous"):
        for flow in ("overwrite", "repair"):
            for after in ("kept", "lost", "torn"):
                add("publish_crash", old=old, flow=flow, after=after, kmax=90, split=8, every=17)
    for old in (False, True):
        add("publish_fault", old=old, kmax=70, split=8, every=17)
        add("reader_race", old=old, kmax=70, split=8, every=17)
        if big:
            add("publish_fault", old=old, kmax=45, twice=True, split=12, every=41)
    return t


def run(tier):
    return pycheck.run("checks.c09", tasks(tier), 800 if tier == "thorough" else 240,
        bounds="a crash before any mutating operation of a publication (with the OS cache kept, everything unsynced lost, or only unsynced contents lost), one I/O error "
               "(thorough: any two) at any operation, and one whole load by another process at any operation; with no, a current, or a moved-aside previous bundle; "
               "all graph contents symbolic",
        stubs=STUBS, assumptions=["a directory fsync makes its renames durable; rename is atomic", "SHA-256 has no collisions"], scope=("tn.cache", "tn.processor"))


replay = pycheck.replay
