from vf import pycheck
from ._cachecommon import STUBS
from .cacheworld import world  # noqa: F401

HARNESS = "checks.h_cache"
S = dict


def tasks(tier):
    t = []
    big = tier == "thorough"

    def add(harness, split=None, every=7, **p):
        t.append(S(harness=harness, params=p, split=split, replay_every=every, max_steps=100000))

    for st in ("none", "valid", "corrupt", "previous"):
        for ov in (False, True):
            for ev in (None, "published", "changed"):
                if ev == "published" and st in ("corrupt", "previous"):
                    continue
                add("build", state=st, overwrite=ov, event=ev, split=5)
    for ov in (False, True):
        add("build_memory", overwrite=ov)
    return t


def run(tier):
    return pycheck.run("checks.c10", tasks(tier), 800 if tier == "thorough" else 240,
        bounds="one build per combination of: no, valid, damaged, or moved-aside bundle; with and without overwriting; no event, another process publishing before the lock is "
               "granted, grammar sources changing during the build; all graph contents symbolic",
        stubs=STUBS, assumptions=["SHA-256 has no collisions"], scope=("tn.cache", "tn.processor"))


replay = pycheck.replay
