from vf import pycheck
from ._cachecommon import STUBS
from .cacheworld import world  # noqa: F401

HARNESS = "checks.h_cache"
S = dict


def tasks(tier):
    t = []
    big = tier == "thorough"

    def add(harness, split=None, every=7, **p):
        t.append(S(harness=harness, params=p, split=split, replay_every=every, max_steps=100000))

    for n in (0, 1, 2, 3) + ((4, 5) if big else ()):
        for body in ("ok", "raise"):
            add("lock_clock", attempts=n, body=body, split=6 if n > 1 else None)
    for s in (False, True):
        add("lock_exclusion", same=s)
    for s in ("env", "arg"):
        add("lock_timeout_value", source=s)
    return t


def run(tier):
    return pycheck.run("checks.c11", tasks(tier), 800 if tier == "thorough" else 240,
        bounds="up to 3 (thorough: 5) failed attempts of any kind, any non-negative timeout up to 1000 s, any monotonic clock advancing up to 100 s between readings; the body returns or raises",
        stubs=STUBS, assumptions=["the operating system releases an advisory lock when its last descriptor is closed"], scope=("tn.cache", "tn.processor"))


replay = pycheck.replay
