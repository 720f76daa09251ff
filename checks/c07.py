from vf import pycheck
from . import c15
from ._cachecommon import STUBS
from .cacheworld import world  # noqa: F401

HARNESS = "checks.h_cache"
S = dict


def tasks(tier):
    t = []
    big = tier == "thorough"

    def add(harness, split=None, every=7, **p):
        t.append(S(harness=harness, params=p, split=split, replay_every=every, max_steps=100000))

    for v in (["prefix"], ["order"], ["fp"], ["order", "fp"], ["prefix", "order"]):
        add("identity", shapes=("b", "b"), n=2 if big or len(v) == 1 else 1, vary=v, split=6)
    add("identity", shapes=("b", "b"), n=1, vary=["builder"], split=6)
    shapes = ["b", "bb", "rev", "s", "i", "none", "key", "nest", "empty"]
    for i, a in enumerate(shapes):
        for b in shapes[i:]:
            add("identity", shapes=(a, b), n=1, vary=[])
    add("identity", shapes=("ss", "ss"), n=2, vary=[], split=6)
    add("identity", shapes=("s", "ss"), n=3 if big else 2, vary=[], split=6)
    for n in (0, 1, 2, 3) + ((4, ) if big else ()):
        add("prefix", n=n, split=6 if n > 1 else None)
    for x in (None, "", "/xdg", "rel/dir", "~/x"):
        add("default_dir", xdg=x)
    return t


def run(tier):
    r = pycheck.run("checks.c07", tasks(tier), 800 if tier == "thorough" else 240,
        bounds="pairs of cache keys over 9 configuration shapes (booleans, integers, strings of up to 2 printable ASCII characters, nested, reordered "
               "and differently named keys), prefixes/order types/fingerprints of up to 2 arbitrary characters, all builder identities from two "
               "values per component; prefixes of up to 3 arbitrary code points",
        stubs=STUBS, assumptions=["SHA-256 has no collisions"], scope=("tn.cache", "tn.processor"))
    # the pipelines themselves: what they hand to the cache as their options
    return pycheck.merge(r, c15.pipelines(tier), "checks.c15")


replay = pycheck.replay
