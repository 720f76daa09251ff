from vf import pycheck, stubs
from vf.loader import World

HARNESS = "checks.h_config"
S = dict
PAIRS = [(d, l) for d in ("tn", "itn") for l in ("zh", "en", "ja")]


def world(instrument):
    return World(stubs=stubs.wfst_stubs(stubs.Holder()), instrument=instrument)


def tasks(tier):
    t = []
    for d, l in PAIRS:
        t.append(S(harness="option_identity", params=dict(direction=d, lang=l), max_steps=200000))
        t.append(S(harness="option_defaults", params=dict(direction=d, lang=l), max_steps=200000))
    for i, a in enumerate(PAIRS):
        for b in PAIRS[:i]:
            t.append(S(harness="pipelines_distinct", params=dict(one=a, two=b), max_steps=200000))
    return t


def run(tier):
    return pipelines(tier)


def pipelines(tier):
    return pycheck.run(
        "checks.c15", tasks(tier), 800 if tier == "thorough" else 240,
        bounds="six pipelines; all option values of two processors at once; every subset of options left out",
        stubs=["pynini: opaque graphs; Processor.build_fst: recorder of the cache identity it is given"],
        assumptions=["the identity given to the graph cache is what C07 decides on"],
        scope=("tn.", "itn."))


replay = pycheck.replay
