from vf import pycheck
from .cliworld import world  # noqa: F401

HARNESS = "checks.h_cli"
S = dict
PAIRS = [(d, l) for d in ("tn", "itn") for l in ("zh", "en", "ja")]
COUNT = {("tn", "zh"): 6, ("tn", "en"): 0, ("tn", "ja"): 5, ("itn", "zh"): 4, ("itn", "en"): 0, ("itn", "ja"): 4}


def tasks(tier):
    t = []
    big = tier == "thorough"

    def add(harness, split=None, every=13, **p):
        t.append(S(harness=harness, params=p, split=split, replay_every=every, max_steps=300000))

    for d, l in PAIRS:
        n = COUNT[(d, l)]
        add("options", direction=d, lang=l, vary=[], where="last")
        for i in range(n):
            add("options", direction=d, lang=l, vary=[i], where="last")
            add("options", direction=d, lang=l, vary=[i], where="default")
            for j in range(i):
                if big or (i + j) % 3 == 0:
                    add("options", direction=d, lang=l, vary=[j, i], where="first", split=5)
        add("foreign_option", direction=d, lang=l)
    for n in range(0, 7 if big else 6):
        add("bool_value", n=n, split=6 if n > 3 else None)
    for n in (0, 1, 2, 3):
        add("language", n=n)
    for src in ("stdin", "sys", "file"):
        for d in ("tn", "itn"):
            for sizes, ends in (([], []), ([2], ["\n"]), ([2], [""]), ([0], ["\n"]), ([3, 1], ["\n", "\r\n"]), ([0, 2, 0], ["\n", "\n", "\n"]),
                                ([2, 2], ["\r\n", "\r"]), ([1, 1, 1, 1], ["\n"] * 4)):
                add("lines", source=src, sizes=sizes, ends=ends, direction=d)
    for n in (0, 1, 3):
        add("lines", source="text", sizes=[n], ends=[""])
    for d in ("tn", "itn"):
        add("missing_file", direction=d)
        add("both_inputs", direction=d)
    return t


def run(tier):
    return pycheck.run(
        "checks.c14", tasks(tier), 800 if tier == "thorough" else 240,
        bounds="six pipelines; every spelling of one option and of pairs of options, in three argument orders; boolean values and languages of "
               "up to 5 arbitrary printable characters; up to 4 input lines of up to 3 arbitrary code points with any line ending, from "
               "--text, --file, a given stream and the process's standard input",
        stubs=["the processors: tag and verbalize wrap their argument, so any other call, order or argument shows in the output",
               "open, print, sys streams: recorders; argparse is the standard library's own source, executed symbolically"],
        assumptions=["text-mode reading itself (decoding, universal newlines) is Python's"],
        scope=("tn.cli", ))


replay = pycheck.replay
