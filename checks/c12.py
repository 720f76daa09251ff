from vf import pycheck
from ._cachecommon import STUBS
from .cacheworld import world  # noqa: F401

HARNESS = "checks.h_cache"
S = dict


def tasks(tier):
    t = []
    big = tier == "thorough"

    def add(harness, split=None, every=7, **p):
        t.append(S(harness=harness, params=p, split=split, replay_every=every, max_steps=100000))

    K = ["absent", "file", "link", "dir", "fifo"]
    for how in ("invalid", "tmp", "previous", "corrupt", "foreign", "foreign2", "nodot", "lockname"):
        add("cleanup", how=how, names=["tagger.fst", "manifest.json", "notes.txt"], kinds=K, split=3)
        add("cleanup", how=how, names=["tagger.fst", "verbalizer.fst"], kinds=["absent", "file"], self_kind="l")
        if big:
            add("cleanup", how=how, names=["tagger.fst", "verbalizer.fst", "manifest.json", "tagger.fst.bak"], kinds=K, split=4, every=17)
    for how in (".DIGEST.tmp", ".DIGEST.tmpx", ".DIGEST.previous_release", ".DIGEST.previous", ".DIGEST.corrupted", ".DIGEST.corruptx", ".DIGESTtmp-x",
                ".DIGEST.Tmp-x", ".DIGEST.lock-x", ".DIGEST-tmp-x", "x.DIGEST.tmp-x", ".DIGEST.", ".DIGEST", ".DIGEST.other-x", ".DIGEST0.tmp-x", "DIGEST-x",
                ".DIGEST.tmp_x", "tmp-x", ".tmp-x", ".DIGEST.x.tmp-x"):
        add("cleanup", how=how, names=["tagger.fst"], kinds=["absent", "file"])
    add("replaced_during_cleanup", kmax=25)
    return t


def run(tier):
    return pycheck.run("checks.c12", tasks(tier), 800 if tier == "thorough" else 240,
        bounds="directories of up to 3 (thorough: 4) entries with known and foreign names, each absent, a file, a link, a directory or a fifo; own, foreign and 24 look-alike directory names; "
               "the directory itself a link, or swapped for a link at any operation",
        stubs=STUBS, assumptions=["inode identity decides what was deleted"], scope=("tn.cache", "tn.processor"))


replay = pycheck.replay
