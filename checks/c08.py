from vf import pycheck
from ._cachecommon import STUBS
from .cacheworld import world  # noqa: F401

HARNESS = "checks.h_cache"
S = dict


def tasks(tier):
    t = []
    big = tier == "thorough"

    def add(harness, split=None, every=7, **p):
        t.append(S(harness=harness, params=p, split=split, replay_every=every, max_steps=100000))

    for w in ("none", "content", "swap", "missing", "extra", "link", "dir", "fifo", "ancestor", "unreadable", "big_manifest"):
        add("load_tampered", what=w)
    add("load_tampered", what="content", m2=1)
    add("load_tampered", what="content", m2=3)
    add("load_tampered", what="content", n=0, m2=1)
    for f in ("builder", "bundle_digest", "cache_format", "config", "config_digest", "ordertype", "prefix", "source_fingerprint"):
        for how in ("str", "int", "none", "near", "drop"):
            add("manifest_fields", field=f, how=how)
    add("manifest_fields", field="files", how="list")
    for how in ("none", "missing", "extra", "drop"):
        add("manifest_fields", field="files", how=how)
    for f in ("_t", "_v"):
        for how in ("int", "none", "true", "str"):
            add("manifest_fields", field="size" + f, how=how)
        for how in ("other", "none"):
            add("manifest_fields", field="sha" + f, how=how)
        for how in ("none", "list"):
            add("manifest_fields", field="meta" + f, how=how)
    for n in (1, 2, 3):
        for w in ("short", "grow", "shrink", "rewrite"):
            add("read_race", n=n, what=w, split=5)
    for old in (False, True):
        add("writer_race", old=old, kmax=90, split=8, every=13)
    return t


def run(tier):
    return pycheck.run("checks.c08", tasks(tier), 800 if tier == "thorough" else 240,
        bounds="one tampering per bundle: any content of up to 3 bytes in either graph file, each file missing/linked/replaced by a directory or fifo, extra entries, "
               "linked ancestors, each manifest field with any 2-character string, any integer, null, a near miss or absent, sizes from -3 to 2^70; "
               "short reads and one change between any two reads; one whole publication by another process between any two file system operations of a load",
        stubs=STUBS, assumptions=["SHA-256 has no collisions"], scope=("tn.cache", "tn.processor"))


replay = pycheck.replay
