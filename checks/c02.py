from vf import pycheck

HARNESS = "checks.h_token"
S = dict


def tasks(tier):
    t = []
    big = tier == "thorough"

    def ro(split=None, **p):
        t.append(S(harness="reorder", params=p, split=split, replay_every=5))

    for nf in range(0, 4):
        for no in range(0, 4):
            ro(ntok=1, nfields=nf, norder=no, vlen=1 if nf < 3 else 0, split=6 if nf > 2 else None)
    ro(ntok=1, nfields=4, norder=3, vlen=0, split=8)
    ro(ntok=2, nfields=2, norder=2, vlen=0, split=8)
    ro(ntok=2, nfields=1, norder=2, vlen=1, split=6)
    ro(ntok=3, nfields=1, norder=1, vlen=0, split=6)
    ro(ntok=1, nfields=2, norder=2, vlen=1, gap=2, split=6)
    free = [(32, 33), (35, 91), (93, 0xD7FF), (0xE000, 0x10FFFF)]  # anything but quote and backslash
    for at in (0, 1, 2):
        for io in (None, 0, 2):
            ro(ntok=1, nfields=2, norder=2, vlen=0, preserve=dict(at=at, len=4, in_order=io, chars=free), split=4)
    for ln in (0, 1, 2, 3, 5):
        ro(ntok=1, nfields=2, norder=2, vlen=0, preserve=dict(at=1, len=ln, in_order=None, chars=free), split=4)
    ro(ntok=2, nfields=1, norder=1, vlen=0, preserve=dict(at=0, len=4, in_order=None, chars=free), split=6)
    ro(ntok=1, nfields=1, norder=1, vlen=0, preserve=dict(at=1, len=4, in_order=None), split=6)
    if big:
        ro(ntok=1, nfields=4, norder=4, vlen=1, split=10)
        ro(ntok=2, nfields=3, norder=2, vlen=0, split=10)
        ro(ntok=1, nfields=5, norder=3, vlen=0, split=10)
    return t


def run(tier):
    return pycheck.run(
        "checks.c02", tasks(tier), 700 if tier == "thorough" else 300,
        bounds="1 to 3 tokens, up to 4 fields each plus preserve_order at any position, one canonical order of up to 3 "
               "keys (plus preserve_order at any place in it); token names, keys and the canonical order are symbolic "
               "letters, so every coincidence pattern is covered; values of up to 1 arbitrary character, "
               "preserve_order values of 0..5 arbitrary characters (without quote and backslash where more than one other "
               "field is present)",
        assumptions=["keys longer than one letter behave as single letters do (key reading is decided by C01)"],
        scope=("tn.token_parser", ))


replay = pycheck.replay
