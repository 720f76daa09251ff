from vf import pycheck

HARNESS = "checks.h_token"

S = dict


def tasks(tier):
    t = []

    def rt(shape, gap=0, dirty=False, split=None):
        t.append(S(harness="roundtrip", params=dict(shape=shape, gap=gap, dirty=dirty), split=split, replay_every=7))

    big = tier == "thorough"
    for vl in range(0, 6 if big else 5):
        rt([[1, [[1, vl]]]], split=6 if vl > 3 else None)
    rt([[2, [[2, 1], [2, 1]]]])
    rt([[1, [[1, 2], [1, 2]]]])
    rt([[1, [[1, 1], [1, 1], [1, 1]]]])
    rt([[1, [[1, 1]]], [1, [[1, 1]]]])
    rt([[1, [[1, 2]]], [1, [[1, 2]]]], split=6)
    rt([[1, []], [1, [[1, 1]]], [1, []]])
    rt([[3, []]])
    rt([[1, [[1, 1], [1, 1]]], [1, [[1, 1]]]], gap=1)
    rt([[1, [[1, 2]]]], gap=3)
    rt([[1, [[1, 1]]]], dirty=1)
    rt([[1, [[1, 1]]]], dirty=2)
    for pad in (15, 31, 63, 127, 254, 1022) + ((4094, ) if big else ()):
        rt([[1, [[1, [pad, 2]]]]])
    for nt, nf, vl in ((12, 1, 1), (3, 8, 2), (6, 2, 30)) + (((40, 1, 1), (2, 30, 1)) if big else ()):
        t.append(S(harness="long_stream", params=dict(ntok=nt, nfields=nf, vlen=vl), split=4, replay_every=50,
                   max_steps=400000))
    return t


def run(tier):
    return pycheck.run(
        "checks.c01", tasks(tier), 700 if tier == "thorough" else 240,
        bounds="streams of up to 3 tokens (up to 12 in the long family), up to 3 fields (8 long), names and keys of up to "
               "3 symbolic letters/underscores, values of up to 4 arbitrary Unicode scalar values (and 2 arbitrary "
               "characters behind up to 1022 plain ones), 0..3 extra spaces at each gap; parser reused after a "
               "truncated parse of up to 2 arbitrary characters",
        assumptions=["z3 decides linear integer constraints correctly",
                     "the AST rewriting preserves Python semantics (validated by replaying explored paths on the real code)"],
        scope=("tn.token_parser", ))


replay = pycheck.replay
