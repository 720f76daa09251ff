from vf import pycheck

HARNESS = "checks.h_token"
S = dict


def tasks(tier):
    t = []
    big = tier == "thorough"

    def mf(n, head="", tail="", split=None, **k):
        t.append(S(harness="malformed", params=dict(n=n, head=head, tail=tail, **k), split=split, replay_every=9, max_steps=3000))

    for n in range(0, 8 if big else 7):
        mf(n, split=8 if n > 4 else None)
    for head in ("a ", "a {", "a { ", "a { b", "a { b:", 'a { b: "', 'a { b: "c', 'a { b: "\\', 'a { b: "c"', 'a { b: "c" ',
                 'a { b: "c" }', 'a { b: "c" } ', "a { }", "a { } b { "):
        for n in range(1, 5 if big else 4):
            mf(n, head=head, split=6 if n > 2 else None)
    mf(5, head="a { ", split=8)
    mf(5, head='a { b: "', split=8)
    for head, tail in (('a { b: "', '" }'), ("a { ", ' b: "c" }'), ('a { b: "c"', ' d: "e" }'), ("a", '{ b: "c" }'),
                       ("a { b", '"c" }'), ('a { b: "c" }', 'd { e: "f" }'), ("", 'a { b: "c" }'), ('a { b: "c" ', "}")):
        for n in (0, 1, 2, 3) + ((4, ) if big else ()):
            mf(n, head=head, tail=tail, split=6 if n > 1 else None)
    for before in ([None], ['a { b: "c" }'], ["a { b"], ['a { b: "c" } d { ', None]):
        for head, n in (("", 3), ('a { b: "c', 2), ('a { b: "c"', 2), ("a { ", 2), ('a { b: "c" } ', 2)):
            mf(n, head=head, before=before)
    for nf in (2, 3, 5):
        for a in range(nf):
            for b in range(a):
                t.append(S(harness="duplicate", params=dict(nfields=nf, a=a, b=b, vlen=1, ntok=1), replay_every=5))
    t.append(S(harness="duplicate", params=dict(nfields=2, a=1, b=0, vlen=1, ntok=2), replay_every=5))
    t.append(S(harness="duplicate", params=dict(nfields=30, a=29, b=0, vlen=0, ntok=1), replay_every=5))
    return t


def run(tier):
    return pycheck.run(
        "checks.c03", tasks(tier), 700 if tier == "thorough" else 300,
        bounds="every string of up to 6 Unicode scalar values; every string made of one of 14 prefixes of a well-formed "
               "stream and up to 3 (two of them 5) arbitrary characters; every string with up to 3 arbitrary characters "
               "inserted into 8 places of a well-formed stream; duplicated two-letter keys at every pair of positions of "
               "tokens with 2, 3, 5 and (first,last) 30 fields; texts of up to 3 arbitrary characters behind 5 prefixes read again after 4 histories of the same reader; 3000 interpreter loop steps",
        assumptions=["the reference grammar in checks/h_token.py is the intended wire grammar"],
        scope=("tn.token_parser", ))


replay = pycheck.replay
